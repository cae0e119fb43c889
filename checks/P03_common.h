#pragma once
// P03: stateful, model-based histories over a pool of dynamic objects, on
// std::allocator and on a tracking allocator that counts live blocks, checks
// sizes on deallocation and can be told to fail.
#include <memory>
#include <new>
#include <set>
#include <map>

struct TrackStats {
  long live = 0, bytes = 0; long fail_after = -1;
  std::map<void*, size_t> blocks;
  const char* error = nullptr;
};
inline TrackStats TS;
template <class T> struct Track {
  using value_type = T;
  Track() = default;
  template <class U> Track(const Track<U>&) {}
  T* allocate(size_t n) {
    if (TS.fail_after == 0) { TS.fail_after = -1; throw std::bad_alloc(); }
    if (TS.fail_after > 0) --TS.fail_after;
    T* p = std::allocator<T>().allocate(n);
    TS.blocks[p] = n * sizeof(T);
    return p;
  }
  void deallocate(T* p, size_t n) {
    if (!p) { if (n) TS.error = "null deallocated with a size"; return; }
    auto it = TS.blocks.find(p);
    if (it == TS.blocks.end()) { TS.error = "deallocated a block that is not live"; return; }
    if (it->second != n * sizeof(T)) TS.error = "deallocated with the wrong size";
    TS.blocks.erase(it);
    std::allocator<T>().deallocate(p, n);
  }
  template <class U> bool operator==(const Track<U>&) const { return true; }
  template <class U> bool operator!=(const Track<U>&) const { return false; }
};
template <class A> constexpr bool tracked = false;
template <class T> constexpr bool tracked<Track<T>> = true;

// a model element: nullopt-like "not specified" after a growing resize
template <class E> struct ME { E v{}; bool known = false; ME() = default; ME(E e) : v(e), known(true) {} };
template <class E> using MV = std::vector<ME<E>>;
template <class E> MV<E> kn(const std::vector<E>& x) { return MV<E>(x.begin(), x.end()); }

struct NoFault { NoFault() { TS.fail_after = -1; } ~NoFault() { TS.fail_after = -1; } };

template <class E, class A> void vec_history(Gen& g) {
  using V = vector<E, dynamic<A>>;
  const int NS = 3;
  if (tracked<A>) { TS.blocks.clear(); TS.error = nullptr; TS.fail_after = -1; }
  NoFault nf;
  {
    std::unique_ptr<V> s[NS];
    MV<E> m[NS];
    bool held[NS] = {};
    auto val = [&] { return fw::any_value<E>(g); };
    auto vals = [&](int n) { std::vector<E> r(n); for (auto& e : r) e = val(); return r; };
    auto check = [&](const char* op) {
      if (TS.error && tracked<A>) fw::fail_at(__FILE__, __LINE__, std::string(op) + ": " + TS.error);
      std::set<const E*> ptrs; size_t nonempty = 0;
      for (int k = 0; k < NS; ++k) {
        REQUIRE(held[k] == !!s[k], << "harness");
        if (!s[k]) continue;
        const V& v = *s[k];
        REQUIRE(v.size() == (int)m[k].size(), << op << ": slot " << k << " size " << v.size() << " want " << m[k].size());
        REQUIRE(v.end() - v.begin() == v.size(), << op << ": slot " << k << " end-begin");
        for (int i = 0; i < v.size(); ++i) if (m[k][i].known)
          REQUIRE(fw::same<E>(v[i], m[k][i].v) && fw::same<E>(v.data()[i], m[k][i].v), << op << ": slot " << k << " element " << i << " is " << +v[i] << " want " << +m[k][i].v);
        if (v.size()) { ptrs.insert(v.data()); ++nonempty; }
      }
      REQUIRE(ptrs.size() == nonempty, << op << ": two objects share storage");
      if (tracked<A>) for (auto p : ptrs) REQUIRE(TS.blocks.count((void*)p), << op << ": storage not from the allocator or freed");
      if (tracked<A>) {
        size_t nb = 0; for (auto& b : TS.blocks) if (b.second) ++nb;
        REQUIRE(nb == nonempty, << op << ": " << nb << " live blocks for " << nonempty << " non-empty objects");
      }
    };
    auto adopt = [&](int k) { m[k].assign(s[k]->size(), ME<E>()); };  // valid but unspecified
    for (int k = 0; k < NS; ++k) if (g.chance(3, 4)) {
      auto x = vals((int)g.range(0, 6)); s[k] = std::make_unique<V>(x.data(), (int)x.size()); held[k] = true; m[k] = kn(x);
    }
    int steps = (int)g.range(1, 20), growth = 0, moves = 0;
    for (int st = 0; st < steps; ++st) {
      int a = (int)g.below(NS), b = (int)g.below(NS);
      int op = (int)g.below(24);
      int n = g.chance(1, 12) ? (int)g.range(0, 60) : (int)g.range(0, 9);
      bool fault = tracked<A> && g.chance(1, 8);
      g.note([&](auto& o) { o << "op" << op << " a=" << a << " b=" << b << " n=" << n << (fault ? " allocfail" : ""); });
      if (fault) TS.fail_after = (long)g.below(2);
      auto before = m[a]; bool had = held[a];
      try {
        auto put = [&](std::unique_ptr<V> p, MV<E> w) { TS.fail_after = -1; s[a] = std::move(p); held[a] = true; m[a] = std::move(w); };
        switch (op) {
          case 0: put(std::make_unique<V>(), {}); break;
          case 1: put(std::make_unique<V>(n), MV<E>(n)); break;
          case 2: { auto x = vals(n); put(std::make_unique<V>(x.data(), n), kn(x)); break; }
          case 3: { E e = val(), f = val(); if (std::is_integral_v<E>) put(std::make_unique<V>(V{e, f}), {e, f}); else put(std::make_unique<V>(e, f), {e, f}); break; }
          case 4: if (s[b] && a != b) put(std::make_unique<V>(*s[b]), m[b]); break;
          case 5: if (s[b] && a != b) { put(std::make_unique<V>(std::move(*s[b])), m[b]); m[b].clear(); ++moves; } break;
          case 6: { vector<E, fixed<3>> f(1, 2, 3); f[1] = val(); put(std::make_unique<V>(f), {f[0], f[1], f[2]}); break; }
          case 7: if (s[a]) { s[a]->resize(n); if (n > (int)m[a].size()) ++growth; m[a].resize(n); } break;
          case 8: if (s[a]) { s[a]->resize_fast(n); if (n != (int)m[a].size()) m[a].assign(n, ME<E>()); } break;
          case 9: if (s[a]) { int neg = -1 - n * n * n; if (g.coin()) REQUIRE_THROWS(std::invalid_argument, s[a]->resize(neg)); else REQUIRE_THROWS(std::invalid_argument, s[a]->resize_fast(neg)); } break;
          case 10: { int neg = -1 - n; E e = 1; REQUIRE_THROWS(std::invalid_argument, V(neg)); REQUIRE_THROWS(std::invalid_argument, V(&e, neg)); break; }
          case 11: if (s[a] && s[b]) { *s[a] = *s[b]; m[a] = m[b]; } break;   // self included
          case 12: if (s[a] && s[b]) { *s[a] = std::move(*s[b]); if (a != b) m[a] = m[b]; TS.fail_after = -1; ++moves; adopt(b); if (a == b) {} } break;
          case 13: if (s[a]) { auto x = vals(4); E arr[4] = {x[0], x[1], x[2], x[3]}; *s[a] = arr; m[a] = kn(x); } break;
          case 14: if (s[a]) { E e = val(), f = val(); *s[a] = {e, f}; m[a] = {e, f}; } break;
          case 15: if (s[a]) { auto x = vals(n); *s[a] = vector<E, dynamic<>>(x.data(), n); m[a] = kn(x); } break;
          case 16: if (s[a]) { auto x = vals(n); std::unique_ptr<E[]> w(new E[n]); for (int i = 0; i < n; ++i) w[i] = x[i]; *s[a] = vector<E, external<>>(w.get(), n); m[a] = kn(x); } break;
          case 17: if (s[a]) { for (int i = 0; i < s[a]->size(); ++i) if (!m[a][i].known) { E e = val(); (*s[a])[i] = e; m[a][i] = e; } } break;
          case 18: if (s[a] && s[a]->size()) { int i = (int)g.below(s[a]->size()); E e = val(); (*s[a])[i] = e; m[a][i] = e; } break;
          case 19: if (s[a] && s[b] && a != b) { using std::swap; swap(*s[a], *s[b]); std::swap(m[a], m[b]); ++moves; } break;
          case 20: if (s[a]) { s[a].reset(); held[a] = false; m[a].clear(); } break;
          case 21: if (s[a]) { E e = val(); auto x = vals(n); *s[a] = V(vector<E, dynamic<A>>(x.data(), n), e); m[a] = kn(x); m[a].push_back(e); } break;
          case 22: if (s[b] && a != b) { // through a growing container
              std::vector<V> c; c.push_back(*s[b]); for (int i = 0; i < n; ++i) c.push_back(V(i)); c.erase(c.begin() + (int)g.below(c.size()), c.end());
              TS.fail_after = -1;
              if (!c.empty()) { put(std::make_unique<V>(c[0]), m[b]); } } break;
          default: if (s[a]) { E e = val(), f = val(), h = val(); s[a]->set(e, f, h); m[a] = {e, f, h}; } break;
        }
      } catch (const std::bad_alloc&) {
        REQUIRE(fault, << "bad_alloc without an injected failure in op " << op);
        g.label("allocation failure injected");
        REQUIRE(held[a] == had, << "harness");
        m[a] = before;   // strong guarantee: the target is as it was
      }
      TS.fail_after = -1;
      check("after step");
    }
    g.nontrivial(steps >= 4 && (growth || moves));
  }
  if (tracked<A>) {
    REQUIRE(!TS.error, << TS.error);
    REQUIRE(TS.blocks.empty(), << TS.blocks.size() << " blocks leaked");
  }
}

// ---- matrices -------------------------------------------------------------
template <class E> struct MM { int r = 0, c = 0; MV<E> d; };  // d in storage order
template <class E, class A, class Bo, class L> void mat_history(Gen& g) {
  using M = matrix<E, dynamic<A>, Bo, L>;
  constexpr bool rm = std::is_same_v<L, row_major>;
  const int NS = 3;
  if (tracked<A>) { TS.blocks.clear(); TS.error = nullptr; TS.fail_after = -1; }
  NoFault nf;
  {
    std::unique_ptr<M> s[NS];
    MM<E> m[NS];
    auto val = [&] { return fw::any_value<E>(g); };
    auto vals = [&](int n) { std::vector<E> r(n); for (auto& e : r) e = val(); return r; };
    // row-ordered values -> storage-ordered model
    auto rows = [&](int r, int c, const std::vector<E>& x) {
      MM<E> w; w.r = r; w.c = c; w.d.resize(r * c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) w.d[rm ? i * c + j : j * r + i] = x[i * c + j];
      return w; };
    auto check = [&](const char* op) {
      if (TS.error && tracked<A>) fw::fail_at(__FILE__, __LINE__, std::string(op) + ": " + TS.error);
      std::set<const E*> ptrs; size_t nonempty = 0;
      for (int k = 0; k < NS; ++k) {
        if (!s[k]) continue;
        const M& v = *s[k]; const MM<E>& w = m[k];
        REQUIRE(v.rows() == w.r && v.cols() == w.c, << op << ": slot " << k << " shape " << v.rows() << "x" << v.cols() << " want " << w.r << "x" << w.c);
        REQUIRE(v.end() - v.begin() == w.r * w.c, << op << ": end-begin");
        for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) {
          auto& e = w.d[rm ? i * w.c + j : j * w.r + i];
          if (e.known) REQUIRE(fw::same<E>(v(i, j), e.v), << op << ": slot " << k << " (" << i << "," << j << ") is " << +v(i, j) << " want " << +e.v);
        }
        if (w.r * w.c) { ptrs.insert(v.data()); ++nonempty; }
      }
      REQUIRE(ptrs.size() == nonempty, << op << ": two objects share storage");
      if (tracked<A>) {
        for (auto p : ptrs) REQUIRE(TS.blocks.count((void*)p), << op << ": storage not live");
        size_t nb = 0; for (auto& b : TS.blocks) if (b.second) ++nb;
        REQUIRE(nb == nonempty, << op << ": " << nb << " live blocks for " << nonempty << " non-empty objects");
      }
    };
    auto adopt = [&](int k) { m[k].r = s[k]->rows(); m[k].c = s[k]->cols(); m[k].d.assign(m[k].r * m[k].c, ME<E>()); };
    auto reshape = [&](MM<E>& w, int r, int c, bool keep) {
      if (!keep && r * c != w.r * w.c) w.d.assign(r * c, ME<E>()); else w.d.resize(r * c);
      w.r = r; w.c = c; };
    for (int k = 0; k < NS; ++k) if (g.chance(3, 4)) {
      int r = (int)g.range(0, 4), c = (int)g.range(0, 4); auto x = vals(r * c);
      s[k] = std::make_unique<M>(x.data(), r, c); m[k] = rows(r, c, x);
    }
    int steps = (int)g.range(1, 18), resized = 0, moves = 0;
    for (int st = 0; st < steps; ++st) {
      int a = (int)g.below(NS), b = (int)g.below(NS);
      int op = (int)g.below(22);
      int r = (int)g.range(0, 4), c = (int)g.range(0, 4);
      bool fault = tracked<A> && g.chance(1, 8);
      g.note([&](auto& o) { o << "op" << op << " a=" << a << " b=" << b << " " << r << "x" << c << (fault ? " allocfail" : ""); });
      if (fault) TS.fail_after = (long)g.below(2);
      auto before = m[a];
      try {
        auto put = [&](std::unique_ptr<M> p, MM<E> w) { TS.fail_after = -1; s[a] = std::move(p); m[a] = std::move(w); };
        switch (op) {
          case 0: put(std::make_unique<M>(), {}); break;
          case 1: { MM<E> w; w.r = r; w.c = c; w.d.resize(r * c); put(std::make_unique<M>(r, c), w); break; }
          case 2: { auto x = vals(r * c); put(std::make_unique<M>(x.data(), r, c), rows(r, c, x)); break; }
          case 3: { auto x = vals(6); put(std::make_unique<M>(2, 3, x[0], x[1], x[2], x[3], x[4], x[5]), rows(2, 3, x)); break; }
          case 4: if (s[b] && a != b) put(std::make_unique<M>(*s[b]), m[b]); break;
          case 5: if (s[b] && a != b) { put(std::make_unique<M>(std::move(*s[b])), m[b]); m[b] = MM<E>(); ++moves; } break;
          case 6: { auto x = vals(6); E arr[3][2] = {{x[0], x[1]}, {x[2], x[3]}, {x[4], x[5]}}; put(std::make_unique<M>(arr), rows(3, 2, x)); break; }
          case 7: if (s[a]) { s[a]->resize(r, c); reshape(m[a], r, c, true); ++resized; } break;
          case 8: if (s[a]) { s[a]->resize_fast(r, c); reshape(m[a], r, c, false); ++resized; } break;
          case 9: if (s[a]) {
              int nr = g.coin() ? -1 - r : r, nc = nr < 0 ? (g.coin() ? c : -1 - c) : -1 - c;
              if (g.coin()) REQUIRE_THROWS(std::invalid_argument, s[a]->resize(nr, nc)); else REQUIRE_THROWS(std::invalid_argument, s[a]->resize_fast(nr, nc));
            } break;
          case 10: { E e = 1; REQUIRE_THROWS(std::invalid_argument, M(-1 - r, c)); REQUIRE_THROWS(std::invalid_argument, M(r, -1 - c)); REQUIRE_THROWS(std::invalid_argument, M(&e, -1 - r, -1)); break; }
          case 11: if (s[a] && s[b]) { *s[a] = *s[b]; m[a] = m[b]; } break;
          case 12: if (s[a] && s[b]) { *s[a] = std::move(*s[b]); if (a != b) m[a] = m[b]; TS.fail_after = -1; ++moves; adopt(b); } break;
          case 13: if (s[a]) { auto x = vals(6); E arr[2][3] = {{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}; *s[a] = arr; m[a] = rows(2, 3, x); } break;
          case 14: if (s[a]) { auto x = vals(r * c);
              // other layout, converted through an expression
              using O = matrix<E, dynamic<>, Bo, std::conditional_t<rm, col_major, row_major>>;
              O o(x.data(), r, c); *s[a] = o; m[a] = rows(r, c, x); } break;
          case 15: if (s[a]) for (int i = 0; i < m[a].r; ++i) for (int j = 0; j < m[a].c; ++j) { auto& e = m[a].d[rm ? i * m[a].c + j : j * m[a].r + i]; if (!e.known) { E x = val(); (*s[a])(i, j) = x; e = x; } } break;
          case 16: if (s[a] && m[a].r * m[a].c) { int i = (int)g.below(m[a].r), j = (int)g.below(m[a].c); E x = val(); s[a]->put(i, j, x); m[a].d[rm ? i * m[a].c + j : j * m[a].r + i] = x; } break;
          case 17: if (s[a] && s[b] && a != b) { using std::swap; swap(*s[a], *s[b]); std::swap(m[a], m[b]); ++moves; } break;
          case 18: s[a].reset(); m[a] = MM<E>(); break;
          case 19: if (s[a]) { // in-place transpose of any shape
              bool all = true; for (auto& e : m[a].d) all = all && e.known; if (!all) break;
              s[a]->transpose(); MM<E> w; w.r = m[a].c; w.c = m[a].r; w.d.resize(w.r * w.c);
              for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) w.d[rm ? i * w.c + j : j * w.r + i] = m[a].d[rm ? j * m[a].c + i : i * m[a].r + j];
              m[a] = w; } break;
          case 20: { // wrong number of elements (5 never fits: r, c <= 4): rejected, nothing leaked
              auto x = vals(5); E arr[5] = {x[0], x[1], x[2], x[3], x[4]}; int k = (int)g.below(2); bool rejected = false;
              if (r * c == 0) r = c = 2;
              try { if (k == 0) M t(r, c, x[0], x[1], x[2], x[3], x[4]); else M t(r, c, arr); } catch (const std::runtime_error&) { rejected = true; }
              REQUIRE(rejected, << "5 elements accepted for a " << r << "x" << c << " matrix"); break; }
          default: if (s[b] && a != b) { std::vector<M> cc; cc.push_back(*s[b]); for (int i = 0; i < r; ++i) cc.push_back(M(i, c)); TS.fail_after = -1; put(std::make_unique<M>(cc[0]), m[b]); } break;
        }
      } catch (const std::bad_alloc&) {
        REQUIRE(fault, << "bad_alloc without an injected failure in op " << op);
        g.label("allocation failure injected");
        m[a] = before;
      }
      TS.fail_after = -1;
      check("after step");
    }
    g.nontrivial(steps >= 4 && (resized || moves));
  }
  if (tracked<A>) {
    REQUIRE(!TS.error, << TS.error);
    REQUIRE(TS.blocks.empty(), << TS.blocks.size() << " blocks leaked");
  }
}
