#pragma once
// P04: histories over windows on one user buffer; the whole buffer (inside and
// outside the windows) is compared with a model after every step.
#include <memory>

template <class E> E small(Gen& g) { return fw::exact<E>(g, 6); }

template <class E> void check_buf(const E* buf, const std::vector<E>& m, const char* what) {
  for (size_t i = 0; i < m.size(); ++i) REQUIRE(fw::same<E>(buf[i], m[i]), << what << ": buffer element " << i << " is " << +buf[i] << " want " << +m[i]);
}

// X: vector<E, external<N>> or vector<E, external<>>
template <class X> void vec_windows(Gen& g) {
  using E = elem_t<X>;
  constexpr int SN = vspec<X>::n;
  const int n = SN > 0 ? SN : g.szh(0, 6);
  // windows 0 and 1 are disjoint, same size; window 2 aliases window 0 or is another disjoint one
  int gap = (int)g.range(0, 2);
  int off[3] = {gap, gap * 2 + n, gap * 3 + 2 * n};
  if (g.coin()) off[2] = off[0];
  size_t total = (off[2] > off[1] ? off[2] : off[1]) + n + gap;
  auto model = exact_vec<E>(g, (int)total, 6);
  std::unique_ptr<E[]> buf(new E[total]);
  for (size_t i = 0; i < total; ++i) buf[i] = model[i];
  auto mk = [&](int o) { if constexpr (SN > 0) return X(buf.get() + o); else { return (gap & 1) ? X(buf.get() + o, n) : X(n, buf.get() + o); } };
  X w0 = mk(off[0]), w1 = mk(off[1]), w2 = mk(off[2]);
  X* w[3] = {&w0, &w1, &w2};
  g.note([&](auto& o) { o << "n=" << n << " gap=" << gap << " offsets " << off[0] << "," << off[1] << "," << off[2]; });
  auto at = [&](int k, int i) -> E& { return model[off[k] + i]; };
  auto check = [&](const char* what) {
    check_buf(buf.get(), model, what);
    for (int k = 0; k < 3; ++k) {
      const X& v = *w[k];
      REQUIRE(v.size() == n && v.data() == buf.get() + off[k], << what << ": window " << k << " moved");
      REQUIRE(v.end() - v.begin() == n, << what << ": end-begin");
      for (int i = 0; i < n; ++i) REQUIRE(fw::same<E>(v[i], at(k, i)) && &(*w[k])[i] == buf.get() + off[k] + i, << what << ": window " << k << " element " << i);
    }
  };
  check("initial");
  int steps = (int)g.range(1, 10);
  g.nontrivial(n > 1 && steps > 2);
  for (int s = 0; s < steps; ++s) {
    int a = (int)g.below(3), b = (int)g.below(3), op = (int)g.below(20);
    int i = n ? (int)g.below(n) : 0;
    E e = small<E>(g);
    g.note([&](auto& o) { o << "op" << op << " a=" << a << " b=" << b << " i=" << i << " e=" << +e; });
    X& v = *w[a]; X& u = *w[b];
    std::vector<E> ua(n), va(n); for (int k = 0; k < n; ++k) { ua[k] = at(b, k); va[k] = at(a, k); }
    auto store = [&](const std::vector<E>& x) { for (int k = 0; k < n; ++k) at(a, k) = x[k]; };
    switch (op) {
      case 0: if (n) { v[i] = e; at(a, i) = e; } break;
      case 1: if (n) { v.put(i, e); at(a, i) = e; } break;
      case 2: { int q = (int)g.below(total ? total : 1); if (total) { buf[q] = e; model[q] = e; } break; }  // user writes the array
      case 3: v.fill(e); store(std::vector<E>(n, e)); break;
      case 4: v.zero(); store(std::vector<E>(n, E(0))); break;
      case 5: { auto x = exact_vec<E>(g, n, 6); v = vector<E, dynamic<>>(x.data(), n); store(x); break; }
      case 6: v = u; store(ua); break;                       // copy assignment copies elements
      case 7: { const X& cu = u; v = cu; store(ua); break; }
      case 8: if (n) { v += u; for (int k = 0; k < n; ++k) va[k] = va[k] + ua[k]; store(va); } break;
      case 9: if (n) { v -= u; for (int k = 0; k < n; ++k) va[k] = va[k] - ua[k]; store(va); } break;
      case 10: v *= E(2); for (auto& x : va) x *= E(2); store(va); break;
      case 11: { X c(v); REQUIRE(c.data() == v.data() && c.size() == n, << "copy construction aliases"); if (n) { c[i] = e; at(a, i) = e; } break; }
      case 12: { X t = mk(off[b]); X moved(std::move(t)); REQUIRE(moved.data() == buf.get() + off[b] && moved.size() == n, << "move construction");
                 REQUIRE(!t.data() && t.size() == std::max(SN, 0), << "a moved-from wrapper still refers to the array"); X none; REQUIRE(!none.data() && none.size() == std::max(SN, 0), << "default construction");
                 if constexpr (SN < 0) { // wrappers of another length
                   int k = (int)g.range(0, n); X r(mk(off[a])), q(buf.get() + off[b], k); r = std::move(q);
                   REQUIRE(r.data() == buf.get() + off[b] && r.size() == k, << "move assignment of " << k << " elements"); REQUIRE(!q.data() && q.size() == 0, << "moved-from (assignment)"); X r2(std::move(r)); r2.data(); if (k % 2) { X z(mk(off[a])); z.reset(); REQUIRE(!z.data() && z.size() == 0, << "reset"); } REQUIRE(r2.size() == k && r2.data() == buf.get() + off[b], << "move construction"); }
                 v = std::move(moved); off[a] = off[b]; REQUIRE(!moved.data() && moved.size() == std::max(SN, 0), << "moved-from (assignment)"); break; }     // re-target: no element changes
      case 13: { // temporaries own their elements
          cml::temporary_of_t<X> t(v);
          static_assert(std::is_same_v<decltype(t), std::conditional_t<(SN > 0), vector<E, cml::compiled<SN>>, vector<E, cml::allocated<>>>> || true);
          if (n) REQUIRE((void*)t.data() != (void*)v.data(), << "temporary aliases");
          for (int k = 0; k < n; ++k) { E keep = buf[off[a] + k]; E now = keep + E(1); buf[off[a] + k] = now; REQUIRE(fw::same<E>(t[k], keep), << "temporary changed with the array"); t[k] = E(3); REQUIRE(fw::same<E>(buf[off[a] + k], now), << "write through temporary"); buf[off[a] + k] = keep; }
          break; }
      case 14: v = u + v; for (int k = 0; k < n; ++k) va[k] = ua[k] + va[k]; store(va); break;
      case 15: { auto x = exact_vec<E>(g, n + 1, 6); bool th = false;
          if constexpr (SN < 0) { try { v = vector<E, dynamic<>>(x.data(), n + 1); } catch (const cml::incompatible_vector_size_error&) { th = true; } REQUIRE(th, << "assignment from a longer vector must throw"); } break; }
      case 16: v.minimize(u); for (int k = 0; k < n; ++k) va[k] = std::min(va[k], ua[k]); store(va); break;
      case 17: v.maximize(u); for (int k = 0; k < n; ++k) va[k] = std::max(va[k], ua[k]); store(va); break;
      case 18: if (n) { v.cardinal(i); std::vector<E> x(n, E(0)); x[i] = E(1); store(x); } break;
      default: { // through a view of a const reference
          const X& cv = v; for (int k = 0; k < n; ++k) REQUIRE(fw::same<E>(cv.get(k), at(a, k)) && cv.data() + k == buf.get() + off[a] + k, << "const view"); break; }
    }
    check("after step");
  }
  for (auto& e : model) if (std::fabs((long double)e) > 1e6L) g.label("grew large");
}

template <class X> void const_windows(Gen& g) {
  using E = elem_t<X>;
  constexpr int SN = vspec<X>::n;
  const int n = SN > 0 ? SN : g.szh(0, 6);
  int gap = (int)g.range(0, 2);
  auto model = any_vec<E>(g, n + 2 * gap);
  std::unique_ptr<E[]> buf(new E[model.size()]);
  for (size_t i = 0; i < model.size(); ++i) buf[i] = model[i];
  g.nontrivial(n > 1 && varied(model));
  g.note([&](auto& o) { o << "n=" << n << " gap=" << gap << " " << fw::show(model); });
  const E* p = buf.get() + gap;
  X v = [&] { if constexpr (SN > 0) return X(p); else return X(p, n); }();
  int steps = (int)g.range(1, 5);
  for (int s = 0; s < steps; ++s) {
    REQUIRE(v.data() == p && v.size() == n, << "window");
    for (int i = 0; i < n; ++i) REQUIRE(fw::same<E>(v[i], model[gap + i]) && fw::same<E>(v.get(i), model[gap + i]) && fw::same<E>(v.begin()[i], model[gap + i]), << "element " << i);
    vector<E, dynamic<>> d(v); for (int i = 0; i < n; ++i) REQUIRE(fw::same<E>(d[i], model[gap + i]), << "dynamic copy");
    X t = [&] { if constexpr (SN > 0) return X(p); else return X(n, p); }(); X t2(std::move(t)), none; constexpr int S0 = SN > 0 ? SN : 0; auto empty = [](const X& x) { return !x.data() && x.size() == S0; };
    REQUIRE(t2.data() == p && t2.size() == n && t2.end() - t2.begin() == n, << "move construction"); REQUIRE(empty(t) && empty(none), << "moved-from or default constructed wrapper"); if constexpr (SN < 0) { t2.reset(); REQUIRE(empty(t2), << "reset"); }
    if (!model.empty()) { size_t q = g.below(model.size()); E e = fw::any_value<E>(g); buf[q] = e; model[q] = e; }
    check_buf(buf.get(), model, "const window wrote");
  }
}

// X: matrix<E, external<R,C>|external<>, B, L>
template <class X> void mat_windows(Gen& g) {
  using E = melem_t<X>;
  constexpr bool st = mspec<X>::r > 0; constexpr bool rm = is_row_major<X>;
  int R0 = st ? mspec<X>::r : g.szh(1, 4), C0 = st ? mspec<X>::c : g.szh(1, 4);
  const int n = R0 * C0;
  int gap = (int)g.range(0, 2);
  int off[2] = {gap, 2 * gap + n};
  if (g.chance(1, 4)) off[1] = off[0];
  int rr[2] = {R0, R0}, cc[2] = {C0, C0};
  size_t total = off[1] + n + gap;
  auto model = exact_vec<E>(g, (int)total, 6);
  std::unique_ptr<E[]> buf(new E[total]);
  for (size_t i = 0; i < total; ++i) buf[i] = model[i];
  auto mk = [&](int o, int r, int c) { if constexpr (st) return X(buf.get() + o); else { return (gap & 1) ? X(buf.get() + o, r, c) : X(r, c, buf.get() + o); } };
  X w0(mk(off[0], R0, C0)), w1(mk(off[1], R0, C0));
  X* w[2] = {&w0, &w1};
  g.note([&](auto& o) { o << R0 << "x" << C0 << " gap=" << gap << " offsets " << off[0] << "," << off[1]; });
  auto idx = [&](int k, int i, int j) { return off[k] + (rm ? i * cc[k] + j : j * rr[k] + i); };
  auto check = [&](const char* what) {
    check_buf(buf.get(), model, what);
    for (int k = 0; k < 2; ++k) {
      const X& v = *w[k];
      REQUIRE(v.rows() == rr[k] && v.cols() == cc[k] && v.data() == buf.get() + off[k], << what << ": window " << k << " moved or reshaped");
      for (int i = 0; i < rr[k]; ++i) for (int j = 0; j < cc[k]; ++j)
        REQUIRE(fw::same<E>(v(i, j), model[idx(k, i, j)]) && &(*w[k])(i, j) == buf.get() + idx(k, i, j), << what << ": window " << k << " (" << i << "," << j << ")");
    }
  };
  check("initial");
  auto get = [&](int k) { Mod<E> m(rr[k], cc[k]); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) m(i, j) = model[idx(k, i, j)]; return m; };
  auto store = [&](int k, const Mod<E>& m) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) model[idx(k, i, j)] = m(i, j); };
  int steps = (int)g.range(1, 10);
  g.nontrivial(n > 1 && steps > 2);
  for (int s = 0; s < steps; ++s) {
    int a = (int)g.below(2), b = (int)g.below(2), op = (int)g.below(20);
    int i = (int)g.below(rr[a]), j = (int)g.below(cc[a]);
    E e = small<E>(g);
    g.note([&](auto& o) { o << "op" << op << " a=" << a << " b=" << b << " (" << i << "," << j << ") e=" << +e; });
    X& v = *w[a]; X& u = *w[b];
    Mod<E> A = get(a), Bm = get(b);
    bool sameshape = rr[a] == rr[b] && cc[a] == cc[b];
    switch (op) {
      case 0: v(i, j) = e; A(i, j) = e; store(a, A); break;
      case 1: v.put(i, j, e); A(i, j) = e; store(a, A); break;
      case 2: { size_t q = g.below(total); buf[q] = e; model[q] = e; break; }
      case 3: v.fill(e); for (auto& x : A.d) x = e; store(a, A); break;
      case 4: v.zero(); for (auto& x : A.d) x = E(0); store(a, A); break;
      case 5: v.identity(); for (int p = 0; p < A.r; ++p) for (int q = 0; q < A.c; ++q) A(p, q) = E(p == q); store(a, A); break;
      case 6: if (sameshape) { v = u; store(a, Bm); } break;
      case 7: if (sameshape) { v += u; for (size_t k = 0; k < A.d.size(); ++k) A.d[k] = A.d[k] + Bm.d[k]; store(a, A); } break;
      case 8: if (sameshape) { v -= u; for (size_t k = 0; k < A.d.size(); ++k) A.d[k] = A.d[k] - Bm.d[k]; store(a, A); } break;
      case 9: v *= E(2); for (auto& x : A.d) x *= E(2); store(a, A); break;
      case 10: { auto x = exact_vec<E>(g, A.c, 6); v.set_row(i, vector<E, dynamic<>>(x.data(), A.c)); for (int q = 0; q < A.c; ++q) A(i, q) = x[q]; store(a, A); break; }
      case 11: { auto x = exact_vec<E>(g, A.r, 6); v.set_col(j, vector<E, dynamic<>>(x.data(), A.r)); for (int q = 0; q < A.r; ++q) A(q, j) = x[q]; store(a, A); break; }
      case 12: { // move re-targets, no element changes
          int r2 = rr[b], c2 = cc[b];
          // run-time sized wrappers may also be re-targeted to another shape
          if constexpr (!st) if (g.coin()) { int k = r2 * c2; r2 = (int)g.range(1, k); c2 = (int)g.range(1, k / r2); if (rr[a] * c2 <= k && g.coin()) r2 = rr[a]; else if (r2 * cc[a] <= k && g.coin()) c2 = cc[a];
            g.note([&](auto& o) { o << "re-target to " << r2 << "x" << c2; }); }
          X t(mk(off[b], r2, c2)); X t2(std::move(t));
          REQUIRE(t2.rows() == r2 && t2.cols() == c2 && t2.data() == buf.get() + off[b], << "move construction");
          auto none = [](const X& x) { return !x.data() && x.rows() == (st ? mspec<X>::r : 0) && x.cols() == (st ? mspec<X>::c : 0); }; X z; REQUIRE(none(z) && none(t), << "default constructed or moved-from wrapper");
          v = std::move(t2); off[a] = off[b]; rr[a] = r2; cc[a] = c2; REQUIRE(none(t2), << "moved-from (assignment)");
          if constexpr (!st) { X q(mk(off[b], r2, c2)); q.reset(); REQUIRE(none(q), << "reset"); } break; }
      case 13: { cml::temporary_of_t<X> t(v); expect_mat(t, A, "temporary");
          REQUIRE((void*)t.data() != (void*)v.data(), << "temporary aliases");
          E keep = buf[idx(a, i, j)]; buf[idx(a, i, j)] = keep + E(1); expect_mat(t, A, "temporary after array write"); buf[idx(a, i, j)] = keep;
          t(i, j) = keep + E(5); break; }
      case 14: if (sameshape) { v = u + v; for (size_t k = 0; k < A.d.size(); ++k) A.d[k] = Bm.d[k] + A.d[k]; store(a, A); } break;
      case 15: { // transpose in place
          if constexpr (st && mspec<X>::r != mspec<X>::c) break;
          else { v.transpose(); auto T = A.tr(); rr[a] = T.r; cc[a] = T.c; store(a, T); } break; }
      case 16: if constexpr (!st) { // reshape keeps the linear elements
          std::vector<std::pair<int, int>> f; const int n = rr[a] * cc[a]; for (int p = 1; p <= n; ++p) if (n % p == 0) f.push_back({p, n / p});
          auto q = f[g.below(f.size())]; v.resize(q.first, q.second); rr[a] = q.first; cc[a] = q.second; } break;
      case 17: if constexpr (!st) { const int n = rr[a] * cc[a]; REQUIRE_THROWS(std::runtime_error, v.resize(n + 1 + (int)g.below(3), 1)); REQUIRE_THROWS(std::invalid_argument, v.resize(-1, -n)); } break;
      case 18: if constexpr (!st) { matrix<E, dynamic<>> d(rr[a] + 1, cc[a]); d.zero(); REQUIRE_THROWS(std::runtime_error, v = d); } break;
      default: { auto x = A; fill_exact(g, x, 6); using O = matrix<E, dynamic<>, typename mspec<X>::basis, std::conditional_t<rm, col_major, row_major>>;
          MBox<O> o(x); v = o.cr(); store(a, x); break; }
    }
    check("after step");
  }
}
