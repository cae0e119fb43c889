#pragma once
// P27: operations on run-time sized objects when an allocation fails (each one in turn), and the allocators used.
// The whole binary uses the operator new below; the element allocators are counted separately.
#include "linalg.h"
#include <cml/matrix/lu.h>
#include <cml/util.h>
#include <new>
#include <random>

namespace p27 {
struct Mem { bool armed = false; long fail = -1, n = 0, live = 0; const char* error = nullptr; };   // one for operator new, one per allocator
inline Mem NEW, TRK[2]; inline long FAIL = -1, TOTAL = 0;
inline bool trip() { ++TOTAL; if (FAIL == 0) { FAIL = -1; return true; } if (FAIL > 0) --FAIL; return false; }
struct alignas(16) Head { size_t size; unsigned tag, kind; };
inline void* take(size_t n, unsigned kind, Mem& m, bool count) {
  if (count) { if (trip()) throw std::bad_alloc(); ++m.n; ++m.live; }
  Head* h = (Head*)std::malloc(sizeof(Head) + n); if (!h) throw std::bad_alloc(); h->size = n; h->tag = count ? 0xC0C0C0C0u : 0x11111111u; h->kind = kind; return h + 1;
}
inline void give(void* p, unsigned kind, Mem& m, size_t n, bool sized) {
  if (!p) { if (sized && n) m.error = "a null pointer was returned with a size"; return; }
  Head* h = (Head*)p - 1; if (h->tag == 0xC0C0C0C0u) --m.live; if (h->kind != kind) m.error = "a block went to another allocator than it came from";
  if (sized && h->size != n) m.error = "a block was returned with the wrong size"; std::free(h);
}
template <class T, int K> struct Track {
  using value_type = T; template <class U> struct rebind { using other = Track<U, K>; };
  Track() = default; template <class U> Track(const Track<U, K>&) {}
  T* allocate(size_t n) { return (T*)take(n * sizeof(T), 100 + K, TRK[K], true); }
  void deallocate(T* p, size_t n) { give(p, 100 + K, TRK[K], n * sizeof(T), true); }
  template <class U> bool operator==(const Track<U, K>&) const { return true; }
  template <class U> bool operator!=(const Track<U, K>&) const { return false; }
};
using Std = std::allocator<void*>; using T0 = Track<void*, 0>; using T1 = Track<void*, 1>;
template <class A> constexpr int kind_of = -1; template <class T, int K> constexpr int kind_of<Track<T, K>> = K;
template <class P> int source(const P* p) { return (int)((const Head*)p)[-1].kind - 100; }   // -1: operator new
struct Arm { Arm() { NEW.armed = true; } ~Arm() { NEW.armed = false; } };
struct Off { bool was = NEW.armed; Off() { NEW.armed = false; } ~Off() { NEW.armed = was; } };
inline void check_mem(const char* what) { for (Mem* m : {&NEW, &TRK[0], &TRK[1]}) if (m->error) { std::string e = m->error; m->error = nullptr; fw::fail_at(__FILE__, __LINE__, std::string(what) + ": " + e); } }
inline long live() { return NEW.live + TRK[0].live + TRK[1].live; }

// results, without allocating
struct Dig {
  double v[2048]; int k = 0; int wrong = 0; const char* why = "";
  void n(double x) { if (k < 2048) v[k++] = x; }
  template <class X> void vec(const X& x) { n(x.size()); for (int i = 0; i < x.size(); ++i) n((double)x[i]); }
  template <class X> void mat(const X& x) { n(x.rows()); n(x.cols()); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) n((double)x(i, j)); }
  template <class X, class = void> struct has_data : std::false_type {}; template <class X> struct has_data<X, std::void_t<decltype(std::declval<const X&>().data())>> : std::true_type {};
  template <class X, std::enable_if_t<!has_data<X>::value>* = nullptr> void from(const X&, int, const char*) {}
  template <class X, std::enable_if_t<has_data<X>::value>* = nullptr> void from(const X& x, int want, const char* what) { if (x.data() && source(x.data()) != want) { wrong = 1; why = what; } }
  bool operator==(const Dig& o) const { if (k != o.k) return false; for (int i = 0; i < k; ++i) if (!fw::same(v[i], o.v[i])) return false; return true; }
  std::string show() const { return fw::show(std::vector<double>(v, v + std::min(k, 60))); }
};
// the allocator documented for a combination: the common one, the custom one next to the default, else the default
template <class A, class B> constexpr int both = kind_of<A> == kind_of<B> ? kind_of<A> : kind_of<A> < 0 ? kind_of<B> : kind_of<B> < 0 ? kind_of<A> : -1;
struct Vals { std::vector<double> v; double operator[](size_t i) const { return v[i % v.size()]; } };
struct Args { int n, k, op, i, s0, s1; };

template <class E, class A, class A2, class B, class L> struct VW {
  static constexpr int nops = 40; using V = vector<E, dynamic<A>>; using V2 = vector<E, dynamic<A2>>; using M = matrix<E, dynamic<A>, B, L>; using M2 = matrix<E, dynamic<A2>, B, L>;
  E buf[64]; V t, a; V2 b, c; M m; M2 m2, tm; vector<E, external<>> x; vector<E, fixed<3>> f; int n;
  VW(const Args& g, const Vals& w) : n(g.n), t(g.s0), a(g.n), b(g.n), c(g.s1), m(g.s0, g.n), m2(g.n, g.k), tm(g.s1, g.s0), x(buf, g.n) {
    int p = 0; auto nx = [&] { return (E)w[p++]; };
    for (auto& e : buf) e = nx(); for (int i = 0; i < t.size(); ++i) t[i] = nx(); for (int i = 0; i < n; ++i) { a[i] = nx(); b[i] = nx(); } for (int i = 0; i < c.size(); ++i) c[i] = nx(); for (int i = 0; i < 3; ++i) f[i] = nx();
    auto fm = [&](auto& y) { for (int i = 0; i < y.rows(); ++i) for (int j = 0; j < y.cols(); ++j) y(i, j) = nx(); }; fm(m); fm(m2); fm(tm);
  }
  void all(Dig& d) const { d.vec(t); d.vec(a); d.vec(b); d.vec(c); d.mat(m); d.mat(m2); d.mat(tm); d.vec(x); d.vec(f); d.from(t, kind_of<A>, "t"); d.from(a, kind_of<A>, "a"); d.from(b, kind_of<A2>, "b"); d.from(c, kind_of<A2>, "c"); d.from(tm, kind_of<A2>, "tm"); }
  void run(Dig& d, const Args& g) {
    constexpr int W = both<A, A2>; E s = (E)(g.i + 1); auto res = [&](const auto& r, int k, const char* w) { d.vec(r); d.from(r, k, w); }; auto resm = [&](const auto& r, int k, const char* w) { d.mat(r); d.from(r, k, w); };
    switch (g.op) {
      case 0: t = a + b; break;
      case 1: t = a - b * s; break;
      case 2: t += a; break;
      case 3: { V r(t); res(r, kind_of<A>, "copy"); break; }
      case 4: { V r(a + b); res(r, kind_of<A>, "built from a sum"); break; }
      case 5: t = a; break;
      case 6: t = b; break;
      case 7: t = x; break;
      case 8: t = f; break;
      case 9: t.resize(g.n + g.i); d.n(t.size()); for (int i = 0; i < t.size(); ++i) t[i] = s; break;
      case 10: t.resize_fast(g.n + g.i); d.n(t.size()); for (int i = 0; i < t.size(); ++i) t[i] = s; break;
      case 11: t = m * a; break;
      case 12: t = b * m2; break;
      case 13: { auto r = m * a; res(r, kind_of<A>, "m*a"); break; }
      case 14: { auto r = m * b; res(r, kind_of<A2>, "m*b"); break; }
      case 15: { auto r = a * m2; res(r, kind_of<A>, "a*m2"); break; }
      case 16: { auto&& r = m2 * (a * m2); res(r, kind_of<A>, "m2*(a*m2)"); break; }
      case 17: t = -(m * a) + m * b; break;
      case 18: { V r(b, s); res(r, kind_of<A>, "extended"); break; }
      case 19: t = V(a, s); break;
      case 20: if (n > 1) t = subvector(a, g.i % n); break;
      case 21: { auto v = subvector(a, g.i % n) + subvector(b, 0); V r(n > 1 ? n - 1 : 0); if (n > 1) r = v; res(r, kind_of<A>, "subvectors"); break; }
      case 22: { using std::swap; V r(a); swap(r, t); res(r, kind_of<A>, "swapped"); break; }
      case 23: { V r(b); t = std::move(r); break; }
      case 24: { V r(std::move(V(b) += a)); res(r, kind_of<A>, "moved"); break; }
      case 25: t = {s, s, s}; break;
      case 26: { E arr[4] = {s, s, E(1), s}; t = arr; break; }
      case 27: t.set(s, E(2)); break;
      case 28: tm = outer(a, b); break;
      case 29: { M r(outer(a, b)); resm(r, kind_of<A>, "outer"); break; }
      case 30: t = hadamard(a, b); break;
      case 31: { std::vector<V> q; q.push_back(a); q.push_back(t); q.emplace_back(b); for (auto& e : q) res(e, kind_of<A>, "in a container"); break; }
      case 32: d.n(dot(a, m2 * (a * m2))); break;
      case 33: t += m * a; break;
      case 34: if constexpr (std::is_floating_point_v<E>) { auto r = (a + b).normalize(); res(r, W, "normalize()"); auto q = normalize(m * a); res(q, kind_of<A>, "normalize(m*a)"); } break;
      case 35: if constexpr (std::is_floating_point_v<E>) t = normalize(a); break;
      case 36: if constexpr (std::is_floating_point_v<E>) { t = std::as_const(a).normalize() * s; } break;
      case 37: { std::minstd_rand e(g.i + 1); if constexpr (std::is_floating_point_v<E>) { V r(n); cml::random_unit(r, e); res(r, kind_of<A>, "random_unit"); } break; }
      case 38: c = m * (m2 * (a * m2)); break;
      default: d.n(a == m2 * (b * m2)); d.n(a < b); t = a * m2 * s; break;
    }
  }
};
template <class E, class A, class A2, class B, class L> struct MW {
  static constexpr int nops = 54; using V = vector<E, dynamic<A>>; using V2 = vector<E, dynamic<A2>>; using M = matrix<E, dynamic<A>, B, L>; using M2 = matrix<E, dynamic<A2>, B, L>;
  E buf[64]; M t, p; M2 q, o; matrix<E, external<>, B, L> x; V v, tv; V2 y; M g4; V v3; int n, k;
  matrix<E, fixed<4, 4>, B, L> f4;
  MW(const Args& g, const Vals& w) : t(g.s0, g.s1), p(g.n, g.n), q(g.n, g.n), o(g.n, g.k), x(buf, g.n, g.n), v(g.n), tv(g.s0), y(g.k), g4(4, 4), v3(3), n(g.n), k(g.k) {
    int z = 0; auto nx = [&] { return (E)w[z++]; }; auto fm = [&](auto& y) { for (int i = 0; i < y.rows(); ++i) for (int j = 0; j < y.cols(); ++j) y(i, j) = nx(); };
    for (auto& e : buf) e = nx(); fm(t); fm(p); fm(q); fm(o); for (int i = 0; i < n; ++i) { p(i, i) += E(13 + i), v[i] = nx(); } for (int i = 0; i < k; ++i) y[i] = nx(); for (int i = 0; i < tv.size(); ++i) tv[i] = nx(); for (int i = 0; i < 3; ++i) v3[i] = nx();
    g4.identity(); for (int i = 0; i < 3; ++i) g4.set_basis_element(3, i, nx()); f4.identity(); for (int i = 0; i < 4; ++i) f4(i, i) = E(i + 1);
  }
  void all(Dig& d) const { d.mat(t); d.mat(p); d.mat(q); d.mat(o); d.mat(x); d.vec(v); d.vec(tv); d.vec(y); d.mat(g4); d.vec(v3); d.mat(f4); d.from(t, kind_of<A>, "t"); d.from(p, kind_of<A>, "p"); d.from(q, kind_of<A2>, "q"); d.from(o, kind_of<A2>, "o"); d.from(tv, kind_of<A>, "tv"); }
  void run(Dig& d, const Args& g) {
    constexpr int W = both<A, A2>, F = kind_of<A>; constexpr bool fl = std::is_floating_point_v<E>; E s = (E)(g.i + 1); auto res = [&](const auto& r, int k, const char* w) { d.vec(r); d.from(r, k, w); }; auto resm = [&](const auto& r, int k, const char* w) { d.mat(r); d.from(r, k, w); };
    switch (g.op) {
      case 0: t = p + q; break;
      case 1: t = p * q; break;
      case 2: t = p * o; break;
      case 3: { auto r = p * q; resm(r, W, "p*q"); auto r2 = p * p; resm(r2, F, "p*p"); break; }
      case 4: { auto r = p * o; resm(r, W, "p*o"); break; }
      case 5: t = (p * q) * o; break;
      case 6: t = p * (q * o); break;
      case 7: t += p * q; break;
      case 8: t -= x; break;
      case 9: t = transpose(o); break;
      case 10: t.transpose(); break;
      case 11: if constexpr (fl) p.inverse(); break;
      case 12: if constexpr (fl) { auto r = inverse(p); resm(r, F, "inverse"); } break;
      case 13: if constexpr (fl) t = inverse(p) * q; break;
      case 14: if (fl || n < 5) d.n((double)determinant(p)); break;
      case 15: if constexpr (fl) { auto r = cml::lu(p); resm(r, F, "lu"); } break;
      case 16: if constexpr (fl) { auto r = lu_pivot(p); resm(r.lu, F, "lu_pivot"); d.n(r.sign); } break;
      case 17: if constexpr (fl) { auto r = lu_pivot(p); auto z = lu_solve(r, v); res(z, F, "lu_solve"); } break;
      case 18: if constexpr (fl) { auto r = cml::lu(p); V z(n); lu_solve(r, z, v); res(z, F, "lu_solve(x)"); } break;
      case 19: t = o; break;
      case 20: t = x; break;
      case 21: { M r(t); resm(r, F, "copy"); break; }
      case 22: { M r(p + q * s); resm(r, F, "built from a sum"); break; }
      case 23: t.resize(n + g.i % 3, k); d.n(t.rows()); for (int i = 0; i < t.rows(); ++i) for (int j = 0; j < t.cols(); ++j) t(i, j) = s; break;
      case 24: t.resize_fast(k + g.i % 3, n); for (int i = 0; i < t.rows(); ++i) for (int j = 0; j < t.cols(); ++j) t(i, j) = s; break;
      case 25: t = outer(v, y); break;
      case 26: p.set_row(g.i % n, p * v); break;
      case 27: p.set_col(g.i % n, v * q); break;
      case 28: { M r(o); t = std::move(r); break; }
      case 29: { using std::swap; M r(p); swap(r, t); resm(r, F, "swapped"); break; }
      case 30: t.identity(); break;
      case 31: { E arr[3][2] = {{s, E(1)}, {E(2), s}, {E(3), E(4)}}; t = arr; break; }
      case 32: { M r(2, 2, s, E(1), E(2), E(3)); resm(r, F, "from elements"); break; }
      case 33: { std::vector<M> z; z.push_back(p); z.push_back(t); z.emplace_back(q); for (auto& e : z) resm(e, F, "in a container"); break; }
      case 34: { auto&& r = transpose(p * q); d.mat(r); break; }
      case 35: { auto&& r = row(p * q, g.i % n); d.vec(r); d.n((double)trace(p * q)); break; }
      case 36: tv = (p * q) * v; break;
      case 37: tv = row(p * p, 0) + v; break;
      case 38: t = hadamard(p, q) * s + x; break;
      case 39: { auto r = matrix_concat(g4, g4); resm(r, F, "matrix_concat"); break; }
      case 40: g4 = g4 * f4; break;
      case 41: { auto r = transform_point(g4, v3); d.vec(r); break; }
      case 42: if constexpr (fl) matrix_invert_RT(g4); break;
      case 43: if constexpr (fl) { matrix_rotation_euler(g4, E(.1), E(.2), s, cml::euler_order_zyx); d.vec(matrix_to_euler(g4, cml::euler_order_xyz)); } break;
      case 44: if constexpr (fl) { matrix_look_at(g4, v3, v3 * E(3) + cml::x_axis_3D(), cml::y_axis_3D() * E(1), cml::left_handed); } break;
      case 45: t = p * s - (x * x); break;
      case 46: if constexpr (fl) { auto r = p * inverse(p * q); resm(r, W < 0 ? F : W, "p*inverse(p*q)"); d.n((double)determinant(p * q)); } break;
      case 47: if constexpr (fl) { cml::lu_pivot_result<M> r(p); r.lu.resize(n + 2, n + 2); for (int i = 0; i < n + 2; ++i) for (int j = 0; j < n + 2; ++j) r.lu(i, j) = E((i + 1) * (j + 2) % 5) + E(i == j ? 9 : 0); cml::lu_pivot(r); resm(r.lu, F, "in-place lu_pivot"); for (int i = 0; i < n + 2; ++i) d.n(r.order[i]); } break;
      case 48: { auto r = outer(v, v) * q; resm(r, W, "outer*q"); auto r2 = q * (p + q); resm(r2, W < 0 ? kind_of<A2> : W, "q*(p+q)"); break; }
      case 49: { auto r = transpose(o) * p; resm(r, W, "transpose(o)*p"); auto r2 = -p * p; resm(r2, F, "-p*p"); break; }
      case 50: if constexpr (fl) { auto r = (row(p, g.i % n) + v).normalize(); res(r, F, "(row+v).normalize()"); auto r2 = inverse(p + q); resm(r2, W, "inverse(p+q)"); } break;
      case 51: q.transpose(); break;
      case 52: t -= M(t); break;
      default: d.n(p == q * p); t = M(o) + o; break;
    }
  }
};
// every allocation of one operation fails in turn
template <class W> void faults(Gen& g) {
  Args a; a.n = g.chance(1, 6) ? (int)g.range(6, 7) : (int)g.range(1, 5); a.k = (int)g.range(1, 4); a.op = (int)g.below(W::nops); a.i = (int)g.below(4); a.s0 = g.coin() ? a.n : (int)g.range(0, 6); a.s1 = g.coin() ? a.n : g.coin() ? a.k : (int)g.range(0, 6);
  Vals w; for (int i = (int)g.range(40, 60); i--;) w.v.push_back((double)g.sym(9)); if (w.v.size() % 3 == 0) w.v.push_back(1);
  g.note([&](auto& o) { o << "op" << a.op << " n=" << a.n << " k=" << a.k << " sizes " << a.s0 << "," << a.s1 << " i=" << a.i; });
  static Dig before, after, result, d2, s2; const long base = live(); long allocs = 0; int err = 0;
  auto exec = [&](W& o, Dig& d) -> int { d.k = 0; d.wrong = 0; try { o.run(d, a); return 0; } catch (const std::bad_alloc&) { return 1; } catch (const std::invalid_argument&) { return 2; } catch (const std::runtime_error&) { return 3; } };
  auto snap = [&](const W& o, Dig& d) { d.k = 0; d.wrong = 0; o.all(d); };
  { Arm arm; W o(a, w); snap(o, before); if (before.wrong) { Off off; fw::fail_at(__FILE__, __LINE__, std::string("constructed object from another allocator: ") + before.why); }
    long t0 = TOTAL; err = exec(o, result); allocs = TOTAL - t0; snap(o, after); }
  check_mem("without a failure"); REQUIRE(live() == base, << live() - base << " blocks leaked");
  REQUIRE(err != 1, << "bad_alloc without an injected failure"); REQUIRE(!result.wrong && !after.wrong, << (result.wrong ? result.why : after.why) << " has storage from another allocator than its operands");
  if (err > 1) { REQUIRE(after == before, << "a rejected operation changed an object"); g.label("rejected"); }
  g.nontrivial(allocs > 0); if (allocs > 12) allocs = 12;
  for (long k = 0; k < allocs; ++k) {
    int e1, e2 = 0; long l0 = 0, l1 = 0; bool same = false;
    { Arm arm; W o(a, w); l0 = live(); FAIL = k; e1 = exec(o, d2); FAIL = -1; l1 = live(); snap(o, s2); same = s2 == before;
      if (e1 == 1 && same) { e2 = exec(o, d2); snap(o, s2); } }
    check_mem("after a failed allocation");
    if (e1 != 1) { REQUIRE(e1 == err, << "allocation " << k << " failed: outcome " << e1 << " want bad_alloc or " << err); continue; }   // not reached this time, or handled
    REQUIRE(same, << "allocation " << k << " of " << allocs << " failed: an object changed: " << s2.show() << " was " << before.show());
    REQUIRE(l1 == l0, << "allocation " << k << " of " << allocs << " failed: " << l1 - l0 << " blocks leaked");
    REQUIRE(e2 == err && d2 == result && s2 == after, << "after the failure the same operation gives " << d2.show() << " want " << result.show());
    REQUIRE(live() == base, << live() - base << " blocks leaked");
    g.label("allocation failure injected");
  }
}
}  // namespace p27
using namespace p27;
