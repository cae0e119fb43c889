#pragma once
#include "geom.h"
#include <random>
// P23: random generators.
template <class... T> constexpr long double epsn() { long double e = 0; ((e = std::max(e, (long double)std::numeric_limits<T>::epsilon())), ...); return e; }
inline unsigned seed(Gen& g) { switch (g.below(4)) { case 0: return (unsigned)g.below(5); case 1: return 0xffffffffu - (unsigned)g.below(3); default: return (unsigned)g.below(1ull << 32); } }
template <class E> struct Rng { E lo, hi; bool exact; };
template <class E> Rng<E> bounds(Gen& g) {
  Rng<E> r; r.exact = true;
  if constexpr (std::is_integral_v<E>) { switch (g.below(4)) { case 0: r.lo = std::numeric_limits<E>::min(); r.hi = std::numeric_limits<E>::max(); break; case 1: r.lo = std::numeric_limits<E>::max() - (E)g.below(4); r.hi = std::numeric_limits<E>::max(); break; default: r.lo = fw::exact<E>(g); r.hi = (E)(r.lo + (E)g.below(g.coin() ? 6 : 1000)); } }
  else { if (g.coin()) { r.lo = fw::exact<E>(g); r.hi = r.lo + (E)g.below(8); } else { r.exact = false; r.lo = (E)std::ldexp(g.symreal(1), (int)g.sym(30)); r.hi = r.lo + (E)std::ldexp(g.unit(), (int)g.sym(30)); } }
  return r;
}
// in the closed range (one ulp of rounding for bounds whose difference is inexact)
template <class E> bool inside(E v, const Rng<E>& r) { if (v >= r.lo && v <= r.hi) return true; if constexpr (std::is_floating_point_v<E>) if (!r.exact) return v > r.lo - (r.hi - r.lo) * 1e-5 - std::fabs(r.lo) * std::numeric_limits<E>::epsilon() * 2 && v <= r.hi + std::max(std::fabs(r.hi), std::fabs(r.lo)) * std::numeric_limits<E>::epsilon() * 2 && v >= r.lo; return false; }
// the values of many draws cover the range: every integer of a short one, the outer quarters of a long one
template <class E> void covers(const std::vector<E>& v, const Rng<E>& r, const char* what) {
  E lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
  if (std::is_integral_v<E> && (long double)r.hi - r.lo < 6) { for (int k = 0; (long double)r.lo + k <= (long double)r.hi; ++k) REQUIRE(std::find(v.begin(), v.end(), (E)(r.lo + (E)k)) != v.end(), << what << ": " << +(E)(r.lo + (E)k) << " never drawn in " << v.size() << " draws"); return; }
  long double q = ((long double)r.hi - r.lo) / 4; if (!(q > 8 * std::numeric_limits<E>::epsilon() * std::fabs((long double)r.lo))) return;
  REQUIRE(lo < r.lo + q && hi > r.hi - q, << what << ": " << v.size() << " draws from [" << +r.lo << ", " << +r.hi << "] stay in [" << +lo << ", " << +hi << "]");
}
template <class E> void scalars(Gen& g) {
  auto r = bounds<E>(g); unsigned s = seed(g); g.nontrivial(r.lo < r.hi); g.note([&](auto& o) { o << "[" << +r.lo << ", " << +r.hi << "] seed " << s; }); std::vector<E> a, b; constexpr int N = 300;
  auto draw = [&] { if constexpr (std::is_integral_v<E>) return cml::random_integer<E>(r.lo, r.hi); else return cml::random_real<E>(r.lo, r.hi); };
  std::srand(s); for (int i = 0; i < N; ++i) a.push_back(draw()); std::srand(s); for (int i = 0; i < 20; ++i) b.push_back(draw());
  for (int i = 0; i < N; ++i) REQUIRE(inside(a[i], r), << "draw " << i << " gives " << +a[i]); covers(a, r, "scalars"); REQUIRE(std::equal(b.begin(), b.end(), a.begin()), << "the same seed gives different values");
  int z = 0, p = 0; double lo = 2, hi = -1; for (int i = 0; i < 100; ++i) { int x = cml::random_binary(), y = cml::random_polar(); double u = cml::random_unit(); REQUIRE((x == 0 || x == 1) && (y == -1 || y == 1) && u >= 0 && u <= 1, << "binary " << x << " polar " << y << " unit " << u); z += x; p += y == 1; lo = std::min(lo, u); hi = std::max(hi, u); } REQUIRE(z > 0 && z < 100 && p > 0 && p < 100 && lo < .3 && hi > .7, << "binary " << z << " polar " << p << " unit [" << lo << ", " << hi << "]");
}
template <class V> void vec(Gen& g) {
  using E = elem_t<V>; auto r = bounds<E>(g); unsigned s = seed(g); int n = pick_n<V>(g, 0, 12); VBox<V> v(exact_vec<E>(g, n)); g.nontrivial(r.lo < r.hi && n > 1); g.note([&](auto& o) { o << n << " elements of [" << +r.lo << ", " << +r.hi << "] seed " << s; }); std::vector<E> all, first;
  std::srand(s);
  for (int it = 0; it < 400 / std::max(n, 1) + 40; ++it) { for (int i = 0; i < n; ++i) v.v[i] = r.hi < std::numeric_limits<E>::max() ? (E)(r.hi + 1) : r.lo > std::numeric_limits<E>::lowest() ? (E)(r.lo - 1) : E(7); V& w = v.v.random(r.lo, r.hi); REQUIRE(&w == &v.v && v.v.size() == n, << "random() must return the vector"); for (auto e : rd(v.cr())) { REQUIRE(inside(e, r), << "element " << +e); all.push_back(e); } if (!it) first = rd(v.cr()); }
  if (n) covers(all, r, "elements");
  if (n > 1) for (int i = 0; i < n; ++i) { bool same = r.lo < r.hi && (long double)r.hi - r.lo > 64 * std::numeric_limits<E>::epsilon() * std::fabs((long double)r.lo); for (size_t k = i; k < all.size(); k += n) same &= all[k] == all[i]; REQUIRE(!same, << "element " << i << " never changes"); }
  std::srand(s); v.v.random(r.lo, r.hi); expect_vec(v.cr(), first, "the same seed again");
  if constexpr (vspec<V>::kind == 'F') { std::srand(s); V t = V().random(r.lo, r.hi); expect_vec(t, first, "random() of a temporary"); }
  if constexpr (vspec<V>::kind == 'D') { std::srand(s); V t = V(n).random(r.lo, r.hi); expect_vec(t, first, "random() of a temporary"); }
}
template <class M> void mat(Gen& g) {
  using E = melem_t<M>; auto r = bounds<E>(g); auto x = shape<M>(g, 1, 5); fill_exact(g, x); MBox<M> m(x); int n = x.r * x.c; g.nontrivial(r.lo < r.hi && n > 1); g.note([&](auto& o) { o << x.r << "x" << x.c << " elements of [" << +r.lo << ", " << +r.hi << "]"; }); std::vector<E> all;
  for (int it = 0; it < 120 / std::max(n, 1) + 12; ++it) { for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) m.m(i, j) = r.hi < std::numeric_limits<E>::max() ? (E)(r.hi + 1) : r.lo > std::numeric_limits<E>::lowest() ? (E)(r.lo - 1) : E(7); M& w = m.m.random(r.lo, r.hi); REQUIRE(&w == &m.m && m.m.rows() == x.r && m.m.cols() == x.c, << "random() must return the matrix"); for (auto e : rdm(m.cr()).d) { REQUIRE(inside(e, r), << "element " << +e); all.push_back(e); } }
  if (!std::is_integral_v<E> || (long double)r.hi - r.lo >= 6) covers(all, r, "elements");
  bool wide = (long double)r.hi - r.lo > 64 * std::numeric_limits<E>::epsilon() * std::fabs((long double)r.lo) && (long double)r.hi - r.lo >= (std::is_integral_v<E> ? 100 : 0);
  if (wide && n > 0) for (int i = 0; i < n; ++i) { bool same = true; for (size_t k = i; k < all.size(); k += n) same &= all[k] == all[i]; REQUIRE(!same, << "element " << i << " never changes"); }
  if constexpr (mspec<M>::kind == 'F') { M t = M().random(r.lo, r.hi); for (auto e : rdm(t).d) REQUIRE(inside(e, r), << "element " << +e << " of a temporary"); }
}
template <class V> long double vlen(const V& v) { long double s = 0; for (int i = 0; i < v.size(); ++i) s += (long double)v[i] * v[i]; return std::sqrt(s); }
// Every pair of coordinates of many uniform directions shows all four sign
// combinations, and no coordinate is systematically short or long (misses have
// a probability below 1e-14 per run).
struct Reach {
  int n, m = 0; std::vector<long double> sq; std::vector<unsigned> pair;
  explicit Reach(int n) : n(n), sq(n, 0), pair(n * n, 0) {}
  template <class X> void add(const X& x) { ++m; for (int i = 0; i < n; ++i) { sq[i] += (long double)x[i] * x[i]; for (int j = 0; j < i; ++j) pair[i * n + j] |= 1u << ((x[i] < 0) * 2 + (x[j] < 0)); } }
  void check() const { if (n < 2) return; for (int i = 0; i < n; ++i) { REQUIRE(sq[i] * n / m > .3L && sq[i] * n / m < 3, << "coordinate " << i << " of " << n << " has mean square " << (double)(sq[i] / m)); for (int j = 0; j < i; ++j) REQUIRE(pair[i * n + j] == 15u, << "sign combinations of coordinates " << i << ", " << j << " never reached, mask " << pair[i * n + j]); } }
};
template <class V, class R> void unitv(Gen& g) {
  using E = elem_t<V>; const long double eps = epsn<E>(); int n = pick_n<V>(g, 1, 10); unsigned s = seed(g); VBox<V> a(exact_vec<E>(g, n)), b(exact_vec<E>(g, n)); g.nontrivial(n > 1); g.note([&](auto& o) { o << n << " dimensions, seed " << s; });
  R r1(s), r2(s); unsigned orth = 0; bool moved = false; std::vector<E> last; Reach q1(n), q2(n);
  for (int it = 0; it < 200; ++it) { cml::random_unit(a.v, r1); REQUIRE(a.v.size() == n, << "size changed"); REQUIRE(fw::near(vlen(a.cr()), 1, (3 + n / 2.0L) * eps), << "length " << (double)vlen(a.cr()) << " of " << fw::show(rd(a.cr()))); if (it < 10) { cml::random_unit(b.v, r2); expect_vec(b.cr(), rd(a.cr()), "the same generator state again"); } auto x = rd(a.cr()); q1.add(x); moved |= it && x != last; last = x; unsigned o = 0; for (int i = 0; i < std::min(n, 3); ++i) o |= (x[i] < 0) << i; orth |= 1u << o; }
  REQUIRE(n == 1 || moved, << "the generator state never advances"); q1.check(); REQUIRE(orth == (n == 1 ? 3u : n == 2 ? 15u : 255u), << "orthants never reached, mask " << orth);
  std::srand(s); cml::random_unit(a.v); std::srand(s); cml::random_unit(b.v); expect_vec(b.cr(), rd(a.cr()), "the same std::srand() seed"); REQUIRE(fw::near(vlen(a.cr()), 1, (3 + n / 2.0L) * eps), << "length " << (double)vlen(a.cr()));
  std::srand(s); orth = 0; for (int it = 0; it < 200; ++it) { cml::random_unit(a.v); auto x = rd(a.cr()); q2.add(x); REQUIRE(fw::near(vlen(a.cr()), 1, (3 + n / 2.0L) * eps), << "length " << (double)vlen(a.cr())); unsigned o = 0; for (int i = 0; i < std::min(n, 3); ++i) o |= (x[i] < 0) << i; orth |= 1u << o; } REQUIRE(orth == (n == 1 ? 3u : n == 2 ? 15u : 255u), << "orthants never reached, mask " << orth); q2.check();
  if constexpr (vspec<V>::kind == 'D') { V e; REQUIRE_THROWS(cml::minimum_vector_size_error, cml::random_unit(e, r1)); REQUIRE_THROWS(cml::minimum_vector_size_error, cml::random_unit(e)); }
}
template <class V, class D, class A> void cone(Gen& g) {
  using E = elem_t<V>; using F = elem_t<D>; const long double eps = epsn<E, F, A>(); int n = pick_n<V>(g, 1, 8); if constexpr (vspec<V>::n < 0) n = std::min(n, 9); if constexpr (vspec<V>::n < 0 && vspec<D>::n > 0) n = vspec<D>::n; auto d = unit_vec<F>(g, n); unsigned s = seed(g);
  A a; switch (g.below(5)) { case 0: a = (A)(PI / 2); if ((long double)a > (E)(PI / 2)) a = std::nextafter(a, A(0)); break; case 1: a = (A)std::ldexp(1 + g.unit(), -(int)g.range(1, 50)); break; case 2: a = (A)((long double)g.range(1, 8) * PI / 16); if ((long double)a > (E)(PI / 2)) a = std::nextafter(a, A(0)); break; default: a = (A)g.real(.01, 1.57); }
  VBox<V> v(vspec<V>::kind == 'D' ? exact_vec<E>(g, (int)g.below(5)) : exact_vec<E>(g, n)), w(exact_vec<E>(g, n)); VBox<D> dv(d); g.nontrivial(n > 1); g.note([&](auto& o) { o << fw::show(d) << " angle " << a << " seed " << s; }); const long double tol = 16 * eps; long double far = 0; std::vector<E> first; bool left = false, right = false; long double close = 9; std::vector<unsigned> side(n, 0); std::srand(s); long double ld = 0; for (auto e : d) ld += (long double)e * e; ld = std::sqrt(ld);
  for (int it = 0; it < 120; ++it) {
    cml::random_unit(v.v, dv.cr(), a); REQUIRE(v.v.size() == n, << "size " << v.v.size()); if (!it) first = rd(v.cr()); auto x = rd(v.cr()); long double c = 0, sq = 0; for (int i = 0; i < n; ++i) c += (long double)x[i] * d[i] / ld; long double l = vlen(v.cr()); for (int i = 0; i < n; ++i) { long double t = x[i] - c * d[i] / ld; sq += t * t; side[i] |= 1u << (t < 0); } long double ang = std::atan2(std::sqrt(sq), c);
    REQUIRE(fw::near(l, 1, tol + n * eps), << "length " << (double)l << " of " << fw::show(x)); REQUIRE(ang <= a + tol + n * eps, << fw::show(x) << " makes the angle " << (double)ang); far = std::max(far, ang); close = std::min(close, ang); if (n == 2) { long double k = (long double)d[0] * x[1] - (long double)d[1] * x[0]; left |= k > 0; right |= k < 0; } }
  if (n > 1 && a > 100 * eps) REQUIRE(far > a * .5L, << "120 draws stay within " << (double)far); if (n == 2 && a > 100 * eps) REQUIRE(left && right, << "only one side of the axis is reached");
  if (n > 1 && a > 100 * eps) { REQUIRE(close < a * .9L, << "120 draws stay beyond " << (double)close); for (int i = 0; i < n; ++i) if (std::fabs((long double)d[i]) < .9L * ld) REQUIRE(side[i] == 3u, << "only one side of the axis along coordinate " << i << " is reached"); }
  std::srand(s); cml::random_unit(w.v, dv.cr(), a); expect_vec(w.cr(), first, "the same std::srand() seed"); expect_vec(dv.cr(), d, "the axis");
  auto x = rd(w.cr()); A bad = g.coin() ? (A)(PI / 2 * 1.001L + g.unit()) : -(A)g.unit(); REQUIRE_THROWS(std::invalid_argument, cml::random_unit(w.v, dv.cr(), bad)); expect_vec(w.cr(), x, "after an angle error");
  if constexpr (vspec<V>::kind != 'D' && vspec<D>::n < 0) { VBox<D> y(unit_vec<F>(g, n + 1)); REQUIRE_THROWS(cml::incompatible_vector_size_error, cml::random_unit(w.v, y.cr(), a)); expect_vec(w.cr(), x, "after a size error"); }
}
