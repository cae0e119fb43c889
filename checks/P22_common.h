#pragma once
#include "geom.h"
#include <cml/util.h>
// P22: scalar helpers, index helpers, field-of-view conversions.
template <class T> constexpr bool fl = std::is_floating_point_v<T>;
template <class T> T any_s(Gen& g) {   // any finite value; integers small enough to go through double and back
  if constexpr (fl<T>) switch (g.below(8)) { case 0: return fw::exact<T>(g); case 1: return (T)std::ldexp((long double)g.symreal(1), (int)g.sym(60)); case 2: return -T(0); case 3: return (g.coin() ? 1 : -1) * std::numeric_limits<T>::infinity(); case 4: return (g.coin() ? 1 : -1) * std::numeric_limits<T>::denorm_min(); case 5: return (g.coin() ? 1 : -1) * std::numeric_limits<T>::max(); default: return (T)g.symreal(10); }
  else switch (g.below(4)) { case 0: return fw::exact<T>(g); case 1: return std::is_unsigned_v<T> ? (T)g.below(30000) : (T)g.sym(30000); case 2: return sizeof(T) <= 4 ? (T)(std::numeric_limits<T>::max() - (T)g.below(3)) : (T)((1ll << 52) - (long long)g.below(3)); default: return std::is_unsigned_v<T> || sizeof(T) > 4 ? T(0) : (T)(std::numeric_limits<T>::min() + 1 + (T)g.below(3)); }
}
template <class T> T fin(Gen& g) { T v = any_s<T>(g); if constexpr (fl<T>) if (!(std::fabs(v) <= std::numeric_limits<T>::max() / 4)) v = 3; return v; }
template <class T> long double mag(T v) { return std::fabs((long double)v); }
// ---------------------------------------------------------------- exact helpers
template <class T> void exact_helpers(Gen& g) {
  T v = any_s<T>(g), a = any_s<T>(g), b = any_s<T>(g); if (g.below(6) == 0) v = a; if (b < a) std::swap(a, b); g.nontrivial(a < b && v != a && v != b && v != T(0)); g.note([&](auto& o) { o << +v << " in [" << +a << ", " << +b << "]"; });
  T s = cml::sign(v); REQUIRE(s == (v > T(0) ? T(1) : v < T(0) ? T(-1) : T(0)), << "sign " << +s);
  T c = cml::clamp(v, a, b), w = v < a ? a : v > b ? b : v; REQUIRE(c == w, << "clamp " << +c << " want " << +w);
  REQUIRE(cml::in_range(v, a, b) == (a <= v && v <= b), << "in_range"); REQUIRE(cml::in_range(c, a, b), << "clamp out of range");
  T x = fw::exact<T>(g), y = fw::exact<T>(g), z = fw::exact<T>(g); g.note([&](auto& o) { o << "exact " << +x << " " << +y << " " << +z; });
  REQUIRE(cml::sqr(x) == T(x * x) && cml::cub(x) == T(x * x * x), << "sqr " << +cml::sqr(x) << " cub " << +cml::cub(x)); REQUIRE(cml::length_squared(x, y) == T(x * x + y * y) && cml::length_squared(x, y, z) == T(x * x + y * y + z * z), << "length_squared");
  T l1 = cml::length(x, T(0)), l2 = cml::length(T(0), x, T(0)), l3 = cml::length(T(3 * 2), T(4 * 2)), l4 = cml::length(T(2), T(3), T(6)); REQUIRE(l1 == (x < T(0) ? T(-x) : x) && l2 == l1 && l3 == T(10) && l4 == T(7), << "length " << +l1 << " " << +l2 << " " << +l3 << " " << +l4);
}
// ---------------------------------------------------------------- index of extreme values
template <class T> void extreme(Gen& g) {
  const int n = (int)g.range(2, 4); T v[4]; int style = (int)g.below(3); for (auto& e : v) e = style == 0 ? (std::is_unsigned_v<T> ? (T)g.below(4) : (T)g.sym(3)) : style == 1 ? fw::exact<T>(g) : any_s<T>(g); bool distinct = true; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) distinct &= v[i] != v[j]; g.nontrivial(distinct); g.label(n == 2 ? "2 values" : n == 3 ? "3 values" : "4 values");
  g.note([&](auto& o) { o << n << " of"; for (auto e : v) o << " " << +e; });
  auto run = [&](auto f) { return n == 2 ? f(v[0], v[1]) : n == 3 ? f(v[0], v[1], v[2]) : f(v[0], v[1], v[2], v[3]); };
  int hi = run([](auto... a) { return cml::index_of_max(a...); }), lo = run([](auto... a) { return cml::index_of_min(a...); }), ha = run([](auto... a) { return cml::index_of_max_abs(a...); }), la = run([](auto... a) { return cml::index_of_min_abs(a...); });
  for (int k : {hi, lo, ha, la}) REQUIRE(k >= 0 && k < n, << "invalid index " << k);
  for (int i = 0; i < n; ++i) { REQUIRE(v[hi] >= v[i], << "index_of_max gives " << hi); REQUIRE(v[lo] <= v[i], << "index_of_min gives " << lo); REQUIRE(mag(v[ha]) >= mag(v[i]), << "index_of_max_abs gives " << ha); REQUIRE(mag(v[la]) <= mag(v[i]), << "index_of_min_abs gives " << la); }
}
// ---------------------------------------------------------------- wrap and map_range
template <class T> void wrap_map(Gen& g) {
  T a, b, v; if constexpr (fl<T>) { const double m = std::ldexp(1.0, (int)g.sym(20)); a = g.coin() ? fw::exact<T>(g) : (T)g.symreal(m); b = g.coin() ? fw::exact<T>(g) : (T)g.symreal(m); } else { a = fw::exact<T>(g, 60); b = fw::exact<T>(g, 60); }
  if (b < a) std::swap(a, b); if (a == b) { b = a + T(1); if (!(a < b)) return; } const T r = b - a;
  switch (g.below(6)) { case 0: v = a; break; case 1: v = b; break; case 2: if constexpr (fl<T>) v = std::nextafter(g.coin() ? a : b, g.coin() ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity()); else v = g.coin() ? a - T(1) : b + T(1); break; case 3: v = a + (T)g.sym(9) * r; break;
    case 4: if constexpr (fl<T>) v = a + r * (T)g.unit(); else v = a + (T)g.range(0, (int)r); break; default: if constexpr (fl<T>) v = (T)(g.symreal(20) * r); else v = fw::exact<T>(g, 200); }
  g.nontrivial(v < a || v > b); g.note([&](auto& o) { o << +v << " in [" << +a << ", " << +b << "]"; });
  T w = cml::wrap(v, a, b); REQUIRE(w >= a && w <= b, << "wrap " << +w << " out of range"); REQUIRE(cml::in_range(w, a, b));
  if constexpr (!fl<T>) { REQUIRE(((long long)w - v) % (long long)r == 0, << "wrap " << +w); if (v >= a && v < b) REQUIRE(w == v, << "wrap " << +w << " of a value inside the range"); }
  else {
    const long double eps = fw::eps_of<T>(), tol = 4 * eps * (mag(v) + mag(a) + mag(b)); REQUIRE(std::fabs(std::remainder((long double)w - v, (long double)b - a)) <= tol + 2 * eps * (mag(v) + mag(a)) / (long double)r * mag(r), << "wrap " << w << " is not congruent to " << v);
    if (v >= a && v <= b) REQUIRE(fw::near(w, v, tol) || (fw::near(w, a, tol) && fw::near(v, b, tol)) || (fw::near(w, b, tol) && fw::near(v, a, tol)), << "wrap " << w << " of a value inside the range");
    T c = (T)g.symreal(30), d = (T)g.symreal(30); T m = cml::map_range(v, a, b, c, d); long double want = (long double)c + ((long double)v - a) / ((long double)b - a) * ((long double)d - c); long double k = (mag(v) + mag(a)) / (long double)r + 1; g.note([&](auto& o) { o << " mapped to [" << c << ", " << d << "]"; });
    REQUIRE(fw::near(m, want, 6 * eps * (mag(c) + mag(want) + k * (mag(d) + mag(c)) * (1 + (mag(a) + mag(b)) / r))), << "map_range " << m << " want " << (double)want);
    REQUIRE(cml::map_range(a, a, b, c, d) == c, << "map_range at the lower end"); REQUIRE(fw::near(cml::map_range(b, a, b, c, d), d, 4 * eps * (mag(c) + mag(d))), << "map_range at the upper end");
  }
}
// ---------------------------------------------------------------- real functions
template <class T> void reals(Gen& g) {
  const long double eps = fw::eps_of<T>(), pe = std::max(eps, (long double)std::numeric_limits<double>::epsilon()); T v; switch (g.below(6)) { case 0: v = (g.coin() ? 1 : -1) * (1 + (T)std::ldexp(g.symreal(1), -(int)g.below(60))); break; case 1: v = fw::exact<T>(g); break; case 2: v = (T)std::ldexp(g.symreal(1), (int)g.sym(60)); break; case 3: v = (T)g.sym(1); break; default: v = (T)g.symreal(1.2); }
  g.nontrivial(v != 0 && mag(v) != 1); g.label(mag(v) <= 1 ? "inside [-1,1]" : "outside [-1,1]"); g.note([&](auto& o) { o << v; });
  long double c = v < -1 ? -1 : v > 1 ? 1 : (long double)v; T ac = cml::acos_safe(v), as = cml::asin_safe(v), sq = cml::sqrt_safe(v);
  REQUIRE(fw::near(ac, std::acos(c), 2 * eps * std::acos(c)) && ac >= 0 && ac <= PI * (1 + eps), << "acos_safe " << ac); REQUIRE(fw::near(as, std::asin(c), 2 * eps * std::fabs(std::asin(c))) && mag(as) <= PI / 2 * (1 + eps), << "asin_safe " << as);
  REQUIRE(v <= 0 ? sq == 0 : fw::near(sq, std::sqrt((long double)v), eps * std::sqrt((long double)v)), << "sqrt_safe " << sq);
  if (v != 0) { T p = mag(v); long double w = 1 / std::sqrt((long double)p); T is = cml::inv_sqrt(p); REQUIRE(fw::near(is, w, 3 * eps * w), << "inv_sqrt " << is << " want " << (double)w); }
  T x = (T)g.symreal(10), y = (T)g.symreal(10); g.note([&](auto& o) { o << " " << x << " " << y; });
  long double s2 = (long double)x * x + (long double)y * y, s3 = s2 + (long double)v * v; REQUIRE(fw::near(cml::length_squared(x, y), s2, 2 * eps * s2) && fw::near(cml::length_squared(x, y, v), s3, 3 * eps * s3), << "length_squared"); REQUIRE(fw::near(cml::length(x, y), std::sqrt(s2), 3 * eps * std::sqrt(s2)) && fw::near(cml::length(x, y, v), std::sqrt(s3), 3 * eps * std::sqrt(s3)), << "length"); REQUIRE(fw::near(cml::sqr(x), (long double)x * x, eps * x * x) && fw::near(cml::cub(x), (long double)x * x * x, 2 * eps * mag(x) * x * x), << "sqr, cub");
  T d = cml::deg(v), r = cml::rad(v); long double wd = v * (180 / PI), wr = v * (PI / 180); REQUIRE(fw::near(d, wd, 3 * pe * std::fabs(wd)), << "deg " << d << " want " << (double)wd); REQUIRE(fw::near(r, wr, 3 * pe * std::fabs(wr)), << "rad " << r << " want " << (double)wr); REQUIRE(fw::near(cml::rad(d), v, 6 * pe * mag(v)) && fw::near(cml::deg(r), v, 6 * pe * mag(v)), << "degrees and radians are not inverse");
}
// ---------------------------------------------------------------- fields of view
template <class T> void fov(Gen& g) {
  const long double eps = fw::eps_of<T>(); T f; switch (g.below(4)) { case 0: f = (T)std::ldexp(1 + g.unit(), -(int)g.range(1, 20)); break; case 1: f = (T)(PI - std::ldexp(1 + g.unit(), -(int)g.range(1, 8))); break; default: f = (T)g.real(.05, 3.1); } T a = (T)std::ldexp(1 + g.unit(), (int)g.sym(4)), z = (T)std::ldexp(1 + g.unit(), (int)g.sym(6)); g.nontrivial(a != 1); g.note([&](auto& o) { o << "fov " << f << " aspect " << a << " zoom " << z; });
  auto cond = [&](long double x) { return 8 * eps * (2 + x / std::sin(x)); }; long double t = std::tan((long double)f / 2), y = 2 * std::atan(t / a), x = 2 * std::atan(t * a), k = cond(f);
  T gy = cml::xfov_to_yfov(f, a), gx = cml::yfov_to_xfov(f, a); REQUIRE(gy > 0 && fw::near(gy, y, k * y), << "xfov_to_yfov " << gy << " want " << (double)y); REQUIRE(gx > 0 && fw::near(gx, x, k * x), << "yfov_to_xfov " << gx << " want " << (double)x);
  REQUIRE(fw::near(cml::yfov_to_xfov(gy, a), f, (k + cond(y)) * f) && fw::near(cml::xfov_to_yfov(gx, a), f, (k + cond(x)) * f), << "horizontal and vertical fields of view are not inverse");
  T zx = cml::fov_to_zoom(f); REQUIRE(fw::near(zx, 1 / t, k / t), << "fov_to_zoom " << zx << " want " << (double)(1 / t)); T fz = cml::zoom_to_fov(z); long double wf = 2 * std::atan(1 / (long double)z); REQUIRE(fw::near(fz, wf, 4 * eps * wf), << "zoom_to_fov " << fz << " want " << (double)wf);
  REQUIRE(fw::near(cml::zoom_to_fov(zx), f, 2 * k * f) && fw::near(cml::fov_to_zoom(fz), z, 2 * cond(wf) * z), << "zoom and field of view are not inverse");
  T zy = cml::xzoom_to_yzoom(z, a), z2 = cml::yzoom_to_xzoom(z, a); REQUIRE(fw::near(zy, (long double)z * a, eps * z * a) && fw::near(z2, (long double)z / a, eps * z / a) && fw::near(cml::yzoom_to_xzoom(zy, a), z, 2 * eps * z), << "zoom by aspect " << zy << " " << z2);
  long double viaz = cml::zoom_to_fov(cml::xzoom_to_yzoom(zx, a)); REQUIRE(fw::near(viaz, y, 3 * k * y), << "vertical field of view through zooms " << (double)viaz << " want " << (double)y);
}
// ---------------------------------------------------------------- indices, orders, constants
template <class T> void indices(Gen& g) {
  int n = (int)g.range(1, g.coin() ? 5 : 1000000), i = (int)g.below(n); g.nontrivial(n > 1); g.note([&](auto& o) { o << i << " of " << n; }); int nx = cml::next(i, n), pv = cml::prev(i, n);
  REQUIRE(nx == (i == n - 1 ? 0 : i + 1) && pv == (i == 0 ? n - 1 : i - 1), << "next " << nx << " prev " << pv); REQUIRE(cml::prev(nx, n) == i && cml::next(pv, n) == i);
  int f = (int)g.below(4), a = -1, b = -1, c = -1, d = -1; g.note([&](auto& o) { o << " first " << f; }); cml::cyclic_permutation(f % 2, a, b); REQUIRE(a == f % 2 && b == 1 - f % 2, << "cyclic_permutation of 2: " << a << b); cml::cyclic_permutation(f % 3, a, b, c); REQUIRE(a == f % 3 && b == (f % 3 + 1) % 3 && c == (f % 3 + 2) % 3, << "cyclic_permutation of 3: " << a << b << c); cml::cyclic_permutation(f, a, b, c, d); REQUIRE(a == f && b == (f + 1) % 4 && c == (f + 2) % 4 && d == (f + 3) % 4, << "cyclic_permutation of 4: " << a << b << c << d);
  static const struct { cml::euler_order o; const char* n; } E[] = {{cml::euler_order_xyz, "xyz"}, {cml::euler_order_xyx, "xyx"}, {cml::euler_order_xzy, "xzy"}, {cml::euler_order_xzx, "xzx"}, {cml::euler_order_yzx, "yzx"}, {cml::euler_order_yzy, "yzy"}, {cml::euler_order_yxz, "yxz"}, {cml::euler_order_yxy, "yxy"}, {cml::euler_order_zxy, "zxy"}, {cml::euler_order_zxz, "zxz"}, {cml::euler_order_zyx, "zyx"}, {cml::euler_order_zyz, "zyz"}};
  auto& e = E[g.below(12)]; bool odd, rep; cml::unpack_euler_order(e.o, a, b, c, odd, rep); int w0 = e.n[0] - 'x', w1 = e.n[1] - 'x', w2 = e.n[2] - 'x'; g.note([&](auto& o) { o << " order " << e.n; }); REQUIRE(a == w0 && b == w1 && c == 3 - w0 - w1 && odd == (w1 != (w0 + 1) % 3) && rep == (w2 == w0), << "unpack_euler_order " << a << b << c << " odd " << odd << " repeat " << rep);
  using K = cml::constants<T>; const long double pe = std::max(fw::eps_of<T>(), (long double)std::numeric_limits<double>::epsilon()), pi = PI; struct { T v; long double w; const char* n; } C[] = {{K::pi(), pi, "pi"}, {K::two_pi(), 2 * pi, "two_pi"}, {K::inv_pi(), 1 / pi, "inv_pi"}, {K::inv_two_pi(), .5L / pi, "inv_two_pi"}, {K::pi_over_2(), pi / 2, "pi_over_2"}, {K::pi_over_4(), pi / 4, "pi_over_4"}, {K::e(), std::exp(1.0L), "e"}, {K::deg_per_rad(), 180 / pi, "deg_per_rad"}, {K::rad_per_deg(), pi / 180, "rad_per_deg"}, {K::sqrt_2(), std::sqrt(2.0L), "sqrt_2"}, {K::sqrt_3(), std::sqrt(3.0L), "sqrt_3"}, {K::sqrt_5(), std::sqrt(5.0L), "sqrt_5"}, {K::sqrt_6(), std::sqrt(6.0L), "sqrt_6"}};
  auto& k = C[g.below(13)]; REQUIRE(fw::near(k.v, k.w, pe * k.w), << k.n << " is " << k.v); REQUIRE(cml::epsilon<T>() == std::numeric_limits<T>::epsilon() && fw::near((long double)cml::sqrt_epsilon<T>() * cml::sqrt_epsilon<T>(), cml::epsilon<T>(), 1e-6L * cml::epsilon<T>()), << "epsilon");
}
