#pragma once
#include "geom.h"
// P20: polar, cylindrical and spherical coordinates.
template <class... T> constexpr long double epsn() { long double e = 0; ((e = std::max(e, (long double)std::numeric_limits<T>::epsilon())), ...); return e; }
inline long double turn(long double a) { return std::fabs(std::remainder(a, 2 * PI)); }
template <class V, class E, class F> void with_vec(Gen& g, const std::vector<E>& x, F f) {   // the vector itself, a const one, or an expression of it
  VBox<V> b(x); switch (g.below(3)) { case 0: f(b.v); break; case 1: f(b.cr()); break; default: f(-(-b.cr())); }
  expect_vec(b.cr(), x, "argument");
}
template <class V> std::vector<elem_t<V>> wrong_size(Gen& g, int n) { int k = (int)g.below(5); if (k == n) k = 5; return exact_vec<elem_t<V>>(g, k); }
template <class E> E radius_of(Gen& g) { switch (g.below(4)) { case 0: return 0; case 1: return (E)std::fabs((long double)fw::exact<E>(g)); case 2: return (E)std::ldexp(1 + g.unit(), -(int)g.below(40)); default: return (E)g.real(0, 100); } }
// Points: general, exact, planar, on an axis, at the origin, close to an axis or to the origin (2^-40..1)
template <class E> std::vector<E> point(Gen& g, int n, const char*& fam) {
  std::vector<E> v(n); long double s = 1;
  switch (g.below(8)) {
    case 0: fam = "origin"; if (g.coin()) for (auto& e : v) if (g.coin()) e = -E(0); return v;
    case 1: fam = "on an axis"; v[g.below(n)] = fw::exact_nonzero<E>(g); return v;
    case 2: fam = "near the origin"; s = std::ldexp(1.0L, -(int)g.range(4, 60)); break;
    case 3: fam = "near an axis"; for (auto& e : v) e = (E)std::ldexp(g.symreal(1), -(int)g.range(4, 60)); v[g.below(n)] = fw::exact_nonzero<E>(g); return v;
    case 4: fam = "exact"; return exact_vec<E>(g, n);
    default: fam = "general"; }
  for (auto& e : v) e = (E)(g.symreal(10) * s);
  return v;
}
template <class... T> long double scalar_tol() { std::common_type_t<T...> e = std::numeric_limits<std::common_type_t<T...>>::epsilon(); return std::sqrt(e); }
// from coordinates to the documented point
template <class V, class A> void polar_to(Gen& g) {
  using E = elem_t<V>; const long double eps = epsn<E, A>(); A r = radius_of<A>(g), t = angle<A>(g); VBox<V> v(exact_vec<E>(g, 2)); g.nontrivial(r > 0); g.note([&](auto& o) { o << "r " << r << " theta " << t; });
  if (g.coin()) cml::polar_to_cartesian(v.v, r, t); else cml::polar_to_cartesian(r, t, v.v);
  expect_vec_near(v.cr(), {r * std::cos((long double)t), r * std::sin((long double)t)}, 4 * eps * r, "polar_to_cartesian");
  A r2 = -1, t2 = 77; cml::cartesian_to_polar(v.cr(), r2, t2); long double tol = scalar_tol<E, A>();
  REQUIRE(fw::near(r2, r, 8 * eps * r), << "radius " << r2 << " want " << r); if (r > 2 * tol) REQUIRE(turn((long double)t2 - t) <= 16 * eps, << "theta " << t2 << " want " << t << " modulo 2 pi");
  if constexpr (vspec<V>::n < 0) { auto y = wrong_size<V>(g, 2); VBox<V> w(y); REQUIRE_THROWS(cml::vector_size_error, cml::polar_to_cartesian(w.v, r, t)); expect_vec(w.cr(), y, "after a size error"); REQUIRE_THROWS(cml::vector_size_error, cml::cartesian_to_polar(w.cr(), r2, t2)); }
}
template <class V, class A, class B> void space_to(Gen& g) {
  using E = elem_t<V>; const long double eps = epsn<E, A, B>(); A r = radius_of<A>(g); B t = angle<B>(g); const int axis = (int)g.below(3), i = axis, j = (i + 1) % 3, k = (i + 2) % 3; g.nontrivial(r > 0);
  VBox<V> v(exact_vec<E>(g, 3)); constexpr bool one = std::is_same_v<A, B>; long double tol = scalar_tol<E, A, B>(); std::vector<long double> want(3); const char* what;
  long double ct = std::cos((long double)t), st = std::sin((long double)t);
  if (g.coin()) {
    A h = g.coin() ? fw::exact<A>(g) : fw::scaled<A>(g, 50); g.label("cylindrical"); g.note([&](auto& o) { o << "cylindrical axis " << axis << " r " << r << " theta " << t << " height " << h; });
    bool c1 = one && g.coin(); if constexpr (one) if (c1) cml::cylindrical_to_cartesian(r, t, h, axis, v.v); if (!c1) cml::cylindrical_to_cartesian(v.v, axis, r, t, h);
    want[i] = (E)h; want[j] = r * ct; want[k] = r * st; what = "cylindrical_to_cartesian"; REQUIRE(v.v[i] == (E)h, << "height " << v.v[i] << " want " << h);
    expect_vec_near(v.cr(), want, 4 * eps * std::fabs((long double)r) + eps * std::fabs((long double)h), what);
    A r2 = -1, h2 = -1; B t2 = 77; c1 = one && g.coin(); if constexpr (one) if (c1) cml::cartesian_to_cylindrical(v.cr(), r2, t2, h2, axis); if (!c1) cml::cartesian_to_cylindrical(v.cr(), axis, r2, t2, h2);
    REQUIRE(h2 == (A)(E)h, << "height " << h2 << " want " << h); REQUIRE(fw::near(r2, r, 8 * eps * r), << "radius " << r2 << " want " << r); if (r > 2 * tol) REQUIRE(turn((long double)t2 - t) <= 16 * eps, << "theta " << t2 << " want " << t << " modulo 2 pi");
  } else {
    bool lat = g.coin(); auto type = lat ? cml::latitude : cml::colatitude; B p;
    switch (g.below(4)) { case 0: p = (B)((long double)g.range(lat ? -4 : 0, lat ? 4 : 8) * PI / 8); break; case 1: p = (B)((lat ? (g.coin() ? PI / 2 : -PI / 2) : (g.coin() ? PI : 0)) + std::ldexp((long double)g.sym(15), -(int)g.range(6, 50))); break; default: p = (B)(PI * g.unit() - (lat ? PI / 2 : 0)); }
    bool valid = p >= (lat ? -PI / 2 : 0) && p <= (lat ? PI / 2 : PI); g.label(lat ? "latitude" : "colatitude"); g.note([&](auto& o) { o << (lat ? "latitude" : "colatitude") << " axis " << axis << " r " << r << " theta " << t << " phi " << p; });
    bool c1 = one && g.coin(); if constexpr (one) if (c1) cml::spherical_to_cartesian(r, t, (A)p, axis, type, v.v); if (!c1) cml::spherical_to_cartesian(v.v, axis, type, r, t, p);
    long double q = lat ? PI / 2 - p : p, sp = std::sin(q), cp = std::cos(q); want[i] = r * cp; want[j] = r * sp * ct; want[k] = r * sp * st; what = "spherical_to_cartesian"; expect_vec_near(v.cr(), want, 6 * eps * r, what);
    A r2 = -1; B t2 = 77; A p2 = 77; c1 = one && g.coin(); if constexpr (one) if (c1) cml::cartesian_to_spherical(v.cr(), r2, t2, p2, axis, type); if (!c1) cml::cartesian_to_spherical(v.cr(), axis, type, r2, t2, p2);
    REQUIRE(fw::near(r2, r, 10 * eps * r), << "radius " << r2 << " want " << r); long double pl = r * std::fabs(sp); if (valid && r > 2 * tol) REQUIRE(fw::near(p2, p, 20 * eps), << "phi " << p2 << " want " << p);
    if (valid && pl > 2 * tol) REQUIRE(turn((long double)t2 - t) <= 20 * eps * r / pl, << "theta " << t2 << " want " << t << " modulo 2 pi");
  }
  int bad = g.coin() ? 3 + (int)g.below(3) : -1 - (int)g.below(3); auto before = rd(v.cr()); A r2 = 1; B t2 = 1; A p2 = 1; auto ty = g.coin() ? cml::latitude : cml::colatitude;
  REQUIRE_THROWS(std::invalid_argument, cml::cylindrical_to_cartesian(v.v, bad, r, t, r)); REQUIRE_THROWS(std::invalid_argument, cml::spherical_to_cartesian(v.v, bad, ty, r, t, t)); expect_vec(v.cr(), before, "after an axis error");
  REQUIRE_THROWS(std::invalid_argument, cml::cartesian_to_cylindrical(v.cr(), bad, r2, t2, p2)); REQUIRE_THROWS(std::invalid_argument, cml::cartesian_to_spherical(v.cr(), bad, ty, r2, t2, p2)); REQUIRE(r2 == 1 && t2 == 1 && p2 == 1, << "outputs written before an axis error");
  if constexpr (vspec<V>::n < 0) { auto y = wrong_size<V>(g, 3); VBox<V> w(y); REQUIRE_THROWS(cml::vector_size_error, cml::cylindrical_to_cartesian(w.v, axis, r, t, r)); REQUIRE_THROWS(cml::vector_size_error, cml::spherical_to_cartesian(w.v, axis, ty, r, t, t)); expect_vec(w.cr(), y, "after a size error");
    REQUIRE_THROWS(cml::vector_size_error, cml::cartesian_to_cylindrical(w.cr(), axis, r2, t2, p2)); REQUIRE_THROWS(cml::vector_size_error, cml::cartesian_to_spherical(w.cr(), axis, ty, r2, t2, p2)); }
}
// from a point to its coordinates and back
inline void check_theta(long double got, long double y, long double x, long double pl, long double tol, long double eps, const char* what) {
  REQUIRE(std::fabs(got) <= PI + 4 * eps, << what << ": theta " << (double)got << " out of range");
  if (pl >= tol * (1 + 1e-5L)) REQUIRE(turn(got - std::atan2(y, x)) <= 8 * eps, << what << ": theta " << (double)got << " want " << (double)std::atan2(y, x) << " for planar radius " << (double)pl);
  else if (pl <= tol * (1 - 1e-5L)) REQUIRE(got == 0, << what << ": theta " << (double)got << " want 0 below the tolerance");
}
template <class V, class A, class B> void from(Gen& g) {
  using E = elem_t<std::remove_const_t<V>>; const long double eps = epsn<E, A, B>(); constexpr bool one = std::is_same_v<A, B>; const char* fam; const int form = (int)g.below(vspec<V>::n == 2 ? 1 : vspec<V>::n == 3 ? 2 : 3), kind = vspec<V>::n == 3 ? form + 1 : form;
  auto x = point<E>(g, kind == 0 ? 2 : 3, fam); bool deft = g.coin(); A tol = (A)(g.coin() ? std::ldexp(1.0L, -(int)g.range(1, 40)) : g.real(.01, 5)); long double dt = deft ? scalar_tol<E, A, B>() : (long double)tol; g.label(fam); g.label(kind == 0 ? "polar" : kind == 1 ? "cylindrical" : "spherical");
  const int axis = (int)g.below(3), i = kind == 0 ? -1 : axis, j = kind == 0 ? 0 : (axis + 1) % 3, k = kind == 0 ? 1 : (axis + 2) % 3; bool lat = g.coin(); auto type = lat ? cml::latitude : cml::colatitude; bool c1 = one && g.coin();
  g.note([&](auto& o) { o << fw::show(x) << " kind " << kind << " axis " << axis << (lat ? " latitude" : " colatitude") << (deft ? " default tolerance " : " tolerance ") << (double)dt; });
  long double pl = std::sqrt((long double)x[j] * x[j] + (long double)x[k] * x[k]), len = kind == 0 ? pl : std::sqrt(pl * pl + (long double)x[i] * x[i]); g.nontrivial(pl > dt && (kind == 0 || x[i] != 0));
  A r = -1, h = -77; B t = 77; A p = 77;
  with_vec<V>(g, x, [&](auto&& v) {
    if (kind == 0) { if constexpr (vspec<V>::n != 3) { if (deft) cml::cartesian_to_polar(v, r, t); else cml::cartesian_to_polar(v, r, t, tol); } }
    else if constexpr (vspec<V>::n != 2) {
      if (kind == 1) { if (!c1) { if (deft) cml::cartesian_to_cylindrical(v, axis, r, t, h); else cml::cartesian_to_cylindrical(v, axis, r, t, h, tol); } else if constexpr (one) { if (deft) cml::cartesian_to_cylindrical(v, r, t, h, axis); else cml::cartesian_to_cylindrical(v, r, t, h, axis, tol); } }
      else { if (!c1) { if (deft) cml::cartesian_to_spherical(v, axis, type, r, t, p); else cml::cartesian_to_spherical(v, axis, type, r, t, p, tol); } else if constexpr (one) { if (deft) cml::cartesian_to_spherical(v, r, t, p, axis, type); else cml::cartesian_to_spherical(v, r, t, p, axis, type, tol); } } } });
  if (c1 && deft) dt = kind ? scalar_tol<A>() : dt; bool bandt = std::fabs(pl - dt) <= 1e-5L * dt, bandr = std::fabs(len - dt) <= 1e-5L * dt;
  const long double tiny = std::numeric_limits<E>::min() * 4 / std::numeric_limits<E>::epsilon(), u = std::sqrt(tiny);   // squares below this are subnormal
  REQUIRE(r >= 0 && fw::near(r, kind == 2 ? len : pl, 4 * eps * len + u), << "radius " << r << " want " << (double)(kind == 2 ? len : pl));
  if (!bandt) check_theta(t, x[k], x[j], pl, dt, eps, kind == 0 ? "polar" : kind == 1 ? "cylindrical" : "spherical");
  std::vector<E> back(x.size()); long double slack = 0; if (pl <= dt * 1.001L) slack += 2 * dt; 
  VBox<std::conditional_t<vspec<V>::n == 2, vector<E, fixed<2>>, vector<E, dynamic<>>>> w(back);
  if (kind == 0) cml::polar_to_cartesian(w.v, r, t);
  else if constexpr (vspec<V>::n != 2) {
    if (kind == 1) { REQUIRE(h == (A)x[i], << "height " << h << " want " << x[i]); cml::cylindrical_to_cartesian(w.v, axis, r, t, h); }
    else {
      long double lo = lat ? -PI / 2 : 0, hi = lat ? PI / 2 : PI; REQUIRE(p >= lo - 4 * eps && p <= hi + 4 * eps, << "phi " << p << " out of range");
      long double want = std::atan2(pl, (long double)x[i]); if (lat) want = PI / 2 - want; if (!bandr) { if (len < dt) { REQUIRE(p == 0, << "phi " << p << " below the tolerance"); } else REQUIRE(fw::near(p, want, 8 * eps + u / std::max(len, u)), << "phi " << p << " want " << (double)want); }
      if (len <= dt * 1.001L) slack += 2 * dt; cml::spherical_to_cartesian(w.v, axis, type, r, t, p); } }
  for (size_t a = 0; a < x.size(); ++a) REQUIRE(fw::near(w.v[(int)a], x[a], 24 * eps * len + slack + u), << "round trip gives " << fw::show(rd(w.cr())) << " from r " << r << " theta " << t << " for element " << a);
}
