#pragma once
#include "geom.h"
// P21: vector geometry helpers.
template <class... T> constexpr long double epsn() { long double e = 0; ((e = std::max(e, std::is_floating_point_v<T> ? (long double)std::numeric_limits<T>::epsilon() : 0)), ...); return e; }
template <class A, class B> using pro = std::common_type_t<A, B>;
template <class A, class B> long double ddot(const std::vector<A>& a, const std::vector<B>& b) { long double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (long double)a[i] * b[i]; return s; }
template <class A> long double llen(const std::vector<A>& a) { return std::sqrt(ddot(a, a)); }
// call f with the vector, a const reference, an expression, or a temporary copy
template <class X, class F> void forms(Gen& g, VBox<X>& b, F f) {
  switch (g.below(4)) { case 0: f(b.v); break; case 1: f(b.cr()); break; case 2: f(b.cr() + 0 * b.cr()); break; default: f(-(-b.cr())); }
}
template <class E> std::vector<E> nzx(Gen& g, int n) { if constexpr (std::is_integral_v<E>) { auto r = exact_vec<E>(g, n); if (ddot(r, r) == 0) r[g.below(n)] = 3; return r; } else { auto r = nz_vec<E>(g, n); if (g.below(5) == 0) { long double l = llen(r) / (1 + (g.below(4) ? std::ldexp(g.symreal(1), -3 - (int)g.below(20)) : 0)); for (auto& e : r) e = (E)(e / l); return r; } if (g.below(3) == 0) { int k = (int)g.sym(std::is_same_v<E, float> ? 20 : 100); for (auto& e : r) e = std::ldexp(e, k); } return r; } }
template <class V, class E> void put_all(VBox<V>& b, const std::vector<E>& x) { for (size_t i = 0; i < x.size(); ++i) b.v[(int)i] = x[i]; }
// ------------------------------------------------------------ one vector
template <class V> void single(Gen& g) {
  using E = elem_t<V>; const long double eps = epsn<E>(); const int n = pick_n<V>(g, 1, 9); auto x = g.coin() ? nzx<E>(g, n) : exact_vec<E>(g, n); VBox<V> b(x); const long double sq = ddot(x, x), len = std::sqrt(sq); g.nontrivial(n > 1 && varied(x)); g.note([&](auto& o) { o << fw::show(x); });
  forms(g, b, [&](auto&& v) {
    E q1 = v.length_squared(), q2 = cml::length_squared(v); REQUIRE(q1 == q2 && fw::near(q1, sq, std::is_integral_v<E> ? 0 : n * eps * sq), << "length_squared " << q1 << " " << q2 << " want " << (double)sq);
    if constexpr (std::is_floating_point_v<E>) {
      E l1 = v.length(), l2 = cml::length(v); REQUIRE(l1 == l2 && fw::near(l1, len, (1 + n / 2.0L) * eps * len), << "length " << l1 << " " << l2 << " want " << (double)len);
      if (sq > 0) {
        auto ck = [&](const auto& u, const char* what) { REQUIRE(u.size() == n, << what); for (int i = 0; i < n; ++i) REQUIRE(fw::near(u[i], x[i] / len, (2 + n / 2.0L) * eps * std::fabs(x[i] / len)), << what << ": " << fw::show(rd(u)) << " want element " << i << " = " << (double)(x[i] / len)); REQUIRE(fw::near(llen(rd(u)), 1, (3 + n / 2.0L) * eps), << what << ": length " << (double)llen(rd(u))); };
        auto f = cml::normalize(v); ck(f, "normalize(v)"); ck(std::as_const(v).normalize(), "normalize() of a vector or expression");
      } }
  });
  if constexpr (vspec<V>::kind != 'c' && vspec<V>::kind != 'k') {
    put_all(b, x); expect_vec(b.cr(), x, "argument");
    if constexpr (std::is_floating_point_v<E>) if (sq > 0) {
      auto ck = [&](const auto& u, const char* what) { for (int i = 0; i < n; ++i) REQUIRE(fw::near(u[i], x[i] / len, (2 + n / 2.0L) * eps * std::fabs(x[i] / len)), << what << ": " << fw::show(rd(u))); };
      V& r = b.v.normalize(); REQUIRE(&r == &b.v, << "normalize() must return the vector"); ck(b.cr(), "in-place normalize()"); put_all(b, x);
      ck(b.cr().normalize(), "const normalize()"); expect_vec(b.cr(), x, "after const normalize()");
      if constexpr (vspec<V>::kind == 'F' || vspec<V>::kind == 'D') { V c = V(b.cr()).normalize(); ck(c, "normalize() of a temporary"); V d = (b.cr() + b.cr()).normalize(); ck(d, "normalize() of a temporary expression"); }
    }
  }
  if constexpr (std::is_integral_v<E>) { for (auto& e : x) e = 0; x[g.below(n)] = (E)g.range(0, 30); VBox<V> c(x); REQUIRE(c.cr().length() == (E)llen(x) && cml::length(c.cr()) == (E)llen(x), << "length of " << fw::show(x) << ": " << c.cr().length()); }
}
// ------------------------------------------------------------ projections, distance
template <class V, class W> void pairs(Gen& g) {
  using A = elem_t<V>; using B = elem_t<W>; using P = pro<A, B>; constexpr bool fl = std::is_floating_point_v<P>; const long double eps = epsn<A, B>();
  int n = pick_n<V>(g, 1, 8); if constexpr (vspec<V>::n < 0 && vspec<W>::n > 0) n = vspec<W>::n;
  auto x = g.coin() ? nzx<A>(g, n) : exact_vec<A>(g, n); auto y = nzx<B>(g, n); VBox<V> a(x); VBox<W> b(y); g.nontrivial(n > 1 && varied(x) && varied(y)); g.note([&](auto& o) { o << fw::show(x) << " " << fw::show(y); });
  forms(g, a, [&](auto&& u) { forms(g, b, [&](auto&& v) {
    long double md = 0, mag = 0; for (int i = 0; i < n; ++i) md += std::fabs((long double)x[i] - y[i]), mag += std::fabs((long double)x[i]) + std::fabs((long double)y[i]); auto m = cml::manhattan_distance(u, v); static_assert(std::is_same_v<decltype(m), P>);
    REQUIRE(fw::near(m, md, n * eps * md), << "manhattan_distance " << m << " want " << (double)md);
    if constexpr (fl) {
      long double d = ddot(x, y), q = ddot(y, y), cond = 0; for (int i = 0; i < n; ++i) cond += std::fabs((long double)x[i] * y[i]);
      auto p = cml::project_to_vector(u, v); static_assert(std::is_same_v<std::decay_t<decltype(p[0])>, P>); REQUIRE(p.size() == n, << "project_to_vector size"); for (int i = 0; i < n; ++i) REQUIRE(fw::near(p[i], d / q * y[i], (2 * n + 3) * eps * cond / q * std::fabs((long double)y[i])), << "project_to_vector " << fw::show(rd(p)) << " want element " << i << " = " << (double)(d / q * y[i]));
    } }); });
  if constexpr (fl && std::is_floating_point_v<B>) {
    auto nn = unit_vec<B>(g, n); VBox<W> c(nn); g.note([&](auto& o) { o << " normal " << fw::show(nn); }); long double d = ddot(x, nn), lx = llen(x);
    forms(g, a, [&](auto&& u) { forms(g, c, [&](auto&& v) {
      auto h = cml::project_to_hplane(u, v); auto p = cml::project_to_vector(u, v); REQUIRE(h.size() == n, << "project_to_hplane size"); long double along = 0;
      for (int i = 0; i < n; ++i) { REQUIRE(fw::near(h[i], x[i] - d * nn[i], (n + 3) * eps * lx), << "project_to_hplane " << fw::show(rd(h)) << " want element " << i << " = " << (double)(x[i] - d * nn[i])); REQUIRE(fw::near((long double)h[i] + p[i], x[i], (3 * n + 9) * eps * lx), << "projections do not sum to the vector: " << fw::show(rd(h)) << " + " << fw::show(rd(p))); along += (long double)h[i] * nn[i]; }
      REQUIRE(std::fabs(along) <= (3 * n + 9) * eps * lx, << "projection to the plane leaves " << (double)along << " along the normal"); }); });
  }
  if constexpr (vspec<V>::n < 0 || vspec<W>::n < 0) {
    std::vector<A> xs = x; std::vector<B> ys = y; if constexpr (vspec<W>::n < 0) ys = exact_vec<B>(g, n + 1); else xs = exact_vec<A>(g, n + 1); VBox<V> p(xs); VBox<W> q(ys);
    REQUIRE_THROWS(cml::incompatible_vector_size_error, cml::manhattan_distance(p.cr(), q.cr())); REQUIRE_THROWS(cml::incompatible_vector_size_error, cml::project_to_vector(p.cr(), q.cr())); REQUIRE_THROWS(cml::incompatible_vector_size_error, cml::project_to_hplane(p.cr(), q.cr()));
  }
  if constexpr (vspec<V>::kind == 'D') { V e; REQUIRE_THROWS(cml::minimum_vector_size_error, e.length()); REQUIRE_THROWS(cml::minimum_vector_size_error, cml::length_squared(e)); REQUIRE_THROWS(cml::minimum_vector_size_error, cml::manhattan_distance(e, e)); REQUIRE_THROWS(cml::minimum_vector_size_error, cml::project_to_vector(e, e)); REQUIRE_THROWS(cml::minimum_vector_size_error, cml::project_to_hplane(e, e)); }
}
// ------------------------------------------------------------ 2D
inline bool angle_ok(long double got, long double want, long double tol) { return std::fabs(got) <= PI + 2 * tol && (std::fabs(got - want) <= tol || (std::fabs(std::fabs(want) - PI) <= tol && std::fabs(std::fabs(got) - PI) <= tol)); }
// second vector: general, exact, near (anti)parallel, perpendicular to the first
template <class A, class B> std::vector<B> partner(Gen& g, const std::vector<A>& x, const char*& fam) {
  int n = (int)x.size(); std::vector<B> y(n); long double s = g.below(4) ? 1 : std::ldexp(1.0L, (int)g.sym(12));
  switch (g.below(5)) {
    case 0: { fam = "near parallel"; long double k = (g.coin() ? 1 : -1) * std::ldexp(1.0L, (int)g.sym(3)), d = std::ldexp(1.0L, -(int)g.range(3, 60)); for (int i = 0; i < n; ++i) y[i] = (B)((x[i] * k + g.symreal(1) * d) * s); break; }
    case 1: { fam = "exactly parallel"; int k = (int)g.range(1, 4) * (g.coin() ? 1 : -1); for (int i = 0; i < n; ++i) y[i] = (B)(x[i] * k); break; }
    case 2: { fam = "exactly perpendicular"; int i = (int)g.below(n), j = (i + 1) % n; for (auto& e : y) e = 0; y[i] = (B)x[j]; y[j] = (B)-x[i]; if (g.coin()) for (auto& e : y) e = -e; break; }
    default: fam = "general"; y = nzx<B>(g, n); return y; }
  if (ddot(y, y) == 0) y[0] = 1;
  return y;
}
template <class V, class W> void plane(Gen& g) {
  using A = elem_t<V>; using B = elem_t<W>; using P = pro<A, B>; const long double eps = epsn<P>(); bool ex = g.below(3) == 0; const char* fam = "exact"; std::vector<A> x = ex ? exact_vec<A>(g, 2) : nzx<A>(g, 2); if (ddot(x, x) == 0) x[1] = -2; std::vector<B> y = ex ? exact_vec<B>(g, 2) : partner<A, B>(g, x, fam); if (ddot(y, y) == 0) y[0] = 1; g.label(fam); VBox<V> a(x); VBox<W> b(y);
  long double c = (long double)x[0] * y[1] - (long double)x[1] * y[0], d = ddot(x, y), want = std::atan2(c, d); g.nontrivial(c != 0 && d != 0); g.note([&](auto& o) { o << fw::show(x) << " " << fw::show(y); });
  long double tol = (6 + (std::is_same_v<A, B> ? 0 : 2)) * eps;
  forms(g, a, [&](auto&& u) { forms(g, b, [&](auto&& v) {
    auto s = cml::signed_angle_2D(u, v); static_assert(std::is_same_v<decltype(s), P>); REQUIRE(angle_ok(s, want, tol), << "signed_angle_2D " << s << " want " << (double)want); if (ex && c != 0) REQUIRE((s > 0) == (c > 0), << "sign of " << s << " want " << (double)want);
    auto r = cml::unsigned_angle_2D(u, v); REQUIRE(r >= 0 && angle_ok(r, std::fabs(want), tol), << "unsigned_angle_2D " << r << " want " << (double)std::fabs(want));
    // the signed angle is the rotation taking the first direction to the second
    long double lx = llen(x), ly = llen(y), cs = std::cos((long double)s), sn = std::sin((long double)s); REQUIRE(std::fabs((cs * x[0] - sn * x[1]) / lx - y[0] / ly) <= 2 * tol && std::fabs((sn * x[0] + cs * x[1]) / lx - y[1] / ly) <= 2 * tol, << "rotating the first vector by " << s << " does not give the second"); }); });
  forms(g, a, [&](auto&& u) { auto p = cml::perp(u); REQUIRE(p.size() == 2 && p[0] == -x[1] && p[1] == x[0], << "perp " << fw::show(rd(p))); REQUIRE(cml::dot(p, u) == 0 && p.length_squared() == u.length_squared(), << "perp is not an equally long perpendicular"); });
  if constexpr (vspec<V>::n < 0) { int k = g.coin() ? 3 : 1; VBox<V> p(exact_vec<A>(g, k)); VBox<W> q(y); REQUIRE_THROWS(cml::vector_size_error, cml::perp(p.cr())); REQUIRE_THROWS(cml::vector_size_error, cml::signed_angle_2D(p.cr(), q.cr())); REQUIRE_THROWS(cml::vector_size_error, cml::unsigned_angle_2D(q.cr(), p.cr())); }
}
// ------------------------------------------------------------ 3D
template <class V, class W, class X> void space(Gen& g) {
  using A = elem_t<V>; using B = elem_t<W>; using C = elem_t<X>; using P = pro<pro<A, B>, C>; const long double eps = epsn<A, B, C>(); bool ex = g.below(3) == 0; const char* fam = "exact"; std::vector<A> x = ex ? exact_vec<A>(g, 3) : nzx<A>(g, 3); if (ddot(x, x) == 0) x[1] = -2; std::vector<B> y = ex ? exact_vec<B>(g, 3) : partner<A, B>(g, x, fam); if (ddot(y, y) == 0) y[0] = 1; auto z = ex ? exact_vec<C>(g, 3) : nzx<C>(g, 3); g.label(fam);
  V3 xv = v3(x), yv = v3(y), cr = cross(xv, yv); if (g.below(4) == 0) z = tov<C>(cr * (g.coin() ? 1 : -1)); VBox<V> a(x); VBox<W> b(y); VBox<X> r(z); long double c = len(cr), d = dot(xv, yv), want = std::atan2(c, d), side = dot(cr, v3(z)), tol = 8 * eps, lx = len(xv), ly = len(yv), lz = len(v3(z)); g.nontrivial(c != 0 && d != 0 && side != 0); g.note([&](auto& o) { o << fw::show(x) << " " << fw::show(y) << " reference " << fw::show(z); });
  forms(g, a, [&](auto&& u) { forms(g, b, [&](auto&& v) {
    auto n = cml::unsigned_angle(u, v); REQUIRE(n >= 0 && angle_ok(n, want, tol), << "unsigned_angle " << n << " want " << (double)want);
    forms(g, r, [&](auto&& w) { auto s = cml::signed_angle(u, v, w); static_assert(std::is_same_v<decltype(s), P>); REQUIRE(angle_ok(std::fabs((long double)s), want, tol), << "signed_angle " << s << " want +-" << (double)want);
      if (c != 0 && (ex ? true : std::fabs(side) > 20 * eps * lx * ly * lz)) REQUIRE(s == 0 || (s < 0) == (side < 0), << "signed_angle " << s << " with the cross product " << (side < 0 ? "opposite to" : "along") << " the reference"); }); }); });
  if constexpr (vspec<V>::n < 0) { int k = g.coin() ? 4 : 2; VBox<V> p(exact_vec<A>(g, k)); REQUIRE_THROWS(cml::vector_size_error, cml::unsigned_angle(p.cr(), b.cr())); REQUIRE_THROWS(cml::vector_size_error, cml::signed_angle(p.cr(), b.cr(), r.cr())); }
}
template <class V, class W, class T> void rotate(Gen& g) {
  using A = elem_t<V>; using B = elem_t<W>; using P = pro<A, B>; const long double eps = epsn<A, B, T>(); auto x = g.coin() ? nzx<A>(g, 3) : exact_vec<A>(g, 3); auto nn = tov<B>(unit3(g)); T t = angle<T>(g); VBox<V> a(x); VBox<W> b(nn); V3 xv = v3(x), nv = v3(nn); long double lx = len(xv); g.nontrivial(len(cross(xv, nv)) > 1e-3L * lx && std::fabs(std::sin((long double)t)) > 1e-3L); g.note([&](auto& o) { o << fw::show(x) << " about " << fw::show(nn) << " by " << t; });
  long double c = std::cos((long double)t), s = std::sin((long double)t); V3 par = nv * dot(xv, nv), w = (xv - par) * c + cross(nv, xv) * s + par; const long double tol = 12 * eps * lx;
  forms(g, a, [&](auto&& u) { forms(g, b, [&](auto&& v) {
    auto q = cml::rotate_vector(u, v, t); static_assert(std::is_same_v<std::decay_t<decltype(q[0])>, P>); expect_vec_near(q, lv(w), tol, "rotate_vector"); V3 qv = rd3(q);
    REQUIRE(fw::near(len(qv), lx, tol), << "length " << (double)len(qv) << " want " << (double)lx); REQUIRE(fw::near(dot(qv, nv), dot(xv, nv), tol), << "component along the axis changed");
    auto back = cml::rotate_vector(q, v, -t); expect_vec_near(back, lv(x), 2 * tol, "rotating back"); }); });
  expect_vec(a.cr(), x, "argument"); expect_vec(b.cr(), nn, "axis");
  if constexpr (vspec<V>::n < 0) { int k = g.coin() ? 4 : 2; VBox<V> p(exact_vec<A>(g, k)); REQUIRE_THROWS(cml::vector_size_error, cml::rotate_vector(p.cr(), b.cr(), t)); }
  if constexpr (vspec<W>::n < 0) { int k = g.coin() ? 4 : 2; VBox<W> p(exact_vec<B>(g, k)); REQUIRE_THROWS(cml::vector_size_error, cml::rotate_vector(a.cr(), p.cr(), t)); }
}
