#pragma once
#include "geom.h"
// P16: Euler angles.
struct EO { cml::euler_order o; int a[3]; const char* n; };
inline const EO EULER[12] = {
  {cml::euler_order_xyz, {0, 1, 2}, "xyz"}, {cml::euler_order_xzy, {0, 2, 1}, "xzy"}, {cml::euler_order_yzx, {1, 2, 0}, "yzx"}, {cml::euler_order_yxz, {1, 0, 2}, "yxz"}, {cml::euler_order_zxy, {2, 0, 1}, "zxy"}, {cml::euler_order_zyx, {2, 1, 0}, "zyx"},
  {cml::euler_order_xyx, {0, 1, 0}, "xyx"}, {cml::euler_order_xzx, {0, 2, 0}, "xzx"}, {cml::euler_order_yzy, {1, 2, 1}, "yzy"}, {cml::euler_order_yxy, {1, 0, 1}, "yxy"}, {cml::euler_order_zxz, {2, 0, 2}, "zxz"}, {cml::euler_order_zyz, {2, 1, 2}, "zyz"}};
inline LM euler_ref(const EO& o, long double a, long double b, long double c) { return mul(world_rot(o.a[2], c), mul(world_rot(o.a[1], b), world_rot(o.a[0], a))); }
inline H axis_q(int ax, long double t) { H h; h.w = std::cos(t / 2); (ax == 0 ? h.x : ax == 1 ? h.y : h.z) = std::sin(t / 2); return h; }
inline LM drot(int ax, long double t) {   // d/dt of the rotation about a world axis
  V3 e{ax == 0 ? 1.0L : 0, ax == 1 ? 1.0L : 0, ax == 2 ? 1.0L : 0}; LM k(3, 3); for (int a = 0; a < 3; ++a) { V3 u{a == 0 ? 1.0L : 0, a == 1 ? 1.0L : 0, a == 2 ? 1.0L : 0}, c = cross(e, u); for (int i = 0; i < 3; ++i) k(i, a) = c[i]; }
  return mul(k, world_rot(ax, t));
}
template <class... T> constexpr long double epsn() { long double e = 0; ((e = std::max(e, (long double)std::numeric_limits<T>::epsilon())), ...); return e; }
template <class M> Mod<melem_t<M>> slot(Gen& g, int d) { auto x = hshape<M>(g, d); for (auto& e : x.d) e = (melem_t<M>)g.sym(9); return x; }
template <class E> E mid_angle(Gen& g, bool rep) {   // second angle: lock exactly, near lock, anything
  long double lock = rep ? (long double)g.sym(2) * PI : PI / 2 + (long double)g.sym(2) * PI;
  switch (g.below(4)) { case 0: return (E)lock; case 1: return (E)(lock + std::ldexp((long double)g.sym(15), -(int)g.below(std::is_same_v<E, float> ? 26 : 56))); default: return angle<E>(g); }
}
template <class M, class A0, class A1, class A2, class V> void build(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; const long double eps = epsn<E, A0, A1, A2>(); const EO& o = EULER[g.below(12)]; auto x = slot<M>(g, 3);
  A0 a = angle<A0>(g); A1 b = angle<A1>(g); A2 c = angle<A2>(g); g.label(o.n); g.nontrivial(a != 0 && b != 0 && c != 0); g.note([&](auto& s) { s << o.n << " " << x.r << "x" << x.c << " " << a << " " << b << " " << c; });
  LM r = euler_ref(o, a, b, c);
  { MBox<M> m(x); cml::matrix_rotation_euler(m.m, a, b, c, o.o); expect_lin(m.m, r, 8 * eps, "matrix_rotation_euler"); }
  { MBox<M> m(x); std::vector<F> e{(F)a, (F)b, (F)c}; VBox<V> v(e); cml::matrix_rotation_euler(m.m, v.cr(), o.o); expect_lin(m.m, euler_ref(o, e[0], e[1], e[2]), 8 * epsn<E, F>(), "matrix_rotation_euler(vector)"); cml::matrix_rotation_euler(m.m, -v.v, o.o); expect_lin(m.m, euler_ref(o, -e[0], -e[1], -e[2]), 8 * epsn<E, F>(), "matrix_rotation_euler(expression)"); }
}
template <class M, class A0, class A1, class A2, class V> void deriv(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; const long double eps = epsn<E, A0, A1, A2>(); bool rep = g.chance(1, 8); const EO& o = EULER[rep ? 6 + g.below(6) : g.below(6)]; auto x = slot<M>(g, 3); int ax = (int)g.below(3);
  A0 a = angle<A0>(g); A1 b = angle<A1>(g); A2 c = angle<A2>(g); g.label(o.n); g.nontrivial(!rep && a != 0 && b != 0 && c != 0); g.note([&](auto& s) { s << o.n << " d/d" << ax << " " << x.r << "x" << x.c << " " << a << " " << b << " " << c; });
  MBox<M> m(x);
  if (rep) { REQUIRE_THROWS(std::invalid_argument, cml::matrix_rotation_euler_derivatives(m.m, ax, a, b, c, o.o)); return; }
  int bad = g.coin() ? 3 + (int)g.below(2) : -1 - (int)g.below(2); REQUIRE_THROWS(std::invalid_argument, cml::matrix_rotation_euler_derivatives(m.m, bad, a, b, c, o.o));
  auto ref = [&](long double t0, long double t1, long double t2) { return mul(ax == 2 ? drot(o.a[2], t2) : world_rot(o.a[2], t2), mul(ax == 1 ? drot(o.a[1], t1) : world_rot(o.a[1], t1), ax == 0 ? drot(o.a[0], t0) : world_rot(o.a[0], t0))); };
  cml::matrix_rotation_euler_derivatives(m.m, ax, a, b, c, o.o); expect_lm(lin(m.m, 3), ref(a, b, c), 8 * eps, "matrix_rotation_euler_derivatives");
  MBox<M> m2(x); std::vector<F> e{(F)a, (F)b, (F)c}; VBox<V> v(e); cml::matrix_rotation_euler_derivatives(m2.m, ax, v.cr(), o.o); expect_lm(lin(m2.m, 3), ref(e[0], e[1], e[2]), 8 * epsn<E, F>(), "matrix_rotation_euler_derivatives(vector)");
}
template <class Q, class A0, class A1, class A2, class V> void qbuild(Gen& g) {
  using E = qelem_t<Q>; using F = elem_t<V>; const long double eps = epsn<E, A0, A1, A2>(); const EO& o = EULER[g.below(12)];
  A0 a = angle<A0>(g); A1 b = angle<A1>(g); A2 c = angle<A2>(g); g.label(o.n); g.nontrivial(a != 0 && b != 0 && c != 0); g.note([&](auto& s) { s << o.n << " " << a << " " << b << " " << c; });
  auto ref = [&](long double t0, long double t1, long double t2) { return ham(axis_q(o.a[2], t2), ham(axis_q(o.a[1], t1), axis_q(o.a[0], t0))); };
  auto chk = [&](const Q& q, H w, long double tol, const char* s) { H h = rdq(q); if (dot(h, w) < 0) h = -h; REQUIRE(abs(h - w) <= tol, << s << ": " << show(rdq(q)) << " want +/-" << show(w)); };
  Q q = mkq<Q>({5, 6, 7, 8}); cml::quaternion_rotation_euler(q, a, b, c, o.o); chk(q, ref(a, b, c), 8 * eps, "quaternion_rotation_euler");
  std::vector<F> e{(F)a, (F)b, (F)c}; VBox<V> v(e); cml::quaternion_rotation_euler(q, v.cr(), o.o); chk(q, ref(e[0], e[1], e[2]), 8 * epsn<E, F>(), "quaternion_rotation_euler(vector)");
}
// the extracted angles rebuild the rotation
template <class T0, class T1, class T2> void expect_euler(const EO& o, T0 a, T1 b, T2 c, const LM& r, long double eps, const char* what) {
  REQUIRE(std::isfinite(a) && std::isfinite(b) && std::isfinite(c), << what); LM s = euler_ref(o, a, b, c);
  for (size_t i = 0; i < 9; ++i) REQUIRE(fw::near(s.d[i], r.d[i], 32 * eps), << what << " " << o.n << ": angles " << (double)a << " " << (double)b << " " << (double)c << " rotate as " << show(s) << " want " << show(r));
  REQUIRE(std::fabs((long double)a) <= PI + 4 * eps && std::fabs((long double)b) <= PI + 4 * eps && std::fabs((long double)c) <= 2 * PI + 4 * eps, << what << ": range " << (double)a << " " << (double)b << " " << (double)c);
}
template <class M, class A0, class A1, class A2, class V> void extract(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; const long double eps = epsn<E, A0, A1, A2>(); const EO& o = EULER[g.below(12)]; bool rep = o.a[0] == o.a[2]; auto x = slot<M>(g, 3);
  LM r; const char* fam = "angles"; g.label(o.n); Mod<E> y;
  if (g.coin()) { H h = rot_h(g, fam); r = quat_rot(h); y = put_lin<M>(x, r); }
  else if (g.coin()) { long double a = angle<double>(g), b = mid_angle<double>(g, rep), c = angle<double>(g); r = euler_ref(o, a, b, c); y = put_lin<M>(x, r); fam = "exact angles"; }
  else { E a = angle<E>(g), b = mid_angle<E>(g, rep), c = angle<E>(g); MBox<M> m(x); cml::matrix_rotation_euler(m.m, a, b, c, o.o); y = rdm(m.m); r = euler_ref(o, a, b, c); }
  g.label(fam); g.nontrivial(); g.note([&](auto& s) { s << o.n << " " << fam << " " << show(y); });
  MBox<M> m(y); A0 a = 9; A1 b = 9; A2 c = 9;
  cml::matrix_to_euler(m.cr(), a, b, c, o.o); expect_euler(o, a, b, c, r, eps, "matrix_to_euler");
  auto v = cml::matrix_to_euler(m.cr(), o.o); expect_euler(o, v[0], v[1], v[2], r, epsn<E>(), "matrix_to_euler (vector)");
  if constexpr (vspec<V>::kind == 'F' || vspec<V>::kind == 'D') { auto w = cml::matrix_to_euler<V>(m.cr(), o.o); static_assert(std::is_same_v<decltype(w), V>); REQUIRE(w.size() == 3); expect_euler(o, w[0], w[1], w[2], r, epsn<E, F>(), "matrix_to_euler<V>"); }
  MBox<M> m2(x); cml::matrix_rotation_euler(m2.m, v[0], v[1], v[2], o.o); expect_lin(m2.m, r, 40 * epsn<E>(), "rebuilt matrix"); expect_mat(m.cr(), y, "source unchanged");
}
template <class Q, class A0, class A1, class A2, class V> void qextract(Gen& g) {
  using E = qelem_t<Q>; using F = elem_t<V>; const long double eps = epsn<E, A0, A1, A2>(); const EO& o = EULER[g.below(12)]; bool rep = o.a[0] == o.a[2]; g.label(o.n); const char* fam = "angles"; H h;
  if (g.coin()) h = rot_h(g, fam);
  else { long double a = angle<double>(g), b = mid_angle<double>(g, rep), c = angle<double>(g); h = ham(axis_q(o.a[2], c), ham(axis_q(o.a[1], b), axis_q(o.a[0], a))); }
  Q q = mkq<Q>(h); const Q& cq = q; LM r = quat_rot(h); g.label(fam); g.nontrivial(); g.note([&](auto& s) { s << o.n << " " << fam << " " << show(rdq(q)); });
  A0 a = 9; A1 b = 9; A2 c = 9; cml::quaternion_to_euler(cq, a, b, c, o.o); expect_euler(o, a, b, c, r, eps, "quaternion_to_euler");
  auto v = cml::quaternion_to_euler(cq, o.o); expect_euler(o, v[0], v[1], v[2], r, epsn<E>(), "quaternion_to_euler (vector)");
  if constexpr (vspec<V>::kind == 'F' || vspec<V>::kind == 'D') { auto w = cml::quaternion_to_euler<V>(-q, o.o); expect_euler(o, w[0], w[1], w[2], r, epsn<E, F>(), "quaternion_to_euler<V>(-q)"); }
  Q p; cml::quaternion_rotation_euler(p, v[0], v[1], v[2], o.o); H k = rdq(p); if (dot(k, h) < 0) k = -k; REQUIRE(abs(k - h) <= 40 * epsn<E>(), << "rebuilt quaternion " << show(k) << " want +/-" << show(h));
}
