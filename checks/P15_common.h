#pragma once
#include "geom.h"
// P15: rotation builders and conversions.
template <class M> void junk(Gen& g, Mod<melem_t<M>>& m) { for (auto& e : m.d) e = (melem_t<M>)g.sym(9); }
template <class M> Mod<melem_t<M>> slot(Gen& g, int d) { auto x = hshape<M>(g, d); junk<M>(g, x); return x; }
// the rotation acts on vectors by multiplication (square d x d matrices)
template <class M> void acts(Gen& g, const M& m, const LM& r, long double tol, const char* what) {
  int d = r.r; if (m.rows() != d || m.cols() != d) return;
  using E = melem_t<M>; auto x = exact_vec<E>(g, d); vector<E, dynamic<>> v(d); for (int i = 0; i < d; ++i) v[i] = x[i];
  std::vector<long double> w(d); for (int i = 0; i < d; ++i) for (int k = 0; k < d; ++k) w[i] += r(i, k) * (long double)x[k];
  if constexpr (is_row_basis<M>) expect_vec_near(v * m, w, 60 * tol, what); else expect_vec_near(m * v, w, 60 * tol, what);
}
template <class E, class F> constexpr long double eps2() { return std::max<long double>(std::numeric_limits<E>::epsilon(), std::numeric_limits<F>::epsilon()); }

template <class M, class A> void world(Gen& g) {
  using E = melem_t<M>; const long double eps = eps2<E, A>(); auto x = slot<M>(g, 3); A t = angle<A>(g); int ax = (int)g.below(3);
  g.nontrivial(std::fabs(std::sin((long double)t)) > 1e-3L); g.note([&](auto& o) { o << x.r << "x" << x.c << " axis " << ax << " angle " << t; });
  LM r = world_rot(ax, t);
  { MBox<M> b(x); cml::matrix_rotation_world_axis(b.m, ax, t); expect_lin(b.m, r, 2 * eps, "matrix_rotation_world_axis"); acts(g, b.m, r, eps, "action of matrix_rotation_world_axis"); }
  { MBox<M> b(x); switch (ax) { case 0: cml::matrix_rotation_world_x(b.m, t); break; case 1: cml::matrix_rotation_world_y(b.m, t); break; default: cml::matrix_rotation_world_z(b.m, t); } expect_lin(b.m, r, 2 * eps, "matrix_rotation_world_xyz"); }
  int bad = g.coin() ? 3 + (int)g.below(3) : -1 - (int)g.below(3); { MBox<M> b(x); REQUIRE_THROWS(std::invalid_argument, cml::matrix_rotation_world_axis(b.m, bad, t)); }
}
template <class M, class V, class A> void axis_angle(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; const long double eps = std::max(eps2<E, F>(), eps2<A, A>()); auto x = slot<M>(g, 3); A t = angle<A>(g); auto n = tov<F>(unit3(g));
  g.nontrivial(std::fabs(std::sin((long double)t)) > 1e-3L); g.note([&](auto& o) { o << x.r << "x" << x.c << " axis " << fw::show(n) << " angle " << t; });
  LM r = rodrigues(v3(n), t); VBox<V> v(n);
  { MBox<M> b(x); cml::matrix_rotation_axis_angle(b.m, v.cr(), t); expect_lin(b.m, r, 6 * eps, "matrix_rotation_axis_angle"); acts(g, b.m, r, eps, "action of matrix_rotation_axis_angle");
    LM s = lin(b.m, 3); expect_lm(mul(s, s.tr()), ident(3), 40 * eps, "orthonormal"); REQUIRE(fw::near(det_ref(s), 1, 40 * eps), << "proper"); }
  { MBox<M> b(x); cml::matrix_rotation_axis_angle(b.m, -v.v, t); expect_lin(b.m, r.tr(), 6 * eps, "matrix_rotation_axis_angle about -axis"); }
  expect_vec(v.cr(), n, "axis unchanged");
  quaternion<E> q; cml::quaternion_rotation_axis_angle(q, v.cr(), t); MBox<M> b(x); cml::matrix_rotation_quaternion(b.m, q); expect_lin(b.m, r, 16 * eps, "axis-angle -> quaternion -> matrix");
}
template <class M, class A> void rot2d(Gen& g) {
  using E = melem_t<M>; const long double eps = eps2<E, A>(); auto x = slot<M>(g, 2); A t = angle<A>(g); g.nontrivial(std::fabs(std::sin((long double)t)) > 1e-3L); g.note([&](auto& o) { o << x.r << "x" << x.c << " angle " << t; });
  MBox<M> b(x); cml::matrix_rotation_2D(b.m, t); expect_lin(b.m, rot2(t), 2 * eps, "matrix_rotation_2D"); acts(g, b.m, rot2(t), eps, "action of matrix_rotation_2D");
}
template <class Q, class A> void qbuild(Gen& g) {
  using E = qelem_t<Q>; const long double eps = eps2<E, A>(); A t = angle<A>(g); int ax = (int)g.below(3); auto n = tov<E>(unit3(g)); g.nontrivial(std::fabs(std::sin((long double)t / 2)) > 1e-3L); g.note([&](auto& o) { o << "axis " << ax << " " << fw::show(n) << " angle " << t; });
  H junkq{5, -6, 7, 8}; V3 e{ax == 0 ? 1.0L : 0, ax == 1 ? 1.0L : 0, ax == 2 ? 1.0L : 0};
  { Q q = mkq<Q>(junkq); cml::quaternion_rotation_world_axis(q, ax, t); expect_q_near(q, quat_of(e, t), 2 * eps, "quaternion_rotation_world_axis"); }
  { Q q = mkq<Q>(junkq); switch (ax) { case 0: cml::quaternion_rotation_world_x(q, t); break; case 1: cml::quaternion_rotation_world_y(q, t); break; default: cml::quaternion_rotation_world_z(q, t); } expect_q_near(q, quat_of(e, t), 2 * eps, "quaternion_rotation_world_xyz"); }
  { Q q = mkq<Q>(junkq); vector<E, fixed<3>> v(n[0], n[1], n[2]); cml::quaternion_rotation_axis_angle(q, v, t); expect_q_near(q, quat_of(v3(n), t), 3 * eps, "quaternion_rotation_axis_angle"); cml::quaternion_rotation_axis_angle(q, -v, t); expect_q_near(q, conj(quat_of(v3(n), t)), 3 * eps, "about the opposite axis"); }
  { Q q = mkq<Q>(junkq); vector<E, dynamic<>> v(3); for (int i = 0; i < 3; ++i) v[i] = n[i]; cml::quaternion_rotation_axis_angle(q, v, t); expect_q_near(q, quat_of(v3(n), t), 3 * eps, "dynamic axis"); v.resize((int)(g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::quaternion_rotation_axis_angle(q, v, t)); }
  int bad = g.coin() ? 3 + (int)g.below(3) : -1 - (int)g.below(3); { Q q = mkq<Q>(junkq); REQUIRE_THROWS(std::invalid_argument, cml::quaternion_rotation_world_axis(q, bad, t)); }
}
// matrix <-> quaternion
template <class M, class Q> void convert(Gen& g) {
  using E = melem_t<M>; using F = qelem_t<Q>; const long double eps = eps2<E, F>(); const char *f1, *f2; H a = rot_h(g, f1), b = rot_h(g, f2); g.label(f1); auto x = slot<M>(g, 3);
  Q p = mkq<Q>(a), q = mkq<Q>(b); H ra = rdq(p), rb = rdq(q); g.nontrivial(norm2(conj(a) + a * -1.0L) > 1e-6L); g.note([&](auto& o) { o << x.r << "x" << x.c << " " << show(ra) << " " << show(rb); });
  { MBox<M> m(x); cml::matrix_rotation_quaternion(m.m, p); expect_lin(m.m, quat_rot(ra), 5 * eps, "matrix_rotation_quaternion"); acts(g, m.m, quat_rot(ra), 4 * eps, "action"); cml::matrix_rotation_quaternion(m.m, -p); expect_lin(m.m, quat_rot(ra), 5 * eps, "matrix_rotation_quaternion(-q)"); cml::matrix_rotation_quaternion(m.m, conjugate(p)); expect_lin(m.m, quat_rot(ra).tr(), 5 * eps, "matrix_rotation_quaternion(conjugate)");
    // products compose: with the positive cross, p*q applies q first
    cml::matrix_rotation_quaternion(m.m, p * q); LM rp = quat_rot(a), rq = quat_rot(b); expect_lin(m.m, pos_cross<Q> ? mul(rp, rq) : mul(rq, rp), 30 * eps, "rotation of a product"); }
  { Mod<E> y = put_lin<M>(x, quat_rot(a)); MBox<M> m(y); LM rr = lin_of<M>(y, 3); Q r = mkq<Q>({4, 5, 6, 7}); cml::quaternion_rotation_matrix(r, m.cr()); H h = rdq(r); if (dot(h, a) < 0) h = -h;
    H d = h - a; REQUIRE(abs(d) <= 8 * eps, << "quaternion_rotation_matrix gives " << show(rdq(r)) << " want +/-" << show(a) << " from " << show(rr));
    MBox<M> m2(x); cml::matrix_rotation_quaternion(m2.m, r); expect_lin(m2.m, quat_rot(a), 30 * eps, "matrix -> quaternion -> matrix"); expect_mat(m.cr(), y, "source unchanged"); }
  // basis vectors of the rotation
  { LM r = quat_rot(ra); int i = (int)g.below(3); std::vector<long double> w{r(0, i), r(1, i), r(2, i)};
    expect_vec_near(cml::quaternion_get_basis_vector(p, i), w, 5 * eps, "quaternion_get_basis_vector"); expect_vec_near(cml::quaternion_get_basis_vector(-p, i), w, 5 * eps, "quaternion_get_basis_vector(-q)");
    expect_vec_near(i == 0 ? cml::quaternion_get_x_basis_vector(p) : i == 1 ? cml::quaternion_get_y_basis_vector(p) : cml::quaternion_get_z_basis_vector(p), w, 5 * eps, "quaternion_get_xyz_basis_vector");
    vector<F, fixed<3>> bx, by; vector<F, dynamic<>> bz; cml::quaternion_get_basis_vectors(p, bx, by, bz);
    for (int k = 0; k < 3; ++k) REQUIRE(fw::near(bx[k], r(k, 0), 5 * eps) && fw::near(by[k], r(k, 1), 5 * eps) && fw::near(bz[k], r(k, 2), 5 * eps), << "quaternion_get_basis_vectors");
    int bad = g.coin() ? 3 : -1; REQUIRE_THROWS(std::invalid_argument, cml::quaternion_get_basis_vector(p, bad)); }
}
// the returned axis-angle pair is the rotation
inline void expect_aa(V3 n, long double t, const LM& r, long double eps, long double tmax, const char* what) {
  REQUIRE(std::isfinite(n.x) && std::isfinite(n.y) && std::isfinite(n.z) && t >= 0 && t <= tmax + 4 * eps, << what << ": axis [" << n.x << " " << n.y << " " << n.z << "] angle " << t);
  long double l = len(n); REQUIRE(fw::near(l, 1, 8 * eps) || (l == 0 && t == 0), << what << ": axis length " << l << " angle " << t);
  LM s = l == 0 ? ident(3) : rodrigues(n, t);
  for (size_t i = 0; i < 9; ++i) REQUIRE(fw::near(s.d[i], r.d[i], 24 * eps), << what << ": axis [" << n.x << " " << n.y << " " << n.z << "] angle " << t << " rotates as " << show(s) << " want " << show(r));
}
template <class M, class V> void to_aa(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; const long double eps = eps2<E, F>(); const char* f; H a = rot_h(g, f); g.label(f); auto x = slot<M>(g, 3); Mod<E> y = put_lin<M>(x, quat_rot(a)); LM r = quat_rot(a);
  g.nontrivial(norm2(conj(a) - a) > 1e-6L); g.note([&](auto& o) { o << f << " " << y.r << "x" << y.c << " " << show(a) << " matrix " << show(y); });
  MBox<M> m(y); VBox<V> v(vspec<V>::kind == 'D' ? std::vector<F>(g.below(5), F(9)) : std::vector<F>{7, 8, 9}); F t = 99;
  cml::matrix_to_axis_angle(m.cr(), v.v, t); REQUIRE(v.v.size() == 3); expect_aa(rd3(v.v), t, r, eps, PI, "matrix_to_axis_angle");
  auto [n, s] = cml::matrix_to_axis_angle(m.cr()); expect_aa(rd3(n), s, r, eps, PI, "matrix_to_axis_angle (tuple)");
  // built from an axis and angle and back, through the matrix
  E u = angle<E>(g); auto ax = tov<E>(unit3(g)); LM w = rodrigues(v3(ax), u); cml::matrix_rotation_axis_angle(m.m, vector<E, fixed<3>>(ax[0], ax[1], ax[2]), u); g.note([&](auto& o) { o << "axis " << fw::show(ax) << " angle " << u; });
  cml::matrix_to_axis_angle(m.cr(), v.v, t); expect_aa(rd3(v.v), t, w, eps, PI, "axis-angle -> matrix -> axis-angle");
}
template <class Q, class V> void q_to_aa(Gen& g) {
  using E = qelem_t<Q>; using F = elem_t<V>; const long double eps = eps2<E, F>(); const char* f; H a = rot_h(g, f); g.label(f); Q p = mkq<Q>(a); const Q& cp = p; LM r = quat_rot(a);
  g.nontrivial(norm2(conj(a) - a) > 1e-6L); g.note([&](auto& o) { o << f << " " << show(a); });
  VBox<V> v(vspec<V>::kind == 'D' ? std::vector<F>(g.below(5), F(9)) : std::vector<F>{7, 8, 9}); F t = 99;
  cml::quaternion_to_axis_angle(cp, v.v, t); REQUIRE(v.v.size() == 3); expect_aa(rd3(v.v), t, r, eps, 2 * PI, "quaternion_to_axis_angle");
  auto [n, s] = cml::quaternion_to_axis_angle(cp); expect_aa(rd3(n), s, r, eps, 2 * PI, "quaternion_to_axis_angle (tuple)");
  cml::quaternion_to_axis_angle(-p, v.v, t); expect_aa(rd3(v.v), t, r, eps, 2 * PI, "quaternion_to_axis_angle(-q)");
  Q q; cml::quaternion_rotation_axis_angle(q, v.v, t); H h = rdq(q); long double l = len(rd3(v.v)); if (l > 0) { if (dot(h, a) < 0) h = -h; REQUIRE(abs(h - a) <= 12 * eps, << "quaternion -> axis-angle -> quaternion: " << show(h) << " want " << show(a)); }
}
