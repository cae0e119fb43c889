#pragma once
#include "geom.h"
// P18: orthonormal bases, alignment, aim-at, look-at.
struct AO { cml::axis_order o; int i, j, k; bool odd; const char* n; };
inline const AO AXES[6] = {{cml::axis_order_xyz, 0, 1, 2, false, "xyz"}, {cml::axis_order_xzy, 0, 2, 1, true, "xzy"}, {cml::axis_order_yzx, 1, 2, 0, false, "yzx"}, {cml::axis_order_yxz, 1, 0, 2, true, "yxz"}, {cml::axis_order_zxy, 2, 0, 1, false, "zxy"}, {cml::axis_order_zyx, 2, 1, 0, true, "zyx"}};
template <class... T> constexpr long double epsn() { long double e = 0; ((e = std::max(e, (long double)std::numeric_limits<T>::epsilon())), ...); return e; }
template <class M> Mod<melem_t<M>> slot(Gen& g, int d) { auto x = hshape<M>(g, d); for (auto& e : x.d) e = (melem_t<M>)g.sym(9); return x; }
inline void setcol(LM& r, int a, V3 v) { r(0, a) = v.x; r(1, a) = v.y; r(2, a) = v.z; }
// columns: axis i along a, axis j closest to ref, right-handed
inline LM frame(V3 a, V3 ref, const AO& o) {
  a = unit(a); V3 j = unit(ref - a * dot(a, ref)); j = unit(j - a * dot(a, j)); V3 k = bx::cross(a, j); if (o.odd) k = k * -1; LM r(3, 3); setcol(r, o.i, a); setcol(r, o.j, j); setcol(r, o.k, k); return r;
}
struct Dir { V3 a, ref; long double s; const char* fam; };   // s: sine of the angle between them
template <class A, class R> Dir dirs(Gen& g, bool unit_align) {
  Dir d; V3 a = unit3(g), r; long double la = unit_align ? 1 : std::ldexp(1 + g.unit(), (int)g.sym(8)), lr = std::ldexp(1 + g.unit(), (int)g.sym(8)); const int unit_len = (int)g.below(4);   // a quarter each: reference of unit length, both, neither twice
  switch (g.below(6)) {
    case 0: { d.fam = "near parallel"; r = unit3(g); V3 p = r - a * dot(a, r); if (len(p) < .1L) { V3 e{a.y, a.z, -a.x}; p = bx::cross(a, e); if (len(p) < .1L) p = bx::cross(a, V3{0, 1, 0} + a * 0); } if (len(p) < .05L) p = bx::cross(a, {1, 0, 0}); r = a * (g.coin() ? 1 : -1) + unit(p) * std::ldexp(1.0L, -(int)g.below(std::is_same_v<A, float> || std::is_same_v<R, float> ? 9 : 24)); break; }
    case 4: case 1: d.fam = "perpendicular"; r = unit3(g); r = r - a * dot(a, r); if (len(r) < .1L) { r = bx::cross(a, {0, 0, 1}); if (len(r) < .1L) r = {0, 1, 0}; } break;
    case 5: d.fam = "near perpendicular"; { r = unit3(g); r = r - a * dot(a, r); if (len(r) < .1L) r = bx::cross(a, std::fabs(a.x) < .7L ? V3{1, 0, 0} : V3{0, 1, 0}); r = unit(r) + a * (g.coin() ? 1 : -1) * std::ldexp(1 + g.unit(), -2 - (int)g.below(18)); } break;
    case 2: d.fam = "cardinal"; { int x = (int)g.below(3); r = {x == 0 ? 1.0L : 0, x == 1 ? 1.0L : 0, x == 2 ? 1.0L : 0}; if (g.coin()) r = r * -1; } break;
    default: d.fam = "general"; r = unit3(g);
  }
  if (len(r) < 1e-3L) r = {1, 0, 0};
  if (unit_len <= 1) { r = unit(r); lr = 1; if (g.below(3) == 0) lr += std::ldexp(1 + g.unit(), -3 - (int)g.below(20)); } if (unit_len == 0) la = 1;
  auto rnd = [](V3 v, auto e) { using T = decltype(e); return V3{(long double)(T)v.x, (long double)(T)v.y, (long double)(T)v.z}; };
  auto sine = [&] { return len(bx::cross(unit(d.a), unit(d.ref))); };
  d.a = rnd(a * la, A()); d.ref = rnd(r * lr, R()); d.s = sine();
  if (d.s < (std::is_same_v<A, float> || std::is_same_v<R, float> ? 1e-3L : 1e-8L)) { V3 e = std::fabs(a.x) < .7L ? V3{1, 0, 0} : V3{0, 1, 0}; d.ref = rnd(e, R()); d.s = sine(); }
  return d;
}
template <class V, class W, class X, class Y, class Z> void ortho3(Gen& g) {
  using A = elem_t<V>; using R = elem_t<W>; bool nrm = g.below(3) > 0; auto d = dirs<A, R>(g, !nrm); const AO& o = AXES[g.below(6)]; const long double tol = 14 * epsn<A, R, elem_t<X>, elem_t<Y>, elem_t<Z>>() / d.s; g.label(d.fam); g.nontrivial(d.s > 1e-6L);
  auto a = tov<A>(d.a); auto r = tov<R>(d.ref); g.note([&](auto& s) { s << o.n << " normalize " << nrm << " align " << fw::show(a) << " reference " << fw::show(r) << " " << d.fam; });
  VBox<V> av(a); VBox<W> rv(r); auto out = [&](auto e, int n) { return std::vector<decltype(e)>(n, decltype(e)(9)); };
  VBox<X> x(out(elem_t<X>(), vspec<X>::kind == 'D' ? (int)g.below(5) : 3)); VBox<Y> y(out(elem_t<Y>(), vspec<Y>::kind == 'D' ? (int)g.below(5) : 3)); VBox<Z> z(out(elem_t<Z>(), vspec<Z>::kind == 'D' ? (int)g.below(5) : 3));
  auto check = [&](const AO& q, const char* what) { LM w = frame(d.a, d.ref, q), got(3, 3); REQUIRE(x.v.size() == 3 && y.v.size() == 3 && z.v.size() == 3); setcol(got, 0, rd3(x.v)); setcol(got, 1, rd3(y.v)); setcol(got, 2, rd3(z.v));
    expect_lm(got, w, tol, what); expect_lm(mul(got.tr(), got), ident(3), 4 * tol, "orthonormal"); REQUIRE(fw::near(det_ref(got), 1, 4 * tol), << what << ": determinant of " << show(got)); };
  cml::orthonormal_basis(av.cr(), rv.cr(), x.v, y.v, z.v, nrm, o.o); check(o, "orthonormal_basis");
  expect_vec(av.cr(), a, "align"); expect_vec(rv.cr(), r, "reference");
  cml::orthonormal_basis(av.cr() * A(1), -(-rv.cr()), x.v, y.v, z.v, nrm, o.o); check(o, "orthonormal_basis of expressions");
  if (nrm) { cml::orthonormal_basis(av.cr(), rv.cr(), x.v, y.v, z.v); check(AXES[5], "orthonormal_basis with defaults"); }
}
template <class V, class X, class Y> void ortho2(Gen& g) {
  using A = elem_t<V>; bool nrm = g.below(3) > 0, odd = g.coin(); long double t = (long double)angle<double>(g), l = nrm ? std::ldexp(1 + g.unit(), (int)g.sym(8)) : 1; std::vector<A> a{(A)(l * std::cos(t)), (A)(l * std::sin(t))}; const long double eps = epsn<A, elem_t<X>, elem_t<Y>>();
  g.nontrivial(a[0] != 0 && a[1] != 0); g.note([&](auto& s) { s << (odd ? "yx" : "xy") << " normalize " << nrm << " align " << fw::show(a); });
  VBox<V> av(a); VBox<X> x(std::vector<elem_t<X>>(vspec<X>::kind == 'D' ? (int)g.below(4) : 2, 9)); VBox<Y> y(std::vector<elem_t<Y>>(vspec<Y>::kind == 'D' ? (int)g.below(4) : 2, 9));
  auto check = [&](bool o, const char* what) { long double c = a[0], s = a[1], h = std::sqrt(c * c + s * s); c /= h; s /= h; std::vector<long double> u{c, s}, v{-s, c}; if (o) { v = u; u = {v[1], -v[0]}; } expect_vec_near(x.v, u, 4 * eps, what); expect_vec_near(y.v, v, 4 * eps, what); };
  cml::orthonormal_basis_2D(av.cr(), x.v, y.v, nrm, odd ? cml::axis_order_yx : cml::axis_order_xy); check(odd, "orthonormal_basis_2D"); expect_vec(av.cr(), a, "align");
  if (nrm) { cml::orthonormal_basis_2D(-(-av.cr()), x.v, y.v); check(false, "orthonormal_basis_2D with defaults"); }
}
template <class M, class V, class W> void align(Gen& g) {
  using E = melem_t<M>; using A = elem_t<V>; using R = elem_t<W>; bool nrm = g.below(3) > 0; auto d = dirs<A, R>(g, !nrm); const AO& o = AXES[g.below(6)]; const long double eps = epsn<A, R, E>(); g.label(d.fam); g.nontrivial(d.s > 1e-6L); auto xs = slot<M>(g, 3);
  auto a = tov<A>(d.a); auto r = tov<R>(d.ref); g.note([&](auto& s) { s << o.n << " " << xs.r << "x" << xs.c << " normalize " << nrm << " align " << fw::show(a) << " reference " << fw::show(r); }); VBox<V> av(a); VBox<W> rv(r); MBox<M> m(xs);
  cml::matrix_rotation_align(m.m, av.cr(), rv.cr(), nrm, o.o); expect_lin(m.m, frame(d.a, d.ref, o), 14 * eps / d.s, "matrix_rotation_align");
  if (nrm) { MBox<M> b(xs); cml::matrix_rotation_align(b.m, av.cr(), rv.cr()); expect_lin(b.m, frame(d.a, d.ref, AXES[5]), 14 * eps / d.s, "matrix_rotation_align with defaults"); }
  // aim at: from position to target
  auto p = nz_vec<A>(g, 3); std::vector<A> t(3); for (int i = 0; i < 3; ++i) t[i] = (A)((long double)p[i] + a[i]); V3 dir = v3(t) - v3(p); long double s = len(dir) > 0 ? len(bx::cross(unit(dir), unit(d.ref))) : 0;
  if (s > (eps > 1e-10L ? 1e-3L : 1e-8L)) { VBox<V> pv(p), tv(t); MBox<M> b(xs); g.note([&](auto& s) { s << " pos " << fw::show(p) << " target " << fw::show(t); }); cml::matrix_rotation_aim_at(b.m, pv.cr(), tv.cr(), rv.cr(), o.o); expect_lin(b.m, frame(dir, d.ref, o), 16 * eps / s, "matrix_rotation_aim_at"); cml::matrix_rotation_aim_at(b.m, pv.cr(), tv.cr(), -(-rv.cr())); expect_lin(b.m, frame(dir, d.ref, AXES[5]), 16 * eps / s, "matrix_rotation_aim_at with the default order"); }
  if constexpr (mspec<M>::r < 0) { Mod<E> y(g.coin() ? 2 : 3, 2); if (g.coin()) y = y.tr(); MBox<M> b(y); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::matrix_rotation_align(b.m, av.cr(), rv.cr())); }
}
template <class Q, class V, class W> void qalign(Gen& g) {
  using E = qelem_t<Q>; using A = elem_t<V>; using R = elem_t<W>; bool nrm = g.below(3) > 0; auto d = dirs<A, R>(g, !nrm); const AO& o = AXES[g.below(6)]; const long double eps = epsn<A, R, E>(); g.label(d.fam); g.nontrivial(d.s > 1e-6L);
  auto a = tov<A>(d.a); auto r = tov<R>(d.ref); g.note([&](auto& s) { s << o.n << " normalize " << nrm << " align " << fw::show(a) << " reference " << fw::show(r); }); VBox<V> av(a); VBox<W> rv(r); Q q = mkq<Q>({5, 6, 7, 8});
  auto ok = [&](const LM& w, long double tol, const char* what) { H h = rdq(q); REQUIRE(fw::near(abs(h), 1, 2 * tol), << what << ": " << show(h) << " is not unit"); expect_lm(quat_rot(h), w, tol, what); };
  cml::quaternion_rotation_align(q, av.cr(), rv.cr(), nrm, o.o); ok(frame(d.a, d.ref, o), 60 * eps / d.s, "quaternion_rotation_align");
  if (nrm) { cml::quaternion_rotation_align(q, av.cr(), rv.cr()); ok(frame(d.a, d.ref, AXES[5]), 60 * eps / d.s, "quaternion_rotation_align with defaults"); }
  auto p = nz_vec<A>(g, 3); std::vector<A> t(3); for (int i = 0; i < 3; ++i) t[i] = (A)((long double)p[i] + a[i]); V3 dir = v3(t) - v3(p); long double s = len(dir) > 0 ? len(bx::cross(unit(dir), unit(d.ref))) : 0;
  if (s > (eps > 1e-10L ? 1e-3L : 1e-8L)) { VBox<V> pv(p), tv(t); cml::quaternion_rotation_aim_at(q, pv.cr(), tv.cr(), rv.cr(), o.o); ok(frame(dir, d.ref, o), 60 * eps / s, "quaternion_rotation_aim_at"); cml::quaternion_rotation_aim_at(q, pv.cr(), tv.cr(), rv.cr()); ok(frame(dir, d.ref, AXES[5]), 60 * eps / s, "quaternion_rotation_aim_at with the default order"); }
}
template <class M, class V> void align2(Gen& g) {
  using E = melem_t<M>; using A = elem_t<V>; bool nrm = g.below(3) > 0, odd = g.coin(); long double t = (long double)angle<double>(g), l = nrm ? std::ldexp(1 + g.unit(), (int)g.sym(8)) : 1; std::vector<A> a{(A)(l * std::cos(t)), (A)(l * std::sin(t))}; auto xs = slot<M>(g, 2);
  g.nontrivial(a[0] != 0 && a[1] != 0); g.note([&](auto& s) { s << (odd ? "yx " : "xy ") << xs.r << "x" << xs.c << " normalize " << nrm << " align " << fw::show(a); }); VBox<V> v(a); MBox<M> m(xs); long double th = std::atan2((long double)a[1], (long double)a[0]);
  cml::matrix_rotation_align_2D(m.m, v.cr(), nrm, odd ? cml::axis_order_yx : cml::axis_order_xy); expect_lin(m.m, rot2(odd ? th - PI / 2 : th), 4 * epsn<E, A>(), "matrix_rotation_align_2D");
  if (nrm) { cml::matrix_rotation_align_2D(m.m, v.cr()); expect_lin(m.m, rot2(th), 4 * epsn<E, A>(), "matrix_rotation_align_2D with defaults"); }
  if constexpr (mspec<M>::r < 0) { Mod<E> y(g.coin() ? 1 : 2, 1); if (g.coin()) y = y.tr(); MBox<M> b(y); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::matrix_rotation_align_2D(b.m, v.cr())); }
}
template <class M> constexpr bool row_b = is_row_basis<M>;
template <class M, class V, class W, class U> void look(Gen& g) {
  using E = melem_t<M>; using A = elem_t<V>; using B = elem_t<W>; using C = elem_t<U>; const long double eps = epsn<E, A, B, C>(); bool rh = g.coin();
  Mod<E> xs; if constexpr (mspec<M>::r > 0) xs = Mod<E>(mspec<M>::r, mspec<M>::c); else { int nb = 4, nc = 3 + (int)g.below(2); if (g.below(4) == 0) nb += (int)g.below(2), nc += (int)g.below(2); xs = row_b<M> ? Mod<E>(nb, nc) : Mod<E>(nc, nb); } for (auto& e : xs.d) e = (E)g.sym(9);
  auto d = dirs<double, C>(g, false); auto p = g.below(4) ? scaled_vec<A>(g, 3, 8) : exact_vec<A>(g, 3); std::vector<B> t(3); long double sc = std::ldexp(1.0L, (int)g.sym(6)); for (int i = 0; i < 3; ++i) t[i] = (B)((long double)p[i] + d.a[i] / len(d.a) * sc); auto u = tov<C>(d.ref);
  V3 dir = v3(t) - v3(p); long double s = len(dir) > 0 ? len(bx::cross(unit(dir), unit(v3(u)))) : 0; if (!(s > (eps > 1e-10L ? 1e-3L : 1e-8L))) return;
  g.label(rh ? "RH" : "LH"); g.label(d.fam); g.nontrivial(len(v3(p)) > 0); g.note([&](auto& o) { o << xs.r << "x" << xs.c << (rh ? " RH" : " LH") << " eye " << fw::show(p) << " target " << fw::show(t) << " up " << fw::show(u); });
  VBox<V> pv(p); VBox<W> tv(t); VBox<U> uv(u); V3 z = unit(dir) * (rh ? -1 : 1), up = v3(u), y = unit(up - z * dot(up, z)); y = unit(y - z * dot(y, z)); V3 x = bx::cross(y, z); const long double tol = 14 * eps / s, L = std::max(1.0L, len(v3(p))) + len(dir);
  auto check = [&](const M& m, const char* what) {
    V3 ax[3] = {x, y, z}; auto r = rdm(m);
    for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) { int bi = row_b<M> ? i : j, bj = row_b<M> ? j : i; long double want, tl = 0; if (bj >= 3 || bi > 3) want = i == j; else if (bi == 3) want = -dot(v3(p), ax[bj]), tl = 2 * tol * L; else want = ax[bj][bi], tl = tol; REQUIRE(fw::near(r(i, j), want, tl), << what << ": element (" << i << "," << j << ") of " << show(r) << " want " << (double)want << " tol " << (double)tl); }
    // eye to the origin, target on the z axis at its distance, up in the upper half
    vector<double, fixed<3>> e(p[0], p[1], p[2]), q(t[0], t[1], t[2]), w(u[0], u[1], u[2]); V3 o = rd3(cml::transform_point(m, e)), f = rd3(cml::transform_point(m, q)), h = rd3(cml::transform_vector(m, w)); long double tp = 8 * tol * L;
    REQUIRE(len(o) <= tp, << what << ": eye at [" << o.x << " " << o.y << " " << o.z << "]"); REQUIRE(fw::near(f.x, 0, tp) && fw::near(f.y, 0, tp) && fw::near(f.z, (rh ? -1 : 1) * len(dir), tp), << what << ": target at [" << f.x << " " << f.y << " " << f.z << "]"); REQUIRE(fw::near(h.x, 0, 8 * tol * len(up)) && h.y > 0, << what << ": up at [" << h.x << " " << h.y << " " << h.z << "]"); };
  { MBox<M> m(xs); cml::matrix_look_at(m.m, pv.cr(), tv.cr(), uv.cr(), rh ? cml::right_handed : cml::left_handed); check(m.m, "matrix_look_at"); }
  { MBox<M> m(xs); if (rh) cml::matrix_look_at_RH(m.m, pv.cr(), tv.cr(), uv.cr()); else cml::matrix_look_at_LH(m.m, pv.cr(), tv.cr(), uv.cr()); check(m.m, rh ? "matrix_look_at_RH" : "matrix_look_at_LH"); if (rh) cml::matrix_look_at_RH(m.m, -(-pv.cr()), tv.cr() * B(1), -(-uv.cr())); else cml::matrix_look_at_LH(m.m, -(-pv.cr()), tv.cr() * B(1), -(-uv.cr())); check(m.m, "look at expressions"); }
  expect_vec(pv.cr(), p, "eye"); expect_vec(tv.cr(), t, "target"); expect_vec(uv.cr(), u, "up");
  if constexpr (mspec<M>::r < 0) { Mod<E> q = row_b<M> ? Mod<E>(3, 4) : Mod<E>(4, 3); if (g.coin()) q = row_b<M> ? Mod<E>(4, 2) : Mod<E>(2, 4); fill_exact(g, q); MBox<M> b(q); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::matrix_look_at(b.m, pv.cr(), tv.cr(), uv.cr(), cml::left_handed)); expect_mat(b.cr(), q, "after a size error"); }
}
inline void orders(Gen& g) {
  const AO& o = AXES[g.below(6)]; int i = -1, j = -1, k = -1; bool odd = !o.odd; g.nontrivial(true); g.note([&](auto& s) { s << o.n; });
  cml::unpack_axis_order(o.o, i, j, k, odd); REQUIRE(i == o.i && j == o.j && k == o.k && odd == o.odd, << "unpack_axis_order(" << o.n << "): " << i << j << k << " " << odd); REQUIRE(cml::pack_axis_order(o.i, o.odd) == o.o, << "pack_axis_order " << o.n);
  auto s = cml::swap_axis_order(o.o); int a, b, c; bool d; cml::unpack_axis_order(s, a, b, c, d); REQUIRE(a == o.j && b == o.i && c == o.k && d == !o.odd, << "swap_axis_order(" << o.n << "): " << a << b << c); REQUIRE(cml::swap_axis_order(s) == o.o);
  bool yx = g.coin(); i = j = -1; odd = !yx; cml::unpack_axis_order2D(yx ? cml::axis_order_yx : cml::axis_order_xy, i, j, odd); REQUIRE(i == yx && j == !yx && odd == yx, << "unpack_axis_order2D " << i << j << odd);
}
