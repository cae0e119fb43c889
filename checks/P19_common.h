#pragma once
#include "geom.h"
// P19: projections and frustum planes.
template <class... T> constexpr long double epsn() { long double e = 0; ((e = std::max(e, (long double)std::numeric_limits<T>::epsilon())), ...); return e; }
template <class M> auto be(const M& m, int i, int j) { return is_row_basis<M> ? m(i, j) : m(j, i); }
struct Vol { long double l, r, b, t, n, f; bool persp, rh, zero; };
// basis-element model: P(i, j) is component j of the image of basis vector i
inline LM proj_ref(const Vol& v) {
  LM p(4, 4); long double w = v.r - v.l, h = v.t - v.b, d = v.f - v.n, s = v.rh ? -1 : 1;   // s*z is the depth
  if (!v.persp) { p(0, 0) = 2 / w; p(3, 0) = -(v.l + v.r) / w; p(1, 1) = 2 / h; p(3, 1) = -(v.b + v.t) / h; p(2, 2) = s * (v.zero ? 1 : 2) / d; p(3, 2) = -(v.zero ? v.n : v.n + v.f) / d; p(3, 3) = 1; }
  else { p(0, 0) = 2 * v.n / w; p(2, 0) = -s * (v.l + v.r) / w; p(1, 1) = 2 * v.n / h; p(2, 1) = -s * (v.b + v.t) / h; p(2, 2) = s * (v.zero ? v.f : v.f + v.n) / d; p(3, 2) = -(v.zero ? 1 : 2) * v.f * v.n / d; p(2, 3) = s; }
  return p;
}
inline std::string show(const Vol& v) { std::ostringstream o; o.precision(9); o << (v.persp ? "perspective" : "orthographic") << (v.rh ? " RH" : " LH") << (v.zero ? " z[0,1]" : " z[-1,1]") << " l " << v.l << " r " << v.r << " b " << v.b << " t " << v.t << " n " << v.n << " f " << v.f; return o.str(); }
inline long double kx(const Vol& v) { return 1 + (std::fabs(v.l) + std::fabs(v.r)) / std::fabs(v.r - v.l); }
inline long double ky(const Vol& v) { return 1 + (std::fabs(v.b) + std::fabs(v.t)) / std::fabs(v.t - v.b); }
inline long double kz(const Vol& v) { return 1 + (std::fabs(v.n) + std::fabs(v.f)) / std::fabs(v.f - v.n); }
// elements: kx.. bound the cancellation in sums and differences of bounds
template <class M> void expect_proj(const M& m, const Vol& v, long double eps, const char* what) {
  LM p = proj_ref(v); auto r = rdm(m);
  for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) {
    int bi = is_row_basis<M> ? i : j, bj = is_row_basis<M> ? j : i; bool in = bi < 4 && bj < 4; long double want = in ? p(bi, bj) : (i == j), k = bj == 0 ? kx(v) : bj == 1 ? ky(v) : kz(v);
    long double tol = in && bj < 3 ? 8 * eps * k * std::max(std::fabs(want), bi == 3 || (v.persp && bi == 2 && bj < 2) ? k : 0) : 0;
    REQUIRE(fw::near(r(i, j), want, tol), << what << ": element (" << i << "," << j << ") of " << bx::show(r) << " want " << (double)want << " for " << show(v)); }
  // corners of the view volume -> corners of the clip cube
  for (int c = 0; c < 8; ++c) {
    long double z = c & 4 ? v.f : v.n, k = v.persp ? z / v.n : 1, q[4] = {(c & 1 ? v.r : v.l) * k, (c & 2 ? v.t : v.b) * k, v.rh ? -z : z, 1}, o[4] = {}, mag[4] = {};
    for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) { long double t = (is_row_basis<M> ? r(i, j) : r(j, i)) * q[i]; o[j] += t; mag[j] += std::fabs(t); }
    long double want[3] = {c & 1 ? 1.0L : -1, c & 2 ? 1.0L : -1, c & 4 ? 1.0L : v.zero ? 0 : -1}, kk[3] = {kx(v), ky(v), kz(v)};
    REQUIRE(o[3] > 0, << what << ": corner " << c << " has w " << (double)o[3]);
    for (int j = 0; j < 3; ++j) REQUIRE(fw::near(o[j] / o[3], want[j], 16 * eps * kk[j] * (1 + mag[j] / o[3])), << what << ": corner " << c << " maps to [" << (double)(o[0] / o[3]) << " " << (double)(o[1] / o[3]) << " " << (double)(o[2] / o[3]) << "] for " << show(v)); }
}
template <class E> E bound(Gen& g) { return g.below(3) == 0 ? fw::exact<E>(g) : fw::scaled<E>(g, 8); }
template <class A> Vol volume(Gen& g, bool persp) {
  Vol v; v.persp = persp; v.rh = g.coin(); v.zero = g.coin(); auto size = [&] { return (long double)(A)std::ldexp(1 + g.unit(), (int)g.range(-4, 6)); };
  v.l = bound<A>(g); v.r = (A)(v.l + size()); v.b = bound<A>(g); v.t = (A)(v.b + size()); v.n = persp ? (long double)(A)std::ldexp(1 + g.unit(), (int)g.range(-7, 4)) : (long double)bound<A>(g); v.f = (A)(v.n + (g.coin() ? size() : (A)std::ldexp(1 + g.unit(), (int)g.range(0, 12))));
  if (g.below(8) == 0) std::swap(v.l, v.r); if (g.below(8) == 0) std::swap(v.b, v.t);
  return v;
}
template <class M> Mod<melem_t<M>> pslot(Gen& g) { Mod<melem_t<M>> x; if constexpr (mspec<M>::r > 0) x = Mod<melem_t<M>>(mspec<M>::r, mspec<M>::c); else if (g.below(3)) x = Mod<melem_t<M>>(4, 4); else x = Mod<melem_t<M>>(4 + (int)g.below(3), 4 + (int)g.below(3)); for (auto& e : x.d) e = (melem_t<M>)g.sym(9); return x; }
template <class M, class A> void project(Gen& g) {
  using E = melem_t<M>; const long double eps = epsn<E, A>(); auto x = pslot<M>(g); MBox<M> m(x); Vol v = volume<A>(g, g.coin()); g.label(v.persp ? (v.rh ? "perspective RH" : "perspective LH") : (v.rh ? "orthographic RH" : "orthographic LH")); g.nontrivial(v.l + v.r != 0 && v.b + v.t != 0); g.note([&](auto& o) { o << x.r << "x" << x.c << " " << show(v); });
  A l = v.l, r = v.r, b = v.b, t = v.t, n = v.n, f = v.f; auto h = v.rh ? cml::right_handed : cml::left_handed; auto z = v.zero ? cml::z_clip_zero : cml::z_clip_neg_one;
  if (v.persp) {
    cml::matrix_perspective(m.m, l, r, b, t, n, f, h, z); expect_proj(m.m, v, eps, "matrix_perspective"); MBox<M> m2(x);
    if (v.rh) cml::matrix_perspective_RH(m2.m, l, r, b, t, n, f, z); else cml::matrix_perspective_LH(m2.m, l, r, b, t, n, f, z); expect_proj(m2.m, v, eps, v.rh ? "matrix_perspective_RH" : "matrix_perspective_LH");
    Vol s = v; A w = std::fabs((long double)r - l), ht = std::fabs((long double)t - b); s.l = -(long double)w / 2; s.r = -s.l; s.b = -(long double)ht / 2; s.t = -s.b;
    cml::matrix_perspective(m.m, w, ht, n, f, h, z); expect_proj(m.m, s, eps, "matrix_perspective(width, height)"); if (v.rh) cml::matrix_perspective_RH(m.m, w, ht, n, f, z); else cml::matrix_perspective_LH(m.m, w, ht, n, f, z); expect_proj(m.m, s, eps, "matrix_perspective_LH/RH(width, height)");
    A fov = (A)(.05L + g.unit() * 2.8L), asp = (A)std::ldexp(1 + g.unit(), (int)g.sym(2)); long double hw = v.n * std::tan((long double)fov / 2); g.note([&](auto& o) { o << " fov " << fov << " aspect " << asp; });
    long double e2 = eps * (2 + (long double)fov / std::fabs(std::sin((long double)fov)));   // conditioning of tan
    s.l = -hw; s.r = hw; s.t = hw / asp; s.b = -s.t; cml::matrix_perspective_xfov(m.m, fov, asp, n, f, h, z); expect_proj(m.m, s, e2, "matrix_perspective_xfov"); if (v.rh) cml::matrix_perspective_xfov_RH(m.m, fov, asp, n, f, z); else cml::matrix_perspective_xfov_LH(m.m, fov, asp, n, f, z); expect_proj(m.m, s, e2, "matrix_perspective_xfov_LH/RH");
    s.t = hw; s.b = -hw; s.r = hw * asp; s.l = -s.r; cml::matrix_perspective_yfov(m.m, fov, asp, n, f, h, z); expect_proj(m.m, s, e2, "matrix_perspective_yfov"); if (v.rh) cml::matrix_perspective_yfov_RH(m.m, fov, asp, n, f, z); else cml::matrix_perspective_yfov_LH(m.m, fov, asp, n, f, z); expect_proj(m.m, s, e2, "matrix_perspective_yfov_LH/RH");
  } else {
    cml::matrix_orthographic(m.m, l, r, b, t, n, f, h, z); expect_proj(m.m, v, eps, "matrix_orthographic"); MBox<M> m2(x);
    if (v.rh) cml::matrix_orthographic_RH(m2.m, l, r, b, t, n, f, z); else cml::matrix_orthographic_LH(m2.m, l, r, b, t, n, f, z); expect_proj(m2.m, v, eps, v.rh ? "matrix_orthographic_RH" : "matrix_orthographic_LH");
    Vol s = v; A w = std::fabs((long double)r - l), ht = std::fabs((long double)t - b); s.l = -(long double)w / 2; s.r = -s.l; s.b = -(long double)ht / 2; s.t = -s.b;
    cml::matrix_orthographic(m.m, w, ht, n, f, h, z); expect_proj(m.m, s, eps, "matrix_orthographic(width, height)"); if (v.rh) cml::matrix_orthographic_RH(m.m, w, ht, n, f, z); else cml::matrix_orthographic_LH(m.m, w, ht, n, f, z); expect_proj(m.m, s, eps, "matrix_orthographic_LH/RH(width, height)");
  }
  if constexpr (mspec<M>::r < 0) { Mod<E> y(g.coin() ? 3 : 5, 3); if (g.coin()) y = y.tr(); fill_exact(g, y); MBox<M> c(y); if (v.persp) REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::matrix_perspective(c.m, l, r, b, t, n, f, h, z)); else REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::matrix_orthographic(c.m, l, r, b, t, n, f, h, z)); expect_mat(c.cr(), y, "after a size error"); }
}
// planes of an arbitrary matrix: exact sums, normalised by the length of the normal
template <class M, class P> void planes(Gen& g) {
  using E = melem_t<M>; Mod<E> x; if constexpr (mspec<M>::r > 0) x = Mod<E>(mspec<M>::r, mspec<M>::c); else x = g.below(3) ? Mod<E>(4, 4) : Mod<E>(4 + (int)g.below(3), 4 + (int)g.below(3));
  fill_exact(g, x, 9); MBox<M> m(x); bool zero = g.coin(), nrm = g.coin(), both = x.r == x.c && g.coin(); auto z = zero ? cml::z_clip_zero : cml::z_clip_neg_one; g.nontrivial(varied(x.d)); g.label(nrm ? "normalised" : "raw"); g.note([&](auto& o) { o << show(x) << (zero ? " z[0,1]" : " z[-1,1]") << (nrm ? " normalize" : "") << (both ? " concatenated" : ""); });
  auto el = [&](int i, int j) { return (long double)(is_row_basis<M> ? x(i, j) : x(j, i)); }; long double w[6][4];
  for (int i = 0; i < 4; ++i) { for (int a = 0; a < 3; ++a) w[2 * a][i] = el(i, 3) + el(i, a), w[2 * a + 1][i] = el(i, 3) - el(i, a); if (zero) w[4][i] = el(i, 2); }
  for (int k = 0; k < 6; ++k) { long double l = std::sqrt(w[k][0] * w[k][0] + w[k][1] * w[k][1] + w[k][2] * w[k][2]); if (l == 0) return; if (nrm) for (auto& e : w[k]) e /= l; }
  P p[6][4]; for (auto& a : p) for (auto& e : a) e = 77;
  if constexpr (mspec<M>::r == mspec<M>::c) if (both) { MBox<M> one(x); one.m.identity(); cml::extract_frustum_planes(one.cr(), m.cr(), p, z, nrm); }
  if (!both) { if (nrm && g.coin()) cml::extract_frustum_planes(m.cr(), p, z); else cml::extract_frustum_planes(m.m * E(1), p, z, nrm); }
  static const char* nm[6] = {"left", "right", "bottom", "top", "near", "far"};
  for (int k = 0; k < 6; ++k) for (int i = 0; i < 4; ++i) REQUIRE(fw::near(p[k][i], w[k][i], nrm ? 4 * epsn<P>() * std::fabs(w[k][i]) : 0), << nm[k] << " plane [" << p[k][0] << " " << p[k][1] << " " << p[k][2] << " " << p[k][3] << "] want [" << (double)w[k][0] << " " << (double)w[k][1] << " " << (double)w[k][2] << " " << (double)w[k][3] << "]");
  double np[4] = {9, 9, 9, 9}; cml::extract_near_frustum_plane(m.cr(), np, z); vector<P, fixed<4>> nv(9, 9, 9, 9); cml::extract_near_frustum_plane(m.cr(), nv, z);
  for (int i = 0; i < 4; ++i) { long double q = zero ? el(i, 2) : el(i, 3) + el(i, 2); REQUIRE(np[i] == q && (long double)nv[i] == q, << "extract_near_frustum_plane element " << i << ": " << np[i] << " " << nv[i] << " want " << (double)q); }
  if constexpr (mspec<M>::r < 0) { Mod<E> y(g.coin() ? 3 : 5, 3); if (g.coin()) y = y.tr(); MBox<M> c(y); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::extract_frustum_planes(c.cr(), p, z, nrm)); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::extract_near_frustum_plane(c.cr(), np, z)); }
}
// planes of a placed camera: inside all six exactly when inside the view volume
template <class M, class P> void camera(Gen& g) {
  using E = melem_t<M>; const long double eps = epsn<E, P>(); Vol v = volume<E>(g, g.coin()); if (v.l > v.r) std::swap(v.l, v.r); if (v.b > v.t) std::swap(v.b, v.t); v.f = std::min(v.f, (long double)(E)(v.n + 40)); auto z = v.zero ? cml::z_clip_zero : cml::z_clip_neg_one; auto h = v.rh ? cml::right_handed : cml::left_handed;
  Mod<E> x(4, 4); MBox<M> view(x), proj(x); V3 n = unit3(g), tr = {(long double)fw::exact<E>(g), (long double)fw::exact<E>(g), (long double)fw::exact<E>(g)}; E ang = angle<E>(g); auto a = tov<E>(n); vector<E, fixed<3>> av(a[0], a[1], a[2]), tv((E)tr.x, (E)tr.y, (E)tr.z);
  cml::matrix_affine_transform(view.m, av, ang, tv); if (v.persp) cml::matrix_perspective(proj.m, (E)v.l, (E)v.r, (E)v.b, (E)v.t, (E)v.n, (E)v.f, h, z); else cml::matrix_orthographic(proj.m, (E)v.l, (E)v.r, (E)v.b, (E)v.t, (E)v.n, (E)v.f, h, z);
  P p[6][4]; if (g.coin()) cml::extract_frustum_planes(view.cr(), proj.cr(), p, z); else { auto mvp = cml::matrix_concat(view.cr(), proj.cr()); cml::extract_frustum_planes(mvp, p, z, true); }
  g.label(v.persp ? "perspective" : "orthographic"); g.nontrivial(true); g.note([&](auto& o) { o << show(v) << " view axis " << fw::show(a) << " angle " << ang << " translation " << (double)tr.x << " " << (double)tr.y << " " << (double)tr.z; });
  for (int k = 0; k < 6; ++k) { long double l = std::sqrt((long double)p[k][0] * p[k][0] + (long double)p[k][1] * p[k][1] + (long double)p[k][2] * p[k][2]); REQUIRE(fw::near(l, 1, 8 * eps), << "plane " << k << " normal length " << (double)l); }
  LM rt = rodrigues(v3(a), ang).tr();
  for (int it = 0; it < 6; ++it) {
    long double par[3]; int out = -1; for (auto& e : par) e = .05L + .9L * g.unit(); if (g.coin()) { out = (int)g.below(6); par[out / 2] = out % 2 ? 1.05L + g.unit() : -.05L - g.unit(); }
    long double d = v.n + par[2] * (v.f - v.n); if (v.persp && d <= v.n * .02L) continue; long double k = v.persp ? d / v.n : 1; V3 q{(v.l + par[0] * (v.r - v.l)) * k - tr.x, (v.b + par[1] * (v.t - v.b)) * k - tr.y, (v.rh ? -d : d) - tr.z}, wp;
    wp = {rt(0, 0) * q.x + rt(0, 1) * q.y + rt(0, 2) * q.z, rt(1, 0) * q.x + rt(1, 1) * q.y + rt(1, 2) * q.z, rt(2, 0) * q.x + rt(2, 1) * q.y + rt(2, 2) * q.z};
    // signed distances to the six planes of the volume, in view space (= world space: the view is rigid)
    static const int order[6] = {0, 1, 2, 3, 4, 5};
    for (int s : order) { long double dist; V3 c{q.x + tr.x, q.y + tr.y, d}; long double nx = v.persp ? v.n : 1, lo = s / 2 == 0 ? v.l : v.b, hi = s / 2 == 0 ? v.r : v.t, comp = s / 2 == 0 ? c.x : c.y;
      if (s == 4) dist = d - v.n; else if (s == 5) dist = v.f - d; else { long double e = s % 2 ? hi : lo, sg = s % 2 ? -1 : 1; dist = v.persp ? sg * (comp * nx - e * d) / std::sqrt(nx * nx + e * e) : sg * (comp - e); }
      long double got = p[s][0] * wp.x + p[s][1] * wp.y + p[s][2] * wp.z + p[s][3]; long double mag = 1 + len(wp) + len(tr) + len(q) + std::fabs(d);
      long double cond = s < 2 ? kx(v) * (v.persp ? 1 + (v.r - v.l) / v.n : 1) : s < 4 ? ky(v) * (v.persp ? 1 + (v.t - v.b) / v.n : 1) : kz(v) * (v.persp ? 1 + v.f / v.n : 1); if (cond * eps > 1e-4L) continue;
      REQUIRE(fw::near(got, dist, 60 * eps * cond * mag), << "distance of view-space point [" << (double)c.x << " " << (double)c.y << " depth " << (double)d << "] to plane " << s << " is " << (double)got << " want " << (double)dist << " for " << show(v)); }
  }
}
