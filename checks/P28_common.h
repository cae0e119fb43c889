#pragma once
// P28: generated programs.  Operands, the reference evaluation and the checks of one sub-expression.
#include "boxes.h"
#include "linalg.h"
#include "quat.h"
#include <cml/matrix/lu.h>
#include <utility>
#include <iostream>
namespace p28 {
using LV = std::vector<long double>;
template <class E> LV lv(const std::vector<E>& x) { return LV(x.begin(), x.end()); }

// ---- reference -----------------------------------------------------------
inline LV neg(LV a) { for (auto& e : a) e = -e; return a; }
inline LM neg(LM a) { for (auto& e : a.d) e = -e; return a; }
inline H neg(H a) { return -a; }
inline LV lin(LV a, int s, const LV& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += s * b[i]; return a; }
inline LM lin(LM a, int s, const LM& b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] += s * b.d[i]; return a; }
inline H lin(H a, int s, H b) { return a + b * s; }
inline LV had(LV a, const LV& b) { for (size_t i = 0; i < a.size(); ++i) a[i] *= b[i]; return a; }
inline LM had(LM a, const LM& b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] *= b.d[i]; return a; }
inline long double q1(long double a, long double s, bool t) { return t ? std::trunc(a / s) : a / s; }
inline LV quo(LV a, long double s, bool t) { for (auto& e : a) e = q1(e, s, t); return a; }
inline LM quo(LM a, long double s, bool t) { for (auto& e : a.d) e = q1(e, s, t); return a; }
inline H quo(H a, long double s, bool t) { return {q1(a.w, s, t), q1(a.x, s, t), q1(a.y, s, t), q1(a.z, s, t)}; }
inline LV scale(LV a, long double s) { for (auto& e : a) e *= s; return a; }
inline LM scale(LM a, long double s) { for (auto& e : a.d) e *= s; return a; }
inline H scale(H a, long double s) { return a * s; }
inline LV without(LV a, int i) { a.erase(a.begin() + i); return a; }
inline LV rcross(const LV& a, const LV& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline LV imag(H h) { return {h.x, h.y, h.z}; }
inline LV rowof(const LM& m, int i) { LV r(m.c); for (int j = 0; j < m.c; ++j) r[j] = m(i, j); return r; }
inline LV colof(const LM& m, int j) { LV r(m.r); for (int i = 0; i < m.r; ++i) r[i] = m(i, j); return r; }
inline LV mv(const LM& m, const LV& v) { LV r(m.r); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) r[i] += m(i, j) * v[j]; return r; }
inline LM outer(const LV& a, const LV& b) { LM r((int)a.size(), (int)b.size()); for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) r(i, j) = a[i] * b[j]; return r; }
inline long double rdot(const LV& a, const LV& b) { long double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline long double rperp_dot(const LV& a, const LV& b) { return a[0] * b[1] - a[1] * b[0]; }
inline long double rtrace(const LM& m) { long double s = 0; for (int i = 0; i < m.r; ++i) s += m(i, i); return s; }
inline long double rdet(const LM& m) {
  if (m.r == 2) return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
  return rdot(rowof(m, 0), rcross(rowof(m, 1), rowof(m, 2)));
}
template <class E> long double to(long double x) { return std::is_integral_v<E> ? std::trunc(x) : (long double)(E)x; }
// dest op= source, in the common type, then stored
template <class E> long double put(int op, long double d, long double s) { return to<E>(op == 0 ? s : op == 1 ? d + s : d - s); }

// ---- operands ------------------------------------------------------------
// a value of magnitude <= mag with fr fractional bits
template <class E> E part(Gen& g, int mag, int fr) { return (E)((long double)g.sym(mag << fr) / (1 << fr)); }
template <class V> struct VLeaf {
  using E = elem_t<V>;
  std::vector<E> x; VBox<V> b; V& v; LV m; const char* name;
  VLeaf(Gen& g, int n, int mag, int fr, const char* nm) : x(exactly(g, n, mag, fr)), b(x), v(b.v), m(lv(x)), name(nm) {
    g.note([&](auto& o) { o << nm << "=" << vname<V>() << fw::show(x); });
    g.nontrivial(varied(x));
  }
  static std::vector<E> exactly(Gen& g, int n, int mag, int fr) { std::vector<E> r(n); for (auto& e : r) e = part<E>(g, mag, fr); return r; }
  const V& cr() const { return v; }
  V tmp() const { return V(v); }
  void intact() const { expect_vec(b.cr(), x, name); }
};
template <class M> struct MLeaf {
  using E = melem_t<M>;
  Mod<E> x; MBox<M> b; M& v; LM m; const char* name;
  MLeaf(Gen& g, int r, int c, int mag, int fr, const char* nm) : x(exactly(g, r, c, mag, fr)), b(x), v(b.m), m(x.template as<long double>()), name(nm) {
    g.note([&](auto& o) { o << nm << "=" << mname<M>() << " " << bx::show(x); });
    g.nontrivial(varied(x.d));
  }
  static Mod<E> exactly(Gen& g, int r, int c, int mag, int fr) { Mod<E> m(r, c); for (auto& e : m.d) e = part<E>(g, mag, fr); return m; }
  const M& cr() const { return v; }
  M tmp() const { return M(v); }
  void intact() const { expect_mat(b.cr(), x, name); }
};
template <class Q> struct QLeaf {
  H m; Q v; const char* name;
  QLeaf(Gen& g, int mag, int fr, const char* nm) : m(exactly(g, mag, fr)), v(mkq<Q>(m)), name(nm) {
    g.note([&](auto& o) { o << nm << "=" << fw::ename<qelem_t<Q>>() << " quaternion" << bx::show(m); });
    g.nontrivial(variedq(m));
  }
  static H exactly(Gen& g, int k, int fr) { using E = qelem_t<Q>; H h; h.w = part<E>(g, k, fr); h.x = part<E>(g, k, fr); h.y = part<E>(g, k, fr); h.z = part<E>(g, k, fr); return h; }
  const Q& cr() const { return v; }
  Q tmp() const { return Q(v); }
  void intact() const { expect_q(v, m, name); }
};
template <class E> struct SLeaf {
  E v; long double m;
  SLeaf(Gen& g, int mag, int fr, const char* nm) : v(part<E>(g, mag, fr)), m(v) { g.note([&](auto& o) { o << nm << "=" << fw::ename<E>() << " " << +v; }); }
};
template <class E> struct PLeaf {       // a divisor: a power of two
  E v; long double m;
  PLeaf(Gen& g, const char* nm) : v((E)(g.coin() ? -1 : 1) * (E)(1 << g.below(3))), m(v) { g.note([&](auto& o) { o << nm << "=" << fw::ename<E>() << " " << +v; }); }
};

// ---- checks --------------------------------------------------------------
// copies of an expression and what they were moved to stand for the same value
template <class S, class F> void copies(const S& e, F same) {
  const S c(e); same(c, "copied");
  S d(c); const S f(std::move(d)); same(f, "copied, moved");
  same(e, "after being copied");
}
template <class T, int N, class X> void ckv(X&& e, const LV& w, const char* txt) {
  using S = std::remove_cv_t<std::remove_reference_t<X>>;
  REQUIRE((std::is_same_v<std::decay_t<decltype(e[0])>, T>), << txt << ": element type " << fw::ename<std::decay_t<decltype(e[0])>>() << " want " << fw::ename<T>());
  REQUIRE((std::is_same_v<typename S::value_type, T>), << txt << ": value_type");
  REQUIRE((int)S::array_size == N, << txt << ": array_size " << (int)S::array_size << " want " << N);
  expect_vec(e, w, txt);
  using Tmp = cml::temporary_of_t<S>;
  REQUIRE((std::is_same_v<typename Tmp::value_type, T>), << txt << ": element type of the temporary");
  REQUIRE((int)Tmp::array_size == N, << txt << ": size of the temporary");
  Tmp t(e);
  expect_vec(t, w, txt);
  if (!w.empty()) { auto keep = t[0]; t[0] = T(77); expect_vec(e, w, "temporary independent of its source"); t[0] = keep; }
  REQUIRE(e == t && t == e && !(e != t), << txt << ": equal to its temporary");
  copies<S>(e, [&](const S& x, const char* w2) { expect_vec(x, w, w2); });
}
template <class T, int R, int C, class B, class L, class X> void ckm(X&& e, const LM& w, const char* txt) {
  using S = std::remove_cv_t<std::remove_reference_t<X>>;
  REQUIRE((std::is_same_v<std::decay_t<decltype(e(0, 0))>, T>), << txt << ": element type " << fw::ename<std::decay_t<decltype(e(0, 0))>>() << " want " << fw::ename<T>());
  REQUIRE((std::is_same_v<typename S::value_type, T>), << txt << ": value_type");
  REQUIRE((int)S::array_rows == R && (int)S::array_cols == C, << txt << ": array size " << (int)S::array_rows << "x" << (int)S::array_cols << " want " << R << "x" << C);
  REQUIRE((std::is_same_v<cml::basis_tag_of_t<cml::matrix_traits<S>>, B>), << txt << ": basis");
  REQUIRE((std::is_same_v<cml::layout_tag_of_t<cml::matrix_traits<S>>, L>), << txt << ": layout");
  expect_mat(e, w, txt);
  using RT = cml::row_type_of_t<S>; using CT = cml::col_type_of_t<S>;
  REQUIRE((std::is_same_v<typename RT::value_type, T> && std::is_same_v<typename CT::value_type, T>), << txt << ": element type of a row or column");
  REQUIRE((int)RT::array_size == C && (int)CT::array_size == R, << txt << ": size of a row " << (int)RT::array_size << ", of a column " << (int)CT::array_size << ", the matrix is " << R << "x" << C);
  copies<S>(e, [&](const S& x, const char* w2) { expect_mat(x, w, w2); });
  if constexpr (!std::is_same_v<B, cml::any_basis> && !std::is_same_v<L, cml::any_major>) {
    using Tmp = cml::temporary_of_t<S>;
    REQUIRE((std::is_same_v<typename Tmp::value_type, T>), << txt << ": element type of the temporary");
    REQUIRE((int)Tmp::array_rows == R && (int)Tmp::array_cols == C, << txt << ": size of the temporary");
    REQUIRE((std::is_same_v<typename Tmp::basis_tag, B> && std::is_same_v<typename Tmp::layout_tag, L>), << txt << ": basis and layout of the temporary");
    Tmp t(e);
    expect_mat(t, w, txt);
    if (!w.d.empty()) { auto keep = t(0, 0); t(0, 0) = T(77); expect_mat(e, w, "temporary independent of its source"); t(0, 0) = keep; }
    REQUIRE(e == t && t == e && !(e != t), << txt << ": equal to its temporary");
  }
}
template <class T, class O, class C, class X> void ckq(X&& e, H w, const char* txt) {
  using S = std::remove_cv_t<std::remove_reference_t<X>>;
  REQUIRE((std::is_same_v<std::decay_t<decltype(e[0])>, T>), << txt << ": element type " << fw::ename<std::decay_t<decltype(e[0])>>() << " want " << fw::ename<T>());
  using Tmp = cml::temporary_of_t<S>;
  REQUIRE((std::is_same_v<typename Tmp::value_type, T>), << txt << ": element type of the temporary");
  REQUIRE((std::is_same_v<typename Tmp::order_type, O> && std::is_same_v<typename Tmp::cross_type, C>), << txt << ": order and product of the temporary");
  H r = {(long double)e[Tmp::W], (long double)e[Tmp::X], (long double)e[Tmp::Y], (long double)e[Tmp::Z]};
  REQUIRE(r.w == w.w && r.x == w.x && r.y == w.y && r.z == w.z, << txt << ": " << bx::show(r) << " want " << bx::show(w));
  Tmp t(e);
  expect_q(t, w, txt);
  REQUIRE(e == t && t == e && !(e != t), << txt << ": equal to its temporary");
  copies<S>(e, [&](const S& x, const char* w2) { Tmp u(x); expect_q(u, w, w2); });
}
template <class T, class X> void cks(X&& x, long double w, const char* txt) {
  REQUIRE((std::is_same_v<std::decay_t<X>, T>), << txt << ": type " << fw::ename<std::decay_t<X>>() << " want " << fw::ename<T>());
  REQUIRE(x == w, << txt << " = " << +x << " want " << w);
}

// ---- destinations --------------------------------------------------------
template <class V, class X> void storev(Gen& g, X&& e, const LV& w, const char* txt) {
  using E = elem_t<V>;
  int op = (int)g.below(3), n = (int)w.size();
  int n0 = n;
  if (vspec<V>::kind == 'D' && op == 0 && g.coin()) n0 = (int)g.range(0, 6);
  std::vector<E> x(n0); for (auto& d : x) d = (E)g.sym(9);
  VBox<V> d(x);
  LV r(n); for (int i = 0; i < n; ++i) r[i] = put<E>(op, i < n0 ? x[i] : 0, w[i]);
  g.note([&](auto& o) { o << "destination " << vname<V>() << fw::show(x) << (op == 0 ? " =" : op == 1 ? " +=" : " -="); });
  if (op == 0) d.v = e; else if (op == 1) d.v += e; else d.v -= e;
  expect_vec(d.cr(), r, txt);
  if constexpr (vspec<V>::kind == 'F' || vspec<V>::kind == 'D') {
    V c(e); LV z; for (auto y : w) z.push_back(to<E>(y));
    expect_vec(c, z, txt);
  }
}
template <class M, class X> void storem(Gen& g, X&& e, const LM& w, const char* txt) {
  using E = melem_t<M>;
  int op = (int)g.below(3), r0 = w.r, c0 = w.c;
  if (mspec<M>::kind == 'D' && op == 0 && g.coin()) { r0 = (int)g.range(1, 5); c0 = (int)g.range(1, 5); }
  Mod<E> x(r0, c0); for (auto& d : x.d) d = (E)g.sym(9);
  MBox<M> d(x);
  LM r(w.r, w.c); for (size_t i = 0; i < w.d.size(); ++i) r.d[i] = put<E>(op, op ? x.d[i] : 0, w.d[i]);
  g.note([&](auto& o) { o << "destination " << mname<M>() << bx::show(x) << (op == 0 ? " =" : op == 1 ? " +=" : " -="); });
  if (op == 0) d.m = e; else if (op == 1) d.m += e; else d.m -= e;
  expect_mat(d.cr(), r, txt);
  if constexpr (mspec<M>::kind == 'F' || mspec<M>::kind == 'D') {
    M c(e); LM z(w.r, w.c); for (size_t i = 0; i < w.d.size(); ++i) z.d[i] = to<E>(w.d[i]);
    expect_mat(c, z, txt);
    if constexpr (mspec<M>::r == mspec<M>::c) { c.transpose(); expect_mat(c, z.tr(), "transposed in place"); }
  }
}
template <class Q, class X> void storeq(Gen& g, X&& e, H w, const char* txt) {
  using E = qelem_t<Q>;
  int op = (int)g.below(3);
  H x = QLeaf<Q>::exactly(g, 9, 0);
  Q d = mkq<Q>(x);
  H r = {put<E>(op, x.w, w.w), put<E>(op, x.x, w.x), put<E>(op, x.y, w.y), put<E>(op, x.z, w.z)};
  g.note([&](auto& o) { o << "destination " << bx::show(x) << (op == 0 ? " =" : op == 1 ? " +=" : " -="); });
  if (op == 0) d = e; else if (op == 1) d += e; else d -= e;
  expect_q(d, r, txt);
  Q c(e);
  expect_q(c, {to<E>(w.w), to<E>(w.x), to<E>(w.y), to<E>(w.z)}, txt);
}

// ---- functions: f(expression) is f(value) --------------------------------
using LF = std::vector<long double>;
inline void fl1(LF& o, long double x) { o.push_back(x); }
template <class X> void flat(LF& o, const X& x) {
  if constexpr (std::is_arithmetic_v<X>) o.push_back(x);
  else if constexpr (cml::is_matrix<X>::value) { o.push_back(x.rows()); o.push_back(x.cols()); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) o.push_back(x(i, j)); }
  else if constexpr (cml::is_quaternion<X>::value) { for (int i = 0; i < 4; ++i) o.push_back(x[i]); }
  else if constexpr (cml::is_vector<X>::value) { o.push_back(x.size()); for (int i = 0; i < x.size(); ++i) o.push_back(x[i]); }
  else std::apply([&](const auto&... y) { (flat(o, y), ...); }, x);
}
template <class... X> LF fl(const X&... x) { LF o; (flat(o, x), ...); return o; }
inline LF fls(const std::string& s) { return LF(s.begin(), s.end()); }
template <class T> using v3 = cml::vector<T, fixed<3>>;
template <class T> using v2 = cml::vector<T, fixed<2>>;
template <class T> using m33 = cml::matrix<T, fixed<3, 3>, cml::row_basis, cml::row_major>;
template <class T> using m44 = cml::matrix<T, fixed<4, 4>, cml::col_basis, cml::col_major>;
template <class X> using vt = typename X::value_type;
#define FUN(NAME, ...) struct NAME { template <class X> LF operator()(const X& e) const { using T = vt<X>; (void)sizeof(T); __VA_ARGS__ } };
FUN(f_length, return fl(e.length(), cml::length(e)); )
FUN(f_normalize, return fl(cml::normalize(e), e.normalize()); )
FUN(f_print, std::ostringstream o; o << e; return fls(o.str()); )
FUN(f_manhattan, auto w = cml::temporary_of_t<X>(e); w *= 3; return fl(cml::manhattan_distance(e, w), cml::manhattan_distance(w, e)); )
FUN(f_project, auto w = cml::temporary_of_t<X>(e); for (int i = 0; i < w.size(); ++i) w[i] = T(i + 1); return fl(cml::project_to_vector(e, w), cml::project_to_vector(w, e), cml::project_to_hplane(e, w)); )
FUN(f_angle, v3<T> w(T(1), T(2), T(-2)), r(T(0), T(1), T(1)); return fl(cml::unsigned_angle(e, w), cml::signed_angle(e, w, r), cml::signed_angle(w, e, r), cml::signed_angle(w, r, e)); )
FUN(f_angle2, v2<T> w(T(1), T(2)); return fl(cml::unsigned_angle_2D(e, w), cml::unsigned_angle_2D(w, e)); )
FUN(f_rotate, v3<T> n(T(.6), T(0), T(.8)); return fl(cml::rotate_vector(e, n, T(.7)), cml::rotate_vector(n, e, T(.7))); )
FUN(f_axis_angle, m33<T> m; m.zero(); cml::matrix_rotation_axis_angle(m, e, T(.5)); cml::quaternion<T> q; cml::quaternion_rotation_axis_angle(q, e, T(.5)); return fl(m, q); )
FUN(f_euler, m33<T> m; m.zero(); cml::matrix_rotation_euler(m, e, cml::euler_order_zxy); cml::quaternion<T> q; cml::quaternion_rotation_euler(q, e, cml::euler_order_yzy); m33<T> d; d.zero(); cml::matrix_rotation_euler_derivatives(d, 1, e, cml::euler_order_xyz); return fl(m, q, d); )
FUN(f_translation, m44<T> m; m.identity(); cml::matrix_translation(m, e); m44<T> k; k.fill(T(2)); cml::matrix_set_translation(k, e); return fl(m, k); )
FUN(f_translation2, m33<T> m; m.identity(); cml::matrix_translation_2D(m, e); m44<T> k; k.identity(); cml::matrix_translation(k, e); return fl(m, k); )
FUN(f_look_at, v3<T> p(T(1), T(2), T(3)), t(T(-4), T(20), T(7)), u(T(0), T(1), T(.25)); m44<T> a, b, c; cml::matrix_look_at_LH(a, e, t, u); cml::matrix_look_at_RH(b, p, e, u); cml::matrix_look_at_RH(c, p, t, e); return fl(a, b, c); )
FUN(f_align, v3<T> r(T(1), T(2), T(3)); m33<T> a, b; cml::matrix_rotation_align(a, e, r); cml::matrix_rotation_aim_at(b, r, e, r); cml::quaternion<T> q; cml::quaternion_rotation_align(q, r, e); v3<T> x, y, z; cml::orthonormal_basis(e, r, x, y, z); return fl(a, b, q, x, y, z); )
FUN(f_align2, m33<T> a; a.identity(); cml::matrix_rotation_align_2D(a, e); v2<T> x, y; cml::orthonormal_basis_2D(e, x, y); return fl(a, x, y, cml::perp(e)); )
FUN(f_spherical, T r, t, p, h, a, k; cml::cartesian_to_spherical(e, 2, cml::colatitude, r, t, p); cml::cartesian_to_cylindrical(e, 1, a, k, h); return fl(r, t, p, a, k, h); )
FUN(f_polar, T r, t; cml::cartesian_to_polar(e, r, t); return fl(r, t); )
FUN(f_transform, m44<T> m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m(i, j) = T((i * 7 + j * 3) % 5 - 2); return fl(cml::transform_point(m, e), cml::transform_vector(m, e)); )
FUN(f_extreme, return fl(cml::index_of_max(e[0], e[1], e[2]), cml::index_of_min_abs(e[0], e[1], e[2])); )
FUN(m_inverse, return fl(cml::inverse(e)); )
FUN(m_lu, auto p = cml::lu_pivot(e); LF o = fl(cml::lu(e), p.lu, p.sign); for (int k : p.order) o.push_back(k); return o; )
FUN(m_det, return fl(cml::determinant(e), e.determinant(), e.trace()); )
FUN(m_solve, cml::vector<T, dynamic<>> b(e.rows()); for (int i = 0; i < b.size(); ++i) b[i] = T(i * i - 3); return fl(cml::lu_solve(cml::lu_pivot(e), b)); )
FUN(m_lusolve, cml::vector<T, dynamic<>> b(e.rows()); for (int i = 0; i < b.size(); ++i) b[i] = T(i * i - 3); return fl(cml::lu_solve(e, b)); )
FUN(m_rot, cml::quaternion<T> q; cml::quaternion_rotation_matrix(q, e); v3<T> ax; T an = 0; cml::matrix_to_axis_angle(e, ax, an); return fl(q, ax, an); )
FUN(m_euler, return fl(cml::matrix_to_euler(e, cml::euler_order_xyz), cml::matrix_to_euler(e, cml::euler_order_zxz)); )
FUN(m_transform, v3<T> p(T(1), T(-2), T(3)); return fl(cml::transform_point(e, p), cml::transform_vector(e, p), cml::matrix_get_translation(e)); )
FUN(m_transform2, v2<T> p(T(1), T(-2)); return fl(cml::transform_point_2D(e, p), cml::transform_vector_2D(e, p), cml::matrix_get_translation_2D(e)); )
FUN(m_vector3, v3<T> p(T(1), T(-2), T(3)); m44<T> l; cml::matrix_linear_transform(l, e); m44<T> a; cml::matrix_affine_transform(a, e, p); return fl(cml::transform_vector(e, p), l, a); )
FUN(q_scalars, return fl(e.length(), cml::length(e), cml::norm(e), e.real(), cml::length_squared(e)); )
FUN(q_normalize, return fl(cml::normalize(e), e.normalize()); )
FUN(q_log, return fl(cml::log(e), cml::exp(e)); )
FUN(q_inverse, auto i = cml::inverse(e); return fl(i[0], i[1], i[2], i[3], e.inverse()); )
FUN(q_matrix, m33<T> m; m.zero(); cml::matrix_rotation_quaternion(m, e); return fl(m); )
FUN(q_axis, v3<T> ax; T an = 0; cml::quaternion_to_axis_angle(e, ax, an); return fl(ax, an, cml::quaternion_to_euler(e, cml::euler_order_xyz)); )

template <class F, class X> LF outcome(const X& e) {
  try { return F()(e); }
  catch (const std::exception& x) { LF r = fls(typeid(x).name()); r.push_back(-1e30L); return r; }
}
inline void same_result(const LF& a, const LF& b, const char* f, const char* txt) {
  REQUIRE(a.size() == b.size(), << f << "(" << txt << "): " << a.size() << " results, of its value " << b.size());
  long double m = 1; for (auto x : b) if (std::isfinite(x)) m = std::max(m, std::fabs(x));
  for (size_t i = 0; i < a.size(); ++i)
    REQUIRE((std::isnan(a[i]) && std::isnan(b[i])) || a[i] == b[i] || std::fabs(a[i] - b[i]) <= 1e-4L * m, << f << "(" << txt << ") = " << fw::show(a) << ", of its value " << fw::show(b));
}
// invertible well enough that every order of operations gives the same answer
inline bool regular(const LM& m) {
  if (m.r != m.c || m.r > 6) return false;
  LM a = m; long double d = 1, s = 1;
  for (auto x : m.d) s = std::max(s, std::fabs(x));
  for (int k = 0; k < a.r; ++k) {
    int p = k; for (int i = k; i < a.r; ++i) if (std::fabs(a(i, k)) > std::fabs(a(p, k))) p = i;
    if (std::fabs(a(p, k)) < 1e-2L * s) return false;
    for (int j = 0; j < a.r; ++j) std::swap(a(k, j), a(p, j));
    for (int i = k + 1; i < a.r; ++i) { long double f = a(i, k) / a(k, k); for (int j = k; j < a.r; ++j) a(i, j) -= f * a(k, j); }
    d *= a(k, k);
  }
  return std::fabs(d) > 0.2L;
}
template <class F> constexpr bool F_needs_regular() { return std::is_same_v<F, m_inverse> || std::is_same_v<F, m_solve> || std::is_same_v<F, m_lu>; }
template <class F, class X> void usev(X&& e, const LV& w, const char* f, const char* txt) {
  using T = typename std::decay_t<X>::value_type;
  cml::vector<T, dynamic<>> v((int)w.size()); for (int i = 0; i < v.size(); ++i) v[i] = e[i];    // signs of zeros included
  same_result(outcome<F>(e), outcome<F>(v), f, txt);
}
template <class F, int R, int C, class X> void usem(X&& e, const LM& w, const char* f, const char* txt) {
  using S = std::decay_t<X>; using T = typename S::value_type; using Tr = cml::matrix_traits<S>;
  if (F_needs_regular<F>() && !regular(w)) return;
  cml::matrix<T, std::conditional_t<(R > 0), fixed<R, C>, dynamic<>>, cml::basis_tag_of_t<Tr>, cml::layout_tag_of_t<Tr>> m;
  if constexpr (R < 0) m.resize(w.r, w.c);
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) m(i, j) = e(i, j);
  same_result(outcome<F>(e), outcome<F>(m), f, txt);
}
template <class F, class X> void useq(X&& e, H w, const char* f, const char* txt) {
  using Q = cml::temporary_of_t<std::decay_t<X>>;
  Q q = mkq<Q>(w); for (int i = 0; i < 4; ++i) q[i] = e[i];
  same_result(outcome<F>(e), outcome<F>(q), f, txt);
}
}  // namespace p28
using namespace p28;
