// Reference geometry in long double: rotations, homogeneous matrices.
#pragma once
#include "quat.h"
namespace bx {
constexpr long double PI = 3.14159265358979323846264338327950288L;
struct V3 { long double x = 0, y = 0, z = 0; long double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, long double s) { return {a.x * s, a.y * s, a.z * s}; }
inline long double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline long double len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a * (1 / len(a)); }
template <class E> V3 v3(const std::vector<E>& v) { return {(long double)v[0], (long double)v[1], (long double)v[2]}; }
template <class X> V3 rd3(const X& v) { return {(long double)v[0], (long double)v[1], (long double)v[2]}; }
template <class E> std::vector<E> tov(V3 v) { return {(E)v.x, (E)v.y, (E)v.z}; }
inline std::vector<long double> lv(V3 v) { return {v.x, v.y, v.z}; }
template <class E> std::vector<long double> lv(const std::vector<E>& v) { return std::vector<long double>(v.begin(), v.end()); }
// Linear maps act on columns: R(component, axis).
inline LM rodrigues(V3 n, long double t) {
  long double c = std::cos(t), s = std::sin(t); LM r(3, 3); V3 k[3] = {{0, n.z, -n.y}, {-n.z, 0, n.x}, {n.y, -n.x, 0}};   // k[axis] = n x e_axis
  for (int a = 0; a < 3; ++a) for (int i = 0; i < 3; ++i) r(i, a) = (i == a ? c : 0) + s * k[a][i] + (1 - c) * n[i] * n[a];
  return r;
}
inline LM world_rot(int axis, long double t) { return rodrigues({axis == 0 ? 1.0L : 0, axis == 1 ? 1.0L : 0, axis == 2 ? 1.0L : 0}, t); }
inline LM rot2(long double t) { LM r(2, 2); r(0, 0) = r(1, 1) = std::cos(t); r(1, 0) = std::sin(t); r(0, 1) = -r(1, 0); return r; }
// the action v -> q v q* of a (near) unit quaternion, as the usual polynomial
inline LM quat_rot(H q) {
  LM r(3, 3); auto x = q.x, y = q.y, z = q.z, w = q.w;
  r(0, 0) = 1 - 2 * (y * y + z * z); r(1, 1) = 1 - 2 * (x * x + z * z); r(2, 2) = 1 - 2 * (x * x + y * y);
  r(1, 0) = 2 * (x * y + w * z); r(0, 1) = 2 * (x * y - w * z); r(2, 0) = 2 * (x * z - w * y); r(0, 2) = 2 * (x * z + w * y); r(2, 1) = 2 * (y * z + w * x); r(1, 2) = 2 * (y * z - w * x);
  return r;
}
inline H quat_of(V3 n, long double t) { long double s = std::sin(t / 2); return {std::cos(t / 2), s * n.x, s * n.y, s * n.z}; }
// A d-dimensional transform kept in the upper-left d x d block (plus translation).
template <class M> LM lin(const M& m, int d) { LM r(d, d); for (int i = 0; i < d; ++i) for (int a = 0; a < d; ++a) r(i, a) = is_row_basis<M> ? (long double)m(a, i) : (long double)m(i, a); return r; }
// element addressed as "component i of basis vector a"
template <class M> Mod<melem_t<M>> put_lin(Mod<melem_t<M>> m, const LM& r) { for (int i = 0; i < r.r; ++i) for (int a = 0; a < r.c; ++a) (is_row_basis<M> ? m(a, i) : m(i, a)) = (melem_t<M>)r(i, a); return m; }
template <class M> LM lin_of(const Mod<melem_t<M>>& m, int d) { LM r(d, d); for (int i = 0; i < d; ++i) for (int a = 0; a < d; ++a) r(i, a) = (long double)(is_row_basis<M> ? m(a, i) : m(i, a)); return r; }
// m holds r in its upper-left block and is the identity elsewhere
template <class M> void expect_lin(const M& m, const LM& r, long double tol, const char* what) {
  int d = r.r;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) {
    bool in = i < d && j < d; long double w = in ? (is_row_basis<M> ? r(j, i) : r(i, j)) : (i == j ? 1 : 0);
    REQUIRE(fw::near(m(i, j), w, in ? tol : 0), << what << ": element (" << i << "," << j << ") of " << show(rdm(m)) << " want " << (double)w << " (linear map " << show(r) << ") tol " << tol);
  }
}
inline void expect_lm(const LM& a, const LM& b, long double tol, const char* what) {
  for (size_t i = 0; i < b.d.size(); ++i) REQUIRE(fw::near(a.d[i], b.d[i], tol), << what << ": " << show(a) << " want " << show(b) << " tol " << tol);
}
// shape of a d-dimensional transform: square, homogeneous or larger
template <class M> Mod<melem_t<M>> hshape(Gen& g, int d) {
  if constexpr (mspec<M>::r > 0) return Mod<melem_t<M>>(mspec<M>::r, mspec<M>::c);
  else { int r = d, c = d; switch (g.below(4)) { case 0: break; case 1: r = c = d + 1; break; case 2: (is_row_basis<M> ? r : c) = d + 1; break; default: r += (int)g.below(3); c += (int)g.below(3); } return Mod<melem_t<M>>(r, c); }
}
// angles: any, special, near 0 / pi, beyond 2 pi
template <class E> E angle(Gen& g) {
  long double a;
  switch (g.below(8)) {
    case 0: a = (long double)g.sym(16) * PI / 4; break;
    case 1: a = std::ldexp((long double)g.sym(15), -(int)g.below(std::is_same_v<E, float> ? 24 : 52)); break;
    case 2: a = (g.coin() ? PI : -PI) + std::ldexp((long double)g.sym(15), -(int)g.below(std::is_same_v<E, float> ? 24 : 52)); break;
    case 3: a = g.symreal(40); break;
    default: a = g.symreal(3.5);
  }
  return (E)a;
}
inline V3 unit3(Gen& g) {   // exact to long double
  V3 v;
  switch (g.below(5)) { case 0: { int a = (int)g.below(3); long double s = g.coin() ? 1 : -1; return {a == 0 ? s : 0, a == 1 ? s : 0, a == 2 ? s : 0}; }
    case 1: v = {(long double)g.sym(2), (long double)g.sym(2), (long double)g.sym(2)}; break;
    case 2: { v = {g.symreal(1), g.symreal(1), g.symreal(1)}; int k = (int)g.below(3); long double f = std::ldexp(1.0L, -(int)g.below(50)); (k == 0 ? v.x : k == 1 ? v.y : v.z) *= f; break; }
    default: v = {g.symreal(1), g.symreal(1), g.symreal(1)}; }
  if (dot(v, v) < 1e-4L) v = {.6L, -.8L, 0};
  return unit(v);
}
// proper rotations, every region: general, half-turns (exact and near), near identity
inline H rot_h(Gen& g, const char*& fam) {
  long double t;
  switch (g.below(6)) {
    case 0: fam = "half turn"; t = PI; break;
    case 1: fam = "near half turn"; t = PI + std::ldexp((long double)g.sym(15), -(int)g.range(4, 60)); break;
    case 2: fam = "near identity"; t = std::ldexp((long double)g.sym(15), -(int)g.range(4, 60)); break;
    case 3: fam = "quarter turns"; t = (long double)g.sym(8) * PI / 2; break;
    default: fam = "general"; t = g.symreal(6.3);
  }
  return quat_of(unit3(g), t);
}
template <class E> H round_h(H h) { return {(long double)(E)h.w, (long double)(E)h.x, (long double)(E)h.y, (long double)(E)h.z}; }
}  // namespace bx
using namespace bx;
