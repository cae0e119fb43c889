// Reference quaternions in long double.
#pragma once
#include "linalg.h"
namespace bx {
using cml::imaginary_first; using cml::real_first; using cml::positive_cross; using cml::negative_cross;
struct H { long double w = 0, x = 0, y = 0, z = 0; };
inline H operator+(H a, H b) { return {a.w + b.w, a.x + b.x, a.y + b.y, a.z + b.z}; }
inline H operator-(H a, H b) { return {a.w - b.w, a.x - b.x, a.y - b.y, a.z - b.z}; }
inline H operator-(H a) { return {-a.w, -a.x, -a.y, -a.z}; }
inline H operator*(H a, long double s) { return {a.w * s, a.x * s, a.y * s, a.z * s}; }
inline H ham(H a, H b) {   // Hamilton product
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
          a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
inline H conj(H a) { return {a.w, -a.x, -a.y, -a.z}; }
inline long double dot(H a, H b) { return a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z; }
inline long double norm2(H a) { return dot(a, a); }
inline long double abs(H a) { return std::sqrt(norm2(a)); }
template <class Q> constexpr bool pos_cross = std::is_same_v<typename Q::cross_type, positive_cross>;
template <class Q> H qmul(H a, H b) { return pos_cross<Q> ? ham(a, b) : ham(b, a); }
template <class Q> using qelem_t = typename Q::value_type;
template <class Q> Q mkq(H h) { using E = qelem_t<Q>; Q q; q[Q::W] = (E)h.w; q[Q::X] = (E)h.x; q[Q::Y] = (E)h.y; q[Q::Z] = (E)h.z; return q; }
template <class X> H rdq(const X& q) { return {(long double)q[X::W], (long double)q[X::X], (long double)q[X::Y], (long double)q[X::Z]}; }
inline std::string show(H h) { std::ostringstream o; o.precision(17); o << "(w " << h.w << " x " << h.x << " y " << h.y << " z " << h.z << ")"; return o.str(); }
template <class X> void expect_q(const X& q, H h, const char* what) {
  H r = rdq(q); REQUIRE(r.w == h.w && r.x == h.x && r.y == h.y && r.z == h.z, << what << ": " << show(r) << " want " << show(h));
}
template <class X> void expect_q_near(const X& q, H h, long double tol, const char* what) {
  H r = rdq(q); REQUIRE(fw::near(r.w, h.w, tol) && fw::near(r.x, h.x, tol) && fw::near(r.y, h.y, tol) && fw::near(r.z, h.z, tol), << what << ": " << show(r) << " want " << show(h) << " tol " << tol);
}
template <class E> H exact_h(Gen& g, int m = 12) { H h; h.w = fw::exact<E>(g, m); h.x = fw::exact<E>(g, m); h.y = fw::exact<E>(g, m); h.z = fw::exact<E>(g, m); return h; }
template <class E> H scaled_h(Gen& g, double m = 8) { H h; h.w = fw::scaled<E>(g, m); h.x = fw::scaled<E>(g, m); h.y = fw::scaled<E>(g, m); h.z = fw::scaled<E>(g, m); return h; }
// non-zero, |h| in about [.01, 2m]; axis-aligned and real ones included
template <class E> H nz_h(Gen& g, double m = 8) {
  H h = scaled_h<E>(g, m);
  switch (g.below(6)) { case 0: h = {0, h.x, h.y, h.z}; break; case 1: h = {h.w, 0, 0, h.z}; break; case 2: h = {h.w, 0, 0, 0}; break; }
  if (norm2(h) < 1e-3L) h.w = g.coin() ? 1 : -2;
  return h;
}
template <class E> H unit_h(Gen& g) { H h = nz_h<double>(g, 4); h = h * (1 / abs(h)); return {(long double)(E)h.w, (long double)(E)h.x, (long double)(E)h.y, (long double)(E)h.z}; }
inline bool variedq(H h) { return h.w != h.x || h.x != h.y || h.y != h.z; }
inline H qexp(H h) { long double v = std::sqrt(h.x * h.x + h.y * h.y + h.z * h.z), e = std::exp(h.w), s = v > 0 ? std::sin(v) / v : 1; return {e * std::cos(v), e * s * h.x, e * s * h.y, e * s * h.z}; }
inline H qlog(H h) { long double l = abs(h), v = std::sqrt(h.x * h.x + h.y * h.y + h.z * h.z), c = v > 0 ? std::atan2(v, h.w) / v : 0; return {std::log(l), c * h.x, c * h.y, c * h.z}; }
}  // namespace bx
using namespace bx;
