// P29: the operations compared between configurations.  One translation unit includes this once, with some of the
// SEC_* macros defined; the library headers those sections need have been included before it (and nothing else need be).
#include "P29_shared.h"
#include <array>
#include <cstdlib>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
namespace {
using p29::In;
using p29::Out;
struct Add { Add(const char* n, const char* e, p29::Fn f) { p29::add(P29_CONFIG, n, e, f); } };
#define P29_CAT2(a, b) a##b
#define P29_CAT(a, b) P29_CAT2(a, b)
#define P29_REG(NAME, T) static Add P29_CAT(add_, __COUNTER__)(#NAME, #T, &NAME<T>);
// every operation is a function template of the element type
#define OP(NAME) template <class T> void body_##NAME(In&, Out&); \
  template <class T> void NAME(In in, Out& o) { p29::guarded([&] { body_##NAME<T>(in, o); }, o); } \
  P29_REG(NAME, double) P29_REG(NAME, float) template <class T> void body_##NAME(In& in, Out& o)
#define OPI(NAME) template <class T> void body_##NAME(In&, Out&); \
  template <class T> void NAME(In in, Out& o) { p29::guarded([&] { body_##NAME<T>(in, o); }, o); } \
  P29_REG(NAME, double) P29_REG(NAME, float) P29_REG(NAME, int) template <class T> void body_##NAME(In& in, Out& o)
template <class T> T val(In& in) { return std::is_integral<T>::value ? (T)in.integer() : (T)in.real(); }
template <class T> T nz(In& in) { return std::is_integral<T>::value ? (T)in.nonzero() : (T)in.pos(); }
template <class V> void outv(Out& o, const V& v) { for (int i = 0; i < (int)v.size(); ++i) o.num(v[i]); o.num(-1000 - (int)v.size()); }
template <class M> void outm(Out& o, const M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) o.num(m(i, j)); o.num(-2000 - m.rows() * 100 - m.cols()); }
template <class Q> void outq(Out& o, const Q& q) { o.num(q.w()); o.num(q.x()); o.num(q.y()); o.num(q.z()); }
template <class V> void fillv(In& in, V& v) { using T = typename std::decay<decltype(v[0])>::type; for (int i = 0; i < (int)v.size(); ++i) v[i] = val<T>(in); }
template <class M> void fillm(In& in, M& m) { using T = typename std::decay<decltype(m(0, 0))>::type; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = val<T>(in); }
// diagonally dominant
template <class M> void fillw(In& in, M& m) { fillm(in, m); for (int i = 0; i < m.rows() && i < m.cols(); ++i) m(i, i) += (i % 2 ? -1 : 1) * 40; }
// an orthonormal 3-frame, plain C++
struct Frame { double r[3][3], q[4]; };
inline Frame frame(In& in) {
  double q[4], n = 0;
  for (auto& e : q) { e = in.unit() * 2 - 1; n += e * e; }
  q[0] += 0.3; n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  if (n < 0.05) { q[0] = n = 1; q[1] = q[2] = q[3] = 0; }
  Frame f;
  for (int i = 0; i < 4; ++i) f.q[i] = q[i] / n;
  double w = f.q[0], x = f.q[1], y = f.q[2], z = f.q[3];
  double r[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f.r[i][j] = r[i][j];
  return f;
}
static const char scribble_bytes[] = "scribble";
// overwrite the stack below, so that a reference into a dead frame shows
template <class T> T scribble(T x) { volatile char b[512]; for (int i = 0; i < 512; ++i) b[i] = (char)(scribble_bytes[i % 8] + (int)x); return (T)(x + 0 * b[(int)(x == x)]); }

#ifdef SEC_VECTOR
template <class T> using V2 = cml::vector<T, cml::fixed<2>>;
template <class T> using V3 = cml::vector<T, cml::fixed<3>>;
template <class T> using V4 = cml::vector<T, cml::fixed<4>>;
template <class T> using V5 = cml::vector<T, cml::fixed<5>>;
template <class T> using VD = cml::vector<T, cml::dynamic<>>;
template <class T> using VE = cml::vector<T, cml::external<>>;
template <class T> using VE3 = cml::vector<T, cml::external<3>>;
template <class T> VD<T> vd(In& in, int n) { VD<T> v; v.resize(n); fillv(in, v); return v; }

OPI(vector_construct) {
  T a[3]; for (auto& e : a) e = val<T>(in);
  V3<T> v1(a), v2(a[0], a[1], a[2]), v3(v1), v4{a[2], a[1], a[0]}; V4<T> v5(v1, a[1]); V2<T> q(a[1], a[2]); V4<T> v6(q, a[0], a[2]);
  VD<T> d1(a), d2{a[0], a[1]}, d3(v1), d4((const T*)a, 3), d5(std::move(d1)), d6(d5), d7(v1, a[0]);
  for (auto* v : {&v1, &v2, &v3, &v4}) outv(o, *v);
  outv(o, v5); outv(o, v6); for (auto* v : {&d2, &d3, &d4, &d5, &d6, &d7}) outv(o, *v);
}
OPI(vector_assign) {
  T a[3]; for (auto& e : a) e = val<T>(in);
  V3<T> v; v = a; outv(o, v); v = {a[1], a[2], a[0]}; outv(o, v); VD<T> d; d = v; outv(o, d); d = {a[0], a[1]}; outv(o, d); d = a; outv(o, d);
  d = v + v; outv(o, d); v = d - v; outv(o, v); d.resize(5); for (int i = 0; i < 5; ++i) d[i] = T(i); outv(o, d); VD<T> e; e = std::move(d); outv(o, e);
}
OPI(vector_arith) {
  V3<T> a, b; fillv(in, a); fillv(in, b); int n = in.size(0, 6); auto x = vd<T>(in, n), y = vd<T>(in, n); T s = nz<T>(in), t = nz<T>(in);
  outv(o, V3<T>(a + b - s * a)); outv(o, V3<T>(-(a - b) / s)); outv(o, VD<T>(x + y - x * s)); outv(o, VD<T>(-(x - y) / s + t * y));
  auto node = (a + b) * s - (b / t); scribble(s); outv(o, node);
  a += b; a *= s; b -= a; b /= t; outv(o, a); outv(o, b); x += y; x *= s; y -= x; y /= t; outv(o, x); outv(o, y);
  outv(o, hadamard(a, b)); outv(o, hadamard(x, y));
}
OPI(vector_temporaries) {
  T s = nz<T>(in), t = nz<T>(in); V3<T> a; fillv(in, a);
  auto node = V3<T>(a) * s + V3<T>(s, t, s) * t; scribble(s); scribble(t); outv(o, node);
  auto d = vd<T>(in, 4); auto n2 = VD<T>(d) - T(2) * VD<T>(d); scribble(s); outv(o, n2);
}
OPI(vector_products) {
  V3<T> a, b, c; fillv(in, a); fillv(in, b); fillv(in, c); int n = in.size(1, 6); auto x = vd<T>(in, n), y = vd<T>(in, n); auto p = vd<T>(in, 3), q = vd<T>(in, 3); V2<T> u, w; fillv(in, u); fillv(in, w);
  o.num(dot(a, b)); o.num(dot(x, y)); outv(o, cross(a, b)); outv(o, cross(p, q)); o.num(triple_product(a, b, c)); o.num(perp_dot(u, w));
  outm(o, outer(a, b)); outm(o, outer(x, y));
}
OP(vector_norms) {
  V3<T> a; fillv(in, a); a[0] += T(20); auto x = vd<T>(in, in.size(1, 7)); x[0] += T(20);
  o.num(a.length()); o.num(a.length_squared()); o.num(x.length()); o.num(x.length_squared()); outv(o, normalize(a)); outv(o, normalize(x)); outv(o, V3<T>(a.normalize())); outv(o, VD<T>(x.normalize())); o.num(length(a)); o.num(length_squared(x));
}
OPI(vector_functions) {
  V4<T> a; fillv(in, a); auto x = vd<T>(in, in.size(1, 7)); V4<T> b(a); VD<T> y(x);
  b.zero(); outv(o, b); y.zero(); outv(o, y); b.cardinal(2); outv(o, b); b.fill(a[1]); outv(o, b); b = a; y = x; b.minimize(V4<T>(T(1), T(0), T(-1), T(2))); outv(o, b); y.maximize(VD<T>(x * T(2))); outv(o, y);
  outv(o, a.subvector(1)); outv(o, x.subvector(0)); outv(o, subvector(a + a, 2)); a.put(1, T(3)); o.num(a.get(1)); outv(o, a);
  V4<T> c(a); for (int i = 0; i < 4; ++i) c[i] = T(c[i] + 1); outv(o, c); o.num(x.size()); const VD<T>& cx = x; T s = 0; for (auto it = cx.begin(); it != cx.end(); ++it) s = T(s + *it); o.num(s);
}
OPI(vector_external) {
  T a[7]; for (auto& e : a) e = val<T>(in); int n = in.size(1, 6);
  VE3<T> v(a + 1); VE<T> w(a, n); outv(o, v); outv(o, w); v *= T(2); outv(o, w); w += w; outv(o, v); V3<T> c(v); outv(o, c); const T* p = a; cml::vector<const T, cml::external<>> k(p, n); outv(o, k); cml::vector<const T, cml::external<3>> k3(p + 2); o.num(dot(k3, v)); v = c; for (T e : a) o.num(e);
}
OPI(vector_compare) {
  auto x = vd<T>(in, in.size(0, 4)), y = vd<T>(in, in.size(0, 4)); int k = in.size(0, 3); if (k < x.size() && k < y.size()) for (int i = 0; i < k; ++i) y[i] = x[i];
  o.num(x == x); if (x.size() == y.size()) { o.num(x == y); o.num(x != y); o.num(x < y); o.num(x > y); o.num(x <= y); o.num(x >= y); }
  V3<T> a, b; fillv(in, a); b = a; b[2] = T(b[2] + T(k - 1)); o.num(a == b); o.num(a != b); o.num(a < b); o.num(a > b); o.num(a <= b); o.num(a >= b); o.num(a + a == b + b);
}
OPI(vector_swap_resize) {
  auto x = vd<T>(in, in.size(0, 5)), y = vd<T>(in, in.size(0, 5)); using std::swap; swap(x, y); outv(o, x); outv(o, y); auto z = x; z.resize(z.size() + 2); for (int i = 0; i < z.size() - 2; ++i) o.num(z[i]); z = y; outv(o, z); x = x; outv(o, x); z.resize(0); outv(o, z); VD<T> m(std::move(y)); outv(o, m); y = m; outv(o, y);
  z.resize_fast(4); o.num(z.size());
}
template <class T> void vector_random_body(Out& o, VD<T> v) { bool in_range = true; for (T e : v) in_range = in_range && e >= T(-3) && e <= T(4); o.num(in_range); }
OP(vector_random) { auto v = vd<T>(in, in.size(1, 6)); v.random(T(-3), T(4)); vector_random_body(o, v); V3<T> w; w.random(T(-3), T(4)); vector_random_body(o, VD<T>(w)); }
OPI(vector_mixed) { V3<T> a; fillv(in, a); V3<double> b; fillv(in, b); V3<int> c; for (int i = 0; i < 3; ++i) c[i] = (int)in.integer(); outv(o, a + b); outv(o, a - c); o.num(dot(a, c)); outv(o, cross(c, b)); outv(o, a * 3); outv(o, 0.5 * c); outv(o, V3<double>(c / 2)); b += a; outv(o, b); }
#if !defined(CML_NO_RUNTIME_VECTOR_SIZE_CHECKS)
OPI(vector_out_of_size) {   // sizes that do not conform, when the checks are compiled in
  auto x = vd<T>(in, 3), y = vd<T>(in, 4); V5<T> z; fillv(in, z);
  p29::guarded([&] { outv(o, VD<T>(x + y)); }, o); p29::guarded([&] { x -= y; }, o); p29::guarded([&] { o.num(dot(x, y)); }, o); p29::guarded([&] { z = x; }, o); p29::guarded([&] { V3<T> w(y); outv(o, w); }, o); p29::guarded([&] { outv(o, cross(y, y)); }, o); p29::guarded([&] { outv(o, hadamard(x, y)); }, o); outv(o, x); outv(o, y); outv(o, z);
}
#endif
#endif

#ifdef SEC_VECTOR_UTIL
OPI(vector_print) { cml::vector<T, cml::fixed<3>> a; fillv(in, a); cml::vector<T, cml::dynamic<>> d(a); std::ostringstream s; s << a << "|" << d << "|"; s << (a + a) << "|" << cml::vector<int, cml::fixed<2>>(1, 2); o.mark(s.str()); }
OPI(vector_hash) { cml::vector<T, cml::fixed<3>> a; fillv(in, a); cml::vector<T, cml::dynamic<>> d(a), e(a); std::unordered_set<cml::vector<T, cml::fixed<3>>> s; s.insert(a); s.insert(a); s.insert(cml::vector<T, cml::fixed<3>>(a + a)); o.num((int)s.size() == 1 + (a + a != a)); o.num(std::hash<cml::vector<T, cml::dynamic<>>>()(d) == std::hash<cml::vector<T, cml::dynamic<>>>()(e)); }
#endif

#ifdef SEC_MATRIX
template <class T, int R, int C, class B = cml::col_basis, class L = cml::row_major> using MF = cml::matrix<T, cml::fixed<R, C>, B, L>;
template <class T, class B = cml::col_basis, class L = cml::row_major> using MD = cml::matrix<T, cml::dynamic<>, B, L>;
template <class M> M md(In& in, int r, int c) { M m; m.resize(r, c); fillm(in, m); return m; }
template <class T> using W3 = cml::vector<T, cml::fixed<3>>;
template <class T> using WD = cml::vector<T, cml::dynamic<>>;
template <class T> WD<T> wd(In& in, int n) { WD<T> v; v.resize(n); fillv(in, v); return v; }

OPI(matrix_construct) {
  T a[6], b[2][3]; for (auto& e : a) e = val<T>(in); for (auto& r : b) for (auto& e : r) e = val<T>(in);
  MF<T, 2, 3> m1(b), m2(a), m3(a[0], a[1], a[2], a[3], a[4], a[5]); MF<T, 2, 3, cml::row_basis, cml::col_major> m4(b), m5(m1), m6{a[5], a[4], a[3], a[2], a[1], a[0]};
  MD<T> d1(m1), d2(2, 3, a), d3(2, 3, a[0], a[1], a[2], a[3], a[4], a[5]), d4(b); MD<T, cml::row_basis, cml::col_major> d5(d1), d6(2, 3, a); MD<T> d7(std::move(d2));
  outm(o, m1); outm(o, m2); outm(o, m3); outm(o, m4); outm(o, m5); outm(o, m6); outm(o, d1); outm(o, d3); outm(o, d4); outm(o, d5); outm(o, d6); outm(o, d7);
  for (int i = 0; i < 6; ++i) o.num(m4.data()[i]);
  m1 = a; outm(o, m1); m1 = b; outm(o, m1); m4 = {a[0], a[1], a[2], a[3], a[4], a[5]}; outm(o, m4); d1 = m4; outm(o, d1); d1.resize(1, 1); d1(0, 0) = a[0]; outm(o, d1); d1 = d3; outm(o, d1);
}
OPI(matrix_arith) {
  int r = in.size(1, 4), c = in.size(1, 4); MF<T, 3, 3> a, b; fillm(in, a); fillm(in, b); auto x = md<MD<T>>(in, r, c), y = md<MD<T>>(in, r, c); T s = nz<T>(in), t = nz<T>(in);
  outm(o, MF<T, 3, 3>(a + b - s * a)); outm(o, MF<T, 3, 3>(-(a - b) / s)); outm(o, MD<T>(x + y - x * s)); outm(o, MD<T>(-(x - y) / s + t * y)); auto node = (a + b) * s - b / t; scribble(s); outm(o, node);
  a += b; a *= s; b -= a; b /= t; outm(o, a); outm(o, b); x += y; x *= s; y -= x; y /= t; outm(o, x); outm(o, y); outm(o, hadamard(a, b)); outm(o, hadamard(x, y));
  auto n2 = MF<T, 3, 3>(a) * s + transpose(MF<T, 3, 3>(b)); scribble(t); outm(o, n2);
}
OPI(matrix_product) {
  int p = in.size(1, 4), q = in.size(1, 4), r = in.size(1, 4); auto a = md<MD<T>>(in, p, q), b = md<MD<T>>(in, q, r); auto v = wd<T>(in, q); MF<T, 3, 3, cml::row_basis, cml::col_major> f, g; fillm(in, f); fillm(in, g); W3<T> w; fillv(in, w);
  outm(o, a * b); outv(o, a * v); outv(o, v * b); outm(o, f * g); outv(o, f * w); outv(o, w * g); outm(o, (f + g) * transpose(f)); outv(o, (f - g) * (w + w)); outm(o, MD<T>(a * b) - MD<T>(a * b) * T(2)); f = f * g; outm(o, f); MF<T, 2, 3> h; fillm(in, h); MF<T, 3, 2> k; fillm(in, k); outm(o, h * k); outm(o, k * h);
}
OPI(matrix_views) {
  int r = in.size(1, 4), c = in.size(1, 4); auto x = md<MD<T, cml::col_basis, cml::col_major>>(in, r, c); MF<T, 3, 4, cml::row_basis> f; fillm(in, f); int i = in.size(0, r - 1), j = in.size(0, c - 1);
  outv(o, row(x, i)); outv(o, col(x, j)); outv(o, row(f, 1)); outv(o, col(f, 2)); outm(o, transpose(x)); outm(o, transpose(f)); outv(o, basis(f, 2)); outv(o, basis(x, j)); auto t = transpose(x + x); outm(o, t); auto rr = row(transpose(f), 3); outv(o, rr); o.num(x.basis_element(j, i)); o.num(f.basis_element(1, 2)); auto own = row(MF<T, 3, 4, cml::row_basis>(f), 0); scribble(T(1)); outv(o, own);
  outm(o, transpose(transpose(f)));
}
OPI(matrix_writes) {
  MF<T, 3, 3> m; fillm(in, m); W3<T> v; fillv(in, v); auto x = md<MD<T, cml::row_basis, cml::col_major>>(in, 3, 3);
  m.set_row(1, v); outm(o, m); m.set_col(2, v + v); outm(o, m); o.num(basis(m, 0) == v);  m.put(2, 2, T(5)); m.set_basis_element(0, 1, T(7)); outm(o, m); x.set_row(0, v); x.set_col(1, v); outm(o, x);  x = transpose(m); outm(o, x); MF<T, 3, 3> t(m); t.transpose(); outm(o, t);
  m.zero(); outm(o, m); m.identity(); outm(o, m); x.zero(); x.identity(); outm(o, x); m.fill(v[0]); outm(o, m);
}
OPI(matrix_external) {
  T a[12]; for (auto& e : a) e = val<T>(in); int r = in.size(1, 3), c = in.size(1, 4); cml::matrix<T, cml::external<2, 3>> e(a); cml::matrix<T, cml::external<>, cml::row_basis, cml::col_major> d(r, c, a); outm(o, e); outm(o, d); e *= T(2); outm(o, d); d += d; outm(o, e); e = MF<T, 2, 3>(e) - e; for (T x : a) o.num(x); cml::matrix<T, cml::external<>> d2(d.rows(), d.cols(), a); outm(o, transpose(d2)); for (auto it = e.begin(); it != e.end(); ++it) o.num(*it);
}
OPI(matrix_compare) {
  auto x = md<MD<T>>(in, 2, 2), y = x; y(1, in.size(0, 1)) += T(in.size(0, 1)); o.num(x == y); o.num(x != y); MF<T, 2, 2, cml::col_basis, cml::col_major> f(x); o.num(f == x); o.num(x + x == y + y);
}
OPI(matrix_determinant) {
  MF<T, 2, 2> a; fillm(in, a); MF<T, 3, 3, cml::row_basis, cml::col_major> b; fillm(in, b); MF<T, 4, 4> c; fillm(in, c); o.num(determinant(a)); o.num(b.determinant()); o.num(determinant(c)); o.num(trace(a)); o.num(c.trace()); o.num(determinant(a * T(2))); int n = in.size(1, 4); auto d = md<MD<T>>(in, n, n); o.num(determinant(d)); o.num(trace(d)); auto e = d; o.num(e.trace());
}
OP(matrix_inverse) {
  MF<T, 2, 2> a; fillw(in, a); MF<T, 3, 3, cml::row_basis, cml::col_major> b; fillw(in, b); MF<T, 4, 4> c; fillw(in, c); MF<T, 5, 5> d; fillw(in, d); int n = in.size(1, 6); MD<T> e; e.resize(n, n); fillw(in, e);
  outm(o, inverse(a)); outm(o, inverse(b)); outm(o, inverse(c)); outm(o, inverse(d)); outm(o, inverse(e)); MF<T, 3, 3> g; fillm(in, g); g(0, 1) += T(9); outm(o, inverse(g)); MF<T, 4, 4, cml::row_basis, cml::col_major> h; fillm(in, h); h(0, 1) += T(30); h(1, 0) -= T(30); h(2, 3) += T(30); h(3, 2) += T(30); outm(o, inverse(h)); a.inverse(); e.inverse(); b.inverse(); outm(o, a); outm(o, b); outm(o, e); outm(o, inverse(c * T(2))); o.num(determinant(d) / T(1e7)); auto k = inverse(transpose(c)); scribble(T(2)); outm(o, k);
}
OP(matrix_random) { MF<T, 3, 3> m; m.random(T(-3), T(4)); bool ok = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && m(i, j) >= T(-3) && m(i, j) <= T(4); o.num(ok); MD<T> d; d.resize(in.size(1, 4), 2); d.random(T(1), T(2)); for (int i = 0; i < d.rows(); ++i) o.num(d(i, 1) >= T(1) && d(i, 1) <= T(2)); }
OPI(matrix_resize) { auto x = md<MD<T>>(in, 2, 3), y = md<MD<T>>(in, 3, 1); using std::swap; swap(x, y); outm(o, x); outm(o, y); x.resize(4, 2); o.num(x.rows()); o.num(x.cols()); x = y; outm(o, x); x = x; outm(o, x); MD<T> z(std::move(y)); outm(o, z); x.resize_fast(2, 2); o.num(x.rows() * 10 + x.cols()); x.resize(z.rows(), z.cols()); o.num(x.rows() * 10 + x.cols()); x = z + z; outm(o, x); x = transpose(z); outm(o, x); }
OPI(matrix_mixed) { MF<T, 2, 2> a; fillm(in, a); MF<double, 2, 2> b; fillm(in, b); MF<int, 2, 2> c; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c(i, j) = (int)in.integer(); outm(o, a + b); outm(o, a * c); outm(o, 0.5 * c); outm(o, c * b); outm(o, c / 2); outm(o, a - c); b += a; outm(o, b); MF<double, 2, 2, cml::row_basis, cml::col_major> k(c); outm(o, k); o.num(determinant(c)); }
OPI(matrix_outer) { W3<T> a, b; fillv(in, a); fillv(in, b); MF<T, 3, 3> m; m = outer(a, b); outm(o, m); m += outer(b, a); outm(o, m); outv(o, m * a); auto x = wd<T>(in, 3); outm(o, outer(x, a)); }
#if !defined(CML_NO_RUNTIME_MATRIX_SIZE_CHECKS) && !defined(CML_NO_RUNTIME_VECTOR_SIZE_CHECKS)
OPI(matrix_out_of_size) {
  auto x = md<MD<T>>(in, 2, 3), y = md<MD<T>>(in, 3, 2), z = md<MD<T>>(in, 2, 2); MF<T, 3, 3> f; fillm(in, f); auto v = wd<T>(in, 5);
  p29::guarded([&] { outm(o, MD<T>(x + y)); }, o); p29::guarded([&] { x -= y; }, o); p29::guarded([&] { outm(o, x * z); }, o); p29::guarded([&] { outv(o, x * v); }, o); p29::guarded([&] { f = x; }, o); p29::guarded([&] { o.num(determinant(x)); }, o); p29::guarded([&] { f.set_row(0, v); }, o); p29::guarded([&] { MF<T, 2, 2> g(x); outm(o, g); }, o); p29::guarded([&] { outm(o, hadamard(x, y)); }, o); outm(o, x); outm(o, f);
}
#endif
#endif

#ifdef SEC_LU
template <class T> using LD = cml::matrix<T, cml::dynamic<>>;
template <class T> using L3 = cml::matrix<T, cml::fixed<3, 3>, cml::row_basis, cml::col_major>;
OP(matrix_lu) {
  int n = in.size(1, 6); LD<T> d; d.resize(n, n); fillw(in, d); L3<T> f; fillw(in, f); cml::vector<T, cml::dynamic<>> b, x; b.resize(n); fillv(in, b); cml::vector<T, cml::fixed<3>> c; fillv(in, c);
  auto l = cml::lu(d); outm(o, l); LD<T> g; g.resize(n, n); fillm(in, g); auto pg = cml::lu_pivot(g); outm(o, pg.lu); for (int e : pg.order) o.num(e); o.num(pg.sign); L3<T> g3; fillm(in, g3); auto p3 = cml::lu_pivot(g3); outm(o, p3.lu); for (int e : p3.order) o.num(e); auto p = cml::lu_pivot(d); outm(o, p.lu); for (int e : p.order) o.num(e); o.num(p.sign); x.resize(n); cml::lu_solve(l, x, b); outv(o, x); outv(o, cml::lu_solve(l, b)); auto lf = cml::lu(f); outm(o, lf); auto pf = cml::lu_pivot(f); outm(o, pf.lu); outv(o, cml::lu_solve(pf, c)); cml::lu_solve(p, x, b); outv(o, x);
}
#endif

#ifdef SEC_MATRIX_UTIL
OPI(matrix_print) { cml::matrix<T, cml::fixed<2, 3>> a; fillm(in, a); cml::matrix<T, cml::dynamic<>, cml::row_basis, cml::col_major> d(a); std::ostringstream s; s << a << "|" << d << "|" << transpose(a + a); o.mark(s.str()); }
#endif

#ifdef SEC_QUATERNION
template <class T, class O = cml::imaginary_first, class C = cml::positive_cross> using QQ = cml::quaternion<T, cml::fixed<>, O, C>;
template <class Q> Q qq(In& in) { using T = typename std::decay<decltype(std::declval<Q&>().w())>::type; T w = (T)in.real(), x = (T)in.real(), y = (T)in.real(), z = (T)(in.real() + 9); Q q; q.identity(); q.set(w, x, y, z); return q; }
template <class T> void quat_ops(In& in, Out& o) {}
template <class Q, class T> void quaternion_all(In& in, Out& o) {
  T c[4]; for (auto& e : c) e = (T)in.real(); Q a(c), b(c[0], c[1], c[2], c[3]), d{c[3], c[2], c[1], c[0]}, e(a); T s = (T)in.pos();
  outq(o, a); outq(o, b); outq(o, d); outq(o, Q(a + d - a * s)); outq(o, Q(-(a - d) / s)); outq(o, a * d); outq(o, (a + d) * (a - d)); auto n = Q(a) * s - Q(d) / s; scribble(s); outq(o, n);
  a += d; a *= s; d -= a; d /= s; outq(o, a); outq(o, d); a *= d; outq(o, a); outq(o, conjugate(a)); o.num(dot(a, e)); o.num(a.norm()); o.num(e.length()); o.num(e.length_squared()); outv(o, a.imaginary()); o.num(a.real()); o.num(a == b); o.num(b == e); o.num(a < b);
  Q w; w.identity(); outq(o, w); w.zero(); outq(o, w);
  Q h(c); h += Q(T(20), T(1), T(2), T(3)); outq(o, normalize(h)); outq(o, inverse(h)); h.normalize(); outq(o, h); h.conjugate(); outq(o, h); h.inverse(); outq(o, h); h = {c[0], c[1], c[2], c[3]}; outq(o, h); h = c; outq(o, h); T v3[3] = {c[1], c[2], c[3]}; Q hv(c[0], v3), hw(v3, c[0]); outq(o, hv); outq(o, hw);
  Q p(c); p /= T(8); outq(o, exp(p)); Q u(c); u += Q(T(20), T(1), T(2), T(3)); outq(o, log(u));
}
OP(quaternion_ip) { quaternion_all<QQ<T>, T>(in, o); }
OP(quaternion_rp) { quaternion_all<QQ<T, cml::real_first>, T>(in, o); }
OP(quaternion_in) { quaternion_all<QQ<T, cml::imaginary_first, cml::negative_cross>, T>(in, o); }
OP(quaternion_rn) { quaternion_all<QQ<T, cml::real_first, cml::negative_cross>, T>(in, o); }
#endif

#ifdef SEC_QUATERNION_UTIL
OP(quaternion_print) { T c[4]; for (auto& e : c) e = (T)in.real(); cml::quaternion<T> q(c); cml::quaternion<T, cml::fixed<>, cml::real_first> r(c); std::ostringstream s; s << q << "|" << r << "|" << (q + q); o.mark(s.str()); }
#endif

#ifdef SEC_SCALAR
OP(scalar_constants) { using C = cml::constants<T>; for (T x : {C::pi(), C::two_pi(), C::inv_pi(), C::inv_two_pi(), C::pi_over_2(), C::pi_over_4(), C::e(), C::deg_per_rad(), C::rad_per_deg(), C::sqrt_2(), C::sqrt_3(), C::sqrt_5(), C::sqrt_6()}) o.num(x); (void)in; }
OP(scalar_functions) {
  T a = (T)in.real(), b = (T)in.real(), c = (T)in.pos(); o.num(cml::clamp(a, T(-2), T(3))); o.num(cml::in_range(a, T(-2), T(3))); o.num(cml::acos_safe(T(a / 4))); o.num(cml::asin_safe(T(b / 4))); o.num(cml::sqrt_safe(a)); o.num(cml::sqr(a)); o.num(cml::cub(b)); o.num(cml::rad(a)); o.num(cml::deg(b)); o.num(cml::length(a, b)); o.num(cml::length_squared(a, b)); o.num(cml::length(a, b, c)); o.num(cml::sign(a)); o.num(cml::wrap(a, T(0), T(3))); o.num(cml::inv_sqrt(c)); o.num(cml::map_range(a, T(-8), T(8), T(1), b)); o.num(cml::index_of_max(a, b, c)); o.num(cml::index_of_max_abs(a, b)); o.num(cml::index_of_min(a, b, c, T(1))); o.num(cml::index_of_min_abs(a, b, c));
  int i = in.size(0, 2), j, k; o.num(cml::next(i, 3)); o.num(cml::prev(i, 3)); cml::cyclic_permutation(i, i, j, k); o.num(i * 100 + j * 10 + k); 
}
OP(scalar_random) { double r = cml::random_unit(); (void)in; o.num(r >= 0 && r <= 1); T x = cml::random_real(T(2), T(3)); o.num(x >= 2 && x <= 3); int i = cml::random_integer(2, 5); o.num(i >= 2 && i <= 5); int p = cml::random_polar(); o.num(p == 1 || p == -1); (void)cml::random_binary(); }
#endif

#define P29_V3(NAME, T, ARR) cml::vector<T, cml::fixed<3>> NAME((T)(ARR)[0], (T)(ARR)[1], (T)(ARR)[2]);
#if defined(SEC_VECTOR_MATHLIB) || defined(SEC_MATRIX_ROTATION) || defined(SEC_MATRIX_AFFINE) || defined(SEC_QUATERNION_ROTATION) || defined(SEC_COORDINATES) || defined(SEC_PROJECTION)
template <class T> using X2 = cml::vector<T, cml::fixed<2>>;
template <class T> using X3 = cml::vector<T, cml::fixed<3>>;
template <class T> using X4 = cml::vector<T, cml::fixed<4>>;
template <class T> using XD = cml::vector<T, cml::dynamic<>>;
// two directions well away from parallel, the second also not perpendicular
template <class T> void two(In& in, X3<T>& a, X3<T>& b) { Frame f = frame(in); double s = in.pos(), t = in.unit() * 4 - 2; for (int i = 0; i < 3; ++i) { a[i] = T(s * f.r[0][i]); b[i] = T(t * f.r[0][i] + in.u[0] * 0 + 3 * f.r[1][i]); } }
#endif
#if defined(SEC_MATRIX_ROTATION) || defined(SEC_MATRIX_AFFINE) || defined(SEC_QUATERNION_ROTATION) || defined(SEC_PROJECTION)
template <class T> using N3 = cml::matrix<T, cml::fixed<3, 3>, cml::col_basis, cml::row_major>;
template <class T> using N3r = cml::matrix<T, cml::fixed<3, 3>, cml::row_basis, cml::col_major>;
template <class T> using N4 = cml::matrix<T, cml::fixed<4, 4>, cml::col_basis, cml::col_major>;
template <class T> using N4r = cml::matrix<T, cml::fixed<4, 4>, cml::row_basis, cml::row_major>;
template <class T> using ND = cml::matrix<T, cml::dynamic<>>;
template <class M> M rotm(In& in) { Frame f = frame(in); M m; m.identity(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.set_basis_element(j, i, (typename std::decay<decltype(m(0, 0))>::type)f.r[i][j]); return m; }
template <class M> M dirty() { M m; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = 99; return m; }
#endif

#ifdef SEC_VECTOR_MATHLIB
OP(angles) { X3<T> a, b, c; two(in, a, b); two(in, c, a); X2<T> p{(T)in.pos(), (T)in.real()}, q{(T)in.real(), (T)in.pos()}; o.num(unsigned_angle(a, b)); o.num(signed_angle(a, b, cross(a, b))); o.num(signed_angle(b, a, cross(a, b) + a)); o.num(signed_angle_2D(p, q)); o.num(unsigned_angle_2D(p, q)); o.num(unsigned_angle(a, XD<T>(c))); o.num(signed_angle(a, c, cross(a, c))); }
OP(rotate_project) { X3<T> a, b; two(in, a, b); Frame f = frame(in); P29_V3(n, T, f.r[2]) outv(o, rotate_vector(a, n, (T)in.angle())); X2<T> p{(T)in.pos(), (T)in.real()}; outv(o, project_to_vector(a, b)); outv(o, project_to_hplane(a, n)); outv(o, perp(p)); o.num(manhattan_distance(a, b)); outv(o, project_to_vector(XD<T>(a), b)); outv(o, rotate_vector(XD<T>(b), n, T(1))); }
OP(orthonormal) { for (int k = 0; k < 12; k += 2) { X3<T> a, b, x, y, z; two(in, a, b); cml::orthonormal_basis(a, b, x, y, z, true, (cml::axis_order)k); outv(o, x); outv(o, y); outv(o, z); } X2<T> p{(T)in.pos(), (T)in.real()}, x, y; cml::orthonormal_basis_2D(p, x, y, true, cml::axis_order_xy); outv(o, x); outv(o, y); cml::orthonormal_basis_2D(p, x, y, true, cml::axis_order_yx); outv(o, x); outv(o, y); XD<T> u, v, w; X3<T> a, b; two(in, a, b); cml::orthonormal_basis(XD<T>(a), b, u, v, w); outv(o, u); outv(o, v); outv(o, w); }
OP(vector_generators) { (void)in; outv(o, cml::zero_2D()); outv(o, cml::zero_3D()); outv(o, cml::zero_4D()); outv(o, cml::x_axis_2D()); outv(o, cml::y_axis_2D()); outv(o, cml::x_axis_3D()); outv(o, cml::y_axis_3D()); outv(o, cml::z_axis_3D()); outv(o, cml::axis_2D(1)); outv(o, cml::axis_3D(2)); outv(o, cml::axis<5>(3)); outv(o, cml::zero<6>()); X3<T> v; v = cml::y_axis_3D(); outv(o, v); }
#endif

#ifdef SEC_RANDOM_UNIT
OP(random_units) {
  cml::vector<T, cml::fixed<3>> v, d(T(0), T(0), T(1)); cml::vector<T, cml::dynamic<>> w; w.resize(in.size(2, 5)); std::minstd_rand g(5); auto unit = [](T x) { return x > T(0.999) && x < T(1.001); };
  cml::random_unit(v); o.num(unit(v.length())); cml::random_unit(w); o.num(unit(w.length())); cml::random_unit(v, g); o.num(unit(v.length())); cml::random_unit(v, d, T(0.5)); o.num(unit(v.length())); o.num(v[2] >= T(0.877));
}
#endif

#ifdef SEC_MATRIX_ROTATION
template <class T> T ang(In& in) { return (T)in.angle(); }
template <class M, class T> void matrix_rotations(In& in, Out& o) {
  M m = dirty<M>(); for (int k = 0; k < 3; ++k) { cml::matrix_rotation_world_axis(m, k, ang<T>(in)); outm(o, m); } cml::matrix_rotation_world_x(m, ang<T>(in)); outm(o, m); cml::matrix_rotation_world_y(m, ang<T>(in)); outm(o, m); cml::matrix_rotation_world_z(m, ang<T>(in)); outm(o, m);
  Frame f = frame(in); P29_V3(n, T, f.r[1]) cml::matrix_rotation_axis_angle(m, n, ang<T>(in)); outm(o, m); cml::quaternion<T> q((T)f.q[0], (T)f.q[1], (T)f.q[2], (T)f.q[3]); cml::matrix_rotation_quaternion(m, q); outm(o, m);
  M r = rotm<M>(in); X3<T> axis; T a; cml::matrix_to_axis_angle(r, axis, a); outv(o, axis); o.num(a); auto t = cml::matrix_to_axis_angle(r); outv(o, std::get<0>(t)); o.num(std::get<1>(t));
}
OP(matrix_rotation_3) { matrix_rotations<N3<T>, T>(in, o); }
OP(matrix_rotation_4) { matrix_rotations<N4r<T>, T>(in, o); }
OP(matrix_rotation_2D) { cml::matrix<T, cml::fixed<2, 2>> m = dirty<cml::matrix<T, cml::fixed<2, 2>>>(); cml::matrix_rotation_2D(m, ang<T>(in)); outm(o, m); X2<T> p{(T)in.pos(), (T)in.real()}; cml::matrix_rotation_align_2D(m, p); outm(o, m); cml::matrix_rotation_align_2D(m, p, true, cml::axis_order_yx); outm(o, m); }
OP(matrix_euler) { for (int k = 0; k < 12; ++k) { N3<T> m = dirty<N3<T>>(); auto ord = (cml::euler_order)k; X3<T> e{ang<T>(in), ang<T>(in), ang<T>(in)}; cml::matrix_rotation_euler(m, e, ord); outm(o, m); cml::matrix_rotation_euler(m, e[0], e[1], e[2], ord); outm(o, m); N4r<T> r = rotm<N4r<T>>(in); T a, b, c; cml::matrix_to_euler(r, a, b, c, ord); o.num(a); o.num(b); o.num(c); outv(o, cml::matrix_to_euler(r, ord)); outv(o, cml::matrix_to_euler<XD<T>>(r, ord)); } }
OP(matrix_euler_derivative) { for (int k = 0; k < 12; ++k) { N4<T> m = dirty<N4<T>>(); X3<T> e{ang<T>(in), ang<T>(in), ang<T>(in)}; for (int j = 0; j < 3; ++j) { cml::matrix_rotation_euler_derivatives(m, j, e, (cml::euler_order)k); outm(o, m); } } }
OP(matrix_align) { for (int k = 0; k < 12; k += 2) { X3<T> a, b; two(in, a, b); N3r<T> m; cml::matrix_rotation_align(m, a, b, true, (cml::axis_order)k); outm(o, m); X3<T> p; for (int i = 0; i < 3; ++i) p[i] = (T)in.real(); N4<T> w; cml::matrix_rotation_aim_at(w, p, p + a, b, (cml::axis_order)k); outm(o, w); } N4<T> w; X3<T> a, b; two(in, a, b); cml::matrix_rotation_align(w, a, b); outm(o, w); }
OP(matrix_rotation_errors) { N3<T> m = dirty<N3<T>>(); p29::guarded([&] { cml::matrix_rotation_world_axis(m, 3, T(1)); }, o); p29::guarded([&] { cml::matrix_rotation_world_axis(m, -1, T(1)); }, o); p29::guarded([&] { cml::matrix_rotation_euler_derivatives(m, 3, T(1), T(1), T(1), cml::euler_order_xyz); }, o); (void)in; }
#endif

#ifdef SEC_MATRIX_AFFINE
template <class M, class T> void affine_all(In& in, Out& o) {
  M m = dirty<M>(); X3<T> v, w; fillv(in, v); fillv(in, w); w += X3<T>(T(9), T(9), T(9));
  cml::matrix_translation(m, v); outm(o, m); cml::matrix_translation(m, v[0], v[1], v[2]); outm(o, m); cml::matrix_set_translation(m, w); outm(o, m); cml::matrix_set_translation(m, v[1], v[2], v[0]); outm(o, m); outv(o, cml::matrix_get_translation(m)); T a, b, c; cml::matrix_get_translation(m, a, b, c); o.num(a); o.num(b); o.num(c);
  cml::matrix_scale(m, w); outm(o, m); cml::matrix_scale(m, w[0], v[1], w[2]); outm(o, m); cml::matrix_inverse_scale(m, w); outm(o, m); cml::matrix_inverse_scale(m, w[2], w[1], w[0]); outm(o, m); cml::matrix_uniform_scale(m, w[1]); outm(o, m);
  N3<T> r = rotm<N3<T>>(in); N3r<T> rr = rotm<N3r<T>>(in); M n = dirty<M>(); cml::matrix_affine_transform(m, N3<T>(r), v); outm(o, m); cml::matrix_linear_transform(n, r); outm(o, n); Frame f = frame(in); P29_V3(ax, T, f.r[0]) cml::matrix_affine_transform(m, ax, (T)in.angle(), v); outm(o, m); cml::matrix_affine_transform(n, ax * T(3), (T)in.angle(), w, true); outm(o, n);
  outm(o, cml::matrix_concat(m, n)); auto k = cml::matrix_concat(n, m); outm(o, k); cml::matrix_invert_RT_only(m); outm(o, m); outv(o, cml::transform_point(m, v)); outv(o, cml::transform_vector(m, w)); outv(o, cml::transform_point(m, XD<T>(v))); (void)rr;
  outv(o, cml::matrix_get_x_basis_vector(m)); outv(o, cml::matrix_get_y_basis_vector(m)); outv(o, cml::matrix_get_z_basis_vector(m)); outv(o, cml::matrix_get_basis_vector(m, 1)); outv(o, cml::matrix_get_transposed_basis_vector(m, 2)); outv(o, cml::matrix_get_transposed_x_basis_vector(m)); cml::matrix_set_x_basis_vector(m, v); cml::matrix_set_y_basis_vector(m, w); cml::matrix_set_z_basis_vector(m, v + w); outm(o, m); cml::matrix_set_basis_vector(m, 0, w); cml::matrix_set_transposed_basis_vector(m, 1, v); outm(o, m); cml::matrix_set_basis_vectors(m, v, w, v - w); outm(o, m); cml::matrix_set_transposed_basis_vectors(m, w, v, v - w); outm(o, m); X3<T> b0, b1, b2; cml::matrix_get_basis_vectors(m, b0, b1, b2); outv(o, b2); cml::matrix_get_transposed_basis_vectors(m, b0, b1, b2); outv(o, b1);
  o.num(cml::trace_3x3(m)); o.num(cml::trace_2x2(m)); N3<T> sk; cml::matrix_skew_symmetric(sk, v); outm(o, sk);
}
OP(affine_c) { affine_all<N4<T>, T>(in, o); }
OP(affine_r) { affine_all<N4r<T>, T>(in, o); }
OP(affine_2D) { N3<T> m = dirty<N3<T>>(); X2<T> v{(T)in.real(), (T)in.pos()}; cml::matrix_translation_2D(m, v); outm(o, m); cml::matrix_scale_2D(m, v); outm(o, m); cml::matrix_set_translation_2D(m, v); outm(o, m); outv(o, cml::matrix_get_translation_2D(m)); outv(o, cml::transform_point_2D(m, v)); outv(o, cml::transform_vector_2D(m, v)); X2<T> c0, c1; cml::matrix_get_basis_vectors_2D(m, c0, c1); outv(o, c0 + c1); cml::matrix_set_basis_vectors_2D(m, v, c0); outm(o, m); cml::matrix_get_transposed_basis_vectors_2D(m, c0, c1); outv(o, c0 - c1); N4<T> h; fillw(in, h); X4<T> p; fillv(in, p); outv(o, cml::transform_vector_4D(h, p)); h(3, 0) = h(3, 1) = h(3, 2) = 0; X3<T> q; fillv(in, q); outv(o, cml::transform_point_4D(h, q)); }
OP(affine_look_at) { N4<T> m; N4r<T> n; X3<T> p, a, b; fillv(in, p); two(in, a, b); cml::matrix_look_at(m, p, p + a, b, cml::left_handed); outm(o, m); cml::matrix_look_at_LH(n, p, p + a, b); outm(o, n); cml::matrix_look_at_RH(m, p, p + a, b); outm(o, m); cml::matrix_look_at(n, p, p + a, b, cml::right_handed); outm(o, n); }
OP(matrix_generators) { (void)in; outm(o, cml::identity_2x2()); outm(o, cml::identity_3x3()); outm(o, cml::identity_4x4()); outm(o, cml::zero_2x2()); outm(o, cml::zero_3x3()); outm(o, cml::zero_4x4()); outm(o, cml::identity<2, 3>()); outm(o, cml::zero<3, 2>()); N3<T> m; m = cml::identity_3x3(); outm(o, m); }
#if !defined(CML_NO_RUNTIME_MATRIX_SIZE_CHECKS) && !defined(CML_NO_RUNTIME_VECTOR_SIZE_CHECKS)
OP(affine_out_of_size) {
  ND<T> m; m.resize(2, 2); fillm(in, m); X3<T> v; fillv(in, v); p29::guarded([&] { cml::matrix_translation(m, v); }, o); p29::guarded([&] { cml::matrix_scale(m, v); }, o); p29::guarded([&] { outv(o, cml::transform_point(m, v)); }, o); outm(o, m);
}
#endif
#endif

#ifdef SEC_QUATERNION_ROTATION
template <class Q, class T> void qrot(In& in, Out& o) {
  Q q; Frame f = frame(in); P29_V3(n, T, f.r[2]) for (int k = 0; k < 3; ++k) { cml::quaternion_rotation_world_axis(q, k, (T)in.angle()); outq(o, q); } cml::quaternion_rotation_world_x(q, (T)in.angle()); outq(o, q); cml::quaternion_rotation_world_y(q, (T)in.angle()); outq(o, q); cml::quaternion_rotation_world_z(q, (T)in.angle()); outq(o, q); cml::quaternion_rotation_axis_angle(q, n, (T)in.angle()); outq(o, q); cml::quaternion_rotation_matrix(q, rotm<N3<T>>(in)); outq(o, q); cml::quaternion_rotation_matrix(q, rotm<N4r<T>>(in)); outq(o, q);
  Q u((T)f.q[0], (T)f.q[1], (T)f.q[2], (T)f.q[3]); T a; X3<T> ax; cml::quaternion_to_axis_angle(u, ax, a); outv(o, ax); o.num(a); auto t = cml::quaternion_to_axis_angle(u); o.num(std::get<1>(t)); for (int k = 0; k < 12; ++k) { auto ord = (cml::euler_order)k; T a0 = (T)in.angle(), a1 = (T)in.angle(); cml::quaternion_rotation_euler(q, a0, a1, T(1), ord); outq(o, q); T x, y, z; cml::quaternion_to_euler(u, x, y, z, ord); o.num(x); o.num(y); o.num(z); outv(o, cml::quaternion_to_euler(u, ord)); }
  X3<T> b, c; two(in, b, c); for (int k = 0; k < 12; k += 2) { cml::quaternion_rotation_align(q, b, c, true, (cml::axis_order)k); outq(o, q); cml::quaternion_rotation_aim_at(q, n, n + b, c, (cml::axis_order)k); outq(o, q); }
  outv(o, cml::quaternion_get_x_basis_vector(u)); outv(o, cml::quaternion_get_y_basis_vector(u)); outv(o, cml::quaternion_get_z_basis_vector(u)); outv(o, cml::quaternion_get_basis_vector(u, 1)); X3<T> x, y, z; cml::quaternion_get_basis_vectors(u, x, y, z); outv(o, x); outv(o, z); p29::guarded([&] { cml::quaternion_rotation_world_axis(q, 3, T(1)); }, o);
}
OP(quaternion_rotation_ip) { qrot<cml::quaternion<T>, T>(in, o); }
OP(quaternion_rotation_rn) { qrot<cml::quaternion<T, cml::fixed<>, cml::real_first, cml::negative_cross>, T>(in, o); }
#endif

#ifdef SEC_COORDINATES
OP(coordinates) {
  X3<T> v; fillv(in, v); T r, t, p; for (int k = 0; k < 3; ++k) { cml::cartesian_to_cylindrical(v, k, r, t, p); o.num(r); o.num(t); o.num(p); for (int l = 0; l < 2; ++l) { auto ty = (cml::LatitudeType)l; cml::cartesian_to_spherical(v, k, ty, r, t, p); o.num(r); o.num(t); o.num(p); X3<T> w; cml::spherical_to_cartesian(w, k, ty, (T)in.pos(), T(1), T(0.5)); outv(o, w); } X3<T> w; cml::cylindrical_to_cartesian(w, k, (T)in.pos(), T(2), T(-1)); outv(o, w); }
  X2<T> q{(T)in.real(), (T)in.pos()}; cml::cartesian_to_polar(q, r, t); o.num(r); o.num(t); cml::polar_to_cartesian(q, (T)in.pos(), T(2)); outv(o, q); XD<T> d; d.resize(3); cml::spherical_to_cartesian(d, 1, cml::latitude, T(2), T(1), T(1)); outv(o, d); d.resize(2); cml::polar_to_cartesian(d, T(2), T(1)); outv(o, d); p29::guarded([&] { cml::cartesian_to_cylindrical(v, 3, r, t, p); }, o); p29::guarded([&] { cml::spherical_to_cartesian(v, -1, cml::colatitude, T(1), T(1), T(1)); }, o);
}
#endif

#ifdef SEC_PROJECTION
template <class M, class T> void projections(In& in, Out& o) {
  M m = dirty<M>(); T l = -(T)in.pos(), r = (T)in.pos(), b = -(T)in.pos(), t = (T)in.pos(), n = (T)in.pos(), f = n + (T)in.pos() * 10, w = r - l, h = t - b, fov = (T)(0.5 + in.unit()), as = (T)in.pos();
  for (auto z : {cml::z_clip_neg_one, cml::z_clip_zero}) { for (auto hd : {cml::left_handed, cml::right_handed}) { cml::matrix_orthographic(m, l, r, b, t, n, f, hd, z); outm(o, m); cml::matrix_orthographic(m, w, h, n, f, hd, z); outm(o, m); cml::matrix_perspective(m, l, r, b, t, n, f, hd, z); outm(o, m); cml::matrix_perspective(m, w, h, n, f, hd, z); outm(o, m); cml::matrix_perspective_xfov(m, fov, as, n, f, hd, z); outm(o, m); cml::matrix_perspective_yfov(m, fov, as, n, f, hd, z); outm(o, m); }
    cml::matrix_orthographic_LH(m, l, r, b, t, n, f, z); outm(o, m); cml::matrix_orthographic_RH(m, w, h, n, f, z); outm(o, m); cml::matrix_perspective_LH(m, w, h, n, f, z); outm(o, m); cml::matrix_perspective_RH(m, l, r, b, t, n, f, z); outm(o, m); cml::matrix_perspective_xfov_LH(m, fov, as, n, f, z); outm(o, m); cml::matrix_perspective_xfov_RH(m, fov, as, n, f, z); outm(o, m); cml::matrix_perspective_yfov_LH(m, fov, as, n, f, z); outm(o, m); cml::matrix_perspective_yfov_RH(m, fov, as, n, f, z); outm(o, m); }
}
OP(projection_c) { projections<N4<T>, T>(in, o); }
OP(projection_r) { projections<N4r<T>, T>(in, o); }
#endif

#ifdef SEC_FRUSTUM
template <class M, class T> void frusta(In& in, Out& o) { M m, v; fillw(in, m); fillw(in, v); T p[6][4]; for (auto z : {cml::z_clip_neg_one, cml::z_clip_zero}) for (bool nm : {true, false}) { cml::extract_frustum_planes(m, p, z, nm); for (auto& r : p) for (T e : r) o.num(e); cml::extract_frustum_planes(v, m, p, z, nm); for (auto& r : p) for (T e : r) o.num(e / T(40)); cml::vector<T, cml::fixed<4>> pl; cml::extract_near_frustum_plane(m, pl, z); outv(o, pl); } }
OP(frustum_c) { frusta<cml::matrix<T, cml::fixed<4, 4>, cml::col_basis, cml::col_major>, T>(in, o); }
OP(frustum_r) { frusta<cml::matrix<T, cml::fixed<4, 4>, cml::row_basis, cml::row_major>, T>(in, o); }
#endif
}  // namespace
