#pragma once
// P26: operations are reentrant.  Built with ThreadSanitizer.  Every task reads shared const operands and
// digests its results; the digest must be the same alone, after any other tasks, and when several threads run
// the same tasks at once.  Results are held while the next one is computed.
#include "quat.h"
#include "geom.h"
#include <cml/util/vector_hash.h>
#include <cml/util/vector_print.h>
#include <cml/util/matrix_print.h>
#include <cml/util/quaternion_print.h>
#include <cml/matrix/lu.h>
#include <cml/util.h>
#include <atomic>
#include <thread>
#include <unordered_set>
#include <random>

namespace p26 {
struct Dig {
  std::vector<double> v;
  template <class T> void n(T x) { v.push_back((double)x); }
  template <class X> void vec(const X& x) { n(x.size()); for (int i = 0; i < x.size(); ++i) n(x[i]); }
  template <class X> void mat(const X& x) { n(x.rows()); n(x.cols()); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) n(x(i, j)); }
  template <class X> void qt(const X& q) { n(q.w()); n(q.x()); n(q.y()); n(q.z()); }
  void str(const std::string& s) { for (unsigned char c : s) n(c); n(s.size()); }
  bool operator==(const Dig& o) const { if (v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (!fw::same(v[i], o.v[i])) return false; return true; }
};
struct Task { int op, k, l; double t, s[6]; };
// scalar arguments from a pool of three, so that tasks agree in some and differ in others
struct Pool { double v[3]; explicit Pool(Gen& g) { for (auto& x : v) x = g.real(-3, 3); } double operator()(Gen& g) const { return v[g.below(3)]; } };
template <class W> Task task(Gen& g, const Pool& p) { Task t; t.op = (int)g.below(W::nops); t.k = (int)g.below(64); t.l = (int)g.below(64); t.t = p(g); for (auto& x : t.s) x = p(g); return t; }
inline void vary(Gen& g, const Pool& p, Task& t) { if (g.chance(1, 3)) t.k = (int)g.below(64); if (g.chance(1, 3)) t.l = (int)g.below(64); if (g.chance(1, 3)) t.t = p(g); for (auto& x : t.s) if (g.chance(1, 3)) x = p(g); }
// hold two results, then read the first again
#define HOLD_V(D, E1, E2) do { auto&& h1 = (E1); (D).vec(h1); auto&& h2 = (E2); (D).vec(h2); (D).vec(h1); } while (0)
#define HOLD_M(D, E1, E2) do { auto&& h1 = (E1); (D).mat(h1); auto&& h2 = (E2); (D).mat(h2); (D).mat(h1); } while (0)
#define HOLD_Q(D, E1, E2) do { auto&& h1 = (E1); (D).qt(h1); auto&& h2 = (E2); (D).qt(h2); (D).qt(h1); } while (0)

template <class W> Dig eval(const W& w, const Task& t) {
  Dig d;
  try { w.run(d, t); }
  catch (const std::invalid_argument& e) { d.n(-1e30); d.str(e.what()); }
  catch (const std::runtime_error& e) { d.n(-2e30); d.str(e.what()); }
  return d;
}
template <class W> void concurrent(Gen& g) {
  const W w(g);
  int nt = (int)g.range(3, 9);
  std::vector<Task> ts;
  const Pool pool(g);
  for (int i = 0; i < nt; ++i) { ts.push_back(task<W>(g, pool)); if (g.chance(1, 4)) { ts.push_back(ts.back()); vary(g, pool, ts.back()); } }
  g.note([&](auto& o) { w.show(o); for (auto& t : ts) o << " op" << t.op << "(" << t.k << "," << t.l << "," << t.t << ")"; });
  const int n = (int)ts.size();
  std::vector<Dig> want; size_t big = 0;
  for (auto& t : ts) { want.push_back(eval(w, t)); big += want.back().v.size() > 2; }
  g.nontrivial(n >= 3 && big >= 2);
  for (int i = n; i--;) { Dig d = eval(w, ts[i]); REQUIRE(d == want[i], << "op" << ts[i].op << " depends on what ran before: " << fw::show(d.v) << " then " << fw::show(want[i].v)); }
  const int T = 3; std::atomic<int> ready{0}; std::string err[T]; std::vector<std::thread> th; int rot = (int)g.below(n), dir = g.coin() ? 1 : n - 1;
  for (int k = 0; k < T; ++k) th.emplace_back([&, k] {
    ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
    for (int rep = 0; rep < 2; ++rep) for (int i = 0; i < n; ++i) {
      int j = (k == 2 ? (size_t)i * dir + rot : (size_t)i + k * rot) % n;
      Dig d = eval(w, ts[j]);
      if (!(d == want[j]) && err[k].empty()) err[k] = "op" + std::to_string(ts[j].op) + " gives " + fw::show(d.v) + " next to other threads, " + fw::show(want[j].v) + " alone";
    }
  });
  for (auto& t : th) t.join();
  for (auto& e : err) if (!e.empty()) fw::fail_at(__FILE__, __LINE__, e);
}

// the same operation on the same objects after one of their elements changed
template <class W> void changed(Gen& g) {
  W w(g); const Pool pool(g); int n = (int)g.range(1, 4); bool differs = false; std::ostringstream how;
  for (int i = 0; i < n; ++i) {
    Task t = task<W>(g, pool), t2 = t; vary(g, pool, t2);
    Dig d0 = eval(w, t); if (g.coin()) eval(w, t);
    for (int k = (int)g.below(3); k--;) w.poke(g);
    Dig d1 = eval(w, t2); how << " op" << t.op << "(" << t.k << "," << t.l << "," << t.t << ")(" << t2.k << "," << t2.l << "," << t2.t << ")"; g.note([&](auto& o) { w.show(o); o << how.str(); });
    const W c(w); Dig d2 = eval(c, t2), d3 = eval(w, t2); differs |= !(d0 == d1);
    REQUIRE(d1 == d2 && d3 == d2, << "op" << t.op << " on changed arguments gives " << fw::show(d1.v) << " then " << fw::show(d3.v) << ", on fresh ones " << fw::show(d2.v));
  }
  g.nontrivial(differs);
}
// calls of one or two operations with partly equal arguments, in any order and repeated
template <class W> void anyorder(Gen& g) {
  const W w(g); const Pool pool(g); std::vector<Task> ts{task<W>(g, pool)}; if (g.chance(1, 3)) ts.push_back(task<W>(g, pool));
  for (int n = (int)g.range(2, 5); n--;) { Task t = ts[g.below(ts.size())]; vary(g, pool, t); ts.push_back(t); }
  g.note([&](auto& o) { w.show(o); for (auto& t : ts) { o << " op" << t.op << "(" << t.k << "," << t.l << "," << t.t; for (double x : t.s) o << "," << x; o << ")"; } });
  std::vector<Dig> want; for (auto& t : ts) want.push_back(eval(w, t));
  bool differ = false; for (auto& d : want) differ |= !(d == want[0]); g.nontrivial(differ);
  for (int n = (int)g.range(3, 10); n--;) { size_t i = g.below(ts.size()); Dig d = eval(w, ts[i]); REQUIRE(d == want[i], << "op" << ts[i].op << " depends on the calls before: " << fw::show(d.v) << " then " << fw::show(want[i].v)); }
}
template <class E> std::vector<E> vals(Gen& g, int n) { return scaled_vec<E>(g, n, 6); }
template <class M> void fillm(Gen& g, M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = fw::scaled<std::decay_t<decltype(m(0, 0))>>(g, 6); }

// ------------------------------------------------------------------ vectors
template <class E> struct VecWorld {
  static constexpr int nops = 20;
  int n; vector<E, fixed<3>> f[3]; vector<E, fixed<2>> f2[3]; vector<E, dynamic<>> d[3]; std::vector<E> buf; vector<E, external<>> x; vector<const E, external<3>> cx;
  explicit VecWorld(Gen& g) : n((int)g.range(1, 6)), buf(vals<E>(g, n + 3)), x(buf.data(), n), cx(buf.data()) {
    for (auto& v : f) for (int i = 0; i < 3; ++i) v[i] = fw::scaled<E>(g, 6);
    for (auto& v : f2) for (int i = 0; i < 2; ++i) v[i] = fw::scaled<E>(g, 6);
    for (auto& v : d) { v.resize(n); for (int i = 0; i < n; ++i) v[i] = fw::scaled<E>(g, 6); }
  }
  VecWorld(const VecWorld& o) : n(o.n), f{o.f[0], o.f[1], o.f[2]}, f2{o.f2[0], o.f2[1], o.f2[2]}, d{o.d[0], o.d[1], o.d[2]}, buf(o.buf), x(buf.data(), n), cx(buf.data()) {}
  void poke(Gen& g) { E e = fw::scaled<E>(g, 6); int i = (int)g.below(3); switch (g.below(4)) { case 0: f[i][(int)g.below(3)] = e; break; case 1: f2[i][(int)g.below(2)] = e; break; case 2: d[i][(int)g.below(n)] = e; break; default: buf[g.below(n)] = e; } }
  void show(std::ostream& o) const { o << "n=" << n; }
  void run(Dig& r, const Task& t) const {
    const auto &a = f[t.k % 3], &b = f[t.l % 3], &c = f[(t.k / 3) % 3]; const auto &p = d[t.k % 3], &q = d[t.l % 3]; const auto &u = f2[t.k % 3], &v = f2[t.l % 3]; E s = (E)(int)(t.t * 4);
    if (s == E(0)) s = 1;
    switch (t.op) {
      case 0: HOLD_V(r, a + b, c - a); HOLD_V(r, p + q, q - p + x); break;
      case 1: HOLD_V(r, a * s, b / s); HOLD_V(r, s * p, -q); break;
      case 2: r.n(dot(a, b)); r.n(dot(p, x)); r.n(perp_dot(u, v)); r.n(triple_product(a, b, c)); break;
      case 3: HOLD_V(r, cross(a, b), cross(b, c)); HOLD_V(r, cross(cx, a), cross(a + b, c)); break;
      case 4: HOLD_M(r, outer(a, b), outer(b, c)); HOLD_M(r, outer(p, q), outer(q, x)); break;
      case 5: r.n(a.length_squared()); r.n(p.length_squared()); r.n(length_squared(q)); r.n(a.length()); break;
      case 6: { auto y = p; y += q; y *= s; y -= x; y.minimize(p); r.vec(y); auto z = a; z.maximize(b); r.vec(z); break; }
      case 7: HOLD_V(r, perp(u), perp(v)); break;
      case 8: { vector<E, dynamic<>> y(p); y.resize(n + t.l % 4); for (int i = n; i < y.size(); ++i) y[i] = s; r.vec(y); y = q; r.vec(y); break; }
      case 9: HOLD_V(r, subvector(a, t.k % 3), subvector(b, t.l % 3)); if (n > 1) HOLD_V(r, subvector(p, t.k % n), subvector(q, t.l % n)); break;
      case 10: r.n(p == q); r.n(a < b); r.n(p <= q); r.n(x == p); r.n(a != b); r.n(u >= v); break;
      case 11: { std::ostringstream o; o << a << "|" << p << "|" << x; r.str(o.str()); break; }
      case 12: { std::hash<vector<E, dynamic<>>> h; std::unordered_set<vector<E, dynamic<>>> st{p, q}; r.n(h(p) == h(vector<E, dynamic<>>(p))); r.n(h(q) & 0xffffffff); { std::hash<vector<E, fixed<3>>> h3; r.n(h3(a) & 0xffffffff); r.n(h3(b) & 0xffffffff); } r.n(st.count(p)); r.n(st.size()); break; }
      case 13: { std::minstd_rand e(t.k * 64 + t.l + 1); if constexpr (std::is_floating_point_v<E>) { vector<E, dynamic<>> y(n); cml::random_unit(y, e); r.vec(y); cml::random_unit(y, e); r.vec(y); } break; }
      case 14: { vector<E, dynamic<>> y(n + 1 + t.k % 2); y.zero(); r.vec(p + y); break; }   // size error
      case 15: HOLD_V(r, cml::zero<3>(), cml::axis<3>(t.k % 3)); HOLD_V(r, cml::x_axis_3D(), cml::z_axis_3D()); HOLD_V(r, cml::zero_2D(), cml::y_axis_2D()); break;
      case 16: { vector<E, fixed<4>> y(a, s); r.vec(y); vector<E, dynamic<>> z(p, s); r.vec(z); auto m = std::move(z); r.vec(m); break; }
      case 17: HOLD_V(r, hadamard(a, b), hadamard(b, c)); r.n(manhattan_distance(a, b)); r.n(manhattan_distance(p, x)); break;
      case 18: if constexpr (std::is_floating_point_v<E>) { HOLD_V(r, normalize(a), normalize(b)); HOLD_V(r, a.normalize(), p.normalize()); auto y = q; y.normalize(); r.vec(y); r.n(unsigned_angle(a, b)); r.n(signed_angle_2D(u, v)); r.n(signed_angle(a, b, c)); r.n(unsigned_angle_2D(u, v)); } break;
      default: if constexpr (std::is_floating_point_v<E>) { HOLD_V(r, project_to_vector(a, b), project_to_vector(b, a)); HOLD_V(r, project_to_hplane(a, b.normalize()), project_to_hplane(p, q.normalize())); HOLD_V(r, rotate_vector(a, b.normalize(), (E)t.t), rotate_vector(b, a.normalize(), (E)t.t)); }
    }
  }
};
// ------------------------------------------------------------------ matrices
template <class E, class B, class L> struct MatWorld {
  static constexpr int nops = 18;
  int n, k; matrix<E, fixed<3, 3>, B, L> f[3]; matrix<E, fixed<4, 4>, B, L> h[2]; matrix<E, fixed<2, 2>, B, L> w2; matrix<E, fixed<6, 6>, B, L> w6; matrix<E, dynamic<>, B, L> d[3], o; std::vector<E> buf; matrix<E, external<>, B, L> x; vector<E, dynamic<>> v, y; vector<E, fixed<3>> v3;
  explicit MatWorld(Gen& g) : n((int)g.range(1, 6)), k((int)g.range(1, 4)), buf(vals<E>(g, n * n)), x(buf.data(), n, n) {
    for (auto& m : f) fillm(g, m); for (auto& m : h) fillm(g, m); fillm(g, w2); fillm(g, w6); for (auto& m : d) { m.resize(n, n); fillm(g, m); } o.resize(n, k); fillm(g, o);
    v.resize(n); y.resize(k); for (int i = 0; i < n; ++i) v[i] = fw::scaled<E>(g, 6); for (int i = 0; i < k; ++i) y[i] = fw::scaled<E>(g, 6); for (int i = 0; i < 3; ++i) v3[i] = fw::scaled<E>(g, 6);
  }
  MatWorld(const MatWorld& w) : n(w.n), k(w.k), f{w.f[0], w.f[1], w.f[2]}, h{w.h[0], w.h[1]}, w2(w.w2), w6(w.w6), d{w.d[0], w.d[1], w.d[2]}, o(w.o), buf(w.buf), x(buf.data(), n, n), v(w.v), y(w.y), v3(w.v3) {}
  void poke(Gen& g) { E e = fw::scaled<E>(g, 6); int i = (int)g.below(3); auto at = [&](auto& m) { int r = (int)g.below(m.rows()), c = (int)g.below(m.cols()); m(r, c) = e; };
    switch (g.below(7)) { case 0: at(f[i]); break; case 1: at(h[i % 2]); break; case 2: at(d[i]); break; case 3: at(o); break; case 4: at(x); break; case 5: v[(int)g.below(n)] = e; v3[i] = e; break; default: at(w2); at(w6); } }
  void show(std::ostream& s) const { s << "n=" << n << " k=" << k; }
  void run(Dig& r, const Task& t) const {
    const auto &a = f[t.k % 3], &b = f[t.l % 3]; const auto &p = d[t.k % 3], &q = d[t.l % 3]; E s = (E)(int)(t.t * 4); if (s == E(0)) s = 1;
    switch (t.op) {
      case 0: HOLD_M(r, a + b, b - a); HOLD_M(r, p + q, q - x + p); break;
      case 1: HOLD_M(r, a * s, b / s); HOLD_M(r, s * p, -q); break;
      case 2: HOLD_M(r, a * b, b * a); HOLD_M(r, p * q, q * x); break;
      case 3: HOLD_M(r, p * o, q * o); HOLD_M(r, h[0] * h[1], h[1] * h[0]); HOLD_M(r, (p * q) * o, p * (q * o)); break;
      case 4: HOLD_V(r, o * y, p * v); HOLD_V(r, a * v3, v3 * b); HOLD_V(r, v * p, v * o); break;
      case 5: HOLD_M(r, transpose(a), transpose(o)); HOLD_M(r, transpose(p * q), transpose(p + q)); { auto m = o; m.transpose(); r.mat(m); auto c = p; c.transpose(); r.mat(c); } break;
      case 6: r.n(determinant(a)); r.n(determinant(h[0])); r.n(determinant(p)); r.n(w2.determinant()); if constexpr (std::is_floating_point_v<E>) r.n(determinant(w6)); break;
      case 7: r.n(trace(a)); r.n(p.trace()); HOLD_V(r, row(a, t.k % 3), col(b, t.l % 3)); HOLD_V(r, row(p, t.k % n), col(q, t.l % n)); HOLD_V(r, basis(a, 1), basis(p, 0)); HOLD_V(r, diagonal_of(a), diagonal_of(b)); break;
      case 8: if constexpr (std::is_floating_point_v<E>) { HOLD_M(r, inverse(a), inverse(b)); HOLD_M(r, inverse(p), inverse(q)); HOLD_M(r, inverse(h[0]), inverse(h[1])); HOLD_M(r, inverse(w2), inverse(w6)); } break;
      case 9: if constexpr (std::is_floating_point_v<E>) { auto m = p; m.inverse(); r.mat(m); auto c = h[t.k % 2]; c.inverse(); r.mat(c); HOLD_M(r, (matrix<E, fixed<4, 4>, B, L>(h[0]).inverse()), (p + q)); } break;
      case 10: if constexpr (std::is_floating_point_v<E>) { HOLD_M(r, cml::lu(a), cml::lu(b)); auto l1 = lu_pivot(p); auto l2 = lu_pivot(q); r.mat(l1.lu); r.mat(l2.lu); for (int i : l1.order) r.n(i); r.n(l1.sign); r.n(l2.sign); auto l3 = lu_pivot(a); r.mat(l3.lu); r.n(l3.sign); } break;
      case 11: if constexpr (std::is_floating_point_v<E>) { vector<E, dynamic<>> b1(n); auto l1 = lu_pivot(p); if (l1.sign) { lu_solve(l1, b1, v); r.vec(b1); HOLD_V(r, lu_solve(l1, v), lu_solve(l1, b1)); } } break;
      case 12: { auto m = p; m += q; m -= x; m *= s; r.mat(m); matrix<E, dynamic<>, B, L> z(m); z.resize(n + t.k % 3, k); for (int i = 0; i < z.rows(); ++i) for (int j = 0; j < z.cols(); ++j) z(i, j) = s; r.mat(z); z = o; r.mat(z); break; }
      case 13: r.n(p == q); r.n(a != b); { std::ostringstream os; os << a << p; r.str(os.str()); } break;
      case 14: { matrix<E, dynamic<>, B, L> z(n + 1, n); z.zero(); if (t.k % 2) r.mat(p + z); else if (t.l % 2) r.mat(p * z); else r.n(determinant(z)); break; }   // errors
      case 15: HOLD_M(r, hadamard(a, b), hadamard(b, a)); HOLD_M(r, cml::identity_3x3(), cml::zero_4x4()); HOLD_M(r, (cml::identity<2, 3>()), (cml::zero<3, 2>())); break;
      case 16: { matrix<E, fixed<3, 3>, B, L> m; m.identity(); m.set_row(t.k % 3, v3); m.set_col(t.l % 3, v3); m.set_basis_element(t.k % 3, t.l % 3, s); r.mat(m); m.zero(); m.fill(s); r.mat(m); break; }
      default: { auto m = p; auto z = std::move(m); r.mat(z); m = o; r.mat(m); matrix<E, dynamic<>, B, L> c(a); r.mat(c); }
    }
  }
  template <class M> static vector<E, dynamic<>> diagonal_of(const M& m) { vector<E, dynamic<>> r(m.rows()); for (int i = 0; i < m.rows(); ++i) r[i] = m(i, i); return r; }
};
// ------------------------------------------------------------------ quaternions and rotations
template <class E, class O, class C, class B, class L> struct RotWorld {
  static constexpr int nops = 24; using Q = quaternion<E, fixed<>, O, C>; using V = vector<E, fixed<3>>; using M = matrix<E, fixed<3, 3>, B, L>; using H = std::conditional_t<std::is_same_v<B, row_basis>, matrix<E, fixed<4, 3>, B, L>, matrix<E, fixed<3, 4>, B, L>>;
  Q q[3]; V v[3]; vector<E, fixed<2>> u[2]; M m[2]; matrix<E, fixed<4, 4>, B, L> h[2]; E a[3];
  explicit RotWorld(Gen& g) {
    for (auto& x : q) { auto c = unit_vec<E>(g, 4); x = Q(c[0], c[1], c[2], c[3]); }
    for (auto& x : v) { auto c = unit_vec<E>(g, 3); x = V(c[0], c[1], c[2]); }
    for (auto& x : u) { auto c = unit_vec<E>(g, 2); x = vector<E, fixed<2>>(c[0], c[1]); }
    for (auto& x : a) x = (E)g.real(-3, 3);
    for (auto& x : m) { auto c = unit_vec<E>(g, 3); matrix_rotation_axis_angle(x, V(c[0], c[1], c[2]), (E)g.real(-3, 3)); }
    for (auto& x : h) { auto c = unit_vec<E>(g, 3); auto p = vals<E>(g, 3); matrix_affine_transform(x, V(c[0], c[1], c[2]), (E)g.real(-3, 3), V(p[0], p[1], p[2])); }
  }
  void poke(Gen& g) { E e = (E)g.symreal(2); int i = (int)g.below(3); auto at = [&](auto& m) { int r = (int)g.below(3), c = (int)g.below(3); m(r, c) = e; };
    switch (g.below(6)) { case 0: q[i][(int)g.below(4)] = e; break; case 1: v[i][(int)g.below(3)] = e; break; case 2: u[i % 2][(int)g.below(2)] = e; break; case 3: at(m[i % 2]); break; case 4: at(h[i % 2]); break; default: a[i] = e; } }
  void show(std::ostream& s) const { s << "angles " << a[0] << " " << a[1] << " " << a[2]; }
  void run(Dig& r, const Task& t) const {
    const Q &p = q[t.k % 3], &s = q[t.l % 3]; const V &x = v[t.k % 3], &y = v[t.l % 3], &z = v[(t.k / 3) % 3]; const auto &ux = u[t.k % 2], &uy = u[t.l % 2]; E e = a[t.k % 3], f = (E)t.t; const auto &ha = h[t.k % 2], &hb = h[t.l % 2];
    static constexpr cml::euler_order EO[12] = {cml::euler_order_xyz, cml::euler_order_xzy, cml::euler_order_yzx, cml::euler_order_yxz, cml::euler_order_zxy, cml::euler_order_zyx, cml::euler_order_xyx, cml::euler_order_xzx, cml::euler_order_yzy, cml::euler_order_yxy, cml::euler_order_zxz, cml::euler_order_zyz};
    static constexpr cml::axis_order AO[6] = {cml::axis_order_xyz, cml::axis_order_xzy, cml::axis_order_yzx, cml::axis_order_yxz, cml::axis_order_zxy, cml::axis_order_zyx};
    auto S = [&](int i) { return (E)t.s[i]; }; auto P = [&](int i) { return E(.1) + std::fabs((E)t.s[i]); }; auto eo = EO[t.k % 12]; auto ao = AO[t.k % 6]; bool rh = t.k % 2; auto hd = rh ? cml::right_handed : cml::left_handed; auto zc = t.l % 2 ? cml::z_clip_zero : cml::z_clip_neg_one;
    M mm; mm.identity(); H hh; hh.identity(); std::conditional_t<std::is_same_v<B, row_basis>, matrix<E, fixed<3, 2>, B, L>, matrix<E, fixed<2, 3>, B, L>> h2; h2.identity(); matrix<E, fixed<4, 4>, B, L> w; w.identity(); matrix<E, fixed<2, 2>, B, L> m2; m2.identity(); matrix<E, fixed<3, 3>, B, L> w2; w2.identity(); Q o; o.identity();
    switch (t.op) {
      case 0: HOLD_Q(r, p * s, s * p); HOLD_Q(r, p + s, p - s * f); HOLD_Q(r, (p * s) * q[0], p / f); break;
      case 1: HOLD_Q(r, conjugate(p), conjugate(s)); HOLD_Q(r, inverse(p), s.inverse()); HOLD_V(r, p.imaginary(), s.imaginary()); r.n(dot(p, s)); r.n(p.norm()); r.n(s.length()); break;
      case 2: HOLD_Q(r, cml::exp(p), cml::exp(s)); HOLD_Q(r, cml::log(p), cml::log(s)); HOLD_Q(r, normalize(p), s.normalize()); { auto c = p; c *= s; c += q[0]; c.conjugate(); r.qt(c); } break;
      case 3: r.n(p == s); r.n(p < s); { std::ostringstream os; os << p; r.str(os.str()); } HOLD_Q(r, (quaternion<double, fixed<>, imaginary_first, C>(p)), (quaternion<float, fixed<>, O, C>(s))); break;
      case 4: quaternion_rotation_axis_angle(o, x, e); r.qt(o); quaternion_rotation_world_axis(o, t.k % 3, f); r.qt(o); quaternion_rotation_matrix(o, m[t.k % 2]); r.qt(o); quaternion_rotation_euler(o, S(0), S(1), S(2), eo); r.qt(o); break;
      case 5: { V ax; E an; quaternion_to_axis_angle(p, ax, an); r.vec(ax); r.n(an); auto [n, c] = quaternion_to_axis_angle(s); r.vec(n); r.n(c); HOLD_V(r, quaternion_to_euler(p, eo), quaternion_to_euler(s, eo)); HOLD_V(r, quaternion_get_basis_vector(p, t.k % 3), quaternion_get_x_basis_vector(s)); break; }
      case 6: matrix_rotation_axis_angle(mm, x, e); r.mat(mm); matrix_rotation_world_axis(mm, t.k % 3, f); r.mat(mm); matrix_rotation_quaternion(mm, p); r.mat(mm); matrix_rotation_2D(m2, f); r.mat(m2); break;
      case 7: matrix_rotation_euler(mm, S(0), S(1), S(2), eo); r.mat(mm); matrix_rotation_euler_derivatives(mm, t.l % 3, S(0), S(1), S(2), eo); r.mat(mm); break;
      case 8: { HOLD_V(r, matrix_to_euler(m[0], eo), matrix_to_euler(m[1], eo)); V ax; E an; matrix_to_axis_angle(m[t.k % 2], ax, an); r.vec(ax); r.n(an); auto [n, c] = matrix_to_axis_angle(m[t.l % 2]); r.vec(n); r.n(c); break; }
      case 9: matrix_translation(hh, x); r.mat(hh); matrix_set_translation(w, S(0), S(1), S(2)); r.mat(w); HOLD_V(r, matrix_get_translation(ha), matrix_get_translation(hb)); matrix_translation_2D(h2, S(3), S(4)); r.mat(h2); break;
      case 10: matrix_scale(hh, S(0), S(1), S(2)); r.mat(hh); matrix_uniform_scale(hh, f); r.mat(hh); matrix_inverse_scale(hh, x + V(2, 2, 2)); r.mat(hh); matrix_scale_2D(h2, S(0), S(1)); r.mat(h2); matrix_skew_symmetric(mm, y); r.mat(mm); break;
      case 11: HOLD_V(r, transform_vector(ha, x), transform_vector(hb, y)); HOLD_V(r, transform_point(ha, x), transform_point(hb, y)); HOLD_V(r, transform_vector_2D(m[0], ux), transform_point_2D(w2, uy)); break;
      case 12: HOLD_M(r, matrix_concat(ha, hb), matrix_concat(hb, ha)); HOLD_M(r, matrix_concat(m[0], m[1]), matrix_concat(m[1], m[0])); break;
      case 13: w = ha; matrix_invert_RT(w); r.mat(w); w = hb; matrix_invert_RT_only(w); r.mat(w); break;
      case 14: matrix_affine_transform(w, x, f, y); r.mat(w); matrix_affine_transform(w, x, f, -z, true); r.mat(w); matrix_affine_transform(w, m[0], z); r.mat(w); matrix_linear_transform(w, m[1]); r.mat(w); break;
      case 15: { V b0, b1, b2; orthonormal_basis(x, y, b0, b1, b2, true, ao); r.vec(b0); r.vec(b1); r.vec(b2); vector<E, fixed<2>> c0, c1; orthonormal_basis_2D(ux, c0, c1); r.vec(c0); r.vec(c1); matrix_get_basis_vectors(m[0], b0, b1, b2); r.vec(b0); r.vec(b2); HOLD_V(r, matrix_get_basis_vector(m[0], t.k % 3), matrix_get_transposed_basis_vector(m[1], t.l % 3)); break; }
      case 16: matrix_rotation_align(mm, x, y, true, ao); r.mat(mm); matrix_rotation_aim_at(mm, x, y, z, ao); r.mat(mm); matrix_rotation_align_2D(m2, ux); r.mat(m2); quaternion_rotation_align(o, x, y, true, ao); r.qt(o); quaternion_rotation_aim_at(o, x, y, z, ao); r.qt(o); break;
      case 17: matrix_look_at(w, x, y, z, hd); r.mat(w); matrix_look_at_RH(w, z, y, x); r.mat(w); break;
      case 18: matrix_perspective(w, -P(0), P(1), -P(2), P(3), P(4), 9 + P(5), hd, zc); r.mat(w); matrix_orthographic(w, -P(0), P(1), -P(2), P(3), P(4), 9 + P(5), hd, zc); r.mat(w); matrix_orthographic(w, P(0), P(1), P(2), 9 + P(3), hd, zc); r.mat(w); break;
      case 22: matrix_perspective_xfov(w, P(0) / 3, P(1), P(2), 9 + P(3), hd, zc); r.mat(w); matrix_perspective_yfov(w, P(0) / 3, P(1), P(2), 9 + P(3), hd, zc); r.mat(w); matrix_perspective(w, P(0), P(1), P(2), 9 + P(3), hd, zc); r.mat(w); r.n(cml::xfov_to_yfov(P(0) / 3, P(1))); r.n(cml::yfov_to_xfov(P(0) / 3, P(1))); break;
      case 23: matrix_perspective_LH(w, -P(0), P(1), -P(2), P(3), P(4), 9 + P(5), zc); r.mat(w); matrix_orthographic_RH(w, -P(0), P(1), -P(2), P(3), P(4), 9 + P(5), zc); r.mat(w); matrix_perspective_xfov_RH(w, P(0) / 3, P(1), P(2), 9 + P(3), zc); r.mat(w); break;
      case 19: { matrix_perspective(w, P(0), P(1), P(2), 9 + P(3), hd, zc); E pl[6][4]; extract_frustum_planes(ha, w, pl, zc); for (auto& i : pl) for (auto c : i) r.n(c); break; }
      case 20: { V c; vector<E, fixed<2>> c2; polar_to_cartesian(c2, P(0), S(1)); r.vec(c2); cylindrical_to_cartesian(c, t.k % 3, P(0), S(1), S(2)); r.vec(c); spherical_to_cartesian(c, t.k % 3, t.l % 2 ? cml::latitude : cml::colatitude, P(0), S(1), S(2)); r.vec(c); E ra, th, ph; cartesian_to_polar(ux, ra, th); r.n(ra); r.n(th); cartesian_to_cylindrical(x, t.k % 3, ra, th, ph); r.n(ra); r.n(th); r.n(ph); cartesian_to_spherical(y, t.k % 3, t.l % 2 ? cml::latitude : cml::colatitude, ra, th, ph); r.n(ra); r.n(th); r.n(ph); break; }
      default: { E ti[5] = {cml::wrap(f, -P(0), P(1)), cml::clamp(f, -P(0), P(1)), cml::rad(f), cml::deg(f), cml::acos_safe(f)}; for (auto i : ti) r.n(i); r.n(cml::sqrt_safe(f)); int i, j, k; cml::cyclic_permutation(t.k % 3, i, j, k); r.n(i); r.n(j); r.n(k); r.n(cml::index_of_max(S(0), S(1), S(2))); r.n(cml::index_of_min_abs(S(0), S(1), S(2), S(3)));  }
    }
  }
};
// ------------------------------------------------------------------ writes to different elements of one object
template <class V> void disjoint_vec(Gen& g) {
  using E = elem_t<V>; int n = pick_n<V>(g, 2, 9); auto x = exact_vec<E>(g, n), y = exact_vec<E>(g, n), w = x; VBox<V> b(x); const int T = 3; std::vector<int> own(n); for (auto& o : own) o = (int)g.below(T + 1);
  std::vector<int> how(n); for (auto& h : how) h = (int)g.below(4); g.nontrivial(n > 1 && x != y); g.note([&](auto& o) { o << fw::show(x) << " <- " << fw::show(y) << " by " << fw::show(own); });
  std::vector<std::thread> th; std::atomic<int> ready{0}; E seen[T + 1]; std::vector<E> got(n);
  for (int k = 0; k < T; ++k) th.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
    for (int i = 0; i < n; ++i) if (own[i] == k) switch (how[i]) { case 0: b.v[i] = y[i]; break; case 1: b.v.put(i, y[i]); break; case 2: b.v.data()[i] = y[i]; break; default: { E& e = b.v[i]; e = 0; e = y[i]; } }
    for (int i = 0; i < n; ++i) if (own[i] == T && i % T == k) got[i] = b.cr()[i]; });   // nobody writes these
  for (auto& t : th) t.join(); (void)seen;
  for (int i = 0; i < n; ++i) { if (own[i] < T) w[i] = y[i]; else REQUIRE(fw::same<E>(got[i], x[i]), << "element " << i << " read while others were written"); }
  expect_vec(b.cr(), w, "after writes to different elements");
}
template <class M> void disjoint_mat(Gen& g) {
  using E = melem_t<M>; auto x = shape<M>(g, 1, 5); fill_exact(g, x); auto y = x; fill_exact(g, y); MBox<M> b(x); const int T = 3; int how = (int)g.below(4); g.note([&](auto& o) { o << show(x) << " <- " << show(y) << " way " << how; }); g.nontrivial(x.r * x.c > 1);
  std::vector<std::thread> th; std::atomic<int> ready{0};
  for (int k = 0; k < T; ++k) th.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
    if (how < 2) { for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) if ((i * 7 + j) % T == k) { if (how) b.m(i, j) = y(i, j); else b.m.put(i, j, y(i, j)); } }
    else if (how == 2) { for (int i = k; i < x.r; i += T) { vector<E, dynamic<>> v(x.c); for (int j = 0; j < x.c; ++j) v[j] = y(i, j); b.m.set_row(i, v); } }
    else for (int j = k; j < x.c; j += T) { vector<E, dynamic<>> v(x.r); for (int i = 0; i < x.r; ++i) v[i] = y(i, j); b.m.set_col(j, v); } });
  for (auto& t : th) t.join(); expect_mat(b.cr(), y, "after writes to different elements");
}
}  // namespace p26
using namespace p26;
