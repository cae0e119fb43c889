#pragma once
#include "geom.h"
// P24: constants and fills.  Previous contents are arbitrary (NaN, infinities, extremes).
template <class E> E dirt(Gen& g) { if constexpr (std::is_floating_point_v<E>) switch (g.below(5)) { case 0: return std::numeric_limits<E>::quiet_NaN(); case 1: return std::numeric_limits<E>::infinity(); case 2: return 1; case 3: return -E(0); default: return fw::any_value<E>(g); } else return fw::any_value<E>(g); }
template <class E> E value(Gen& g) { return g.below(6) == 0 ? (E)std::numeric_limits<E>::lowest() : fw::any_value<E>(g); }
template <class E> bool bits(E a, E b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
template <class V> void vec(Gen& g) {
  using E = elem_t<V>; const int n = pick_n<V>(g, 0, 10); std::vector<E> x(n); for (auto& e : x) e = dirt<E>(g); VBox<V> v(x); int op = (int)g.below(n ? 4 : 2), i = n ? (int)g.below(n) : 0; E c = value<E>(g); g.nontrivial(n > 1); g.note([&](auto& o) { o << n << " elements, operation " << op << " index " << i << " value " << +c; }); static const char* nm[] = {"zero", "fill", "cardinal", "fill with an element"}; g.label(nm[op]);
  std::vector<E> want(n, E(0)); if (op == 1) want.assign(n, c); if (op == 2) want[i] = E(1); if (op == 3) { if (x[i] != x[i]) v.v[i] = x[i] = c; want.assign(n, x[i]); }
  V* r = nullptr; switch (op) { case 0: r = &v.v.zero(); break; case 1: r = &v.v.fill(c); break; case 2: r = &v.v.cardinal(i); break; default: r = &v.v.fill(v.v[i]); } REQUIRE(r == &v.v, << nm[op] << " must return the vector"); expect_vec(v.cr(), want, nm[op]);
  auto tmp = [&](auto&& mk) { V t = op == 0 ? V(mk().zero()) : op == 2 ? V(mk().cardinal(i)) : V(mk().fill(want.empty() ? c : want[0])); expect_vec(t, want, "of a temporary"); };
  if constexpr (vspec<V>::kind == 'F') tmp([&] { V t; for (int k = 0; k < n; ++k) t[k] = x[k]; return t; }); if constexpr (vspec<V>::kind == 'D') tmp([&] { V t(n); for (int k = 0; k < n; ++k) t[k] = x[k]; return t; });
}
template <class M> void mat(Gen& g) {
  using E = melem_t<M>; auto x = shape<M>(g, 1, 6); for (auto& e : x.d) e = dirt<E>(g); MBox<M> m(x); int op = (int)g.below(4), a = (int)g.below(x.r), b = (int)g.below(x.c); E c = value<E>(g); g.nontrivial(x.r != x.c); g.note([&](auto& o) { o << x.r << "x" << x.c << " operation " << op << " value " << +c; }); static const char* nm[] = {"zero", "fill", "identity", "fill with an element"}; g.label(nm[op]);
  Mod<E> want(x.r, x.c); for (auto& e : want.d) e = 0; if (op == 1) for (auto& e : want.d) e = c; if (op == 2) for (int k = 0; k < std::min(x.r, x.c); ++k) want(k, k) = 1; if (op == 3) { if (x(a, b) != x(a, b)) m.m(a, b) = x(a, b) = c; for (auto& e : want.d) e = x(a, b); }
  M* r = nullptr; switch (op) { case 0: r = &m.m.zero(); break; case 1: r = &m.m.fill(c); break; case 2: r = &m.m.identity(); break; default: r = &m.m.fill(m.m(a, b)); } REQUIRE(r == &m.m, << nm[op] << " must return the matrix"); expect_mat(m.cr(), want, nm[op]);
  auto tmp = [&](auto&& mk) { M t = op == 0 ? M(mk().zero()) : op == 2 ? M(mk().identity()) : M(mk().fill(want.d[0])); expect_mat(t, want, "of a temporary"); };
  if constexpr (mspec<M>::kind == 'F') tmp([&] { M t; for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) t(i, j) = x(i, j); return t; }); if constexpr (mspec<M>::kind == 'D') tmp([&] { M t(x.r, x.c); for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) t(i, j) = x(i, j); return t; });
  if constexpr (mspec<M>::kind == 'D') { M e; e.zero(); e.identity(); e.fill(c); REQUIRE(e.rows() == 0 && e.cols() == 0, << "empty matrix changed shape"); }
}
template <class Q> void quat(Gen& g) {
  using E = qelem_t<Q>; Q q; for (int i = 0; i < 4; ++i) q[i] = dirt<E>(g); const Q p = q; bool z = g.coin(); g.nontrivial(true); g.note([&](auto& o) { o << (z ? "zero" : "identity"); }); H want{z ? 0.0L : 1, 0, 0, 0}; g.label(z ? "zero" : "identity");
  Q& r = z ? q.zero() : q.identity(); REQUIRE(&r == &q, << "must return the quaternion"); expect_q(q, want, "member"); REQUIRE(q.w() == want.w && q.x() == 0 && q.y() == 0 && q.z() == 0 && q.real() == want.w, << "components");
  Q t = z ? Q(Q(p).zero()) : Q(Q(p).identity()); expect_q(t, want, "of a temporary"); if (!z) { auto i = cml::identity(p); static_assert(std::is_same_v<decltype(i), Q>); expect_q(i, want, "identity(q)"); for (int k = 0; k < 4; ++k) REQUIRE(std::memcmp(&p.data()[k], &p[k], sizeof(E)) == 0); if constexpr (!std::is_integral_v<E>) { auto n = cml::identity(-p); expect_q(n, want, "identity(-q)"); } }
}
// free generators
template <class V> std::vector<double> eq(const V& v, int n) { static_assert(std::is_same_v<V, vector<double, cml::compiled<V::array_size>>>); REQUIRE(v.size() == n && V::array_size == n, << "size " << v.size()); return rd(v); }
template <int N> void freev(Gen& g) {
  int i = (int)g.below(N); g.nontrivial(N > 1); g.note([&](auto& o) { o << N << "D axis " << i; }); std::vector<double> z(N, 0.0), a(N, 0.0); a[i] = 1; REQUIRE(eq(cml::zero<N>(), N) == z, << "zero<N>"); REQUIRE(eq(cml::axis<N>(i), N) == a, << "axis<N>(" << i << ")");
  auto ax = [&](int k) { std::vector<double> r(N, 0.0); r[k] = 1; return r; };
  if constexpr (N == 2) { REQUIRE(eq(cml::zero_2D(), 2) == z); REQUIRE(eq(cml::axis_2D(i), 2) == a); REQUIRE(eq(cml::x_axis_2D(), 2) == ax(0) && eq(cml::y_axis_2D(), 2) == ax(1), << "2D axes"); }
  if constexpr (N == 3) { REQUIRE(eq(cml::zero_3D(), 3) == z); REQUIRE(eq(cml::axis_3D(i), 3) == a); REQUIRE(eq(cml::x_axis_3D(), 3) == ax(0) && eq(cml::y_axis_3D(), 3) == ax(1) && eq(cml::z_axis_3D(), 3) == ax(2), << "3D axes"); }
  if constexpr (N == 4) REQUIRE(eq(cml::zero_4D(), 4) == z);
}
template <int R, int C> void freem(Gen& g) {
  (void)g.coin(); g.nontrivial(true); auto ck = [&](const auto& m, bool id) { REQUIRE(m.rows() == R && m.cols() == C, << m.rows() << "x" << m.cols()); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) REQUIRE(m(i, j) == (id && i == j ? 1 : 0), << (id ? "identity" : "zero") << " element (" << i << "," << j << ") is " << m(i, j)); };
  ck(cml::zero<R, C>(), false); ck(cml::identity<R, C>(), true); if constexpr (R == C && R == 2) { ck(cml::zero_2x2(), false); ck(cml::identity_2x2(), true); } if constexpr (R == C && R == 3) { ck(cml::zero_3x3(), false); ck(cml::identity_3x3(), true); } if constexpr (R == C && R == 4) { ck(cml::zero_4x4(), false); ck(cml::identity_4x4(), true); }
  static_assert(std::is_same_v<decltype(cml::identity<R, C>()), cml::matrix<double, cml::compiled<R, C>>>);
}
