#pragma once
// P07: dot, cross, perp_dot, triple_product, outer against exact definitions.
template <class... E> using prom = decltype((... * E()));
using LV = std::vector<long double>;
template <class T> LV lv(const std::vector<T>& x) { return LV(x.begin(), x.end()); }
inline long double rdot(const LV& a, const LV& b) { long double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline LV rcross(const LV& a, const LV& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }

template <class A, class B> int both_n(Gen& g, int want = 0) {
  if (want) return want;
  return vspec<A>::n > 0 ? vspec<A>::n : vspec<B>::n > 0 ? vspec<B>::n : g.chance(1, 20) ? (int)g.range(1, 40) : (int)g.range(1, 8);
}
template <class V> constexpr bool owns = vspec<V>::kind == 'F' || vspec<V>::kind == 'D';

template <class A, class B> void dots(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>; using W = prom<EA, EB>;
  int n = both_n<A, B>(g);
  auto xa = exact_vec<EA>(g, n, 8); auto xb = exact_vec<EB>(g, n, 8);
  g.nontrivial(varied(xa) && varied(xb));
  g.note([&](auto& o) { o << "a=" << fw::show(xa) << " b=" << fw::show(xb); });
  VBox<A> a(xa); VBox<B> b(xb);
  long double w = rdot(lv(xa), lv(xb));
  static_assert(std::is_same_v<decltype(cml::dot(a.cr(), b.cr())), W>, "dot promotes");
  REQUIRE(cml::dot(a.cr(), b.cr()) == w, << "dot " << cml::dot(a.cr(), b.cr()) << " want " << w);
  REQUIRE(cml::dot(*a, *b) == w, << "dot lvalues");
  REQUIRE(cml::dot(b.cr(), a.cr()) == w, << "dot symmetric");
  REQUIRE(cml::dot(-*a, *b) == -w, << "dot of an expression");
  REQUIRE(cml::dot(*a + *a, *b * 3) == 6 * w, << "bilinear");
  REQUIRE(cml::dot(a.cr(), a.cr()) == rdot(lv(xa), lv(xa)), << "dot with itself");
  if constexpr (owns<A> && owns<B>) REQUIRE(cml::dot(A(*a), B(*b)) == w, << "dot of temporaries");
}
template <class A, class B> void crosses(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>; using W = prom<EA, EB>;
  auto xa = exact_vec<EA>(g, 3, 8); auto xb = exact_vec<EB>(g, 3, 8);
  g.nontrivial(varied(xa) && varied(xb));
  g.note([&](auto& o) { o << "a=" << fw::show(xa) << " b=" << fw::show(xb); });
  VBox<A> a(xa); VBox<B> b(xb);
  auto wl = rcross(lv(xa), lv(xb));
  std::vector<W> w; for (auto e : wl) w.push_back((W)e);
  auto neg = w; for (auto& e : neg) e = -e;
  auto e = cml::cross(a.cr(), b.cr());
  static_assert(std::is_same_v<std::decay_t<decltype(e[0])>, W>, "cross promotes");
  expect_vec(e, w, "cross");
  expect_vec(cml::cross(*a, *b), w, "cross lvalues");
  expect_vec(cml::cross(b.cr(), a.cr()), neg, "cross antisymmetric");
  expect_vec(-cml::cross(*b, *a), w, "negated cross");
  expect_vec(cml::cross(*a, *a), std::vector<EA>(3, EA(0)), "cross with itself");
  expect_vec(cml::cross(-*a, *b), neg, "cross of an expression");
  { std::vector<W> w6; for (auto x : wl) w6.push_back((W)(6 * x)); expect_vec(cml::cross(*a * 2, 3 * *b), w6, "cross of scaled temporaries"); }
  REQUIRE(cml::dot(*a, cml::cross(*a, *b)) == 0 && cml::dot(cml::cross(*a, *b), *b) == 0, << "orthogonal");
  vector<W, dynamic<>> d = cml::cross(*a, *b); expect_vec(d, w, "dynamic result");
  vector<W, fixed<3>> f = cml::cross(a.cr(), *b); expect_vec(f, w, "fixed result");
  cml::temporary_of_t<decltype(e)> t(e); expect_vec(t, w, "temporary");
  // nodes own their temporary operands
  if constexpr (owns<A>) { A ta(*a); auto n1 = cml::cross(std::move(ta), *b); if constexpr (vspec<A>::kind == 'F') ta.fill(EA(9)); expect_vec(n1, w, "cross(temporary,lvalue)"); auto n3 = n1; expect_vec(n3, w, "copied node"); auto n4 = std::move(n3); expect_vec(n4, w, "moved node"); }
  if constexpr (owns<B>) { B tb(*b); auto n2 = cml::cross(*a, std::move(tb)); if constexpr (vspec<B>::kind == 'F') tb.fill(EB(9)); expect_vec(n2, w, "cross(lvalue,temporary)"); }
  if constexpr (owns<A> && owns<B>) { auto n = cml::cross(A(*a), B(*b)); expect_vec(n, w, "cross(temporary,temporary)"); expect_vec(cml::cross(A(*a), B(*b)) + cml::cross(B(*b), A(*a)), std::vector<W>(3, W(0)), "sum of nodes"); }
  // distributive / Lagrange / Jacobi on exact values
  auto xc = exact_vec<EB>(g, 3, 4); VBox<B> c(xc);
  { auto l = cml::cross(*a, *b + *c); auto r = cml::cross(*a, *b) + cml::cross(*a, *c); for (int i = 0; i < 3; ++i) REQUIRE(l[i] == r[i], << "distributive"); }
  auto tp = rdot(lv(xa), rcross(lv(xb), lv(xc)));
  REQUIRE(cml::dot(*a, cml::cross(*b, *c)) == tp, << "triple via cross");
  expect_vec(a.cr(), xa, "operand a"); expect_vec(b.cr(), xb, "operand b");
}
template <class A, class B> void perps(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>; using W = prom<EA, EB>;
  auto xa = exact_vec<EA>(g, 2, 12); auto xb = exact_vec<EB>(g, 2, 12);
  g.nontrivial(varied(xa) && varied(xb));
  g.note([&](auto& o) { o << "a=" << fw::show(xa) << " b=" << fw::show(xb); });
  VBox<A> a(xa); VBox<B> b(xb);
  long double w = (long double)xa[0] * xb[1] - (long double)xa[1] * xb[0];
  static_assert(std::is_same_v<decltype(cml::perp_dot(a.cr(), b.cr())), W>, "perp_dot promotes");
  REQUIRE(cml::perp_dot(a.cr(), b.cr()) == w, << "perp_dot " << +cml::perp_dot(a.cr(), b.cr()) << " want " << w);
  REQUIRE(cml::perp_dot(*b, *a) == -w, << "antisymmetric");
  REQUIRE(cml::perp_dot(*a, *a) == 0, << "with itself");
  REQUIRE(cml::perp_dot(-*a, *b * 2) == -2 * w, << "expressions");
  if constexpr (owns<A> && owns<B>) REQUIRE(cml::perp_dot(A(*a), B(*b)) == w, << "temporaries");
}
template <class A, class B, class C> void triples(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>; using EC = elem_t<C>; using W = prom<EA, EB, EC>;
  auto xa = exact_vec<EA>(g, 3, 5); auto xb = exact_vec<EB>(g, 3, 5); auto xc = exact_vec<EC>(g, 3, 5);
  g.nontrivial(varied(xa) && varied(xb) && varied(xc));
  g.note([&](auto& o) { o << "a=" << fw::show(xa) << " b=" << fw::show(xb) << " c=" << fw::show(xc); });
  VBox<A> a(xa); VBox<B> b(xb); VBox<C> c(xc);
  long double w = rdot(lv(xa), rcross(lv(xb), lv(xc)));
  static_assert(std::is_same_v<decltype(cml::triple_product(a.cr(), b.cr(), c.cr())), W>, "triple_product promotes");
  REQUIRE(cml::triple_product(a.cr(), b.cr(), c.cr()) == w, << "triple " << +cml::triple_product(*a, *b, *c) << " want " << w);
  REQUIRE(cml::triple_product(*b, *c, *a) == w && cml::triple_product(*c, *a, *b) == w, << "cyclic");
  REQUIRE(cml::triple_product(*b, *a, *c) == -w, << "swap");
  REQUIRE(cml::triple_product(-*a, *b, *c * 2) == -2 * w, << "expressions");
  if constexpr (owns<A> && owns<B> && owns<C>) REQUIRE(cml::triple_product(A(*a), B(*b), C(*c)) == w, << "temporaries");
  matrix<double, fixed<3, 3>> m; m.set_row(0, *a); m.set_row(1, *b); m.set_row(2, *c);
  REQUIRE(cml::determinant(m) == w, << "determinant of the operands");
}
template <class A, class B> void outers(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>; using W = prom<EA, EB>;
  int na = pick_n<A>(g, 1, 6), nb = pick_n<B>(g, 1, 6);
  auto xa = exact_vec<EA>(g, na, 12); auto xb = exact_vec<EB>(g, nb, 12);
  g.nontrivial(varied(xa) && varied(xb));
  g.note([&](auto& o) { o << "a=" << fw::show(xa) << " b=" << fw::show(xb); });
  VBox<A> a(xa); VBox<B> b(xb);
  Mod<W> w(na, nb);
  for (int i = 0; i < na; ++i) for (int j = 0; j < nb; ++j) w(i, j) = (W)((W)xa[i] * (W)xb[j]);
  auto e = cml::outer(a.cr(), b.cr());
  static_assert(std::is_same_v<std::decay_t<decltype(e(0, 0))>, W>, "outer promotes");
  expect_mat(e, w, "outer");
  expect_mat(cml::outer(*a, *b), w, "outer lvalues");
  expect_mat(cml::outer(*b, *a), w.tr(), "outer(b,a) is the transpose");
  expect_mat(cml::transpose(cml::outer(*a, *b)), w.tr(), "transpose(outer(a,b))");
  { Mod<W> w2 = w; for (auto& x : w2.d) x = -2 * x; expect_mat(cml::outer(-*a, *b * EB(2)), w2, "outer of expressions"); }
  matrix<W, dynamic<>, row_basis, row_major> d = cml::outer(*a, *b); expect_mat(d, w, "row-major result");
  matrix<W, dynamic<>, col_basis, col_major> d2(1, 1); d2 = cml::outer(*a, *b); expect_mat(d2, w, "col-major result");
  if constexpr (vspec<A>::n > 0 && vspec<B>::n > 0) { matrix<W, fixed<vspec<A>::n, vspec<B>::n>, col_basis, row_major> f = cml::outer(*a, *b); expect_mat(f, w, "fixed result"); }
  if constexpr (owns<A>) { A t(*a); auto n = cml::outer(std::move(t), *b); if constexpr (vspec<A>::kind == 'F') t.fill(EA(9)); expect_mat(n, w, "outer(temporary,lvalue)"); auto n2 = n; expect_mat(n2, w, "copied node"); auto n3 = std::move(n2); expect_mat(n3, w, "moved node"); }
  if constexpr (owns<B>) { B t(*b); auto n = cml::outer(*a, std::move(t)); if constexpr (vspec<B>::kind == 'F') t.fill(EB(9)); expect_mat(n, w, "outer(lvalue,temporary)"); }
  if constexpr (owns<A> && owns<B>) expect_mat(cml::outer(A(*a), B(*b)), w, "outer(temporary,temporary)");
  expect_vec(a.cr(), xa, "operand a"); expect_vec(b.cr(), xb, "operand b");
}
