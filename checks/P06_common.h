#pragma once
// P06: matrix expressions, against the same generic lambda applied to scalars.
template <class T, class U> auto had(T&& a, U&& b) {
  if constexpr (std::is_arithmetic_v<std::decay_t<T>>) return a * b;
  else return cml::hadamard(std::forward<T>(a), std::forward<U>(b));
}
template <class T> auto tr(T&& a) {
  if constexpr (std::is_arithmetic_v<std::decay_t<T>>) return a;
  else return cml::transpose(std::forward<T>(a));
}
#define FA std::forward<A>(a)
#define FB std::forward<B>(b)
#define FC std::forward<C>(c)
#define FS std::forward<S>(s)
#define FT std::forward<T>(t)
template <int K, class A, class B, class C, class S, class T>
auto shape_of(A&& a, B&& b, C&& c, S&& s, T&& t) {
  if constexpr (K == 0) return FA + FB;
  else if constexpr (K == 1) return FA - FB;
  else if constexpr (K == 2) return -FA;
  else if constexpr (K == 3) return +FA;
  else if constexpr (K == 4) return FA * FS;
  else if constexpr (K == 5) return FS * FA;
  else if constexpr (K == 6) return FA / FS;
  else if constexpr (K == 7) return had(FA, FB);
  else if constexpr (K == 8) return FA + FB - FC;
  else if constexpr (K == 9) return FA - (FB - FC);
  else if constexpr (K == 10) return FS * (FA + FB) - FC / FT;
  else if constexpr (K == 11) return -(-FA);
  else if constexpr (K == 12) return had(FA + FB, FC) * FS;
  else if constexpr (K == 13) return (FA - FB) / FS + FT * FC;
  else if constexpr (K == 14) return -FA / FS - +FB;
  else if constexpr (K == 15) return (FA * 3 - FB) * FS - (FC - 1.5f * FB) / 2;   // b twice
  else if constexpr (K == 16) return tr(FA);
  else if constexpr (K == 17) return tr(FA) + FB;
  else if constexpr (K == 18) return FS * tr(FA) - FC / FT;
  else if constexpr (K == 19) return tr(FA * FS) + FB;
  else if constexpr (K == 20) return tr(-FA);
  else if constexpr (K == 21) return tr(tr(FB)) + FC;
  else if constexpr (K == 22) return had(tr(FA), FB) - FC;
  else return -tr(FA / FS);
}
constexpr int NSHAPE = 24;
constexpr bool reuse(int k) { return k == 15; }
constexpr bool ta(int k) { return (k >= 16 && k <= 20) || k >= 22; }   // operand a appears transposed

template <int MODE, class V> decltype(auto) cat(MBox<V>& b) {
  if constexpr (MODE == 0) return (b.m);
  else if constexpr (MODE == 1) return static_cast<const V&>(b.m);
  else return std::move(b.m);
}
template <class X> Mod<melem_t<X>> operand(Gen& g, int r, int c) { Mod<melem_t<X>> m(r, c); return fill_exact(g, m, 6); }
template <class X, class Y, class Z> std::pair<int, int> common(Gen& g) {
  if (mspec<X>::r > 0) return {mspec<X>::r, mspec<X>::c};
  if (mspec<Y>::r > 0) return {mspec<Y>::r, mspec<Y>::c};
  if (mspec<Z>::r > 0) return {mspec<Z>::r, mspec<Z>::c};
  int r = g.szh(1, 5); return {r, g.szh(1, 5)};
}
template <class X> constexpr bool square_or_dyn = mspec<X>::r < 0 || mspec<X>::r == mspec<X>::c;

template <int K, int MA, int MB, int MC, class A, class B, class C, class S, class T>
void expr_case(Gen& g) {
  if constexpr ((reuse(K) && MB == 2) || (ta(K) && !square_or_dyn<A>)) expr_case<K - 1, MA, MB, MC, A, B, C, S, T>(g);
  else {
    auto [r, c] = common<A, B, C>(g);
    if constexpr (ta(K) && mspec<A>::r < 0 && mspec<B>::r < 0 && mspec<C>::r < 0) {}
    auto xa = ta(K) ? operand<A>(g, c, r) : operand<A>(g, r, c);
    auto xb = operand<B>(g, r, c); auto xc = operand<C>(g, r, c);
    S s = fw::exact_nonzero<S>(g, 6); T t = fw::exact_nonzero<T>(g, 6);
    g.note([&](auto& o) { o << "shape " << K << " a=" << show(xa) << " b=" << show(xb) << " c=" << show(xc) << " s=" << +s << " t=" << +t; });
    g.nontrivial(varied(xa.d) || varied(xb.d));
    MBox<A> ba(xa); MBox<B> bb(xb); MBox<C> bc(xc);
    auto e = shape_of<K>(cat<MA>(ba), cat<MB>(bb), cat<MC>(bc), s, std::move(t));
    S s0 = s; T t0 = t; s = S(91); t = T(93);
    if constexpr (MA == 2 && mspec<A>::kind == 'F') ba.m.fill(melem_t<A>(77));
    if constexpr (MB == 2 && mspec<B>::kind == 'F') bb.m.fill(melem_t<B>(78));
    if constexpr (MC == 2 && mspec<C>::kind == 'F') bc.m.fill(melem_t<C>(79));
    if constexpr (MA == 2 && mspec<A>::kind == 'D') ba.m = A();
    if constexpr (MB == 2 && mspec<B>::kind == 'D') bb.m = B();
    using W = decltype(shape_of<K>(xa(0, 0), xb(0, 0), xc(0, 0), s0, t0));
    using G = std::decay_t<decltype(e(0, 0))>;
    static_assert(std::is_same_v<W, G>, "element type of the expression follows C++ promotion");
    Mod<W> w(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) w(i, j) = shape_of<K>(ta(K) ? xa(j, i) : xa(i, j), xb(i, j), xc(i, j), s0, t0);
    expect_mat(e, w, "expression");
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) REQUIRE(fw::same<W>(e.get(i, j), w(i, j)), << "expr.get");
    matrix<W, dynamic<>, row_basis, row_major> d = e; expect_mat(d, w, "dynamic result");
    matrix<W, dynamic<>, col_basis, col_major> d2((int)g.range(0, 3), 2); d2.zero(); d2 = e; expect_mat(d2, w, "assigned result");
    auto e2 = e; expect_mat(e2, w, "copied node");
    auto e3 = std::move(e2); expect_mat(e3, w, "moved node");
    auto neg = -e3; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) REQUIRE(neg(i, j) == -w(i, j), << "negated named node");
    // an expression of mixed basis or layout has no temporary type of its own
    using TR = cml::matrix_traits<decltype(e)>;
    if constexpr (!std::is_same_v<typename TR::basis_tag, cml::any_basis> && !std::is_same_v<typename TR::layout_tag, cml::any_major>) {
      cml::temporary_of_t<decltype(e)> tmp(e); expect_mat(tmp, w, "temporary");
    }
    if constexpr (MA != 2) expect_mat(ba.cr(), xa, "operand a");
    if constexpr (MB != 2) expect_mat(bb.cr(), xb, "operand b");
    if constexpr (MC != 2) expect_mat(bc.cr(), xc, "operand c");
  }
}
template <int MA, int MB, int MC, class A, class B, class C, class S, class T, int... K>
void pick_shape(Gen& g, std::integer_sequence<int, K...>) {
  using F = void (*)(Gen&);
  static const F t[] = {expr_case<K, MA, MB, MC, A, B, C, S, T>...};
  t[g.below(NSHAPE)](g);
}
template <int MA, int MB, int MC, class A, class B, class C, class S, class T> void exprs(Gen& g) {
  pick_shape<MA, MB, MC, A, B, C, S, T>(g, std::make_integer_sequence<int, NSHAPE>());
}

template <class A, class B, class S> void compound(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<B>;
  auto [r, c] = common<A, B, A>(g);
  auto xa = operand<A>(g, r, c); auto xb = operand<B>(g, r, c);
  S s = fw::exact_nonzero<S>(g, 6);
  int op = (int)g.below(21);
  g.note([&](auto& o) { o << "op " << op << " a=" << show(xa) << " b=" << show(xb) << " s=" << +s; });
  g.nontrivial(varied(xa.d) || varied(xb.d));
  MBox<A> ba(xa); MBox<B> bb(xb);
  A& a = *ba; const B& b = bb.cr();
  auto w = xa;
  int n = (int)w.d.size();
  auto each = [&](auto f) { for (int k = 0; k < n; ++k) w.d[k] = (EA)f(k); };
  const auto& ad = xa.d; const auto& bd = xb.d;
  constexpr bool own = mspec<A>::kind == 'F' || mspec<A>::kind == 'D';
  int i = (int)g.below(r), j = (int)g.below(c);
  EA aij = xa(i, j);
  switch (op) {
    case 0: { A& q = (a += b); REQUIRE(&q == &a, << "returns *this"); each([&](int k) { return ad[k] + bd[k]; }); break; }
    case 1: { A& q = (a -= b); REQUIRE(&q == &a, << "returns *this"); each([&](int k) { return ad[k] - bd[k]; }); break; }
    case 2: { A& q = (a *= s); REQUIRE(&q == &a, << "returns *this"); each([&](int k) { return ad[k] * s; }); break; }
    case 3: { A& q = (a /= s); REQUIRE(&q == &a, << "returns *this"); each([&](int k) { return ad[k] / s; }); break; }
    case 4: a += b * s; each([&](int k) { return ad[k] + bd[k] * s; }); break;
    case 5: a -= -b; each([&](int k) { return ad[k] - -bd[k]; }); break;
    case 6: a += a; each([&](int k) { return ad[k] + ad[k]; }); break;
    case 7: a -= a; each([&](int k) { return ad[k] - ad[k]; }); break;
    case 8: a *= a(i, j); each([&](int k) { return ad[k] * aij; }); break;
    case 9: if (aij != EA(0)) { a /= a(i, j); each([&](int k) { return ad[k] / aij; }); } break;
    case 10: a *= a.get(i, j); each([&](int k) { return ad[k] * aij; }); break;
    case 11: (a += b) *= s; each([&](int k) { return (EA)(ad[k] + bd[k]) * s; }); break;
    case 12: a += b - a; each([&](int k) { return ad[k] + (bd[k] - ad[k]); }); break;
    case 13: if constexpr (own) { A q = (A(a) += b); each([&](int k) { return ad[k] + bd[k]; }); expect_mat(q, w, "temporary +="); w = xa; } break;
    case 14: if constexpr (own) { A q = (A(a) -= b); each([&](int k) { return ad[k] - bd[k]; }); expect_mat(q, w, "temporary -="); w = xa; } break;
    case 15: if constexpr (own) { A q = (A(a) *= s); each([&](int k) { return ad[k] * s; }); expect_mat(q, w, "temporary *="); w = xa; } break;
    case 16: if constexpr (own) { A q = (A(a) /= s); each([&](int k) { return ad[k] / s; }); expect_mat(q, w, "temporary /="); w = xa; } break;
    case 17: if constexpr (square_or_dyn<A>) { A& q = a.transpose(); REQUIRE(&q == &a, << "returns *this"); w = xa.tr(); } break;
    case 18: if constexpr (own && square_or_dyn<A>) { A q = A(a).transpose(); expect_mat(q, xa.tr(), "temporary transpose"); } break;
    case 19: if constexpr (square_or_dyn<A> ) { if (r == c || mspec<B>::r < 0) { // += of a transposed operand
        auto xt = xb.tr(); MBox<B> bt(r == c ? xt : xt); a += cml::transpose(bt.cr()); each([&](int k) { return ad[k] + bd[k]; }); } } break;
    default: a = a * s + b; each([&](int k) { return ad[k] * s + bd[k]; }); break;
  }
  expect_mat(a, w, "left operand");
  expect_mat(b, xb, "right operand unchanged");
}
template <class A, class B> void named_nodes(Gen& g) {
  auto [r, c] = common<A, B, A>(g);
  auto xa = operand<A>(g, r, c); auto xb = operand<B>(g, r, c);
  g.nontrivial(varied(xa.d) || varied(xb.d));
  g.note([&](auto& o) { o << "a=" << show(xa) << " b=" << show(xb); });
  MBox<A> ba(xa); MBox<B> bb(xb);
  A& a = *ba; B& b = *bb;
  double k = (double)g.sym(5);
  auto e1 = a + b; auto e2 = e1 * k; auto e3 = cml::transpose(e2 - e1); auto e4 = cml::transpose(e3) + (-e2);
  auto e5 = [&] { auto inner = a - b; return cml::transpose(std::move(inner) * 2 + b); }();
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
    auto x = xa(i, j); auto y = xb(i, j);
    auto s1 = x + y; auto s2 = s1 * k; auto s3 = s2 - s1; auto s4 = s3 + (-s2); auto s5 = (x - y) * 2 + y;
    REQUIRE(e1(i, j) == s1 && e2(i, j) == s2 && e3(j, i) == s3 && e4(i, j) == s4 && e5(j, i) == s5, << "named nodes at " << i << "," << j);
  }
  a = e1;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) REQUIRE(a(i, j) == (melem_t<A>)(xa(i, j) + xb(i, j)), << "a = a + b");
}
