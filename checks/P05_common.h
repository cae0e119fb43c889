#pragma once
// P05: vector expressions.  The same generic lambda is applied to the CML
// operands and, element by element, to plain scalars.
template <class T, class U> auto had(T&& a, U&& b) {
  if constexpr (std::is_arithmetic_v<std::decay_t<T>>) return a * b;
  else return cml::hadamard(std::forward<T>(a), std::forward<U>(b));
}
#define FA std::forward<A>(a)
#define FB std::forward<B>(b)
#define FC std::forward<C>(c)
#define FS std::forward<S>(s)
#define FT std::forward<T>(t)
template <int K, class A, class B, class C, class S, class T>
auto shape_of(A&& a, B&& b, C&& c, S&& s, T&& t) {
  if constexpr (K == 0) return FA + FB;
  else if constexpr (K == 1) return FA - FB;
  else if constexpr (K == 2) return -FA;
  else if constexpr (K == 3) return +FA;
  else if constexpr (K == 4) return FA * FS;
  else if constexpr (K == 5) return FS * FA;
  else if constexpr (K == 6) return FA / FS;
  else if constexpr (K == 7) return had(FA, FB);
  else if constexpr (K == 8) return FA + FB - FC;
  else if constexpr (K == 9) return FA - (FB - FC);
  else if constexpr (K == 10) return FS * (FA + FB) - FC / FT;
  else if constexpr (K == 11) return -(FA * FS - FB) + had(FC, FA);
  else if constexpr (K == 12) return -(-FA);
  else if constexpr (K == 13) return had(FA + FB, FC) * FS;
  else if constexpr (K == 14) return (FA - FB) / FS + FT * FC;
  else if constexpr (K == 15) return had(FA, had(FB, FC));
  else if constexpr (K == 16) return FA + (FB + (FC - FS * FA));
  else if constexpr (K == 17) return -FA / FS - +FB;
  else if constexpr (K == 18) return FS * (FT * FA) + had(FB, 2.0 * FC);
  else return (FA * 3 - FB) * FS - (FC - 1.5f * FA) / 2;
}
constexpr int NSHAPE = 20;
// shapes that mention an operand more than once are used with lvalues only
constexpr bool reuse(int k) { return k == 11 || k == 16 || k == 19; }

template <int MODE, class V> decltype(auto) cat(VBox<V>& b) {
  if constexpr (MODE == 0) return (b.v);
  else if constexpr (MODE == 1) return static_cast<const V&>(b.v);
  else return std::move(b.v);
}
template <class V> std::vector<elem_t<V>> operand(Gen& g, int n) { return exact_vec<elem_t<V>>(g, n, 6); }
template <class A, class B, class C> int common_n(Gen& g) {
  return vspec<A>::n > 0 ? vspec<A>::n : vspec<B>::n > 0 ? vspec<B>::n : vspec<C>::n > 0 ? vspec<C>::n : g.szh(1, 8, 80);
}

template <int K, int MA, int MB, int MC, class A, class B, class C, class S, class T>
void expr_case(Gen& g) {
  if constexpr (reuse(K) && (MA == 2 || MB == 2 || MC == 2)) expr_case<K - 1, MA, MB, MC, A, B, C, S, T>(g);
  else {
    int n = common_n<A, B, C>(g);
    auto xa = operand<A>(g, n); auto xb = operand<B>(g, n); auto xc = operand<C>(g, n);
    S s = fw::exact_nonzero<S>(g, 6); T t = fw::exact_nonzero<T>(g, 6);
    g.note([&](auto& o) { o << "shape " << K << " a=" << fw::show(xa) << " b=" << fw::show(xb) << " c=" << fw::show(xc) << " s=" << +s << " t=" << +t; });
    g.nontrivial(varied(xa) || varied(xb));
    VBox<A> a(xa); VBox<B> b(xb); VBox<C> c(xc);
    auto e = shape_of<K>(cat<MA>(a), cat<MB>(b), cat<MC>(c), s, std::move(t));
    // scalars and consumed temporaries may change afterwards: the expression
    // already owns them
    S s0 = s; T t0 = t; s = S(91); t = T(93);
    if constexpr (MA == 2 && vspec<A>::kind == 'F') a.v.fill(elem_t<A>(77));
    if constexpr (MB == 2 && vspec<B>::kind == 'F') b.v.fill(elem_t<B>(78));
    if constexpr (MC == 2 && vspec<C>::kind == 'F') c.v.fill(elem_t<C>(79));
    if constexpr (MA == 2 && vspec<A>::kind == 'D') a.v = A();
    if constexpr (MB == 2 && vspec<B>::kind == 'D') b.v = B();
    using W = decltype(shape_of<K>(xa[0], xb[0], xc[0], s0, t0));
    using G = std::decay_t<decltype(e[0])>;
    static_assert(std::is_same_v<W, G>, "element type of the expression follows C++ promotion");
    std::vector<W> w;
    for (int i = 0; i < n; ++i) w.push_back(shape_of<K>(xa[i], xb[i], xc[i], s0, t0));
    REQUIRE(e.size() == n, << "size");
    for (int i = 0; i < n; ++i) {
      REQUIRE(fw::same<W>(e[i], w[i]), << "expr[" << i << "] = " << +e[i] << " want " << +w[i]);
      REQUIRE(fw::same<W>(e.get(i), w[i]), << "expr.get(" << i << ")");
    }
    vector<W, dynamic<>> d = e; expect_vec(d, w, "dynamic result");
    vector<W, dynamic<>> d2((int)g.range(0, 4)); d2.zero(); d2 = e; expect_vec(d2, w, "assigned result");
    auto e2 = e; expect_vec(e2, w, "copied node");
    auto e3 = std::move(e2); expect_vec(e3, w, "moved node");
    auto neg = -e3; for (int i = 0; i < n; ++i) REQUIRE(neg[i] == -w[i], << "negated named node");
    cml::temporary_of_t<decltype(e)> tmp(e); expect_vec(tmp, w, "temporary");
    // operands are unchanged
    if constexpr (MA != 2) expect_vec(a.cr(), xa, "operand a");
    if constexpr (MB != 2) expect_vec(b.cr(), xb, "operand b");
    if constexpr (MC != 2) expect_vec(c.cr(), xc, "operand c");
    // nodes are lazy windows on lvalue operands only: a later write shows
  }
}
template <int MA, int MB, int MC, class A, class B, class C, class S, class T> void exprs(Gen& g) {
  using F = void (*)(Gen&);
  static const F t[NSHAPE] = {
    expr_case<0, MA, MB, MC, A, B, C, S, T>, expr_case<1, MA, MB, MC, A, B, C, S, T>, expr_case<2, MA, MB, MC, A, B, C, S, T>, expr_case<3, MA, MB, MC, A, B, C, S, T>,
    expr_case<4, MA, MB, MC, A, B, C, S, T>, expr_case<5, MA, MB, MC, A, B, C, S, T>, expr_case<6, MA, MB, MC, A, B, C, S, T>, expr_case<7, MA, MB, MC, A, B, C, S, T>,
    expr_case<8, MA, MB, MC, A, B, C, S, T>, expr_case<9, MA, MB, MC, A, B, C, S, T>, expr_case<10, MA, MB, MC, A, B, C, S, T>, expr_case<11, MA, MB, MC, A, B, C, S, T>,
    expr_case<12, MA, MB, MC, A, B, C, S, T>, expr_case<13, MA, MB, MC, A, B, C, S, T>, expr_case<14, MA, MB, MC, A, B, C, S, T>, expr_case<15, MA, MB, MC, A, B, C, S, T>,
    expr_case<16, MA, MB, MC, A, B, C, S, T>, expr_case<17, MA, MB, MC, A, B, C, S, T>, expr_case<18, MA, MB, MC, A, B, C, S, T>, expr_case<19, MA, MB, MC, A, B, C, S, T>};
  t[g.below(NSHAPE)](g);
}

// compound forms: A op= B / expression / scalar, lvalue and temporary
template <class A, class B, class S> void compound(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>;
  int n = common_n<A, B, A>(g);
  auto xa = operand<A>(g, n); auto xb = operand<B>(g, n);
  S s = fw::exact_nonzero<S>(g, 6);
  int op = (int)g.below(22);
  g.note([&](auto& o) { o << "op " << op << " a=" << fw::show(xa) << " b=" << fw::show(xb) << " s=" << +s; });
  g.nontrivial(varied(xa) || varied(xb));
  VBox<A> ba(xa); VBox<B> bb(xb);
  A& a = *ba; const B& b = bb.cr();
  auto w = xa;
  auto each = [&](auto f) { for (int i = 0; i < n; ++i) w[i] = (EA)f(i); };
  constexpr bool own = vspec<A>::kind == 'F' || vspec<A>::kind == 'D';
  int i = (int)g.below(n);
  switch (op) {
    case 0: { A& r = (a += b); REQUIRE(&r == &a, << "returns *this"); each([&](int i) { return xa[i] + xb[i]; }); break; }
    case 1: { A& r = (a -= b); REQUIRE(&r == &a, << "returns *this"); each([&](int i) { return xa[i] - xb[i]; }); break; }
    case 2: { A& r = (a *= s); REQUIRE(&r == &a, << "returns *this"); each([&](int i) { return xa[i] * s; }); break; }
    case 3: { A& r = (a /= s); REQUIRE(&r == &a, << "returns *this"); each([&](int i) { return xa[i] / s; }); break; }
    case 4: a.minimize(b); each([&](int i) { return std::min(xa[i], (EA)xb[i]); }); break;
    case 5: a.maximize(b); each([&](int i) { return std::max(xa[i], (EA)xb[i]); }); break;
    case 6: a += b * s; each([&](int i) { return xa[i] + xb[i] * s; }); break;
    case 7: a -= -b; each([&](int i) { return xa[i] - -xb[i]; }); break;
    case 8: a += a; each([&](int i) { return xa[i] + xa[i]; }); break;
    case 9: a -= a; each([&](int i) { return xa[i] - xa[i]; }); break;
    case 10: a *= a[i]; each([&](int k) { return xa[k] * xa[i]; }); break;
    case 11: if (xa[i] != EA(0)) { a /= a[i]; each([&](int k) { return xa[k] / xa[i]; }); } break;
    case 12: a *= a.get(i); each([&](int k) { return xa[k] * xa[i]; }); break;
    case 13: (a += b) *= s; each([&](int i) { return (EA)(xa[i] + xb[i]) * s; }); break;
    case 14: a += b - a; each([&](int i) { return xa[i] + (xb[i] - xa[i]); }); break;
    case 15: if constexpr (own) { A r = (A(a) += b); each([&](int i) { return xa[i] + xb[i]; }); expect_vec(r, w, "temporary +="); w = xa; } break;
    case 16: if constexpr (own) { A r = (A(a) -= b); each([&](int i) { return xa[i] - xb[i]; }); expect_vec(r, w, "temporary -="); w = xa; } break;
    case 17: if constexpr (own) { A r = (A(a) *= s); each([&](int i) { return xa[i] * s; }); expect_vec(r, w, "temporary *="); w = xa; } break;
    case 18: if constexpr (own) { A r = (A(a) /= s); each([&](int i) { return xa[i] / s; }); expect_vec(r, w, "temporary /="); w = xa; } break;
    case 19: if constexpr (own) { A r = A(a).minimize(b); each([&](int i) { return std::min(xa[i], (EA)xb[i]); }); expect_vec(r, w, "temporary minimize"); A q = A(a).maximize(b); each([&](int i) { return std::max(xa[i], (EA)xb[i]); }); expect_vec(q, w, "temporary maximize"); w = xa; } break;
    case 20: a.minimize(a); break;
    default: a = a * s + b; each([&](int i) { return xa[i] * s + xb[i]; }); break;
  }
  expect_vec(a, w, "left operand");
  expect_vec(b, xb, "right operand unchanged");
}

// lazily evaluated nodes over live lvalues, kept by name and nested
template <class A, class B> void named_nodes(Gen& g) {
  int n = common_n<A, B, A>(g);
  auto xa = operand<A>(g, n); auto xb = operand<B>(g, n);
  g.nontrivial(varied(xa) || varied(xb));
  g.note([&](auto& o) { o << "a=" << fw::show(xa) << " b=" << fw::show(xb); });
  VBox<A> ba(xa); VBox<B> bb(xb);
  A& a = *ba; B& b = *bb;
  double k = (double)g.sym(5);
  auto e1 = a + b;
  auto e2 = e1 * k;
  auto e3 = e2 - e1;
  auto e4 = had(e3, e1) + (-e2);
  auto e5 = [&] { auto inner = a - b; return std::move(inner) * 2 + b; }();   // node that owns its parts
  for (int i = 0; i < n; ++i) {
    auto s1 = xa[i] + xb[i]; auto s2 = s1 * k; auto s3 = s2 - s1; auto s4 = s3 * s1 + (-s2); auto s5 = (xa[i] - xb[i]) * 2 + xb[i];
    REQUIRE(e1[i] == s1 && e2[i] == s2 && e3[i] == s3 && e4[i] == s4, << "named nodes at " << i << ": " << +e1[i] << " " << +e2[i] << " " << +e3[i] << " " << +e4[i]);
    REQUIRE(e5[i] == s5, << "node returned from a function at " << i);
  }
  auto o1 = cml::vector<double, dynamic<>>(e4);
  a = e1;   // elementwise self-reference
  for (int i = 0; i < n; ++i) REQUIRE(a[i] == (elem_t<A>)(xa[i] + xb[i]), << "a = a + b at " << i);
}
