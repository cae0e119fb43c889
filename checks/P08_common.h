#pragma once
// P08: matrix products against the defining sums.
template <class... E> using prom = decltype((... * E()));
template <class T> constexpr bool mowns = mspec<T>::kind == 'F' || mspec<T>::kind == 'D';
template <class T> constexpr bool vowns = vspec<T>::kind == 'F' || vspec<T>::kind == 'D';
inline LM addm(LM a, const LM& b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] += b.d[i]; return a; }
inline LM scalem(LM a, long double s) { for (auto& x : a.d) x *= s; return a; }
inline LM colv(const std::vector<long double>& v) { LM m((int)v.size(), 1); m.d = v; return m; }
inline LM rowv(const std::vector<long double>& v) { LM m(1, (int)v.size()); m.d = v; return m; }
template <class T> std::vector<long double> lv(const std::vector<T>& x) { return {x.begin(), x.end()}; }
template <class W> Mod<W> to(const LM& m) { return m.template as<W>(); }

inline int dim(Gen& g) { return g.chance(1, 40) ? (int)g.range(21, 140) : g.chance(1, 12) ? 0 : g.chance(1, 20) ? (int)g.range(6, 20) : (int)g.range(1, 5); }

// A (r x k) * B (k x c)
template <class A, class B> void mm(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<B>; using W = prom<EA, EB>;
  int r = mspec<A>::r > 0 ? mspec<A>::r : dim(g);
  int k = mspec<A>::r > 0 ? mspec<A>::c : mspec<B>::r > 0 ? mspec<B>::r : dim(g);
  int c = mspec<B>::r > 0 ? mspec<B>::c : dim(g);
  Mod<EA> ma(r, k); Mod<EB> mb(k, c);
  fill_exact(g, ma, 8); fill_exact(g, mb, 8);
  g.nontrivial(varied(ma.d) && varied(mb.d));
  g.note([&](auto& o) { o << "A=" << show(ma) << " B=" << show(mb); });
  if (k == 0) g.label("inner size 0");
  MBox<A> a(ma); MBox<B> b(mb);
  LM la = ma.template as<long double>(), lb = mb.template as<long double>();
  LM lw = mul(la, lb); auto w = to<W>(lw);
  auto p = a.cr() * b.cr();
  using P = decltype(p);
  static_assert(std::is_same_v<std::decay_t<decltype(p(0, 0))>, W>, "product promotes");
  static_assert(std::is_same_v<P, cml::temporary_of_t<P>>, "the product is an owning matrix");
  expect_mat(p, w, "A*B");
  expect_mat(*a * *b, w, "A*B lvalues");
  if constexpr (mowns<A> && mowns<B>) expect_mat(A(*a) * B(*b), w, "A*B of temporaries");
  expect_mat((-*a) * (*b * EB(2)), to<W>(scalem(lw, -2)), "(-A)*(B*2)");
  expect_mat((*a + *a) * *b, to<W>(scalem(lw, 2)), "(A+A)*B");
  expect_mat(cml::transpose(*a * *b), to<W>(lw).tr(), "transpose(A*B)");
  if (r > 0 && c > 0 && k > 0) {
    int i = (int)g.below(r), j = (int)g.below(c);
    REQUIRE(cml::dot(cml::row(*a, i), cml::col(*b, j)) == w(i, j), << "row . column");
  }
  // the product is a value: overwriting the operands leaves it alone
  for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) (*a)(i, j) = EA(99);
  for (int i = 0; i < k; ++i) for (int j = 0; j < c; ++j) (*b)(i, j) = EB(77);
  expect_mat(p, w, "A*B after overwriting the operands");
  auto p2 = p; if (r && c) { p2(0, 0) = p2(0, 0) + W(1); expect_mat(p, w, "A*B after writing a copy"); }
}
// transpose law, association, distribution.  L: layout partner of A (any)
template <class A, class B, class C> void laws(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<B>; using EC = melem_t<C>; using W = prom<EA, EB, EC>;
  int r = mspec<A>::r > 0 ? mspec<A>::r : dim(g);
  int k = mspec<A>::r > 0 ? mspec<A>::c : mspec<B>::r > 0 ? mspec<B>::r : dim(g);
  int c = mspec<B>::r > 0 ? mspec<B>::c : mspec<C>::r > 0 ? mspec<C>::r : dim(g);
  int d = mspec<C>::r > 0 ? mspec<C>::c : dim(g);
  Mod<EA> ma(r, k); Mod<EB> mb(k, c), mb2(k, c); Mod<EC> mc(c, d);
  fill_exact(g, ma, 4); fill_exact(g, mb, 4); fill_exact(g, mb2, 4); fill_exact(g, mc, 4);
  g.nontrivial(varied(ma.d) && varied(mb.d) && varied(mc.d));
  g.note([&](auto& o) { o << "A=" << show(ma) << " B=" << show(mb) << " B'=" << show(mb2) << " C=" << show(mc); });
  MBox<A> a(ma); MBox<B> b(mb), b2(mb2); MBox<C> cc(mc);
  LM la = ma.template as<long double>(), lb = mb.template as<long double>(), lb2 = mb2.template as<long double>(), lc = mc.template as<long double>();
  LM abc = mul(mul(la, lb), lc);
  expect_mat(*a * *b * *cc, to<W>(abc), "A*B*C");
  expect_mat(*a * (*b * *cc), to<W>(abc), "A*(B*C)");
  LM sum = mul(la, addm(lb, lb2));
  expect_mat(*a * (*b + *b2), to<prom<EA, EB>>(sum), "A*(B+B')");
  expect_mat(*a * *b + *a * *b2, to<prom<EA, EB>>(sum), "A*B + A*B'");
  expect_mat((*b - *b2) * *cc, to<prom<EB, EC>>(addm(mul(lb, lc), scalem(mul(lb2, lc), -1))), "(B-B')*C");
  expect_mat(cml::transpose(*b) * cml::transpose(*a), to<prom<EA, EB>>(mul(la, lb)).tr(), "transpose(B)*transpose(A)");
  // assignment of products into every kind of target
  matrix<W, dynamic<>, row_basis, row_major> t1(1, 2); t1 = *a * *b * *cc; expect_mat(t1, to<W>(abc), "row-major target");
  matrix<W, dynamic<>, col_basis, col_major> t2 = *a * *b * *cc; expect_mat(t2, to<W>(abc), "column-major target");
  matrix<W, dynamic<>, col_basis, row_major> t3(r, d); t3.zero(); t3 += *a * *b * *cc; t3 -= (*a * *b * *cc) * W(2); expect_mat(t3, to<W>(scalem(abc, -1)), "+= and -= product");
  // A square: products assigned over their own operand use the old values
  if constexpr (mspec<A>::kind == 'F' && mspec<A>::r == mspec<A>::c || mspec<A>::kind == 'D') {
    if (r == k && std::is_same_v<EA, prom<EA, EA>>) {
      *a = *a * *a; expect_mat(*a, mul(la, la).template as<EA>(), "A = A*A");
    }
  }
}
// M (r x k) * v (k), v (r) * M
template <class M_, class V> void mv(Gen& g) {
  using EM = melem_t<M_>; using EV = elem_t<V>; using W = prom<EM, EV>;
  int r, k;
  bool left = g.coin();                    // v*M
  int n = vspec<V>::n > 0 ? vspec<V>::n : 0;
  if constexpr (mspec<M_>::r > 0) { r = mspec<M_>::r; k = mspec<M_>::c; }
  else { r = n && left ? n : dim(g); k = n && !left ? n : dim(g); }
  if (n && n != (left ? r : k)) left = !left;
  Mod<EM> mm_(r, k); fill_exact(g, mm_, 8);
  g.label(left ? "vector*matrix" : "matrix*vector");
  MBox<M_> m(mm_);
  LM lm = mm_.template as<long double>();
  auto check = [&](auto side) {
    constexpr bool L = decltype(side)::value;
    int nv = L ? r : k;
    auto xv = exact_vec<EV>(g, nv, 8);
    g.nontrivial(varied(mm_.d) && varied(xv));
    g.note([&](auto& o) { o << "M=" << show(mm_) << " v=" << fw::show(xv); });
    VBox<V> v(xv);
    LM lw = L ? mul(rowv(lv(xv)), lm) : mul(lm, colv(lv(xv)));
    std::vector<W> w(lw.d.begin(), lw.d.end());
    auto prod = [](auto&& mat, auto&& vec) { if constexpr (L) return std::forward<decltype(vec)>(vec) * std::forward<decltype(mat)>(mat); else return std::forward<decltype(mat)>(mat) * std::forward<decltype(vec)>(vec); };
    auto p = prod(m.cr(), v.cr());
    static_assert(std::is_same_v<std::decay_t<decltype(p[0])>, W>, "product promotes");
    static_assert(std::is_same_v<decltype(p), cml::temporary_of_t<decltype(p)>>, "the product is an owning vector");
    expect_vec(p, w, "product");
    expect_vec(prod(*m, *v), w, "product of lvalues");
    std::vector<W> wn; for (auto e : lw.d) wn.push_back((W)(-2 * e));
    expect_vec(prod(-*m, *v * EV(2)), wn, "product of expressions");
    if constexpr (mowns<M_> && vowns<V>) expect_vec(prod(M_(*m), V(*v)), w, "product of temporaries");
    if constexpr (L) expect_vec(cml::transpose(*m) * *v, w, "transpose(M)*v == v*M");
    else expect_vec(*v * cml::transpose(*m), w, "v*transpose(M) == M*v");
    vector<W, dynamic<>> t = prod(*m, *v); expect_vec(t, w, "dynamic target");
    vector<W, dynamic<>> t2((int)w.size()); t2.zero(); t2 -= prod(*m, *v); for (size_t i = 0; i < w.size(); ++i) REQUIRE(t2[(int)i] == -w[i], << "-= product");
    if constexpr (vspec<V>::kind == 'F' && (mspec<M_>::r < 0 || mspec<M_>::r == mspec<M_>::c)) {
      if (xv.size() == w.size() && std::is_same_v<EV, W>) { auto c = prod(*m, *v); *v = prod(*m, *v); expect_vec(*v, w, "v = product over v"); (void)c; }
    }
    for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) (*m)(i, j) = EM(99);
    for (int i = 0; i < (int)xv.size(); ++i) { if constexpr (vspec<V>::kind != 'c' && vspec<V>::kind != 'k') (*v)[i] = EV(55); }
    expect_vec(p, w, "product after overwriting the operands");
  };
  constexpr int N = vspec<V>::n;
  constexpr bool canL = N < 0 || mspec<M_>::r < 0 || mspec<M_>::r == N;
  constexpr bool canR = N < 0 || mspec<M_>::r < 0 || mspec<M_>::c == N;
  if (left) { if constexpr (canL) check(std::true_type()); }
  else { if constexpr (canR) check(std::false_type()); }
}
// rounding-level check on arbitrary real elements and outer-product operands
template <class A, class B, class V> void inexact(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<B>; using EV = elem_t<V>;
  int r = mspec<A>::r > 0 ? mspec<A>::r : g.szh(1, 5);
  int k = mspec<A>::r > 0 ? mspec<A>::c : mspec<B>::r > 0 ? mspec<B>::r : vspec<V>::n > 0 ? vspec<V>::n : g.szh(1, 5);
  int c = mspec<B>::r > 0 ? mspec<B>::c : g.szh(1, 5);
  Mod<EA> ma(r, k); Mod<EB> mb(k, c); fill_scaled(g, ma); fill_scaled(g, mb);
  auto xv = scaled_vec<EV>(g, k);
  g.nontrivial(varied(ma.d) && varied(mb.d) && varied(xv));
  g.note([&](auto& o) { o << "A=" << show(ma) << " B=" << show(mb) << " v=" << fw::show(xv); });
  MBox<A> a(ma); MBox<B> b(mb); VBox<V> v(xv);
  LM la = ma.template as<long double>(), lb = mb.template as<long double>();
  long double e = std::max({fw::eps_of<EA>(), fw::eps_of<EB>(), fw::eps_of<EV>()});
  long double t2 = (k + 2) * 64 * k * e, t3 = (k + r + 4) * 512.L * k * std::max(r, k) * e;
  expect_mat_near(*a * *b, mul(la, lb), t2, "A*B");
  auto lav = mul(la, colv(lv(xv))); auto lvb = mul(rowv(lv(xv)), lb);
  expect_vec_near(*a * *v, lav.d, t2, "A*v");
  expect_vec_near(*v * *b, lvb.d, t2, "v*B");
  // (A*v)(v*B) as an outer product == A*(v outer v)*B
  LM o = mul(colv(lv(xv)), rowv(lv(xv)));
  expect_mat_near(*a * cml::outer(*v, *v), mul(la, o), t3, "A*outer(v,v)");
  expect_mat_near(cml::outer(*v, *v) * *b, mul(o, lb), t3, "outer(v,v)*B");
  expect_vec_near(cml::outer(*v, *v) * *v, mul(o, colv(lv(xv))).d, t3, "outer(v,v)*v");
  expect_vec_near(*v * cml::outer(*v, *v), mul(rowv(lv(xv)), o).d, t3, "v*outer(v,v)");
}
