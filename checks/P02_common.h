#pragma once
#include <utility>
// P02: matrix storage.

template <class To, class From> Mod<To> convm(const Mod<From>& x) { return x.template as<To>(); }
template <class To, class From> void gsrcm(Gen& g, Mod<From>& m) {
  if (std::is_integral_v<To> || (std::is_same_v<To, float> && std::is_same_v<From, double>)) fill_exact(g, m, 1000);
  else fill_any(g, m);
}
// every read access path agrees with the model
template <class M> void agree(const M& m, const Mod<melem_t<M>>& w, const char* what) {
  using E = melem_t<M>;
  expect_mat(m, w, what);
  REQUIRE(m.size().first == w.r && m.size().second == w.c, << what << ": size()");
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) {
    REQUIRE(fw::same<E>(m.get(i, j), w(i, j)), << what << ": get(" << i << "," << j << ")");
    if (is_row_basis<M>) REQUIRE(fw::same<E>(m.basis_element(i, j), w(i, j)), << what << ": basis_element(" << i << "," << j << ")");
    else REQUIRE(fw::same<E>(m.basis_element(j, i), w(i, j)), << what << ": basis_element(" << j << "," << i << ")");
    int k = is_row_major<M> ? i * w.c + j : j * w.r + i;
    REQUIRE(fw::same<E>(m.data()[k], w(i, j)), << what << ": data()[" << k << "] for (" << i << "," << j << ")");
    REQUIRE(fw::same<E>(m.begin()[k], w(i, j)), << what << ": begin()[" << k << "]");
  }
  REQUIRE(m.end() - m.begin() == (std::ptrdiff_t)(w.r * w.c), << what << ": end-begin");
  constexpr int a = M::array_rows, b = M::array_cols; constexpr bool rb = M::matrix_basis == cml::row_basis_c, rm = M::array_layout == cml::row_major_c;
  REQUIRE(a == mspec<M>::r && b == mspec<M>::c && rb == is_row_basis<M> && rm == is_row_major<M> && (rb || M::matrix_basis == cml::col_basis_c) && (rm || M::array_layout == cml::col_major_c), << "compile-time shape, basis or layout");
  REQUIRE(m.basis_count() == (is_row_basis<M> ? w.r : w.c), << what << ": basis_count");
  REQUIRE(m.basis_size() == (is_row_basis<M> ? w.c : w.r), << what << ": basis_size");
}
template <class M, class S, size_t... I> M mk_elems(const Mod<S>& x, std::index_sequence<I...>) { return M(x.d[I]...); }
template <class M, class S, size_t... I> M mk_delems(const Mod<S>& x, std::index_sequence<I...>) { return M(x.r, x.c, x.d[I]...); }
template <class M, class S, size_t... I> M mk_list(const Mod<S>& x, std::index_sequence<I...>) { return M(std::initializer_list<S>{x.d[I]...}); }
template <class M, class S, size_t... I> M mk_brace(const Mod<S>& x, std::index_sequence<I...>) { M v = {x.d[I]...}; return v; }
template <class M, class S, size_t... I> void as_list(M& m, const Mod<S>& x, std::index_sequence<I...>) { m = {x.d[I]...}; }
template <class M, class S, size_t... I> M list_tmp(M&& m, const Mod<S>& x, std::index_sequence<I...>) { return std::move(m) = std::initializer_list<S>{x.d[I]...}; }

template <class E, class S, int R, int C, class B, class L> void ctor_fixed(Gen& g) {
  using M = matrix<E, fixed<R, C>, B, L>;
  Mod<S> x(R, C); gsrcm<E>(g, x);
  auto w = convm<E>(x);
  g.nontrivial(varied(x.d));
  g.note([&](auto& o) { o << "source " << show(x); });
  auto seq = std::make_index_sequence<R * C>();
  S a1[R * C], a2[R][C];
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { a1[i * C + j] = x(i, j); a2[i][j] = x(i, j); }
  const S* p = a1; S* q = a1;
  int k = (int)g.below(11);
  g.note([&](auto& o) { o << "kind " << k; });
  switch (k) {
    case 0: agree(mk_elems<M>(x, seq), w, "elements ctor"); break;
    case 1: agree(mk_list<M>(x, seq), w, "list ctor"); break;
    case 2: agree(mk_brace<M>(x, seq), w, "brace init"); break;
    case 3: agree(M(a1), w, "1D array ctor"); break;
    case 4: agree(M(a2), w, "2D array ctor"); break;
    case 5: agree(M(p), w, "const pointer ctor"); agree(M(q), w, "pointer ctor"); break;
    case 6: agree(list_tmp(M(), x, seq), w, "temporary = list"); break;
    case 7: { M m(a2); M c(m); agree(c, w, "copy ctor"); M d(std::move(c)); agree(d, w, "move ctor"); agree(m, w, "source of copy"); break; }
    case 8: agree(M(M() = a2), w, "temporary = 2D array"); break;
    case 9: agree(M(M() = a1), w, "temporary = 1D array"); break;
    default: { M m(a2); M c; c = std::move(m); agree(c, w, "move assignment"); M d; d = c; agree(d, w, "copy assignment"); break; }
  }
}
template <class E, class S, int R, int C, class B, class L> void ctor_dyn(Gen& g) {
  using M = matrix<E, dynamic<>, B, L>;
  Mod<S> x(R, C); gsrcm<E>(g, x);
  auto w = convm<E>(x);
  g.nontrivial(varied(x.d));
  g.note([&](auto& o) { o << "source " << show(x); });
  auto seq = std::make_index_sequence<R * C>();
  S a1[R * C], a2[R][C];
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { a1[i * C + j] = x(i, j); a2[i][j] = x(i, j); }
  const S* p = a1;
  int k = (int)g.below(10);
  g.note([&](auto& o) { o << "kind " << k; });
  switch (k) {
    case 0: agree(mk_delems<M>(x, seq), w, "(r,c,elements) ctor"); break;
    case 1: agree(M(R, C, a1), w, "(r,c,array) ctor"); break;
    case 2: agree(M(a2), w, "2D array ctor"); break;
    case 3: agree(M(R, C, p), w, "(r,c,pointer) ctor"); break;
    case 4: agree(M(p, R, C), w, "(pointer,r,c) ctor"); break;
    case 5: { int r = (int)g.range(0, R), c = r == 0 ? 0 : (int)g.range(0, R * C / r);
              Mod<E> y(r, c); for (int i = 0; i < r * c; ++i) y.d[i] = w.d[i];
              agree(M(p, r, c), y, "partial pointer ctor"); break; }
    case 6: { M m(a2); M c(m); agree(c, w, "copy ctor"); REQUIRE(c.data() != m.data(), << "copy shares storage");
              M d(std::move(c)); agree(d, w, "move ctor"); agree(m, w, "source of copy");
              REQUIRE(c.rows() == 0 && c.cols() == 0, << "moved-from shape"); break; }
    case 7: agree(M(M() = a2), w, "temporary = 2D array"); break;
    case 8: { M m(C, R); m.zero(); m = a1; Mod<E> y(C, R); y.d = w.d; agree(m, y, "= 1D array keeps shape"); break; }
    default: { M m((int)g.range(0, 5), (int)g.range(0, 5)); m = a2; agree(m, w, "= 2D array resizes"); break; }
  }
}
// all assignment forms into an existing R x C matrix of type M
template <class M, class S, int R, int C> void assign_all(Gen& g) {
  using E = melem_t<M>;
  using B = typename mspec<M>::basis; using L = typename mspec<M>::layout;
  using OL = std::conditional_t<is_row_major<M>, col_major, row_major>;
  using OB = std::conditional_t<is_row_basis<M>, col_basis, row_basis>;
  Mod<S> x(R, C); gsrcm<E>(g, x);
  auto w = convm<E>(x);
  Mod<E> old(R, C); fill_exact(g, old);
  g.nontrivial(varied(x.d));
  g.note([&](auto& o) { o << "source " << show(x) << " over " << show(old); });
  MBox<M> b(old); M& m = *b;
  auto seq = std::make_index_sequence<R * C>();
  S a1[R * C], a2[R][C];
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { a1[i * C + j] = x(i, j); a2[i][j] = x(i, j); }
  int k = (int)g.below(10);
  g.note([&](auto& o) { o << "kind " << k; });
  switch (k) {
    case 0: as_list(m, x, seq); agree(m, w, "= list"); break;
    case 1: m = a1; agree(m, w, "= 1D array"); break;
    case 2: m = a2; agree(m, w, "= 2D array"); break;
    case 3: { matrix<S, fixed<R, C>, B, OL> s(a2); m = s; agree(m, w, "= other layout"); expect_mat(s, x, "source kept"); break; }
    case 4: { matrix<S, fixed<R, C>, OB, L> s(a2); m = s; agree(m, w, "= other basis"); break; }
    case 5: { MBox<M> s(w); m = s.cr(); agree(m, w, "copy assignment"); agree(s.cr(), w, "source kept"); break; }
    case 6: { MBox<M> s(w); m = std::move(*s); agree(m, w, "move assignment"); break; }
    case 7: { m = matrix<S, dynamic<>, OB, OL>(a2); agree(m, w, "= dynamic temporary"); break; }
    case 8: { MBox<M> s(w); m = *s; if (mspec<M>::kind == 'F' || mspec<M>::kind == 'D') REQUIRE(m.data() != (*s).data(), << "assignment shares storage");
              (*s)((int)g.below(R), (int)g.below(C)) = E(77); agree(m, w, "independent after source write"); break; }
    default: { m = m; agree(m, old, "self assignment"); break; }
  }
}
// history of element / row / column / basis writes against the model
template <class M> void write_ops(Gen& g) {
  using E = melem_t<M>;
  auto w = shape<M>(g, 1, 5); fill_any(g, w);
  g.note([&](auto& o) { o << "initial " << show(w); });
  MBox<M> b(w); M& m = *b;
  agree(m, w, "initial");
  g.nontrivial(w.r * w.c > 1);
  int steps = (int)g.range(1, 8);
  for (int s = 0; s < steps; ++s) {
    int i = (int)g.below(w.r), j = (int)g.below(w.c);
    E e = fw::any_value<E>(g);
    int op = (int)g.below(13);
    g.note([&](auto& o) { o << "op " << op << " (" << i << "," << j << ") e=" << +e; });
    switch (op) {
      case 0: m(i, j) = e; w(i, j) = e; break;
      case 1: m.put(i, j, e); w(i, j) = e; break;
      case 2: m.get(i, j) = e; w(i, j) = e; break;
      case 3: m.data()[is_row_major<M> ? i * w.c + j : j * w.r + i] = e; w(i, j) = e; break;
      case 4: { short q = (short)g.sym(100); m.put(i, j, q); w(i, j) = (E)q; break; }
      case 5: if (is_row_basis<M>) m.set_basis_element(i, j, e); else m.set_basis_element(j, i, e); w(i, j) = e; break;
      case 6: { auto x = any_vec<E>(g, w.c); m.set_row(i, vector<E, dynamic<>>(x.data(), w.c)); for (int t = 0; t < w.c; ++t) w(i, t) = x[t]; break; }
      case 7: { auto x = any_vec<E>(g, w.r); m.set_col(j, vector<E, dynamic<>>(x.data(), w.r)); for (int t = 0; t < w.r; ++t) w(t, j) = x[t]; break; }
      case 8: { // a row copied from another row of the same matrix
                int i2 = (int)g.below(w.r); m.set_row(i, cml::row(m, i2)); for (int t = 0; t < w.c; ++t) w(i, t) = w(i2, t); break; }
      case 9: { int j2 = (int)g.below(w.c); m.set_col(j, cml::col(m, j2)); for (int t = 0; t < w.r; ++t) w(t, j) = w(t, j2); break; }
      case 10: if constexpr (mspec<M>::kind == 'F' || mspec<M>::kind == 'D') {
          M t = M(m).put(i, j, e); auto u = w; u(i, j) = e; expect_mat(t, u, "temporary put");
          M t2 = M(m).set_row(i, cml::row(m, 0)); u = w; for (int t = 0; t < w.c; ++t) u(i, t) = w(0, t); expect_mat(t2, u, "temporary set_row");
          M t3 = M(m).set_col(j, cml::col(m, 0)); u = w; for (int t = 0; t < w.r; ++t) u(t, j) = w(t, 0); expect_mat(t3, u, "temporary set_col");
          M t4 = is_row_basis<M> ? M(m).set_basis_element(i, j, e) : M(m).set_basis_element(j, i, e); u = w; u(i, j) = e; expect_mat(t4, u, "temporary set_basis_element");
        } break;
      case 11: m.fill(e); for (auto& q : w.d) q = e; break;
      default: { m.actual()(i, j) = e; w(i, j) = e; break; }
    }
    agree(m, w, "after write");
  }
}
// construct / assign A from an existing matrix of type Bm (any storage/layout/basis/type)
template <class A, class Bm> void cross(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<Bm>;
  int r = mspec<A>::r > 0 ? mspec<A>::r : mspec<Bm>::r > 0 ? mspec<Bm>::r : g.szh(1, 5);
  int c = mspec<A>::c > 0 ? mspec<A>::c : mspec<Bm>::c > 0 ? mspec<Bm>::c : g.szh(1, 5);
  Mod<EB> x(r, c); gsrcm<EA>(g, x);
  auto w = convm<EA>(x);
  g.nontrivial(varied(x.d));
  g.note([&](auto& o) { o << "source " << show(x); });
  MBox<Bm> b(x);
  if constexpr (mspec<A>::kind == 'F' || mspec<A>::kind == 'D') {
    A a(b.cr()); agree(a, w, "construct");
    A c2 = b.cr(); agree(c2, w, "copy-initialise");
    if constexpr (mspec<A>::kind == 'D') { A d((int)g.range(0, 5), (int)g.range(0, 5)); d.zero(); d = b.cr(); agree(d, w, "assign over other shape"); }
    (a)((int)g.below(r), (int)g.below(c)) = EA(55);
    agree(b.cr(), x, "source after write to copy");
  }
  Mod<EA> old(r, c); fill_exact(g, old);
  MBox<A> a(old);
  *a = b.cr();
  agree(*a, w, "assign");
  agree(b.cr(), x, "source unchanged");
}
// external construction forms see the user's storage-ordered 2D array
template <class E, int R, int C, class B, class L> void ext_ctor(Gen& g) {
  constexpr bool rm = std::is_same_v<L, row_major>;
  constexpr int N1 = rm ? R : C, N2 = rm ? C : R;
  E a[N1][N2]; Mod<E> w(R, C);
  fill_any(g, w);
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) (rm ? a[i][j] : a[j][i]) = w(i, j);
  g.nontrivial(varied(w.d));
  g.note([&](auto& o) { o << "array " << show(w); });
  using X = matrix<E, external<R, C>, B, L>; using Y = matrix<E, external<>, B, L>;
  { X m(a); agree(m, w, "external<R,C>(array)"); }
  { X m(&a[0][0]); agree(m, w, "external<R,C>(pointer)"); }
  { Y m(a); agree(m, w, "external<>(array)"); }
  { Y m(&a[0][0], R, C); agree(m, w, "external<>(pointer,r,c)"); }
  { Y m(R, C, &a[0][0]); agree(m, w, "external<>(r,c,pointer)"); }
}
