#pragma once
// P10: transpose/row/column/basis/subvector views against an index model.
template <class T> constexpr bool mowns = mspec<T>::kind == 'F' || mspec<T>::kind == 'D';
template <class T> constexpr bool vowns = vspec<T>::kind == 'F' || vspec<T>::kind == 'D';
template <class E> std::vector<E> rowof(const Mod<E>& m, int i) { std::vector<E> r; for (int j = 0; j < m.c; ++j) r.push_back(m(i, j)); return r; }
template <class E> std::vector<E> colof(const Mod<E>& m, int j) { return rowof(m.tr(), j); }
template <class E> Mod<E> neg(Mod<E> m) { for (auto& e : m.d) e = E(-e); return m; }

// every read access of a vector-like view, plus the owning copy
template <class X, class E> void view(X&& x, const std::vector<E>& w, const char* what) {
  expect_vec(x, w, what);
  for (int i = 0; i < x.size(); ++i) REQUIRE(fw::same(x.get(i), w[i]), << what << ": get(" << i << ")");
  using T = cml::temporary_of_t<std::decay_t<X>>;
  static_assert(std::is_same_v<T, cml::temporary_of_t<T>>, "copies are owning vectors");
  T t(x); expect_vec(t, w, "owning copy of view");
  vector<E, dynamic<>> d(x); expect_vec(d, w, "dynamic copy of view");
  auto x2 = x; expect_vec(x2, w, "copied node");
  auto x3 = std::move(x2); expect_vec(x3, w, "moved node");
}
template <class X, class E> void mview(X&& x, const Mod<E>& w, const char* what) {
  expect_mat(x, w, what);
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) REQUIRE(fw::same(x.get(i, j), w(i, j)), << what << ": get(" << i << "," << j << ")");
  using T = cml::temporary_of_t<std::decay_t<X>>;
  static_assert(std::is_same_v<T, cml::temporary_of_t<T>>, "copies are owning matrices");
  T t(x); expect_mat(t, w, "owning copy of view");
  matrix<E, dynamic<>, col_basis, col_major> d1(x); expect_mat(d1, w, "dynamic column-major copy");
  matrix<E, dynamic<>, row_basis, row_major> d2; d2 = x; expect_mat(d2, w, "dynamic row-major copy");
  auto x2 = x; expect_mat(x2, w, "copied node");
  auto x3 = std::move(x2); expect_mat(x3, w, "moved node");
}
// overwrite freed stack/heap memory so that a dangling view shows
[[gnu::noinline]] inline void scribble() { volatile char b[4096]; for (auto& c : b) c = 0x5a; }

template <class M, class N> void matviews(Gen& g) {
  using E = melem_t<M>;
  auto mm = shape<M>(g, 1, 6); fill_any(g, mm);
  if (std::is_integral_v<E>) fill_exact(g, mm, 50);
  const int R = mm.r, C = mm.c;
  constexpr bool rb = is_row_basis<M>;
  int i = (int)g.below(R), j = (int)g.below(C), bi = (int)g.below(rb ? R : C);
  g.nontrivial(varied(mm.d));
  g.note([&](auto& o) { o << show(mm) << " i=" << i << " j=" << j << " basis " << bi; });
  MBox<M> box(mm); M& m = *box; const M& cm = box.cr();
  auto wr = rowof(mm, i); auto wc = colof(mm, j); auto wb = rb ? rowof(mm, bi) : colof(mm, bi);
  auto wt = mm.tr();
  // views of lvalues and const objects
  view(cml::row(m, i), wr, "row"); view(cml::row(cm, i), wr, "const row");
  view(cml::col(m, j), wc, "col"); view(cml::col(cm, j), wc, "const col");
  view(cml::basis(m, bi), wb, "basis"); view(cml::basis(cm, bi), wb, "const basis");
  mview(cml::transpose(m), wt, "transpose"); mview(cml::transpose(cm), wt, "const transpose");
  REQUIRE(cm.basis_count() == (rb ? R : C) && cm.basis_size() == (rb ? C : R), << "basis sizes");
  REQUIRE(cml::transpose(m).basis_count() == (rb ? C : R), << "basis count of the transpose");
  // views of views
  mview(cml::transpose(cml::transpose(m)), mm, "transpose(transpose)");
  view(cml::row(cml::transpose(m), j), wc, "row of transpose");
  view(cml::col(cml::transpose(cm), i), wr, "col of transpose");
  if (bi < (rb ? C : R)) view(cml::basis(cml::transpose(m), bi), rb ? colof(mm, bi) : rowof(mm, bi), "basis of transpose");
  // expressions
  auto nm = neg(mm);
  view(cml::row(-m, i), rowof(nm, i), "row of -m"); view(cml::col(-cm, j), colof(nm, j), "col of -m");
  view(cml::basis(-m, bi), rb ? rowof(nm, bi) : colof(nm, bi), "basis of -m");
  mview(cml::transpose(-m), nm.tr(), "transpose of -m");
  { auto n = cml::row(-cml::transpose(m), j); scribble(); view(n, colof(nm, j), "stored row(-transpose(m))"); }
  // temporaries: the node owns the elements
  auto tmp = [&] { if constexpr (mowns<M>) return M(m); else return cml::temporary_of_t<M>(m); };
  { auto n = cml::row(tmp(), i); scribble(); view(n, wr, "row of a temporary"); }
  { auto n = cml::col(tmp(), j); scribble(); view(n, wc, "col of a temporary"); }
  { auto n = cml::basis(tmp(), bi); scribble(); view(n, wb, "basis of a temporary"); }
  { auto n = cml::transpose(tmp()); scribble(); mview(n, wt, "transpose of a temporary"); }
  { auto n = cml::row(cml::transpose(tmp()), j); scribble(); view(n, wc, "row of transpose of a temporary"); }
  // vector arithmetic on views
  {
    vector<E, dynamic<>> s = cml::row(m, i) + cml::row(cm, i); auto r = cml::row(m, i);
    for (int k = 0; k < C; ++k) REQUIRE(fw::same<E>(s[k], E(wr[k] + wr[k])), << "row + row");
    if constexpr (mspec<M>::c != 1) { int k = (int)g.below(C); auto sv = cml::subvector(cml::row(m, i), k); auto ws = wr; ws.erase(ws.begin() + k); view(sv, ws, "subvector of a row"); }
    if constexpr (mspec<M>::r != 1) { int k = (int)g.below(R); auto sv = cml::col(cm, j).subvector(k); auto ws = wc; ws.erase(ws.begin() + k); view(sv, ws, "member subvector of a column"); }
  }
  // negative indices
  REQUIRE_THROWS(std::invalid_argument, cml::row(m, -1 - i)); REQUIRE_THROWS(std::invalid_argument, cml::col(m, -1 - j)); REQUIRE_THROWS(std::invalid_argument, cml::basis(cm, -1 - bi));
  // live views reflect later changes
  {
    auto r = cml::row(m, i); auto c = cml::col(cm, j); auto b = cml::basis(m, bi); auto t = cml::transpose(m);
    auto tt = cml::transpose(cml::transpose(m)); 
    for (int step = 0, n = (int)g.range(1, 4); step < n; ++step) {
      int a = (int)g.below(R), e = (int)g.below(C); E x = fw::exact<E>(g, 60);
      if (g.coin()) { a = i; } if (g.coin()) e = j;
      m(a, e) = x; mm(a, e) = x;
      expect_vec(r, rowof(mm, i), "live row"); expect_vec(c, colof(mm, j), "live col");
      expect_vec(b, rb ? rowof(mm, bi) : colof(mm, bi), "live basis"); expect_mat(t, mm.tr(), "live transpose"); expect_mat(tt, mm, "live transpose(transpose)");
      if constexpr (mspec<M>::c != 1) { auto ws = rowof(mm, i); ws.erase(ws.begin()); expect_vec(cml::subvector(r, 0), ws, "live subvector of a row"); }
    }
  }
  // views as sources of row / column assignment of the same matrix
  {
    int k = (int)g.below(R); m.set_row(i, cml::row(m, k)); for (int q = 0; q < C; ++q) mm(i, q) = Mod<E>(mm)(k, q);
    expect_mat(cm, mm, "set_row from row view");
    k = (int)g.below(C); m.set_col(j, cml::col(m, k)); for (int q = 0; q < R; ++q) mm(q, j) = mm(q, k);
    expect_mat(cm, mm, "set_col from col view");
    k = (int)g.below(rb ? R : C);
    std::vector<E> nb = rb ? rowof(mm, k) : colof(mm, k);
    for (int q = 0; q < (rb ? C : R); ++q) { m.set_basis_element(bi, q, cml::basis(m, k)[q]); if (rb) mm(bi, q) = nb[q]; else mm(q, bi) = nb[q]; }
    expect_mat(cm, mm, "set_basis_element from basis view");
  }
  // assignment of a transpose into another object of transposed shape
  if constexpr (mowns<N>) {
    if (mspec<N>::r < 0 || mspec<N>::r == C && mspec<N>::c == R) {
      if constexpr (mspec<N>::r < 0 || mspec<M>::r < 0 || mspec<N>::r == mspec<M>::c && mspec<N>::c == mspec<M>::r) {
        N t1(cml::transpose(m)); expect_mat(t1, mm.tr().template as<melem_t<N>>(), "N(transpose(m))");
        t1 = cml::transpose(-m); expect_mat(t1, neg(mm).tr().template as<melem_t<N>>(), "n = transpose(-m)");
        if constexpr (mspec<N>::r == mspec<N>::c) { t1.transpose(); expect_mat(t1, neg(mm).template as<melem_t<N>>(), "in-place transpose"); }
      }
    }
  }
}
template <class V> void subviews(Gen& g) {
  using E = elem_t<V>;
  int n = pick_n<V>(g, 1, 8);
  auto x = any_vec<E>(g, n); if (std::is_integral_v<E>) x = exact_vec<E>(g, n, 50);
  int i = (int)g.below(n);
  g.nontrivial(n > 1 && varied(x)); g.note([&](auto& o) { o << fw::show(x) << " without " << i; });
  VBox<V> box(x); V& v = *box; const V& cv = box.cr();
  auto del = [](std::vector<E> y, int k) { y.erase(y.begin() + k); return y; };
  auto w = del(x, i); auto nw = w; for (auto& e : nw) e = E(-e);
  view(cml::subvector(v, i), w, "subvector"); view(cml::subvector(cv, i), w, "const subvector");
  view(v.subvector(i), w, "member subvector"); view(cv.subvector(i), w, "const member subvector");
  auto tmp = [&] { if constexpr (vowns<V>) return V(v); else return cml::temporary_of_t<V>(v); };
  { auto s = cml::subvector(tmp(), i); scribble(); view(s, w, "subvector of a temporary"); }
  { auto s = tmp().subvector(i); scribble(); view(s, w, "member subvector of a temporary"); }
  { auto s = cml::subvector(-v, i); scribble(); view(s, nw, "subvector of -v"); }
  { auto s = -cml::subvector(v, i); scribble(); view(s, nw, "-subvector"); }
  { auto s = (v - v - v).subvector(i); scribble(); if (!std::is_floating_point_v<E>) view(s, nw, "member subvector of an expression"); }
  if constexpr (vspec<V>::n != 2) if (n > 1) {
    int k = (int)g.below(n - 1); auto w2 = del(w, k);
    { auto s = cml::subvector(cml::subvector(v, i), k); scribble(); view(s, w2, "subvector of subvector"); }
    { auto s = v.subvector(i).subvector(k); scribble(); view(s, w2, "member subvector of subvector"); }
  }
  if constexpr (vspec<V>::kind != 'c' && vspec<V>::kind != 'k') {
    auto s = cml::subvector(v, i); auto s2 = v.subvector(i);
    for (int step = 0; step < 2; ++step) {
      int k = (int)g.below(n); E e = fw::exact<E>(g, 60); v[k] = e; x[k] = e;
      expect_vec(s, del(x, i), "live subvector"); expect_vec(s2, del(x, i), "live member subvector");
    }
  }
}
