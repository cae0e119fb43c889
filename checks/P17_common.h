#pragma once
#include "geom.h"
// P17: affine builders, application, composition, inversion.
template <class M> auto& be(Mod<melem_t<M>>& x, int i, int j) { return is_row_basis<M> ? x(i, j) : x(j, i); }   // component j of basis vector i
template <class M> const auto& be(const Mod<melem_t<M>>& x, int i, int j) { return is_row_basis<M> ? x(i, j) : x(j, i); }
template <class M> constexpr bool fits(int d, bool affine) { using S = mspec<M>; if (S::r < 0) return true; int nb = is_row_basis<M> ? S::r : S::c, nc = is_row_basis<M> ? S::c : S::r; return nb >= d + affine && nc >= d; }
// shapes holding d basis vectors of d components (plus a translation)
template <class M> Mod<melem_t<M>> ashape(Gen& g, int d, bool affine) {
  using E = melem_t<M>; using S = mspec<M>;
  int r, c; if constexpr (S::r > 0) r = S::r, c = S::c;
  else { int nb = d + affine, nc = d; switch (g.below(4)) { case 0: break; case 1: nc = nb; break; case 2: nb = nc = d + 1; break; default: nb += (int)g.below(3); nc += (int)g.below(3); } r = is_row_basis<M> ? nb : nc; c = is_row_basis<M> ? nc : nb; }
  Mod<E> x(r, c); return fill_exact(g, x, 9);
}
template <class M> Mod<melem_t<M>> ident_like(Mod<melem_t<M>> x) { for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) x(i, j) = i == j; return x; }
// run-time shapes too small for d (affine) dimensions
template <class M> Mod<melem_t<M>> small_shape(Gen& g, int d, bool affine) {
  int nb = d + affine, nc = d; if (g.coin()) nb = (int)g.range(1, nb - 1), nc += (int)g.sym(1); else nc = (int)g.range(1, nc - 1), nb += (int)g.sym(1);
  Mod<melem_t<M>> x(is_row_basis<M> ? nb : nc, is_row_basis<M> ? nc : nb); return fill_exact(g, x, 9);
}
#define TOO_SMALL(d, affine, ...) do { if constexpr (mspec<M>::r < 0) { auto y_ = small_shape<M>(g, d, affine); MBox<M> b(y_); REQUIRE_THROWS(cml::minimum_matrix_size_error, __VA_ARGS__); expect_mat(b.cr(), y_, "matrix after a size error"); } } while (0)

template <class M, class V, class S0, class S1> void trans(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>;
  S0 s0 = fw::exact<S0>(g); S1 s1 = fw::exact<S1>(g); F s2 = fw::exact<F>(g);
  g.nontrivial(s0 != 0 && s1 != 0 && s2 != 0);
  if constexpr (fits<M>(2, true)) {
    auto x = ashape<M>(g, 2, true), w = x, id = ident_like<M>(x); be<M>(w, 2, 0) = be<M>(id, 2, 0) = (E)s0; be<M>(w, 2, 1) = be<M>(id, 2, 1) = (E)s1; g.note([&](auto& o) { o << show(x) << " t " << s0 << " " << s1; });
    { MBox<M> b(x); cml::matrix_set_translation_2D(b.m, s0, s1); expect_mat(b.cr(), w, "matrix_set_translation_2D"); double a = 99; float c = 99; cml::matrix_get_translation_2D(b.cr(), a, c); REQUIRE(a == (double)(E)s0 && c == (float)(E)s1, << "matrix_get_translation_2D(e0, e1): " << a << " " << c); expect_vec(cml::matrix_get_translation_2D(b.cr()), std::vector<E>{(E)s0, (E)s1}, "matrix_get_translation_2D"); expect_mat(b.cr(), w, "getters leave the matrix alone"); }
    { MBox<M> b(x); cml::matrix_translation_2D(b.m, s0, s1); expect_mat(b.cr(), id, "matrix_translation_2D"); }
    std::vector<F> t{(F)s1, s2}; be<M>(w, 2, 0) = be<M>(id, 2, 0) = (E)t[0]; be<M>(w, 2, 1) = be<M>(id, 2, 1) = (E)t[1];
    if constexpr (vspec<V>::n < 0) { VBox<V> v(t); { MBox<M> b(x); cml::matrix_set_translation_2D(b.m, v.cr()); expect_mat(b.cr(), w, "matrix_set_translation_2D(v)"); } { MBox<M> b(x); cml::matrix_translation_2D(b.m, v.cr()); expect_mat(b.cr(), id, "matrix_translation_2D(v)"); } }
    vector<F, fixed<2>> v(t[0], t[1]); { MBox<M> b(x); cml::matrix_set_translation_2D(b.m, v); expect_mat(b.cr(), w, "matrix_set_translation_2D(fixed)"); cml::matrix_translation_2D(b.m, -(-v)); expect_mat(b.cr(), id, "matrix_translation_2D(expression)"); }
    TOO_SMALL(2, true, cml::matrix_set_translation_2D(b.m, s0, s1)); TOO_SMALL(2, true, cml::matrix_get_translation_2D(b.cr()));
    if constexpr (vspec<V>::n < 0) { VBox<V> u(exact_vec<F>(g, g.coin() ? 1 : 3)); MBox<M> b(x); REQUIRE_THROWS(cml::vector_size_error, cml::matrix_set_translation_2D(b.m, u.cr())); expect_mat(b.cr(), x, "matrix after a size error"); }
  }
  if constexpr (fits<M>(3, true)) {
    auto x = ashape<M>(g, 3, true), w = x, id = ident_like<M>(x); auto put = [&](auto a, auto b, auto c) { be<M>(w, 3, 0) = be<M>(id, 3, 0) = (E)a; be<M>(w, 3, 1) = be<M>(id, 3, 1) = (E)b; be<M>(w, 3, 2) = be<M>(id, 3, 2) = (E)c; };
    g.note([&](auto& o) { o << show(x) << " t " << s0 << " " << s1 << " " << s2; }); put(s0, s1, s2);
    { MBox<M> b(x); cml::matrix_set_translation(b.m, s0, s1, s2); expect_mat(b.cr(), w, "matrix_set_translation"); double a = 99; float c = 99; F e = 99; cml::matrix_get_translation(b.cr(), a, c, e); REQUIRE(a == (double)(E)s0 && c == (float)(E)s1 && e == (F)(E)s2, << "matrix_get_translation(e0, e1, e2): " << a << " " << c << " " << e); expect_vec(cml::matrix_get_translation(b.cr()), std::vector<E>{(E)s0, (E)s1, (E)s2}, "matrix_get_translation"); expect_mat(b.cr(), w, "getters leave the matrix alone"); }
    { MBox<M> b(x); cml::matrix_translation(b.m, s0, s1, s2); expect_mat(b.cr(), id, "matrix_translation"); }
    std::vector<F> t{(F)s1, s2, (F)s0}; put(t[0], t[1], t[2]); VBox<V> v(t);
    { MBox<M> b(x); cml::matrix_set_translation(b.m, v.cr()); expect_mat(b.cr(), w, "matrix_set_translation(v)"); } { MBox<M> b(x); cml::matrix_translation(b.m, v.cr()); expect_mat(b.cr(), id, "matrix_translation(v)"); } { MBox<M> b(x); cml::matrix_translation(b.m, v.cr() + v.cr() - v.cr()); expect_mat(b.cr(), id, "matrix_translation(expression)"); }
    put(s1, s0, 0); { MBox<M> b(x); cml::matrix_set_translation(b.m, s1, s0); expect_mat(b.cr(), w, "matrix_set_translation(e0, e1)"); } { MBox<M> b(x); cml::matrix_translation(b.m, s1, s0); expect_mat(b.cr(), id, "matrix_translation(e0, e1)"); }
    put((F)s1, s2, 0); vector<F, fixed<2>> v2((F)s1, s2); { MBox<M> b(x); cml::matrix_set_translation(b.m, v2); expect_mat(b.cr(), w, "matrix_set_translation(2D vector)"); } { MBox<M> b(x); cml::matrix_translation(b.m, v2); expect_mat(b.cr(), id, "matrix_translation(2D vector)"); }
    if constexpr (vspec<V>::n < 0) { VBox<V> u({(F)s1, s2}); MBox<M> b(x); cml::matrix_set_translation(b.m, u.cr()); expect_mat(b.cr(), w, "matrix_set_translation(run-time 2D vector)"); VBox<V> q(exact_vec<F>(g, g.coin() ? 1 : 4)); REQUIRE_THROWS(cml::vector_size_range_error, cml::matrix_set_translation(b.m, q.cr())); expect_mat(b.cr(), w, "matrix after a size error"); }
    TOO_SMALL(3, true, cml::matrix_set_translation(b.m, s0, s1, s2)); TOO_SMALL(3, true, cml::matrix_set_translation(b.m, v.cr())); TOO_SMALL(3, true, cml::matrix_get_translation(b.cr()));
  }
}
template <class M, class W> void expect_scaled(const M& m, W w, const std::vector<long double>& s, long double eps, const char* what) {
  w = ident_like<M>(w); auto r = rdm(m);
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) { long double want = i == j && i < (int)s.size() ? s[i] : w(i, j); REQUIRE(fw::near(r(i, j), want, eps * std::fabs(want)), << what << ": element (" << i << "," << j << ") of " << show(r) << " want " << (double)want); }
}
template <class M, class V, class S0, class S1> void scale(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; const bool flt = std::is_floating_point_v<E>; long double eps = flt ? 3.0L * std::max({std::numeric_limits<E>::epsilon() * 1.0L, (long double)std::numeric_limits<S0>::epsilon(), (long double)std::numeric_limits<S1>::epsilon(), (long double)std::numeric_limits<F>::epsilon()}) : 0;
  S0 s0 = fw::exact_nonzero<S0>(g); S1 s1 = fw::exact_nonzero<S1>(g); F s2 = fw::exact_nonzero<F>(g); g.nontrivial(s0 != s1); auto L = [](auto x) { return (long double)(E)x; }; auto I = [](auto x) { return 1 / (long double)x; };
  auto run = [&](auto dim) {
    constexpr int d = decltype(dim)::value; auto x = ashape<M>(g, d, true); g.note([&](auto& o) { o << show(x) << " scale " << s0 << " " << s1 << " " << s2; });
    std::vector<F> t{s2, (F)s1}; if (d == 3) t.push_back((F)(s0)); std::vector<long double> tl, ti; for (auto e : t) tl.push_back(L(e)), ti.push_back(I(e)); vector<F, fixed<d>> fv; for (int i = 0; i < d; ++i) fv[i] = t[i];
    MBox<M> b(x);
    if constexpr (d == 2) {
      cml::matrix_scale_2D(b.m, s0, s1); expect_scaled(b.cr(), x, {L(s0), L(s1)}, 0, "matrix_scale_2D"); cml::matrix_uniform_scale_2D(b.m, s1); expect_scaled(b.cr(), x, {L(s1), L(s1)}, 0, "matrix_uniform_scale_2D");
      cml::matrix_scale_2D(b.m, fv); expect_scaled(b.cr(), x, tl, 0, "matrix_scale_2D(v)"); cml::matrix_scale_2D(b.m, -(-fv)); expect_scaled(b.cr(), x, tl, 0, "matrix_scale_2D(expression)");
      if constexpr (flt) { cml::matrix_inverse_scale_2D(b.m, s0, s1); expect_scaled(b.cr(), x, {I(s0), I(s1)}, eps, "matrix_inverse_scale_2D"); cml::matrix_inverse_scale_2D(b.m, fv); expect_scaled(b.cr(), x, ti, eps, "matrix_inverse_scale_2D(v)"); }
      if constexpr (vspec<V>::n < 0) { VBox<V> v(t); cml::matrix_scale_2D(b.m, v.cr()); expect_scaled(b.cr(), x, tl, 0, "matrix_scale_2D(run-time v)"); if constexpr (flt) { cml::matrix_inverse_scale_2D(b.m, v.cr()); expect_scaled(b.cr(), x, ti, eps, "matrix_inverse_scale_2D(run-time v)"); } auto y = rdm(b.cr()); VBox<V> q(exact_vec<F>(g, g.coin() ? 1 : 3)); REQUIRE_THROWS(cml::vector_size_error, cml::matrix_scale_2D(b.m, q.cr())); expect_mat(b.cr(), y, "after a size error"); }
      TOO_SMALL(2, true, cml::matrix_scale_2D(b.m, s0, s1));
    } else {
      cml::matrix_scale(b.m, s0, s1, s2); expect_scaled(b.cr(), x, {L(s0), L(s1), L(s2)}, 0, "matrix_scale"); cml::matrix_uniform_scale(b.m, s1); expect_scaled(b.cr(), x, {L(s1), L(s1), L(s1)}, 0, "matrix_uniform_scale");
      VBox<V> v(t); cml::matrix_scale(b.m, v.cr()); expect_scaled(b.cr(), x, tl, 0, "matrix_scale(v)"); cml::matrix_scale(b.m, -(-v.cr())); expect_scaled(b.cr(), x, tl, 0, "matrix_scale(expression)");
      if constexpr (flt) { cml::matrix_inverse_scale(b.m, s0, s1, s2); expect_scaled(b.cr(), x, {I(s0), I(s1), I(s2)}, eps, "matrix_inverse_scale"); cml::matrix_inverse_scale(b.m, v.cr()); expect_scaled(b.cr(), x, ti, eps, "matrix_inverse_scale(v)"); }
      if constexpr (vspec<V>::n < 0) { auto y = rdm(b.cr()); VBox<V> q(exact_vec<F>(g, g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::matrix_scale(b.m, q.cr())); expect_mat(b.cr(), y, "after a size error"); }
      TOO_SMALL(3, true, cml::matrix_scale(b.m, s0, s1, s2));
    }
  };
  if constexpr (fits<M>(2, true)) run(cml::int_c<2>());
  if constexpr (fits<M>(3, true)) run(cml::int_c<3>());
}
template <class M, class V> void basis(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>;
  if constexpr (fits<M>(2, false)) {
    auto x = ashape<M>(g, 2, false); MBox<M> b(x); bool nt = varied(x.d);
    for (int step = 0; step < 3; ++step) {
      int i = (int)g.below(2); auto t = exact_vec<F>(g, 2); vector<F, fixed<2>> v(t[0], t[1]), u; auto t2 = exact_vec<F>(g, 2); u.set(t2[0], t2[1]); int op = (int)g.below(6); bool tr = op & 1; g.note([&](auto& o) { o << "2D op " << op << " " << i << fw::show(t) << fw::show(t2) << " on " << show(x); });
      auto put = [&](int k, auto& q) { for (int j = 0; j < 2; ++j) (tr ? be<M>(x, j, k) : be<M>(x, k, j)) = (E)q[j]; };
      switch (op) {
        case 0: cml::matrix_set_basis_vector_2D(b.m, i, v); put(i, t); break; case 1: cml::matrix_set_transposed_basis_vector_2D(b.m, i, v); put(i, t); break;
        case 2: if (i) cml::matrix_set_y_basis_vector_2D(b.m, v); else cml::matrix_set_x_basis_vector_2D(b.m, v); put(i, t); break;
        case 3: if (i) cml::matrix_set_transposed_y_basis_vector_2D(b.m, v); else cml::matrix_set_transposed_x_basis_vector_2D(b.m, v); put(i, t); break;
        case 4: cml::matrix_set_basis_vectors_2D(b.m, v, u); put(0, t); put(1, t2); break; default: cml::matrix_set_transposed_basis_vectors_2D(b.m, v, -(-u)); put(0, t); put(1, t2);
      }
      expect_mat(b.cr(), x, "2D basis setter");
    }
    auto bv = [&](int k, bool tr) { std::vector<E> r; for (int j = 0; j < 2; ++j) r.push_back(tr ? be<M>(x, j, k) : be<M>(x, k, j)); return r; };
    for (int k = 0; k < 2; ++k) { expect_vec(cml::matrix_get_basis_vector_2D(b.cr(), k), bv(k, false), "matrix_get_basis_vector_2D"); expect_vec(cml::matrix_get_transposed_basis_vector_2D(b.cr(), k), bv(k, true), "matrix_get_transposed_basis_vector_2D"); }
    expect_vec(cml::matrix_get_x_basis_vector_2D(b.cr()), bv(0, false), "matrix_get_x_basis_vector_2D"); expect_vec(cml::matrix_get_y_basis_vector_2D(b.cr()), bv(1, false), "matrix_get_y_basis_vector_2D"); expect_vec(cml::matrix_get_transposed_x_basis_vector_2D(b.cr()), bv(0, true), "matrix_get_transposed_x_basis_vector_2D"); expect_vec(cml::matrix_get_transposed_y_basis_vector_2D(b.cr()), bv(1, true), "matrix_get_transposed_y_basis_vector_2D");
    vector<E, fixed<2>> p; vector<E, dynamic<>> q; cml::matrix_get_basis_vectors_2D(b.cr(), p, q); expect_vec(p, bv(0, false), "matrix_get_basis_vectors_2D x"); expect_vec(q, bv(1, false), "matrix_get_basis_vectors_2D y"); cml::matrix_get_transposed_basis_vectors_2D(b.cr(), q, p); expect_vec(q, bv(0, true), "matrix_get_transposed_basis_vectors_2D x"); expect_vec(p, bv(1, true), "matrix_get_transposed_basis_vectors_2D y");
    int bad = g.coin() ? 2 + (int)g.below(2) : -1 - (int)g.below(2); vector<F, fixed<2>> v; v.zero(); REQUIRE_THROWS(std::invalid_argument, cml::matrix_set_basis_vector_2D(b.m, bad, v)); REQUIRE_THROWS(std::invalid_argument, cml::matrix_set_transposed_basis_vector_2D(b.m, bad, v)); REQUIRE_THROWS(std::invalid_argument, cml::matrix_get_basis_vector_2D(b.cr(), bad)); REQUIRE_THROWS(std::invalid_argument, cml::matrix_get_transposed_basis_vector_2D(b.cr(), bad)); expect_mat(b.cr(), x, "after an index error");
    TOO_SMALL(2, false, cml::matrix_set_basis_vector_2D(b.m, 0, v)); TOO_SMALL(2, false, cml::matrix_get_transposed_basis_vector_2D(b.cr(), 1)); g.nontrivial(nt);
  }
  if constexpr (fits<M>(3, false)) {
    auto x = ashape<M>(g, 3, false); MBox<M> b(x); g.nontrivial(varied(x.d));
    for (int step = 0; step < 3; ++step) {
      int i = (int)g.below(3); auto t = exact_vec<F>(g, 3), t2 = exact_vec<F>(g, 3), t3 = exact_vec<F>(g, 3); VBox<V> v(t), u(t2), z(t3); int op = (int)g.below(6); bool tr = op & 1; g.note([&](auto& o) { o << "3D op " << op << " " << i << fw::show(t) << fw::show(t2) << fw::show(t3) << " on " << show(x); });
      auto put = [&](int k, auto& q) { for (int j = 0; j < 3; ++j) (tr ? be<M>(x, j, k) : be<M>(x, k, j)) = (E)q[j]; };
      switch (op) {
        case 0: cml::matrix_set_basis_vector(b.m, i, v.cr()); put(i, t); break; case 1: cml::matrix_set_transposed_basis_vector(b.m, i, v.cr()); put(i, t); break;
        case 2: if (i == 0) cml::matrix_set_x_basis_vector(b.m, v.cr()); else if (i == 1) cml::matrix_set_y_basis_vector(b.m, v.cr()); else cml::matrix_set_z_basis_vector(b.m, v.cr()); put(i, t); break;
        case 3: if (i == 0) cml::matrix_set_transposed_x_basis_vector(b.m, v.cr()); else if (i == 1) cml::matrix_set_transposed_y_basis_vector(b.m, v.cr()); else cml::matrix_set_transposed_z_basis_vector(b.m, v.cr()); put(i, t); break;
        case 4: cml::matrix_set_basis_vectors(b.m, v.cr(), u.cr(), -(-z.cr())); put(0, t); put(1, t2); put(2, t3); break; default: cml::matrix_set_transposed_basis_vectors(b.m, v.cr(), u.cr(), z.cr()); put(0, t); put(1, t2); put(2, t3);
      }
      expect_mat(b.cr(), x, "3D basis setter");
    }
    auto bv = [&](int k, bool tr) { std::vector<E> r; for (int j = 0; j < 3; ++j) r.push_back(tr ? be<M>(x, j, k) : be<M>(x, k, j)); return r; };
    for (int k = 0; k < 3; ++k) { expect_vec(cml::matrix_get_basis_vector(b.cr(), k), bv(k, false), "matrix_get_basis_vector"); expect_vec(cml::matrix_get_transposed_basis_vector(b.cr(), k), bv(k, true), "matrix_get_transposed_basis_vector"); }
    expect_vec(cml::matrix_get_x_basis_vector(b.cr()), bv(0, false), "matrix_get_x_basis_vector"); expect_vec(cml::matrix_get_y_basis_vector(b.cr()), bv(1, false), "matrix_get_y_basis_vector"); expect_vec(cml::matrix_get_z_basis_vector(b.cr()), bv(2, false), "matrix_get_z_basis_vector");
    expect_vec(cml::matrix_get_transposed_x_basis_vector(b.cr()), bv(0, true), "matrix_get_transposed_x_basis_vector"); expect_vec(cml::matrix_get_transposed_y_basis_vector(b.cr()), bv(1, true), "matrix_get_transposed_y_basis_vector"); expect_vec(cml::matrix_get_transposed_z_basis_vector(b.cr()), bv(2, true), "matrix_get_transposed_z_basis_vector");
    vector<E, fixed<3>> p, r; vector<E, dynamic<>> q; cml::matrix_get_basis_vectors(b.cr(), p, q, r); expect_vec(p, bv(0, false), "matrix_get_basis_vectors x"); expect_vec(q, bv(1, false), "matrix_get_basis_vectors y"); expect_vec(r, bv(2, false), "matrix_get_basis_vectors z"); cml::matrix_get_transposed_basis_vectors(b.cr(), q, p, r); expect_vec(q, bv(0, true), "matrix_get_transposed_basis_vectors x"); expect_vec(p, bv(1, true), "matrix_get_transposed_basis_vectors y"); expect_vec(r, bv(2, true), "matrix_get_transposed_basis_vectors z");
    int bad = g.coin() ? 3 + (int)g.below(2) : -1 - (int)g.below(2); VBox<V> v(exact_vec<F>(g, 3)); REQUIRE_THROWS(std::invalid_argument, cml::matrix_set_basis_vector(b.m, bad, v.cr())); REQUIRE_THROWS(std::invalid_argument, cml::matrix_set_transposed_basis_vector(b.m, bad, v.cr())); REQUIRE_THROWS(std::invalid_argument, cml::matrix_get_basis_vector(b.cr(), bad)); REQUIRE_THROWS(std::invalid_argument, cml::matrix_get_transposed_basis_vector(b.cr(), bad)); expect_mat(b.cr(), x, "after an index error");
    TOO_SMALL(3, false, cml::matrix_set_transposed_basis_vector(b.m, 0, v.cr())); TOO_SMALL(3, false, cml::matrix_get_basis_vector(b.cr(), 1));
    if constexpr (vspec<V>::n < 0) { VBox<V> q2(exact_vec<F>(g, g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::matrix_set_basis_vector(b.m, 0, q2.cr())); expect_mat(b.cr(), x, "after a size error"); }
  }
  { Mod<E> x; if constexpr (mspec<M>::r > 0) x = Mod<E>(mspec<M>::r, mspec<M>::c); else x = Mod<E>((int)g.range(1, 6), (int)g.range(1, 6)); fill_exact(g, x); MBox<M> b(x); int nb = is_row_basis<M> ? x.r : x.c, nc = is_row_basis<M> ? x.c : x.r; int i = (int)g.below(nb); std::vector<E> w; for (int j = 0; j < nc; ++j) w.push_back(be<M>(x, i, j)); expect_vec(cml::matrix_get_basis_vector_nD(b.cr(), i), w, "matrix_get_basis_vector_nD"); }
}
template <class M, class M2, class V> void linear(Gen& g) {
  using E = melem_t<M>; using G = melem_t<M2>; using F = elem_t<V>; static_assert(fits<M2>(3, false));
  auto x = ashape<M>(g, 3, false); auto y = ashape<M2>(g, 3, false); g.nontrivial(varied(y.d)); g.note([&](auto& o) { o << show(x) << " from " << show(y); });
  auto w = ident_like<M>(x); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) be<M>(w, i, j) = (E)be<M2>(y, i, j);
  MBox<M2> l(y); { MBox<M> b(x); cml::matrix_linear_transform(b.m, l.cr()); expect_mat(b.cr(), w, "matrix_linear_transform"); cml::matrix_linear_transform(b.m, l.cr() * G(1)); expect_mat(b.cr(), w, "matrix_linear_transform(expression)"); }
  TOO_SMALL(3, false, cml::matrix_linear_transform(b.m, l.cr()));
  if constexpr (mspec<M2>::r < 0) { auto z = small_shape<M2>(g, 3, false); MBox<M2> s(z); MBox<M> b(x); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::matrix_linear_transform(b.m, s.cr())); expect_mat(b.cr(), x, "after a size error"); }
  if constexpr (fits<M>(3, true)) {
    x = ashape<M>(g, 3, true); w = ident_like<M>(x); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) be<M>(w, i, j) = (E)be<M2>(y, i, j);
    auto t = exact_vec<F>(g, 3); VBox<V> v(t); for (int j = 0; j < 3; ++j) be<M>(w, 3, j) = (E)t[j];
    MBox<M> b(x); cml::matrix_affine_transform(b.m, l.cr(), v.cr()); expect_mat(b.cr(), w, "matrix_affine_transform(linear, translation)");
    // applying it: the linear part, then the translation
    auto p = exact_vec<E>(g, 3); vector<E, fixed<3>> pv(p[0], p[1], p[2]); std::vector<long double> wp(3), wv(3); for (int j = 0; j < 3; ++j) { for (int i = 0; i < 3; ++i) wv[j] += (long double)(E)be<M2>(y, i, j) * p[i]; wp[j] = wv[j] + (long double)(E)t[j]; }
    expect_vec_near(cml::transform_point(b.cr(), pv), wp, 0, "affine transform of a point"); expect_vec_near(cml::transform_vector(b.cr(), pv), wv, 0, "affine transform of a vector");
    TOO_SMALL(3, true, cml::matrix_affine_transform(b.m, l.cr(), v.cr()));
    if constexpr (std::is_floating_point_v<E> && std::is_floating_point_v<F>) {
      long double eps = std::max<long double>(std::numeric_limits<E>::epsilon(), std::numeric_limits<F>::epsilon()); bool nrm = g.coin(); auto n = unit3(g); F ang = angle<F>(g); long double len = nrm ? std::ldexp(1 + g.unit(), (int)g.sym(4)) : 1; auto a = tov<F>(n * len); g.note([&](auto& o) { o << "axis " << fw::show(a) << " angle " << ang << " normalize " << nrm << " t " << fw::show(t); });
      VBox<V> av(a); LM r = rodrigues(unit(v3(a)), ang); MBox<M> c(x);
      if (nrm) cml::matrix_affine_transform(c.m, av.cr(), ang, v.cr(), true); else if (g.coin()) cml::matrix_affine_transform(c.m, av.cr(), ang, v.cr()); else cml::matrix_affine_transform(c.m, av.cr(), ang, v.cr(), false);
      for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) { int bi = is_row_basis<M> ? i : j, bj = is_row_basis<M> ? j : i; long double want = bj >= 3 || bi > 3 ? (i == j) : bi == 3 ? (long double)(E)t[bj] : r(bj, bi); REQUIRE(fw::near(c.m(i, j), want, bi < 3 && bj < 3 ? 10 * eps : 0), << "matrix_affine_transform(axis, angle, translation): element (" << i << "," << j << ") of " << show(rdm(c.m)) << " want " << (double)want); }
    }
  }
}
template <class E> constexpr bool is_int = std::is_integral_v<E>;
template <class M, class V> void apply(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>;
  auto comp = [&](const Mod<E>& x, const std::vector<F>& v, int d, bool pt) { std::vector<long double> w(d); for (int j = 0; j < d; ++j) { for (int i = 0; i < (int)v.size(); ++i) w[j] += (long double)be<M>(x, i, j) * v[i]; if (pt) w[j] += (long double)be<M>(x, (int)v.size(), j); if (is_int<F>) w[j] = std::trunc(w[j]); } return w; };
  if constexpr (fits<M>(2, false)) { auto x = ashape<M>(g, 2, false); auto t = exact_vec<F>(g, 2); g.nontrivial(varied(x.d) && varied(t)); g.note([&](auto& o) { o << show(x) << fw::show(t); }); MBox<M> b(x); vector<F, fixed<2>> v(t[0], t[1]);
    expect_vec_near(cml::transform_vector_2D(b.cr(), v), comp(x, t, 2, false), 0, "transform_vector_2D"); expect_vec_near(cml::transform_vector_2D(b.m * E(1), -(-v)), comp(x, t, 2, false), 0, "transform_vector_2D(expressions)"); TOO_SMALL(2, false, cml::transform_vector_2D(b.cr(), v));
    if constexpr (vspec<V>::n < 0) { VBox<V> u(t); expect_vec_near(cml::transform_vector_2D(b.cr(), u.cr()), comp(x, t, 2, false), 0, "transform_vector_2D(run-time)"); VBox<V> q(exact_vec<F>(g, g.coin() ? 1 : 3)); REQUIRE_THROWS(cml::vector_size_error, cml::transform_vector_2D(b.cr(), q.cr())); } }
  if constexpr (fits<M>(2, true)) { auto x = ashape<M>(g, 2, true); auto t = exact_vec<F>(g, 2); g.note([&](auto& o) { o << show(x) << fw::show(t); }); MBox<M> b(x); vector<F, fixed<2>> v(t[0], t[1]);
    expect_vec_near(cml::transform_point_2D(b.cr(), v), comp(x, t, 2, true), 0, "transform_point_2D"); TOO_SMALL(2, true, cml::transform_point_2D(b.cr(), v));
    if constexpr (vspec<V>::n < 0) { VBox<V> u(t); expect_vec_near(cml::transform_point_2D(b.cr(), u.cr()), comp(x, t, 2, true), 0, "transform_point_2D(run-time)"); VBox<V> q(exact_vec<F>(g, g.coin() ? 1 : 3)); REQUIRE_THROWS(cml::vector_size_error, cml::transform_point_2D(b.cr(), q.cr())); } }
  if constexpr (fits<M>(3, false)) { auto x = ashape<M>(g, 3, false); auto t = exact_vec<F>(g, 3); g.note([&](auto& o) { o << show(x) << fw::show(t); }); MBox<M> b(x); VBox<V> v(t); g.nontrivial(varied(x.d) && varied(t));
    expect_vec_near(cml::transform_vector(b.cr(), v.cr()), comp(x, t, 3, false), 0, "transform_vector"); expect_vec_near(cml::transform_vector(b.m * E(1), v.cr() * F(1)), comp(x, t, 3, false), 0, "transform_vector(expressions)"); expect_vec(v.cr(), t, "operand"); TOO_SMALL(3, false, cml::transform_vector(b.cr(), v.cr()));
    if constexpr (vspec<V>::n < 0) { VBox<V> q(exact_vec<F>(g, g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::transform_vector(b.cr(), q.cr())); } }
  if constexpr (fits<M>(3, true)) { auto x = ashape<M>(g, 3, true); auto t = exact_vec<F>(g, 3); g.note([&](auto& o) { o << show(x) << fw::show(t); }); MBox<M> b(x); VBox<V> v(t);
    expect_vec_near(cml::transform_point(b.cr(), v.cr()), comp(x, t, 3, true), 0, "transform_point"); expect_vec_near(cml::transform_point(b.m * E(1), v.cr() * F(1)), comp(x, t, 3, true), 0, "transform_point(expressions)"); TOO_SMALL(3, true, cml::transform_point(b.cr(), v.cr()));
    if constexpr (vspec<V>::n < 0) { VBox<V> q(exact_vec<F>(g, g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::transform_point(b.cr(), q.cr())); }
    // points include the translation, vectors do not: p - q transforms as a vector
    if constexpr (!is_int<F>) { auto s = exact_vec<F>(g, 3); VBox<V> u(s); auto d = cml::transform_point(b.cr(), v.cr()) - cml::transform_point(b.cr(), u.cr()); expect_vec(cml::transform_vector(b.cr(), v.cr() - u.cr()), rd(d), "difference of points"); } }
  if constexpr (mspec<M>::r < 0 || (mspec<M>::r == 4 && mspec<M>::c == 4)) {
    Mod<E> x(4, 4); fill_exact(g, x, 9); auto t = exact_vec<F>(g, 4); g.note([&](auto& o) { o << "4D " << show(x) << fw::show(t); }); vector<F, fixed<4>> v(t[0], t[1], t[2], t[3]); MBox<M> b(x);
    if constexpr (!(is_int<F> && !is_int<E>)) {   // result of m*v converted once to the vector's type
      expect_vec_near(cml::transform_vector_4D(b.cr(), v), comp(x, t, 4, false), 0, "transform_vector_4D"); vector<F, dynamic<>> u(v); expect_vec_near(cml::transform_vector_4D(b.cr(), u), comp(x, t, 4, false), 0, "transform_vector_4D(run-time)"); u.resize(g.coin() ? 3 : 5); REQUIRE_THROWS(cml::vector_size_error, cml::transform_vector_4D(b.cr(), u)); }
    if constexpr (!is_int<F>) {
      // keep the homogeneous coordinate away from 0
      t.resize(3); long double h = be<M>(x, 3, 3); for (int i = 0; i < 3; ++i) h += (long double)be<M>(x, i, 3) * t[i]; if (std::fabs(h) < 1) { be<M>(x, 3, 3) += (E)2; h += 2; }
      MBox<M> c(x); VBox<V> u(t); std::vector<long double> w = comp(x, t, 3, true); long double mx = 0; for (auto& e : w) { e /= h; mx = std::max(mx, std::fabs(e)); }
      expect_vec_near(cml::transform_point_4D(c.cr(), u.cr()), w, mx * 2 * fw::eps_of<F>(), "transform_point_4D");
      auto p = cml::transform_point_4D(c.m * E(1), u.cr() * F(1)); expect_vec_near(p, w, mx * 2 * fw::eps_of<F>(), "transform_point_4D(expressions)");
      if constexpr (vspec<V>::n < 0) { VBox<V> q(exact_vec<F>(g, g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::transform_point_4D(b.cr(), q.cr())); } }
    if constexpr (mspec<M>::r < 0) { Mod<E> y(g.coin() ? 4 : 5, 3); if (g.coin()) y = Mod<E>(5, 5); MBox<M> c(y); REQUIRE_THROWS(cml::matrix_size_error, cml::transform_vector_4D(c.cr(), v)); vector<F, fixed<3>> u(1, 2, 3); REQUIRE_THROWS(cml::matrix_size_error, cml::transform_point_4D(c.cr(), u)); }
  }
}
template <class M1, class M2> void concat(Gen& g) {
  using E = melem_t<M1>; using F = melem_t<M2>; int n = mspec<M1>::r > 0 ? mspec<M1>::r : mspec<M2>::r > 0 ? mspec<M2>::r : g.sz(1, 6);
  Mod<E> x(n, n); Mod<F> y(n, n); fill_exact(g, x, 9); fill_exact(g, y, 9); MBox<M1> a(x); MBox<M2> b(y); g.nontrivial(varied(x.d) && varied(y.d)); g.note([&](auto& o) { o << show(x) << " then " << show(y); });
  LM w = is_row_basis<M1> ? mul(lm(x), lm(y)) : mul(lm(y), lm(x));
  expect_mat_near(cml::matrix_concat(a.cr(), b.cr()), w, 0, "matrix_concat"); expect_mat_near(cml::matrix_concat(a.m * E(1), b.cr() + b.cr() - b.cr()), w, 0, "matrix_concat(expressions)");
  expect_mat(a.cr(), x, "first operand"); expect_mat(b.cr(), y, "second operand");
  constexpr int R = mspec<M1>::r > 0 ? mspec<M1>::r : mspec<M2>::r;
  if (n == 4 || n == 3) { // the first transform, then the second (affine parts)
    for (int i = 0; i < n; ++i) be<M1>(x, i, n - 1) = i == n - 1, be<M2>(y, i, n - 1) = i == n - 1; MBox<M1> c(x); MBox<M2> d(y); auto m = cml::matrix_concat(c.cr(), d.cr()); auto p = exact_vec<double>(g, n - 1, 5);
    if constexpr (R < 0 || R == 4) if (n == 4) { vector<double, fixed<3>> v(p[0], p[1], p[2]); expect_vec(cml::transform_point(m, v), rd(cml::transform_point(d.cr(), cml::transform_point(c.cr(), v))), "transform_point of a concatenation"); expect_vec(cml::transform_vector(m, v), rd(cml::transform_vector(d.cr(), cml::transform_vector(c.cr(), v))), "transform_vector of a concatenation"); }
    if constexpr (R < 0 || R == 3) if (n == 3) { vector<double, fixed<2>> v(p[0], p[1]); expect_vec(cml::transform_point_2D(m, v), rd(cml::transform_point_2D(d.cr(), cml::transform_point_2D(c.cr(), v))), "transform_point_2D of a concatenation"); expect_vec(cml::transform_vector_2D(m, v), rd(cml::transform_vector_2D(d.cr(), cml::transform_vector_2D(c.cr(), v))), "transform_vector_2D of a concatenation"); }
  }
  if constexpr (mspec<M1>::r < 0 && mspec<M2>::r < 0) { int k = (int)g.range(1, 5), l = k + 1 + (int)g.below(3); Mod<E> p(k, l); Mod<F> q(l, k); MBox<M1> c(p); MBox<M2> d(q); REQUIRE_THROWS(cml::non_square_matrix_error, cml::matrix_concat(c.cr(), d.cr())); Mod<E> s(k, k); MBox<M1> e(s); MBox<M2> f(Mod<F>(l, l)); REQUIRE_THROWS(cml::incompatible_matrix_inner_size_error, cml::matrix_concat(e.cr(), f.cr())); }
}
// a random rotation (or reflection: any orthonormal map) of dimension d; exact: signed permutation
inline LM ortho(Gen& g, int d, bool exact) {
  LM q = ident(d);
  for (int i = d - 1; i > 0; --i) { int j = (int)g.below(i + 1); for (int k = 0; k < d; ++k) std::swap(q(i, k), q(j, k)); }
  for (int i = 0; i < d; ++i) if (g.coin()) for (int k = 0; k < d; ++k) q(i, k) = -q(i, k);
  if (!exact) for (int i = 0; i < d; ++i) for (int j = i + 1; j < d; ++j) { long double t = g.symreal(3.2), c = std::cos(t), s = std::sin(t); for (int k = 0; k < d; ++k) { long double a = q(i, k), b = q(j, k); q(i, k) = c * a - s * b; q(j, k) = s * a + c * b; } }
  return q;
}
template <class M> void invert(Gen& g) {
  using E = melem_t<M>;
  auto run = [&](Mod<E> x, int d, auto f, const char* what) {
    bool exact = is_int<E> || g.coin(); LM q = ortho(g, d, exact); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) be<M>(x, i, j) = (E)q(j, i);
    for (int j = 0; j < d; ++j) be<M>(x, d, j) = exact ? fw::exact<E>(g) : fw::scaled<E>(g); g.nontrivial(d > 1); g.label(exact ? "exact" : "general"); g.note([&](auto& o) { o << what << " " << show(x); });
    MBox<M> b(x); f(b.m); auto r = rdm(b.cr()); const long double tol = exact ? 0 : 8 * d * fw::eps_of<E>();
    for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) { int bi = is_row_basis<M> ? i : j, bj = is_row_basis<M> ? j : i;
      long double want, t = 0; if (bj >= d || bi > d) want = x(i, j); else if (bi < d) want = be<M>(x, bj, bi); else { want = 0; t = tol; for (int k = 0; k < d; ++k) { want -= (long double)be<M>(x, d, k) * be<M>(x, bj, k); t += tol * std::fabs((long double)be<M>(x, d, k)); } }
      REQUIRE(fw::near(r(i, j), want, t), << what << ": element (" << i << "," << j << ") of " << show(r) << " want " << (double)want << " from " << show(x)); }
    // undoes the transform
    if (d == 3 || d == 2) { auto p = exact_vec<E>(g, d); long double big = 1; for (auto e : x.d) big = std::max(big, std::fabs((long double)e)); std::vector<long double> w(p.begin(), p.end()); MBox<M> a(x);
      if constexpr (fits<M>(3, true)) if (d == 3) { vector<E, fixed<3>> v(p[0], p[1], p[2]); expect_vec_near(cml::transform_point(b.cr(), cml::transform_point(a.cr(), v)), w, 40 * tol * big, "inverse of a point"); expect_vec_near(cml::transform_vector(a.cr(), cml::transform_vector(b.cr(), v)), w, 40 * tol * big, "inverse of a vector"); }
      if constexpr (fits<M>(2, true)) if (d == 2) { vector<E, fixed<2>> v(p[0], p[1]); expect_vec_near(cml::transform_point_2D(b.cr(), cml::transform_point_2D(a.cr(), v)), w, 40 * tol * big, "2D inverse of a point"); } }
  };
  if constexpr (fits<M>(2, true)) { run(ashape<M>(g, 2, true), 2, [](auto& m) { cml::matrix_invert_RT_only_2D(m); }, "matrix_invert_RT_only_2D"); TOO_SMALL(2, true, cml::matrix_invert_RT_only_2D(b.m)); }
  if constexpr (fits<M>(3, true)) { run(ashape<M>(g, 3, true), 3, [](auto& m) { cml::matrix_invert_RT_only(m); }, "matrix_invert_RT_only"); TOO_SMALL(3, true, cml::matrix_invert_RT_only(b.m)); }
  constexpr int nb = is_row_basis<M> ? mspec<M>::r : mspec<M>::c, nc = is_row_basis<M> ? mspec<M>::c : mspec<M>::r;
  if constexpr (mspec<M>::r < 0 || nb == nc || nb == nc + 1) {
    Mod<E> x; int d; if constexpr (mspec<M>::r > 0) x = Mod<E>(mspec<M>::r, mspec<M>::c), d = nb - 1; else { d = (int)g.range(1, 6); int c = g.coin() ? d : d + 1; x = is_row_basis<M> ? Mod<E>(d + 1, c) : Mod<E>(c, d + 1); } fill_exact(g, x);
    run(x, d, [](auto& m) { cml::matrix_invert_RT(m); }, "matrix_invert_RT");
    if constexpr (mspec<M>::r < 0) { int k = (int)g.range(1, 5), l = g.coin() ? k + 1 + (int)g.below(3) : k - 2 - (int)g.below(2); if (l < 1) l = k + 2; Mod<E> y = is_row_basis<M> ? Mod<E>(k, l) : Mod<E>(l, k); if (l == k - 1) return; fill_exact(g, y); MBox<M> b(y); REQUIRE_THROWS(cml::affine_matrix_size_error, cml::matrix_invert_RT(b.m)); expect_mat(b.cr(), y, "after a size error"); }
  }
}
template <class M, class V> void misc(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>;
  if constexpr (fits<M>(2, false)) { auto x = ashape<M>(g, 2, false); g.nontrivial(varied(x.d)); MBox<M> b(x); F s = fw::exact<F>(g); g.note([&](auto& o) { o << show(x) << " s " << s; }); REQUIRE(cml::trace_2x2(b.cr()) == (E)(x(0, 0) + x(1, 1)), << "trace_2x2 " << cml::trace_2x2(b.cr()) << " of " << show(x)); REQUIRE(cml::trace_2x2(b.m * E(1)) == (E)(x(0, 0) + x(1, 1)));
    cml::matrix_skew_symmetric_2D(b.m, s); for (auto& e : x.d) e = 0; be<M>(x, 0, 1) = (E)s; be<M>(x, 1, 0) = (E)-s; expect_mat(b.cr(), x, "matrix_skew_symmetric_2D"); TOO_SMALL(2, false, cml::trace_2x2(b.cr())); TOO_SMALL(2, false, cml::matrix_skew_symmetric_2D(b.m, s)); }
  if constexpr (fits<M>(3, false)) { auto x = ashape<M>(g, 3, false); g.nontrivial(varied(x.d)); MBox<M> b(x); auto t = exact_vec<F>(g, 3), u = exact_vec<F>(g, 3); VBox<V> v(t); vector<F, fixed<3>> w(u[0], u[1], u[2]); g.note([&](auto& o) { o << show(x) << fw::show(t) << fw::show(u); });
    REQUIRE(cml::trace_3x3(b.cr()) == (E)(x(0, 0) + x(1, 1) + x(2, 2)), << "trace_3x3 " << cml::trace_3x3(b.cr()) << " of " << show(x));
    cml::matrix_skew_symmetric(b.m, v.cr()); V3 c = bx::cross(v3(t), v3(u)); if constexpr (!(is_int<E> && !is_int<F>)) { expect_vec_near(cml::transform_vector(b.cr(), w), {c.x, c.y, c.z}, 0, "matrix_skew_symmetric applied is the cross product"); }
    for (auto& e : x.d) e = 0; E k[3] = {(E)t[0], (E)t[1], (E)t[2]}; be<M>(x, 1, 2) = k[0]; be<M>(x, 2, 1) = (E)-t[0]; be<M>(x, 2, 0) = k[1]; be<M>(x, 0, 2) = (E)-t[1]; be<M>(x, 0, 1) = k[2]; be<M>(x, 1, 0) = (E)-t[2]; expect_mat(b.cr(), x, "matrix_skew_symmetric"); cml::matrix_skew_symmetric(b.m, -(-v.cr())); expect_mat(b.cr(), x, "matrix_skew_symmetric(expression)");
    TOO_SMALL(3, false, cml::trace_3x3(b.cr())); TOO_SMALL(3, false, cml::matrix_skew_symmetric(b.m, v.cr())); if constexpr (vspec<V>::n < 0) { VBox<V> q(exact_vec<F>(g, g.coin() ? 2 : 4)); REQUIRE_THROWS(cml::vector_size_error, cml::matrix_skew_symmetric(b.m, q.cr())); } }
}
