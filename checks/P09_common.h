#pragma once
// P09: run-time size mismatches are rejected with the documented error.
#include <cml/matrix/lu.h>
#include <cml/util.h>
#include <new>
namespace p9 {
// A requirement of the operation: holds or not, and the error(s) naming it.
// "size" stands for any of the library's size errors.
struct Cond { bool ok; std::vector<std::string> err; };
using Conds = std::vector<Cond>;
inline Cond c(bool ok, std::initializer_list<const char*> e) { Cond r; r.ok = ok; for (auto x : e) r.err.push_back(x); return r; }
constexpr const char* IV = "incompatible_vector_size_error";
constexpr const char* MV = "minimum_vector_size_error";
constexpr const char* VS = "vector_size_error";
constexpr const char* VR = "vector_size_range_error";
constexpr const char* IM = "incompatible_matrix_size_error";
constexpr const char* IR = "incompatible_matrix_row_size_error";
constexpr const char* IC = "incompatible_matrix_col_size_error";
constexpr const char* IN = "incompatible_matrix_inner_size_error";
constexpr const char* MS = "matrix_size_error";
constexpr const char* MM = "minimum_matrix_size_error";
constexpr const char* NS = "non_square_matrix_error";
constexpr const char* AM = "affine_matrix_size_error";
constexpr const char* QS = "quaternion_size_error";
constexpr const char* IA = "invalid_argument";
constexpr const char* SZ = "size";

template <class F> std::string caught(F&& f) {
  try { f(); return ""; }
#define P9(X) catch (const cml::X&) { return #X; }
  P9(incompatible_vector_size_error) P9(minimum_vector_size_error) P9(vector_size_error) P9(vector_size_range_error)
  P9(incompatible_matrix_size_error) P9(incompatible_matrix_row_size_error) P9(incompatible_matrix_col_size_error)
  P9(incompatible_matrix_inner_size_error) P9(matrix_size_error) P9(minimum_matrix_size_error) P9(non_square_matrix_error)
  P9(affine_matrix_size_error) P9(quaternion_size_error)
#undef P9
  catch (const std::invalid_argument&) { return "invalid_argument"; }
  catch (const std::runtime_error& e) { return std::string("runtime_error: ") + e.what(); }
  catch (const std::bad_alloc&) { return "bad_alloc"; }
}
inline bool is_size_error(const std::string& s) { return s.size() > 10 && s.substr(s.size() - 10) == "size_error" || s == VR || s == NS; }
template <class F> bool expect(Gen& g, const char* what, const Conds& cs, F&& f) {
  std::string got = caught(f);
  bool ok = true; for (auto& x : cs) ok = ok && x.ok;
  g.label(ok ? "conforming" : "mismatch");
  if (ok) { REQUIRE(got.empty(), << what << " of conforming operands threw " << got); return true; }
  REQUIRE(!got.empty(), << what << " accepted operands of the wrong size");
  bool match = false; std::string want;
  for (auto& x : cs) if (!x.ok) for (auto& e : x.err) { want += e + " "; match = match || e == got || (e == SZ && is_size_error(got)); }
  REQUIRE(match, << what << " threw " << got << " instead of " << want);
  return false;
}
template <class T> constexpr bool fixed_v = vspec<T>::n > 0;
template <class T> constexpr bool fixed_m = mspec<T>::r > 0;
inline int vdim(Gen& g) { return g.chance(1, 10) ? 0 : (int)g.range(1, 6); }
template <class V> int nof(Gen& g, int like = -1) { return vspec<V>::n > 0 ? vspec<V>::n : like >= 0 && g.chance(1, 3) ? like : vdim(g); }
template <class E> std::vector<E> vals(Gen& g, int n) { std::vector<E> r(n); for (auto& e : r) e = fw::exact_nonzero<E>(g, 8); return r; }
template <class M> Mod<melem_t<M>> msize(Gen& g, int lr = -1, int lc = -1) {
  int r, cc;
  if constexpr (fixed_m<M>) { r = mspec<M>::r; cc = mspec<M>::c; }
  else { r = lr >= 0 && g.chance(2, 3) ? lr : vdim(g); cc = lc >= 0 && g.chance(2, 3) ? lc : vdim(g); }
  Mod<melem_t<M>> m(r, cc); for (auto& e : m.d) e = fw::exact_nonzero<melem_t<M>>(g, 8); return m;
}

// ------------------------------------------------ element-wise, vectors
template <class A, class B> void vec2(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>;
  int na = nof<A>(g, vspec<B>::n), nb = nof<B>(g, na);
  auto xa = vals<EA>(g, na); auto xb = vals<EB>(g, nb);
  int op = (int)g.below(16);
  g.nontrivial(na + nb > 2);
  g.note([&](auto& o) { o << "op " << op << " a=" << fw::show(xa) << " b=" << fw::show(xb); });
  VBox<A> a(xa); VBox<B> b(xb);
  bool eq = na == nb, writes = false;
  Conds same{c(eq, {IV})};
  // (out-of-range sums must be rejected when the expression is built)
  switch (op) {
    case 0: expect(g, "a+b", same, [&] { auto e = *a + *b; REQUIRE(e.size() == na); }); break;
    case 1: expect(g, "a-b", same, [&] { auto e = a.cr() - b.cr(); REQUIRE(e.size() == na); }); break;
    case 2: expect(g, "hadamard_product(a,b)", same, [&] { auto e = cml::hadamard(*a, *b); REQUIRE(e.size() == na); }); break;
    case 3: expect(g, "(a+a)-(b*2)", same, [&] { auto e = (*a + *a) - (*b * 2); REQUIRE(e.size() == na); }); break;
    case 4: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = eq; expect(g, "a+=b", same, [&] { *a += *b; }); } break;
    case 5: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = eq; expect(g, "a-=b", same, [&] { *a -= *b; }); } break;
    case 6: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = eq; expect(g, "a+=-b", same, [&] { *a += -*b; }); } break;
    case 7: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = eq; expect(g, "a.minimize(b)", same, [&] { (*a).minimize(*b); }); } break;
    case 8: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = eq; expect(g, "a.maximize(b)", same, [&] { (*a).maximize(*b); }); } break;
    case 9: if constexpr (vspec<A>::kind == 'F' || vspec<A>::kind == 'X' || vspec<A>::kind == 'Y') { writes = eq; expect(g, "a=b", same, [&] { *a = *b; }); } break;
    case 10: if constexpr (vspec<A>::kind == 'F' || vspec<A>::kind == 'X' || vspec<A>::kind == 'Y') { writes = eq; expect(g, "a=-b", same, [&] { *a = -*b; }); } break;
    case 11: expect(g, "dot(a,b)", {c(eq, {IV}), c(na >= 1 && nb >= 1, {MV})}, [&] { cml::dot(*a, *b); }); break;
    case 12: if constexpr ((vspec<A>::n < 0 || vspec<A>::n == 3) && (vspec<B>::n < 0 || vspec<B>::n == 3)) expect(g, "cross(a,b)", {c(na == 3 && nb == 3, {VS}), c(eq, {IV})}, [&] { auto e = cml::cross(*a, *b); REQUIRE(e.size() == 3); }); break;
    case 13: if constexpr ((vspec<A>::n < 0 || vspec<A>::n == 2) && (vspec<B>::n < 0 || vspec<B>::n == 2)) expect(g, "perp_dot(a,b)", {c(na == 2 && nb == 2, {VS}), c(eq, {IV})}, [&] { cml::perp_dot(*a, *b); }); break;
    case 14: expect(g, "outer(a,b)", {}, [&] { auto e = cml::outer(*a, *b); REQUIRE(e.rows() == na && e.cols() == nb); }); break;
    default: expect(g, "manhattan_distance(a,b)", {c(eq, {IV}), c(na >= 1 && nb >= 1, {MV})}, [&] { cml::manhattan_distance(*a, *b); }); break;
  }
  if (!writes) expect_vec(a.cr(), xa, "left operand afterwards");
  expect_vec(b.cr(), xb, "right operand afterwards");
}
// three operands, nested: one mismatch anywhere is rejected
template <class A, class B, class C> void vec3(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>; using EC = elem_t<C>;
  int na = nof<A>(g, vspec<B>::n), nb = nof<B>(g, na), nc = nof<C>(g, na);
  if (vspec<A>::n < 0 && g.coin()) na = 3;
  if (vspec<B>::n < 0 && g.coin()) nb = na;
  if (vspec<C>::n < 0 && g.coin()) nc = na;
  auto xa = vals<EA>(g, na); auto xb = vals<EB>(g, nb); auto xc = vals<EC>(g, nc);
  int op = (int)g.below(8);
  g.nontrivial(na + nb + nc > 2);
  g.note([&](auto& o) { o << "op " << op << " a=" << fw::show(xa) << " b=" << fw::show(xb) << " c=" << fw::show(xc); });
  VBox<A> a(xa); VBox<B> b(xb); VBox<C> cc(xc);
  bool writes = false, e3 = na == nb && nb == nc;
  Conds all{c(na == nb, {IV}), c(nb == nc, {IV}), c(na == nc, {IV})};
  switch (op) {
    case 0: expect(g, "a+b+c", all, [&] { auto e = *a + *b + *cc; REQUIRE(e.size() == na); }); break;
    case 1: expect(g, "a-(b+c)", all, [&] { auto e = *a - (*b + *cc); REQUIRE(e.size() == na); }); break;
    case 2: expect(g, "dot(a,b-c)", {all[0], all[1], all[2], c(na > 0 && nb > 0 && nc > 0, {MV})}, [&] { cml::dot(*a, *b - *cc); }); break;
    case 3: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = e3; expect(g, "a+=b-c", all, [&] { *a += *b - *cc; }); } break;
    case 4: if constexpr (vspec<A>::kind == 'F' || vspec<A>::kind == 'X' || vspec<A>::kind == 'Y') { writes = e3; expect(g, "a=b-c", all, [&] { *a = *b - *cc; }); } break;
    case 5: if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k') { writes = e3; expect(g, "a-=b*2+c/4", all, [&] { *a -= *b * 2 + *cc / 4; }); } break;
    case 6: if constexpr ((vspec<A>::n < 0 || vspec<A>::n == 3) && (vspec<B>::n < 0 || vspec<B>::n == 3) && (vspec<C>::n < 0 || vspec<C>::n == 3))
      expect(g, "triple_product(a,b,c)", {c(na == 3 && nb == 3 && nc == 3, {VS}), c(e3, {IV})}, [&] { cml::triple_product(*a, *b, *cc); }); break;
    default: expect(g, "hadamard_product(a,b)+c", all, [&] { auto e = cml::hadamard(*a, *b) + *cc; REQUIRE(e.size() == na); }); break;
  }
  if (!writes) expect_vec(a.cr(), xa, "a afterwards");
  expect_vec(b.cr(), xb, "b afterwards"); expect_vec(cc.cr(), xc, "c afterwards");
}
// ------------------------------------------------ element-wise, matrices
template <class A, class B> void mat2(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<B>;
  auto ma = msize<A>(g, mspec<B>::r, mspec<B>::c); auto mb = msize<B>(g, ma.r, ma.c);
  if constexpr (!fixed_m<B>) if (g.chance(1, 4)) { mb = Mod<EB>(ma.c, ma.r); for (auto& e : mb.d) e = fw::exact_nonzero<EB>(g, 8); }
  int op = (int)g.below(11);
  g.nontrivial(ma.d.size() + mb.d.size() > 2);
  g.note([&](auto& o) { o << "op " << op << " a=" << show(ma) << " b=" << show(mb); });
  MBox<A> a(ma); MBox<B> b(mb);
  bool eq = ma.r == mb.r && ma.c == mb.c, writes = false;
  Conds same{c(eq, {IM})};
  auto shp = [&](auto& e) { return e.rows() == ma.r && e.cols() == ma.c; };
  switch (op) {
    case 0: expect(g, "a+b", same, [&] { auto e = *a + *b; REQUIRE(shp(e)); }); break;
    case 1: expect(g, "a-b", same, [&] { auto e = a.cr() - b.cr(); REQUIRE(shp(e)); }); break;
    case 2: expect(g, "hadamard_product(a,b)", same, [&] { auto e = cml::hadamard(*a, *b); REQUIRE(shp(e)); }); break;
    case 3: expect(g, "(a*2)+(-b)", same, [&] { auto e = (*a * 2) + (-*b); REQUIRE(shp(e)); }); break;
    case 4: if constexpr (!fixed_m<A> || !fixed_m<B> || mspec<A>::r == mspec<B>::c && mspec<A>::c == mspec<B>::r)
      expect(g, "a+transpose(b)", {c(ma.r == mb.c && ma.c == mb.r, {IM})}, [&] { auto e = *a + cml::transpose(*b); REQUIRE(shp(e)); }); break;
    case 5: writes = eq; expect(g, "a+=b", same, [&] { *a += *b; }); break;
    case 6: writes = eq; expect(g, "a-=b", same, [&] { *a -= *b; }); break;
    case 7: writes = eq; expect(g, "a-=b*2", same, [&] { *a -= *b * 2; }); break;
    case 8: if constexpr (mspec<A>::kind == 'F' || mspec<A>::kind == 'X') { writes = eq; expect(g, "a=b", same, [&] { *a = *b; }); } break;
    case 9: if constexpr (mspec<A>::kind == 'F' || mspec<A>::kind == 'X') { writes = eq; expect(g, "a=-b", same, [&] { *a = -*b; }); } break;
    default: {  // expression of a third, differently shaped operand
      int r = vdim(g), k = vdim(g); if (g.coin()) r = ma.r, k = ma.c;
      matrix<double, dynamic<>> d(r, k); d.fill(1);
      bool e3 = eq && r == ma.r && k == ma.c;
      writes = e3; expect(g, "a+=b+d", {c(eq, {IM}), c(r == ma.r && k == ma.c, {IM}), c(r == mb.r && k == mb.c, {IM})}, [&] { *a += *b + d; });
    }
  }
  if (!writes) expect_mat(a.cr(), ma, "left operand afterwards");
  expect_mat(b.cr(), mb, "right operand afterwards");
}
// ------------------------------------------------ products (same basis and layout)
template <class A, class B> void prod(Gen& g) {
  auto ma = msize<A>(g, -1, mspec<B>::r); auto mb = msize<B>(g, g.coin() ? ma.c : -1);
  g.nontrivial(ma.d.size() + mb.d.size() > 2);
  int op = (int)g.below(3);
  g.note([&](auto& o) { o << "op " << op << " a=" << show(ma) << " b=" << show(mb); });
  MBox<A> a(ma); MBox<B> b(mb);
  bool in = ma.c == mb.r;
  if (op == 0) expect(g, "a*b", {c(in, {IN})}, [&] { auto p = *a * *b; REQUIRE(p.rows() == ma.r && p.cols() == mb.c); });
  else if (op == 1) expect(g, "(-a)*(b*2)", {c(in, {IN})}, [&] { auto p = (-*a) * (*b * 2); REQUIRE(p.rows() == ma.r && p.cols() == mb.c); });
  else if constexpr (mspec<A>::r == mspec<A>::c && mspec<B>::r == mspec<B>::c) expect(g, "matrix_concat(a,b)", {c(ma.r == ma.c && mb.r == mb.c, {NS}), c(in && mb.c == ma.r, {IN})}, [&] { cml::matrix_concat(*a, *b); });
  expect_mat(a.cr(), ma, "left operand afterwards"); expect_mat(b.cr(), mb, "right operand afterwards");
}
template <class M, class V> void mvprod(Gen& g) {
  auto mm = msize<M>(g, vspec<V>::n, vspec<V>::n);
  int n = nof<V>(g, g.coin() ? mm.r : mm.c);
  auto xv = vals<elem_t<V>>(g, n);
  g.nontrivial(mm.d.size() + n > 2);
  int op = (int)g.below(6), i = (int)g.below(std::max(1, op == 4 ? mm.r : mm.c));
  g.note([&](auto& o) { o << "op " << op << " m=" << show(mm) << " v=" << fw::show(xv); });
  MBox<M> m(mm); VBox<V> v(xv);
  bool writes = false;
  switch (op) {
    case 0: expect(g, "m*v", {c(mm.c == n, {IN})}, [&] { auto p = *m * *v; REQUIRE(p.size() == mm.r); }); break;
    case 1: expect(g, "v*m", {c(mm.r == n, {IN})}, [&] { auto p = *v * *m; REQUIRE(p.size() == mm.c); }); break;
    case 2: expect(g, "(m*2)*(-v)", {c(mm.c == n, {IN})}, [&] { auto p = (*m * 2) * (-*v); REQUIRE(p.size() == mm.r); }); break;
    case 3: expect(g, "(-v)*(m*2)", {c(mm.r == n, {IN})}, [&] { auto p = (-*v) * (*m * 2); REQUIRE(p.size() == mm.c); }); break;
    case 4: if (mm.r > 0) { writes = n == mm.c; expect(g, "m.set_row(i,v)", {c(n == mm.c, {IC})}, [&] { (*m).set_row(i, *v); }); } break;
    default: if (mm.c > 0) { writes = n == mm.r; expect(g, "m.set_col(i,v)", {c(n == mm.r, {IR})}, [&] { (*m).set_col(i, *v); }); } break;
  }
  if (!writes) expect_mat(m.cr(), mm, "matrix afterwards");
  expect_vec(v.cr(), xv, "vector afterwards");
}
// ------------------------------------------------ assignment into non-resizable targets from lists/arrays
template <class V> void vlist(Gen& g) {
  using E = elem_t<V>;
  int n = nof<V>(g); auto xv = vals<E>(g, n); VBox<V> v(xv);
  int op = (int)g.below(vspec<V>::n > 0 ? 5 : 9);
  int l = 1 + (int)g.below(5);
  g.nontrivial(); g.note([&](auto& o) { o << "op " << op << " v=" << fw::show(xv) << " list of " << l; });
  bool res = vspec<V>::kind == 'D', writes = res || n == l;
  Conds cs{c(writes, {IV, VS})};
  E e1(1), e2(2), e3(3), e4(4), e5(5);
  auto il = [&](auto f) { switch (l) { case 1: f(std::initializer_list<E>{e1}); break; case 2: f({e1, e2}); break; case 3: f({e1, e2, e3}); break; case 4: f({e1, e2, e3, e4}); break; default: f({e1, e2, e3, e4, e5}); } };
  auto vec = [&] { std::vector<E> t; for (int i = 0; i < l; ++i) t.push_back(E(i + 1)); return t; };
  bool done = true;
  switch (op) {
    case 0: expect(g, "v={list}", cs, [&] { il([&](std::initializer_list<E> x) { *v = x; }); }); break;
    case 1: expect(g, "v=std::vector-sized dynamic", {c(writes, {IV})}, [&] { vector<E, dynamic<>> d(l); for (int i = 0; i < l; ++i) d[i] = E(i + 1); *v = d; }); break;
    case 2: {
      std::vector<E> t = vec(); vector<E, external<>> d(t.data(), l);
      expect(g, "v=external", {c(writes, {IV})}, [&] { *v = d; }); break;
    }
    case 3: {  // construction of a fixed vector from a run-time sized one
      done = false;
      std::vector<E> t = vec(); vector<E, external<>> d(t.data(), l);
      expect(g, "fixed<3>(dynamic)", {c(l == 3, {IV})}, [&] { vector<E, fixed<3>> f(d); REQUIRE(f[0] == t[0] && f[2] == t[2]); }); break;
    }
    case 4: {
      done = false;
      std::vector<E> t = vec(); vector<E, external<>> d(t.data(), l);
      expect(g, "fixed<4>(dynamic,e)", {c(l == 3, {IV, VS})}, [&] { vector<E, fixed<4>> f(d, e5); REQUIRE(f[0] == t[0] && f[2] == t[2] && f[3] == e5); }); break;
    }
    case 5: { if constexpr (vspec<V>::n < 0) { E arr[3] = {e1, e2, e3}; writes = res || n == 3; l = 3; expect(g, "v=array3", {c(writes, {IV, VS})}, [&] { *v = arr; }); } break; }
    case 6: { if constexpr (vspec<V>::n < 0) { writes = res || n == 2; l = 2; expect(g, "v.set(e,e)", {c(writes, {IV, VS})}, [&] { (*v).set(e1, e2); }); } break; }
    case 7: { if constexpr (vspec<V>::n < 0) { writes = res || n == l; expect(g, "v=fixed sum", {c(res || n == 3, {IV})}, [&] { vector<E, fixed<3>> f(e1, e2, e3); *v = f; }); l = 3; writes = res || n == 3; } break; }
    default: { if constexpr (vspec<V>::n < 0) { matrix<E, fixed<3, 4>> t; for (int i = 0; i < 12; ++i) t(i / 4, i % 4) = E(i % 4 + 1); writes = res || n == 4; l = 4; expect(g, "v=row(m,1)", {c(writes, {IV})}, [&] { *v = cml::row(t, 1); }); } break; }
  }
  if (done && writes) expect_vec(v.cr(), vec(), "v after the assignment");
  else expect_vec(v.cr(), xv, "v keeps its value");
}
template <class M> void mlist(Gen& g) {
  using E = melem_t<M>;
  auto mm = msize<M>(g);
  int op = (int)g.below(fixed_m<M> ? 3 : 6);
  if constexpr (!fixed_m<M>) if (g.coin()) { auto t = g.below(4); mm = Mod<E>(t & 1 ? 2 : 1, t & 2 ? 3 : 2); for (auto& e : mm.d) e = fw::exact_nonzero<E>(g, 8); }
  g.nontrivial(); g.note([&](auto& o) { o << "op " << op << " m=" << show(mm); });
  MBox<M> m(mm);
  int n = (int)mm.d.size(), l = 1 + (int)g.below(6);
  bool writes;
  E e[9]; for (int i = 0; i < 9; ++i) e[i] = E(i + 1);
  auto il = [&](auto f) { switch (l) { case 1: f(std::initializer_list<E>{e[0]}); break; case 2: f({e[0], e[1]}); break; case 3: f({e[0], e[1], e[2]}); break; case 4: f({e[0], e[1], e[2], e[3]}); break; case 5: f({e[0], e[1], e[2], e[3], e[4]}); break; default: f({e[0], e[1], e[2], e[3], e[4], e[5]}); } };
  Mod<E> want = mm;
  constexpr char K = mspec<M>::kind;
  switch (op) {
    case 0: if (g.coin() && n >= 1 && n <= 6) l = n; writes = n == l; for (int i = 0; i < n && writes; ++i) want.d[i] = e[i];
      expect(g, "m={list}", {c(writes, {IM, MS})}, [&] { il([&](std::initializer_list<E> x) { *m = x; }); }); break;
    case 1: {
      int r = vdim(g), k = vdim(g); if (g.coin()) r = mm.r, k = mm.c;
      matrix<E, dynamic<>> d(r, k); d.fill(E(7));
      writes = K == 'D' || K == 'Y' && r * k == n || r == mm.r && k == mm.c;
      if (writes) { want = Mod<E>(r, k); for (auto& x : want.d) x = E(7); }
      expect(g, "m=dynamic", {c(writes, {IM, MS})}, [&] { *m = d; }); break;
    }
    case 2: {
      int r = vdim(g), k = vdim(g); if (g.coin()) r = 2, k = 3;
      std::unique_ptr<E[]> b(new E[r * k]); for (int i = 0; i < r * k; ++i) b[i] = E(i);
      matrix<E, external<>> x(b.get(), r, k);
      expect(g, "fixed<2,3>(external)", {c(r == 2 && k == 3, {IM})}, [&] { matrix<E, fixed<2, 3>> f(x); REQUIRE(f(1, 2) == x(1, 2)); }); break;
    }
    case 3: if constexpr (!fixed_m<M>) { E arr[4] = {e[0], e[1], e[2], e[3]}; writes = n == 4; for (int i = 0; i < n && writes; ++i) want.d[i] = e[i]; expect(g, "m=array4", {c(writes, {IM, MS})}, [&] { *m = arr; }); } break;
    case 4: if constexpr (!fixed_m<M>) { E arr[2][3] = {{e[0], e[1], e[2]}, {e[3], e[4], e[5]}}; writes = K == 'D' || mm.r == 2 && mm.c == 3;
      if (K == 'Y' && !writes && n == 6) break;   // same element count: reshaped or rejected (both documented)
      if (writes) { want = Mod<E>(2, 3); for (int i = 0; i < 6; ++i) want.d[i] = e[i]; } expect(g, "m=array2x3", {c(writes, {IM, MS})}, [&] { *m = arr; }); } break;
    default: if constexpr (K == 'D') { bool ok = mm.r * mm.c == 4; expect(g, "matrix(rows,cols,4 elements)", {c(ok, {IM, MS})}, [&] { M t(mm.r, mm.c, e[0], e[1], e[2], e[3]); REQUIRE(t(mm.r - 1, mm.c - 1) == e[3]); }); }
  }
  expect_mat(m.cr(), want, "m afterwards");
}
// ------------------------------------------------ square-only operations and LU
template <class M, class V> void square(Gen& g) {
  using E = melem_t<M>;
  auto mm = msize<M>(g); if constexpr (!fixed_m<M>) if (g.chance(1, 2)) { int n = (int)g.range(1, 6); mm = Mod<E>(n, n); for (auto& e : mm.d) e = fw::exact_nonzero<E>(g, 8); for (int i = 0; i < n; ++i) mm(i, i) += E(50); }
  int op = (int)g.below(13);
  int nb = nof<V>(g, mm.r), nx = nof<V>(g, nb);
  if (vspec<V>::n < 0 && g.coin()) nx = nb = mm.c;
  g.nontrivial(mm.d.size() > 1); g.note([&](auto& o) { o << "op " << op << " m=" << show(mm) << " b size " << nb << " x size " << nx; });
  MBox<M> m(mm); auto xb = vals<elem_t<V>>(g, nb); auto xx = vals<elem_t<V>>(g, nx);
  VBox<V> b(xb), x(xx);
  bool sq = mm.r == mm.c; Conds s{c(sq, {NS})}; bool writes = false;
  if (sq && mm.r == 0) { g.label("0x0"); return; }
  switch (op) {
    case 0: expect(g, "determinant(m)", s, [&] { cml::determinant(*m); }); break;
    case 1: expect(g, "inverse(m)", s, [&] { auto i = cml::inverse(*m); REQUIRE(i.rows() == mm.r); }); break;
    case 2: writes = sq; expect(g, "m.inverse()", s, [&] { (*m).inverse(); }); break;
    case 3: expect(g, "trace(m)", s, [&] { cml::trace(*m); }); break;
    case 4: expect(g, "lu(m)", s, [&] { auto i = cml::lu(*m); REQUIRE(i.rows() == mm.r); }); break;
    case 5: expect(g, "lu_pivot(m)", s, [&] { auto i = cml::lu_pivot(*m); REQUIRE(i.lu.rows() == mm.r); }); break;
    case 6: expect(g, "determinant(-m)", s, [&] { cml::determinant(-*m); }); break;
    case 7: expect(g, "inverse(m*2)", s, [&] { auto i = cml::inverse(*m * 2); REQUIRE(i.rows() == mm.r); }); break;
    case 8: expect(g, "lu_solve(LU,b)", {s[0], c(mm.c == nb, {IN})}, [&] { auto y = cml::lu_solve(*m, *b); REQUIRE(y.size() == nb); }); break;
    case 9: expect(g, "lu_solve(LU,x,b)", {s[0], c(mm.c == nb, {IN}), c(mm.c == nx, {IN})}, [&] { cml::lu_solve(*m, *x, *b); }); break;
    case 10: if (sq) { auto p = cml::lu_pivot(*m); if (p.sign != 0) expect(g, "lu_solve(LUP,b)", {c(mm.c == nb, {IN})}, [&] { auto y = cml::lu_solve(p, *b); REQUIRE(y.size() == nb); }); } break;
    case 11: if (sq) { auto p = cml::lu_pivot(*m); if (p.sign != 0) expect(g, "lu_solve(LUP,x,b)", {c(mm.c == nb, {IN}), c(mm.c == nx, {IN})}, [&] { cml::lu_solve(p, *x, *b); }); } break;
    default: {
      constexpr bool can = mspec<M>::kind == 'D' || mspec<M>::kind == 'Y' || mspec<M>::r == mspec<M>::c;
      if constexpr (can) { writes = true; expect(g, "m.transpose()", {}, [&] { (*m).transpose(); }); expect_mat(m.cr(), mm.tr(), "transposed"); }
    }
  }
  if (!writes) expect_mat(m.cr(), mm, "m afterwards");
  expect_vec(b.cr(), xb, "b afterwards");
}
// ------------------------------------------------ quaternions from run-time sized vectors / lists
inline void quats(Gen& g) {
  using E = double;
  int n = vdim(g); auto xv = vals<E>(g, n);
  std::unique_ptr<E[]> b(new E[n]); for (int i = 0; i < n; ++i) b[i] = xv[i];
  vector<E, external<>> v(b.get(), n); vector<E, dynamic<>> d(v);
  quaternion<E, fixed<>, cml::imaginary_first> q(1., 2., 3., 4.); quaternion<E, fixed<>, cml::real_first> r(1., 2., 3., 4.);
  int op = (int)g.below(9);
  g.nontrivial(); g.note([&](auto& o) { o << "op " << op << " v=" << fw::show(xv); });
  Conds c3{c(n == 3, {VS})};
  bool writes = n == 3;
  auto il = [&](auto f) { E e(1); switch (n) { case 0: case 1: f(std::initializer_list<E>{e}); break; case 2: f({e, e}); break; case 3: f({e, e, e}); break; case 4: f({e, e, e, e}); break; default: f({e, e, e, e, e}); } };
  switch (op) {
    case 0: expect(g, "quaternion(v,s)", c3, [&] { quaternion<E> t(v, 2.); REQUIRE(t.w() == 2); }); writes = false; break;
    case 1: expect(g, "quaternion(s,v)", c3, [&] { quaternion<E, fixed<>, cml::real_first> t(2., d); REQUIRE(t.w() == 2); }); writes = false; break;
    case 2: expect(g, "q.set(v,s)", c3, [&] { q.set(d, 2.); }); break;
    case 3: expect(g, "r.set(s,v)", c3, [&] { r.set(2., v); }); break;
    case 4: writes = n == 4; expect(g, "q={list}", {c(n == 4, {QS})}, [&] { il([&](std::initializer_list<E> l) { q = l; }); }); break;
    case 5: writes = false; expect(g, "quaternion_rotation_axis_angle", c3, [&] { quaternion<E> t; cml::quaternion_rotation_axis_angle(t, v, 1.); }); break;
    case 6: writes = false; expect(g, "quaternion_rotation_euler", c3, [&] { quaternion<E> t; cml::quaternion_rotation_euler(t, d, cml::euler_order_xyz); }); break;
    case 7: writes = false; expect(g, "quaternion_to_axis_angle", {c(n == 3, {VS, IV})}, [&] { quaternion<E> t(0.5, 0.5, 0.5, 0.5); E a; cml::quaternion_to_axis_angle(t, v, a); }); break;
    default: { writes = false; int rr = vdim(g), cc = vdim(g); matrix<E, dynamic<>> m(rr, cc); m.identity();
      expect(g, "quaternion_rotation_matrix", {c(rr >= 3 && cc >= 3, {MM})}, [&] { quaternion<E> t; cml::quaternion_rotation_matrix(t, m); }); }
  }
  if (!writes) { REQUIRE(q[0] == 1 && q[1] == 2 && q[2] == 3 && q[3] == 4, << "q keeps its value"); REQUIRE(r[0] == 1 && r[1] == 2 && r[2] == 3 && r[3] == 4, << "r keeps its value"); }
}
// ------------------------------------------------ mathlib functions of matrices and vectors
// M: run-time sized matrix (dynamic<> or external<>, any basis/layout),
// V: run-time sized or fixed vector of 2..4 elements.
template <class M, class V> void mlib(Gen& g) {
  using E = double;
  constexpr int VN = vspec<V>::n;
  constexpr bool v2 = VN < 0 || VN == 2, v3 = VN < 0 || VN == 3, v4 = VN < 0 || VN == 4;
  constexpr bool vw = vspec<V>::kind != 'c' && vspec<V>::kind != 'k';
  constexpr bool row = mspec<M>::basis::value == cml::row_basis_c;
  int r = (int)g.range(1, 5), k = (int)g.range(1, 5);
  switch (g.below(8)) { case 0: r = k = 4; break; case 1: r = k = 3; break; case 2: r = k = 2; break; case 3: r = row ? 4 : 3; k = row ? 3 : 4; break; case 4: r = row ? 3 : 2; k = row ? 2 : 3; break; case 5: r = row ? 3 : 4; k = row ? 4 : 3; break; }
  auto pn = [&] { return VN > 0 ? VN : g.coin() ? 3 : (int)g.range(0, 5); };
  int n = pn(), n2 = pn(), n3 = pn();
  if (VN < 0 && g.coin()) n2 = n3 = n;
  Mod<E> mm(r, k); for (auto& x : mm.d) x = g.real(-2, 2);
  auto vv = [&](int z) { std::vector<E> x(z); for (auto& e : x) e = g.real(0.25, 2); return x; };
  auto x1 = vv(n), x2 = vv(n2), x3 = vv(n3);
  if (n2) x2[0] += 5; if (n3 > 1) x3[1] += 5;   // (keeps the three directions apart)
  int op = (int)g.below(54), i = (int)g.range(-1, 4); if (g.coin()) i = (int)g.below(2);
  E a = g.real(0.1, 1.5), b = g.real(0.1, 1.5);
  auto eo = cml::euler_order_yxz;
  g.nontrivial(r * k > 1);
  g.note([&](auto& o) { o << "op " << op << " m=" << r << "x" << k << " sizes " << n << "," << n2 << "," << n3 << " index " << i; });
  MBox<M> mb(mm); VBox<V> vb1(x1), vb2(x2), vb3(x3);
  M& m = *mb; auto& v = *vb1; auto& w = *vb2; auto& u = *vb3;
  auto c_aff2 = c(row ? r >= 3 && k >= 2 : r >= 2 && k >= 3, {MM}), c_aff3 = c(row ? r >= 4 && k >= 3 : r >= 3 && k >= 4, {MM});
  auto c_lin2 = c(r >= 2 && k >= 2, {MM}), c_lin3 = c(r >= 3 && k >= 3, {MM}), c_44 = c(r >= 4 && k >= 4, {MM}), c_44x = c(r == 4 && k == 4, {MS});
  auto c_aff = c(row ? r == k || r == k + 1 : r == k || k == r + 1, {AM});
  auto c_i2 = c(i >= 0 && i <= 1, {IA}), c_i3 = c(i >= 0 && i <= 2, {IA});
  auto vs = [&](int sz, int want) { return c(sz == want, {VS}); };
  auto mod3 = (i % 3 + 3) % 3;
  switch (op) {
    case 0: if constexpr (v2) expect(g, "matrix_set_basis_vector_2D", {c_lin2, vs(n, 2), c_i2}, [&] { cml::matrix_set_basis_vector_2D(m, i, v); }); break;
    case 1: if constexpr (v2) expect(g, "matrix_set_transposed_basis_vector_2D", {c_lin2, vs(n, 2), c_i2}, [&] { cml::matrix_set_transposed_basis_vector_2D(m, i, v); }); break;
    case 2: if constexpr (v2) expect(g, "matrix_set_basis_vectors_2D", {c_lin2, vs(n, 2), vs(n2, 2)}, [&] { cml::matrix_set_basis_vectors_2D(m, v, w); }); break;
    case 3: if constexpr (v2) expect(g, "matrix_set_transposed_basis_vectors_2D", {c_lin2, vs(n, 2), vs(n2, 2)}, [&] { cml::matrix_set_transposed_basis_vectors_2D(m, v, w); }); break;
    case 4: expect(g, "matrix_get_basis_vector_2D", {c_lin2, c_i2}, [&] { cml::matrix_get_basis_vector_2D(m, i); }); break;
    case 5: expect(g, "matrix_get_transposed_basis_vector_2D", {c_lin2, c_i2}, [&] { cml::matrix_get_transposed_basis_vector_2D(m, i); }); break;
    case 6: if constexpr (v3) expect(g, "matrix_set_basis_vector", {c_lin3, vs(n, 3), c_i3}, [&] { cml::matrix_set_basis_vector(m, i, v); }); break;
    case 7: if constexpr (v3) expect(g, "matrix_set_transposed_basis_vector", {c_lin3, vs(n, 3), c_i3}, [&] { cml::matrix_set_transposed_basis_vector(m, i, v); }); break;
    case 8: if constexpr (v3) expect(g, "matrix_set_basis_vectors", {c_lin3, vs(n, 3), vs(n2, 3), vs(n3, 3)}, [&] { cml::matrix_set_basis_vectors(m, v, w, u); }); break;
    case 9: if constexpr (v3) expect(g, "matrix_set_transposed_basis_vectors", {c_lin3, vs(n, 3), vs(n2, 3), vs(n3, 3)}, [&] { cml::matrix_set_transposed_basis_vectors(m, v, w, u); }); break;
    case 10: expect(g, "matrix_get_basis_vector", {c_lin3, c_i3}, [&] { cml::matrix_get_basis_vector(m, i); }); break;
    case 11: expect(g, "matrix_get_transposed_basis_vector", {c_lin3, c_i3}, [&] { cml::matrix_get_transposed_basis_vector(m, i); }); break;
    case 12: expect(g, "matrix_get_z_basis_vector", {c_lin3}, [&] { mod3 == 0 ? cml::matrix_get_x_basis_vector(m) : mod3 == 1 ? cml::matrix_get_y_basis_vector(m) : cml::matrix_get_z_basis_vector(m); }); break;
    case 13: expect(g, "matrix_rotation_world_axis", {c_lin3, c_i3}, [&] { cml::matrix_rotation_world_axis(m, i, a); }); break;
    case 14: expect(g, "matrix_rotation_2D", {c_lin2}, [&] { cml::matrix_rotation_2D(m, a); }); break;
    case 15: if constexpr (v2) expect(g, "matrix_rotation_align_2D", {c_lin2, c(n == 2, {SZ})}, [&] { cml::matrix_rotation_align_2D(m, v); }); break;
    case 16: if constexpr (v3) expect(g, "matrix_rotation_axis_angle", {c_lin3, vs(n, 3)}, [&] { cml::matrix_rotation_axis_angle(m, v, a); }); break;
    case 17: if constexpr (v3) expect(g, "matrix_rotation_euler(v)", {c_lin3, vs(n, 3)}, [&] { cml::matrix_rotation_euler(m, v, eo); }); break;
    case 18: if constexpr (v3) expect(g, "matrix_rotation_euler_derivatives(v)", {c_lin3, vs(n, 3), c_i3}, [&] { cml::matrix_rotation_euler_derivatives(m, i, v, eo); }); break;
    case 19: expect(g, "matrix_rotation_euler_derivatives", {c_lin3, c_i3, c(g.coin() ? (eo = cml::euler_order_zxz, false) : true, {IA})}, [&] { cml::matrix_rotation_euler_derivatives(m, i, a, b, a, eo); }); break;
    case 20: expect(g, "matrix_rotation_quaternion", {c_lin3}, [&] { cml::matrix_rotation_quaternion(m, cml::quaternion<E>(0.5, 0.5, 0.5, 0.5)); }); break;
    case 21: if constexpr (v3) { expect(g, "matrix_rotation_align", {c_lin3, c(n == 3 && n2 == 3, {SZ})}, [&] { cml::matrix_rotation_align(m, v, w); }); } break;
    case 22: if constexpr (vw && v3) { constexpr bool rs = vspec<V>::kind == 'D'; expect(g, "matrix_to_axis_angle", {c_lin3, c(rs || n == 3, {VS, IV})}, [&] { E t; cml::matrix_to_axis_angle(m, v, t); REQUIRE(v.size() == 3); }); if (r < 3 || k < 3 || !rs && n != 3) {} x1 = bx::rd(v); } break;
    case 23: expect(g, "matrix_to_euler", {c_lin3}, [&] { E t, s, z; cml::matrix_to_euler(m, t, s, z, eo); }); break;
    case 24: expect(g, "matrix_scale_2D(e,e)", {c_aff2}, [&] { cml::matrix_scale_2D(m, a, b); }); break;
    case 25: if constexpr (v2) expect(g, "matrix_scale_2D(v)", {c_aff2, vs(n, 2)}, [&] { cml::matrix_scale_2D(m, v); }); break;
    case 26: if constexpr (v2) expect(g, "matrix_inverse_scale_2D(v)", {c_aff2, vs(n, 2)}, [&] { cml::matrix_inverse_scale_2D(m, v); }); break;
    case 27: expect(g, "matrix_uniform_scale", {c_aff3}, [&] { cml::matrix_uniform_scale(m, a); }); break;
    case 28: if constexpr (v3) expect(g, "matrix_scale(v)", {c_aff3, vs(n, 3)}, [&] { cml::matrix_scale(m, v); }); break;
    case 29: if constexpr (v3) expect(g, "matrix_inverse_scale(v)", {c_aff3, vs(n, 3)}, [&] { cml::matrix_inverse_scale(m, v); }); break;
    case 30: expect(g, "matrix_set_translation_2D(e,e)", {c_aff2}, [&] { cml::matrix_set_translation_2D(m, a, b); }); break;
    case 31: if constexpr (v2) expect(g, "matrix_set_translation_2D(v)", {c_aff2, vs(n, 2)}, [&] { cml::matrix_set_translation_2D(m, v); }); break;
    case 32: expect(g, "matrix_get_translation_2D", {c_aff2}, [&] { cml::matrix_get_translation_2D(m); }); break;
    case 33: if constexpr (v2) expect(g, "matrix_translation_2D(v)", {c_aff2, vs(n, 2)}, [&] { cml::matrix_translation_2D(m, v); }); break;
    case 34: expect(g, "matrix_set_translation(e,e,e)", {c_aff3}, [&] { g.coin() ? cml::matrix_set_translation(m, a, b, a) : cml::matrix_set_translation(m, a, b); }); break;
    case 35: if constexpr (v2 || v3) expect(g, "matrix_set_translation(v)", {c_aff3, c(n == 2 || n == 3, {VR, VS})}, [&] { cml::matrix_set_translation(m, v); }); break;
    case 36: expect(g, "matrix_get_translation", {c_aff3}, [&] { E t, s, z; if (g.coin()) cml::matrix_get_translation(m); else cml::matrix_get_translation(m, t, s, z); }); break;
    case 37: if constexpr (v2 || v3) expect(g, "matrix_translation(v)", {c_aff3, c(n == 2 || n == 3, {VR, VS})}, [&] { cml::matrix_translation(m, v); }); break;
    case 38: if constexpr (v3) {
      expect(g, "matrix_look_at", {c_aff3, c(n == 3 && n2 == 3 && n3 == 3, {SZ})}, [&] { g.coin() ? cml::matrix_look_at_LH(m, v, w, u) : cml::matrix_look_at_RH(m, v, w, u); }); } break;
    case 39: { int r2 = (int)g.range(1, 5), k2 = (int)g.range(1, 5); if (g.coin()) r2 = k2 = 3; matrix<E, dynamic<>, typename mspec<M>::basis, row_major> l(r2, k2); l.fill(1);
      expect(g, "matrix_linear_transform", {c_lin3, c(r2 >= 3 && k2 >= 3, {MM})}, [&] { cml::matrix_linear_transform(m, l); }); } break;
    case 40: if constexpr (v3) expect(g, "matrix_affine_transform(axis)", {c_aff3, c(n == 3, {VS, MV}), c(n2 == 2 || n2 == 3, {VR, VS})}, [&] { cml::matrix_affine_transform(m, v, a, w, true); }); break;
    case 41: if constexpr (v3) { int r2 = (int)g.range(1, 5), k2 = (int)g.range(1, 5); if (g.coin()) r2 = k2 = 3; matrix<E, dynamic<>, typename mspec<M>::basis, col_major> l(r2, k2); l.fill(1);
      expect(g, "matrix_affine_transform(linear)", {c_aff3, c(r2 >= 3 && k2 >= 3, {MM}), c(n == 2 || n == 3, {VR, VS})}, [&] { cml::matrix_affine_transform(m, l, v); }); } break;
    case 42: expect(g, "matrix_invert_RT_only_2D", {c_aff2}, [&] { cml::matrix_invert_RT_only_2D(m); }); break;
    case 43: expect(g, "matrix_invert_RT_only", {c_aff3}, [&] { cml::matrix_invert_RT_only(m); }); break;
    case 44: expect(g, "matrix_invert_RT", {c_aff}, [&] { cml::matrix_invert_RT(m); }); break;
    case 45: if (g.coin()) expect(g, "trace_2x2", {c_lin2}, [&] { cml::trace_2x2(m); }); else expect(g, "trace_3x3", {c_lin3}, [&] { cml::trace_3x3(m); }); break;
    case 46: if constexpr (v3) { if (g.coin()) expect(g, "matrix_skew_symmetric(v)", {c_lin3, vs(n, 3)}, [&] { cml::matrix_skew_symmetric(m, v); }); else expect(g, "matrix_skew_symmetric(s)", {c_lin2}, [&] { cml::matrix_skew_symmetric_2D(m, a); }); } break;
    case 47: expect(g, "matrix_perspective", {c_44}, [&] { cml::matrix_perspective(m, -a, a, -b, b, 0.5, 10., cml::right_handed, cml::z_clip_neg_one); }); break;
    case 48: expect(g, "matrix_orthographic", {c_44}, [&] { cml::matrix_orthographic(m, -a, a, -b, b, 0.5, 10., cml::left_handed, cml::z_clip_zero); }); break;
    case 49: if constexpr (v2) { if (g.coin()) expect(g, "transform_vector_2D", {c_lin2, vs(n, 2)}, [&] { cml::transform_vector_2D(m, v); }); else expect(g, "transform_point_2D", {c_aff2, vs(n, 2)}, [&] { cml::transform_point_2D(m, v); }); } break;
    case 50: if constexpr (v3) { if (g.coin()) expect(g, "transform_vector", {c_lin3, vs(n, 3)}, [&] { cml::transform_vector(m, v); }); else expect(g, "transform_point", {c_aff3, vs(n, 3)}, [&] { cml::transform_point(m, v); }); } break;
    case 51: if constexpr (v4) expect(g, "transform_vector_4D", {c_44x, vs(n, 4)}, [&] { cml::transform_vector_4D(m, v); }); break;
    case 52: if constexpr (v3) expect(g, "transform_point_4D", {c_44x, vs(n, 3)}, [&] { cml::transform_point_4D(m, v); }); break;
    default: { E pl[6][4]; if (g.coin()) expect(g, "extract_frustum_planes(m)", {c_44}, [&] { cml::extract_frustum_planes(m, pl, cml::z_clip_zero, false); });
      else { int s2 = g.coin() ? 4 : (int)g.range(1, 5); matrix<E, dynamic<>, typename mspec<M>::basis, typename mspec<M>::layout> p(s2, s2); p.identity();
        expect(g, "extract_frustum_planes(m,p)", {c(r == k && k == s2, {NS, IN}), c_44, c(s2 >= 4, {MM})}, [&] { cml::extract_frustum_planes(m, p, pl, cml::z_clip_zero, false); }); } }
  }
  if (op != 22) expect_vec(vb1.cr(), x1, "first vector operand afterwards");
  expect_vec(vb2.cr(), x2, "second vector operand afterwards"); expect_vec(vb3.cr(), x3, "third vector operand afterwards");
}
// ------------------------------------------------ mathlib functions of vectors
template <class V, class W> void vlib(Gen& g) {
  using E = double;
  constexpr int VN = vspec<V>::n, WN = vspec<W>::n;
  constexpr bool v2 = (VN < 0 || VN == 2) && (WN < 0 || WN == 2), v3 = (VN < 0 || VN == 3) && (WN < 0 || WN == 3), w2 = WN < 0 || WN == 2, w3 = WN < 0 || WN == 3, eqv = VN < 0 || WN < 0 || VN == WN;
  int n = VN > 0 ? VN : g.coin() ? (int)g.range(2, 3) : (int)g.range(0, 5), n2 = WN > 0 ? WN : g.coin() ? n : (int)g.range(0, 5);
  auto vv = [&](int z) { std::vector<E> x(z); for (auto& e : x) e = g.real(0.25, 2); return x; };
  auto x1 = vv(n), x2 = vv(n2);
  int op = (int)g.below(25), i = (int)g.range(-1, 3);
  g.nontrivial(n + n2 > 2);
  g.note([&](auto& o) { o << "op " << op << " sizes " << n << "," << n2 << " index " << i; });
  VBox<V> vb(x1); VBox<W> wb(x2); auto& v = *vb; auto& w = *wb;
  auto vs = [&](int sz, int want) { return c(sz == want, {VS}); };
  auto c_i3 = c(i >= 0 && i <= 2, {IA});
  auto eq = c(n == n2, {IV, MV}), pos = c(n > 0 && n2 > 0, {MV});
  bool keep = true; E a, b, h;
  switch (op) {
    case 0: if constexpr (v3) expect(g, "unsigned_angle", {vs(n, 3), vs(n2, 3), eq, pos}, [&] { cml::unsigned_angle(v, w); }); break;
    case 1: if constexpr (v2) expect(g, "signed_angle_2D", {vs(n, 2), vs(n2, 2), eq, pos}, [&] { cml::signed_angle_2D(v, w); }); break;
    case 2: if constexpr (v2) expect(g, "unsigned_angle_2D", {vs(n, 2), vs(n2, 2), eq, pos}, [&] { cml::unsigned_angle_2D(v, w); }); break;
    case 3: if constexpr (v3) expect(g, "signed_angle", {vs(n, 3), vs(n2, 3), eq, pos}, [&] { cml::signed_angle(v, w, v); }); break;
    case 4: if constexpr (eqv) expect(g, "project_to_vector", {eq, pos}, [&] { cml::project_to_vector(v, w); }); break;
    case 5: if constexpr (eqv) expect(g, "project_to_hplane", {eq, pos}, [&] { cml::project_to_hplane(v, w); }); break;
    case 6: if constexpr (w2) expect(g, "perp", {vs(n2, 2)}, [&] { cml::perp(w); }); break;
    case 7: if constexpr (eqv) expect(g, "manhattan_distance", {eq, pos}, [&] { cml::manhattan_distance(v, w); }); break;
    case 8: if constexpr (v3) expect(g, "rotate_vector", {vs(n, 3), vs(n2, 3)}, [&] { cml::rotate_vector(v, w, 0.5); }); break;
    case 9: if constexpr (eqv) expect(g, "dot(v+w,v)", {eq, pos}, [&] { cml::dot(v + w, v); }); break;
    case 10: keep = false; if constexpr (VN < 0 || VN == 2) expect(g, "polar_to_cartesian", {vs(n, 2)}, [&] { cml::polar_to_cartesian(v, 2., 0.5); }); break;
    case 11: keep = false; if constexpr (VN < 0 || VN == 3) expect(g, "cylindrical_to_cartesian", {vs(n, 3), c_i3}, [&] { cml::cylindrical_to_cartesian(v, i, 2., 0.5, 1.); }); break;
    case 12: keep = false; if constexpr (VN < 0 || VN == 3) expect(g, "spherical_to_cartesian", {vs(n, 3), c_i3}, [&] { cml::spherical_to_cartesian(v, i, cml::colatitude, 2., 0.5, 1.); }); break;
    case 13: if constexpr (w2) expect(g, "cartesian_to_polar", {vs(n2, 2)}, [&] { cml::cartesian_to_polar(w, a, b); }); break;
    case 14: if constexpr (w3) expect(g, "cartesian_to_cylindrical", {vs(n2, 3), c_i3}, [&] { cml::cartesian_to_cylindrical(w, i, a, b, h); }); break;
    case 15: if constexpr (w3) expect(g, "cartesian_to_spherical", {vs(n2, 3), c_i3}, [&] { cml::cartesian_to_spherical(w, i, cml::latitude, a, b, h); }); break;
    case 16: keep = false; { static std::mt19937 gen(5); expect(g, "random_unit", {c(n >= 1, {MV})}, [&] { cml::random_unit(v, gen); }); } break;
    case 17: keep = false; if constexpr (eqv) if (n2 > 0) { std::srand((unsigned)g.below(1000)); constexpr bool rs = vspec<V>::kind == 'D'; E s = 0; for (auto e : x2) s += e * e; for (int q = 0; q < n2; ++q) x2[q] /= std::sqrt(s);
      VBox<W> wb2(x2); auto& w = *wb2; x2 = bx::rd(wb.cr());
      double ang = g.chance(1, 4) ? g.coin() ? 1.7 : 0. : 0.5; if (n2 >= 2) expect(g, "random_unit(cone)", {c(rs || n == n2, {IV, VS}), c(ang == 0.5, {IA})}, [&] { cml::random_unit(v, w, ang); REQUIRE(v.size() == n2); }); } break;
    case 18: if constexpr (w3 || WN == 2) { quaternion<E> q; if constexpr (w3) expect(g, "quaternion_rotation_axis_angle", {vs(n2, 3)}, [&] { cml::quaternion_rotation_axis_angle(q, w, 0.5); }); } break;
    case 19: if constexpr (v3) { quaternion<E> q; if (n == 3) { v[0] += 5; x1[0] += 5; } expect(g, "quaternion_rotation_align", {c(n == 3 && n2 == 3, {SZ})}, [&] { cml::quaternion_rotation_align(q, v, w); }); } break;
    case 20: if constexpr (v3) { vector<E, fixed<3>> x, y, z; if (n == 3) { v[0] += 5; x1[0] += 5; } expect(g, "orthonormal_basis", {c(n == 3 && n2 == 3, {SZ})}, [&] { cml::orthonormal_basis(v, w, x, y, z); }); } break;
    case 21: if constexpr (w2) { vector<E, fixed<2>> x, y; expect(g, "orthonormal_basis_2D", {c(n2 == 2, {SZ})}, [&] { cml::orthonormal_basis_2D(w, x, y); }); } break;
    case 22: if constexpr (eqv) { bool wr = vspec<V>::kind == 'D' || n == n2; keep = !wr; expect(g, "v=-w", {c(wr, {IV})}, [&] { v = -w; }); } break;
    case 23: expect(g, "subvector", {}, [&] { if (n2 > 1) { auto s = cml::subvector(w, 0); REQUIRE(s.size() == n2 - 1); } }); break;
    default: expect(g, "length", {c(n2 > 0, {MV})}, [&] { w.length(); cml::length_squared(w); }); break;
  }
  if (keep) expect_vec(vb.cr(), x1, "first operand afterwards");
  expect_vec(wb.cr(), x2, "second operand afterwards");
}
}  // namespace p9
using namespace p9;
