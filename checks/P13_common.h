#pragma once
#include <cml/util/vector_hash.h>
#include <algorithm>
#include <iomanip>
#include <set>
#include <unordered_map>
#include <unordered_set>
// P13: comparison, hashing, printing.
template <class T> constexpr bool vowns = vspec<T>::kind == 'F' || vspec<T>::kind == 'D';
// values from a small alphabet, so that ties and prefixes are common
template <class E> E sv(Gen& g) {
  switch (g.below(8)) {
    case 0: return E(1);
    case 1: return std::is_unsigned_v<E> ? E(2) : E(-1);
    case 2: return std::is_floating_point_v<E> ? E(-0.0) : E(0);
    case 3: return std::numeric_limits<E>::max();
    case 4: return std::is_floating_point_v<E> ? E(0.1) : E(7);
    case 5: return std::is_floating_point_v<E> ? std::nextafter(E(1), E(2)) : E(2);
    case 6: return std::numeric_limits<E>::lowest();
    default: return E(0);
  }
}
template <class A, class B> int lex(const std::vector<A>& a, const std::vector<B>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) { if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1; }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
template <class X, class Y> void rel(const X& x, const Y& y, int c, const char* what) {
  REQUIRE((x == y) == (c == 0), << what << ": =="); REQUIRE((x != y) == (c != 0), << what << ": !=");
  REQUIRE((x < y) == (c < 0), << what << ": <"); REQUIRE((x > y) == (c > 0), << what << ": >");
  REQUIRE((x <= y) == (c <= 0), << what << ": <="); REQUIRE((x >= y) == (c >= 0), << what << ": >=");
}
// b is a copy / small edit / independent of a
template <class A, class B, class F> std::vector<B> related(Gen& g, const std::vector<A>& a, int n, F mk) {
  std::vector<B> b; for (int i = 0; i < n; ++i) b.push_back(i < (int)a.size() ? (B)a[i] : mk());
  switch (g.below(4)) {
    case 0: break;
    case 1: if (n) b[g.below(n)] = mk(); break;
    case 2: if (n) b[n - 1 - g.below(std::min(n, 2))] = mk(); break;
    default: for (auto& e : b) e = mk();
  }
  return b;
}
template <class A, class B> void vrel(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>;
  int n = pick_n<A>(g, 0, 5), m = vspec<B>::n > 0 ? vspec<B>::n : g.coin() ? n : (int)g.range(0, 5);
  // mixed element types: values exact in both
  auto mka = [&] { if constexpr (std::is_same_v<EA, EB>) return sv<EA>(g); else return (EA)g.range(0, 3); };
  auto mkb = [&] { if constexpr (std::is_same_v<EA, EB>) return sv<EB>(g); else { EB e = (EB)g.range(0, 3); if (std::is_floating_point_v<EB> && g.coin()) e += EB(.5); return e; } };
  std::vector<EA> x; for (int i = 0; i < n; ++i) x.push_back(mka());
  std::vector<EB> y = related<EA, EB>(g, x, m, mkb);
  g.nontrivial(n > 0 && m > 0); int c = lex(x, y); g.label(c == 0 ? "equal" : "different");
  g.note([&](auto& o) { o << fw::show(x) << " vs " << fw::show(y); });
  VBox<A> a(x); VBox<B> b(y); const A& ca = a.cr(); const B& cb = b.cr();
  rel(*a, *b, c, "a,b"); rel(ca, cb, c, "const a, const b"); rel(cb, ca, -c, "b,a");
  rel(ca, ca, 0, "a,a");
  if constexpr (vspec<A>::kind != 'c' && vspec<A>::kind != 'k' && std::is_floating_point_v<EA> && std::is_floating_point_v<EB>) {
    std::vector<EA> nx = x; std::vector<EB> ny = y; for (auto& e : nx) e = -e; for (auto& e : ny) e = -e;
    rel(-*a, -*b, lex(nx, ny), "-a,-b"); rel(-*a, cb, lex(nx, y), "-a,b"); rel(*a, -*b, lex(x, ny), "a,-b");
  }
  if (n > 0 && m > 0) if constexpr (vspec<A>::n != 1 && vspec<B>::n != 1) {
    int i = (int)g.below(n), j = (int)g.below(m); auto sx = x; auto sy = y; sx.erase(sx.begin() + i); sy.erase(sy.begin() + j);
    rel(cml::subvector(ca, i), cml::subvector(cb, j), lex(sx, sy), "subvectors"); rel(cml::subvector(ca, i), cb, lex(sx, y), "subvector vs vector");
  }
}
// sorted and hashed containers behave as with std::vector keys
template <class V> void containers(Gen& g) {
  using E = elem_t<V>; int n = g.szh(1, 14);
  std::vector<std::vector<E>> xs; std::vector<V> vs;
  int dim = vspec<V>::n > 0 ? vspec<V>::n : 0;
  for (int i = 0; i < n; ++i) {
    std::vector<E> x; if (i && g.chance(1, 3)) x = xs[g.below(i)]; else { int d = dim ? dim : (int)g.range(0, 4); for (int k = 0; k < d; ++k) x.push_back(sv<E>(g)); }
    if (g.coin()) for (auto& e : x) if (e == E(0)) e = std::is_floating_point_v<E> ? E(-0.0) : E(0);
    xs.push_back(x); VBox<V> b(x); vs.push_back(b.v);
  }
  g.nontrivial(n > 2); g.note([&](auto& o) { for (auto& x : xs) o << fw::show(x); });
  auto key = [](std::vector<E> x) { for (auto& e : x) if (e == E(0)) e = E(0); return x; };
  std::set<std::vector<E>> ms; for (auto& x : xs) ms.insert(key(x));
  std::set<V> s(vs.begin(), vs.end()); REQUIRE(s.size() == ms.size(), << "std::set holds " << s.size() << " want " << ms.size());
  auto it = ms.begin(); for (auto& v : s) { expect_vec(v, *it, "std::set order"); ++it; }
  auto sorted = vs; std::sort(sorted.begin(), sorted.end()); for (int i = 0; i + 1 < n; ++i) REQUIRE(!(sorted[i + 1] < sorted[i]) && sorted[i] <= sorted[i + 1], << "sorted");
  std::unordered_set<V> u(vs.begin(), vs.end()); REQUIRE(u.size() == ms.size(), << "std::unordered_set holds " << u.size() << " want " << ms.size());
  std::unordered_map<V, int> um; std::map<std::vector<E>, int> mm;
  for (int i = 0; i < n; ++i) { um[vs[i]] += i; mm[key(xs[i])] += i; }
  for (int i = 0; i < n; ++i) { REQUIRE(u.count(vs[i]) == 1, << "found in the hash set"); auto f = um.find(vs[i]); REQUIRE(f != um.end() && f->second == mm[key(xs[i])], << "hash map value"); }
  std::hash<V> h; for (int i = 0; i < n; ++i) { V c(vs[i]); REQUIRE(h(c) == h(vs[i]), << "hash of a copy"); for (int j = 0; j < i; ++j) if (vs[i] == vs[j]) REQUIRE(h(vs[i]) == h(vs[j]), << "equal vectors hash equally"); }
}
// equal vectors of different storage hash equally
template <class A, class B> void hashes(Gen& g) {
  using E = elem_t<A>; int n = vspec<A>::n > 0 ? vspec<A>::n : pick_n<B>(g, 0, 6);
  std::vector<E> x; for (int i = 0; i < n; ++i) x.push_back(sv<E>(g)); auto y = x; for (auto& e : y) if (e == E(0) && g.coin()) e = -e;
  g.nontrivial(n > 0); g.note([&](auto& o) { o << fw::show(x); });
  VBox<A> a(x); VBox<B> b(y);
  REQUIRE(a.cr() == b.cr()); REQUIRE(std::hash<A>()(a.cr()) == std::hash<B>()(b.cr()), << "equal vectors hash equally");
}
template <class A, class B> void mrel(Gen& g) {
  using EA = melem_t<A>; using EB = melem_t<B>;
  auto x = shape<A>(g, 0, 4); Mod<EB> y;
  if constexpr (mspec<B>::r > 0) y = Mod<EB>(mspec<B>::r, mspec<B>::c);
  else switch (g.below(4)) { case 0: y = Mod<EB>(x.c, x.r); break; case 1: y = shape<B>(g, 0, 4); break; default: y = Mod<EB>(x.r, x.c); }
  for (auto& e : x.d) if constexpr (std::is_same_v<EA, EB>) e = sv<EA>(g); else e = (EA)g.range(0, 3);
  auto mkb = [&] { if constexpr (std::is_same_v<EA, EB>) return sv<EB>(g); else { EB e = (EB)g.range(0, 3); if (std::is_floating_point_v<EB> && g.coin()) e += EB(.5); return e; } };
  for (int i = 0; i < y.r; ++i) for (int j = 0; j < y.c; ++j) y(i, j) = i < x.r && j < x.c ? (EB)x(i, j) : mkb();
  if (g.chance(1, 8)) y.d.assign(y.d.size(), EB(1)), x.d.assign(x.d.size(), EA(1));
  if (y.d.size() && g.coin()) y.d[g.below(y.d.size())] = mkb();
  bool eq = x.r == y.r && x.c == y.c; if (eq) for (size_t i = 0; i < x.d.size(); ++i) eq = eq && x.d[i] == y.d[i];
  g.label(eq ? "equal" : "different"); g.nontrivial(x.d.size() && y.d.size()); g.note([&](auto& o) { o << show(x) << " vs " << show(y); });
  MBox<A> a(x); MBox<B> b(y);
  auto chk = [&](const auto& p, const auto& q, bool e, const char* what) { REQUIRE((p == q) == e, << what << " =="); REQUIRE((p != q) == !e, << what << " !="); REQUIRE((q == p) == e, << what << " == swapped"); REQUIRE((q != p) == !e, << what << " != swapped"); };
  chk(*a, *b, eq, "a,b"); chk(a.cr(), b.cr(), eq, "const"); chk(a.cr(), a.cr(), true, "a,a");
  chk(cml::transpose(*a), cml::transpose(*b), eq, "transposes");
  if (std::is_floating_point_v<EA> && std::is_floating_point_v<EB>) chk(-*a, -*b, eq, "negated");
  bool sym = x.r == x.c; if (sym) for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) sym = sym && x(i, j) == x(j, i);
  chk(*a, cml::transpose(*a), sym, "a,transpose(a)");
}
template <class Q, class R> void qrel(Gen& g) {
  using EA = cml::value_type_of_t<Q>; using EB = cml::value_type_of_t<R>;
  auto mka = [&] { if constexpr (std::is_same_v<EA, EB>) return sv<EA>(g); else return (EA)g.range(0, 3); };
  auto mkb = [&] { if constexpr (std::is_same_v<EA, EB>) return sv<EB>(g); else { EB e = (EB)g.range(0, 3); if (g.coin()) e += EB(.5); return e; } };
  std::vector<EA> x; for (int i = 0; i < 4; ++i) x.push_back(mka());
  auto y = related<EA, EB>(g, x, 4, mkb); int c = lex(x, y); g.label(c ? "different" : "equal"); g.nontrivial(varied(x)); g.note([&](auto& o) { o << fw::show(x) << " vs " << fw::show(y); });
  Q p; R q; for (int i = 0; i < 4; ++i) { p[i] = x[i]; q[i] = y[i]; }
  rel(p, q, c, "p,q"); rel(q, p, -c, "q,p"); rel(p, p, 0, "p,p");
  if constexpr (!std::is_integral_v<EA> && !std::is_integral_v<EB>) {
    std::vector<EA> nx; for (auto e : x) nx.push_back(-e); std::vector<EB> ny; for (auto e : y) ny.push_back(-e);
    rel(-p, -q, lex(nx, ny), "-p,-q"); rel(-p, q, lex(nx, y), "-p,q"); rel(-(-p), q, c, "-(-p),q");
  }
  if constexpr (std::is_same_v<Q, R>) { std::set<Q> s{p, q, p}; REQUIRE(s.size() == (c ? 2u : 1u), << "std::set of quaternions"); }
}
// printing under several stream states
template <class F> void stream(Gen& g, std::ostream& o, F f) {
  switch (g.below(5)) { case 0: o << std::setprecision(17); break; case 1: o << std::fixed << std::setprecision(2); break; case 2: o << std::showpos; break; case 3: o << std::scientific; break; }
  f(o);
}
template <class V> void vprint(Gen& g) {
  using E = elem_t<V>; int n = pick_n<V>(g, 0, 7); std::vector<E> x; for (int i = 0; i < n; ++i) x.push_back(g.coin() ? sv<E>(g) : fw::any_value<E>(g));
  g.nontrivial(n > 1); g.note([&](auto& o) { o << fw::show(x); });
  VBox<V> b(x); std::ostringstream got, want;
  stream(g, got, [&](auto& o) { want.copyfmt(o); std::ostream& r = o << b.cr(); REQUIRE(&r == &o, << "returns its stream"); o << "|" << *b; });
  for (int k = 0; k < 2; ++k) { for (int i = 0; i < n; ++i) want << (i ? " " : "") << x[i]; if (!k) want << "|"; }
  REQUIRE(got.str() == want.str(), << "printed '" << got.str() << "' want '" << want.str() << "'");
  if constexpr (vspec<V>::kind != 'c' && vspec<V>::kind != 'k' && std::is_floating_point_v<E>) if (n) {
    std::ostringstream o2, w2; o2 << -*b; for (int i = 0; i < n; ++i) w2 << (i ? " " : "") << -x[i]; REQUIRE(o2.str() == w2.str(), << "printed -v as '" << o2.str() << "' want '" << w2.str() << "'");
  }
}
template <class M> void mprint(Gen& g) {
  using E = melem_t<M>; auto x = shape<M>(g, 0, 4); for (auto& e : x.d) e = g.coin() ? sv<E>(g) : fw::any_value<E>(g);
  g.nontrivial(x.d.size() > 1); g.note([&](auto& o) { o << show(x); });
  MBox<M> b(x); std::ostringstream got, want;
  stream(g, got, [&](auto& o) { want.copyfmt(o); std::ostream& r = o << b.cr(); REQUIRE(&r == &o, << "returns its stream"); o << "|" << cml::transpose(*b); });
  auto pr = [&](const Mod<E>& m) { for (int i = 0; i < m.r; ++i) { if (i) want << "\n"; want << "["; for (int j = 0; j < m.c; ++j) want << " " << m(i, j); want << " ]"; } };
  pr(x); want << "|"; pr(x.tr());
  REQUIRE(got.str() == want.str(), << "printed '" << got.str() << "' want '" << want.str() << "'");
}
template <class Q> void qprint(Gen& g) {
  using E = cml::value_type_of_t<Q>; E w = sv<E>(g), x = sv<E>(g), y = sv<E>(g), z = fw::any_value<E>(g);
  g.nontrivial(w != x); g.note([&](auto& o) { o << w << " " << x << " " << y << " " << z; });
  Q q; q[Q::W] = w; q[Q::X] = x; q[Q::Y] = y; q[Q::Z] = z;
  std::ostringstream got, want;
  stream(g, got, [&](auto& o) { want.copyfmt(o); std::ostream& r = o << q; REQUIRE(&r == &o); o << -q; });
  want << "[  " << w << " " << x << " " << y << " " << z << " ][  " << -w << " " << -x << " " << -y << " " << -z << " ]";
  REQUIRE(got.str() == want.str(), << "printed '" << got.str() << "' want '" << want.str() << "'");
}
