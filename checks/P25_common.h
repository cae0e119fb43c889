#pragma once
#include "geom.h"
#include <array>
// P25: quaternions hold exactly their components.  Model: c[w, x, y, z].
template <class E> struct W4 { E w = 0, x = 0, y = 0, z = 0; E& at(int c) { return c == 0 ? w : c == 1 ? x : c == 2 ? y : z; } E get(int c) const { return c == 0 ? w : c == 1 ? x : c == 2 ? y : z; } };
template <class Q> constexpr bool realfirst = std::is_same_v<typename Q::order_type, cml::real_first>;
template <class Q> constexpr int at(int c) { return realfirst<Q> ? c : (c + 3) % 4; }   // storage position of component c (w x y z)
template <class E> E comp(Gen& g) { return g.coin() ? fw::exact<E>(g, 100) : std::is_integral_v<E> ? (E)g.sym(1000000) : (E)g.symreal(1e6); }
template <class E> E comp_for(Gen& g, bool integral) { if (integral && !std::is_integral_v<E>) return (E)g.symreal(1e5); return comp<E>(g); }
template <class Q, class E> void expect_w4(const Q& q, const W4<E>& m, const char* what) {
  E s[4]; for (int c = 0; c < 4; ++c) s[at<Q>(c)] = m.get(c); std::vector<E> sv(s, s + 4);
  REQUIRE(q.size() == 4 && q.w() == m.w && q.x() == m.x && q.y() == m.y && q.z() == m.z, << what << ": (w " << +q.w() << " x " << +q.x() << " y " << +q.y() << " z " << +q.z() << ") want (w " << +m.w << " x " << +m.x << " y " << +m.y << " z " << +m.z << ")");
  for (int i = 0; i < 4; ++i) REQUIRE(q[i] == s[i] && q.get(i) == s[i] && q.data()[i] == s[i] && q.begin()[i] == s[i], << what << ": stored element " << i << " is " << +q[i] << " want " << +s[i]); REQUIRE(q.end() - q.begin() == 4, << what << ": end()");
  auto v = q.imaginary(); REQUIRE(q.real() == m.w && v.size() == 3 && v[0] == m.x && v[1] == m.y && v[2] == m.z, << what << ": real and imaginary parts");
  REQUIRE(q[Q::W] == m.w && q[Q::X] == m.x && q[Q::Y] == m.y && q[Q::Z] == m.z, << what << ": named indices");
}
template <class Q, class F> Q& assign_il(Q& q, const F* s) { return q = {s[0], s[1], s[2], s[3]}; }
template <class Q, class P, class V> void history(Gen& g) {
  using E = qelem_t<Q>; using F = qelem_t<P>; using G = elem_t<V>; constexpr bool ie = std::is_integral_v<E>; W4<E> m; Q q; for (int c = 0; c < 4; ++c) { m.at(c) = comp<E>(g); q[at<Q>(c)] = m.get(c); } expect_w4(std::as_const(q), m, "initial");
  const int n = (int)g.range(1, 8); bool nt = false;
  for (int it = 0; it < n; ++it) {
    const int op = (int)g.below(17); const bool build = g.coin(); F f[4]; for (auto& e : f) e = comp_for<F>(g, ie); W4<E> s; for (int c = 0; c < 4; ++c) s.at(c) = (E)f[at<Q>(c)]; std::vector<G> v(vspec<V>::n > 0 ? vspec<V>::n : 3); for (auto& e : v) e = comp_for<G>(g, ie); F r = f[0]; W4<E> vs{(E)r, (E)v[0], (E)v[1], (E)v[2]}; const char* what = ""; W4<E> want = m;
    nt |= s.w != s.x && s.x != s.y && s.y != s.z; g.note([&](auto& o) { o << "op " << op << (build ? " build " : " assign ") << +f[0] << " " << +f[1] << " " << +f[2] << " " << +f[3] << " vector " << fw::show(v); });
    P p; for (int c = 0; c < 4; ++c) p[at<P>(c)] = f[c]; W4<E> ps{(E)f[0], (E)f[1], (E)f[2], (E)f[3]}; VBox<V> vb(v); F a3[3] = {f[1], f[2], f[3]}; W4<E> as{(E)f[0], (E)f[1], (E)f[2], (E)f[3]};
    switch (op) {
      case 0: what = "four values"; want = s; q = Q(f[0], f[1], f[2], f[3]); break;
      case 1: what = "four values of mixed types"; want = s; want.at((4 - at<Q>(0)) % 4); { double d = (double)f[1]; F c = f[2]; q = Q(f[0], d, c, f[3]); } break;
      case 2: what = "vector and scalar"; want = vs; if (build) q = Q(vb.cr(), r); else { Q& k = q.set(vb.cr(), r); REQUIRE(&k == &q); } break;
      case 3: what = "scalar and vector"; want = vs; if (build) q = Q(r, vb.cr()); else { Q& k = q.set(r, vb.cr()); REQUIRE(&k == &q); } break;
      case 4: what = "vector expression and scalar"; want = {(E)r, (E)(-v[0]), (E)(-v[1]), (E)(-v[2])}; if (g.coin()) { if (build) q = Q(-vb.cr(), r); else q.set(-vb.cr(), r); } else { if (build) q = Q(r, -vb.cr()); else q = Q().set(r, -vb.cr()); } break;
      case 5: what = "array"; want = s; if (build) q = Q(f); else q = f; break;
      case 6: what = "pointer"; want = s; q = Q((const F*)f); break;
      case 7: what = "array and scalar"; want = as; q = g.coin() ? Q(a3, r) : Q(r, a3); break;
      case 8: what = "initializer list"; want = s; if (build) { Q t = {f[0], f[1], f[2], f[3]}; q = t; } else { Q& k = assign_il(q, f); REQUIRE(&k == &q); } break;
      case 9: what = "another quaternion"; want = ps; if (build) q = Q(p); else { Q& k = (q = p); REQUIRE(&k == &q); } break;
      case 10: what = "a quaternion expression"; want = {(E)-f[0], (E)-f[1], (E)-f[2], (E)-f[3]}; if (build) q = Q(-p); else q = -p; break;
      case 11: what = "a conjugate expression"; want = {(E)f[0], (E)-f[1], (E)-f[2], (E)-f[3]}; if (build) q = Q(std::as_const(p).conjugate()); else q = cml::conjugate(p); break;
      case 12: what = "put"; { int i = (int)g.below(4), c = (i - at<Q>(0) + 4) % 4; want.at(c) = (E)f[0]; if (build) { Q t = Q(q).put(i, f[0]); q = t; } else { Q& k = q.put(i, f[0]); REQUIRE(&k == &q); } } break;
      case 13: what = "element reference"; { int c = (int)g.below(4); want.at(c) = (E)f[0]; E e = (E)f[0]; switch (g.below(4)) { case 0: q[at<Q>(c)] = e; break; case 1: q.get(at<Q>(c)) = e; break; case 2: q.data()[at<Q>(c)] = e; break; default: (c == 0 ? q.w() : c == 1 ? q.x() : c == 2 ? q.y() : q.z()) = e; } } break;
      case 14: what = "copy and move"; { Q a(q); expect_w4(std::as_const(a), m, "copy"); Q b(std::move(a)); expect_w4(std::as_const(b), m, "move"); Q c; c = b; expect_w4(std::as_const(c), m, "copy assignment"); Q d; d = std::move(c); expect_w4(std::as_const(d), m, "move assignment"); q[0] = E(0); q = d; Q& self = q; q = self; expect_w4(std::as_const(q), m, "self assignment"); for (int i = 0; i < 4; ++i) d[i] = E(9); } break;
      case 15: what = "assignment to a temporary"; want = build ? ps : s; { Q t; if (build) t = (Q() = p); else t = (Q() = f); q = t; } break;
      default: what = "wrong sizes"; { std::initializer_list<F> l3 = {f[0], f[1], f[2]}, l5 = {f[0], f[1], f[2], f[3], f[0]}; bool five = g.coin(); REQUIRE_THROWS(cml::quaternion_size_error, Q(five ? l5 : l3)); REQUIRE_THROWS(cml::quaternion_size_error, (q = five ? l5 : l3)); if constexpr (vspec<V>::n < 0) { VBox<V> w(exact_vec<G>(g, g.coin() ? 4 : 2)); REQUIRE_THROWS(cml::vector_size_error, Q(w.cr(), r)); REQUIRE_THROWS(cml::vector_size_error, Q(r, w.cr())); REQUIRE_THROWS(cml::vector_size_error, q.set(w.cr(), r)); REQUIRE_THROWS(cml::vector_size_error, q.set(r, w.cr())); } }
    }
    m = want; g.label(what); expect_w4(std::as_const(q), m, what); expect_vec(vb.cr(), v, "source vector");
    for (int c = 0; c < 4; ++c) REQUIRE(p[at<P>(c)] == f[c], << "source quaternion changed");
  }
  g.nontrivial(nt);
}
// compound addition and subtraction go component by component, whatever the order of the other operand
template <class Q, class P> void compound(Gen& g) {
  using E = qelem_t<Q>; using F = qelem_t<P>; W4<E> m, w; W4<F> o; Q q; P p; bool plus = g.coin(), ex = g.coin(); for (int c = 0; c < 4; ++c) { m.at(c) = fw::exact<E>(g); o.at(c) = fw::exact<F>(g); q[at<Q>(c)] = m.get(c); p[at<P>(c)] = o.get(c); w.at(c) = (E)(plus == !ex ? m.get(c) + o.get(c) : m.get(c) - o.get(c)); } g.nontrivial(o.w != o.x && o.x != o.y); g.note([&](auto& s) { s << (plus ? "+=" : "-=") << (ex ? " expression" : ""); });
  if (plus) { if (ex) q += -p; else q += p; } else { if (ex) q -= -p; else q -= p; } expect_w4(std::as_const(q), w, plus ? "+=" : "-="); Q t = plus ? Q(Q(q) -= p) : Q(Q(q) += p); (void)t;
}
