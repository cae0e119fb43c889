#pragma once
#include <array>
#include <utility>

template <class To, class From> std::vector<To> conv(const std::vector<From>& x) {
  std::vector<To> r; for (auto e : x) r.push_back((To)e); return r;
}
// values safe to convert to any element type (int included)
template <class S> std::vector<S> src_vals(Gen& g, int n, bool to_int) {
  if (to_int) return exact_vec<S>(g, n, 1000);
  return any_vec<S>(g, n);
}
template <class V> void agree(const V& v, const std::vector<elem_t<V>>& w, const char* what) {
  using E = elem_t<V>;
  expect_vec(v, w, what);
  for (size_t i = 0; i < w.size(); ++i) {
    REQUIRE(fw::same<E>(v.get((int)i), w[i]), << what << ": get(" << i << ")");
    REQUIRE(fw::same<E>(v.data()[i], w[i]), << what << ": data()[" << i << "]");
  }
  REQUIRE(v.end() - v.begin() == (std::ptrdiff_t)w.size(), << what << ": end-begin");
  constexpr int N = vspec<V>::n; constexpr int a = V::array_size, c = V::supervector_type::array_size; constexpr int b = [] { if constexpr (N == 1) return 0; else return (int)V::subvector_type::array_size; }();   // a vector of 1 element has no subvector
  REQUIRE(a == N && b == (N > 0 ? N - 1 : -1) && c == (N > 0 ? N + 1 : -1), << "compile-time sizes: vector " << a << " subvector " << b << " supervector " << c);
  if constexpr (N > 0) { constexpr int d = V::dimension; REQUIRE(d == N, << "dimension " << d); }
  size_t k = 0;
  for (auto e : v) { REQUIRE(fw::same<E>(e, w[k]), << what << ": iteration " << k); ++k; }
}
// value conversions that would be UB / lossy-overflowing are avoided
template <class To, class From> std::vector<From> gsrc(Gen& g, int n) {
  return src_vals<From>(g, n, std::is_integral_v<To> || (std::is_same_v<To, float> && std::is_same_v<From, double>));
}

template <class V, class S, size_t... I> V make_elems(const std::vector<S>& x, std::index_sequence<I...>) { return V(x[I]...); }
template <class V, class S, size_t... I> V make_list(const std::vector<S>& x, std::index_sequence<I...>) { return V(std::initializer_list<S>{x[I]...}); }
template <class V, class S, size_t... I> V make_brace(const std::vector<S>& x, std::index_sequence<I...>) { V v = {x[I]...}; return v; }
template <class V, class S, size_t... I> void set_elems(V& v, const std::vector<S>& x, std::index_sequence<I...>) { v.set(x[I]...); }
template <class V, class S, size_t... I> void set_list(V& v, const std::vector<S>& x, std::index_sequence<I...>) { v = {x[I]...}; }
template <class V, class S, size_t... I> V set_temp(const std::vector<S>& x, std::index_sequence<I...>) { return V().set(x[I]...); }
template <class V, class S, size_t... I> V list_temp(const std::vector<S>& x, std::index_sequence<I...>) { return V() = std::initializer_list<S>{x[I]...}; }

template <class E, class S, int N> void ctor_fixed(Gen& g) {
  using V = vector<E, fixed<N>>;
  auto x = gsrc<E, S>(g, N);
  auto w = conv<E>(x);
  g.nontrivial(varied(x));
  g.note([&](auto& o) { o << "source " << fw::show(x); });
  auto seq = std::make_index_sequence<N>();
  int k = (int)g.below(10);
  g.note([&](auto& o) { o << "kind " << k; });
  S arr[N]; for (int i = 0; i < N; ++i) arr[i] = x[i];
  switch (k) {
    case 0: agree(make_elems<V>(x, seq), w, "elements ctor"); break;
    case 1: agree(make_list<V>(x, seq), w, "initializer_list ctor"); break;
    case 2: agree(make_brace<V>(x, seq), w, "brace init"); break;
    case 3: agree(V(arr), w, "array ctor"); break;
    case 4: { const S* p = arr; agree(V(p), w, "pointer ctor"); break; }
    case 5: { S* p = arr; agree(V(p), w, "mutable pointer ctor"); break; }
    case 6: agree(set_temp<V>(x, seq), w, "temporary set"); break;
    case 7: agree(list_temp<V>(x, seq), w, "temporary = list"); break;
    case 8: { V v = V(arr); V c(v); agree(c, w, "copy ctor"); V m(std::move(c)); agree(m, w, "move ctor"); agree(v, w, "source of copy"); break; }
    default: { agree(V(V(arr) = arr), w, "temporary = array"); break; }
  }
}

template <class E, class S, int N> void ctor_dyn(Gen& g) {
  using V = vector<E, dynamic<>>;
  auto x = gsrc<E, S>(g, N);
  auto w = conv<E>(x);
  g.nontrivial(varied(x));
  g.note([&](auto& o) { o << "source " << fw::show(x); });
  auto seq = std::make_index_sequence<N>();
  int k = (int)g.below(11);
  g.note([&](auto& o) { o << "kind " << k; });
  S arr[N]; for (int i = 0; i < N; ++i) arr[i] = x[i];
  const S* p = arr;
  switch (k) {
    // a single integral argument is a size, so a one-element list is used
    case 0: if constexpr (N > 1 || std::is_floating_point_v<S>) agree(make_elems<V>(x, seq), w, "elements ctor"); break;
    case 1: agree(make_list<V>(x, seq), w, "initializer_list ctor"); break;
    case 2: agree(make_brace<V>(x, seq), w, "brace init"); break;
    case 3: agree(V(arr), w, "array ctor"); break;
    case 4: agree(V(p, N), w, "pointer,size ctor"); break;
    case 5: agree(V(N, p), w, "size,pointer ctor"); break;
    case 6: agree(set_temp<V>(x, seq), w, "temporary set"); break;
    case 7: agree(list_temp<V>(x, seq), w, "temporary = list"); break;
    case 8: { int n = (int)g.range(0, N); agree(V(p, n), std::vector<E>(w.begin(), w.begin() + n), "partial pointer ctor"); break; }
    case 9: {
      V v(arr); V c(v); agree(c, w, "copy ctor");
      REQUIRE(c.data() != v.data(), << "copy shares storage");
      V m(std::move(c)); agree(m, w, "move ctor"); agree(v, w, "source of copy");
      REQUIRE(c.size() == 0, << "moved-from size"); break;
    }
    default: { agree(V(V() = arr), w, "temporary = array"); break; }
  }
}

template <class V, class S, int N> void assign_all(Gen& g) {
  using E = elem_t<V>;
  auto x = gsrc<E, S>(g, N);
  auto w = conv<E>(x);
  auto old = exact_vec<E>(g, N);
  g.nontrivial(varied(x));
  g.note([&](auto& o) { o << "source " << fw::show(x) << " over " << fw::show(old); });
  VBox<V> b(old);
  V& v = *b;
  auto seq = std::make_index_sequence<N>();
  S arr[N]; for (int i = 0; i < N; ++i) arr[i] = x[i];
  int k = (int)g.below(9);
  g.note([&](auto& o) { o << "kind " << k; });
  switch (k) {
    case 0: set_elems(v, x, seq); agree(v, w, "set"); break;
    case 1: set_list(v, x, seq); agree(v, w, "= list"); break;
    case 2: v = arr; agree(v, w, "= array"); break;
    case 3: { vector<S, fixed<N>> s(arr); v = s; agree(v, w, "= fixed vector"); expect_vec(s, x, "source kept"); break; }
    case 4: { VBox<V> s(w); v = s.cr(); agree(v, w, "copy assignment"); agree(s.cr(), w, "source of copy assignment"); break; }
    case 5: { VBox<V> s(w); v = std::move(*s); agree(v, w, "move assignment"); break; }
    case 6: { v = cml::vector<S, dynamic<>>(arr); agree(v, w, "= dynamic temporary"); break; }
    case 7: { VBox<V> s(w); v = *s; if (vspec<V>::kind == 'F' || vspec<V>::kind == 'D') { REQUIRE(v.data() != (*s).data(), << "assignment shares storage"); }
              (*s)[(int)g.below(N)] = E(77); agree(v, w, "independent after source write"); break; }
    default: { v = v; agree(v, old, "self assignment"); break; }
  }
}

template <class V> void write_ops(Gen& g) {
  using E = elem_t<V>;
  int n = pick_n<V>(g);
  auto m = any_vec<E>(g, n);
  g.note([&](auto& o) { o << "initial " << fw::show(m); });
  VBox<V> b(m);
  V& v = *b;
  agree(v, m, "initial");
  int steps = (int)g.range(1, 8);
  g.nontrivial(n > 1);
  for (int s = 0; s < steps; ++s) {
    int i = (int)g.below(n);
    E e = fw::any_value<E>(g);
    int op = (int)g.below(8);
    g.note([&](auto& o) { o << "op " << op << " i=" << i << " e=" << +e; });
    switch (op) {
      case 0: v[i] = e; m[i] = e; break;
      case 1: v.put(i, e); m[i] = e; break;
      case 2: v.get(i) = e; m[i] = e; break;
      case 3: v.data()[i] = e; m[i] = e; break;
      case 4: { short q = (short)g.sym(100); v.put(i, q); m[i] = (E)q; break; }
      case 5: v.actual()[i] = e; m[i] = e; break;
      case 6: if constexpr (vspec<V>::kind == 'F' || vspec<V>::kind == 'D') {
          // put() on a temporary returns the modified temporary, not the source
          V t = V(v).put(i, e); auto w = m; w[i] = e; expect_vec(t, w, "temporary put");
        } break;
      default: { v.fill(e); for (auto& q : m) q = e; break; }
    }
    agree(v, m, "after write");
  }
}

template <int I, int N, class V, class F> void each_static(const V& v, F f) {
  if constexpr (I < N) { f(I, v.template get<I>()); each_static<I + 1, N>(v, f); }
}
template <int I, int N, class V, class F> void each_static_mut(V& v, F f) {
  if constexpr (I < N) { v.template get<I>() = f(I); each_static_mut<I + 1, N>(v, f); }
}
template <class V, int N> void static_get(Gen& g) {
  using E = elem_t<V>;
  auto x = any_vec<E>(g, N), y = any_vec<E>(g, N);
  g.nontrivial(varied(x));
  g.note([&](auto& o) { o << fw::show(x) << " then " << fw::show(y); });
  VBox<V> b(x);
  each_static<0, N>(b.cr(), [&](int i, E e) { REQUIRE(fw::same(e, x[i]), << "get<" << i << ">"); });
  static_assert(std::tuple_size<V>::value == N);
  if constexpr (N == 2) { auto& [p, q] = *b; REQUIRE(fw::same<E>(p, x[0]) && fw::same<E>(q, x[1]), << "structured binding"); }
  if constexpr (N == 3) { auto& [p, q, r] = *b; REQUIRE(fw::same<E>(p, x[0]) && fw::same<E>(q, x[1]) && fw::same<E>(r, x[2]), << "structured binding"); }
  if constexpr (N == 4) { auto& [p, q, r, s] = *b; REQUIRE(fw::same<E>(p, x[0]) && fw::same<E>(q, x[1]) && fw::same<E>(r, x[2]) && fw::same<E>(s, x[3]), << "structured binding"); }
  each_static_mut<0, N>(*b, [&](int i) { return y[i]; });
  agree(*b, y, "after get<I>() writes");
}

template <class A, class B> void cross(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>;
  int n = vspec<A>::n > 0 ? vspec<A>::n : vspec<B>::n > 0 ? vspec<B>::n : g.szh(0, 8, 80);
  auto x = gsrc<EA, EB>(g, n);
  auto w = conv<EA>(x);
  g.nontrivial(n > 0 && varied(x));
  g.note([&](auto& o) { o << "source " << fw::show(x); });
  VBox<B> b(x);
  if constexpr (vspec<A>::kind == 'F' || vspec<A>::kind == 'D') {
    A a(b.cr()); agree(a, w, "construct");
    A c = b.cr(); agree(c, w, "copy-initialise");
    if constexpr (vspec<A>::kind == 'D') {   // assigning over any old size
      A d((int)g.range(0, 9)); d.zero(); d = b.cr(); agree(d, w, "assign over other size");
    }
  }
  auto old = exact_vec<EA>(g, n);
  VBox<A> a(old);
  *a = b.cr();
  agree(*a, w, "assign");
  agree(b.cr(), x, "source unchanged");
  if (n > 0) {  // independence of owning target
    int i = (int)g.below(n);
    (*a)[i] = EA(99);
    agree(b.cr(), x, "source after write to copy");
  }
}

template <class A, class B, int K> void combine(Gen& g) {
  using EA = elem_t<A>; using EB = elem_t<B>;
  int n = vspec<B>::n > 0 ? vspec<B>::n : vspec<A>::n > 0 ? vspec<A>::n - K : g.szh(1, 6, 80);
  auto x = gsrc<EA, EB>(g, n);
  std::vector<double> t = exact_vec<double>(g, K);
  auto w = conv<EA>(x);
  for (auto e : t) w.push_back((EA)e);
  g.nontrivial(varied(x));
  g.note([&](auto& o) { o << "sub " << fw::show(x) << " tail " << fw::show(t); });
  VBox<B> b(x);
  if constexpr (K == 1) agree(A(b.cr(), t[0]), w, "sub+1");
  if constexpr (K == 2) agree(A(b.cr(), t[0], (float)t[1]), w, "sub+2");
  if constexpr (K == 3) agree(A(b.cr(), t[0], (float)t[1], t[2]), w, "sub+3");
}
