// fixed-size arrays (spec/ArrayAlg.tla).  usage: array_alg walk IN OUT GROUP | random SEED RUNS LEN OUT GROUP
// GROUP: a (array, dimensioned_array) or m (multi_array).  IN: "op o a b c" lines; "new n kind" starts over.
#include "vf.h"
#include <array>
#include <cassert>
#include <cstring>
#include <iterator>
#include <memory>
#include <stdexcept>
#include "ristra/math/array.h"
#include "ristra/math/multi_array.h"
#include "ristra/math/tuple.h"
#include "ristra/geometry/space_vector.h"
using namespace vf; namespace rm = ristra::math; namespace rg = ristra::geometry; using vec = std::vector<long>;
static long flip = 0;
// the number n of the model is the value n * SC: SC = 1 / UN for UN > 0 (fractions), or a large power of two for UN = 0
static double SC = 1; static long UN = 1;
template <class V> V val(long n) { if constexpr (std::is_integral<V>::value) return V(n) * V(SC); else return V(n * SC); }
template <class V> long code(V x) { return enc(double(x) / SC); }
static bool isint(long n) { return UN > 0 && n % UN == 0; }
static int ival(long n) { return int(n / UN); }
template <class A> struct tr;   // element type, a sibling type with other elements, family
template <class T> struct other { using t = int; }; template <> struct other<int> { using t = long; };
template <class T> struct other2 { using t = double; }; template <> struct other2<double> { using t = float; };
template <class T, std::size_t N> struct tr<rm::array<T, N>> { using V = T; using O = rm::array<typename other<T>::t, N>; using O2 = rm::array<typename other2<T>::t, N>; static constexpr int fam = 0; static constexpr long n = N; static vec want() { return {}; } };
template <class T, std::size_t... N> struct tr<rm::multi_array<T, N...>> { using V = T; using O = rm::multi_array<typename other<T>::t, N...>; using O2 = rm::multi_array<typename other2<T>::t, N...>; static constexpr int fam = 1; static constexpr long n = rm::multi_array<T, N...>::elements; static vec want() { return {long(N)...}; } };
template <class T, std::size_t N, std::size_t S> struct tr<ristra::utils::dimensioned_array__<T, N, S>> { using V = T; using O = int; static constexpr int fam = 2; static constexpr long n = N; static vec want() { return {}; } };
struct base { virtual ~base() {} virtual void op(std::string const &, int, long, long, long) = 0; virtual void obs(rec &) = 0; virtual bool integral() = 0; virtual long cap() { return 100000; } virtual vec get(int) = 0; virtual void set(int, vec const &) = 0; virtual bool wide() { return !integral(); } long n; };
template <class A> struct world : base {
  using V = typename tr<A>::V; static constexpr int fam = tr<A>::fam; static constexpr long NN = tr<A>::n; A r[2];
  world() { n = NN; }
  bool integral() override { return std::is_integral<V>::value; }
  bool wide() override { return !std::is_same<V, int>::value; }
  long cap() override { return std::is_same<V, float>::value || (UN == 0 && integral()) ? 100000 : 900000000; }
  static bool few(A & x) { for (long i = 0; i < NN; ++i) if (std::labs(code(el(x, i))) > 100000) return false; return true; }
  static V & el(A & x, long i) { return x[std::size_t(i)]; }
  vec get(int k) override { vec v; for (long i = 0; i < NN; ++i) v.push_back(code(el(r[k], i))); return v; }
  template <std::size_t... I> static A build(vec const & v, std::index_sequence<I...>) { return A{val<V>(v[I])...}; }
  void set(int k, vec const & v) override
  {
    if (flip++ % 2) { if constexpr (NN > 1) { r[k] = build(v, std::make_index_sequence<NN>{}); return; } }
    if constexpr (fam < 2) { if (flip % 3 == 0) { std::vector<V> q; for (long n : v) q.push_back(val<V>(n)); if constexpr (fam == 0 && NN == 3) { if (flip % 2) { r[k].assign({q[0], q[1], q[2]}); return; } } r[k].assign(q.begin(), q.end()); return; } }
    for (long i = 0; i < NN; ++i) el(r[k], i) = val<V>(v[i]);
  }
  template <class B> void comp(int o, A & x, B const & y) { switch (o) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; default: x /= y; } }
  template <class B> void compv(int o, A & x, B const & y) { switch (o) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; default: x /= y; } }
  static std::array<std::size_t, 8> mi(long i) { std::array<std::size_t, 8> m{}; vec s = tr<A>::want(); for (std::size_t d = s.size(); d-- > 0;) { m[d] = i % s[d]; i /= s[d]; } return m; }
  template <std::size_t... D> static V & par(A & x, std::array<std::size_t, 8> m, std::index_sequence<D...>) { return x(m[D]...); }
  template <std::size_t... D> static V const & cpar(A const & x, std::array<std::size_t, 8> m, std::index_sequence<D...>) { return x(int(m[D])...); }
  template <std::size_t... D> static V & atf(A & x, std::array<std::size_t, 8> m, std::index_sequence<D...>) { return x.at(m[D]...); }
  template <std::size_t... D> static V const & catf(A const & x, std::array<std::size_t, 8> m, std::index_sequence<D...>) { return x.at(int(m[D])...); }
  template <std::size_t... D> static V & brf(A & x, std::array<std::size_t, 8> m, std::index_sequence<D...>) { return x[{m[D]...}]; }
  template <std::size_t... D> static V const & cbrf(A const & x, std::array<std::size_t, 8> m, std::index_sequence<D...>) { return x[{m[D]...}]; }
  template <std::size_t... D> static long elf(std::array<std::size_t, 8> m, std::index_sequence<D...>) { return A::element(m[D]...); }
  void op(std::string const & s, int o, long a, long b, long c) override
  {
    ++flip; A & x = r[a - 1];
    if (s == "comparr") { A & y = r[b - 1];
      if constexpr (fam < 2) { if (&x != &y && flip % 3 == 0 && few(y)) { auto go = [&](auto z) { for (long i = 0; i < NN; ++i) z[i] = el(y, i); if (flip % 2) { A w(z); comp(o, x, w); } else comp(o, x, z); }; if (UN == 1 && flip % 4 < 2) go(typename tr<A>::O()); else go(typename tr<A>::O2()); return; } }
      comp(o, x, y);
    } else if (s == "compval") { if (flip % 3 == 0) compv(o, x, val<V>(b)); else if (flip % 3 == 1 && isint(b)) compv(o, x, ival(b)); else { V t(val<V>(b)); compv(o, x, t); } }
    else if (s == "compelem") { A & y = r[b - 1]; if constexpr (fam == 0) { if (flip % 2) { compv(o, x, y(c - 1)); return; } } compv(o, x, el(y, c - 1)); }
    else if (s == "binarr") { A & y = r[b - 1]; A & z = r[c - 1];
      if constexpr (fam < 2) { switch (o) { case 0: x = y + z; break; case 1: x = y - z; break; case 2: x = y * z; break; default: x = y / z; } }
      else { if (o == 0) x = y + z; else if (o == 1) x = y - z; else { A t(y); comp(o, t, z); x = t; } }
    } else if (s == "binval") { A & y = r[b - 1];
      if constexpr (fam < 2) { if (flip % 2 && isint(c)) { int c2 = ival(c); switch (o) { case 0: x = y + c2; break; case 1: x = y - c2; break; case 2: x = y * c2; break; default: x = y / c2; } } else { V v(val<V>(c)); switch (o) { case 0: x = y + v; break; case 1: x = y - v; break; case 2: x = y * v; break; default: x = y / v; } } }
      else { V v(val<V>(c)); if (o == 3) x = y / v; else if (o == 2) x = rg::operator*<V, NN>(y, v); else { A t(y); compv(o, t, v); x = t; } }
    } else if (s == "valbin") { A & y = r[b - 1]; V v(val<V>(c));
      if constexpr (fam < 2) { if (flip % 2 || !isint(c)) switch (o) { case 0: x = v + y; break; case 1: x = v - y; break; case 2: x = v * y; break; default: x = v / y; } else { int v2 = ival(c); switch (o) { case 0: x = v2 + y; break; case 1: x = v2 - y; break; case 2: x = v2 * y; break; default: x = v2 / y; } } }
      else { A t(v); comp(o, t, y); x = t; }
    } else if (s == "neg") { A & y = r[b - 1]; if constexpr (fam < 2) x = -y; else { A t(y); t *= V(-1); x = t; } }
    else if (s == "copy") { A & y = r[b - 1]; if constexpr (fam < 2) { if (flip % 4 == 0 && few(y)) { auto go = [&](auto z) { for (long i = 0; i < NN; ++i) z[i] = el(y, i); x = z; }; if (UN == 1 && flip % 8 < 4) go(typename tr<A>::O()); else go(typename tr<A>::O2()); return; } if (flip % 4 == 1) { x.assign(y.begin(), y.end()); return; } } if (flip % 2) { A t(y); x = t; } else x = y; }
    else if (s == "fill") { if constexpr (fam < 2) { if (flip % 3 == 0) { x.fill(val<V>(b)); return; } } if (flip % 3 == 1) x = val<V>(b); else { V q(val<V>(b)); A t(q); x = t; } }
    else if (s == "fillelem") { A & y = r[b - 1]; if constexpr (fam < 2) { if (flip % 3 == 0) { x.fill(el(y, c - 1)); return; } } x = el(y, c - 1); }
    else if (s == "swap") { A & y = r[b - 1]; if constexpr (fam < 2) { if (flip % 2) x.swap(y); else rm::swap(x, y); } else { if (&x != &y) std::swap(x, y); } }
    else if (s == "write") { long i = b - 1; V v(val<V>(c)); vec w = tr<A>::want();
      if constexpr (fam == 0) switch (flip % 9) { case 0: x[i] = v; break; case 1: x(i) = v; break; case 2: x.at(i) = v; break; case 3: *(x.begin() + i) = v; break; case 4: x.data()[i] = v; break; case 5: x.c_array()[i] = v; break; case 6: *(x.rbegin() + (NN - 1 - i)) = v; break; case 7: if (i == 0) x.front() = v; else x[i] = v; break; default: if (i == NN - 1) x.back() = v; else x[i] = v; }
      else if constexpr (fam == 1) { using S = std::make_index_sequence<A::dimensions>; auto m = mi(i); switch (flip % 10) { case 0: x[i] = v; break; case 1: par(x, m, S{}) = v; break; case 2: atf(x, m, S{}) = v; break; case 3: brf(x, m, S{}) = v; break; case 4: *(x.begin() + i) = v; break; case 5: x.data()[i] = v; break; case 6: x.c_array()[elf(m, S{})] = v; break; case 7: *(x.rbegin() + (NN - 1 - i)) = v; break; case 8: if (i == 0) x.front() = v; else x[i] = v; break; default: if (i == NN - 1) x.back() = v; else x[i] = v; } }
      else { if (flip % 2 && i < 3) x[ristra::utils::axis(i)] = v; else x[i] = v; }
    } else std::exit(77);
  }
  static vec L(std::vector<V> const & v) { vec o; for (V x : v) o.push_back(code(x)); return o; }
  void obs(rec & e) override
  {
    ++flip; A const & x = r[0]; A const & y = r[1]; vec r1, r2, rev, pr, at, fb, mu, sh, st; long cmp = -1, iscon = -1, con = 0, out = 0, dims = 0; std::size_t size = x.size();
    auto E = [](V v) { return code(v); };
    if constexpr (fam < 2) {
      if (flip % 2) for (auto v : x) r1.push_back(E(v)); else for (auto i = x.cbegin(); i != x.cend(); ++i) r1.push_back(E(*i));
      for (long i = 0; i < NN; ++i) r2.push_back(E(y[i]));
      if (flip % 2) for (auto i = x.rbegin(); i != x.rend(); ++i) rev.push_back(E(*i)); else for (auto i = x.crbegin(); i != x.crend(); ++i) rev.push_back(E(*i));
      fb = {E(x.front()), E(x.back())}; V k = x.data()[NN / 2]; con = E(k); iscon = x == k;
      cmp = (x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y);
      if constexpr (fam == 0) { for (long i = 0; i < NN; ++i) pr.push_back(E(y(i))); out = 2;
        for (long i : {-1L, 0L}) (void)i; for (long i = 0; i < NN + 1; ++i) try { at.push_back(E(flip % 2 ? x.at(i) : r[0].at(i))); } catch (std::out_of_range &) { at.push_back(THROWN); }
        try { at.push_back(E(x.at(NN + 1000))); } catch (std::out_of_range &) { at.push_back(THROWN); }
        for (std::size_t p : far_away) { ++out; try { at.push_back(E(flip % 2 ? x.at(p) : r[0].at(p))); } catch (std::out_of_range &) { at.push_back(THROWN); } }
        if (A::empty() || A::capacity() != size || A::max_size() != size) size = 0;
      } else { using S = std::make_index_sequence<A::dimensions>; pr.clear(); vec w = tr<A>::want(); bool ok = true;
        for (long i = 0; i < NN; ++i) { auto m = mi(i); pr.push_back(E(flip % 2 ? cpar(y, m, S{}) : par(r[1], m, S{}))); mu.push_back(E(flip % 2 ? brf(r[0], m, S{}) : cbrf(x, m, S{}))); if (elf(m, S{}) != i) ok = false;
          try { at.push_back(E(flip % 2 ? atf(r[0], m, S{}) : catf(x, m, S{}))); } catch (std::out_of_range &) { at.push_back(THROWN); } }
        for (std::size_t d = 0; d < A::dimensions; ++d) for (long bad : {w[d], -1L, w[d] + 7}) { std::array<std::size_t, 8> m{}; m[d] = bad; ++out; try { at.push_back(E(flip % 2 ? atf(r[0], m, S{}) : catf(x, m, S{}))); } catch (std::out_of_range &) { at.push_back(THROWN); } }
        for (std::size_t d = 0; d < A::dimensions; ++d) for (std::size_t p : far_away) { std::array<std::size_t, 8> m{}; m[d] = p; ++out; try { at.push_back(E(atf(r[0], m, S{}))); } catch (std::out_of_range &) { at.push_back(THROWN); } }
        for (std::size_t d = 0; d < A::dimensions; ++d) { sh.push_back(A::shape()[d]); st.push_back(A::strides()[d]); } dims = A::num_dimensions(); if (!ok || A::num_elements() != size) size = 0; }
    } else { for (long i = 0; i < NN; ++i) { r1.push_back(E(x[i])); r2.push_back(E(y[std::size_t(i)])); pr.push_back(E(y[i])); } for (long i = NN; i-- > 0;) rev.push_back(E(x[i])); }
    e.a("r1", r1).a("r2", r2).a("rev", rev).a("par", pr).a("at", at).i("out", out).a("fb", fb).i("cmp", cmp).i("iscon", iscon).i("con", con).a("multi", mu).a("shape", sh).a("strides", st).i("dims", dims).a("want", tr<A>::want()).i("size", size);
  }
};
// tuples: elements of several types; free functions instead of compound operators
template <class... T> struct tworld : base {
  using A = std::tuple<T...>; static constexpr std::size_t NN = sizeof...(T); A r[2];
  tworld() { n = NN; }
  static constexpr bool fl = (std::is_floating_point<T>::value && ...);
  bool integral() override { return false; }
  bool wide() override { return fl; }
  template <class F, std::size_t... I> static void each(A & x, F && f, std::index_sequence<I...>) { (f(std::get<I>(x), long(I)), ...); }
  template <class F> static void each(A & x, F && f) { each(x, f, std::make_index_sequence<NN>{}); }
  template <class F> static void on(A & x, long i, F && f) { each(x, [&](auto & v, long j) { if (i == j) f(v); }); }
  vec get(int k) override { vec v; each(r[k], [&](auto & x, long) { v.push_back(code(x)); }); return v; }
  void set(int k, vec const & v) override { each(r[k], [&](auto & x, long i) { x = val<std::decay_t<decltype(x)>>(v[i]); }); }
  template <class B> static void comp(int o, A & x, B const & y) { switch (o) { case 0: rm::plus_equal(x, y); break; case 1: rm::minus_equal(x, y); break; case 2: rm::multiplies_equal(x, y); break; default: rm::divides_equal(x, y); } }
  template <class X, class Y> static A bin(int o, X const & x, Y const & y) { switch (o) { case 0: return rm::operator+(x, y); case 1: return rm::operator-(x, y); case 2: return rm::operator*(x, y); default: return rm::operator/(x, y); } }
  void op(std::string const & s, int o, long a, long b, long c) override
  {
    ++flip; A & x = r[a - 1]; A & y = r[(b == 2 ? 2 : 1) - 1]; A & z = r[(c == 2 ? 2 : 1) - 1];
    if (s == "comparr") comp(o, x, y);
    else if (s == "compval") { if (flip % 2 && isint(b)) comp(o, x, ival(b)); else comp(o, x, val<double>(b)); }
    else if (s == "compelem") on(y, c - 1, [&](auto & v) { comp(o, x, v); });
    else if (s == "binarr") x = bin(o, y, z);
    else if (s == "binval") { if (flip % 2 && isint(c)) x = bin(o, y, ival(c)); else x = bin(o, y, val<double>(c)); }
    else if (s == "valbin") { if (flip % 2 && isint(c)) x = bin(o, ival(c), y); else x = bin(o, val<double>(c), y); }
    else if (s == "neg") x = bin(1, 0, y); else if (s == "copy") x = y; else if (s == "fill") { if (isint(b)) rm::fill(x, ival(b)); else rm::fill(x, val<double>(b)); }
    else if (s == "fillelem") on(y, c - 1, [&](auto & v) { rm::fill(x, v); });
    else if (s == "swap") std::swap(x, y); else if (s == "write") on(x, b - 1, [&](auto & v) { v = val<std::decay_t<decltype(v)>>(c); }); else std::exit(77);
  }
  void obs(rec & e) override { vec a = get(0), b = get(1), rev(a.rbegin(), a.rend()), z; e.a("r1", a).a("r2", b).a("rev", rev).a("par", b).a("at", z).i("out", 0).a("fb", z).i("cmp", -1).i("iscon", -1).i("con", 0).a("multi", z).a("shape", z).a("strides", z).i("dims", 0).a("want", z).i("size", NN); }
};
using P = std::unique_ptr<base>; template <class... T> P TW() { return std::make_unique<tworld<T...>>(); } template <class A> P W() { return std::make_unique<world<A>>(); }
template <class T, std::size_t... N> using MA = rm::multi_array<T, N...>;
static std::vector<P (*)()> small_a{W<rm::array<int, 2>>, W<rm::array<double, 2>>, W<rg::space_vector<double, 2>>, W<rm::array<float, 2>>, W<rm::array<long, 2>>, W<rg::space_vector<int, 2>>, TW<double, double>},
  small_m{W<MA<int, 1, 2>>, W<MA<double, 2>>, W<MA<double, 2, 1, 1>>, W<MA<int, 1, 1, 2, 1>>, W<MA<float, 2, 1>>},
  big_a{W<rm::array<int, 1>>, W<rm::array<int, 3>>, W<rm::array<double, 3>>, W<rm::array<double, 4>>, W<rm::array<int, 7>>, W<rm::array<float, 5>>, W<rg::space_vector<double, 1>>, W<rg::space_vector<double, 3>>, W<rg::space_vector<int, 4>>, W<rm::array<long, 2>>, TW<double>, TW<int, double, long>, TW<double, float, double, int>, TW<double, float, double>, W<rm::array<double, 17>>, W<rm::array<int, 33>>},
  big_m{W<MA<int, 5>>, W<MA<double, 2, 3>>, W<MA<int, 3, 2>>, W<MA<double, 2, 3, 2>>, W<MA<int, 3, 1, 4>>, W<MA<double, 2, 2, 3, 2>>, W<MA<double, 3, 3>>, W<MA<float, 4, 1, 3>>, W<MA<int, 1, 1>>, W<MA<int, 5, 7>>, W<MA<double, 2, 2, 2, 2, 2>>};
static void start(base & w, out & o, vec const & a, vec const & b) { w.set(0, a); w.set(1, b); rec e; e.s("op", "new").i("o", 0).i("a", 0).i("b", 0).i("c", 0).i("u", UN).raw("init", arr2({arr(a), arr(b)})); w.obs(e); o(e); }
static void step(base & w, out & o, std::string const & s, int k, long a, long b, long c) { w.op(s, k, a, b, c); rec e; e.s("op", s).i("o", k).i("a", a).i("b", b).i("c", c).i("u", UN).raw("init", "[]"); w.obs(e); o(e); }
// comparisons of floating point elements
template <class A> void floats(rng & g, out & o)
{
  std::size_t n = tr<A>::n; vec a, b; for (std::size_t i = 0; i < n; ++i) { a.push_back(fcode(g)); b.push_back(g.coin(6) ? fcode(g) : a.back() == 0 || a.back() == 100 ? 100 * g.below(2) : a.back()); }
  A x, y; for (std::size_t i = 0; i < n; ++i) { x[i] = fval(a[i]); y[i] = fval(b[i]); } bool nan = false; for (long c : a) nan |= c == 99; for (long c : b) nan |= c == 99;
  typename tr<A>::V k = fval(b[0]); o(rec().s("op", "fcmp").a("a", a).a("b", b).i("r", six(x, y, nan)).i("con", x == k));
}
// long arrays: all elements v, except v2 at position p, combined with w; sequences are logged as runs
template <class S> std::string lens(S const & s) { std::vector<vec> r; for (auto const & x : s) { long c = enc(double(x)); if (r.empty() || r.back()[0] != c) r.push_back({c, 0}); ++r.back()[1]; } std::vector<std::string> q; for (std::size_t i = 0; i < r.size() && i < 8; ++i) q.push_back(arr(r[i])); return arr2(q); }
template <class A> void large(rng & g, out & o)
{
  using V = typename tr<A>::V; long n = tr<A>::n, v = g.in(1, 9), w = g.in(1, 9), v2 = g.in(10, 20), p = g.coin() ? n - 2 : g.in(1, n - 2);
  auto P = std::make_unique<A>(), Q = std::make_unique<A>(), R = std::make_unique<A>(); A & x = *P; A & y = *Q; A & z = *R; x.fill(V(v)); x[p] = V(v2); y = V(w); std::vector<std::string> f[3], s, k; V W(w);
  f[0].push_back(lens(x + y)); f[0].push_back(lens(x + W)); f[0].push_back(lens(W + x)); z = x; z += y; f[0].push_back(lens(z)); z = x; z += W; f[0].push_back(lens(z));
  f[1].push_back(lens(x - y)); f[1].push_back(lens(x - W)); f[1].push_back(lens(-(W - x))); z = x; z -= y; f[1].push_back(lens(z)); z = x; z -= W; f[1].push_back(lens(z));
  f[2].push_back(lens(x * y)); f[2].push_back(lens(x * W)); f[2].push_back(lens(W * x)); z = x; z *= y; f[2].push_back(lens(z)); z = x; z *= W; f[2].push_back(lens(z)); z /= y; s.push_back(lens(z)); z *= W; z /= W; s.push_back(lens(z)); z *= W; z = z / y; s.push_back(lens(z)); z *= W; s.push_back(lens(z / W));
  s.push_back(lens(-(-x))); typename tr<A>::O c; c = x; s.push_back(lens(c)); A t(c); s.push_back(lens(t)); z.assign(x.begin(), x.end()); s.push_back(lens(z)); A u(x); s.push_back(lens(u)); t = y; t.swap(u); s.push_back(lens(t)); rm::swap(t, u); s.push_back(lens(u)); k.push_back(lens(t)); k.push_back(lens(A(W))); z.fill(W); k.push_back(lens(z));
  z = x; z[p] = V(v); vec e{x == u, x != u, x < u, x == z, x != z, z < x, x < z, x <= z, x >= z, x > z, long(x.size()), x == V(v), y == W};
  o(rec().s("op", "large").i("n", n).i("v", v).i("v2", v2).i("p", p).i("w", w).raw("add", arr2(f[0])).raw("sub", arr2(f[1])).raw("mul", arr2(f[2])).raw("same", arr2(s)).raw("con", arr2(k)).a("cmp", e));
}
// integer elements combined with fractions q / 4: computed exactly, then cut off
template <class A> void mixed(rng & g, out & o)
{
  long n = tr<A>::n; vec a, bq; A x; typename tr<A>::O2 b; for (long i = 0; i < n; ++i) { a.push_back(g.coin(5) ? 0 : g.in(-30, 30)); bq.push_back((g.coin() ? 1 : -1) * g.in(1, 25)); x[i] = a[i]; b[i] = bq[i] / 4.0; }
  long q = (g.coin() ? 1 : -1) * g.in(1, 25); double v = q / 4.0; float vf = v; std::vector<std::string> r[4], l[2], k[4], c; auto E = [&](A const & y) { vec w; for (long i = 0; i < n; ++i) w.push_back(long(y[i])); return arr(w); };
  A t(x); t += v; r[0].push_back(E(t)); t = x; t += vf; r[0].push_back(E(t)); r[0].push_back(E(x + v)); r[0].push_back(E(v + x)); t = x; t -= v; r[1].push_back(E(t)); t = x; t -= vf; r[1].push_back(E(t)); r[1].push_back(E(x - v));
  t = x; t *= v; r[2].push_back(E(t)); r[2].push_back(E(x * v)); r[2].push_back(E(v * x)); t = x; t /= v; r[3].push_back(E(t)); r[3].push_back(E(x / v)); l[0].push_back(E(v - x));
  t = x; t += b; k[0].push_back(E(t)); t = x; t -= b; k[1].push_back(E(t)); t = x; t *= b; k[2].push_back(E(t)); t = x; t /= b; k[3].push_back(E(t)); t = b; c.push_back(E(t)); A u(b); c.push_back(E(u));
  auto all = [](auto & s) { std::vector<std::string> z; for (auto & y : s) z.push_back(arr2(y)); return arr2(z); };
  o(rec().s("op", "mixed").a("a", a).i("q", q).a("b", bq).raw("r", all(r)).raw("l", arr2(l[0])).raw("k", all(k)).raw("c", arr2(c)));
}
// printing: the numbers in the text
static vec numbers(std::string s) { for (char & c : s) if (!std::strchr("0123456789+-.e", c)) c = ' '; std::istringstream i(s); vec v; double d; while (i >> d) v.push_back(enc(d, 8)); return v; }
template <class A, class S> void print(rng & g, out & o, A && mk, S && set, std::size_t n, bool whole, long ord)
{
  vec a; for (std::size_t i = 0; i < n; ++i) a.push_back(whole ? 8 * g.in(-99, 99) : g.coin() ? g.in(-99, 99) : g.in(-90000, 90000)); auto x = mk(); set(x, a); std::ostringstream s; s.precision(17); using rm::operator<<; s << x; o(rec().s("op", "print").i("ord", ord).a("a", a).a("r", numbers(s.str())));
}
template <class A> void prints(rng & g, out & o, long ord) { constexpr bool in = std::is_integral<typename tr<A>::V>::value; print(g, o, [] { return A(); }, [](A & x, vec const & a) { for (std::size_t i = 0; i < a.size(); ++i) x[i] = typename tr<A>::V(a[i] / 8.0); }, tr<A>::n, in, ord); }
template <class... T> void printt(rng & g, out & o) { print(g, o, [] { return std::tuple<T...>(); }, [](std::tuple<T...> & x, vec const & a) { tworld<T...>::each(x, [&](auto & v, long i) { v = a[i] / 8.0; }); }, sizeof...(T), (std::is_integral<T>::value || ...), 1); }
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) std::freopen("/dev/null", "w", stderr);
  std::string mode = argv[1];
  if (mode == "walk") {
    auto & T = argv[4][0] == 'a' ? small_a : small_m; std::ifstream f(argv[2]); out o(argv[3]); std::string l; P w;
    while (std::getline(f, l)) { std::istringstream s(l); std::string op; s >> op; if (op == "new") { long k = 0; s >> k; w = T[k % T.size()](); start(*w, o, {1, 1}, {1, 1}); continue; } long k, a = 0, b = 0, c = 0; s >> k >> a >> b >> c; step(*w, o, op, k, a, b, c); }
    return 0;
  }
  rng g(std::atol(argv[2])); long runs = std::atol(argv[3]), len = std::atol(argv[4]); out o(argv[5]); auto & T = argv[6][0] == 'a' ? big_a : big_m;
  static char const * OP[] = {"comparr", "compval", "compelem", "binarr", "binval", "valbin", "neg", "copy", "fill", "fillelem", "swap", "write", "write"};
  for (long k = 0; k < 2 * runs; ++k) if (argv[6][0] == 'a') { floats<rm::array<double, 1>>(g, o); floats<rm::array<double, 3>>(g, o); floats<rm::array<float, 5>>(g, o); } else { floats<MA<double, 2>>(g, o); floats<MA<double, 2, 2>>(g, o); floats<MA<float, 1, 2, 2>>(g, o); }
  for (long k = 0; k < 3; ++k) if (argv[6][0] == 'a') { large<rm::array<int, 256>>(g, o); large<rm::array<double, 300>>(g, o); large<rm::array<int, 32768>>(g, o); large<rm::array<double, 65536>>(g, o); large<rm::array<int, 70001>>(g, o); } else { large<MA<int, 16, 16>>(g, o); large<MA<double, 300, 3>>(g, o); large<MA<int, 2, 128, 128>>(g, o); large<MA<double, 256, 256>>(g, o); large<MA<int, 7, 10001>>(g, o); }
  for (long k = 0; k < runs; ++k) if (argv[6][0] == 'a') { mixed<rm::array<int, 1>>(g, o); mixed<rm::array<int, 3>>(g, o); mixed<rm::array<long, 4>>(g, o); } else { mixed<MA<int, 2, 2>>(g, o); mixed<MA<int, 5>>(g, o); mixed<MA<long, 2, 1, 2>>(g, o); }
  for (long k = 0; k < 10; ++k) if (argv[6][0] == 'a') { prints<rm::array<int, 3>>(g, o, 1); prints<rm::array<double, 1>>(g, o, 1); prints<rm::array<double, 4>>(g, o, 1); prints<rg::space_vector<double, 3>>(g, o, 1); prints<rg::space_vector<double, 2>>(g, o, 1); printt<double, double>(g, o); printt<int, double, long>(g, o); printt<double, float, double>(g, o); } else { prints<MA<int, 2, 3>>(g, o, 0); prints<MA<double, 3, 3>>(g, o, 0); prints<MA<double, 4, 1>>(g, o, 0); }
  for (long k = 0; k < runs; ++k) {
    P w = T[k % T.size()](); UN = 1; SC = 1; if (w->wide() && g.coin()) { UN = w->integral() || g.coin(4) ? 0 : 1L << g.in(1, 3); SC = UN ? 1.0 / UN : w->integral() ? 8589934592.0 : 1099511627776.0; } vec a, b; for (long i = 0; i < w->n; ++i) { a.push_back(g.in(-9, 9)); b.push_back(g.coin(3) ? a[i] : g.in(-9, 9)); } start(*w, o, a, b); flip += g.below(5);
    for (long j = 0; j < len; ++j) {
      std::string s = OP[g.below(13)]; int q = g.below(4); long x = g.in(1, 2), y = g.in(1, 2), z = 0; vec R[2] = {w->get(0), w->get(1)}; vec u, v;   // u op v element-wise, to keep values small and divisions exact
      long cap = w->cap(), val = cap > 100000 && UN <= 1 && g.coin(6) ? g.in(-cap / 9, cap / 9) : g.in(-5, 5); bool arith = true; long ty = y;
      if (s == "comparr") { u = R[x - 1]; v = R[y - 1]; } else if (s == "compval") { ty = val; u = R[x - 1]; v.assign(w->n, val); } else if (s == "compelem") { z = g.in(1, w->n); u = R[x - 1]; v.assign(w->n, R[y - 1][z - 1]); }
      else if (s == "binarr") { z = g.in(1, 2); u = R[y - 1]; v = R[z - 1]; } else if (s == "binval") { z = val; u = R[y - 1]; v.assign(w->n, val); } else if (s == "valbin") { z = g.in(-60, 60) * (UN ? UN : 1); u.assign(w->n, z); v = R[y - 1]; }
      else { arith = false; q = 0; if (s == "fill") ty = val; if (s == "fillelem") z = g.in(1, w->n); if (s == "write") { ty = g.in(1, w->n); z = cap > 100000 && g.coin(4) ? g.in(-cap / 3, cap / 3) : g.in(-99, 99); } }
      if (arith) { bool ok = !(UN == 0 && q >= 2); for (long i = 0; i < w->n; ++i) { if (q == 2 && UN > 1 && u[i] * v[i] % UN) ok = false; if (q == 3 && UN > 1 && std::labs(u[i]) * UN > cap) ok = false; if (q == 2 && std::labs(u[i] * v[i]) > cap) ok = false; if (std::labs(u[i]) + std::labs(v[i]) > cap) ok = false; if (q == 3 && (v[i] == 0 || (!w->integral() && u[i] * UN % v[i]))) ok = false; if (u[i] == BAD || v[i] == BAD) ok = false; } if (!ok) { if (q == 3 || q == 2) q = 1; bool big = false; for (long i = 0; i < w->n; ++i) if (std::labs(u[i]) + std::labs(v[i]) > cap) big = true; if (big) { s = "write"; q = 0; x = g.in(1, 2); ty = g.in(1, w->n); z = g.in(-9, 9); } } }
      step(*w, o, s, q, x, ty, z);
    }
  }
}
