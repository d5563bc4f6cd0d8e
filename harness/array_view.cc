// array views (spec/ArrayView.tla).  usage: array_view walk IN OUT | random SEED RUNS OUT
// IN lines: "op i n p x1..x4 y1..y4"; "new" starts over.
#include "vf.h"
#include <array>
#include <cassert>
#include <iterator>
#include <numeric>
#include <memory>
#include <functional>
#include <algorithm>
#include <sys/mman.h>
#include "ristra/utils/array_view.h"
using namespace vf; using namespace ristra::utils;
using vec = std::vector<long>;
constexpr long MEM = 4000, LIM = 2500;
static int mem[MEM];
static long flip = 0;
template <int R> index_t<R> mk(vec const & x) { index_t<R> r; for (int i = 0; i < R; ++i) r[i] = x[i]; return r; }
template <class X> vec idx(X const & x) { vec v; for (std::size_t i = 0; i < std::size_t(X::rank); ++i) v.push_back(enci(x[i])); return v; }
template <class V, class F, std::size_t... I> auto & call(V const & v, F const & x, std::index_sequence<I...>) { return v(x[I]...); }
static vec unrank(vec const & e, long k) { vec x(e.size()); for (std::size_t i = e.size(); i-- > 0;) { x[i] = k % e[i]; k /= e[i]; } return x; }
static std::string mat(std::vector<vec> const & m) { std::vector<std::string> s; for (auto & r : m) s.push_back(arr(r)); return arr2(s); }
// every pair of positions of a random access range; f(it) identifies the element, END at end
template <class B, class F> void pairs(rec & e, char const * n, long size, B const & first, B const & last, F f, long (*sub)(B const &, long))
{
  std::vector<B> up, down; { B i = first; for (long k = 0; k <= size; ++k) { up.push_back(i); if (k < size) ++i; } }
  { B i = last; for (long k = 0; k <= size; ++k) { down.push_back(i); if (k < size) --i; } }
  std::vector<vec> d, c, a, s;
  for (long p = 0; p <= size; ++p) { vec dd, cc, aa, ss;
    for (long q = 0; q <= size; ++q) {
      B const & x = up[p]; B const & y = down[size - q]; B const y2 = up[q];
      dd.push_back(enci((y - x) == (y2 - x) ? y - x : BAD)); cc.push_back((x < y) + 2 * (x <= y) + 4 * (x > y) + 8 * (x >= y) + 16 * (x == y) + 32 * (x != y));
      long n = q - p; B r = x;
      switch ((p + q + flip) % 5) { case 0: r = x + n; break; case 1: r = n + x; break; case 2: r += n; break; case 3: r -= -n; break; default: r = x - (-n); }
      if (p == q + 1) { B z = x; B old = z--; if (!(old == x)) z = last; if (flip % 2) r = z; }
      if (p + 1 == q) { B z = x; B old = z++; if (!(old == x)) z = first; if (flip % 2) r = z; }
      aa.push_back(q == size ? (r == last && !(r != last) ? -1 : BAD) : f(r));
      ss.push_back(q == size ? -1 : sub(x, n));
    }
    d.push_back(dd); c.push_back(cc); a.push_back(aa); s.push_back(ss); }
  std::string N = n; e.raw((N + "d").c_str(), mat(d)).raw((N + "c").c_str(), mat(c)).raw((N + "a").c_str(), mat(a)).raw((N + "s").c_str(), mat(s));
}
struct H { virtual ~H() {} virtual std::unique_ptr<H> op(std::string const &, long, vec const &, vec const &) = 0; virtual void obs(rec &, bool) = 0; virtual vec ext() = 0; };
template <class T> struct is_sta : std::false_type {}; template <class T, std::ptrdiff_t... D> struct is_sta<static_array_view<T, D...>> : std::true_type {};
template <class T> struct is_dyn : std::false_type {}; template <class T, std::ptrdiff_t R> struct is_dyn<array_view<T, R>> : std::true_type {};
template <class V> struct con; template <class T, std::ptrdiff_t R> struct con<array_view<T, R>> { using t = array_view<T const, R>; }; template <class T, std::ptrdiff_t R> struct con<strided_array_view<T, R>> { using t = strided_array_view<T const, R>; };
template <class T, std::ptrdiff_t... D> struct con<static_array_view<T, D...>> { using t = static_array_view<T const, D...>; };
template <class V> struct holder : H {
  V v; static constexpr int R = V::index_type::rank;
  explicit holder(V x) : v(x) {}
  vec ext() override { return idx(v.bounds().as_index()); }
  std::unique_ptr<H> op(std::string const & o, long i, vec const & x, vec const & y) override
  {
    ++flip;
    if (o == "slice") { if constexpr (R > 1) { auto w = flip % 2 ? v[std::size_t(i)] : v.slice(i); return std::make_unique<holder<decltype(w)>>(w); } }
    else if (o == "section" || o == "from" || o == "tostr") {
      strided_array_view<int, R> w = o == "section" ? v.section(mk<R>(x), mk<R>(y)) : o == "from" ? v.section(mk<R>(x)) : v.section();
      if (o == "tostr" && flip % 2) w = strided_array_view<int, R>(v);
      return std::make_unique<holder<decltype(w)>>(w);
    } else if (o == "todyn") {
      if constexpr (is_sta<V>::value) { array_view<int, R> w(v); return std::make_unique<holder<decltype(w)>>(w); }
      else if constexpr (is_dyn<V>::value) { array_view<int, R> w; if (flip % 2) w = v; else { array_view<int, R> t(v); w.swap(t); } return std::make_unique<holder<decltype(w)>>(w); }
    }
    std::exit(77);
  }
  static long off(int const & x) { return enci(&x - mem); }
  static long vsub(typename V::iterator const & i, long n) { return enci(i[n]); }
  using BI = typename V::bounds_type::const_iterator;
  static long bpos(index_t<R> const & x) { long k = 0; for (int i = 0; i < R; ++i) k = k * 100 + x[i]; return enci(k); }
  static long bsub(BI const & i, long n) { return bpos(i[n]); }
  template <std::size_t... D> static vec extents(V const & w, std::index_sequence<D...>) { return vec{long(w.template extent<D>())...}; }
  template <std::size_t... D> static vec bextents(V const & w, std::index_sequence<D...>) { return vec{long(w.bounds().template extent<D>())...}; }
  void obs(rec & e, bool) override
  {
    auto b = v.bounds(); vec x = ext(); using S = std::make_index_sequence<R>;
    e.i("dat", v.data() ? off(*v.data()) : BAD).a("ext", x).a("ext2", extents(v, S{})).a("ext3", bextents(v, S{})).a("str", idx(v.strides())).a("str2", idx(b.strides())).i("st", v.stride()).i("st2", b.stride())
      .i("size", enci(v.size())).i("bsize", enci(b.size())).i("total", enci(b.total_size())).i("rank", v.rank()).i("empty", v.empty()).i("bool", bool(v));
    long n = 1; bool sane = true; for (long a : x) { if (a < 0 || a > 50) sane = false; else n *= a; } if (!sane || n > LIM) { e.i("sane", 0); return; }
    e.i("sane", 1);
    vec br, par, at, lin, fwd, cf, rev, cr, bi;
    for (long k = 0; k < n; ++k) {
      auto i = mk<R>(unrank(x, k)); br.push_back(off(v[i])); par.push_back(off(call(v, i, S{}))); lin.push_back(enci(b.linearize(i)));
      try { at.push_back(off(v.at(i))); } catch (std::out_of_range &) { at.push_back(THROWN); }
    }
    long lim = LIM + 5;
    if (flip % 2) for (auto i = v.begin(); i != v.end() && --lim; ++i) fwd.push_back(off(*i)); else for (int & z : v) { if (!--lim) break; fwd.push_back(off(z)); }
    for (auto i = v.cbegin(); i != v.cend() && --lim; i++) cf.push_back(off(*i));
    for (auto i = v.rbegin(); i != v.rend() && --lim; ++i) rev.push_back(off(*i));
    for (auto i = v.crbegin(); i != v.crend() && --lim; i++) cr.push_back(off(*i));
    for (auto i = b.begin(); i != b.end() && --lim; ++i) bi.push_back(bpos(*i));
    e.a("br", br).a("par", par).a("at", at).a("lin", lin).a("fwd", fwd).a("cf", cf).a("rev", rev).a("cr", cr).a("bi", bi);
    // the box one wider on every side: inside or not, and does at() throw
    vec in, thr; vec w = x; long m = 1; for (long & a : w) { a += 2; m *= a; }
    if (m > 1200) m = 0;
    for (long k = 0; k < m; ++k) { vec y = unrank(w, k); for (long & a : y) --a; auto i = mk<R>(y); in.push_back(b.contains(i));
      try { v.at(i); thr.push_back(0); } catch (std::out_of_range &) { thr.push_back(1); } }
    e.a("in", in).a("thr", thr).i("m", m);
    if constexpr (R > 1) { vec sl; for (long k = 0; k < x[0] + 2; ++k) try { v.slice(k); sl.push_back(0); } catch (std::out_of_range &) { sl.push_back(1); } e.a("sl", sl); vec se = idx(b.slice().as_index()), ss = idx(b.slice().strides()); e.a("se", se).a("ss", ss); } else e.a("sl", vec{}).a("se", vec{}).a("ss", vec{});
    vec far; for (int d = 0; d < R; ++d) for (std::size_t z : far_away) { auto i = mk<R>(vec(R, 0)); i[d] = std::ptrdiff_t(z); bool t = false; try { v.at(i); } catch (std::out_of_range &) { t = true; } far.push_back(t && !b.contains(i)); } e.a("far", far);
    bool full = n <= 9; e.i("full", full);
    if (full) {
      pairs(e, "v", n, v.begin(), v.end(), [&](typename V::iterator & i) { return off(*i) == off(*i.operator->()) ? off(*i) : BAD; }, &holder::vsub);
      BI f = b.begin(), l = b.end(); pairs(e, "b", n, f, l, [](BI & i) { return bpos(*i); }, &holder::bsub);
    }
    V c = v; c.clear(); e.i("cle", c.empty()).i("clb", bool(c));
    { V s; s.swap(c); V t = v; s = t; e.i("same", s.data() == v.data() && idx(s.bounds().as_index()) == x && copies(x, n)); }
  }
  // every view made from this one addresses the same elements
  bool copies(vec const & x, long n)
  {
    vec st = idx(v.strides()); auto is = [&](auto const & w) { if (w.data() != v.data() || idx(w.bounds().as_index()) != x || idx(w.strides()) != st || w.size() != v.size()) return false; for (long k = 0; k < n; ++k) { auto i = mk<R>(unrank(x, k)); if (&w[i] != &v[i]) return false; } long k = 0; for (auto & z : w) if (k == n || &z != &v[mk<R>(unrank(x, k++))]) return false; return k == n; };
    using C = typename con<V>::t; C c1(v), c2, c3(c1), c4; c2 = v; c4.swap(c3); V a = v, b; V m(std::move(a)), p; p = std::move(m); b.swap(p);
    bool ok = is(c1) && is(c2) && is(c4) && c3.empty() && !c3 && is(b) && p.empty() && p.data() == nullptr;
    strided_array_view<int const, R> s1(v); ok = ok && is(s1) && is(s1.section()); if constexpr (is_sta<V>::value || is_dyn<V>::value) { auto s2 = static_cast<strided_array_view<int, R>>(v); ok = ok && is(s2); }
    if constexpr (is_sta<V>::value) { array_view<int const, R> d1(v); auto d2 = static_cast<array_view<int, R>>(v); ok = ok && is(d1) && is(d2); }
    for (int d = 0; d < R; ++d) { auto bb = v.bounds(); ok = ok && bb[d] == x[d]; }
    auto i = v.begin(), j = v.end(); i.swap(j); ok = ok && i == v.end() && j == v.begin(); auto bi = v.bounds().begin(), bj = v.bounds().end(); bi.swap(bj); ok = ok && bi == v.bounds().end() && bj == v.bounds().begin();
    return ok;
  }
};
template <class V> std::unique_ptr<H> hold(V v) { return std::make_unique<holder<V>>(v); }
template <class B, std::size_t... I> B bnd(vec const & e, std::index_sequence<I...>) { return B(std::ptrdiff_t(e[I])...); }
struct cont { int * d; std::size_t n; using value_type = int; int * data() const { return d; } std::size_t size() const { return n; } int & operator[](std::size_t i) const { return d[i]; } };
static vec strides;   // explicit strides of the next root
template <int R> std::unique_ptr<H> droot(long kind, long pad, vec const & e)
{
  using S = std::make_index_sequence<R>; ++flip; vec w = e; for (long & a : w) a += pad; vec st(R, 1); for (int i = R - 1; i-- > 0;) st[i] = st[i + 1] * w[i + 1];
  bool own = kind == 0 && !strides.empty(); if (own) { st = strides; st.resize(R); }
  long sz = 1; for (long a : e) sz *= a;
  if (kind == 0) {
    using V = strided_array_view<int, R>; using B = typename V::bounds_type;
    if (!own && pad == 0 && flip % 3 == 0) return hold(V(mem, bnd<B>(e, S{})));
    if (flip % 3 == 1) return hold(V(mem, B(mk<R>(e), mk<R>(st))));
    if (flip % 6 == 2) { cont c{mem, MEM}; return hold(V(c, B(mk<R>(e), mk<R>(st)))); }
    if constexpr (R == 1) if (!own && pad == 0 && flip % 6 == 5) { cont c{mem, std::size_t(sz)}; return hold(V(c)); }
    return hold(V(mem, mk<R>(e), mk<R>(st)));
  }
  using V = array_view<int, R>; using B = typename V::bounds_type; cont c{mem, std::size_t(sz)};
  if constexpr (R == 1) { if (flip % 4 == 2) return hold(V(c)); if (flip % 4 == 3) return hold(make_array_view(c)); }
  if constexpr (R == 2) if (flip % 4 == 3) return hold(make_array_view(c, e[0], e[1]));
  if constexpr (R == 3) if (flip % 4 == 3) return hold(make_array_view(mem, int(e[0]), int(e[1]), int(e[2])));
  if (flip % 4 == 1) return hold(V(c, B(mk<R>(e))));
  if (flip % 4 == 2) { std::ptrdiff_t a[R]; for (int i = 0; i < R; ++i) a[i] = e[i]; return hold(V(mem, B(a))); }
  return hold(V(mem, bnd<B>(e, S{})));
}
// a shape known statically: static view, or dynamic and strided views of a C array of this shape
template <class A, std::ptrdiff_t... D> std::unique_ptr<H> sroot(long kind)
{
  constexpr int R = sizeof...(D); A & a = *reinterpret_cast<A *>(mem); ++flip;
  if (kind == 0) { if (flip % 2) { strided_bounds<R> b(a); return hold(strided_array_view<int, R>(mem, b)); } return hold(strided_array_view<int, R>(a)); }
  if (kind == 1) { if (flip % 3 == 0) { contiguous_bounds<R> b(a); return hold(array_view<int, R>(mem, b)); } if (flip % 3 == 1) return hold(make_array_view(a)); return hold(array_view<int, R>(a)); }
  using V = static_array_view<int, D...>; cont c{mem, 200};
  switch (flip % 4) { case 0: return hold(V(a)); case 1: return hold(make_static_array_view(a)); case 2: return hold(make_static_array_view<D...>(c)); default: { V w; V z(mem); w = z; return hold(w); } }
}
static std::unique_ptr<H> stat(long kind, vec const & e)
{
  if (e == vec{2}) return sroot<int[2], 2>(kind); if (e == vec{3}) return sroot<int[3], 3>(kind); if (e == vec{7}) return sroot<int[7], 7>(kind);
  if (e == vec{2, 2}) return sroot<int[2][2], 2, 2>(kind); if (e == vec{1, 3}) return sroot<int[1][3], 1, 3>(kind); if (e == vec{3, 2}) return sroot<int[3][2], 3, 2>(kind); if (e == vec{5, 4}) return sroot<int[5][4], 5, 4>(kind);
  if (e == vec{2, 1, 2}) return sroot<int[2][1][2], 2, 1, 2>(kind); if (e == vec{1, 2, 2}) return sroot<int[1][2][2], 1, 2, 2>(kind); if (e == vec{3, 4, 2}) return sroot<int[3][4][2], 3, 4, 2>(kind); if (e == vec{2, 3, 2, 4}) return sroot<int[2][3][2][4], 2, 3, 2, 4>(kind);
  return nullptr;
}
static std::unique_ptr<H> root(long kind, long pad, vec const & e)
{
  if (kind == 2 || (strides.empty() && pad == 0 && flip % 2)) { ++flip; if (auto h = stat(kind, e)) return h; if (kind == 2) std::exit(77); }
  switch (e.size()) { case 1: return droot<1>(kind, pad, e); case 2: return droot<2>(kind, pad, e); case 3: return droot<3>(kind, pad, e); default: return droot<4>(kind, pad, e); }
}
static std::unique_ptr<H> cur; static char const * KN[] = {"str", "dyn", "sta"};
static void step(out & o, std::string const & op, long i, long n, long p, vec x, vec y)
{
  rec e; e.s("op", op);
  if (op == "root") { x.resize(n); cur = root(i, p, x); e.s("kind", KN[i]).a("x", x).i("pad", p).a("own", strides); strides.clear(); }
  else { std::size_t r = cur->ext().size(); x.resize(r); y.resize(r); cur = cur->op(op, i, x, y); e.i("i", i).a("x", x).a("y", y); }
  cur->obs(e, true); o(e);
}
// ---- stateless parts ----
template <int R> void index_ops(out & o, rng & g)
{
  vec a(R), b(R); for (long & z : a) z = g.in(-9, 9); for (long & z : b) z = g.coin() ? a[&z - b.data()] : g.in(-9, 9); long k = g.in(1, 5);
  index_t<R> x = mk<R>(a), y = mk<R>(b); auto x2 = x; x2 += y; auto x3 = x; x3 -= y; auto x4 = x; x4 *= k; auto x5 = x; x5 /= k; index_t<R> sw = x, ty = y; sw.swap(ty);
  vec at; for (int i = 0; i < R + 2; ++i) try { at.push_back(g.coin() ? x.at(i) : static_cast<index_t<R> const &>(x).at(i)); } catch (std::out_of_range &) { at.push_back(THROWN); }
  for (std::size_t i : far_away) try { at.push_back(enci(g.coin() ? x.at(i) : static_cast<index_t<R> const &>(x).at(i))); } catch (std::out_of_range &) { at.push_back(THROWN); }
  index_t<R> fromarr(x.as_array()); vec it(x.begin(), x.end());
  rec e; e.s("op", "index").a("a", a).a("b", b).i("k", k).a("add", idx(x + y)).a("sub", idx(x - y)).a("add2", idx(x2)).a("sub2", idx(x3)).a("mul", idx(x * k)).a("mul2", idx(k * x)).a("mul3", idx(x4)).a("div", idx(x / k)).a("div2", idx(x5)).a("neg", idx(-x)).a("pos", idx(+x))
    .i("eq", x == y).i("ne", x != y).a("at", at).i("out", 2 + sizeof far_away / sizeof *far_away).a("arr", idx(fromarr)).a("it", it).a("sw", idx(sw)).a("sw2", idx(ty)).i("g0", enci(long(x.template get<0>())));
  if constexpr (R == 1) { index_t<1> p = x, q = x, r = x, s = x; ++p; index_t<1> qq = q++; --r; index_t<1> ss = s--; e.a("inc", vec{p[0], q[0], qq[0], r[0], s[0], ss[0]}); } else e.a("inc", vec{});
  o(e);
}
template <class V, class W> void cmp(out & o, V const & v, W const & w)
{
  vec a, b; for (std::size_t k = 0; k < v.size(); ++k) { a.push_back(v[mk<V::index_type::rank>(unrank(idx(v.bounds().as_index()), k))]); }
  for (std::size_t k = 0; k < w.size(); ++k) { b.push_back(w[mk<W::index_type::rank>(unrank(idx(w.bounds().as_index()), k))]); }
  o(rec().s("op", "cmp").a("a", a).a("b", b).i("eq", v == w).i("ne", v != w).i("lt", v < w).i("le", v <= w).i("gt", v > w).i("ge", v >= w));
}
static void compares(out & o, rng & g)
{
  static int m1[64], m2[64]; for (int i = 0; i < 64; ++i) { m1[i] = g.in(0, 1); m2[i] = g.coin(6) ? g.in(0, 1) : m1[i]; }
  long a = g.in(0, 3), b = g.in(0, 3); int * p = g.coin() ? m1 : m2; int * q = g.coin() ? m1 : m2;
  cmp(o, array_view<int, 2>(p, {a, b}), array_view<int, 2>(q, {g.in(0, 3), g.in(0, 3)}));
  cmp(o, array_view<int, 2>(p, {a, b}), array_view<int const, 1>(q, contiguous_bounds<1>(a * b)));
  index_t<2> e; e[0] = a; e[1] = b; index_t<2> s, t; s[1] = g.in(1, 2); s[0] = g.in(3, 5) * 2; t[1] = g.in(1, 2); t[0] = g.in(3, 5) * 2;
  cmp(o, strided_array_view<int, 2>(p, e, s), strided_array_view<int, 2>(q, e, t));
  cmp(o, strided_array_view<int, 1>(p, {a}, {g.in(1, 3)}), strided_array_view<int, 1>(p, {g.coin() ? a : b}, {g.in(1, 3)}));
  cmp(o, static_array_view<int, 2, 2>(p), static_array_view<int, 4>(q)); cmp(o, static_array_view<int, 2, 2>(p), static_array_view<int const, 2, 2>(q));
}
template <class V, class W> void fcmp(out & o, V const & v, W const & w, std::vector<long> const & a, std::vector<long> const & b)
{ bool nan = std::count(a.begin(), a.end(), 99) || std::count(b.begin(), b.end(), 99); o(rec().s("op", "fcmp").a("a", a).a("b", b).i("r", six(v, w, nan))); }
static void floats(out & o, rng & g)
{
  double m[12], k[12]; long n = g.in(0, 5); vec a, b; for (long i = 0; i < n; ++i) { a.push_back(fcode(g)); b.push_back(g.coin(6) ? fcode(g) : a.back() == 0 || a.back() == 100 ? 100 * g.below(2) : a.back()); } if (g.coin(6)) b.push_back(1);
  for (int i = 0; i < 12; ++i) m[i] = k[i] = i; long s = g.in(1, 2); for (std::size_t i = 0; i < a.size(); ++i) m[i * s] = fval(a[i]); for (std::size_t i = 0; i < b.size(); ++i) k[i] = fval(b[i]);
  strided_array_view<double, 1> v(m, {n}, {s}), u(k, {long(b.size())}, {1}); array_view<double, 1> w(k, contiguous_bounds<1>(long(b.size()))); fcmp(o, v, u, a, b); fcmp(o, u, v, b, a);
  if (s == 1) fcmp(o, array_view<double, 1>(m, contiguous_bounds<1>(n)), w, a, b);
  if (s == 1 && n == 4 && b.size() == 4) fcmp(o, static_array_view<double, 2, 2>(m), static_array_view<double, 2, 2>(k), a, b);
}
// bounds are equal if their extents are
template <int R> void bounds(out & o, rng & g)
{
  vec a(R), b; for (long & z : a) z = g.in(0, 3); b = a; if (g.coin()) b[g.below(R)] = g.in(0, 3); index_t<R> x = mk<R>(a), y = mk<R>(b), s; for (int i = 0; i < R; ++i) s[i] = g.in(1, 9);
  strided_bounds<R> p(x, s), q(y, s), p2(x, x); contiguous_bounds<R> c(x), d(y); o(rec().s("op", "bounds").a("a", a).a("b", b).a("r", vec{p == q, p != q, c == d, c != d}).a("self", vec{p == p2, !(p != p2)}));
}
// views of more elements than an int can count, by address: an offset written with the extents as digits is the index again
template <class V> void far(out & o, rng & g, V const & v, char * m, vec const & e)
{
  constexpr int R = V::index_type::rank; vec x; for (long z : e) x.push_back(g.coin(3) ? z - 1 : g.below(z)); auto i = mk<R>(x);
  auto digits = [&](long off) { vec d(R); for (int k = R; k-- > 0;) { d[k] = off % e[k]; off /= e[k]; } if (off) d[0] = BAD; return d; };
  long sz = v.size(), bs = v.bounds().size(), lin = v.bounds().linearize(i); for (long z : e) { sz = sz % z ? 0 : sz / z; bs = bs % z ? 0 : bs / z; }
  long k = &v[i] - m; auto it = v.begin() + k; auto bi = v.bounds().begin() + k; vec bx = idx(*bi);
  bool at = true; try { at = &v.at(i) == m + k; } catch (std::out_of_range &) { at = false; } bool last = (v.end() - it) + k == long(v.size()) && it - v.begin() == k && (v.bounds().end() - bi) + k == long(v.bounds().size());
  rec r; r.s("op", "farview").a("e", e).a("x", x).a("br", digits(k)).a("lin", digits(lin)).a("it", digits(&*it - m)).a("bi", bx).i("size", sz).i("bsize", bs).i("at", at).i("last", last);
  if constexpr (R > 1) { auto s = v.slice(x[0]); vec w(x.begin() + 1, x.end()); r.a("sl", digits(&s[mk<R - 1>(w)] - m)); } else r.a("sl", x);
  r.a("call", digits([&]{ if constexpr (R == 2) return &v(x[0], x[1]); else return &v(x[0], x[1], x[2]); }() - m));
  vec z(R, 0); auto sec = v.section(i); r.a("sec", digits(&sec[mk<R>(z)] - m)); o(r);
}
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) { std::freopen("/dev/null", "w", stderr); } std::iota(mem, mem + MEM, 0);
  std::string mode = argv[1];
  if (mode == "walk") {
    std::ifstream f(argv[2]); out o(argv[3]); std::string l;
    while (std::getline(f, l)) { std::istringstream s(l); std::string op; long i, n, p; s >> op; if (op == "new") continue; vec x(4), y(4); s >> i >> n >> p; for (long & z : x) s >> z; for (long & z : y) s >> z; step(o, op, i, n, p, x, y); }
    return 0;
  }
  void * big = mmap(nullptr, 5L << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rng g(std::atol(argv[2])); long runs = std::atol(argv[3]); out o(argv[4]);
  static const std::vector<vec> ST{{7}, {5, 4}, {3, 4, 2}, {2, 3, 2, 4}, {3, 2}, {2, 1, 2}};
  for (long r = 0; r < runs; ++r) {
    long kind = g.below(3), n = g.in(1, 4); vec x; if (kind == 2 || g.coin(4)) { x = ST[g.below(ST.size())]; n = x.size(); } else for (long k = 0; k < n; ++k) x.push_back(g.coin(12) ? 0 : g.in(1, n == 1 ? 40 : n == 2 ? 7 : 4));
    vec y; flip += g.below(7); if (kind == 0 && g.coin()) { vec p(n); std::iota(p.begin(), p.end(), 0); for (long k = n; k-- > 1;) std::swap(p[k], p[g.below(k + 1)]); strides.assign(n, 1); long s = g.in(1, 3); for (long k : p) { strides[k] = s; s = s * std::max(1L, x[k]) + g.below(2); } if (s > MEM) strides.clear(); }
    x.resize(4); step(o, "root", kind, n, kind == 0 ? g.below(3) : 0, x, y);
    for (int d = 0; d < 5; ++d) {
      vec e = cur->ext(); bool any = true; for (long z : e) if (z <= 0 || z > 60) any = false; if (!any) break; long c = g.below(6);
      if (c < 2 && e.size() > 1) step(o, "slice", g.below(e[0]), 0, 0, {}, {});
      else if (c < 5) { vec b, s; for (long z : e) { b.push_back(g.coin() ? 0 : g.below(z)); s.push_back(g.coin(15) ? 0 : g.coin() ? z - b.back() : g.in(1, z - b.back())); } step(o, g.coin(4) ? "from" : "section", 0, 0, 0, b, s); }
      else step(o, "tostr", 0, 0, 0, {}, {});
    }
    floats(o, g); floats(o, g); bounds<1>(o, g); bounds<2>(o, g); bounds<4>(o, g);
    if (r % 10 == 0 && big != MAP_FAILED) { char * m = static_cast<char *>(big); long a = g.in(40000, 70000), b = g.in(40000, 70000), c = g.in(1000, 1700), d = g.in(1000, 1700); far(o, g, array_view<char, 2>(m, contiguous_bounds<2>(a, b)), m, {a, b}); far(o, g, array_view<char, 3>(m, contiguous_bounds<3>(c, d, c)), m, {c, d, c});
      far(o, g, strided_array_view<char, 2>(m, strided_bounds<2>(a, b)), m, {a, b}); far(o, g, static_array_view<char, 50000, 70000>(m), m, {50000, 70000}); }
    index_ops<1>(o, g); index_ops<2>(o, g); index_ops<3>(o, g); index_ops<4>(o, g); compares(o, g);
  }
}
