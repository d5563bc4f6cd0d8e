// Zipped, filtered and tuple-wise traversals (spec/Zip.tla).  usage: zip walk IN OUT K L | zip random SEED SCALE OUT
#include "vf.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <sys/wait.h>
#include <unistd.h>
#include "ristra/utils/zip.h"
#include "ristra/utils/filter_iterator.h"
#include "ristra/utils/tasks.h"
#include "ristra/utils/tuple_for_each.h"
#include "ristra/utils/tuple_visit.h"
#include "ristra/utils/tuple_zip.h"
#include "ristra/utils/static_for.h"
#include "ristra/utils/algorithm.h"
#include "ristra/math/tuple.h"
using namespace vf; namespace ru = ristra::utils;
static out * o;
template <class C> static std::string A(C const & c) { std::vector<long> v(c.begin(), c.end()); return arr(v); }
struct base { virtual ~base() {} virtual void step(std::string const &, long, long, long) = 0; virtual void start() = 0; };
// iterator histories over given container types
template <class... C> struct zipped : base {
  std::tuple<C...> c; using Z = decltype(ru::zip(std::declval<C &>()...)); using It = std::decay_t<decltype(std::declval<Z &>().begin())>;
  std::optional<std::decay_t<Z>> z; std::optional<It> it[3];
  explicit zipped(std::size_t n) { std::apply([&](auto &... x) { (rs(x, n), ...); z.emplace(ru::zip(x...)); }, c); }
  template <class X> static void rs(X & x, std::size_t n) { if constexpr (std::tuple_size_v<std::tuple<>> == 0) { rz(x, n); } }
  template <class X> static auto rz(X & x, std::size_t n) -> decltype(x.resize(n), void()) { x.resize(n); for (auto & v : x) v = 0; }
  static void rz(std::array<int, 2> & x, std::size_t) { x.fill(0); }
  std::string cs() { return std::apply([](auto &... x) { return arr2({A(x)...}); }, c); }
  void start() override { (*o)(rec().s("op", "zip").i("refused", 0).raw("cs", cs())); }
  template <std::size_t... I, class T> static void set(T t, long k, long v, std::index_sequence<I...>) { ((long(I) + 1 == k ? void(std::get<I>(t) = v) : void()), ...); }
  void step(std::string const & op, long a, long b, long c_) override
  {
    rec e; e.s("op", op).i("a", a).i("b", b).i("c", c_);
    if (op == "begin") it[a].emplace(z->begin()); else if (op == "end") it[a].emplace(z->end());
    else if (op == "inc") ++*it[a]; else if (op == "post") { auto x = (*it[b])++; it[a].emplace(x); } else if (op == "copy") { auto x = *it[b]; it[a].emplace(x); }
    else if (op == "eq") e.i("eq", *it[a] == *it[b]).i("ne", *it[a] != *it[b]);
    else if (op == "read") { auto t = **it[a]; e.raw("row", std::apply([](auto &... x) { return arr(std::vector<long>{long(x)...}); }, t)); }
    else if (op == "write") set(**it[a], b, c_, std::index_sequence_for<C...>());
    else std::exit(77);
    e.raw("cs", cs()); (*o)(e);
  }
};
template <class... C> static void loop(C... c)
{
  std::string before = arr2({A(c)...}), seen; std::vector<std::string> s; std::size_t guard = 0;
  for (auto t : ru::zip(c...)) { if (++guard > 100) break; s.push_back(std::apply([](auto &... x) { return arr(std::vector<long>{long(x)...}); }, t)); int k = 0; std::apply([&](auto &... x) { ((x = x * 10 + ++k), ...); }, t); }
  (*o)(rec().s("op", "loop").raw("cs", before).raw("seen", arr2(s)).raw("after", arr2({A(c)...})));
}
// the same loop written as a task: a function called with the elements, which it may change
template <class... C> static void task(C... c)
{
  std::string before = arr2({A(c)...}); std::vector<std::string> s;
  auto f = [&](auto &... x) { if (s.size() > 500) return; s.push_back(arr(std::vector<long>{long(x)...})); int k = 0; ((x = x * 10 + ++k), ...); };
  ru::simple_task(f, c...);
  (*o)(rec().s("op", "loop").raw("cs", before).raw("seen", arr2(s)).raw("after", arr2({A(c)...})));
}
template <class... C> static void reject(C... c)
{ pid_t p = fork(); if (p < 0) std::exit(77); if (p == 0) { auto z = ru::zip(c...); (void)z; _exit(0); } int st; waitpid(p, &st, 0);
  (*o)(rec().s("op", "zip").i("refused", WIFSIGNALED(st)).raw("cs", arr2({A(c)...}))); }
static rng r(1);
static std::vector<int> vec(std::size_t n) { std::vector<int> v; while (v.size() < n) v.push_back(r.in(-9, 9)); return v; }
static std::list<int> lst(std::size_t n) { auto v = vec(n); return {v.begin(), v.end()}; }
static std::deque<int> deq(std::size_t n) { auto v = vec(n); return {v.begin(), v.end()}; }
static std::array<int, 3> ar3() { return {int(r.in(-9, 9)), int(r.in(-9, 9)), int(r.in(-9, 9))}; }
// tuples -------------------------------------------------------------------------------
template <class T> static const char * ty() { return std::is_floating_point<T>::value ? "\"d\"" : "\"i\""; }
template <class T> static long lg(T x) { return std::is_floating_point<T>::value ? enc(double(x), 4) : long(x); }
template <class T> static std::vector<long> ints(T const & t) { return std::apply([](auto const &... x) { return std::vector<long>{long(x)...}; }, t); }
template <class T> static std::vector<long> logs(T const & t) { return std::apply([](auto const &... x) { return std::vector<long>{lg(x)...}; }, t); }
template <class T> static T rd() { return std::is_integral<T>::value ? T(r.in(1, 60) * (r.coin() ? 1 : -1)) : T((1 << r.below(3)) * (r.coin() ? 1 : -1)); }
template <class... T> static std::tuple<T...> rt(bool div, bool big = false) { if (div) return std::tuple<T...>{rd<T>()...}; if (big && r.coin(3)) return std::tuple<T...>{T(r.in(-90000000, 90000000) * 2 + 1)...}; return std::tuple<T...>{T(r.in(-60, 60))...}; }
template <class... T> static void tuples()
{
  using namespace ristra::math; using Tp = std::tuple<T...>; constexpr std::size_t n = sizeof...(T); std::string t = arr2({ty<T>()...});
  auto say = [&](const char * op, std::vector<long> a, std::vector<long> b, Tp const & res) { (*o)(rec().s("op", "tup").raw("ty", t).s("o", op).a("a", a).a("b", b).a("r", logs(res))); };
#define OPS(OP, NAME, eq, dv) { Tp a = rt<T...>(false, *NAME == '+' || *NAME == '-'), b = rt<T...>(dv, *NAME == '+' || *NAME == '-'); int s = dv ? ((std::is_floating_point<T>::value || ...) ? (1 << r.below(3)) : int(r.in(1, 60))) : int(r.in(-9, 9)); std::vector<long> sv(n, s); auto ia = ints(a), ib = ints(b); \
    say(NAME, ia, ib, a OP b); say(NAME, ia, sv, a OP s); if (dv) say(NAME, std::vector<long>(n, 12 * s), ib, (12 * s) OP b); else say(NAME, sv, ib, s OP b); double ds = s; say(NAME, ia, sv, a OP ds); \
    if (ints(a) != ia || ints(b) != ib) say("changed", ia, ib, a); \
    Tp x = a; eq(x, b); say(NAME, ia, ib, x); x = a; eq(x, s); say(NAME, ia, sv, x); if (!dv) { x = a; eq(x, x); say(NAME, ia, ia, x); } }
  OPS(+, "+", plus_equal, false) OPS(-, "-", minus_equal, false) OPS(*, "*", multiplies_equal, false) OPS(/, "/", divides_equal, true)
  { // a scalar with a fraction, q / 4
    static const long qs[] = {1, 2, 4, 8, 16, -1, -2, -8}; long q = qs[r.below(8)]; double s = q / 4.0; Tp a = rt<T...>(false), b = rt<T...>(true); auto ia = ints(a), ib = ints(b);
    auto sq = [&](const char * op, const char * side, std::vector<long> v, Tp const & res) { (*o)(rec().s("op", "tups").raw("ty", t).s("o", op).s("side", side).i("q", q).a("a", v).a("r", logs(res))); };
    sq("+", "r", ia, a + s); sq("-", "r", ia, a - s); sq("*", "r", ia, a * s); sq("/", "r", ia, a / s); sq("+", "l", ia, s + a); sq("-", "l", ia, s - a); sq("*", "l", ia, s * a); { long q0 = q; q *= 4; sq("/", "l", ib, (4 * s) / b); q = q0; }
    Tp x = a; plus_equal(x, s); sq("+", "r", ia, x); x = a; minus_equal(x, s); sq("-", "r", ia, x); x = a; multiplies_equal(x, s); sq("*", "r", ia, x); x = a; divides_equal(x, s); sq("/", "r", ia, x);
    ristra::math::fill(x, s); sq("=", "r", ia, x); }
  { Tp a = rt<T...>(false); int v = r.in(-9, 9); ristra::math::fill(a, v); (*o)(rec().s("op", "fill").i("v", v).a("r", ints(a))); }
  { Tp a = rt<T...>(false); auto ia = ints(a); std::vector<long> ord; int k = 0; ru::tuple_for_each(a, [&](auto & x) { ord.push_back(long(x)); x = 2 * x + ++k; }); (*o)(rec().s("op", "each").a("vals", ia).a("order", ord).a("after", ints(a))); }
  { Tp a = rt<T...>(false); const Tp b = rt<T...>(false); Tp c = rt<T...>(false); auto ia = ints(a); std::vector<std::string> ord;
    ru::tuple_visit([&](auto & x, auto const & y, auto & z) { ord.push_back(arr(std::vector<long>{long(x), long(y), long(z)})); x = x + 2 * y - z; }, a, b, c);
    (*o)(rec().s("op", "visit").a("x", ia).a("y", ints(b)).a("z", ints(c)).raw("order", arr2(ord)).a("after", ints(a))); }
  { Tp a = rt<T...>(false), b = rt<T...>(false); auto z = ru::tuple_zip(a, b); std::vector<std::string> p; ru::tuple_for_each(z, [&](auto & q) { p.push_back(arr(std::vector<long>{long(q.first), long(q.second)})); });
    (*o)(rec().s("op", "tzip").a("x", ints(a)).a("y", ints(b)).raw("pairs", arr2(p)));
    auto ia = ints(a), ib = ints(b); ru::tuple_for_each(ru::tuple_tie(a, b), [](auto q) { auto h = std::get<0>(q); std::get<0>(q) = std::get<1>(q); std::get<1>(q) = h; });
    (*o)(rec().s("op", "ttie").a("x", ia).a("y", ib).a("x2", ints(a)).a("y2", ints(b))); }
}
template <std::size_t N> static void sfor() { std::vector<long> v; ru::static_for<N>([&](auto i) { v.push_back(i); }); (*o)(rec().s("op", "for").i("n", N).a("order", v)); }
template <class C> static void filt(C c) { long m = r.in(1, 4), k = r.below(m); auto p = [m, k](int x) { return ((x % m) + m) % m == k; };
  std::vector<long> v; auto e = ru::make_filter_iterator(c.end(), c.end(), p); std::size_t g = 0;
  if (r.coin()) for (auto i = ru::make_filter_iterator(c.begin(), c.end(), p); i != e && g < 500; ++i, ++g) v.push_back(*i); else for (auto i = ru::make_filter_iterator(c.begin(), c.end(), p); !(i == e) && g < 500; ++g) v.push_back(*i++);
  (*o)(rec().s("op", "filter").raw("s", A(c)).i("m", m).i("k", k).a("r", v)); }
struct pred { long m, k; bool operator()(int x) const { return ((x % m) + m) % m == k; } };
// two filtering iterators advanced a little, exchanged; copied, converted to a constant one
template <class C> static void fswap(C c, C d)
{
  pred p{r.in(1, 3), 0}; p.k = r.below(p.m); using I = typename C::iterator; using F = ru::filter_iterator<pred, I>; F i(p, c.begin(), c.end()), j(p, d.begin(), d.end()), ie(p, c.end(), c.end()), je(p, d.end(), d.end());
  long k1 = r.below(4), k2 = r.below(4), a = 0, b = 0; for (; a < k1 && i != ie; ++a) { if (r.coin()) ++i; else i++; } for (; b < k2 && j != je; ++b) ++j;
  bool sw = r.coin(); if (sw) { i.swap(j); std::swap(ie, je); } auto rest = [](auto f, auto const & e) { std::vector<long> v; for (; f != e && v.size() < 500; ++f) v.push_back(*f.operator->()); return v; };
  F i2(i); F j2(ie); j2 = j; ru::filter_iterator<pred, typename C::const_iterator> ci(i), ce(ie); std::vector<std::string> ri{arr(rest(i, ie)), arr(rest(i2, ie)), arr(rest(ci, ce))}, rj{arr(rest(j, je)), arr(rest(j2, je))};
  (*o)(rec().s("op", "fswap").raw("s", A(c)).raw("d", A(d)).i("m", p.m).i("k", p.k).i("ka", a).i("kb", b).i("sw", sw).raw("ri", arr2(ri)).raw("rj", arr2(rj)));
}
// sequences of other elements: doubles as multiples of an eighth, strings by their number
template <class T> static T mk(long v) { if constexpr (std::is_same<T, std::string>::value) return std::string(1 + v / 26, char('a' + v % 26)) + "-long-enough-for-the-heap-"; else return T(v) / 8; }
template <class T> static long nb(T const & x) { if constexpr (std::is_same<T, std::string>::value) { auto q = x.find('-'); if (!q || q == std::string::npos) return BAD; return 26 * long(q - 1) + (x[0] - 'a'); } else return enc(double(x), 8); }
template <class C> static std::vector<long> nbs(C const & c) { std::vector<long> v; for (auto const & x : c) v.push_back(nb(x)); return v; }
template <class C, class D> static void sets(long n)
{
  using T = typename C::value_type; C x; D y; for (long i = r.below(n + 1); i > 0; --i) x.push_back(mk<T>(r.below(30))); for (long i = r.below(n + 1); i > 0; --i) y.push_back(mk<typename D::value_type>(r.below(30)));
  auto z = [&] { std::vector<T> q; ru::unsorted_set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(q)); return nbs(q); }();
  if (!std::is_same<T, std::string>::value || true) { auto ix = nbs(x), iy = nbs(y); std::sort(z.begin(), z.end()); (*o)(rec().s("op", "meet").a("x", ix).a("y", iy).a("r", z)); }
  auto ix = nbs(x); C w = x; ru::remove_duplicates(w); (*o)(rec().s("op", "dups").a("x", ix).a("r", nbs(w)));
  C u; for (T const & e : x) for (long k = r.below(3); k >= 0; --k) u.push_back(e); ix = nbs(u); ru::remove_duplicates(u); (*o)(rec().s("op", "dups").a("x", ix).a("r", nbs(u)));
}
int main(int ac, char ** av)
{
  if (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr)) return 77;
  std::string mode = av[1];
  if (mode == "walk") {
    std::ifstream in(av[2]); out oo(av[3]); o = &oo; std::string op; long a, b, c, k = 0; std::unique_ptr<base> w;
    while (in >> op >> a >> b >> c) {
      if (op != "new") { w->step(op, a, b, c); continue; }
      switch (++k % 3) { case 0: w = std::make_unique<zipped<std::vector<int>, std::list<int>, std::array<int, 2>>>(2); break; case 1: w = std::make_unique<zipped<std::deque<int>, std::vector<int>, std::vector<long>>>(2); break; default: w = std::make_unique<zipped<std::list<int>, std::list<int>, std::vector<double>>>(2); }
      w->start();
    }
    return 0;
  }
  r = rng(std::atol(av[2])); long sc = std::atol(av[3]); out oo(av[4]); o = &oo;
  for (long k = 0; k < 60 * sc; ++k) {
    std::size_t n = r.size(8, 70, 12);
    loop(vec(n)); loop(vec(n), lst(n)); loop(lst(n), vec(n)); loop(deq(n), vec(n), lst(n)); loop(vec(n), vec(n), vec(n), lst(n)); loop(vec(3), ar3()); loop(ar3(), lst(3), ar3()); loop(ar3());
    task(vec(n)); task(lst(n), vec(n)); task(deq(n), vec(n), lst(n)); task(ar3(), lst(3)); task(vec(n), deq(n), vec(n), vec(n));
    fswap(vec(n), vec(r.size(8, 40, 12))); fswap(lst(n), lst(5)); sets<std::vector<double>, std::vector<double>>(12); sets<std::list<double>, std::vector<float>>(9); sets<std::vector<std::string>, std::deque<std::string>>(12); sets<std::deque<double>, std::list<double>>(40);
    filt(vec(n)); filt(lst(n + 3)); filt(ar3());
    { auto x = vec(n), y = vec(r.size(8, 40, 12)); std::vector<int> z; ru::unsorted_set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z)); oo(rec().s("op", "meet").a("x", x).a("y", y).a("r", z)); }
    { auto x = vec(n + 4); if (x.size() < 20 || r.coin()) for (int & v : x) v = v < 0 ? 1 : v < 4 ? 2 : 3; auto y = x; ru::remove_duplicates(y); oo(rec().s("op", "dups").a("x", x).a("r", y)); }
    tuples<int>(); tuples<double>(); tuples<int, int>(); tuples<int, double>(); tuples<double, int, long>(); tuples<int, int, int, int>(); tuples<long, double, int, double, int>();
  }
  sfor<0>(); sfor<1>(); sfor<2>(); sfor<5>(); sfor<9>();
  for (std::size_t a = 0; a < 4; ++a) for (std::size_t b = 0; b < 4; ++b) { reject(vec(a), lst(b)); for (std::size_t c = 0; c < 4; ++c) { reject(vec(a), vec(b), lst(c)); if ((a + b + c) % 2) reject(vec(a), vec(b), vec(c), deq(a)); else reject(vec(a), vec(b), vec(c), deq(c)); } }
}
