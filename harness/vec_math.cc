// vector functions (spec/VecMath.tla).  usage: vec_math SEED ROUNDS OUT
#include "vf.h"
#include <array>
#include <cassert>
#include <iterator>
#include <list>
#include "ristra/math/vector.h"
#include "ristra/math/general.h"
#include "ristra/geometry/space_vector.h"
#include "ristra/geometry/point.h"
using namespace vf; namespace rm = ristra::math; namespace rg = ristra::geometry; using vec = std::vector<long>;
static out * O;
static double SC = 1;   // the number n stands for the value n * SC (a power of two)
static void ev(char const * f, std::vector<vec> const & a, vec const & r) { std::vector<std::string> s; for (auto & x : a) s.push_back(arr(x)); rec e; e.s("f", f).raw("args", arr2(s)).a("r", r); (*O)(e); }
// results of degree d in the arguments
static double U(int d) { return std::pow(SC, -d); }
template <class C> vec L(C const & c, double k = 1, int d = 1) { vec v; for (std::size_t i = 0; i < c.size(); ++i) v.push_back(enc(double(c[i]), k * U(d))); return v; }
template <class C> long one(C x, int d, double k = 1, double tol = 1e-9) { return enc(double(x), k * U(d), tol); }
static vec sq(double m, int d = 2) { return {enc(m * m, U(d)), m >= 0}; }
template <class A> A mk(vec const & v) { A a; for (std::size_t i = 0; i < v.size(); ++i) a[i] = v[i] * SC; return a; }
static vec rnd(rng & g, int n, long m) { vec v(n); for (long & x : v) x = g.coin(5) ? 0 : g.in(-m, m); return v; }
template <class T, std::size_t N> void round(rng & g)
{
  static constexpr bool fl = std::is_floating_point<T>::value; static double const SCALES[] = {1, 0.125, 0.5, 1048576, 1.0 / 65536}; SC = std::is_same<T, double>::value && g.coin(3) ? 1.0 / 3 : fl ? SCALES[g.below(5)] : 1;
  using A = rm::vector<T, N>; bool big = N <= 3 && !std::is_same<T, float>::value && g.coin(4); long m = big ? 12000 : g.coin() ? 3 : 40; vec a = rnd(g, N, m), b = g.coin(6) ? a : rnd(g, N, m); A x = mk<A>(a), y = mk<A>(b);
  std::vector<T> vx, vy; std::array<T, N> ax, ay; for (std::size_t i = 0; i < N; ++i) { ax[i] = a[i] * SC, ay[i] = b[i] * SC; vx.push_back(ax[i]); vy.push_back(ay[i]); }
  ev("dot", {a, b}, {one(rm::dot_product(x, y), 2)}); ev("dot", {a, b}, {one(rm::dot_product(vx.begin(), vx.end(), vy.begin()), 2)}); ev("dot", {a, b}, {one(rm::dot_product(vx, vy), 2)}); ev("dot", {a, b}, {one(rm::dot_product(ax, ay), 2)});
  ev("min", {a, b}, L(rm::min(x, y))); ev("max", {a, b}, L(rm::max(x, y))); ev("min", {a, b}, L(rm::min(vx, vy))); ev("max", {a, b}, L(rm::max(vx, vy)));
  ev("argmin", {a}, {long(rm::min_element(x) - x.begin())}); ev("argmax", {a}, {long(rm::max_element(x) - x.begin())}); ev("argmin", {a}, {long(rm::min_element(vx) - vx.cbegin())}); ev("argmax", {a}, {long(rm::max_element(vx) - vx.cbegin())});
  vec n = rnd(g, N, 2); A nn; for (std::size_t i = 0; i < N; ++i) nn[i] = n[i]; ev("reflect", {a, n}, L(rm::reflect(x, nn)));
  long p0 = big ? g.in(-1200, 1200) : a[0]; T z = p0 * SC; ev("powers", {{p0}}, {one(rm::sqr(z), 2), one(rm::cube(z), 3), rm::sgn(z)});
  if constexpr (N == 2) { ev("cross2", {a, b}, {one(rm::cross_product(x, y), 2)}); ev("normal2", {a, b}, L(rm::normal(x, y))); }
  if constexpr (N == 3) { vec a3 = big ? rnd(g, 3, 500) : a, b3 = big ? rnd(g, 3, 500) : b, c = rnd(g, 3, big ? 500 : m); A w = mk<A>(c), x3 = mk<A>(a3), y3 = mk<A>(b3); ev("cross3", {a, b}, L(rm::cross_product(x, y), 1, 2)); ev("triple", {a3, b3, c}, {one(rm::triple_product(x3, y3, w), 3)}); }
  if constexpr (!std::is_integral<T>::value) {
    double tol = std::is_same<T, float>::value ? 1e-5 : 1e-9; auto sqt = [&](double q) { return vec{enc(q * q, U(2), tol), q >= 0}; };
    ev("mag", {a}, sqt(rm::magnitude(x))); ev("mag", {a}, sqt(rm::abs(x))); ev("mag", {a}, sqt(rm::magnitude(vx))); ev("mag", {a}, sqt(rm::abs(vx))); ev("delta", {a, b}, sqt(rm::delta_magnitude(x, y))); ev("delta", {a, b}, sqt(rg::distance(x, y)));
    bool nz = false; for (long q : a) if (q) nz = true;
    if (nz) { A u = rm::unit(x); double len = 0; for (long q : a) len += q * q; len = std::sqrt(len); vec r; for (std::size_t i = 0; i < N; ++i) r.push_back(enc(u[i] * len, 1, tol)); ev("unit", {a}, r); }
    ev("mid", {a, b}, L(rg::midpoint(x, y), 2));
    if constexpr (std::is_same<T, double>::value && N <= 3) {
      using S = rg::space_vector<T, N>; S s = mk<S>(a), t = mk<S>(b); ev("dot", {a, b}, {one(rg::dot<T, N>(s, t), 2)}); ev("mag", {a}, sq(rg::magnitude<T, N>(s))); ev("tovec", {a}, L(rg::point_to_vector<T, N>(x)));
      { double q = rg::cross_magnitude<T>(s, t); if (!big) ev("crossmag", {a, b}, sq(q, 4)); }
      if constexpr (N == 2) ev("normal2", {a, b}, L(rg::normal<T>(x, y))); if constexpr (N == 3) ev("cross3", {a, b}, L(rg::normal<T>(s, t), 1, 2));
      if constexpr (N > 1) { int k = g.coin(12) ? g.in(6, 40) : g.in(1, 5); std::vector<vec> p; std::vector<rg::point<T, N>> q; for (int i = 0; i < k; ++i) { p.push_back(rnd(g, N, m)); q.push_back(mk<A>(p.back())); } A ctr = rg::centroid<std::vector>(q); ev("avgv", p, L(ctr, k));
        A c3 = rg::centroid({x, y, x}); ev("avgv", {a, b, a}, L(c3, 3)); A c2 = rm::average(x, y); ev("avgv", {a, b}, L(c2, 2)); A c4 = rm::average(x, y, y, x); ev("avgv", {a, b, b, a}, L(c4, 4)); ev("avgv", p, L(rm::average(q.begin(), q.end()), k)); ev("avgv", p, L(rm::average(q), k)); }
    }
  }
}
// distances between vectors of different element types: the second is fractional
template <class T1, class T2, std::size_t N> void mixed(rng & g)
{
  SC = 1; vec a = rnd(g, N, 20), b = rnd(g, N, 90); rm::vector<T1, N> x = mk<rm::vector<T1, N>>(a); rm::vector<T2, N> y; for (std::size_t i = 0; i < N; ++i) { y[i] = b[i] * 0.25; a[i] *= 4; }
  SC = 0.25; double tol = 1e-5; auto sqt = [&](double q) { return vec{enc(q * q, U(2), tol), q >= 0}; }; ev("delta", {a, b}, sqt(rm::delta_magnitude(x, y))); ev("delta", {b, a}, sqt(rm::delta_magnitude(y, x)));
}
// points close together and far from the origin
template <std::size_t N> void faraway(rng & g)
{
  SC = 1; vec a = rnd(g, N, 40), b = rnd(g, N, 40); rg::point<double, N> x, y; vec off(N); for (std::size_t i = 0; i < N; ++i) { off[i] = (g.coin() ? 1 : -1) * (1L << g.in(20, 44)); x[i] = off[i] + a[i]; y[i] = off[i] + b[i]; }
  auto sqt = [&](double q) { return vec{enc(q * q, 1, 1e-9), q >= 0}; }; ev("delta", {a, b}, sqt(rg::distance(x, y))); ev("delta", {a, b}, sqt(rm::delta_magnitude(x, y))); ev("delta", {a, b}, sqt(rm::magnitude(x - y)));
  auto m = rg::midpoint(x, y); vec r; for (std::size_t i = 0; i < N; ++i) r.push_back(enc(m[i] - off[i], 2)); ev("mid", {a, b}, r);
}
template <class T> void averages(rng & g, char const * f)
{
  bool in = std::is_integral<T>::value; SC = in ? 1 : std::is_same<T, double>::value && g.coin(3) ? 1.0 / 3 : g.coin() ? 0.125 : 1;
  vec v = rnd(g, g.coin(12) ? g.in(8, 60) : g.in(1, 7), 50); std::vector<T> x; for (long q : v) x.push_back(q * SC); std::list<T> y(x.begin(), x.end()); double k = in ? 1 : v.size() / SC; double tol = std::is_same<T, float>::value ? 1e-5 : 1e-9;
  ev(f, {v}, {enc(rm::average(x), k, tol)}); ev(f, {v}, {enc(rm::average(x.begin(), x.end()), k, tol)}); ev(f, {v}, {enc(rm::average(y.begin(), y.end()), k, tol)}); ev(f, {v}, {enc(rm::average(y), k, tol)});
  T a = g.in(-9, 9) * SC, b = g.in(-9, 9) * SC, c = g.in(-9, 9) * SC, d = g.in(-9, 9) * SC, h = g.in(-9, 9) * SC; auto V = [&](std::initializer_list<T> l) { vec q; for (T n : l) q.push_back(std::lround(n / SC)); return q; };
  ev(f, {V({a, b})}, {enc(rm::average(a, b), in ? 1 : 2 / SC, tol)}); ev(f, {V({a, b, c})}, {enc(rm::average(a, b, c), in ? 1 : 3 / SC, tol)}); ev(f, {V({a, b, c, d})}, {enc(rm::average(a, b, c, d), in ? 1 : 4 / SC, tol)}); ev(f, {V({a, b, c, d, h})}, {enc(rm::average(a, b, c, d, h), in ? 1 : 5 / SC, tol)});
}
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) std::freopen("/dev/null", "w", stderr);
  rng g(std::atol(argv[1])); out o(argv[3]); O = &o;
  for (long k = 0; k < std::atol(argv[2]); ++k) {
    round<double, 1>(g); round<double, 2>(g); round<double, 3>(g); round<double, 4>(g); round<int, 2>(g); round<int, 3>(g); round<long, 3>(g); round<float, 2>(g); round<float, 3>(g); round<double, 7>(g);
    mixed<int, double, 2>(g); mixed<int, double, 3>(g); mixed<long, float, 3>(g); mixed<float, double, 4>(g);
    faraway<1>(g); faraway<2>(g); faraway<3>(g);
    averages<int>(g, "avgi"); averages<long>(g, "avgi"); averages<double>(g, "avgd"); averages<float>(g, "avgd");
  }
}
