// areas, normals, centroids, volumes (spec/Geometry.tla, spec/Body.tla).
// usage: geometry plane SEED ROUNDS OUT | solid SEED ROUNDS OUT | walk IN OUT
#include "vf.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <deque>
#include <iterator>
#include <list>
#include "ristra/math/vector.h"
#include "ristra/geometry/area.h"
#include "ristra/geometry/centroid.h"
#include "ristra/geometry/normal.h"
#include "ristra/geometry/shapes/triangle.h"
#include "ristra/geometry/shapes/quadrilateral.h"
#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/shapes/tetrahedron.h"
#include "ristra/geometry/shapes/hexahedron.h"
#include "ristra/geometry/shapes/polyhedron.h"
using namespace vf; namespace rm = ristra::math; namespace rg = ristra::geometry; namespace sh = ristra::geometry::shapes; using vec = std::vector<long>; using pts = std::vector<vec>;
static out * O;
static std::string J(pts const & p) { std::vector<std::string> s; for (auto & x : p) s.push_back(arr(x)); return arr2(s); }
static void ev(char const * f, pts const & p, vec const & r, long k = 1) { rec e; e.s("f", f).raw("p", J(p)).a("r", r).i("k", k); (*O)(e); }
static double TOL = 1e-8;
static double SC = 1;   // the integers of the events stand for multiples of this unit (1/3: shows lost precision); results are homogeneous of some degree in it
static double U(int d) { return std::pow(SC, -d); }
static void unit(rng & g, bool dbl = true) { static double const u[] = {1, 1, 0.125, 0.5, 1024, 1.0 / 4096}; SC = dbl && g.coin(4) ? 1.0 / 3 : u[g.below(6)]; }
template <class P> vec L(P const & x, double k, int deg = 1) { k *= U(deg); vec v; for (std::size_t i = 0; i < x.size(); ++i) v.push_back(enc(double(x[i]), k, TOL)); return v; }
template <class P> P mk(vec const & v) { P p; for (std::size_t i = 0; i < v.size(); ++i) p[i] = v[i] * SC; return p; }
template <class P> std::vector<P> mk(pts const & v) { std::vector<P> q; for (auto & x : v) q.push_back(mk<P>(x)); return q; }
template <class F, class V, std::size_t... I> auto spread(F && f, V const & v, std::index_sequence<I...>) { return f(v[I]...); }
static long a2(pts const & p) { long a = 0; for (std::size_t i = 0; i < p.size(); ++i) { auto & u = p[i]; auto & v = p[(i + 1) % p.size()]; a += u[0] * v[1] - u[1] * v[0]; } return a; }
// a simple polygon: points sorted by angle around c, all angles different
static pts simple(rng & g, int n, int m)
{
  for (;;) {
    pts p; for (int i = 0; i < n; ++i) p.push_back({g.in(-m, m), g.in(-m, m)});
    auto ang = [&](vec const & v) { return std::atan2(double(v[1]) - 0.37, double(v[0]) - 0.21); };
    std::sort(p.begin(), p.end(), [&](vec const & a, vec const & b) { return ang(a) < ang(b); });
    bool ok = true; for (int i = 0; i < n; ++i) { double d = ang(p[(i + 1) % n]) - ang(p[i]); if (d < 0) d += 2 * std::acos(-1.0); if (d < 1e-9 || d > 3.1) ok = false; }
    if (!ok || a2(p) == 0) continue;
    if (g.coin()) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + g.below(n), p.end()); long dx = g.in(-30, 30), dy = g.in(-30, 30); if (g.coin()) for (auto & v : p) v[0] += dx, v[1] += dy; return p;
  }
}
static pts hull(rng & g, int n, int m)   // convex polygon with n corners
{
  for (;;) {
    pts p; for (int i = 0; i < 3 * n; ++i) p.push_back({g.in(-m, m), g.in(-m, m)}); std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); pts h; auto cr = [](vec const & o, vec const & a, vec const & b) { return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]); };
    for (int s = 0; s < 2; ++s) { std::size_t b = h.size(); for (auto & q : p) { while (h.size() >= b + 2 && cr(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); }
    if (int(h.size()) != n) continue; if (g.coin()) std::reverse(h.begin(), h.end()); std::rotate(h.begin(), h.begin() + g.below(n), h.end()); return h;
  }
}
static vec cross(vec const & a, vec const & b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static long dot(vec const & a, vec const & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static vec sub(vec const & a, vec const & b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static vec n2(pts const & p) { vec s(3); for (std::size_t i = 0; i < p.size(); ++i) { vec c = cross(sub(p[i], p[0]), sub(p[(i + 1) % p.size()], p[0])); for (int d = 0; d < 3; ++d) s[d] += c[d]; } return s; }
template <class T> void plane2(rng & g, pts const & p)
{
  unit(g, std::is_same<T, double>::value); using P = rm::vector<T, 2>; auto v = mk<P>(p); std::deque<P> d(v.begin(), v.end()); std::list<P> li(v.begin(), v.end()); long A = a2(p); std::size_t n = p.size(); using Q = sh::polygon<2>;
  auto area = [&](T x) { ev("area2", p, {enc(x, 2 * U(2), TOL)}, 2); }; auto nor = [&](P x) { ev("normal2", p, L(x, 2, 2), 2); }; auto cen = [&](P x) { ev("centroid2", p, L(x, 3.0 * A), 3 * A); }; auto mid = [&](P x) { ev("mid", p, L(x, n), n); };
  area(rg::area(v)); area(rg::area(d)); area(rg::area_2d(v)); cen(rg::centroid(v)); cen(rg::centroid(d)); cen(rg::centroid_2d(v));
  area(Q::area(v)); area(Q::area(v.begin(), v.end())); area(Q::area(li)); area(Q::area(li.begin(), li.end())); nor(Q::normal(v)); nor(Q::normal(li.begin(), li.end())); cen(Q::centroid(v)); cen(Q::centroid(v.cbegin(), v.cend())); cen(Q::centroid(li)); mid(Q::midpoint(v)); mid(Q::midpoint(li));
  ev("edge2", {p[0], p[1]}, L(rg::normal(v[0], v[1]), 1));
  auto var = [&](auto seq) {
    area(spread([](auto &... x) { return Q::area(x...); }, v, seq)); nor(spread([](auto &... x) { return Q::normal(x...); }, v, seq)); cen(spread([](auto &... x) { return Q::centroid(x...); }, v, seq)); mid(spread([](auto &... x) { return Q::midpoint(x...); }, v, seq)); area(spread([](auto... x) { return Q::area(std::move(x)...); }, v, seq));
    if constexpr (seq.size() > 3) { area(spread([](auto &... x) { return rg::area(x...); }, v, seq)); cen(spread([](auto &... x) { return rg::centroid(x...); }, v, seq)); }
  };
  if (n == 3) { var(std::make_index_sequence<3>{}); using S = sh::triangle<2>; area(S::area(v[0], v[1], v[2])); nor(S::normal(v[0], v[1], v[2])); mid(S::midpoint(v[0], v[1], v[2])); cen(S::centroid(v[0], v[1], v[2])); }
  if (n == 4) { var(std::make_index_sequence<4>{}); using S = sh::quadrilateral<2>; area(S::area(v[0], v[1], v[2], v[3])); nor(S::normal(v[0], v[1], v[2], v[3])); mid(S::midpoint(v[0], v[1], v[2], v[3])); cen(S::centroid(v[0], v[1], v[2], v[3])); }
  if (n == 5) var(std::make_index_sequence<5>{}); if (n == 6) var(std::make_index_sequence<6>{});
}
template <class T> void plane3(rng & g, pts const & p, bool flat)   // flat: planar and convex
{
  unit(g, std::is_same<T, double>::value); using P = rm::vector<T, 3>; auto v = mk<P>(p); std::list<P> li(v.begin(), v.end()); std::size_t n = p.size(); using Q = sh::polygon<3>; vec N = n2(p); long NN = dot(N, N); auto ref = Q::area(v); auto rc = Q::centroid(v);
  auto area = [&](T x) { if (flat) ev("area3", p, {enc(4.0 * x * x, U(4), TOL), x >= 0}); else ev("same", p, {enc(x - ref, U(2), 1e-6)}); }; auto nor = [&](P x) { ev("normal3", p, L(x, 2, 2), 2); };
  auto cen = [&](P x) { if (flat) ev("centroid3", p, L(x, 3.0 * NN), 3 * NN); else { double m = 0; for (int i = 0; i < 3; ++i) m = std::max(m, std::fabs(double(x[i] - rc[i]))); ev("same", p, {enc(m, U(1), 1e-6)}); } }; auto mid = [&](P x) { ev("mid", p, L(x, n), n); };
  area(Q::area(v)); area(Q::area(v.begin(), v.end())); area(Q::area(li)); nor(Q::normal(v)); nor(Q::normal(li.begin(), li.end())); cen(Q::centroid(v)); cen(Q::centroid(li)); cen(Q::centroid(v.begin(), v.end())); mid(Q::midpoint(v)); mid(Q::midpoint(li.begin(), li.end()));
  ev("edge3", {p[0], p[1]}, L(rg::normal(v[0], v[1]), 1, 2));
  auto var = [&](auto seq) { area(spread([](auto &... x) { return Q::area(x...); }, v, seq)); nor(spread([](auto &... x) { return Q::normal(x...); }, v, seq)); cen(spread([](auto &... x) { return Q::centroid(x...); }, v, seq)); mid(spread([](auto &... x) { return Q::midpoint(x...); }, v, seq)); };
  if (n == 3) { using S = sh::triangle<3>; area(S::area(v[0], v[1], v[2])); nor(S::normal(v[0], v[1], v[2])); mid(S::midpoint(v[0], v[1], v[2])); cen(S::centroid(v[0], v[1], v[2])); }
  if (n == 4) { var(std::make_index_sequence<4>{}); using S = sh::quadrilateral<3>; area(S::area(v[0], v[1], v[2], v[3])); nor(S::normal(v[0], v[1], v[2], v[3])); mid(S::midpoint(v[0], v[1], v[2], v[3])); cen(S::centroid(v[0], v[1], v[2], v[3])); }
  if (n == 5) var(std::make_index_sequence<5>{});
}
static void planes(rng & g)
{
  for (int n = 3; n <= 7; ++n) { plane2<double>(g, simple(g, n, n < 5 ? 5 : 12)); }
  plane2<double>(g, simple(g, g.in(3, 4), 100)); if (g.coin(3)) plane2<double>(g, simple(g, g.in(8, 16), 20));
  TOL = 1e-4; plane2<float>(g, hull(g, g.in(3, 6), 5)); TOL = 1e-8;
  for (int n = 3; n <= 6; ++n) {
    pts h = hull(g, n, n < 5 ? 3 : 4), q; vec u, w, o{g.in(-6, 6), g.in(-6, 6), g.in(-6, 6)}; do { u = {g.in(-1, 2), g.in(-1, 2), g.in(-1, 2)}; w = {g.in(-2, 1), g.in(-2, 1), g.in(-2, 1)}; } while (dot(cross(u, w), cross(u, w)) == 0);
    for (auto & x : h) q.push_back({o[0] + x[0] * u[0] + x[1] * w[0], o[1] + x[0] * u[1] + x[1] * w[1], o[2] + x[0] * u[2] + x[1] * w[2]}); plane3<double>(g, q, true);
    if (n > 3) { pts r = q; for (auto & x : r) x[g.below(3)] += g.in(-1, 1); plane3<double>(g, r, false); }
  }
}
// ---- solids
using P3 = rm::vector<double, 3>;
static long triple(vec const & a, vec const & b, vec const & c) { return dot(a, cross(b, c)); }
static long v6(std::vector<pts> const & b, long Lc) { long s = 0; for (auto & f : b) { vec t(3); for (auto & x : f) for (int d = 0; d < 3; ++d) t[d] += x[d]; for (std::size_t i = 0; i < f.size(); ++i) s += Lc / long(f.size()) * triple(f[i], f[(i + 1) % f.size()], t); } return s; }
static std::vector<pts> hexf(pts const & p) { return {{p[0], p[1], p[2], p[3]}, {p[4], p[7], p[6], p[5]}, {p[0], p[4], p[5], p[1]}, {p[1], p[5], p[6], p[2]}, {p[2], p[6], p[7], p[3]}, {p[3], p[7], p[4], p[0]}}; }
static long lcm(std::vector<pts> const & b) { long l = 1; for (auto & f : b) { long n = f.size(), x = l, y = n; while (y) { long t = x % y; x = y; y = t; } l = l / x * n; } return l; }
struct built {
  sh::polyhedron<P3> P; std::vector<pts> f; long flip = 0;
  void insert(pts const & q)
  {
    ev("insert", q, {}); f.push_back(q); auto v = mk<P3>(q);
    switch (flip++ % 4) { case 0: P.insert(v.begin(), v.end()); break; case 1: P.insert(ristra::utils::array_ref<P3>(v)); break; case 2: { std::list<P3> li(v.begin(), v.end()); P.insert(li.begin(), li.end()); break; } default: if (v.size() == 3) P.insert({v[0], v[1], v[2]}); else if (v.size() == 4) P.insert({v[0], v[1], v[2], v[3]}); else P.insert(v.cbegin(), v.cend()); }
  }
  void look(bool closed)
  {
    long l = lcm(f); sh::polyhedron<P3> const & C = P; ev("bodyvol", {}, {enc(C.volume(), 6.0 * l * U(3), TOL)}, 6 * l); ev("bodymid", {}, L(C.midpoint(), double(l) * f.size()), l * long(f.size()));
    long v = v6(f, l); if (closed && v != 0) ev("bodycen", {{l}}, L(C.centroid(), 4.0 * l * v), 4 * l * v);
  }
};
static bool is_closed(std::vector<pts> const & b)
{
  std::vector<std::pair<vec, vec>> e; for (auto & f : b) for (std::size_t i = 0; i < f.size(); ++i) e.push_back({f[i], f[(i + 1) % f.size()]});
  for (auto & x : e) { if (std::count(e.begin(), e.end(), x) != 1 || std::count(e.begin(), e.end(), std::make_pair(x.second, x.first)) != 1) return false; } return true;
}
static void body(rng & g, std::vector<pts> b, bool peek)
{
  ev("new", {}, {}); built B; B.flip = g.below(4); std::vector<std::size_t> o(b.size()); for (std::size_t i = 0; i < o.size(); ++i) o[i] = i; for (std::size_t i = o.size(); i-- > 1;) std::swap(o[i], o[g.below(i + 1)]);
  for (std::size_t i : o) { pts f = b[i]; std::rotate(f.begin(), f.begin() + g.below(f.size()), f.end()); B.insert(f); if (peek && g.coin(3)) B.look(is_closed(B.f)); } B.look(is_closed(B.f));
}
static void turn(rng & g, pts & p) { static int const R[][8] = {{1, 2, 3, 0, 5, 6, 7, 4}, {4, 5, 1, 0, 7, 6, 2, 3}, {3, 0, 4, 7, 2, 1, 5, 6}, {0, 1, 2, 3, 4, 5, 6, 7}}; for (int k = 0; k < 3; ++k) { auto & r = R[g.below(4)]; pts q; for (int i = 0; i < 8; ++i) q.push_back(p[r[i]]); p = q; } if (g.coin(4)) { for (auto & x : p) x[0] = -x[0]; } }
static void hex(rng & g, pts const & p)
{
  auto v = mk<P3>(p); long V = v6(hexf(p), 4); using H = sh::hexahedron; ev("hexvol", p, {enc(H::volume(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), 24 * U(3), TOL)}, 24); ev("mid", p, L(H::midpoint(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), 8), 8);
  if (V != 0) ev("hexcen", p, L(H::centroid(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), 16.0 * V), 16 * V);
}
static void solids(rng & g)
{
  unit(g);
  auto pt = [&](int m) { return vec{g.in(-m, m), g.in(-m, m), g.in(-m, m)}; };
  { pts p{pt(9), pt(9), pt(9), pt(9)}; auto v = mk<P3>(p); using T = sh::tetrahedron; ev("tetvol", p, {enc(T::volume(v[0], v[1], v[2], v[3]), 6 * U(3), TOL)}, 6); ev("mid", p, L(T::midpoint(v[0], v[1], v[2], v[3]), 4), 4); ev("mid", p, L(T::centroid(v[0], v[1], v[2], v[3]), 4), 4);
    body(g, {{p[0], p[1], p[2]}, {p[0], p[3], p[1]}, {p[1], p[3], p[2]}, {p[2], p[3], p[0]}}, true); }
  pts cube{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  { vec o = pt(5), a = pt(3), b = pt(3), c = pt(3); pts p; for (auto & x : cube) { vec q(3); for (int d = 0; d < 3; ++d) q[d] = o[d] + x[0] * a[d] + x[1] * b[d] + x[2] * c[d]; p.push_back(q); } hex(g, p); if (triple(a, b, c)) { turn(g, p); hex(g, p); body(g, hexf(p), false); } }   // parallelepiped
  { int w = g.coin() ? 1 : g.in(2, 3); vec o = g.coin() ? vec{0, 0, 0} : pt(4); pts p; for (auto & x : cube) p.push_back({o[0] + 6 * x[0] + g.in(-w, w), o[1] + 6 * x[1] + g.in(-w, w), o[2] + 6 * x[2] + g.in(-w, w)}); turn(g, p); hex(g, p); body(g, hexf(p), g.coin()); }   // distorted
  { vec a = pt(3); a[2] = g.in(1, 4); pts h = hull(g, g.in(3, 6), 4), bot, top; long s = g.in(0, 1); for (auto & x : h) { bot.push_back({x[0], x[1], 0}); top.push_back({x[0] + a[0], x[1] + a[1], a[2]}); } std::vector<pts> b; int n = h.size(); long sg = a2(h) > 0;   // pyramid or prism over a convex base
    pts base = bot; if (sg) std::reverse(base.begin(), base.end()); b.push_back(base); if (s) { for (int i = 0; i < n; ++i) { pts f{bot[i], bot[(i + 1) % n], top[0]}; if (!sg) std::reverse(f.begin(), f.end()); b.push_back(f); } }
    else { pts t = top; if (!sg) std::reverse(t.begin(), t.end()); b.push_back(t); for (int i = 0; i < n; ++i) { pts f{bot[i], bot[(i + 1) % n], top[(i + 1) % n], top[i]}; if (!sg) std::reverse(f.begin(), f.end()); b.push_back(f); } }
    if (s && (top[0] == bot[0])) return; body(g, b, g.coin()); }
}
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) std::freopen("/dev/null", "w", stderr);
  std::string m = argv[1];
  if (m == "walk") {
    std::ifstream f(argv[2]); out o(argv[3]); O = &o; std::string l; built * B = nullptr;
    while (std::getline(f, l)) { std::istringstream s(l); std::string op; s >> op; if (op == "new") { delete B; B = new built; long k = 0; s >> k; B->flip = k; ev("new", {}, {}); continue; } long n; s >> n; pts q; for (long i = 0; i < n; ++i) { vec x(3); s >> x[0] >> x[1] >> x[2]; q.push_back(x); } B->insert(q); B->look(is_closed(B->f)); }
    return 0;
  }
  rng g(std::atol(argv[2])); out o(argv[4]); O = &o;
  for (long k = 0; k < std::atol(argv[3]); ++k) if (m == "plane") planes(g); else solids(g);
}
