// finite elements (spec/Elements.tla, spec/Quadrature.tla, spec/Matrix.tla).
// usage: elements shapes SEED ROUNDS OUT | rules SEED ROUNDS OUT | jac SEED ROUNDS OUT
#include "vf.h"
#include <algorithm>
#include <array>
#include <functional>
#include "ristra/elements/elements.h"
using namespace vf; namespace el = ristra::elements;
using V = std::vector<double>; using M = std::vector<V>; using L = std::vector<long>;
static out * O; static rng * G;
static std::string A2(std::vector<L> const & m) { std::vector<std::string> s; for (auto & r : m) s.push_back(arr(r)); return arr2(s); }
static L encv(V const & v, double k) { L r; for (double x : v) r.push_back(enc(x, k, 1e-8)); return r; }
static std::vector<L> encm(M const & m, double k) { std::vector<L> r; for (auto & x : m) r.push_back(encv(x, k)); return r; }
static V fl(L const & v, double d) { V r; for (long x : v) r.push_back(x / d); return r; }
static M flm(std::vector<L> const & m, double d) { M r; for (auto & x : m) r.push_back(fl(x, d)); return r; }
static double const JUNK = 77.125;
static double unit() { static double const u[] = {1, 0.125, 0.5, 1024, 1.0 / 4096}; return u[G->below(5)]; }   // integers stand for multiples of it
struct elem {
  std::string name; int n, d, deg;
  std::function<void(V &, V const &, M const &)> basis, pos;
  std::vector<std::function<void(V &, V const &)>> part;
  long scale(long D) const { long k = deg == 3 ? 8 : 1; for (int i = 0; i < d; ++i) k *= 2 * D; for (int i = 1; i < deg; ++i) k *= D; return k; }
};
template <class E, class B> elem base(std::string name, int n, int d, int deg, B * e)
{
  elem r{name, n, d, deg, {}, {}, {}};
  r.pos = [e](V & x, V const & p, M const & v) { e->physical_position(x, p, v); };
  r.part.push_back([e](V & x, V const & p) { e->partial_xi_shape_fcn(x, p); });
  r.part.push_back([e](V & x, V const & p) { e->partial_eta_shape_fcn(x, p); });
  return r;
}
template <class E> elem two(std::string n, int k, int deg) { auto * o = new E; el::Element2D * e = o; auto r = base<E>(n, k, 2, deg, e); r.basis = [e](V & b, V const & p, M const & v) { e->basis(b, p, v); }; return r; }
template <class E> elem three(std::string n, int k, int deg) { auto * o = new E; el::Element3D * e = o; auto r = base<E>(n, k, 3, deg, e); r.basis = [e](V & b, V const & p, M const & v) { e->basis(b, p, v); }; r.part.push_back([e](V & x, V const & p) { e->partial_mu_shape_fcn(x, p); }); return r; }
static elem tess()
{
  // on dirty memory: nothing of the result may depend on it
  void * m = ::operator new(sizeof(el::Tess16)); std::fill_n(static_cast<unsigned char *>(m), sizeof(el::Tess16), 0x3f); el::Element4D * e = new (m) el::Tess16;
  auto r = base<el::Tess16>("tess16", 16, 4, 1, e);
  r.part.push_back([e](V & x, V const & p) { e->partial_mu_shape_fcn(x, p); }); r.part.push_back([e](V & x, V const & p) { e->partial_tau_shape_fcn(x, p); });
  return r;
}
static std::vector<elem> all() { return {two<el::Quad_4_2D>("quad4", 4, 1), two<el::Quad_8_2D>("quad8", 8, 2), two<el::Quad_12_2D>("quad12", 12, 3), three<el::Hex8>("hex8", 8, 1), three<el::Hex20>("hex20", 20, 2), three<el::Hex32>("hex32", 32, 3), tess()}; }
static std::vector<L> rverts(int n, int d, long m) { std::vector<L> v(n, L(d)); for (auto & r : v) for (auto & x : r) x = G->in(-m, m); return v; }
static void point(elem & e, L const & x, long D, bool pos)
{
  V p = fl(x, D); M none = flm(rverts(e.n, e.d, 9), 1); long K = e.scale(D);
  if (e.basis) { V b(e.n, JUNK); e.basis(b, p, none); rec r; r.s("f", "basis").s("el", e.name).i("D", D).a("x", x).i("k", K).a("r", encv(b, K)); (*O)(r); }
  for (int m = 0; m < e.d; ++m) { V b(e.n, JUNK); e.part[m](b, p); rec r; r.s("f", "partial").s("el", e.name).i("D", D).a("x", x).i("m", m + 1).i("k", K / D).a("r", encv(b, K / D)); (*O)(r); }
  if (!pos) return;
  auto v = rverts(e.n, e.d, 12); V c(e.d, JUNK); double u = unit(); e.pos(c, p, flm(v, 1 / u)); rec r; r.s("f", "pos").s("el", e.name).i("D", D).a("x", x).raw("v", A2(v)).i("k", K).a("r", encv(c, K / u)); (*O)(r);
}
// arbitrary order
template <class Q> void lag(int d, int order, L const & nodes, L const & x, long S)
{
  Q q; int N = order + 1, T = 1; for (int i = 0; i < d; ++i) T *= N;
  M ln(T, V(d, JUNK)), v2(T, V(d, JUNK)), D2(T, V(d, JUNK)), pa(T, V(d, JUNK)); V n1 = fl(nodes, S), v1(N, JUNK), D1(N, JUNK), b(T, JUNK), xi = fl(x, S);
  q.basis_partials(ln, n1, v1, D1, v2, D2, b, pa, xi, order);
  auto lni = encm(ln, S); L dn(T), r(T); std::vector<L> p(T, L(d));
  for (int k = 0; k < T; ++k) { long den = 1; for (int i = 0; i < d; ++i) for (int j = 0; j < N; ++j) if (nodes[j] != lni[k][i]) den *= lni[k][i] - nodes[j]; if (std::abs(den) > 1000000000) den = BAD; dn[k] = den; r[k] = enc(b[k], den, 1e-8); for (int i = 0; i < d; ++i) p[k][i] = enc(pa[k][i], double(den) / S, 1e-8); }
  rec e; e.s("f", "lag").i("S", S).a("nodes", nodes).a("x", x).raw("ln", A2(lni)).a("d", dn).a("r", r).raw("p", A2(p)); (*O)(e);
  int C = d == 2 ? 4 : 8; M co(C, V(d, JUNK)); M before = ln; q.corners(ln, co, order); rec f; f.s("f", "corners").i("kept", before == ln && n1 == fl(nodes, S)).a("nodes", nodes).raw("r", A2(encm(co, S))); (*O)(f);
  auto ph = rverts(T, d, 20); L bi(T); for (auto & y : bi) y = G->in(-20, 20); V xp(d, JUNK); double u = unit(), w = unit(); q.physical_position(xp, flm(ph, 1 / u), fl(bi, 1 / w), order);
  rec g; g.s("f", "sum").raw("v", A2(ph)).a("b", bi).a("r", encv(xp, 1 / (u * w))); (*O)(g);
}
template <class Q> void line(int order, L const & nodes, long x, long S)
{
  Q q; int N = order + 1; V b(N, JUNK), p(N, JUNK); q.lagrange_1D(b, p, double(x) / S, fl(nodes, S), order);
  L d(N), r(N), s(N); for (int i = 0; i < N; ++i) { long den = 1; for (int j = 0; j < N; ++j) if (j != i) den *= nodes[i] - nodes[j]; d[i] = den; r[i] = enc(b[i], den, 1e-8); s[i] = enc(p[i], double(den) / S, 1e-8); }
  rec e; e.s("f", "line").a("nodes", nodes).i("x", x).a("d", d).a("r", r).a("p", s); (*O)(e);
}
static long r9(double x) { return std::fabs(x) < 2 ? enc(std::nearbyint(x * 1e9)) : BAD; }
template <class Q> void cheb(int d, int order)
{
  Q q; int N = order + 1, T = 1; for (int i = 0; i < d; ++i) T *= N; V n1(N, JUNK); q.chebyshev_nodes_1D(n1, order);
  L c; for (double x : n1) c.push_back(enc(std::nearbyint(x * 1e9))); rec e; e.s("f", "cheb").i("order", order).a("r", c); (*O)(e);
  auto eval = [&](V const & xi, M & ln, V & b, M & pa) { V v1(N, JUNK), D1(N, JUNK); M v2(T, V(d, JUNK)), D2(T, V(d, JUNK)); ln.assign(T, V(d, JUNK)); pa.assign(T, V(d, JUNK)); b.assign(T, JUNK); q.basis_partials(ln, n1, v1, D1, v2, D2, b, pa, xi, order); };
  M ln, pa; V b; eval(V(d, 0.25), ln, b, pa); M nodes = ln;
  for (int t = 0; t < 6; ++t) { int k = G->below(T); eval(nodes[k], ln, b, pa); L r; for (double x : b) r.push_back(r9(x)); rec f; f.s("f", "delta").i("m", k + 1).a("r", r); (*O)(f); }
  for (int t = 0; t < 6; ++t) {
    V xi(d); for (auto & x : xi) x = G->in(-1000, 1000) / 1000.0; eval(xi, ln, b, pa); double s = 0; V p(d), g(d); M j(d, V(d)); V xp(d, JUNK);
    for (int k = 0; k < T; ++k) { s += b[k]; for (int i = 0; i < d; ++i) { p[i] += pa[k][i]; for (int h = 0; h < d; ++h) j[i][h] += nodes[k][i] * pa[k][h]; } }
    q.physical_position(xp, nodes, b, order); L pi, gi, x7; std::vector<L> ji; for (int i = 0; i < d; ++i) { pi.push_back(r9(p[i])); gi.push_back(r9(xp[i])); x7.push_back(r9(xi[i])); L r; for (int h = 0; h < d; ++h) r.push_back(r9(j[i][h])); ji.push_back(r); }
    rec f; f.s("f", "sums").i("r", r9(s)).a("p", pi).a("g", gi).a("x", x7).raw("j", A2(ji)); (*O)(f);
  }
}
static L distinct(int n, long lo, long hi) { L v; while (int(v.size()) < n) { long x = G->in(lo, hi); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); } std::sort(v.begin(), v.end()); return v; }
template <class Q> void nth(int d, long rounds)
{
  for (int order = 1; order <= 12; ++order) if (d == 2 || order <= 6 || order == 10) cheb<Q>(d, order);
  for (long k = 0; k < rounds; ++k) {
    int o1 = G->in(1, 6); L n = distinct(o1 + 1, -5, 5); if (G->coin(3)) std::reverse(n.begin(), n.end()); line<Q>(o1, n, G->in(-6, 6), 5);
    int o = G->in(1, d == 2 ? 5 : 3); L m = distinct(o + 1, -3, 3); L x(d); for (auto & y : x) y = G->in(-4, 4); lag<Q>(d, o, m, x, 3);
    if (k % 4 == 0) { L n2{-1, 1}; lag<Q>(d, 1, n2, x, 1); L n3{-1, 0, 1}; lag<Q>(d, 2, n3, x, 1); }
  }
}
// quadrature
static void moments(std::string const & rule, int p, V const & x, V const & w)
{
  L xs, ws; for (double y : x) xs.push_back(enc(std::nearbyint(y * 1e9))); for (double y : w) ws.push_back(enc(std::nearbyint(y * 1e9))); std::vector<L> mom;
  for (int k = 0; k < 2 * p; ++k) { long double s = 0; for (int i = 0; i < p; ++i) { long double t = w[i]; for (int j = 0; j < k; ++j) t *= x[i]; s += t; } if (!(fabsl(s) < 100)) { mom.push_back({BAD, 0}); continue; } long double hi = floorl(s * 1e7L); long lo = std::lround((s * 1e7L - hi) * 1e8L); long h = long(hi); if (lo >= 100000000) { lo -= 100000000; ++h; } mom.push_back({h, lo}); }
  rec e; e.s("f", "line").s("rule", rule).i("p", p).a("x", xs).a("w", ws).raw("mom", A2(mom)); (*O)(e);
}
static void tensor(int p, int d, V const & x, V const & w, M const & pts, M const & ws, V const * tot)
{
  { rec e; e.s("f", "new").i("p", p).i("d", d); (*O)(e); }
  for (std::size_t m = 0; m < pts.size(); ++m) {
    L ix; double prod = 1; for (int i = 0; i < d; ++i) { long f = 0; for (int j = 0; j < p; ++j) if (std::fabs(x[j] - pts[m][i]) < 1e-14 && std::fabs(w[j] - ws[m][i]) < 1e-14) f = j + 1; ix.push_back(f); prod *= ws[m][i]; }
    rec e; e.s("f", "point").a("ix", ix).i("tot", !tot || std::fabs((*tot)[m] - prod) < 1e-13); (*O)(e);
  }
  rec e; e.s("f", "end"); (*O)(e);
}
static void rules(long rounds)
{
  for (int p = 1; p <= 8; ++p) {
    V gx, gw, lx, lw;
    for (int m = 1; m <= p; ++m) { double x = JUNK, w = JUNK; int a = m, b = p; el::LineGaussRuleInfo(x, w, a, b); gx.push_back(x); gw.push_back(w); x = w = JUNK; a = m, b = p; el::LineLobattoRuleInfo(x, w, a, b); lx.push_back(x); lw.push_back(w); }
    moments("gauss", p, gx, gw); moments("lobatto", p, lx, lw);
    auto sz = [&](int d) { int t = 1; while (d--) t *= p; return t; };
    int q = p;
    { M a(sz(2), V(2, JUNK)), b(sz(2), V(2, JUNK)); V t(sz(2), JUNK); el::Gauss2D(a, b, t, q); tensor(p, 2, gx, gw, a, b, &t); q = p; M c(sz(2), V(2, JUNK)), e(sz(2), V(2, JUNK)); el::Lobatto2D(c, e, q); tensor(p, 2, lx, lw, c, e, nullptr); }
    { M a(sz(3), V(3, JUNK)), b(sz(3), V(3, JUNK)); V t(sz(3), JUNK); q = p; el::Gauss3D(a, b, t, q); tensor(p, 3, gx, gw, a, b, &t); q = p; M c(sz(3), V(3, JUNK)), e(sz(3), V(3, JUNK)); el::Lobatto3D(c, e, q); tensor(p, 3, lx, lw, c, e, nullptr); }
    if (p <= rounds) { M a(sz(4), V(4, JUNK)), b(sz(4), V(4, JUNK)); q = p; el::Gauss4D(a, b, q, 4); tensor(p, 4, gx, gw, a, b, nullptr); q = p; M c(sz(4), V(4, JUNK)), e(sz(4), V(4, JUNK)); el::Lobatto4D(c, e, q, 4); tensor(p, 4, lx, lw, c, e, nullptr); }
  }
}
// Jacobians
static double jac(M & J, M const & v, M const & g, int n, int d) { double det = JUNK; if (d == 4) el::jacobian4D(J, det, v, g, n, d); else el::jacobian(J, det, v, g, n, d); return det; }
static void shrink(M & J, int d) { J.resize(d); for (auto & r : J) r.resize(d); }
static void jacs(long rounds)
{
  auto es = all();
  for (long k = 0; k < rounds; ++k) for (int d = 2; d <= 4; ++d) {
    int n = G->in(d + 1, 9); long b = d == 4 ? 2 : 3; auto v = rverts(n, d, b), g = rverts(n, d, b); if (d == 4) for (int i = 5; i < n; ++i) v[i] = L(4, 0);
    if (k % 8 == 0) { // many nodes, few of them off the origin
      n = G->in(33, 150); v.assign(n, L(d, 0)); g = rverts(n, d, b); for (int i = 0; i < 4; ++i) v[i ? G->in(32, n - 1) : n - 1] = rverts(1, d, b)[0]; v[G->below(32)] = rverts(1, d, b)[0]; }
    int size = d == 2 && G->coin() ? 3 : d; M J(size, V(size, JUNK)); double u = unit(), w = unit(), z = 1 / (u * w); double det = jac(J, flm(v, 1 / u), flm(g, 1 / w), n, d); shrink(J, d);
    { rec e; e.s("f", "jacobian").raw("v", A2(v)).raw("g", A2(g)).raw("J", A2(encm(J, z))).i("det", enc(det, std::pow(z, d))); (*O)(e); }
    // inverse of a random matrix and of this Jacobian
    for (int t = 0; t < 2; ++t) {
      M a = J; double y = z; if (t) { y = 1 / unit(); a = flm(rverts(d, d, d == 4 ? 3 : 5), y); } double dt; { M id(d, V(d)); for (int i = 0; i < d; ++i) id[i][i] = 1; M JJ(d, V(d)); dt = jac(JJ, a, id, d, d); }
      double dn = dt * std::pow(y, d); if (std::fabs(dn) < 0.5) continue;
      M inv(d, V(d, JUNK)); if (d == 2) el::jacobian_inverse_2d(inv, a); else if (d == 3) el::jacobian_inverse_3d(inv, a); else el::jacobian_inverse_4d(inv, a, dt);
      rec e; e.s("f", "inverse").raw("J", A2(encm(a, y))).i("det", enc(dn)).raw("r", A2(encm(inv, dn / y))); (*O)(e);
    }
  }
  for (long k = 0; k < rounds; ++k) for (auto & e : es) {
    // images of the reference nodes: the nodes are where the coordinates are reproduced
    static std::vector<std::vector<std::array<double, 4>>> ref = [] { std::vector<std::vector<std::array<double, 4>>> r; double q[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}; double T = 1. / 3;
      std::vector<std::array<double, 4>> Q4, H8; for (auto & p : q) Q4.push_back({p[0], p[1], 0, 0}); for (int y = -1; y <= 1; y += 2) for (auto & p : q) H8.push_back({p[0], double(y), p[1], 0});
      r.push_back(Q4); auto Q8 = Q4; for (auto p : {std::array<double, 4>{0, -1}, {1, 0}, {0, 1}, {-1, 0}}) Q8.push_back(p); r.push_back(Q8);
      auto Q12 = Q4; for (auto & p : q) Q12.push_back({p[0] * T, p[1], 0, 0}); for (auto & p : q) Q12.push_back({p[0], p[1] * T, 0, 0}); r.push_back(Q12); r.push_back(H8);
      auto H20 = H8; for (int y = -1; y <= 1; y += 2) for (auto p : {std::array<double, 4>{0, double(y), -1}, {1, double(y), 0}, {0, double(y), 1}, {-1, double(y), 0}}) H20.push_back(p); for (auto & p : q) H20.push_back({p[0], 0, p[1], 0}); r.push_back(H20);
      auto H32 = H8; for (int y = -1; y <= 1; y += 2) for (auto & p : q) H32.push_back({p[0], double(y), p[1] * T, 0}); for (int y = -1; y <= 1; y += 2) for (auto & p : q) H32.push_back({p[0] * T, double(y), p[1], 0}); for (int y = -1; y <= 1; y += 2) for (auto & p : q) H32.push_back({p[0], y * T, p[1], 0}); r.push_back(H32);
      std::vector<std::array<double, 4>> T16; for (int t = -1; t <= 1; t += 2) for (auto p : H8) { p[3] = t; T16.push_back(p); } r.push_back(T16); return r; }();
    auto & rv = ref[&e - es.data()]; auto A = rverts(e.d, e.d, 4), B = rverts(1, e.d, 9); M v(e.n, V(e.d)), g(e.n, V(e.d)); V p(e.d); for (auto & x : p) x = G->in(-8, 8) / 8.0;
    for (int i = 0; i < e.n; ++i) for (int r = 0; r < e.d; ++r) { v[i][r] = B[0][r]; for (int c = 0; c < e.d; ++c) v[i][r] += A[r][c] * rv[i][c]; }
    for (int m = 0; m < e.d; ++m) { V b(e.n, JUNK); e.part[m](b, p); for (int i = 0; i < e.n; ++i) g[i][m] = b[i]; }
    M J(e.d, V(e.d, JUNK)); double det = jac(J, v, g, e.n, e.d); rec r; r.s("f", "affine").s("el", e.name).raw("A", A2(A)).raw("J", A2(encm(J, 1))).i("det", enc(det)); (*O)(r);
  }
}
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) { std::freopen("/dev/null", "w", stderr); std::freopen("/dev/null", "w", stdout); }
  std::string mode = argv[1]; rng g(std::atol(argv[2])); G = &g; long R = std::atol(argv[3]); out o(argv[4]); O = &o;
  if (mode == "shapes") {
    auto es = all();
    for (auto & e : es) {
      // a grid that determines polynomials of these degrees; every second pass records positions too
      long st = e.d == 4 ? 3 : 1; long pts = 1; for (int i = 0; i < e.d; ++i) pts *= e.d == 4 ? 3 : 7;
      for (long k = 0; k < pts; ++k) { L x; long q = k; for (int i = 0; i < e.d; ++i) { x.push_back((e.d == 4 ? q % 3 : q % 7) * st - 3); q /= e.d == 4 ? 3 : 7; } point(e, x, 3, e.d < 4 ? true : true); }
      for (long k = 0; k < R; ++k) { long D = (long[]){1, 2, 4, 5, 6, 8, 10}[g.below(7)]; L x; for (int i = 0; i < e.d; ++i) x.push_back(g.coin(8) ? g.in(-2 * D, 2 * D) * (D <= 4) : g.in(-D, D)); point(e, x, D, true); }
    }
    nth<el::QuadN>(2, R / 2); nth<el::HexN>(3, R / 4);
  } else if (mode == "rules") rules(R); else if (mode == "jac") jacs(R); else return 77;
}
