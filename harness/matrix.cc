// matrix functions (spec/Matrix.tla).  usage: matrix SEED ROUNDS OUT
#include "vf.h"
#include <array>
#include <cassert>
#include <iterator>
#include "ristra/math/matrix.h"
using namespace vf; namespace rm = ristra::math; using vec = std::vector<long>; using mat = std::vector<vec>;
static out * O;
static std::string J(long v) { return std::to_string(v); }
static std::string J(vec const & v) { return arr(v); }
static std::string J(mat const & m) { std::vector<std::string> s; for (auto & r : m) s.push_back(arr(r)); return arr2(s); }
template <class R, class... A> void ev(char const * f, R const & r, A const &... a) { rec e; e.s("f", f).raw("args", arr2({J(a)...})).raw("r", J(r)); (*O)(e); }
template <class T> double tol() { return std::is_same<T, float>::value ? 2e-4 : 1e-9; }
template <class T, std::size_t M, std::size_t N> mat L(rm::matrix<T, M, N> const & x, double k = 1, double t = tol<T>()) { mat m(M, vec(N)); for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = enc(double(x(i, j)), k, t); return m; }
template <class T, std::size_t N> vec L(rm::vector<T, N> const & x, double k = 1, double t = tol<T>()) { vec v; for (std::size_t i = 0; i < N; ++i) v.push_back(enc(double(x[i]), k, t)); return v; }
static vec rv(rng & g, int n, long m) { vec v(n); for (long & x : v) x = g.coin(4) ? 0 : g.in(-m, m); return v; }
static mat rmx(rng & g, int m, int n, long k) { mat a; for (int i = 0; i < m; ++i) a.push_back(rv(g, n, k)); return a; }
template <class T, std::size_t M, std::size_t N> rm::matrix<T, M, N> mk(mat const & a, double s = 1) { rm::matrix<T, M, N> x; for (std::size_t i = 0; i < M; ++i) for (std::size_t j = 0; j < N; ++j) x(i, j) = T(a[i][j] * s); return x; }
template <class T, std::size_t N> rm::vector<T, N> mk(vec const & a, double s = 1) { rm::vector<T, N> x; for (std::size_t i = 0; i < N; ++i) x[i] = T(a[i] * s); return x; }
static double det(mat a)   // only to know by how much to multiply an inverse (fraction-free elimination)
{
  int n = a.size(); long prev = 1; long sign = 1;
  for (int k = 0; k + 1 < n; ++k) { int p = k; while (p < n && !a[p][k]) ++p; if (p == n) return 0; if (p != k) { std::swap(a[p], a[k]); sign = -sign; } for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev; prev = a[k][k]; }
  return sign * a[n - 1][n - 1];
}
// the integers of the events stand for multiples of a unit; 1/3 shows intermediate results of too little precision
template <class T> double unit(rng & g) { static double const u[] = {1, 0.125, 0.5, 4, 65536, 1.0 / 1024}; return std::is_same<T, double>::value && g.coin(3) ? 1.0 / 3 : std::is_floating_point<T>::value ? u[g.below(6)] : 1; }
template <class T, std::size_t M, std::size_t K, std::size_t N> void products(rng & g)
{
  double sa = unit<T>(g), sb = unit<T>(g), sx = unit<T>(g), p = unit<T>(g), q = unit<T>(g);
  long m = g.coin() ? 2 : 30; mat a = rmx(g, M, K, m), b = rmx(g, K, N, m), c = rmx(g, M, N, m); auto A = mk<T, M, K>(a, sa); auto B = mk<T, K, N>(b, sb); auto C = mk<T, M, N>(c, sa * sb);
  ev("mul", L(rm::matrix_multiply(A, B), 1 / (sa * sb)), a, b); auto D = C; rm::matrix_multiply(A, B, D); ev("muladd", L(D, 1 / (sa * sb)), a, b, c);
  vec x = rv(g, K, m), y = rv(g, M, m); auto X = mk<T, K>(x, sx); auto Y = mk<T, M>(y, sa * sx);
  ev("apply", L(A * X, 1 / (sa * sx)), a, x); auto Z = Y; rm::ax_plus_y(A, X, Z); ev("axpy", L(Z, 1 / (sa * sx)), a, x, y);
  long al = g.in(-3, 3), be = g.in(-3, 3); Z = mk<T, M>(y, p * sa * sx / q); rm::matrix_vector(T(al * p), A, X, T(be * q), Z); ev("gemv", L(Z, 1 / (p * sa * sx)), al, a, x, be, y);
  ev("transpose", L(rm::transpose(A), 1 / sa), a); auto A2 = mk<T, M, K>(rmx(g, M, K, m), sb); ev("ddot", enc(rm::doubledot_product(A, A2), 1 / (sa * sb)), a, L(A2, 1 / sb));
}
template <class T, std::size_t N> void square(rng & g)
{
  long m = N >= 4 ? 3 : g.coin() ? 2 : 12; mat a = rmx(g, N, N, m); if (g.coin(5) && N > 1) a[N - 1] = a[0]; double sa = unit<T>(g), sx = unit<T>(g), u = 1 / sa; auto A = mk<T, N, N>(a, sa); double d = det(a), et = std::is_same<T, float>::value ? 2e-2 : 3e-9;
  ev("det", enc(rm::determinant(A), std::pow(u, N), tol<T>()), a); ev("trace", enc(rm::trace_matrix(A), u), a); ev("infnorm", enc(rm::infinity_norm(A), u), a); ev("onenorm", enc(rm::one_norm(A), u), a); ev("ident", L(rm::identity_matrix<T, N>()), long(N));
  double f = rm::two_norm(A); if (!std::is_integral<T>::value) ev("frob", vec{enc(f * f, u * u, tol<T>()), f >= 0}, a);
  vec x = rv(g, N, 9), y = rv(g, N, 9); auto X = mk<T, N>(x, sx); auto Y = mk<T, N>(y, sa / sx); ev("outer", L(rm::outer_product(X, Y), u), x, y); long k = g.in(-4, 4); auto C = A; rm::outer_product(X, Y, C, T(k)); ev("outeradd", L(C, u), x, y, a, k); C = A; rm::outer_product(X, Y, C, int(k)); ev("outeradd", L(C, u), x, y, a, k);
  double sk = std::is_integral<T>::value ? 1 : 0.25; C = mk<T, N, N>(a, sa * sk); rm::outer_product(X, Y, C, T(k * sk)); ev("outeradd", L(C, u / sk), x, y, a, k);
  vec n = rv(g, N, 3); long w = std::is_integral<T>::value ? 1 : 1L << g.in(0, 2); auto NN = mk<T, N>(n, 1.0 / w); ev("reflection", L(rm::reflection_matrix(NN), w * w), n, w * w); ev("projection", L(rm::projection_matrix(NN), w * w), n, w * w);
  if constexpr (N > 1) { long r = g.below(N), c = g.below(N); ev("strike", L(rm::cofactor(A, r, c), u), a, r, c); }
  if (d != 0 && (!std::is_integral<T>::value || std::fabs(d) == 1)) { ev("inverse", L(rm::inverse(A), d * sa, et), a); ev("solve", L(rm::solve(A, X), d * sa / sx, et), a, x); }
}
template <std::size_t N> void unimodular(rng & g, mat & p, mat & q)   // q is the inverse of p
{
  p.assign(N, vec(N)); q = p; for (std::size_t i = 0; i < N; ++i) p[i][i] = q[i][i] = 1;
  for (int s = 0; s < 4; ++s) { int i = g.below(N), j = g.below(N), k = g.in(-1, 1); if (i == j) continue; for (std::size_t c = 0; c < N; ++c) p[i][c] += k * p[j][c]; for (std::size_t r = 0; r < N; ++r) q[r][j] -= k * q[r][i]; }
}
template <class T, std::size_t N> void expo(rng & g)
{
  { mat a(N, vec(N)); bool up = g.coin(); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < i; ++j) (up ? a[j][i] : a[i][j]) = g.coin(5) ? 0 : g.in(-4, 4); double f = 1; for (std::size_t i = 2; i <= N; ++i) f *= i; ev("expnil", L(rm::exponential(mk<T, N, N>(a)), f, 1e-8), a); }
  { mat p, q; unimodular<N>(g, p, q); vec k(N), d(N); for (std::size_t i = 0; i < N; ++i) { k[i] = g.in(0, g.coin() ? 2 : 8); d[i] = 1L << k[i]; }
    rm::matrix<T, N, N> A(T(0)); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) for (std::size_t l = 0; l < N; ++l) A(i, j) += p[i][l] * (k[l] * std::log(2.0)) * q[l][j]; ev("expdiag", L(rm::exponential(A), 1, 1e-8), p, d); }
  if constexpr (N == 2) { long k = g.in(-9, 9); static const long c[] = {1, 0, -1, 0}, s[] = {0, 1, 0, -1}; double t = k * std::acos(-1.0) / 2; rm::matrix<T, 2, 2> A; A(0, 0) = A(1, 1) = 0; A(0, 1) = -t; A(1, 0) = t; int m = ((k % 4) + 4) % 4; ev("exprot", L(rm::exponential(A), 1, 1e-8), c[m], s[m]); ev("rotation", L(rm::rotation_matrix<T, 2>(t)), c[m], s[m]); 
    static const long tr[][3] = {{3, 4, 5}, {-5, 12, 13}, {8, -15, 17}, {-20, -21, 29}, {4, 3, 5}, {7, 24, 25}}; auto & q = tr[g.below(6)]; double th = std::atan2(double(q[1]), double(q[0])) + 2 * std::acos(-1.0) * g.in(-2, 2); ev("rotation", L(rm::rotation_matrix<T, 2>(th), q[2]), q[0], q[1]); }
  { mat a = rmx(g, N, N, 2); auto A = mk<T, N, N>(a); if (g.coin()) A /= T(8); ev("expinv", L(rm::matrix_multiply(rm::exponential(A), rm::exponential(rm::matrix<T, N, N>(-A))), 1, 1e-7), a); }
}
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) std::freopen("/dev/null", "w", stderr);
  rng g(std::atol(argv[1])); out o(argv[3]); O = &o;
  for (long k = 0; k < std::atol(argv[2]); ++k) {
    products<double, 2, 2, 2>(g); products<double, 3, 2, 4>(g); products<int, 2, 3, 2>(g); products<double, 3, 3, 3>(g); products<int, 1, 4, 3>(g); products<long, 4, 1, 2>(g); products<float, 3, 5, 1>(g);
    square<double, 1>(g); square<double, 2>(g); square<double, 3>(g); square<double, 4>(g); square<double, 5>(g); square<int, 1>(g); square<int, 2>(g); square<int, 3>(g); square<long, 4>(g); square<float, 2>(g);
    expo<double, 2>(g); expo<double, 3>(g); expo<double, 4>(g); expo<double, 1>(g);
  }
}
