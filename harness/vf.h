// Small helpers shared by the harnesses: a JSON line writer and a PRNG.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <limits>
namespace vf {
constexpr long BAD = 2000000001L;      // "not an integer of this scale": no model value equals it
constexpr long THROWN = 2000000003L;   // the call threw
// encode x*scale as an integer if it is one up to rounding noise
inline long enc(double x, double scale = 1, double tol = 1e-9)
{
  double y = x * scale;
  if (!std::isfinite(y) || std::fabs(y) > 1.9e9) return BAD;
  double r = std::nearbyint(y);
  if (std::fabs(y - r) > tol * std::max(1.0, std::fabs(y))) return BAD;
  return long(r);
}
// floating point numbers for comparisons (spec/FloatCmp.tla): 99 is not-a-number, 100 the negative zero
inline double fval(long c) { return c == 99 ? std::numeric_limits<double>::quiet_NaN() : c == 100 ? -0.0 : double(c); }
template <class G> long fcode(G & g) { long k = g.below(14); return k < 4 ? 0 : k < 8 ? 100 : k < 9 ? 99 : g.in(-1, 1); }
// the six comparisons in one number; only == and != when nan
template <class X, class Y> long six(X const & x, Y const & y, bool nan) { return (x == y) + 2 * (x != y) + (nan ? 0 : 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y)); }
// positions far outside every container
constexpr std::size_t far_away[] = {std::size_t(-1), std::size_t(1) << 31, std::size_t(1) << 32, (std::size_t(1) << 32) + 1, std::size_t(1) << 63, std::size_t(-2), 65536, std::size_t(1) << 48};
inline long enci(long long x) { return (x > 1900000000LL || x < -1900000000LL) ? BAD : long(x); }
struct rng {
  std::uint64_t s;
  explicit rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
  std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  long below(long n) { return n <= 0 ? 0 : long((next() >> 11) % std::uint64_t(n)); }
  long in(long a, long b) { return a + below(b - a + 1); }
  bool coin(int k = 2) { return below(k) == 0; }
  // usually below few, one time in k below many
  long size(long few, long many, int k) { return coin(k) ? below(many) : below(few); }
};
inline std::string q(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
// one JSON object per line
class rec {
  std::ostringstream o; bool first = true;
  void k(const char * n) { o << (first ? "{" : ",") << "\"" << n << "\":"; first = false; }
public:
  rec & i(const char * n, long v) { k(n); o << v; return *this; }
  rec & s(const char * n, const std::string & v) { k(n); o << q(v); return *this; }
  rec & b(const char * n, bool v) { k(n); o << (v ? "true" : "false"); return *this; }
  rec & raw(const char * n, const std::string & v) { k(n); o << v; return *this; }
  template <class C> rec & a(const char * n, const C & c)
  { k(n); o << "["; bool f = true; for (auto v : c) { if (!f) o << ","; f = false; o << long(v); } o << "]"; return *this; }
  std::string str() const { return o.str() + (first ? "{}" : "}"); }
};
template <class C> std::string arr(const C & c)
{ std::ostringstream o; o << "["; bool f = true; for (auto const & v : c) { if (!f) o << ","; f = false; o << long(v); } o << "]"; return o.str(); }
inline std::string arr2(const std::vector<std::string> & c)
{ std::string o = "["; bool f = true; for (auto const & v : c) { if (!f) o += ","; f = false; o += v; } return o + "]"; }
// codes of a string: a sequence of small integers (TLC compares these exactly)
inline std::vector<long> codes(const std::string & s) { std::vector<long> v; for (unsigned char c : s) v.push_back(c); return v; }
struct out {
  std::FILE * f; long n = 0;
  explicit out(const char * p) : f(std::fopen(p, "w")) { if (!f) { std::perror(p); std::exit(77); } }
  ~out() { std::fclose(f); }
  void operator()(const rec & r) { std::string s = r.str(); std::fputs(s.c_str(), f); std::fputc('\n', f); ++n; }
  void operator()(const std::string & s) { std::fputs(s.c_str(), f); std::fputc('\n', f); ++n; }
};
}
