// String helpers, logged as character codes (spec/Strings.tla).  usage: strings SEED SCALE OUT
#include "vf.h"
#include <cassert>
#include <stdexcept>
#include "ristra/utils/string_utils.h"
#include "ristra/utils/const_string.h"
#include "ristra/utils/trivial_string.h"
using namespace vf; namespace ru = ristra::utils;
static out * o;
static std::vector<std::string> all(std::string const & A, int n)
{ std::vector<std::string> v{""}, last{""}; for (int k = 0; k < n; ++k) { std::vector<std::string> nx; for (auto & s : last) for (char c : A) nx.push_back(s + c); v.insert(v.end(), nx.begin(), nx.end()); last = nx; } return v; }
static void repl(std::string const & s, std::string const & f, std::string const & t)
{ (*o)(rec().s("op", "repl").a("s", codes(s)).a("f", codes(f)).a("t", codes(t)).a("r", codes(ru::replace_all(s, f, t)))); }
static void split(std::string const & s, std::string const & d, bool dflt = false)
{
  auto r = dflt ? ru::split(s) : ru::split(s, std::vector<char>(d.begin(), d.end())); std::vector<std::string> q; for (auto & x : r) q.push_back(arr(codes(x)));
  (*o)(rec().s("op", "split").a("s", codes(s)).a("d", codes(d)).raw("r", arr2(q)));
}
static void path(std::string const & s)
{ auto p = ru::split_extension(s);
  (*o)(rec().s("op", "path").a("s", codes(s)).a("base", codes(ru::basename(s))).a("ext", codes(ru::file_extension(s))).a("rem", codes(ru::remove_extension(s))).a("sp1", codes(p.first)).a("sp2", codes(p.second))); }
static void num(unsigned n, unsigned p)
{ (*o)(rec().s("op", "num").i("hi", n / 100000).i("lo", n % 100000).i("p", p).i("digits", ru::num_digits(n)).a("text", codes(ru::to_string(n))).a("padded", codes(ru::zero_padded(n, p))));
  (*o)(rec().s("op", "six").i("hi", n / 100000).i("lo", n % 100000).a("padded", codes(ru::zero_padded(n)))); }
template <std::size_t N> static void cst(const char (&a)[N])
{ ru::const_string c(a); std::vector<long> at; for (std::size_t i = 0; i < N + 2; ++i) { try { at.push_back((unsigned char)c[i]); } catch (std::out_of_range &) { at.push_back(-1); } } for (std::size_t p : far_away) { try { at.push_back((unsigned char)c[p]); } catch (std::out_of_range &) { at.push_back(-1); } }
  (*o)(rec().s("op", "const").a("s", codes(std::string(a, N - 1))).i("size", c.size()).a("r", codes(std::string(c.c_str(), N - 1))).a("at", at)); }
template <std::size_t N> static void triv(std::string const & s)
{ auto t = ru::to_trivial_string<N>(s); auto u = t; (*o)(rec().s("op", "same").a("s", codes(s)).a("r", codes(u.str()))); (*o)(rec().s("op", "same").a("s", codes(s)).a("r", codes(t.c_str())));
  if (t.size() != N) std::abort(); std::string v; for (std::size_t i = 0; i < s.size(); ++i) v += u[i]; (*o)(rec().s("op", "same").a("s", codes(s)).a("r", codes(v))); }
int main(int ac, char ** av)
{
  rng r(std::atol(av[1])); int sc = std::atoi(av[2]); out oo(av[3]); o = &oo;
  for (auto & s : all("ab./", 4 + sc)) path(s);
  for (auto & s : all("ab", 4 + sc)) for (auto & f : all("ab", 2 + sc)) for (auto & t : all("ab", 2)) repl(s, f, t);
  for (auto & s : all("a, \t", 4 + (sc > 1))) { for (auto d : {",", " ", ", ", ",\t", "a", "", "\t ,"}) split(s, d); split(s, " ", true); }
  auto rs = [&](int n, int kind) { std::string s; for (long k = n > 15 ? r.size(n + 1, 400, 40) : r.below(n + 1); k > 0; --k) s += kind == 3 ? char(r.coin() ? 0 : r.in(97, 98)) : kind == 0 ? char(r.in(1, 255)) : kind == 1 ? "ab./\n "[r.below(6)] : char(r.in(97, 99)); return s; };
  for (int k = 0; k < 1500 * sc; ++k) {
    path(rs(20, 1)); path(rs(12, 0)); repl(rs(40, 2), rs(3, 2), rs(4, 2)); repl(rs(30, 0), rs(2, 0), rs(3, 0));
    split(rs(30, 0), rs(40, 0)); split(rs(30, 1), rs(3, 1)); split(rs(20, 2), rs(2, 2));
    unsigned n = r.coin() ? unsigned(r.next()) >> r.below(32) : unsigned(r.below(2000)); num(n, r.below(13));
    long i = r.in(-100000, 100000); oo(rec().s("op", "int").i("n", i).a("r", codes(ru::to_string(i)))); oo(rec().s("op", "int").i("n", int(i / 7)).a("r", codes(ru::to_string(int(i / 7)))));
    long h = r.in(-9999, 9999); oo(rec().s("op", "half").i("n", h).a("r", codes(ru::to_string(h / 2.0)))); oo(rec().s("op", "half").i("n", h).a("r", codes(ru::to_string(h / 2.0f))));
    std::string s = rs(12, 1), w; oo(rec().s("op", "same").a("s", codes(s)).a("r", codes(ru::to_string(s))));
    auto ws = ru::to_wstring(s.c_str()); std::vector<long> wc(ws.begin(), ws.end()); oo(rec().s("op", "same").a("s", codes(s)).a("r", wc));
    triv<16>(rs(15, 0)); if (k % 10 == 0) { std::string t = rs(14, 0); while (t.size() < 290) t += rs(14, 2) + 'x'; triv<400>(t); repl(rs(30, 3), rs(2, 3), rs(3, 3)); split(rs(30, 3), rs(2, 3)); path(rs(12, 3)); } triv<4>(rs(3, 2));
  }
  for (unsigned p10 = 1, k = 0; k < 10; ++k, p10 *= 10) for (unsigned n : {p10 - 1, p10, p10 + 1, 4294967295u}) for (unsigned p : {0u, 1u, 5u, 6u, 9u, 10u, 12u}) num(n, p);
  cst(""); cst("a"); cst("hello"); cst("with space"); cst("a\0b"); cst("\377\200x");
}
