// Drives ristra/initialization/arguments.h:  args SEED N OUT
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include "ristra/initialization/arguments.h"
#include "vf.h"
#include <fcntl.h>
#include <unistd.h>
using namespace ristra::initialization;
using ivec = std::vector<int>;
struct opt { std::string name, shrt; int type; };
using regy = std::vector<opt>;
static std::string cj(const std::string & s) { return vf::arr(vf::codes(s)); }
template <class T> static std::string show(const T &);
template <> std::string show<int>(const int & v) { return "[" + cj(std::to_string(v)) + "]"; }
template <> std::string show<double>(const double & v) { return "[[" + std::to_string(vf::enc(v, 10000)) + "]]"; }
template <> std::string show<std::string>(const std::string & v) { return "[" + cj(v) + "]"; }
template <> std::string show<bool>(const bool & v) { return v ? "[[1]]" : "[[0]]"; }
template <> std::string show<ivec>(const ivec & v) { std::vector<std::string> a; for (int x : v) a.push_back(cj(std::to_string(x))); return vf::arr2(a); }
static const ivec dvec{1, 2};
static std::string value(const command_line_variables_t & v, const opt & o, bool def)
{
  switch (o.type) {
    case 1: return show(def ? v.as<int>(o.name, -99) : v.as<int>(o.name));
    case 2: return show(def ? v.as<double>(o.name, -1.5) : v.as<double>(o.name));
    case 3: return show(def ? v.as<std::string>(o.name, "DEF") : v.as<std::string>(o.name));
    case 4: return show(def ? v.as<bool>(o.name, true) : v.as<bool>(o.name));
    case 5: return show(def ? v.as<ivec>(o.name, dvec) : v.as<ivec>(o.name));
  }
  return "[]";
}
static std::string defs(int t) { switch (t) { case 1: return show(-99); case 2: return show(-1.5); case 3: return show(std::string("DEF")); case 4: return show(true); case 5: return show(dvec); } return "[]"; }
static std::string zero(int t) { switch (t) { case 1: return show(0); case 2: return show(0.); case 3: return show(std::string()); case 4: return show(false); case 5: return show(ivec()); } return "[]"; }
template <class F> static std::string each(const regy & r, F && f) { std::vector<std::string> a; for (auto & o : r) a.push_back(f(o)); return vf::arr2(a); }
static std::string dump(const command_line_variables_t & v, const regy & r)
{ return "\"cnt\":" + each(r, [&](auto & o) { return std::to_string(v.count(o.name)); }) + ",\"vals\":" + each(r, [&](auto & o) { return value(v, o, true); }) + ",\"plain\":" + each(r, [&](auto & o) { return value(v, o, false); }); }

static bool registered = true;      // every registration reported success
static void reg1(command_line_arguments_t & a, const opt & o, const std::string & group)
{
  std::string flag = o.name + (o.shrt.empty() ? "" : "," + o.shrt), msg = "message of " + o.name;
  switch (o.type) {
    case 0: registered &= a.register_argument(group, flag, msg); break;
    case 1: registered &= a.register_argument<int>(group, flag, msg); break;
    case 2: registered &= a.register_argument<double>(group, flag, msg); break;
    case 3: registered &= a.register_argument<std::string>(group, flag, msg); break;
    case 4: registered &= a.register_argument<bool>(group, flag, msg); break;
    case 5: registered &= a.register_argument<ivec>(group, flag, msg); break;
  }
}
struct parser {
  command_line_arguments_t own, * a = &own; regy reg;
  long calls = 0; bool have_prev = false; regy prev_reg; std::string prev_dump; std::vector<command_line_variables_t> prev;
  void add(const opt & o, const std::string & g) { reg1(*a, o, g); reg.push_back(o); }
  void go(vf::out & out, const std::vector<std::string> & toks, bool print)
  {
    std::string me = "prog" + std::string(std::size_t(++calls % 7), 'x') + "!"; std::vector<std::string> st{me}; for (auto & t : toks) st.push_back(t);
    auto keep = st; std::vector<char *> argv; for (auto & s : st) argv.push_back(&s[0]); argv.push_back(nullptr);
    std::ostringstream so, se; auto * bo = std::cout.rdbuf(so.rdbuf()); auto * be = std::cerr.rdbuf(se.rdbuf());
    auto r = print ? a->process_arguments(int(st.size()), argv.data()) : a->process_arguments(int(st.size()), argv.data(), false);
    std::cout.rdbuf(bo); std::cerr.rdbuf(be);
    std::string text = so.str() + se.str(); bool names = true;
    for (auto & o : reg) if (text.find("--" + o.name) == std::string::npos || text.find("message of " + o.name) == std::string::npos) names = false;
    if (text.find(me) == std::string::npos || !registered) names = false;
    std::string miss = a->print_missing_argument("zork");
    if (miss.find(me) == std::string::npos || miss.find("zork") == std::string::npos) names = false;
    for (auto & o : reg) if (miss.find("--" + o.name) == std::string::npos) names = false;
    std::string d = r.error ? "\"cnt\":[],\"vals\":[],\"plain\":[]" : dump(r.variables, reg);
    long other = r.error ? 0 : long(r.variables.count("zork")) + (r.variables.as<int>("zork", 41) != 41);
    bool again = keep == st && (!have_prev || dump(prev[0], prev_reg) == prev_dump);
    std::vector<std::string> tj; for (auto & t : toks) tj.push_back(cj(t));
    std::ostringstream j;
    j << "{\"op\":\"parse\",\"reg\":" << each(reg, [](auto & o) { return "{\"long\":" + cj(o.name) + ",\"short\":" + cj(o.shrt) + ",\"type\":" + std::to_string(o.type) + "}"; })
      << ",\"toks\":" << vf::arr2(tj) << ",\"print\":" << int(print) << ",\"err\":" << (r.error ? "true" : "false") << "," << d
      << ",\"defs\":" << each(reg, [](auto & o) { return defs(o.type); }) << ",\"zeros\":" << each(reg, [](auto & o) { return zero(o.type); })
      << ",\"other\":" << other << ",\"shown\":" << (so.str().empty() ? 0 : 1) + (se.str().empty() ? 0 : 2) << ",\"names\":" << names << ",\"again\":" << again << "}";
    out(j.str());
    if (!r.error) { have_prev = true; prev_reg = reg; prev_dump = d; prev.assign(1, r.variables); }
  }
};

int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) { int n = ::open("/dev/null", O_WRONLY); ::dup2(n, 2); }
  vf::rng g(std::atol(argv[1])); long N = std::atol(argv[2]); vf::out out(argv[3]);
  int len = argc > 4 ? std::atoi(argv[4]) : 3;
  // every short command line over a small alphabet, for three registries
  struct fixedset { regy r; std::vector<std::string> alpha; };
  std::vector<fixedset> sets = {
    {{{"help", "h", 0}, {"flag", "f", 0}, {"num", "n", 1}, {"number", "", 1}, {"str", "s", 3}}, {"--num", "--num=5", "--nu=5", "--flag", "--fl", "-f", "-n", "-n7", "-fn2", "--zork=1", "-z", "word", "3", "--"}},
    {{{"vec", "v", 5}, {"dbl", "d", 2}, {"yes", "y", 4}, {"verbose", "", 0}}, {"--vec=1", "--ve", "--v", "-v2", "-v", "--dbl", "-d=1", "--d=2.5", "--yes=off", "--yes", "-yon", "--verb", "-4", "", "x"}},
    {{{"str", "s", 3}, {"string", "", 3}, {"quiet", "q", 0}}, {"--str=", "--str==", "--st=x", "--strin", "-s", "-sa b", "--str", "-qs", "-q", "-qq", "-", "--=", "--zork", "a=b"}},
  };
  for (auto & s : sets) {
    parser p; int k = 0; for (auto & o : s.r) p.add(o, k++ % 2 ? "b" : "a");
    std::vector<size_t> ix;
    for (;;) {
      std::vector<std::string> t; for (auto i : ix) t.push_back(s.alpha[i]);
      p.go(out, t, ix.size() % 2);
      size_t j = 0; for (; j < ix.size(); ++j) { if (++ix[j] < s.alpha.size()) break; ix[j] = 0; }
      if (j == ix.size()) { if (int(ix.size()) == len) break; ix.push_back(0); std::fill(ix.begin(), ix.end(), 0); }
    }
  }
  // random registries and command lines
  const std::vector<std::string> pool = {"num", "number", "numb", "str", "string", "vec", "verbose", "ver", "flag", "file", "file-name", "help", "dbl", "x_y", "Num", "FLAG", "Vec"};
  const std::vector<std::string> vals = {"5", "-3", "+7", "05", "-0", "x1", "2.5", "-.5", ".", "", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "true", "OFF", "Yes", "no", "on", "a b=c", "=", "-f", "--flag", "1.2345", "--", "-", "+", "--5", "1 ", " 1", "-n", "0012", "--zork=2", "-00000000002147483648", "False"};
  const std::string letters = "nsvfhdxqNSF";
  auto session = [&](parser & p, const std::string & prefix, long rounds) {
    std::vector<std::string> left; for (auto & s : pool) left.push_back(prefix + s);
    std::string sh = letters; bool first = true;
    for (long k = 0; k < rounds; ++k) {
      if (first || g.coin(4)) {
        long n = first ? g.below(6) : 1; first = false;
        for (long i = 0; i < n && !left.empty(); ++i) {
          long w = g.below(left.size()); opt o{left[w], "", int(g.below(6))}; left.erase(left.begin() + w);
          if (o.name == "help") o.type = 0;
          if (g.coin() && !sh.empty()) { long c = g.below(sh.size()); o.shrt = std::string(1, sh[c]); sh.erase(c, 1); }
          std::string gr(1, char('a' + g.below(3)));
          if (g.coin()) registered &= p.a->register_group(gr, "Group " + gr);
          p.add(o, gr);
        }
      }
      std::vector<std::string> t; long n = g.size(6, 20, 15);
      // texts that suit the type most of the time, so that long lines still parse
      auto suit = [&](int type) -> std::string {
        if (g.coin(8)) return vals[g.below(vals.size())];
        static const std::vector<std::string> by[6] = {{""}, {"5", "-3", "0", "2147483647", "+12", "-2147483648", "007"}, {"2.5", "-0.75", "3", ".5", "+1.125", "-12.0625"}, {"abc", "a b=c", "--", "--flag", "x", "=y"}, {"on", "off", "TRUE", "0", "no"}, {"1", "-22", "333"}};
        return by[type][g.below(by[type].size())];
      };
      auto name = [&](const opt & o) { return "--" + (g.coin(4) ? o.name.substr(0, 1 + g.below(o.name.size())) : o.name); };
      std::vector<int> order; for (size_t i = 0; i < p.reg.size(); ++i) order.push_back(int(i));
      for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
      for (long i = 0; i < n; ++i) {
        int w = int(g.below(12));
        if (w < 7 && !order.empty()) {
          const opt & o = p.reg[g.coin(6) ? order[g.below(order.size())] : order[i % order.size()]];
          if (o.type == 0) { if (o.shrt.empty() || g.coin()) t.push_back(name(o)); else { std::string s = "-" + o.shrt; while (g.coin(4)) s += letters[g.below(letters.size())]; t.push_back(s); } }
          else {
            std::string v = suit(o.type);
            switch (g.below(o.shrt.empty() ? 2 : 4)) { case 0: t.push_back(name(o) + "=" + v); break; case 1: t.push_back(name(o)); t.push_back(v); break; case 2: t.push_back("-" + o.shrt); t.push_back(v); break; default: t.push_back("-" + o.shrt + v); }
          }
        }
        else if (w < 8) t.push_back(g.coin() ? "--zork" : "--zork=7");
        else if (w < 9) { std::string s = "-"; do s += letters[g.below(letters.size())]; while (g.coin()); t.push_back(s); }
        else if (w < 11) t.push_back(g.coin(3) ? vals[g.below(vals.size())] : "word");
        else if (g.coin(3)) t.push_back("--");
      }
      // options differing in the case of letters only are different options
      if (g.coin(3) && !t.empty()) { std::string & w = t[g.below(t.size())]; std::size_t e = w.find('='); for (std::size_t i = 0; i < w.size() && i < e; ++i) if (std::isalpha(static_cast<unsigned char>(w[i])) && (w[1] != '-' || g.coin())) { w[i] ^= 32; if (w[1] != '-') break; } }
      p.go(out, t, g.coin());
    }
  };
  for (long k = 0; k < N; ++k) { parser p; session(p, "", 12); }
  { parser p; p.a = &command_line_arguments_t::instance(); session(p, "", 60); }   // the program-wide registry
  return 0;
}
