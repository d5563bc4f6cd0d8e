// lua_source_t over generated documents, see spec/LuaSource.tla.
// usage: walk SCRIPT OUT | random SEED HIST LEN OUT.  Names: 1 hydro 2 mesh 3 CFL 4 suffix 5 postfix 6 xmin 7.. a b c
#include "vf.h"
#include "ristra/initialization/input_source.h"
#include <unistd.h>
using namespace vf;
static const char * nm[] = {"base_state", "hydro", "mesh", "CFL", "suffix", "postfix", "xmin", "a", "b", "c"};
constexpr int K = 9;
struct table { long f[K + 1] = {}; std::vector<long> s; };
using doc = std::vector<table>;   // 0-based: table n of the model is doc[n-1]
static std::string file;
// the number n of a document is the value n * SC, exactly
static double SC = 1;
static std::string lit(long n) { if (SC == 1) return std::to_string(n); char b[40]; std::snprintf(b, sizeof b, "%.17g", n * SC); return b; }
static long dec(double x) { double n = std::nearbyint(x / SC); return n * SC == x && std::fabs(n) < 1.9e9 ? long(n) : BAD; }
static void write(doc const & d)
{
  std::ofstream o(file);
  o << "local T = {}\nfor i=1," << d.size() << " do T[i] = {} end\n";
  for (size_t n = 0; n < d.size(); ++n) {
    std::string t = n ? "T[" + std::to_string(n + 1) + "]" : "_G";
    for (int k = 1; k <= K; ++k) if (d[n].f[k]) o << t << "[\"" << nm[k] << "\"] = " << (d[n].f[k] > 0 ? lit(d[n].f[k]) : "T[" + std::to_string(-d[n].f[k]) + "]") << "\n";
    for (size_t i = 0; i < d[n].s.size(); ++i) o << t << "[" << i + 1 << "] = " << lit(d[n].s[i]) << "\n";
  }
}
static std::string json(doc const & d)
{ std::vector<std::string> v; for (auto & t : d) v.push_back(rec().a("f", std::vector<long>(t.f + 1, t.f + K + 1)).a("s", t.s).str()); return arr2(v); }
using namespace ristra;
struct sut {
  std::unique_ptr<lua_source_t> l;
  void step(out & o, std::string const & op, long a, long b, long c, int form)
  {
    long ret = -1, val = 0; if (SC != 1 && op == "num" && form == 1) form = 0; std::vector<long> seq;
    try {
      if (op == "value") ret = c ? l->register_value(nm[a], nm[b], nm[c]) : l->register_value(nm[a], nm[b]);
      else if (op == "table") ret = c ? l->register_table(nm[a], nm[b], nm[c]) : b ? l->register_table(nm[a], nm[b]) : l->register_table(nm[a]);
      else if (op == "num") {
        if (form == 0) { double x = -777; ret = l->get_value(nm[a], x); val = x == -777 ? 0 : dec(x); }
        else if (form == 1) { long x = -777; ret = l->get_value(nm[a], x); val = x == -777 ? 0 : enci(x); }
        else if (form == 2) { embedded::lua_result_uptr_t p; ret = l->get_value(nm[a], p); val = p ? dec(p->as<double>()) : 0; }
        else { auto p = l->get_lua_result_raw(nm[a]); ret = p.first; if (ret) val = dec(p.second.as<double>()); }
      }
      else if (op == "seq") {
        if (form == 0) { std::vector<double> x{-777}; ret = l->get_value(nm[a], x); if (x != std::vector<double>{-777}) for (double y : x) seq.push_back(dec(y)); else if (ret) seq = {BAD}; }
        else { embedded::lua_result_uptr_t p; ret = l->get_value(nm[a], p); if (p) { if (SC == 1) for (int y : p->as<std::vector<int>>()) seq.push_back(y); else for (double y : p->as<std::vector<double>>()) seq.push_back(dec(y)); } }
      }
      else if (op == "size") { val = l->get_size(nm[a]); ret = 1; }
      else if (op == "tab") {
        auto & t = l->get_table(nm[a]); ret = 1;
        try { for (double y : t.as<std::vector<double>>()) seq.push_back(dec(y)); } catch (...) { seq.clear(); val = -1; }
      }
    } catch (...) { ret = -1; val = 0; seq.clear(); }
    o(rec().s("op", op).i("a", a).i("b", b).i("c", c).i("ret", ret).i("val", val).a("seq", seq).i("form", form));
  }
  void fresh(out & o, doc const & d) { write(d); l.reset(); l = std::make_unique<lua_source_t>(file); o(rec().s("op", "new").raw("doc", json(d))); }
};
// the layout every source starts with: each predefined key is found in its table under its Lua name
static void presets(out & o, long base)
{
  static const char * key[] = {"prefix", "suffix", "output_freq", "CFL", "final_time", "max_steps", "mesh_type", "dimensions", "xmin", "xmax", "file", "ics_func"};
  static const char * lua[] = {"prefix", "suffix", "output_freq", "CFL", "final_time", "max_steps", "mesh_type", "dimensions", "xmin", "xmax", "file", "ics_func", "postfix", "type", "ics"};
  { std::ofstream f(file); for (int t = 0; t < 3; ++t) { f << (t == 0 ? "" : t == 1 ? "hydro = {" : "mesh = {"); for (int k = 0; k < 15; ++k) f << lua[k] << " = " << base + 100 * t + k + 1 << (t ? "," : "\n"); if (t == 2) f << "}}\n"; } }
  lua_source_t l(file); std::vector<long> r; for (auto k : key) { double x = -1; try { r.push_back(l.get_value(k, x) ? enc(x - base) : 0); } catch (...) { r.push_back(THROWN); } }
  o(rec().s("op", "preset").a("seq", r));
}
int main(int ac, char ** av)
{
  char tmp[] = "./lsXXXXXX"; file = std::string(mkdtemp(tmp)) + "/doc.lua";
  if (!std::freopen("/dev/null", "w", stdout) || (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr))) return 77;
  sut s;
  if (std::string(av[1]) == "walk") {
    std::ifstream in(av[2]); out o(av[3]); std::string op; long a, b, c; int form = 0; doc d;
    while (in >> op) {
      if (op == "doc") { long n, m; in >> n; d.assign(n, {}); for (auto & t : d) { for (int k = 1; k <= K; ++k) in >> t.f[k]; in >> m; t.s.resize(m); for (auto & x : t.s) in >> x; } continue; }
      in >> a >> b >> c;
      if (op == "new") s.fresh(o, d); else { ++form; s.step(o, op, a, b, c, op == "num" ? form % 4 : form % 2); }
    }
  } else {
    rng r(std::atol(av[2])); long hist = std::atol(av[3]), len = std::atol(av[4]); out o(av[5]);
    presets(o, 0); presets(o, 5000);
    for (long h = 0; h < hist; ++h) {
      SC = r.coin() ? 1 : r.coin() ? 0.3 : r.coin() ? 1e12 / 7 : -1e-9 / 3; int n = 4 + r.below(5); doc d(n);
      for (int t = 0; t < n; ++t) {
        for (int k = 1; k <= K; ++k) { long w = r.below(3 + (t == 0)); d[t].f[k] = w == 0 ? 10 * t + k : w == 1 ? -(2 + r.below(n - 1)) : 0; }
        if (t) for (int m = r.size(4, 80, 30); m > 0; --m) d[t].s.push_back(r.in(1, 99));
      }
      d[0].f[1] = -2; d[1].f[2] = -3;   // the constructor needs hydro and hydro.mesh
      s.fresh(o, d);
      for (long k = 0; k < len; ++k) {
        long a = r.in(1, K), b = r.below(K + 1), c = r.coin() ? 0 : r.in(1, K);
        switch (r.below(10)) {
        case 0: case 1: s.step(o, "value", a, std::max(b, 1l), c, 0); break;
        case 2: case 3: s.step(o, "table", a, r.coin() ? 0 : b, c, 0); break;
        case 4: case 5: s.step(o, "num", a, 0, 0, r.below(4)); break;
        case 6: s.step(o, "seq", a, 0, 0, r.below(2)); break;
        case 7: s.step(o, "size", a, 0, 0, 0); break;
        default: s.step(o, "tab", a, 0, 0, 0);
        }
      }
    }
  }
  unlink(file.c_str());
}
