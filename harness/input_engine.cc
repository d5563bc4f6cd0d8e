// Drives the real input engine, its sources and init_value_t; logs every call with the full
// observable state (see spec/InputEngine.tla).   usage: walk SCRIPT OUT p1 p2 .. | random SEED HIST LEN OUT
#include "vf.h"
#include "ristra/initialization/input_engine.h"
#include "ristra/initialization/init_value.h"
#include <array>
#include <functional>
#include <unistd.h>
using namespace vf;
using vec = std::array<double, 2>;
using svec = std::array<size_t, 2>;
using fun = std::function<std::tuple<double, vec, double>(vec const &, double const &)>;
struct traits { using types = std::tuple<double, std::string, vec, svec, size_t, fun>; };
struct engine : ristra::input_engine_t<traits> {
  using b = ristra::input_engine_t<traits>;
  template <class T> b::registry<T> & reg_() { return b::get_registry<T>(); }
  template <class T> b::target_set_t & tg_() { return b::get_target_set<T>(); }
  template <class T> b::target_set_t & fl_() { return b::get_failed_target_set<T>(); }
};
static const std::string pad = "a value string long enough not to be stored inline #";
// one value v of every type, and back (BAD: not the image of any v)
// the number of v: itself, large (neither an int nor a float), or one less (so that zeros and empty strings occur)
static int M = 0; constexpr long BIG = 1099511627777L;
static long num(long v) { return M == 1 ? v * BIG : M == 2 ? v - 1 : v; }
static long unnum(double x) { for (long v = 1; v < 20; ++v) if (x == double(num(v))) return v; return BAD; }
template <class T> struct cv;
template <> struct cv<double> { static double mk(long v) { return num(v); } static long un(double x) { return unnum(x); } };
template <> struct cv<size_t> { static size_t mk(long v) { return num(v); } static long un(size_t x) { for (long v = 1; v < 20; ++v) if (x == size_t(num(v))) return v; return BAD; } };
template <> struct cv<std::string> {
  static std::string mk(long v) { return M == 2 && v == 1 ? std::string() : pad + std::to_string(v); }
  static long un(std::string const & s) { for (long v = 1; v < 10; ++v) if (s == mk(v)) return v; return BAD; } };
template <> struct cv<vec> { static vec mk(long v) { return {double(num(v)), double(num(v + 10))}; } static long un(vec const & a) { long v = unnum(a[0]); return v != BAD && a == mk(v) ? v : BAD; } };
template <> struct cv<svec> { static svec mk(long v) { return {size_t(num(v)), size_t(num(v + 10))}; } static long un(svec const & a) { long v = cv<size_t>::un(a[0]); return v != BAD && a == mk(v) ? v : BAD; } };
template <> struct cv<fun> {
  static fun mk(long n) { long v = num(n); return [v](vec const & x, double const & t) { return std::make_tuple(double(v), vec{x[0] + v, x[1] * v}, t + v); }; }
  static long un(fun f) {
    if (!f) return BAD;
    try {
      auto r = f(vec{3, 4}, 5), s = f(vec{-1, 2}, 0); long v = unnum(std::get<0>(r)); if (v == BAD) return BAD;
      return r == mk(v)(vec{3, 4}, 5) && s == mk(v)(vec{-1, 2}, 0) ? v : BAD;
    } catch (...) { return BAD; } } };
static const char * names[] = {"CFL", "suffix", "phys:gamma", "CFL2", "aux"};
static const char * luaf[] = {"CFL", "postfix", "gamma", "CFL2", "b"};   // fields; the third lives in table mesh
constexpr int NT = 6, NN = 5, NP = NT * NN;                 // pair p = (name-1)*NT + type, 1-based
static const int kind_of[NT] = {1, 2, 3, 3, 1, 4};
template <int I> using ty = std::tuple_element_t<I, traits::types>;
template <class F> auto by_type(int t, F && f)
{ switch (t) { case 0: return f(double()); case 1: return f(std::string()); case 2: return f(vec()); case 3: return f(svec()); case 4: return f(size_t()); default: return f(fun()); } }
static int pt(int p) { return (p - 1) % NT; }
static std::string pn(int p) { return names[(p - 1) / NT]; }
struct ivb { long saw = -2; int p; virtual ~ivb() {} virtual long get() = 0; virtual bool resolved() = 0; virtual bool valid() = 0; virtual long status() = 0; };
static bool accepts(int j, long v) { return j == 0 ? true : j == 1 ? v % 2 == 1 : j == 2 ? v % 2 == 0 : false; }
template <class T> struct ivt : ivb {
  ristra::init_value_t<T, engine> v;
  static ristra::init_value_t<T, engine> mk(ivt * me, int p, int j)
  {
    auto val = [me, j](T const & t) { long x = cv<T>::un(t); me->saw = me->saw == -2 || me->saw == x ? x : BAD; return accepts(j, x); };
    std::string n = pn(p); auto c = n.find(':');
    if (c == std::string::npos) return j == 0 && p % 2 ? ristra::init_value_t<T, engine>(n) : ristra::init_value_t<T, engine>(n, val);
    return ristra::init_value_t<T, engine>(n.substr(c + 1), val, n.substr(0, c));
  }
  ivt(int pp, int j) : v(mk(this, pp, j)) { p = pp; }
  long get() override { return cv<T>::un(v.get()); }
  bool resolved() override { return v.resolved(); }
  bool valid() override { return v.valid(); }
  long status() override   // the number and the printed name agree
  { static const char * n[] = {"unregistered", "registered", "resolve_failed", "initialized", "invalid", "valid"}; long k = long(v.status());
    return k >= 0 && k < 6 && ristra::init_val_status_name(v.status()) == n[k] ? k : BAD; }
};
static std::string scratch;
using doc = std::vector<std::array<long, 2>>;  // per name <<kind, value>>
static std::string lua_file(doc const & d)
{
  std::string id = scratch + "/d" + std::to_string(M); for (auto & x : d) id += "_" + std::to_string(x[0]) + "." + std::to_string(x[1]);
  id += ".lua";
  if (access(id.c_str(), R_OK) == 0) return id;
  auto val = [](std::array<long, 2> x) { std::string v = std::to_string(num(x[1]));
    switch (x[0]) { case 1: return v; case 2: return "\"" + cv<std::string>::mk(x[1]) + "\""; case 3: return "{" + v + "," + std::to_string(num(x[1] + 10)) + "}";
      default: return "function(x,y,t) return " + v + ", {x+" + v + ", y*" + v + "}, t+" + v + " end"; } };
  std::ofstream f(id);
  f << "hydro = {\n";
  for (int n : {0, 1, 3, 4}) if (n < int(d.size()) && d[n][0]) f << luaf[n] << " = " << val(d[n]) << ",\n";
  f << "mesh = {\n other = 99,\n"; if (d[2][0]) f << luaf[2] << " = " << val(d[2]) << ",\n";
  f << "}}\n";
  return id;
}
struct world {
  std::unique_ptr<engine> e[2];
  std::unique_ptr<ivb> iv[3];
  ristra::hard_coded_source_t hs; std::set<long> said;
  world() { for (auto & x : e) x = std::make_unique<engine>(); e[0]->clear_registry(); hs.clear_registry<traits::types>(); }
  long step(std::string const & op, long a, long b, long c, doc const & d)
  {
    try {
      if (op == "register") by_type(pt(a), [&](auto x) { using T = decltype(x);
          if (a % 2) e[c]->template register_target<T>(pn(a)); else { std::set<std::string> s{pn(a)}; if (a % 4 == 0) for (auto & q : e[c]->template tg_<T>()) s.insert(q); e[c]->template register_targets<T>(s); } return 0; });
      else if (op == "sethc") by_type(pt(a), [&](auto x) { using T = decltype(x); std::map<std::string, T> m; if (b % 2) for (auto & q : hs.get_registry<T>()) m.insert(q); m[pn(a)] = cv<T>::mk(b); hs.set_registry<T>(m); return 0; });
      else if (op == "clearhc") hs.clear_registry<traits::types>();
      else if (op == "clearhct") by_type(int(a) - 1, [&](auto x) { hs.clear_registry<std::tuple<decltype(x)>>(); return 0; });
      else if (op == "usehc") e[a - 1]->register_hard_coded_source(b ? new ristra::hard_coded_source_t : nullptr);
      else if (op == "uselua") {
        if (d.empty()) e[a - 1]->register_lua_source(nullptr);
        else { auto * l = new ristra::lua_source_t(lua_file(d)); e[a - 1]->register_lua_source(l); l->register_value(names[2], "mesh", luaf[2]); l->register_value(names[3], "hydro"); l->register_value(names[4], "hydro", luaf[4]); }
      }
      else if (op == "resolve") {   // what is printed: the set of names occurring in it
        std::ostringstream txt; auto * old = std::cout.rdbuf(txt.rdbuf()); bool ok;
        try { ok = e[a - 1]->resolve_inputs(); } catch (...) { std::cout.rdbuf(old); throw; }
        std::cout.rdbuf(old); std::string w; said.clear();
        for (char ch : txt.str() + "\n") if (std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == ':') w += ch; else { while (!w.empty() && w.back() == ':') w.pop_back(); for (int k = 0; k < NN; ++k) if (w == names[k]) said.insert(k + 1); w.clear(); }
        return ok; }
      else if (op == "instant") return by_type(pt(b), [&](auto x) { using T = decltype(x); return cv<T>::un(e[a - 1]->template get_instant_value<T>(pn(b))); });
      else if (op == "get") return by_type(pt(a), [&](auto x) { using T = decltype(x); return cv<T>::un(e[c]->template get_value<T>(pn(a))); });
      else if (op == "resolved") return by_type(pt(a), [&](auto x) { return long(e[c]->template resolved<decltype(x)>(pn(a))); });
      else if (op == "has") {   // and get_*_source() throws exactly when there is none
        long h = e[a - 1]->has_hard_coded_source(), u = e[a - 1]->has_lua_source(), h2 = 1, u2 = 1;
        try { e[a - 1]->get_hard_coded_source(); } catch (...) { h2 = 0; }
        try { e[a - 1]->get_lua_source(); } catch (...) { u2 = 0; }
        return h == h2 && u == u2 ? h + 2 * u : BAD;
      }
      else if (op == "clear") e[c]->clear_registry();
      else if (op == "newiv") by_type(pt(b), [&](auto x) { iv[a - 1].reset(); iv[a - 1] = std::make_unique<ivt<decltype(x)>>(int(b), int(c)); return 0; });
      else if (op == "ivget") return iv[a - 1]->get();
      else if (op == "ivresolved") return iv[a - 1]->resolved();
      else if (op == "ivvalid") return iv[a - 1]->valid();
      else if (op != "new") { std::fprintf(stderr, "op %s\n", op.c_str()); std::exit(77); }
    } catch (...) { return -1; }
    return 0;
  }
  // observable state, per pair in ps
  void dump(std::vector<int> const & ps, std::vector<long> & tg, std::vector<long> & rg, std::vector<long> & fl, std::vector<long> & hc)
  {
    for (int p : ps) by_type(pt(p), [&](auto x) { using T = decltype(x); std::string n = pn(p);
        tg.push_back(e[0]->template tg_<T>().count(n)); fl.push_back(e[0]->template fl_<T>().count(n));
        auto & r = e[0]->template reg_<T>(); auto i = r.find(n); rg.push_back(i == r.end() ? 0 : cv<T>::un(i->second));
        auto & h = hs.get_registry<T>(); auto j = h.find(n); hc.push_back(j == h.end() ? 0 : cv<T>::un(j->second)); return 0; });
  }
  long extra()  // entries under names nobody used
  { long n = 0; for (int t = 0; t < NT; ++t) n += by_type(t, [&](auto x) { using T = decltype(x); long k = 0;
      for (auto & q : e[0]->template tg_<T>()) { bool in = false; for (auto m : names) in |= q == m; k += !in; }
      for (auto & q : e[0]->template fl_<T>()) { bool in = false; for (auto m : names) in |= q == m; k += !in; }
      for (auto & q : e[0]->template reg_<T>()) { bool in = false; for (auto m : names) in |= q.first == m; k += !in; } return k; }); return n; }
};
int main(int ac, char ** av)
{
  std::string mode = av[1];
  char tmp[] = "./luaXXXXXX"; scratch = mkdtemp(tmp);
  if (!std::freopen("/dev/null", "w", stdout) || (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr))) return 77;
  if (mode == "walk") {
    std::ifstream in(av[2]); out o(av[3]); std::vector<int> ps; for (int i = 4; i < ac; ++i) ps.push_back(std::atoi(av[i]));
    std::unique_ptr<world> w; std::string op; long a, b, c, nd;
    while (in >> op >> a >> b >> c >> nd) {
      doc d(nd); for (auto & x : d) in >> x[0] >> x[1];
      // pair numbers of the script are positions in ps
      if (op == "register" || op == "sethc" || op == "get" || op == "resolved") a = ps.at(a - 1);
      if (op == "instant" || op == "newiv") b = ps.at(b - 1);
      if (op == "new") { M = (M + 1) % 3; w.reset(); w = std::make_unique<world>(); }
      for (auto & v : w->iv) if (v) v->saw = -2;
      long ret = w->step(op, a, b, op == "newiv" ? c : 0, d);
      std::vector<long> tg, rg, fl, hc; w->dump(ps, tg, rg, fl, hc);
      long st = w->iv[0] ? w->iv[0]->status() : 0, saw = w->iv[0] ? w->iv[0]->saw : -2;
      o("[" + std::to_string(ret) + "," + arr(tg) + "," + arr(rg) + "," + arr(fl) + "," + arr(hc) + "," + std::to_string(st) + "," + std::to_string(saw) + "," + std::to_string(w->extra()) + "]");
    }
  } else {
    rng r(std::atol(av[2])); long hist = std::atol(av[3]), len = std::atol(av[4]); out o(av[5]);
    std::vector<int> all; for (int p = 1; p <= NP; ++p) all.push_back(p);
    for (long h = 0; h < hist; ++h) {
      M = r.below(3); world w; doc cur[2]; bool tgt[NP + 1] = {}; int ivp[3] = {0, 0, 0};
      std::vector<int> ps; int n = 1 + r.below(6); for (int i = 0; i < n; ++i) ps.push_back(1 + r.below(NP));
      if (r.coin()) { int t = r.coin() ? NT - 1 : r.below(NT); for (int i = 0; i < NN; ++i) ps.push_back(i * NT + t + 1); }   // many names of one type
      auto log = [&](std::string const & op, long a, long b, long c, long ret, doc const & d) {
        std::vector<long> tg, rg, fl, hc; w.dump(all, tg, rg, fl, hc);
        std::vector<long> st, saw; for (auto & v : w.iv) { st.push_back(v ? v->status() : 0); saw.push_back(v ? v->saw : -2); }
        std::vector<std::string> dd; for (auto & x : d) dd.push_back(arr(x));
        std::vector<std::string> rgs, hcs; std::vector<long> tgs, fls;
        for (int p = 1; p <= NP; ++p) { if (tg[p-1]) tgs.push_back(p); if (fl[p-1]) fls.push_back(p);
          if (rg[p-1]) rgs.push_back(arr(std::vector<long>{p, rg[p-1]})); if (hc[p-1]) hcs.push_back(arr(std::vector<long>{p, hc[p-1]})); }
        o(rec().s("op", op).i("a", a).i("b", b).i("c", c).i("ret", ret).raw("d", arr2(dd)).a("tg", tgs).a("fl", fls).raw("rg", arr2(rgs)).raw("hc", arr2(hcs)).a("st", st).a("saw", saw).i("x", w.extra()).a("said", w.said));
      };
      log("new", 0, 0, 0, 0, {});
      for (long k = 0; k < len; ++k) {
        std::string op; long a = 0, b = 0, c = r.below(2); doc d;
        auto fits = [&](int en, int p) { return cur[en].empty() || cur[en][(p - 1) / NT][0] == 0 || cur[en][(p - 1) / NT][0] == kind_of[pt(p)]; };
        int p = ps[r.below(ps.size())], i = r.below(3), en = r.below(2);
        switch (r.below(24)) {
        case 0: case 1: op = "register"; a = p; tgt[p] = true; break;
        case 2: case 3: case 4: op = "sethc"; a = p; b = 1 + r.below(5); break;
        case 5: if (r.coin()) { op = "clearhc"; } else { op = "clearhct"; a = 1 + pt(p); } break;
        case 6: op = "usehc"; a = en + 1; b = !r.coin(4); break;
        case 7: case 8: op = "uselua"; a = en + 1;
          if (!r.coin(4)) { d.resize(NN); for (int q : ps) if (r.coin()) d[(q - 1) / NT] = {kind_of[pt(q)], 1 + r.below(5)}; for (auto & x : d) if (!x[0]) x = {0, 0}; }
          cur[en] = d; break;
        case 9: case 10: case 11: case 12: { bool ok = true; for (int q = 1; q <= NP; ++q) if (tgt[q]) ok &= fits(en, q); if (!ok) continue; op = "resolve"; a = en + 1; break; }
        case 13: case 14: if (!fits(en, p)) continue; op = "instant"; a = en + 1; b = p; break;
        case 15: op = "get"; a = p; break;
        case 16: op = "resolved"; a = p; break;
        case 17: op = "has"; a = en + 1; break;
        case 18: if (!r.coin(3)) continue; op = "clear"; std::fill(tgt, tgt + NP + 1, false); break;
        case 19: op = "newiv"; a = i + 1; b = p; c = r.below(4); tgt[p] = true; ivp[i] = p; break;
        case 20: case 21: if (!ivp[i]) continue; op = "ivget"; a = i + 1; break;
        case 22: if (!ivp[i]) continue; op = "ivresolved"; a = i + 1; break;
        default: if (!ivp[i]) continue; op = "ivvalid"; a = i + 1; break;
        }
        for (auto & v : w.iv) if (v) v->saw = -2;
        w.said.clear(); long ret = w.step(op, a, b, c, d);
        log(op, a, b, c, ret, d);
      }
    }
  }
}
