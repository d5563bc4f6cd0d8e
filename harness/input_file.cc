// input_t (spec/InputFile.tla).  usage: input_file walk IN OUT NARGS | random SEED HIST LEN OUT
#include "vf.h"
#include <array>
#include <memory>
#include <unistd.h>
#include "ristra/initialization/input.h"
using namespace vf; using ristra::initialization::input_t;
static const char * names[] = {"hydro", "x", "X", "max_steps"};
static out * o; static std::string dir; static bool keep_singleton;
using stmts = std::vector<std::array<long, 2>>;
struct world {
  std::unique_ptr<input_t> own; int which; std::array<std::string, 2> base;
  input_t & obj(long i) { return (i == 1) == (which == 0) ? input_t::instance() : *own; }   // the process-wide object and one of our own
  std::vector<std::string> paths{"", dir + "/first.lua", dir + "/second input.lua", dir + "/3", dir + "/4.lua"};
  static std::string before;   // what the process-wide object was loaded from before this history
  world(int w) : own(std::make_unique<input_t>()), which(w)
  {   // the process-wide object keeps its file: start from removed names
    std::string p = dir + "/reset.lua"; { std::ofstream f(p); for (auto n : names) f << n << " = nil\n"; }
    input_t::instance().load(p); if (input_t::instance().filename() != p) std::exit(77);
  }
  long fid(std::string const & f) { if (f == dir + "/reset.lua") return 9; for (std::size_t i = 0; i < paths.size(); ++i) if (f == paths[i]) return long(i); return BAD; }
  template <class R> static long val(R && h) { try { if (h.empty()) return 0; if (h.size() == 0 && h.name().empty()) return BAD; try { return enc(h.template as<double>()); } catch (...) {} return -enc(h["z"].template as<double>()); } catch (...) { return BAD; } }
  long plain(input_t & i, std::string const & n) { return val(i[n]); }
  long tried(input_t & i, std::string const & n)
  { try { auto h = i.try_access(n); long v = val(h); auto h2 = inputs_try_access(i, n); if (val(h2) != v) return BAD; if (v > 0) { double d = inputs_try_access_as(i, n, double); if (enc(d) != v) return BAD; } return v; }
    catch (std::exception &) { try { double d = inputs_try_access_as(i, n, double); (void)d; return BAD; } catch (std::exception &) {} try { auto h = inputs_try_access(i, n); (void)h; return BAD; } catch (std::exception &) { return 0; } } }
  void state(rec & e)
  {
    std::vector<std::string> s; std::vector<long> f;
    for (long i = 1; i <= 2; ++i) { auto & x = obj(i); f.push_back(fid(x.filename())); std::vector<std::string> v; for (auto n : names) v.push_back(arr(std::vector<long>{plain(x, n), tried(x, n), x[n].empty()})); s.push_back(arr2(v)); }
    e.raw("seen", arr2(s)).a("file", f); (*o)(e);
  }
  void start() { rec e; e.s("op", "new").i("ret", 0); state(e); }
  void load(long i, long id, int how, stmts const & st)
  {
    std::string p = paths[id]; unlink(p.c_str());
    if (how != 2) { std::ofstream f(p); for (auto & x : st) { if (x[0] == 0) { f << "error('stop here')\n"; continue; } f << names[x[0] - 1] << " = "; if (x[1] == 0) f << "nil\n"; else if (x[1] > 0) f << x[1] << "\n"; else f << "{z = " << -x[1] << "}\n"; } if (how == 1) f << "x = = 3\n"; }
    long ret = 0; try { obj(i).load(p); } catch (std::exception &) { ret = -1; }
    unlink(p.c_str());
    std::vector<std::string> ss; for (auto & x : st) ss.push_back(arr(x));
    rec e; e.s("op", "load").i("o", i).i("id", id).s("how", how == 0 ? "ok" : how == 1 ? "syntax" : "missing").raw("st", arr2(ss)).i("ret", ret); state(e);
  }
  void read(long i, long n) { long v = tried(obj(i), names[n - 1]); rec e; e.s("op", "read").i("o", i).i("n", n).i("ret", v == 0 ? -1 : v); state(e); }
};
int main(int, char ** av)
{
  std::string mode = av[1]; char tmp[] = "./ifXXXXXX"; dir = mkdtemp(tmp);
  if (!std::freopen("/dev/null", "w", stdout) || (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr))) return 77;
  std::unique_ptr<world> w;
  if (mode == "walk") {
    std::ifstream in(av[2]); out oo(av[3]); o = &oo; int na = std::atoi(av[4]); std::string op; std::vector<long> a(na); int k = 0;
    while (in >> op) {
      for (auto & x : a) in >> x;
      if (op == "new") { w.reset(); w = std::make_unique<world>(k++ % 2); w->start(); }
      else if (op == "read") w->read(a[0], a[1]);
      else { stmts st; for (int i = 3; i < na; ++i) if (a[i]) st.push_back({(a[i] - 1) / 8, (a[i] - 1) / 8 ? (a[i] - 1) % 8 - 2 : 0}); w->load(a[0], a[1], int(a[2]), st); }
    }
  } else {
    rng r(std::atol(av[2])); long hist = std::atol(av[3]), len = std::atol(av[4]); out oo(av[5]); o = &oo;
    for (long h = 0; h < hist; ++h) {
      w.reset(); w = std::make_unique<world>(r.below(2)); w->start();
      for (long k = 0; k < len; ++k)
        if (r.coin(4)) w->read(r.in(1, 2), r.in(1, 4));
        else { stmts st; long n = r.below(6); for (long i = 0; i < n; ++i) { long x = r.in(1, 4); long v = r.coin(4) ? 0 : r.in(-9, 9); st.push_back(r.coin(14) ? std::array<long, 2>{0, 0} : std::array<long, 2>{x, v}); } w->load(r.in(1, 2), r.in(1, 4), r.coin(8) ? int(r.in(1, 2)) : 0, st); }
    }
  }
  w.reset(); unlink((dir + "/reset.lua").c_str()); rmdir(dir.c_str());
}
