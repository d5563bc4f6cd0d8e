// Explores interleavings of real atomic operations of one value type (VALUE_TYPE)
// and prints every distinct call/return history; see vf/atomics.py for the modes.
#define VF_SHIM 1
#include "atomics_shim.h"
#include "atomics_ops.h"
using T = VALUE_TYPE;
using TB = table<T>;
static TB & tb() { static TB t; return t; }

// is an entry usable in a concurrent program, and with whom
static bool eq(const char * a, const char * b) { return !std::strcmp(a, b); }
static bool islock(const entry & e) { return eq(e.req, "lock"); }
static bool isserial(const entry & e) { return eq(e.req, "serial"); }

struct oper { const entry * e; long x; };               // e == nullptr: load
using program = std::vector<std::vector<oper>>;
struct event { int k, t; const char * op; long x; };    // k: 0 call, 1 ret
static std::vector<event> hist;
static std::set<std::string> seen; static std::FILE * fo; static long long nhist = 0, nevents = 0, nprog = 0;
static bool unsignedT = std::is_unsigned<T>::value; static int width = sizeof(T) <= 2 && std::is_integral<T>::value ? int(sizeof(T)) * 8 : 0;

static std::string name(const entry & e) { return std::string(e.op) + "/" + e.own + "/" + e.req + "/" + e.form + (e.vol ? "/volatile" : "") + (e.nord ? "/orders" + std::to_string(e.nord) : ""); }
static void record(const program & p, long init, long fin)
{
  std::ostringstream k; k << init << "|";
  for (auto & h : hist) { k << h.k << h.t; if (h.k == 0) k << h.op; k << h.x << ","; }
  k << "|" << fin;
  if (!seen.insert(k.str()).second) return;
  std::ostringstream who; for (auto & th : p) { who << "["; for (auto & o : th) who << (o.e ? name(*o.e) : "load") << " "; who << "]"; }
  std::fprintf(fo, "{\"k\":\"init\",\"v\":%ld,\"w\":%d,\"u\":%s,\"who\":%s}\n", init, width, unsignedT ? "true" : "false", vf::q(who.str()).c_str());
  for (auto & h : hist)
    if (h.k == 0) std::fprintf(fo, "{\"k\":\"call\",\"t\":%d,\"op\":\"%s\",\"x\":%ld}\n", h.t + 1, h.op, h.x);
    else std::fprintf(fo, "{\"k\":\"ret\",\"t\":%d,\"x\":%ld}\n", h.t + 1, h.x);
  std::fprintf(fo, "{\"k\":\"end\",\"v\":%ld}\n", fin);
  ++nhist; nevents += hist.size() + 2;
}
static int opdone[shim::MAXT];
static std::vector<std::function<void()>> bodies(const program & p, void * var)
{
  std::vector<std::function<void()>> b;
  for (size_t t = 0; t < p.size(); ++t)
    b.push_back([&p, t, var] {
      for (auto & o : p[t]) {
        shim::point();
        hist.push_back({0, int(t), o.e ? o.e->op : "load", o.x});
        long r = o.e ? o.e->f(var, o.x) : TB::read(var);
        hist.push_back({1, int(t), "", r});
        ++opdone[t];
      }
    });
  return b;
}
static void run_once(const program & p, const char * own, long init)
{
  void * var = TB::make(own, init); hist.clear(); std::fill(opdone, opdone + shim::MAXT, 0);
  auto b = bodies(p, var);
  shim::execute(b);
  long fin = TB::read(var); TB::drop(var);
  record(p, init, fin);
}
// all schedules with at most pre preemptions and spu spurious failures
static void dfs(const program & p, const char * own, long init, int pre, int spu, long cap = 20000)
{
  auto & s = shim::S(); s.path.clear(); s.guided = false; s.strategy = nullptr; s.max_preempt = pre; s.max_spurious = spu; ++nprog;
  long n = 0;
  do { run_once(p, own, init); } while (++n < cap && s.next_path());
}
// operands for an operation: init, and a few operand values
static void operands(const char * op, int cls, long & init, std::vector<long> & xs)
{
  bool ptr = std::is_pointer<T>::value;
  if (cls == ADDSUB) { init = width ? 5 : 100; xs = {3, 7, 1, 20}; }
  else if (cls == MULT) { init = 3; xs = {2, 5, 3, 1}; }
  else if (cls == DIVI) { init = std::is_floating_point<T>::value ? 1024 : 101; xs = std::is_floating_point<T>::value ? std::vector<long>{2, 4, 8, 2} : std::vector<long>{3, 2, 5, 1}; }
  else if (cls == INTG) { init = 113; xs = {50, 7, 30, 4}; }
  else if (cls == SHIFT) { init = eq(op, "lshift") ? 3 : 113; xs = {1, 2, 3, 1}; }
  else if (cls == BITS) { init = eq(op, "oreq") ? 16 : eq(op, "andeq") ? 127 : 21; xs = eq(op, "oreq") ? std::vector<long>{1, 2, 4, 8} : eq(op, "andeq") ? std::vector<long>{126, 125, 123, 119} : std::vector<long>{3, 6, 12, 24}; }
  else { init = eq(op, "min") ? 90 : 10; xs = eq(op, "min") ? std::vector<long>{40, 60, 20, 80} : std::vector<long>{60, 40, 80, 20}; }
  (void)ptr;
}
static const entry * adversary(const entry & e, int variant)
{
  const char * want = islock(e) ? "lock" : variant % 2 && std::is_integral<T>::value ? "cpp" : "strong";
  if (eq(want, "cpp") && !eq(e.own, "strong") && !eq(e.own, "cpp")) want = e.req;
  const char * op = std::is_floating_point<T>::value && e.cls == DIVI ? "mul" : variant % 3 == 0 ? "add" : variant % 3 == 1 ? "inc" : "postdec";
  const entry * any = nullptr;
  for (auto & c : tb().es) {
    if (!eq(c.own, e.own) || !eq(c.op, op) || c.nord || isserial(c) || islock(c) != islock(e)) continue;
    if (!any) any = &c;
    if (eq(c.req, want) && c.vol == bool(variant % 2)) return &c;
  }
  return any;
}
static bool weakish(const program & p) { for (auto & t : p) for (auto & o : t) if (o.e && std::strstr(o.e->req, "weak")) return true; return false; }
static void explore(int part, int parts, int deep, std::uint64_t seed)
{
  vf::rng g(seed + 77 * part);
  auto & es = tb().es; auto & s = shim::S();
  for (size_t i = 0; i < es.size(); ++i) {
    if (int(i % parts) != part) continue;
    const entry & e = es[i]; if (isserial(e)) continue;
    long init; std::vector<long> xs; operands(e.op, e.cls, init, xs);
    program p1 = {{{&e, xs[0]}}, {{&e, xs[1]}}};
    dfs(p1, e.own, init, deep ? 8 : 3, deep ? 2 : 1);
    const entry * a = adversary(e, int(i));
    long ax = eq(a->op, "mul") ? 2 : 1;
    program p2 = {{{&e, xs[0]}}, {{a, ax}, {a, 4}}};
    if (!islock(e)) p2[0].push_back({nullptr, 0});
    dfs(p2, e.own, init, deep ? 4 : 2, weakish(p2) ? 1 : 0);
    bool plain = e.nord == 0 && !e.vol && eq(e.form, "free");
    if (plain || deep) {
      program p3 = {{{&e, xs[0]}}, {{&e, xs[1]}}, {{&e, xs[2]}}};
      dfs(p3, e.own, init, deep ? 3 : 2, weakish(p3) ? 1 : 0, deep ? 20000 : 3000);
      program p4 = {{{&e, xs[0]}, {&e, xs[2]}}, {{a, 2}, {&e, xs[1]}}};
      dfs(p4, e.own, init, deep ? 4 : 2, weakish(p4) ? 1 : 0, deep ? 20000 : 3000);
    }
    // an adversary that interferes before every step of the operation, k times
    for (int stride = 1; stride <= 3; ++stride) for (int k : {2, 5, 13}) {
      program p = {{{&e, xs[0]}}, {}}; for (int j = 0; j < k; ++j) p[1].push_back({a, ax});
      int st = 0, target = 0;
      s.guided = false; s.path.clear(); ++nprog;
      s.strategy = [&]() -> int {
        if (target > 0 && opdone[1] < target && !shim::slot(1).done) return 1;   // let the adversary finish one operation
        if (++st % stride == 0 && !shim::slot(1).done) { target = opdone[1] + 1; ++st; return st > 1 ? 1 : 0; }
        return 0; };
      run_once(p, e.own, init);
      // bursts of spurious failures
      if (std::strstr(e.req, "weak")) {
        int left = k; s.strategy = [&]() -> int { if (left > 0) { --left; s.force_spurious = true; } return 0; };
        run_once(p, e.own, init);
      }
      s.strategy = nullptr;
    }
    // random mixes of entries of the same variable type under random schedules
    if (i / parts % 16 == 0 || deep) {
      std::vector<const entry *> pool; for (auto & c : es) if (eq(c.own, e.own) && !isserial(c) && islock(c) == islock(e) && c.cls == (std::is_floating_point<T>::value && e.cls == DIVI ? MULT : ADDSUB)) pool.push_back(&c);
      for (int rep = 0; rep < (deep ? 10 : 2); ++rep) {
        program p; int nt = 2 + int(g.below(2));
        for (int t = 0; t < nt; ++t) { p.push_back({}); int n = 1 + int(g.below(nt == 2 ? 3 : 2)); for (int j = 0; j < n; ++j) p.back().push_back({pool[g.below(pool.size())], g.in(1, 6)}); }
        p[0][0] = {&e, xs[0]}; ++nprog;
        s.strategy = [&]() -> int { s.force_spurious = g.coin(5); return int(g.below(nt)); };
        for (int k = 0; k < (deep ? 400 : 20); ++k) run_once(p, e.own, init);
        s.strategy = nullptr;
      }
    }
  }
}
// schedules from the model: lines "<own> <nthreads> { <nops> { op req x } } <len> steps..."
static void guided(const char * path)
{
  std::ifstream in(path); std::string own; auto & s = shim::S(); s.strategy = nullptr;
  long init;
  while (in >> own >> init) {
    int nt; in >> nt; program p(nt); bool ok = true;
    for (auto & th : p) { int n; in >> n; while (n--) { std::string op, req; long x; in >> op >> req >> x; const entry * f = nullptr;
      for (auto & c : tb().es) if (own == c.own && op == c.op && req == c.req && c.nord == 0 && !c.vol) { f = &c; break; }
      if (!f) ok = false; th.push_back({f, x}); } }
    int len; in >> len; s.guide.assign(len, 0); for (auto & g : s.guide) in >> g;
    if (!ok) { std::fprintf(stderr, "no entry\n"); std::exit(77); }
    s.guided = true; ++nprog; run_once(p, own.c_str(), init); s.guided = false;
  }
}
static const char * ordname(int o) { static const char * n[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"}; return o >= 0 && o < 6 ? n[o] : "none"; }
// memory orders: every entry, every pair of orders, with one interfering update so that a CAS fails
static void orders()
{
  using mo = std::memory_order; auto & s = shim::S();
  const mo all[] = {mo::memory_order_relaxed, mo::memory_order_consume, mo::memory_order_acquire, mo::memory_order_release, mo::memory_order_acq_rel, mo::memory_order_seq_cst};
  const mo fails[] = {mo::memory_order_relaxed, mo::memory_order_consume, mo::memory_order_acquire, mo::memory_order_seq_cst};
  std::set<std::string> u;
  for (auto & e : tb().es) {
    if (isserial(e) || islock(e)) continue;
    long init; std::vector<long> xs; operands(e.op, e.cls, init, xs);
    for (int i1 = 0; i1 < (e.nord ? 6 : 1); ++i1) for (int i2 = 0; i2 < (e.nord == 2 ? 4 : 1); ++i2) for (int burst = 0; burst < 4; ++burst) {
      g1 = all[i1]; g2 = fails[i2];
      void * var = TB::make(e.own, init); hist.clear(); std::fill(opdone, opdone + shim::MAXT, 0);
      const entry * a = adversary(e, 0); program p = {{{&e, xs[0]}}, {}}; for (int j = 0; j < burst; ++j) p[1].push_back({a, eq(a->op, "mul") ? 2 : 1});
      int st = 0, target = 0;
      s.strategy = [&]() -> int {
        if (target > 0 && opdone[1] < target && !shim::slot(1).done) return 1;
        if (++st % 2 == 0 && !shim::slot(1).done) { target = opdone[1] + 1; return 1; }
        if (burst == 3) s.force_spurious = st < 4;
        return 0; };
      auto b = bodies(p, var); shim::execute(b); s.strategy = nullptr; TB::drop(var); ++nprog;
      std::ostringstream eff; bool first = true; eff << "[";
      for (auto & c : shim::slot(0).log) if (c.k == shim::RMW || c.k == shim::CASFAIL || c.k == shim::STORE) { eff << (first ? "" : ",") << "{\"k\":\"" << (c.k == shim::RMW ? "rmw" : c.k == shim::STORE ? "store" : "fail") << "\",\"o\":\"" << ordname(c.ord) << "\"}"; first = false; }
      eff << "]";
      std::string line = std::string("\"n\":") + std::to_string(e.nord) + ",\"s\":\"" + (e.nord ? ordname(int(g1)) : "seq_cst") + "\",\"f\":\"" + (e.nord == 2 ? ordname(int(g2)) : "none") + "\",\"acc\":" + eff.str();
      if (u.insert(std::string(e.op) + e.req + line).second) { std::fprintf(fo, "{\"who\":\"%s\",%s}\n", name(e).c_str(), line.c_str()); ++nhist; }
    }
    g1 = g2 = mo::memory_order_seq_cst;
  }
}
// which mechanism an entry uses (one uncontended call)
static void mech()
{
  for (auto & e : tb().es) {
    long init; std::vector<long> xs; operands(e.op, e.cls, init, xs);
    void * var = TB::make(e.own, init); shim::self->log.clear();
    long r = e.f(var, xs[0]); (void)r;
    int lock = 0, rmw = 0, weak = 0, pun = 0, fetch = 0, store = 0; bool held = false;
    for (auto & c : shim::self->log) {
      if (c.k == shim::LOCK) { ++lock; held = true; } if (c.k == shim::UNLOCK) held = false;
      if (c.k == shim::RMW) { ++rmw; weak += c.weak; pun += c.punned; fetch += c.fetch; }
      if (c.k == shim::STORE) ++store;
    }
    TB::drop(var); ++nprog; ++nhist;
    std::fprintf(fo, "{\"who\":\"%s\",\"req\":\"%s\",\"lock\":%d,\"rmw\":%d,\"weak\":%d,\"pun\":%d,\"fetch\":%d,\"store\":%d,\"held\":%s,\"canpun\":%s}\n", name(e).c_str(), e.req, lock, rmw, weak, pun, fetch, store, held ? "true" : "false",
      std::is_same<T, int>::value || std::is_same<T, long>::value || std::is_same<T, short>::value || std::is_same<T, signed char>::value ? "false" : "true");
  }
}
int main(int argc, char ** argv)
{
  shim::init_main(); shim::value_type() = &typeid(T);
  std::string mode = argv[1]; fo = std::fopen(argv[2], "w"); if (!fo) return 77;
  tb();
  if (mode == "explore") explore(std::atoi(argv[3]), std::atoi(argv[4]), std::atoi(argv[5]), std::atoll(argv[6]));
  else if (mode == "guided") guided(argv[3]);
  else if (mode == "orders") orders();
  else if (mode == "mech") mech();
  std::fclose(fo);
  std::printf("{\"entries\":%zu,\"programs\":%lld,\"schedules\":%lld,\"steps\":%lld,\"histories\":%lld,\"events\":%lld}\n", tb().es.size(), nprog, shim::S().schedules, shim::S().total_steps, nhist, nevents);
  std::fflush(nullptr); _exit(0);
}
