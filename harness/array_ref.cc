// array_ref (spec/ArrayRef.tla).  usage: array_ref walk IN OUT | random SEED RUNS LEN OUT
// IN: "op a b" lines; "new n kind" starts over with n elements owned by container kind.
#include "vf.h"
#include <array>
#include <cassert>
#include <iterator>
#include <numeric>
#include <memory>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include "ristra/utils/array_ref.h"
using namespace vf; using namespace ristra::utils;
struct base { virtual ~base() {} virtual void op(std::string const &, long, long) = 0; virtual void obs(rec &) = 0; virtual void start(out &) = 0; virtual long size() = 0; };
// the elements live in one of: raw storage, std::vector, std::array<T,4>, T[4], std::string (char only)
template <class T> struct world : base {
  std::vector<T> v; std::array<T, 4> a; T c[4]; std::basic_string<T> s; int kind; long n; T * p; array_ref<T> r;
  world(long n_, int kind_) : kind(kind_), n(n_)
  { if (n != 4 && (kind == 2 || kind == 3)) kind = 1; v.reserve(n + 3); v.assign(n, T(1)); s.assign(n, T(1)); a.fill(T(1)); for (T & x : c) x = T(1);
    p = kind == 2 ? a.data() : kind == 3 ? c : kind == 4 ? &s[0] : v.data(); }
  long size() override { return r.size(); }
  void start(out & o) override { std::vector<long> m(n, 1); o(rec().s("op", "new").a("mem", m)); }
  array_ref<T> whole(long k)
  {
    switch (kind) { case 1: return k % 2 ? array_ref<T>(v) : make_array_ref(v); case 2: return k % 2 ? array_ref<T>(a) : make_array_ref(a); case 3: return k % 2 ? array_ref<T>(c) : make_array_ref(c); case 4: return array_ref<T>(s); default: return make_array_ref((T const *)p, n); }
  }
  long flip = 0;
  void op(std::string const & o, long x, long y) override
  {
    ++flip;
    if (o == "make") { if (x == 0 && y == n && flip % 3) r = whole(flip); else if (flip % 2) r = array_ref<T>(p + x, y); else r = make_array_ref((T const *)(p + x), y); }
    else if (o == "clear") { if (flip % 2) r.clear(); else r = array_ref<T>(); }
    else if (o == "sub") { std::size_t X = x >= 100 ? far_away[(x - 100) % 8] : x, Y = y >= 100 ? far_away[(y - 100) % 8] : y; array_ref<T> q = y == 99 ? r.substr(X) : r.substr(X, Y); r = q; }
    else if (o == "pre") r.remove_prefix(x); else if (o == "suf") r.remove_suffix(x);
    else if (o == "popf") r.pop_front(); else if (o == "popb") r.pop_back();
    else if (o == "write") p[x - 1] = T(y);
    else std::exit(77);
  }
  static std::vector<long> L(std::vector<T> const & q) { return std::vector<long>(q.begin(), q.end()); }
  void obs(rec & e) override
  {
    array_ref<T> q(r); std::vector<long> idx, fwd, rev, at, str;
    for (std::size_t i = 0; i < q.size() && i < 1000; ++i) idx.push_back(q[i]);
    if (flip % 2) for (auto i = q.begin(); i != q.end() && fwd.size() < 1000; ++i) fwd.push_back(*i); else for (auto i = q.cbegin(); i != q.cend() && fwd.size() < 1000; ++i) fwd.push_back(*i);
    if (flip % 2) for (auto i = q.rbegin(); i != q.rend() && rev.size() < 1000; ++i) rev.push_back(*i); else for (auto i = q.crbegin(); i != q.crend() && rev.size() < 1000; ++i) rev.push_back(*i);
    for (std::size_t i = 0; i < q.size() + 2 && i < 1000; ++i) { try { at.push_back(q.at(i)); } catch (std::out_of_range &) { at.push_back(-1); } }
    for (std::size_t i : far_away) { try { at.push_back(q.at(i)); } catch (std::out_of_range &) { at.push_back(-1); } }
    std::vector<T> w = flip % 2 ? q.vec() : std::vector<T>(q); 
    if constexpr (std::is_same<T, char>::value) { std::string z = flip % 2 ? q.str() : std::string(q); str.assign(z.begin(), z.end()); } else str = L(w);
    e.i("size", q.size()).i("empty", q.empty()).a("idx", idx).a("fwd", fwd).a("rev", rev).a("vec", L(w)).a("str", str).a("at", at).i("out", 2 + sizeof far_away / sizeof *far_away);
    bool any = q.size() > 0; e.i("front", any ? long(q.front()) : -1).i("back", any ? long(q.back()) : -1).i("off", q.data() ? enci(q.data() - p) : -1);

  }
};
static void step(base & w, out & o, std::string const & op, long a, long b)
{
  long refused = 0, need = op == "pre" || op == "suf" ? a : op == "popf" || op == "popb" ? 1 : 0;
  if (need > w.size()) {
    pid_t c = fork(); if (c < 0) std::exit(77);
    if (c == 0) { w.op(op, a, b); _exit(0); }
    int st; waitpid(c, &st, 0); refused = WIFSIGNALED(st);
  } else w.op(op, a, b);
  rec e; e.s("op", op).i("a", a).i("b", b).i("refused", refused); w.obs(e); o(e);
}
// more elements than an int can count: positions as multiples of 65536 and the rest
static void wide(out & o, rng & r, char * m, long all)
{
  auto d = [](std::size_t n) { return std::vector<long>{long(n >> 16) > 1000000 ? BAD : long(n >> 16), long(n & 65535)}; };
  auto pos = [&](long a, long b) { return r.coin(3) ? b : r.in(a, b); };
  long n = pos(1L << 31, all), p = pos(0, n), k = pos(0, n - p), f = pos(0, n), b = pos(0, n - f); array_ref<char> x(m, n), s = x.substr(p), t = x.substr(p, k), y = x; y.remove_prefix(f); y.remove_suffix(b);
  auto w = [&](array_ref<char> const & q) { auto a = d(q.data() - m), z = d(q.size()); a.insert(a.end(), z.begin(), z.end()); return a; };
  o(rec().s("op", "wide").a("n", d(n)).a("p", d(p)).a("k", d(k)).a("f", d(f)).a("b", d(b)).a("np", d(n - p)).a("nfb", d(n - f - b)).a("x", w(x)).a("s", w(s)).a("t", w(t)).a("y", w(y)).a("it", d(x.end() - x.begin())));
}
static std::unique_ptr<base> make(long n, long k) { if (k % 2) return std::make_unique<world<char>>(n, k / 2 % 5); return std::make_unique<world<int>>(n, k / 2 % 4); }
int main(int ac, char ** av)
{
  if (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr)) return 77;
  std::string mode = av[1]; std::unique_ptr<base> w;
  if (mode == "walk") {
    std::ifstream in(av[2]); out o(av[3]); std::string op; long a, b;
    while (in >> op >> a >> b) { if (op == "new") { w = make(a, b); w->start(o); } else step(*w, o, op, a, b); std::fflush(o.f); }
    return 0;
  }
  rng r(std::atol(av[2])); long runs = std::atol(av[3]), len = std::atol(av[4]); out o(av[5]);
  { long all = (4L << 30) + 70000; void * m = mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m != MAP_FAILED) for (int k = 0; k < 200; ++k) wide(o, r, static_cast<char *>(m), all); }
  for (long k = 0; k < runs; ++k) {
    long n = r.coin(3) ? 4 : r.size(20, 90, 12); w = make(n, k); w->start(o);
    for (long i = 0; i < len; ++i) {
      std::fflush(o.f);
      switch (r.below(9)) {
      case 0: { long x = r.below(n + 1); step(*w, o, "make", x, r.in(0, n - x)); break; }
      case 1: if (r.coin(4)) step(*w, o, "clear", 0, 0); else step(*w, o, "make", 0, n); break;
      case 2: step(*w, o, "sub", r.coin(8) ? r.in(100, 107) : r.below(n + 3), r.coin(3) ? 99 : r.coin(4) ? r.in(100, 107) : r.below(n + 3)); break;
      case 3: step(*w, o, "sub", r.below(3), r.coin(3) ? 99 : n - r.below(3) < 0 ? 0 : n); break;
      case 4: step(*w, o, "pre", r.coin(6) ? w->size() + r.below(3) : r.below(3), 0); break;
      case 5: step(*w, o, "suf", r.coin(6) ? w->size() + r.below(3) : r.below(3), 0); break;
      case 6: step(*w, o, "popf", 0, 0); break;
      case 7: step(*w, o, "popb", 0, 0); break;
      default: if (n) step(*w, o, "write", r.in(1, n), r.coin(4) ? 0 : r.in(1, 100));
      }
    }
  }
}
