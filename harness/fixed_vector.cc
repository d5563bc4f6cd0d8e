// Executes calls on real fixed_vectors: (replay) single transitions emitted by
// TLC, (random) long random histories recorded as traces.
#include "vf.h"
#include <stdexcept>
#include <iterator>
#include <initializer_list>
#include <list>
#include <algorithm>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include "ristra/utils/fixed_vector.h"
using ristra::utils::fixed_vector;

// element types ---------------------------------------------------------------
struct boxed {                       // moved-from and destroyed values are recognisable
  int * p;
  static long live;
  boxed(int v = 0) : p(new int(v)) { ++live; }
  boxed(const boxed & o) : p(new int(o.p ? *o.p : -7)) { ++live; }
  boxed(boxed && o) noexcept : p(o.p) { o.p = nullptr; ++live; }
  boxed & operator=(const boxed & o) { int v = o.p ? *o.p : -7; delete p; p = new int(v); return *this; }
  boxed & operator=(boxed && o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } else { delete p; p = nullptr; } return *this; }
  ~boxed() { delete p; --live; }
  bool operator==(const boxed & o) const { return (p ? *p : -7) == (o.p ? *o.p : -7); }
};
long boxed::live = 0;
template <class T> struct conv;
template <> struct conv<int> { static int mk(long v) { return int(v); } static long val(int v) { return v; } };
template <> struct conv<std::string> {
  static std::string mk(long v) { return "value-too-long-for-the-small-string-buffer-" + std::to_string(v); }
  static long val(const std::string & s) { auto p = s.rfind('-'); return p == std::string::npos || p + 1 >= s.size() ? -7 : std::atol(s.c_str() + p + 1); } };
template <> struct conv<boxed> { static boxed mk(long v) { return boxed(int(v)); } static long val(const boxed & b) { return b.p ? *b.p : -7; } };

template <class T, std::size_t N> struct machine {
  using V = fixed_vector<T, N>;
  V * x[3] = {nullptr, new V(), new V()};
  ~machine() { delete x[1]; delete x[2]; }
  static std::vector<T> mk(const std::vector<long> & r) { std::vector<T> v; for (long k : r) v.push_back(conv<T>::mk(k)); return v; }
  void set(int i, const std::vector<long> & r) { delete x[i]; x[i] = new V(); for (long k : r) x[i]->push_back(conv<T>::mk(k)); }
  std::vector<long> get(int i) const { std::vector<long> r; for (std::size_t k = 0; k < x[i]->size() && k < 1000; ++k) r.push_back(conv<T>::val((*static_cast<const V*>(x[i]))[k])); return r; }
  // all ways of looking at a vector agree
  bool agree(int i) const
  {
    V & v = *x[i]; const V & c = v; auto r = get(i); std::size_t n = r.size();
    if (v.empty() != (n == 0) || c.capacity() != N || c.max_size() != N) return false;
    if (std::size_t(std::distance(v.begin(), v.end())) != n || std::size_t(std::distance(c.begin(), c.end())) != n) return false;
    if (std::size_t(std::distance(c.cbegin(), c.cend())) != n) return false;
    std::size_t k = 0; for (auto & e : v) if (conv<T>::val(e) != r[k++]) return false;
    k = 0; for (auto & e : c) if (conv<T>::val(e) != r[k++]) return false;
    for (k = 0; k < n; ++k) {
      if (conv<T>::val(v[k]) != r[k] || conv<T>::val(v.at(k)) != r[k] || conv<T>::val(c.at(k)) != r[k]) return false;
      if (conv<T>::val(v.data()[k]) != r[k] || conv<T>::val(c.data()[k]) != r[k] || conv<T>::val(c.cbegin()[k]) != r[k]) return false;
      if (&v[k] != v.data() + k) return false;
    }
    k = n; for (auto it = c.rbegin(); it != c.rend(); ++it) if (k == 0 || conv<T>::val(*it) != r[--k]) return false;
    if (k) return false;
    k = n; for (auto it = c.crbegin(); it != c.crend(); ++it) if (k == 0 || conv<T>::val(*it) != r[--k]) return false;
    if (k) return false;
    if (n && (conv<T>::val(v.front()) != r[0] || conv<T>::val(v.back()) != r[n-1] || conv<T>::val(c.front()) != r[0] || conv<T>::val(c.back()) != r[n-1])) return false;
    return true;
  }
  template <class F> static auto with_list(const std::vector<long> & r, F f)
  {
    auto m = [&](int k) { return conv<T>::mk(r[k]); };
    switch (r.size()) {
      case 0: return f(std::initializer_list<T>{});
      case 1: return f(std::initializer_list<T>{m(0)});
      case 2: return f(std::initializer_list<T>{m(0), m(1)});
      case 3: return f(std::initializer_list<T>{m(0), m(1), m(2)});
      default: return f(std::initializer_list<T>{m(0), m(1), m(2), m(3)});
    }
  }
  long call(const std::string & op, int i, long a, long qv, const std::vector<long> & r)
  {
    V & v = *x[i]; V & o = *x[3 - i];
    auto at = [&](long k) { return std::next(v.cbegin(), k); };
    auto off = [&](typename V::iterator it) { return long(std::distance(v.begin(), it)); };
    if (op == "assignN") { v.assign(std::size_t(a), conv<T>::mk(qv)); return -1; }
    if (op == "assignSeq") { auto m = mk(r); if (r.size() % 2) { std::list<T> l(m.begin(), m.end()); v.assign(l.begin(), l.end()); } else v.assign(m.begin(), m.end()); return -1; }
    if (op == "assignList") { with_list(r, [&](std::initializer_list<T> l) { v.assign(l); return 0; }); return -1; }
    if (op == "constructN") { V * n = new V(std::size_t(a), conv<T>::mk(qv)); delete x[i]; x[i] = n; return -1; }
    if (op == "constructSeq") { auto m = mk(r); V * n = new V(m.begin(), m.end()); delete x[i]; x[i] = n; return -1; }
    if (op == "constructList") { V * n = with_list(r, [&](std::initializer_list<T> l) { return new V(l); }); delete x[i]; x[i] = n; return -1; }
    if (op == "insertCopy") { const T e = conv<T>::mk(qv); return off(v.insert(at(a), e)); }
    if (op == "insertMove") { T e = conv<T>::mk(qv); return off(v.insert(at(a), std::move(e))); }
    if (op == "insertSelf") { const T & e = v[qv]; return off(v.insert(at(a), e)); }
    if (op == "insertN") { const T e = conv<T>::mk(qv); return off(v.insert(at(a), std::size_t(r[0]), e)); }
    if (op == "insertNSelf") { const T & e = v[qv]; return off(v.insert(at(a), std::size_t(r[0]), e)); }
    if (op == "insertSeq") { auto m = mk(r); if (r.size() % 2) { std::list<T> l(m.begin(), m.end()); return off(v.insert(at(a), l.begin(), l.end())); } return off(v.insert(at(a), m.begin(), m.end())); }
    if (op == "insertList") { return with_list(r, [&](std::initializer_list<T> l) { return off(v.insert(at(a), l)); }); }
    if (op == "erase") return off(v.erase(at(a)));
    if (op == "eraseSome") return off(v.erase(at(a), at(qv)));
    // the argument may be an element of the vector itself
    const T * own = nullptr; if (qv % 2) for (const T & e : v) if (conv<T>::val(e) == qv) own = &e;
    if (own && op == "pushCopy") { v.push_back(*own); return -1; }
    if (own && op == "emplaceBack") { v.emplace_back(*own); return -1; }
    if (own && op == "resizeV" && a >= long(v.size())) { v.resize(std::size_t(a), *own); return -1; }
    if (op == "pushCopy") { const T e = conv<T>::mk(qv); v.push_back(e); return -1; }
    if (op == "pushMove") { T e = conv<T>::mk(qv); v.push_back(std::move(e)); return -1; }
    if constexpr (std::is_same<T, std::string>::value) if (op == "emplaceBack" && a == 0 && qv % 4 == 0) { auto t = conv<T>::mk(qv); if (qv % 8) v.emplace_back(t.c_str(), t.size()); else v.emplace_back(t, std::size_t(0), t.size()); return -1; }
    if (op == "emplaceBack") { v.emplace_back(conv<T>::mk(qv)); return -1; }
    if (op == "popBack") { v.pop_back(); return -1; }
    if (op == "clear") { v.clear(); return -1; }
    if (op == "resizeV") { const T e = conv<T>::mk(qv); v.resize(std::size_t(a), e); return -1; }
    if (op == "resizeDown" || op == "resizeUp") { v.resize(std::size_t(a)); return -1; }
    if (op == "swap") { v.swap(o); return -1; }
    if (op == "copyAssign") { v = o; return -1; }
    if (op == "copyConstruct") { V * n = new V(o); delete x[i]; x[i] = n; return -1; }
    if (op == "selfAssign") { V & w = v; v = w; return -1; }
    if (op == "moveAssign") { v = std::move(o); o.clear(); return -1; }
    if (op == "moveConstruct") { V * n = new V(std::move(o)); o.clear(); delete x[i]; x[i] = n; return -1; }
    if (op == "setAt") { if (qv % 2) v[a] = conv<T>::mk(qv); else if (a % 2) *std::next(v.begin(), a) = conv<T>::mk(qv); else v.at(a) = conv<T>::mk(qv); return -1; }
    if (op == "equal") { const V & l = v; const V & rr = o; bool e1 = l == rr, e2 = rr == l; return e1 == e2 ? e1 : 7; }
    if (op == "at") { long r1, r2; std::size_t A = a < 1000000 ? std::size_t(a) : vf::far_away[a - 1000000]; try { r1 = conv<T>::val(v.at(A)); } catch (std::out_of_range &) { r1 = -99; }
                      try { r2 = conv<T>::val(static_cast<const V&>(v).at(A)); } catch (std::out_of_range &) { r2 = -99; } return r1 == r2 ? r1 : -97; }
    std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::exit(77);
  }
  // a call beyond the capacity: run it in a child; refused = assertion or exception
  long refused(const std::string & op, int i, long k)
  {
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      std::freopen("/dev/null", "w", stderr);
      std::signal(SIGABRT, SIG_DFL); alarm(20);
      try {
        V & v = *x[i]; const T e = conv<T>::mk(1); std::vector<T> m(k, e);
        long total = long(v.size()) + k;
        if (op == "insertCopy!") v.insert(v.begin(), e);
        else if (op == "insertMove!") v.insert(v.begin(), conv<T>::mk(1));
        else if (op == "pushCopy!") v.push_back(e);
        else if (op == "pushMove!") v.push_back(conv<T>::mk(1));
        else if (op == "emplaceBack!") v.emplace_back(conv<T>::mk(1));
        else if (op == "insertN!") v.insert(v.begin(), std::size_t(k), e);
        else if (op == "insertSeq!") v.insert(v.begin(), m.begin(), m.end());
        else if (op == "insertList!") with_list(std::vector<long>(std::min<long>(k, 4), 1), [&](std::initializer_list<T> l) { v.insert(v.begin(), l); return 0; });
        else if (op == "resizeV!") v.resize(std::size_t(total), e);
        else if (op == "resize!") v.resize(std::size_t(total));
        else if (op == "assignN!") v.assign(std::size_t(total), e);
        else if (op == "assignSeq!") { std::vector<T> mm(total, e); v.assign(mm.begin(), mm.end()); }
        else _exit(77);
      } catch (std::exception &) { _exit(50); }
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return -98;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 50) return -98;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) std::exit(77);
    return -1;
  }
};

static std::vector<long> rd(std::istream & in) { long n; in >> n; std::vector<long> v(n); for (auto & e : v) in >> e; return v; }

template <class T, std::size_t N> void replay(const char * inp, const char * outp)
{
  std::ifstream in(inp); vf::out o(outp); std::string op;
  while (in >> op) {
    long i, a, qv; in >> i >> a >> qv; auto r = rd(in); auto p1 = rd(in); auto p2 = rd(in);
    machine<T, N> m; m.set(1, p1); m.set(2, p2);
    long ret = op.back() == '!' ? m.refused(op, i, a) : m.call(op, i, a, qv, r);
    o(vf::rec().i("ret", ret).a("x", m.get(1)).a("y", m.get(2)).b("ok", m.agree(1) && m.agree(2)));
  }
}

template <class T, std::size_t N> void random_run(std::uint64_t seed, long hist, long len, vf::out & o)
{
  static const char * ops[] = {"assignN","assignSeq","assignList","constructN","constructSeq","constructList","insertCopy","insertMove","insertSelf","insertN","insertNSelf","insertSeq","insertList","erase","eraseSome","pushCopy","pushMove","emplaceBack","popBack","clear","resizeV","resizeDown","resizeUp","swap","copyAssign","copyConstruct","selfAssign","moveAssign","moveConstruct","setAt","equal","at"};
  vf::rng g(seed);
  for (long h = 0; h < hist; ++h) {
    machine<T, N> m; o(vf::rec().s("op", "new").i("n", N).i("i", 1).i("a", 0).i("q", 0).raw("r", "[]").i("ret", -1).raw("x", "[[],[]]").b("ok", true));
    for (long s = 0; s < len; ++s) {
      std::string op = ops[g.below(sizeof ops / sizeof *ops)];
      if (g.coin(3)) op = ops[6 + g.below(9)];
      if ((op == "clear" || op == "swap" || op[0] == 'c' || op[0] == 'a') && g.coin()) op = "pushCopy";
      int i = 1 + g.below(2); long n = m.x[i]->size(), a = 0, qv = g.in(1, 9); std::vector<long> r;
      long room = long(N) - n;
      auto list = [&](long mx) { r.clear(); long k = g.below(std::max(0L, mx) + 1); while (k--) r.push_back(g.in(1, 9)); };
      if (op == "assignN" || op == "constructN" || op == "resizeV") a = g.below(N + 1);
      else if (op == "assignSeq" || op == "constructSeq") list(N);
      else if (op == "assignList" || op == "constructList") list(std::min<long>(N, 4));
      else if (op == "insertCopy" || op == "insertMove") { if (room < 1) continue; a = g.below(n + 1); }
      else if (op == "insertSelf") { if (room < 1 || !n) continue; a = g.below(n + 1); qv = g.below(n); }
      else if (op == "insertN") { a = g.below(n + 1); r = {g.below(std::max(0L, room) + 1)}; }
      else if (op == "insertNSelf") { if (!n) continue; a = g.below(n + 1); qv = g.below(n); r = {g.below(std::max(0L, room) + 1)}; }
      else if (op == "insertSeq") { a = g.below(n + 1); list(room); }
      else if (op == "insertList") { a = g.below(n + 1); list(std::min(room, 4L)); }
      else if (op == "erase") { if (!n) continue; a = g.below(n); }
      else if (op == "eraseSome") { a = g.below(n + 1); qv = g.in(a, n); }
      else if (op[0] == 'p' && op[1] == 'u' || op == "emplaceBack") { if (room < 1) continue; }
      else if (op == "resizeDown") a = g.below(n + 1);
      else if (op == "resizeUp") { if (room < 1) continue; a = g.in(n + 1, N); }
      else if (op == "setAt") { if (!n) continue; a = g.below(n); }
      else if (op == "at") a = g.coin(3) ? 1000000 + g.below(6) : g.below(N + 2);
      if (op == "swap" || op == "equal") i = 1;
      long ret = m.call(op, i, a, qv, r);
      o(vf::rec().s("op", op).i("n", N).i("i", i).i("a", a).i("q", qv).a("r", r).i("ret", ret).raw("x", "[" + vf::arr(m.get(1)) + "," + vf::arr(m.get(2)) + "]").b("ok", m.agree(1) && m.agree(2)));
    }
  }
}
#define T10(x) x, x, x, x, x, x, x, x, x, x
#define T100(x) T10(x), T10(x), T10(x), T10(x), T10(x), T10(x), T10(x), T10(x), T10(x), T10(x)
// histories at large capacities; contents are logged as runs
template <class T, std::size_t N> void long_run(std::uint64_t seed, long hist, long len, vf::out & o)
{
  using V = fixed_vector<T, N>; vf::rng g(seed); using vf::rec;
  auto runs = [](V const & v) { std::vector<std::vector<long>> r; for (auto it = v.begin(); it != v.end(); ++it) { long k = long(*it); if (r.empty() || r.back()[0] != k) { if (r.size() > 200) break; r.push_back({k, 0}); } ++r.back()[1]; } std::vector<std::string> s; for (auto & e : r) s.push_back(vf::arr(e)); return vf::arr2(s); };
  for (long h = 0; h < hist; ++h) {
    std::unique_ptr<V> x[3] = {nullptr, std::make_unique<V>(), std::make_unique<V>()};
    o(rec().s("op", "new").i("n", N).i("i", 1).i("a", 0).i("q", 0).raw("r", "[]").i("ret", -1).raw("x", "[[],[]]").b("ok", true));
    for (long s = 0; s < len; ++s) {
      int i = 1 + g.below(2); V & v = *x[i]; V & w = *x[3 - i]; long n = v.size(), room = long(N) - n, a = 0, q = g.in(1, 9), ret = -1; std::string op, rr = "[]";
      auto some = [&](long m) { return m <= 0 ? 0 : g.coin(4) ? m : g.coin(4) ? std::min<long>(m, g.below(4)) : g.below(m + 1); };
      auto seq = [&](long m) { std::vector<T> t; long k = g.below(4); std::vector<std::string> rs; long prev = 0; for (; k >= 0 && m > 0; --k) { long c = 1 + some(m - 1); long z = g.in(1, 9); if (z == prev) z = z % 9 + 1; prev = z; t.insert(t.end(), c, T(z)); rs.push_back(vf::arr(std::vector<long>{z, c})); m -= c; } rr = vf::arr2(rs); return t; };
      auto off = [&](auto it) { return long(it - v.begin()); };
      switch (g.below(17)) {
        case 0: op = "Lassign"; a = some(N); if (g.coin()) v.assign(std::size_t(a), T(q)); else x[i] = std::make_unique<V>(std::size_t(a), T(q)); break;
        case 1: { op = "LassignSeq"; auto t = seq(N); if (g.coin()) v.assign(t.begin(), t.end()); else x[i] = std::make_unique<V>(t.begin(), t.end()); } break;
        case 2: if (room < 1) continue; op = "Linsert"; a = some(n); { const T e(q); ret = g.coin() ? off(v.insert(v.cbegin() + a, e)) : off(v.insert(v.cbegin() + a, T(q))); } break;
        case 3: case 4: { op = "LinsertN"; long k = some(room); a = some(n); if (k) rr = "[[" + std::to_string(q) + "," + std::to_string(k) + "]]"; ret = off(v.insert(v.cbegin() + a, std::size_t(k), T(q))); } break;
        case 5: if (room >= 310 && g.coin(3)) { op = "LinsertSeq"; a = some(n); rr = "[[" + std::to_string(q) + ",310]]"; T z(q); ret = off(v.insert(v.cbegin() + a, {T100(z), T100(z), T100(z), T10(z)})); break; }
          if (N >= 310 && g.coin(3)) { op = "LassignSeq"; rr = "[[" + std::to_string(q) + ",310]]"; T z(q); if (g.coin()) v.assign({T100(z), T100(z), T100(z), T10(z)}); else x[i] = std::make_unique<V>(std::initializer_list<T>{T100(z), T100(z), T100(z), T10(z)}); break; }
        case 6: { op = "LinsertSeq"; a = some(n); auto t = seq(room); ret = off(v.insert(v.cbegin() + a, t.begin(), t.end())); } break;
        case 7: if (!n) continue; op = "Lerase"; a = some(n - 1); ret = off(v.erase(v.cbegin() + a)); break;
        case 8: case 9: op = "LeraseSome"; a = some(n); q = a + some(n - a); ret = off(v.erase(v.cbegin() + a, v.cbegin() + q)); break;
        case 10: op = "Lresize"; a = some(N); v.resize(std::size_t(a), T(q)); break;
        case 11: op = "Lcut"; a = some(n); v.resize(std::size_t(a)); break;
        case 12: if (room < 1) continue; op = "Lpush"; if (g.coin()) v.push_back(T(q)); else { const T e(q); if (g.coin()) v.push_back(e); else v.emplace_back(e); } break;
        case 13: if (!n) continue; op = "Lpop"; v.pop_back(); break;
        case 14: if (!n) continue; op = "Lset"; a = some(n - 1); (g.coin() ? v[a] : g.coin() ? v.at(a) : v.data()[a]) = T(q); break;
        case 15: op = "Lcopy"; if (g.coin()) v = w; else x[i] = std::make_unique<V>(w); break;
        default: if (g.coin()) { op = "Lswap"; i = 1; v.swap(w); } else if (g.coin()) { op = "Lequal"; if (g.coin(3)) { std::vector<T> t(v.begin(), v.end()); } ret = v == w; } else { op = "Lat"; a = g.coin(3) ? N + g.below(3) : some(n); try { ret = long(v.at(a)); } catch (std::out_of_range &) { ret = -99; } }
      }
      V const & c = *x[i]; bool ok = c.capacity() == N && (c.size() == 0) == c.empty() && std::size_t(c.end() - c.begin()) == c.size() && c.data() == c.begin() && std::equal(c.rbegin(), c.rend(), std::reverse_iterator<decltype(c.end())>(c.end()));
      if (c.size()) ok = ok && c.front() == c[0] && c.back() == c[c.size() - 1];
      o(rec().s("op", op).i("n", N).i("i", i).i("a", a).i("q", q).raw("r", rr).i("ret", ret).raw("x", "[" + runs(*x[1]) + "," + runs(*x[2]) + "]").b("ok", ok));
    }
  }
}
// comparison of floating point elements
template <std::size_t N> void floats(vf::rng & g, vf::out & o)
{
  std::vector<long> a, b; for (long n = g.below(N + 1); n > 0; --n) { a.push_back(vf::fcode(g)); b.push_back(g.coin(6) ? vf::fcode(g) : a.back() == 0 || a.back() == 100 ? 100 * g.below(2) : a.back()); } if (b.size() < N && g.coin(6)) b.push_back(1);
  fixed_vector<double, N> x, y; for (long c : a) x.push_back(vf::fval(c)); for (long c : b) y.push_back(vf::fval(c));
  o(vf::rec().s("op", "feq").a("a", a).a("b", b).i("r", x == y));
}
// capacities at the limits of the counter types: everything in range must be reached
template <std::size_t N> void filled(vf::rng & g, vf::out & o)
{
  auto v = std::make_unique<fixed_vector<short, N>>(); auto count = [&](short k) { return long(std::count(v->begin(), v->end(), k)); }; long n = g.coin() ? N : g.below(N + 1), m = g.coin(3) ? N : g.below(N + 1);
  v->assign(n, 1); long s1 = v->size(), c1 = count(1); v->resize(m, 2); long s2 = v->size(), c2 = count(2), e = g.below(m + 1); v->insert(v->begin() + e, N - m, 3); long s3 = v->size(), c3 = count(3);
  if (N > std::size_t(e)) v->erase(v->begin() + e); long s4 = v->size();
  { long n1 = g.below(5), n2 = 60 + g.below(5); fixed_vector<std::string, 2> s; s.emplace_back(std::size_t(n2), char('a' + n1)); s.emplace_back(3, char('a' + n1)); bool ok = s[0] == std::string(n2, char('a' + n1)) && s[1] == std::string(3, char('a' + n1)); fixed_vector<std::vector<int>, 2> t; t.emplace_back(n2, n1); t.emplace_back(n1); ok = ok && t[0] == std::vector<int>(n2, n1) && t[1] == std::vector<int>(n1); o(vf::rec().s("op", "emplaced").b("made", ok)); }
  o(vf::rec().s("op", "filled").i("cap", N).i("n", n).i("m", m).i("e", e).a("s", std::vector<long>{s1, s2, s3, s4}).a("c", std::vector<long>{c1, c2, c3}));
}
int main(int argc, char ** argv)
{
  std::string mode = argv[1], ty = argv[2];
  if (mode == "replay") {
    int n = std::atoi(argv[3]);
    if (ty == "int") n == 3 ? replay<int, 3>(argv[4], argv[5]) : replay<int, 4>(argv[4], argv[5]);
    else if (ty == "string") n == 3 ? replay<std::string, 3>(argv[4], argv[5]) : replay<std::string, 4>(argv[4], argv[5]);
    else n == 3 ? replay<boxed, 3>(argv[4], argv[5]) : replay<boxed, 4>(argv[4], argv[5]);
  } else {
    vf::out o(argv[6]); std::uint64_t seed = std::atoll(argv[3]); long h = std::atol(argv[4]), l = std::atol(argv[5]);
    if (ty == "int") { random_run<int, 5>(seed, h, l, o); random_run<int, 12>(seed + 1, h, l, o); random_run<int, 1>(seed + 2, h / 4 + 1, l, o);
      random_run<int, 255>(seed + 3, 2, l / 8, o); random_run<int, 256>(seed + 4, 2, l / 8, o); random_run<int, 300>(seed + 5, 1, l / 8, o);
      long_run<short, 200>(seed + 7, h / 2 + 1, 40, o); long_run<int, 256>(seed + 8, h / 2 + 1, 40, o); long_run<double, 700>(seed + 9, h / 2 + 1, 40, o); long_run<short, 40000>(seed + 10, h / 4 + 1, 40, o); long_run<int, 70000>(seed + 11, h / 2 + 1, 40, o); long_run<unsigned char, 132000>(seed + 12, h / 4 + 1, 40, o);
      vf::rng g(seed + 6); for (int k = 0; k < 300; ++k) { floats<1>(g, o); floats<3>(g, o); floats<8>(g, o); } for (int k = 0; k < 5; ++k) { filled<255>(g, o); filled<256>(g, o); filled<65535>(g, o); filled<65536>(g, o); filled<65537>(g, o); filled<70000>(g, o); } }
    else if (ty == "string") { random_run<std::string, 6>(seed, h, l, o); random_run<std::string, 11>(seed + 1, h, l, o); }
    else { random_run<boxed, 4>(seed, h, l, o); random_run<boxed, 13>(seed + 1, h, l, o); }
    if (ty == "boxed") o(vf::rec().s("op", "leak").i("n", 1).i("i", 1).i("a", 0).i("q", 0).raw("r", "[]").i("ret", boxed::live).raw("x", "[[],[]]").b("ok", true));
  }
  return 0;
}
