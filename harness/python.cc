// Drives ristra/embedded/embed_python.h and records what happened, seen through the raw Python API.
//   python walk IN OUT DIR | python random SEED N LEN OUT DIR
#include <array>
#include <string>
#include <iostream>
#include <sstream>
#include <vector>
#include "ristra/embedded/embed_python.h"
#include "vf.h"
#include <cstring>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
using namespace ristra::embedded;
constexpr int S = 3;
struct val { int c; long i; double d; };   // 0 int, 1 long, 2 double
static std::string dir;
static PyObject * slots[S + 1];
static Py_ssize_t path_base = 0;
static std::vector<std::string> fnames = {"", "echo", "push", "nth", "types", "boom", "push_boom", "nothing", "word", "swap", "seven", "missing",
  "size_", "big", "nan", "neginf", "two62", "ident", "getecho", "clear_", "who"};
static bool isfun(int f) { return (f >= 1 && f <= 9) || (f >= 12 && f <= 19); }
static const char * mnames[] = {"", "vf_a", "", "vf_c", "vf_raise", "vf_syn", "vf_missing"};

static void spit(const std::string & p, const std::string & t) { std::FILE * f = std::fopen(p.c_str(), "w"); if (!f) std::exit(77); std::fputs(t.c_str(), f); std::fclose(f); }
static void files()
{
  mkdir((dir + "/d1").c_str(), 0777); mkdir((dir + "/d2").c_str(), 0777);
  spit(dir + "/d1/vf_a.py",
    "store = []\nseven = 7\n"
    "def echo(*a): return a\n"
    "def push(*a):\n    store.extend(a)\n    return len(store)\n"
    "def nth(i):\n    if i < 0: raise IndexError(i)\n    return store[i]\n"
    "def types(*a): return tuple(1 if type(x) is float else 0 if type(x) is int else 2 for x in a)\n"
    "def boom(*a): raise ValueError('boom')\n"
    "def push_boom(*a):\n    store.extend(a)\n    raise ValueError('boom')\n"
    "def nothing(): return None\n"
    "def word(): return '12'\n"
    "def swap(a, b): return (b, a)\n"
    "def size_(): return len(store)\n"
    "def big(): return 2**70\n"
    "def nan(): return float('nan')\n"
    "def neginf(): return float('-inf')\n"
    "def two62(): return float(2**62)\n"
    "def ident(x): return x\n"
    "def getecho(*a): return echo\n"
    "def clear_(): store.clear()\n");
  spit(dir + "/d1/vf_c.py", "who = 1\n");
  spit(dir + "/d2/vf_c.py", "who = 2\n");
  spit(dir + "/d2/vf_raise.py", "raise RuntimeError('no')\n");
  spit(dir + "/d2/vf_syn.py", "def (:\n");
}

// --- numbers
static void limbs(std::vector<long> & o, std::uint64_t u) { for (int s = 48; s >= 0; s -= 16) o.push_back(long((u >> s) & 0xffff)); }
static std::vector<long> num(int t, bool okl, long l, bool okd, double d)
{
  std::vector<long> o{t};
  bool small = okd && std::fabs(d) < 1e8 && d * 4 == std::nearbyint(d * 4) && !(d == 0 && std::signbit(d)) && (t == 1 || okl);
  o.push_back(small ? long(d * 4) : vf::BAD); o.push_back(okl); o.push_back(okd);
  std::uint64_t b = 0; if (okd) { if (d != d) b = 0x7ff8000000000000ull; else std::memcpy(&b, &d, 8); }
  limbs(o, okl ? std::uint64_t(l) : 0); limbs(o, b); return o;
}
static std::vector<long> numd(double d)
{
  bool okl = d > -9.3e18 && d < 9.3e18 && d >= -9223372036854775808.0 && d < 9223372036854775808.0;
  return num(1, okl, okl ? long(d) : 0, true, d);
}
static std::vector<long> numl(long l) { return num(0, true, l, true, double(l)); }
static std::vector<long> numv(const val & v) { return v.c == 2 ? numd(v.d) : numl(v.i); }
static std::vector<long> numpy(PyObject * o)   // of a Python int or float, else {}
{
  if (PyFloat_CheckExact(o)) return numd(PyFloat_AS_DOUBLE(o));
  if (PyLong_CheckExact(o)) {
    int ov = 0; long l = PyLong_AsLongAndOverflow(o, &ov); double d = PyLong_AsDouble(o); bool okd = !PyErr_Occurred(); PyErr_Clear();
    return num(0, !ov, l, okd, d);
  }
  return std::vector<long>(12, -7);
}
static PyObject * module_a() { PyObject * m = PyImport_GetModuleDict(); return m ? PyDict_GetItemString(m, "vf_a") : nullptr; }
static std::string obj(int k, const std::vector<long> & v, const std::vector<std::string> & e)
{ return "{\"k\":" + std::to_string(k) + ",\"v\":" + vf::arr(v) + ",\"e\":" + vf::arr2(e) + "}"; }
static std::string describe(PyObject * o)
{
  if (!o) return obj(0, {}, {});
  if (o == Py_None) return obj(2, {}, {});
  if (PyFloat_CheckExact(o) || PyLong_CheckExact(o)) return obj(1, numpy(o), {});
  if (PyUnicode_Check(o)) return obj(3, {}, {});
  if (PyModule_Check(o)) {
    std::string n = PyModule_GetName(o); int m = 0; for (int i = 1; i <= 6; ++i) if (n == mnames[i]) m = i;
    long d = 1; if (m == 3) { PyObject * w = PyObject_GetAttrString(o, "who"); d = w ? PyLong_AsLong(w) : -1; Py_XDECREF(w); PyErr_Clear(); }
    return obj(5, {m, d}, {});
  }
  if (PyTuple_Check(o)) { std::vector<std::string> e; for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(o); ++i) { PyObject * x = PyTuple_GET_ITEM(o, i); e.push_back(x ? vf::arr(numpy(x)) : vf::arr(std::vector<long>(12, -8))); } return obj(6, {}, e); }
  if (PyFunction_Check(o) && module_a()) {
    for (size_t f = 1; f < fnames.size(); ++f) { PyObject * d = PyModule_GetDict(module_a()); if (isfun(f) && PyDict_GetItemString(d, fnames[f].c_str()) == o) return obj(4, {long(f)}, {}); }
  }
  if (o == PySys_GetObject("path")) return obj(7, {}, {});
  return obj(9, {}, {});
}
static void forget_last() { for (auto n : {"last_exc", "last_type", "last_value", "last_traceback"}) PySys_SetObject(n, nullptr); }

// --- calls with any argument list
template <class F, class... A> static PyObject * spread(F && f, const std::vector<val> & v, size_t i, A... a)
{
  if (i == v.size()) return f(a...);
  if constexpr (sizeof...(A) < 4) {
    if (v[i].c == 0) return spread(f, v, i + 1, a..., int(v[i].i));
    if (v[i].c == 1) return spread(f, v, i + 1, a..., long(v[i].i));
    return spread(f, v, i + 1, a..., double(v[i].d));
  }
  else if constexpr (sizeof...(A) < 9) {           // longer lists alternate
    if constexpr (sizeof...(A) % 2) return spread(f, v, i + 1, a..., double(v[i].d)); else return spread(f, v, i + 1, a..., long(v[i].i));
  }
  else std::exit(77);
}
static PyObject * call(PyObject * fn, const std::vector<val> & v, bool lv)
{
  if (lv) return spread([&](auto &... a) { return python_call_function(fn, static_cast<const std::remove_reference_t<decltype(a)> &>(a)...); }, v, 0);
  return spread([&](auto... a) { return python_call_function(fn, std::move(a)...); }, v, 0);
}
static PyObject * build(const std::vector<val> & v) { return spread([&](auto... a) { return python_build_args(a...); }, v, 0); }

static vf::out * O;
static void start()
{
  for (auto & s : slots) if (s) { python_free(s); s = nullptr; }
  if (Py_IsInitialized()) python_finalize();
  python_initialize();
  path_base = Py_REFCNT(PySys_GetObject("path"));
}
static void emit(vf::rec & r, bool err, const std::vector<long> & ret)
{
  r.b("err", err).b("pend", PyErr_Occurred() != nullptr).a("ret", ret);
  PyErr_Clear(); forget_last();
  std::vector<std::string> sl; for (int s = 1; s <= S; ++s) sl.push_back(describe(slots[s]));
  r.raw("slots", vf::arr2(sl));
  std::vector<std::string> st; std::vector<long> rf; PyObject * a = module_a();
  if (a) {
    PyObject * d = PyModule_GetDict(a), * l = PyDict_GetItemString(d, "store");
    if (l) for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) st.push_back(vf::arr(numpy(PyList_GetItem(l, i))));
    for (size_t f = 1; f < fnames.size(); ++f) if (isfun(f)) { PyObject * x = PyDict_GetItemString(d, fnames[f].c_str()); rf.push_back(x ? long(Py_REFCNT(x)) - 1 : -99); }
  }
  r.raw("store", vf::arr2(st)).a("rf", rf);
  std::vector<long> pa; PyObject * sp = PySys_GetObject("path");
  for (Py_ssize_t i = 0; sp && i < PyList_Size(sp); ++i) { PyObject * x = PyList_GetItem(sp, i); const char * c = PyUnicode_Check(x) ? PyUnicode_AsUTF8(x) : ""; std::string s = c ? c : ""; if (s == dir + "/d1") pa.push_back(1); else if (s == dir + "/d2") pa.push_back(2); else if (pa.empty() || pa.back() != 0) pa.push_back(0); }
  while (!pa.empty() && pa.back() == 0) pa.pop_back();
  r.a("path", pa).i("pr", long(Py_REFCNT(sp) - path_base));
  PyErr_Clear();
  (*O)(r);
}
template <class F> static bool guarded(F && f) { try { f(); return false; } catch (const std::exception &) { return true; } }

static void op_start() { start(); vf::rec r; r.s("op", "start"); emit(r, false, {}); }
static void op_path(int d, int s)
{ vf::rec r; r.s("op", "path").i("d", d).i("s", s); PyObject * o = nullptr; bool e = guarded([&] { o = python_add_to_path(dir + "/d" + std::to_string(d)); }); if (!e) slots[s] = o; emit(r, e, {}); }
static void op_import(int m, int s)
{ vf::rec r; r.s("op", "import").i("m", m).i("s", s); PyObject * o = nullptr; bool e = guarded([&] { o = python_import(mnames[m]); }); if (!e) slots[s] = o; emit(r, e, {}); }
static void op_attr(int m, int f, int s)
{ vf::rec r; r.s("op", "attr").i("m", m).i("f", f).i("s", s); PyObject * o = nullptr; bool e = guarded([&] { o = python_get_attribute(slots[m], fnames[f]); }); if (!e) slots[s] = o; emit(r, e, {}); }
static void args(vf::rec & r, const std::vector<val> & v) { std::vector<std::string> a; for (auto & x : v) a.push_back(vf::arr(numv(x))); r.raw("a", vf::arr2(a)); }
static void fix(std::vector<val> & v) { for (size_t i = 4; i < v.size(); ++i) v[i].c = i % 2 ? 2 : 1; }
static void op_call(int f, int s, std::vector<val> v, bool lv)
{ fix(v); vf::rec r; r.s("op", "call").i("f", f).i("s", s); args(r, v); PyObject * o = nullptr; bool e = guarded([&] { o = call(slots[f], v, lv); }); if (!e) slots[s] = o; emit(r, e, {}); }
static void op_build(int s, std::vector<val> v)
{ fix(v); vf::rec r; r.s("op", "build").i("s", s); args(r, v); PyObject * o = nullptr; bool e = guarded([&] { o = build(v); }); if (!e) slots[s] = o; emit(r, e, {}); }
static std::size_t index(long i) { return i < 0 ? vf::far_away[(-1 - i) % 8] : std::size_t(i); }   // negative: far outside
static void op_set(int s, long i, val v)
{
  vf::rec r; r.s("op", "set").i("s", s).i("i", i).raw("x", vf::arr(numv(v)));
  bool e = guarded([&] { std::size_t n = index(i); if (v.c == 0) python_set_tuple_element(slots[s], n, int(v.i)); else if (v.c == 1) python_set_tuple_element(slots[s], n, v.i); else python_set_tuple_element(slots[s], n, v.d); });
  emit(r, e, {});
}
static void op_elem(int t, long i, int s)
{ vf::rec r; r.s("op", "elem").i("t", t).i("i", i).i("s", s); PyObject * o = nullptr; bool e = guarded([&] { o = python_get_tuple_element(slots[t], index(i)); }); if (!e) { Py_INCREF(o); slots[s] = o; } emit(r, e, {}); }
static void op_long(int s)
{ vf::rec r; r.s("op", "long").i("s", s); long l = 0; bool e = guarded([&] { l = python_as_long(slots[s]); }); emit(r, e, e ? std::vector<long>{} : numl(l)); }
static void op_double(int s)
{ vf::rec r; r.s("op", "double").i("s", s); double l = 0; bool e = guarded([&] { l = python_as_double(slots[s]); }); emit(r, e, e ? std::vector<long>{} : numd(l)); }
static void op_run(int p)
{
  static const char * t[] = {"", "__import__('vf_a').push(5)\n", "def (:\n", "__import__('vf_a').push(6)\nraise ValueError('no')\n", "vf_x = 1\n", "vf_unknown_name\n"};
  vf::rec r; r.s("op", "run").i("p", p); bool e = guarded([&] { python_run_string(t[p]); }); emit(r, e, {});
}
static void op_free(int s) { vf::rec r; r.s("op", "free").i("s", s); python_free(slots[s]); slots[s] = nullptr; emit(r, false, {}); }
// many repetitions of something that leaves nothing behind: does the interpreter hold more memory afterwards?
static void op_loop(int kind, vf::rng & g)
{
  PyObject * d = PyModule_GetDict(module_a());
  auto fn = [&](const char * n) { return PyDict_GetItemString(d, n); };
  PyObject * tup = PyTuple_Pack(2, Py_None, Py_None), * word = PyUnicode_FromString("12"), * flt = PyFloat_FromDouble(1e300), * two = PyFloat_FromDouble(2.5), * big = PyLong_FromString("9999999999999999999999", nullptr, 10);
  bool bad = false;
  auto once = [&](int i) {
    bool want = true; bool e = guarded([&] {
      double x = 1e6 + i + 0.125; long l = 100000000L + i;
      switch (kind) {
        case 0: python_import("vf_missing"); break;
        case 1: python_call_function(fn("boom"), l, x); break;
        case 2: python_free(python_call_function(fn("echo"), l, x, int(5000 + i))); want = false; break;
        case 3: python_get_attribute(module_a(), "missing"); break;
        case 4: python_call_function(fn("seven"), l, x); break;
        case 5: python_get_tuple_element(tup, 2 + i); break;
        case 6: python_as_long(word); break;
        case 7: python_run_string("vf_unknown_name\n"); break;
        case 8: python_as_double(word); break;
        case 9: python_as_long(flt); break;
        case 10: python_as_long(two); want = false; break;
        case 11: { PyObject * t = python_build_args(l, x); python_set_tuple_element(t, 0, l + 1); python_set_tuple_element(t, 1, x + 1); python_free(t); want = false; break; }
        case 12: { PyObject * m = python_import("vf_a"); PyObject * f = python_get_attribute(m, "nothing"); python_free(python_call_function(f)); python_free(f); python_free(m); want = false; break; }
        case 13: python_call_function(fn("swap"), l); break;
        case 14: python_as_long(big); break;
        case 15: python_get_tuple_element(tup, i % 2); want = false; break;
        case 16: python_run_string("vf_x = 1\n"); want = false; break;
        case 17: python_set_tuple_element(tup, 2 + i, l); break;
      }
    });
    if (e != want || PyErr_Occurred()) bad = true;
    PyErr_Clear(); forget_last();
  };
  auto blocks = [] { PyObject * gc = PyImport_ImportModule("gc"), * r = PyObject_CallMethod(gc, "collect", nullptr), * x = PySys_GetObject("getallocatedblocks"), * y = PyObject_CallNoArgs(x); long v = PyLong_AsLong(y); Py_DECREF(y); Py_DECREF(r); Py_DECREF(gc); return v; };
  auto rc = [&] { long t = 0; for (size_t f = 1; f < fnames.size(); ++f) if (isfun(f)) t += Py_REFCNT(fn(fnames[f].c_str())); for (PyObject * o : {tup, word, flt, two, big, module_a()}) t += Py_REFCNT(o); return t; };
  for (int i = 0; i < 40; ++i) once(i);
  // the interpreter's own caches fill up once; a leak grows every round
  bool grown = true; long b1 = 0, b0 = 0, r0 = rc();
  for (int k = 0; k < 5 && grown; ++k) {
    blocks(); b0 = blocks();
    for (int i = 0; i < 200; ++i) once(40 + i);
    b1 = blocks(); grown = b1 - b0 > 150;
  }
  long r1 = rc();
  if (std::getenv("VF_ERR")) std::cerr << "LOOP " << kind << " " << b1 - b0 << "\n"; vf::rec r; r.s("op", "loop").i("kind", kind).b("grown", grown).b("refs", r1 != r0).b("bad", bad);
  for (PyObject * o : {tup, word, flt, two, big}) Py_DECREF(o);
  emit(r, false, {});
}

int main(int argc, char ** argv)
{
  std::ios::sync_with_stdio(true);
  if (!std::getenv("VF_ERR")) { int n = ::open("/dev/null", O_WRONLY); ::dup2(n, 2); ::dup2(n, 1); }
  ::setenv("PYTHONMALLOC", "debug", 1); ::setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  ::unsetenv("PYTHONPATH"); ::unsetenv("PYTHONSTARTUP");
  std::string mode = argv[1]; dir = argv[argc - 1]; files();
  vf::out o(argv[argc - 2]); O = &o;
  python_set_program_name("vf");
  const val tab[] = {{}, {0, 1, 0}, {2, 0, -2.5}, {1, 0, 0}};
  if (mode == "walk") {
    std::ifstream in(argv[2]); std::string line; long n = 0;
    while (std::getline(in, line)) {
      std::istringstream is(line); std::string op; is >> op; long a[8] = {}; for (auto & x : a) is >> x; ++n;
      if (op == "new") op_start();
      else if (op == "start") op_start();
      else if (op == "path") op_path(a[0], a[1]);
      else if (op == "import") op_import(a[0], a[1]);
      else if (op == "attr") op_attr(a[0], a[1], a[2]);
      else if (op == "call") { std::vector<val> v; for (int i = 0; i < a[2]; ++i) v.push_back(tab[a[3 + i]]); op_call(a[0], a[1], v, n % 2); }
      else if (op == "elem") op_elem(a[0], a[1], a[2]);
      else if (op == "long") op_long(a[0]);
      else if (op == "double") op_double(a[0]);
      else if (op == "run") op_run(a[0]);
      else if (op == "free") op_free(a[0]);
      else std::exit(77);
    }
  }
  else {
    vf::rng g(std::atol(argv[2])); long N = std::atol(argv[3]), L = std::atol(argv[4]);
    auto rnd = [&]() {
      val v{int(g.below(3)), 0, 0};
      switch (g.below(6)) {
        case 0: v.i = g.in(-5, 5); v.d = g.in(-20, 20) / 4.0; break;
        case 1: v.i = g.coin() ? INT_MAX : INT_MIN; v.d = g.coin() ? 1e300 : -1e-300; break;
        case 2: v.i = long(g.next()); v.d = double(long(g.next())) * std::pow(2.0, double(g.in(-900, 900))); break;
        case 3: v.i = g.coin() ? LONG_MAX : LONG_MIN; v.d = g.coin() ? -0.0 : 0.1; break;
        case 4: v.i = -1; v.d = -1; break;
        default: v.i = long(g.next() >> g.below(60)); { const double s[] = {HUGE_VAL, -HUGE_VAL, NAN, 9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, 4.9e-324, -0.75}; v.d = s[g.below(8)]; } break;
      }
      if (v.c == 0) v.i = int(v.i);
      return v;
    };
    auto list = [&]() { std::vector<val> v; long n = g.coin(6) ? g.in(5, 9) : g.below(5); for (long i = 0; i < n; ++i) v.push_back(rnd()); return v; };
    for (long k = 0; k < N; ++k) {
      op_start();
      if (!g.coin(5)) { op_path(1, 1); op_free(1); op_import(1, 1); }
      for (long j = 0; j < L; ++j) {
        std::vector<int> fr, us; for (int s = 1; s <= S; ++s) (slots[s] ? us : fr).push_back(s);
        auto any = [&](std::vector<int> & x) { return x[g.below(x.size())]; };
        int w = int(g.below(100));
        auto tuples = us; { std::vector<int> t; for (int s : us) if (PyTuple_CheckExact(slots[s]) && PyTuple_GET_SIZE(slots[s]) > 0) t.push_back(s); tuples = t; }
        auto fun = [&]() { std::vector<int> t; for (int s : us) if (PyFunction_Check(slots[s])) t.push_back(s); return t.empty() || g.coin(8) ? any(us) : any(t); };
        auto mod = [&]() { std::vector<int> t; for (int s : us) if (PyModule_Check(slots[s])) t.push_back(s); return t.empty() || g.coin(10) ? any(us) : any(t); };
        if (w < 3 && !fr.empty()) op_path(g.in(1, 2), any(fr));
        else if (w < 10 && !fr.empty()) { const int m[] = {1, 1, 3, 3, 4, 5, 6}; op_import(m[g.below(7)], any(fr)); }
        else if (w < 28 && !fr.empty() && !us.empty()) op_attr(mod(), g.in(1, 20), any(fr));
        else if (w < 50 && !fr.empty() && !us.empty()) op_call(fun(), any(fr), list(), g.coin());
        else if (w < 54 && !fr.empty()) op_build(any(fr), list());
        else if (w < 60 && !fr.empty() && !tuples.empty()) op_elem(any(tuples), g.coin(4) ? -1 - g.below(8) : g.below(6), any(fr));
        else if (w < 63 && !tuples.empty()) { int s = any(tuples); if (Py_REFCNT(slots[s]) == 1) op_set(s, g.coin(4) ? -1 - g.below(8) : g.below(6), rnd()); }
        else if (w < 72 && !us.empty()) op_long(any(us));
        else if (w < 81 && !us.empty()) op_double(any(us));
        else if (w < 84) op_run(g.in(1, 5));
        else if (w < 85 && module_a() && g.coin(4)) op_loop(g.below(18), g);
        else if (!us.empty()) op_free(any(us));
      }
    }
    if (N > 0) { op_start(); op_path(1, 1); op_import(1, 2); for (int k = 0; k < 18; ++k) op_loop(k, g); }
  }
  start(); python_finalize();
  return 0;
}
