// contract checks (spec/Dbc.tla).  usage: dbc SEED RUNS OUT CUSTOM
// built once per configuration; CUSTOM=1 replaces the action at run time
#include "vf.h"
#include <functional>
#include <cassert>
#include <csignal>
#include <map>
#include <set>
#include <unordered_set>
#include <stdexcept>
#include <sys/wait.h>
#include <unistd.h>
#include "ristra/assertions/dbc.h"
#include "ristra/assertions/errors.h"
using namespace vf; namespace dbc = ristra::assertions::dbc; namespace ra = ristra::assertions;
static out * O; static std::ostringstream S, S2; static long calls, evals; static std::string text; static long base;
static char const * action() {
#ifdef RISTRA_DBC_THROW
  return "throw";
#elif defined RISTRA_DBC_NOTIFY
  return "notify";
#else
  return "nothing";
#endif
}
static bool on() {
#ifdef RISTRA_REQUIRE_ON
  return true;
#else
  return false;
#endif
}
static bool custom;   // an action installed at run time is in place
static long flip;
static long notices() { std::string s = (dbc::p_str == &S ? S : S2).str(); long n = 0; for (std::size_t p = 0; (p = s.find("dbc.cc", p)) != std::string::npos; ++p) ++n; return n; }
static bool has(std::string const & s, std::string const & x) { return s.find(x) != std::string::npos; }
// the message of a comparison names what was compared with what
template <class T> static bool names(std::string const & s, std::string const & want, std::initializer_list<T> l) { std::size_t p = s.find(want); if (p == std::string::npos) return false; p += want.size(); for (auto & x : l) { std::ostringstream t; t << x; p = s.find(t.str(), p); if (p == std::string::npos) return false; p += t.str().size(); } return true; }
static std::string V(int x) { return std::to_string(x); }
constexpr long NAN_ = 7;   // as a floating-point operand: not a number
static double F(long x) { return x == NAN_ ? std::numeric_limits<double>::quiet_NaN() : x * 0.5 - 1; }
static std::string Z(long x) { static char const * t[] = {"ab", "abc", "b", "ba", "c"}; return t[x]; }
static unsigned U(long x) { return unsigned(x) + 2147483646u; }
// the conditions are named after the variables v_x, v_lo, v_hi, or by the text given
// operands that are expressions
template <class T> std::enable_if_t<std::is_arithmetic<T>::value> compound(std::string const & op, T v_x, T v_lo, T v_hi, std::string & want, long & line, long & ret)
{
  want = "v_x"; bool y = flip >= 0;
  if (op == "equal") { line = __LINE__; ret = Equal(y ? v_x : v_hi, y ? v_lo : v_hi); }
  else if (op == "notequal") { line = __LINE__; ret = NotEqual(y ? v_x : v_hi, y ? v_lo : v_hi); }
  else if (op == "inrange") { line = __LINE__; ret = InOpenRange(y ? v_x : v_hi, y ? v_lo : v_hi, y ? v_hi : v_lo); }
  else if (op == "greater") { line = __LINE__; ret = GreaterThan(y ? v_x : v_hi, y ? v_lo : v_hi); }
  else if (op == "greatereq") { line = __LINE__; ret = GreaterEqual(y ? v_x : v_hi, y ? v_lo : v_hi); }
  else if (op == "less") { line = __LINE__; ret = LessThan(y ? v_x : v_hi, y ? v_lo : v_hi); } else std::exit(77);
}
template <class T> std::enable_if_t<!std::is_arithmetic<T>::value> compound(std::string const &, T, T, T, std::string &, long &, long &) { std::exit(77); }
template <class T> void one(std::string const & op, long a, long b, long c, T v_x, T v_lo, T v_hi)
{
  long ret = 2, what = 0, line = 0; std::string msg, want, also; long before = calls; S.str(""); S2.str(""); text.clear(); ++flip; dbc::p_str = flip % 4 == 3 ? &S2 : &S;
  try {
    if (op == "require") { want = "cond text"; bool v_c = a != 0;
#ifdef RISTRA_REQUIRE_ON
      line = __LINE__; ret = Require(v_c, "cond text");
#else
      Require(v_c, "cond text"); (void)v_c;
#endif
    } else if (op == "check") { want = "check text"; bool v_c = a != 0;
#ifdef RISTRA_REQUIRE_ON
      line = __LINE__; ret = Check(v_c, std::string("check text"));
#else
      Check(v_c, std::string("check text")); (void)v_c;
#endif
    } else if (op == "ensure") { want = "ensured"; bool v_c = a != 0;
#ifdef RISTRA_REQUIRE_ON
      line = __LINE__; ret = Ensure(v_c, "ensured");
#else
      Ensure(v_c, "ensured"); (void)v_c;
#endif
    } else if (op == "insist") { want = "insisted"; line = __LINE__; ret = Insist(a != 0, "insisted"); }
    else if (flip % 3 == 1 && op != "oneof") { T w_y = v_x, w_l = v_lo, w_h = v_hi; want = "w_y";   // another site, other names
      if (op == "equal") { line = __LINE__; ret = Equal(w_y, w_l); also = "w_l"; }
      else if (op == "notequal") { line = __LINE__; ret = NotEqual(w_y, w_l); also = "w_l"; }
      else if (op == "inrange") { line = __LINE__; ret = InOpenRange(w_y, w_l, w_h); }
      else if (op == "greater") { line = __LINE__; ret = GreaterThan(w_y, w_l); }
      else if (op == "greatereq") { line = __LINE__; ret = GreaterEqual(w_y, w_l); }
      else if (op == "less") { line = __LINE__; ret = LessThan(w_y, w_l); } else std::exit(77); }
    else if (std::is_arithmetic<T>::value && flip % 3 == 2 && op != "oneof") compound(op, v_x, v_lo, v_hi, want, line, ret);
    else if (op == "equal") { want = "v_x"; line = __LINE__; ret = Equal(v_x, v_lo); }
    else if (op == "notequal") { want = "v_x"; line = __LINE__; ret = NotEqual(v_x, v_lo); }
    else if (op == "inrange") { want = "v_x"; line = __LINE__; ret = InOpenRange(v_x, v_lo, v_hi); }
    else if (op == "greater") { want = "v_x"; line = __LINE__; ret = GreaterThan(v_x, v_lo); }
    else if (op == "greatereq") { want = "v_x"; line = __LINE__; ret = GreaterEqual(v_x, v_lo); }
    else if (op == "less") { want = "v_x"; line = __LINE__; ret = LessThan(v_x, v_lo); }
    else if (op == "oneof") { want = "v_x"; 
      if (flip % 5 == 0) { std::multiset<T> v_s{v_lo, v_hi, v_lo, v_hi}; line = __LINE__; ret = OneOf(v_x, v_s); }
      else if (flip % 5 == 1) { std::unordered_set<T> v_s{v_lo, v_hi}; line = __LINE__; ret = OneOf(v_x, v_s); }
      else if (flip % 5 == 2) { std::map<T, int> v_s{{v_lo, 0}, {v_hi, 1}}; line = __LINE__; ret = OneOf(v_x, v_s); }
      else { std::set<T> v_s{v_lo, v_hi}; line = __LINE__; ret = OneOf(v_x, v_s); } }
    else std::exit(77);
  } catch (ra::ExceptionRunTime & e) { what = 1; msg = e.what(); } catch (ra::ExceptionNotImplemented & e) { what = 3; msg = e.what(); } catch (ra::ExceptionLogic & e) { what = 2; msg = e.what(); } catch (std::logic_error & e) { what = 5; msg = e.what(); } catch (std::exception & e) { what = 6; msg = e.what(); } catch (...) { what = 8; }
  if (what == 0) msg = custom ? text : (dbc::p_str == &S ? S : S2).str();
  base += calls - before + notices();
  rec e; e.s("op", op).i("a", a).i("b", b).i("c", c).i("ret", ret).i("what", what).i("msg", has(msg, want) && has(msg, also) && (op == "inrange" ? names<T>(msg, want, {v_x, v_lo, v_hi}) : op == "greater" || op == "greatereq" || op == "less" ? names<T>(msg, want, {v_x, v_lo}) : true) && has(msg, "dbc.cc") && has(msg, std::to_string(line))).i("fired", base); (*O)(e);
}
static std::string current; static bool custom0;
static void install(std::string const & a)
{
  current = a; custom = a == "custom";
  if (a == "custom") dbc::dbc_action = [](std::string const & c, char const * f, char const * fn, int l) { ++calls; text = dbc::build_message(c, f, fn, l); };
  else if (a == "throw") dbc::dbc_action = dbc::throw_exception; else if (a == "notify") dbc::dbc_action = dbc::notify; else dbc::dbc_action = dbc::do_nothing;
}
static void change(std::string const & a) { install(a); rec e; e.s("op", "set").s("action", a); (*O)(e); }
static void start() { if (!current.empty()) { install(custom0 ? "custom" : action()); } base = 0; rec e; e.s("op", "new").s("action", custom ? "custom" : action()).i("on", on()); (*O)(e); }
static void in_place(std::string const & op, long a, long b, long c, int type)
{
  switch (type) { case 0: one<int>(op, a, b, c, a, b, c); break; case 1: one<double>(op, a, b, c, F(a), F(b), F(c)); break; case 2: one<std::string>(op, a, b, c, Z(a), Z(b), Z(c)); break; default: one<unsigned>(op, a, b, c, U(a), U(b), U(c)); }
}
// a check may run while the program unwinds from another exception
struct leaving { std::function<void()> f; ~leaving() { f(); } };
static long places;
static void doit(std::string const & op, long a, long b, long c, int type) { if (++places % 5 && places % 7) return in_place(op, a, b, c, type); try { leaving l{[&] { in_place(op, a, b, c, type); }}; if (op.size()) throw places; } catch (long) {} }
static char const * OPS[] = {"require", "check", "ensure", "insist", "equal", "notequal", "inrange", "greater", "greatereq", "less", "oneof"};
// error macros in a child when they may abort
static void error(std::string const & op, long a)
{
  long exc =
#ifdef RISTRA_ENABLE_EXCEPTIONS
    1;
#else
    0;
#endif
  long what = 0, branch = 0, line = 0; std::ostringstream cerr_text; auto * old = std::cerr.rdbuf(cerr_text.rdbuf()); std::string msg; bool mok = true;
  auto body = [&] {
    try {
      if (op == "runtime") { line = __LINE__; THROW_RUNTIME_ERROR("value " << 42 << " is bad"); } else if (op == "logic") { line = __LINE__; THROW_LOGIC_ERROR("value " << 42 << " is bad"); }
      else if (op == "notimpl") { line = __LINE__; THROW_IMPLEMENTED_ERROR("value " << 42 << " is bad"); } else if (op == "file") { line = __LINE__; THROW_FILE_ERROR("value 42 is bad"); }
      else if (a >= 2) { line = __LINE__; if (a == 2) assert_true(a != 0, "value 42 is bad"); else branch = 1; } else if (++flip % 2) { line = __LINE__; assert_true(a != 0, "value " << 42 << " is bad"); } else { line = __LINE__; assert_true(2 * a == 2, "value " << 42 << " is bad"); }
    } catch (ra::ExceptionRunTime & e) { what = 1; msg = e.what(); } catch (ra::ExceptionNotImplemented & e) { what = 3; } catch (ra::ExceptionLogic & e) { what = 2; } catch (ra::ExceptionFileError & e) { what = 4; msg = e.what(); } catch (std::exception & e) { what = 6; }
  };
  if (exc || (op == "asserttrue" && a != 0)) { body(); std::string t = cerr_text.str(); if (what) mok = has(t, "dbc.cc") && has(t, std::to_string(line)) && (op == "file" ? has(msg, "value 42 is bad") : has(t, "value 42 is bad")); else mok = t.empty(); }
  else { pid_t p = fork(); if (!p) { body(); _exit(0); } int st = 0; waitpid(p, &st, 0); what = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 9 : 7; }
  std::cerr.rdbuf(old); rec e; e.s("op", op).i("a", a).i("b", op == "asserttrue" && a > 2).i("c", exc).i("ret", op == "asserttrue" ? branch : 0).i("what", what).i("msg", mok).i("fired", 0); (*O)(e);
}
int main(int argc, char ** argv)
{
  if (!std::getenv("VF_ERR")) std::freopen("/dev/null", "w", stderr);
  rng g(std::atol(argv[1])); out o(argv[3]); O = &o; custom0 = custom = std::atol(argv[4]); dbc::p_str = &S;
  if (custom) install("custom");
  for (int t = 0; t < 4; ++t) for (auto op : OPS) for (long a = 0; a < 4; ++a) for (long b = 0; b < 4; ++b) for (long c = 0; c < 4; ++c) { start(); doit(op, a, b, c, t); }
  bool thr = !custom && std::string(action()) == "throw";
  for (long k = 0; k < std::atol(argv[2]); ++k) { start(); for (int i = 0; i < 12; ++i) { std::string op = OPS[g.below(11)]; long before = o.n; int t = g.below(4); long a = g.below(5), b = g.below(5), c = g.below(5); if (t == 2) {} doit(op, a, b, c, t); (void)before; if (thr) start(); } }
  for (auto op : OPS) if (std::string(op) != "oneof") for (long a : {0L, 2L, NAN_}) for (long b : {1L, 2L, NAN_}) for (long c : {3L, NAN_}) if (a == NAN_ || b == NAN_ || c == NAN_) { start(); doit(op, a, b, c, 1); }
  // the action is replaced while the program runs
  static char const * ACT[] = {"throw", "notify", "nothing", "custom"};
  for (long k = 0; k < std::atol(argv[2]); ++k) { start(); for (int i = 0; i < 12; ++i) { if (g.coin(3)) change(ACT[g.below(4)]); long before = base; (void)before; bool t = current == "throw" || (current.empty() && thr); doit(OPS[g.below(11)], g.below(5), g.below(5), g.below(5), g.below(4)); if (t) start(); } }
  start();
  for (auto op : {"runtime", "logic", "notimpl", "file"}) { start(); error(op, 0); } for (int k = 0; k < 2; ++k) for (long a = 0; a < 4; ++a) { start(); error("asserttrue", a); }
}
