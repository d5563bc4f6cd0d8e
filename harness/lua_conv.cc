// Conversions across the Lua bridge (embed_lua.h), logged in the encoding of spec/LuaConv.tla.
// usage: lua_conv SEED N OUT
#include "vf.h"
#include "ristra/embedded/embed_lua.h"
#include "ristra/math/vector.h"
#include "ristra/math/matrix.h"
#include <array>
#include <cstring>
#include <list>
#include <unistd.h>
using namespace vf; using namespace ristra::embedded;
static std::string V(long k, long n, std::string w, std::string c, std::string e)
{ return "{\"k\":" + std::to_string(k) + ",\"n\":" + std::to_string(n) + ",\"w\":" + w + ",\"c\":" + c + ",\"e\":" + e + "}"; }
static std::string ei(long long i) { return V(1, 0, arr(std::vector<long>{long(std::int32_t(std::uint64_t(i) >> 32)), long((i >> 16) & 65535), long(i & 65535)}), "[]", "[]"); }
static std::string ef(double x)
{ std::uint64_t b; std::memcpy(&b, &x, 8); double y = 2 * x; long n = std::isfinite(y) && std::fabs(y) < 1e9 && y == std::floor(y) ? long(y) : BAD;
  return V(2, n, arr(std::vector<long>{long(b >> 48), long((b >> 32) & 65535), long((b >> 16) & 65535), long(b & 65535)}), "[]", "[]"); }
static std::string eb(bool b) { return V(3, b, "[]", "[]", "[]"); }
static std::string es(std::string const & s, long num) { return V(4, num, "[]", arr(codes(s)), "[]"); }
static std::string et(std::vector<std::string> const & v) { return V(5, 0, "[]", "[]", arr2(v)); }
static const std::string threw = V(9, 0, "[]", "[]", "[]");
// encode what the raw Lua API sees
static std::string raw(lua_State * s, int i)
{
  i = lua_absindex(s, i); luaL_checkstack(s, 5, "");
  switch (lua_type(s, i)) {
  case LUA_TNUMBER: return lua_isinteger(s, i) ? ei(lua_tointeger(s, i)) : ef(lua_tonumber(s, i));
  case LUA_TBOOLEAN: return eb(lua_toboolean(s, i));
  case LUA_TSTRING: { size_t n; const char * p = lua_tolstring(s, i, &n); return es(std::string(p, n), lua_isnumber(s, i)); }
  case LUA_TTABLE: { std::vector<std::string> v; long n = lua_rawlen(s, i); for (long k = 1; k <= n; ++k) { lua_rawgeti(s, i, k); v.push_back(raw(s, -1)); lua_pop(s, 1); } return et(v); }
  case LUA_TFUNCTION: return V(6, 0, "[]", "[]", "[]");
  default: return V(0, 0, "[]", "[]", "[]");
  }
}
template <class T, size_t M, size_t N> struct grid { T a[M][N]; T & operator()(size_t i, size_t j) { return a[i][j]; } T const & operator()(size_t i, size_t j) const { return a[i][j]; } };
// encode C++ values and types
template <class T, class = void> struct cpp;
static std::string ty(std::string t, std::vector<long> m = {}, std::string s = "") { return "{\"t\":\"" + t + "\",\"m\":" + arr(m) + ",\"s\":[" + s + "]}"; }
#define INT(T, n) template <> struct cpp<T> { static std::string type() { return ty(n); } static std::string val(T x) { return ei((long long)x); } };
INT(signed char, "i8") INT(unsigned char, "u8") INT(short, "i16") INT(unsigned short, "u16") INT(int, "i32") INT(unsigned, "u32") INT(long, "i64") INT(long long, "i64") INT(unsigned long, "u64")
template <> struct cpp<double> { static std::string type() { return ty("f64"); } static std::string val(double x) { return ef(x); } };
template <> struct cpp<float> { static std::string type() { return ty("f32"); } static std::string val(float x) { return ef(x); } };
template <> struct cpp<bool> { static std::string type() { return ty("bool"); } static std::string val(bool x) { return eb(x); } };
template <> struct cpp<std::string> { static std::string type() { return ty("str"); } static std::string val(std::string const & x) { return es(x, 0); } };
template <class C> static std::string seq(C const & c) { std::vector<std::string> v; for (auto && x : c) v.push_back(cpp<std::decay_t<decltype(x)>>::val(x)); return et(v); }
template <class T> struct cpp<std::vector<T>> { static std::string type() { return ty("vec", {}, cpp<T>::type()); } static std::string val(std::vector<T> const & x) { std::vector<std::string> v; for (auto const & y : x) v.push_back(cpp<T>::val(y)); return et(v); } };
template <class T, size_t N> struct cpp<std::array<T, N>> { static std::string type() { return ty("arr", {long(N)}, cpp<T>::type()); } static std::string val(std::array<T, N> const & x) { return seq(x); } };
template <class T> struct cpp<ristra::math::vector<T, 3>> { static std::string type() { return ty("arr", {3}, cpp<T>::type()); } static std::string val(ristra::math::vector<T, 3> const & x) { return et({cpp<T>::val(x[0]), cpp<T>::val(x[1]), cpp<T>::val(x[2])}); } };
template <class T, size_t M, size_t N> struct cpp<grid<T, M, N>> { static std::string type() { return ty("mat", {long(M), long(N)}, cpp<T>::type()); }
  static std::string val(grid<T, M, N> const & x) { std::vector<std::string> r; for (size_t i = 0; i < M; ++i) { std::vector<std::string> v; for (size_t j = 0; j < N; ++j) v.push_back(cpp<T>::val(x(i, j))); r.push_back(et(v)); } return et(r); } };
static rng r(1);
// random Lua values, pushed with the raw API
static void push_scalar(lua_State * s, int kind)
{
  switch (kind) {
  case 0: lua_pushinteger(s, r.in(-3, 3)); break;
  case 1: { static const long long v[] = {127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 1LL << 40, -(1LL << 40), (1LL << 53) + 1, 9223372036854775807LL, -9223372036854775807LL - 1};
    lua_pushinteger(s, v[r.below(sizeof v / sizeof *v)]); break; }
  case 2: lua_pushnumber(s, r.in(-20, 20) / 2.0); break;
  case 3: { static const double v[] = {0.3, 1e300, -1e-300, INFINITY, -INFINITY, 3.5e9 + .25, 70000, 4e8, -129, 256, 0.1f, -0.0}; lua_pushnumber(s, v[r.below(sizeof v / sizeof *v)]); break; }
  case 4: lua_pushboolean(s, r.coin()); break;
  case 5: { static const std::string v[] = {"", "a", "hello world", std::string("a\0b", 3), std::string("\0", 1), std::string("ab\0\0", 4), "12", " 7 ", "1e2", "0x10", "1.5", "nan", "true", "\xff\xfe", std::string(300, 'x')};
    auto & x = v[r.below(sizeof v / sizeof *v)]; lua_pushlstring(s, x.data(), x.size()); break; }
  case 6: luaL_loadstring(s, "return ..."); break;
  default: lua_pushnil(s);
  }
}
static void push_any(lua_State * s, int depth)
{
  luaL_checkstack(s, 10, "");
  if (depth == 0 || r.coin(3)) { push_scalar(s, r.below(8)); return; }
  lua_newtable(s); long n = r.size(4, 40, 25); int k = r.below(8); bool uni = !r.coin(4), rows = depth > 1 && r.coin(); long w = r.size(4, 20, 25);
  for (long i = 1; i <= n; ++i) {
    if (rows) { lua_newtable(s); long m = r.coin(6) ? r.below(4) : w; for (long j = 1; j <= m; ++j) { push_scalar(s, uni ? k % 7 : r.below(7)); lua_rawseti(s, -2, j); } }
    else if (uni) push_scalar(s, k == 7 ? 0 : k);
    else { push_any(s, depth - 1); if (lua_isnil(s, -1)) { lua_pop(s, 1); lua_pushinteger(s, 1); } }
    lua_rawseti(s, -2, i);
  }
  lua_pushstring(s, "other"); lua_setfield(s, -2, "field");
}
static std::vector<std::string> seen;
static int probe(lua_State * s) { seen.clear(); for (int i = 1; i <= lua_gettop(s); ++i) seen.push_back(raw(s, i)); lua_pushboolean(s, 1); return 1; }
// give(): pushes the values stored in the registry list "give"
static int give(lua_State * s) { lua_getfield(s, LUA_REGISTRYINDEX, "give"); long n = lua_tointeger(s, (lua_getfield(s, -1, "n"), -1)); lua_pop(s, 1); luaL_checkstack(s, n + 2, ""); for (long i = 1; i <= n; ++i) lua_rawgeti(s, -i, i); return int(n); }
static out * o;
template <class T> static void rd(lua_t & L, std::string const & v)
{
  std::string x; lua_result_t h = L["v"];
  try { x = cpp<T>::val(h.as<T>()); } catch (std::exception &) { x = threw; }
  (*o)(rec().s("op", "read").raw("T", cpp<T>::type()).raw("v", v).raw("r", x));
}
template <class T> static void rdd(lua_t & L, std::string const & v, T const & def)
{
  std::string x;
  try { x = cpp<T>::val(L["v"].as(def)); } catch (std::exception &) { x = threw; }
  (*o)(rec().s("op", "readd").raw("T", cpp<T>::type()).raw("v", v).raw("d", cpp<T>::val(def)).raw("r", x));
}
template <class... Ts> struct tl {};
template <class T> static std::vector<std::string> vals(T const & t) { return {cpp<T>::val(t)}; }
template <class... Ts> static std::vector<std::string> tv(std::tuple<Ts...> const & t) { return std::apply([](auto const &... x) { return std::vector<std::string>{cpp<std::decay_t<decltype(x)>>::val(x)...}; }, t); }
template <class A, class B, class... Ts> static void tup(lua_t & L, std::vector<std::string> const & vs, lua_result_t & res)
{
  std::vector<std::string> x;
  try { x = r.coin() ? tv(res.as<A, B, Ts...>()) : tv(res.as<std::tuple<A, B, Ts...>>()); } catch (std::exception &) { x = {threw}; }
  (*o)(rec().s("op", "tuple").raw("Ts", arr2({cpp<A>::type(), cpp<B>::type(), cpp<Ts>::type()...})).raw("vs", arr2(vs)).raw("rs", arr2(x)));
}
template <class... Args> static void args(lua_t & L, std::vector<std::string> const & vs, Args &&... a)
{ seen.clear(); std::vector<std::string> x; try { L["probe"](std::forward<Args>(a)...); x = seen; } catch (std::exception &) { x = {threw}; }
  (*o)(rec().s("op", "args").raw("vs", arr2(vs)).raw("rs", arr2(x))); }
// a C++ value through the Lua identity function, read back as T
template <class T, class A> static void echo(lua_t & L, A const & a, std::string const & enc_)
{ std::string x; try { x = cpp<T>::val(L["echo"](a).template as<T>()); } catch (std::exception &) { x = threw; }
  (*o)(rec().s("op", "echo").raw("T", cpp<T>::type()).raw("vs", arr2({enc_})).raw("r", x)); }
// a value anywhere on the stack: read and removed, the others stay
template <class T> static void slot(lua_State * s)
{
  lua_settop(s, 0); long n = r.in(1, 4), p = r.in(1, n); std::vector<std::string> vs, after; luaL_checkstack(s, 40, "");
  for (long k = 1; k <= n; ++k) { if (r.coin()) push_any(s, 2); else { lua_newtable(s); long m = r.in(0, 3), kind = r.below(3); for (long j = 1; j <= m; ++j) { if (kind == 2) { lua_newtable(s); for (long q = 1; q <= 2; ++q) { push_scalar(s, 0); lua_rawseti(s, -2, q); } } else push_scalar(s, kind ? 2 : 0); lua_rawseti(s, -2, j); } } vs.push_back(raw(s, -1)); }
  int i = r.coin() ? int(p) : int(p - n - 1); std::string x; try { x = i == -1 && r.coin() ? cpp<T>::val(lua_value<T>::get(s)) : cpp<T>::val(lua_value<T>::get(s, i)); for (int k = 1; k <= lua_gettop(s); ++k) after.push_back(raw(s, k)); } catch (std::exception &) { x = threw; }
  (*o)(rec().s("op", "slot").raw("T", cpp<T>::type()).raw("vs", arr2(vs)).i("i", p).raw("r", x).raw("after", arr2(after))); lua_settop(s, 0);
}
int main(int ac, char ** av)
{
  r = rng(std::atol(av[1])); long N = std::atol(av[2]); out oo(av[3]); o = &oo;
  if (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr)) return 77;
  lua_t L; lua_State * s = L.state();
  lua_register(s, "probe", probe); lua_register(s, "give", give);
  L.run_string("function echo(...) return ... end  function fail() error('no') end  function failt() error({}) end  function none() end  function isnil() return nil end notfun = 3");
  for (long it = 0; it < N; ++it) {
    push_any(s, 3); std::string v = raw(s, -1); lua_setglobal(s, "v");
    switch (it % 6) {
    case 0: rd<signed char>(L, v); rd<unsigned char>(L, v); rd<short>(L, v); rd<unsigned short>(L, v); rd<int>(L, v); rd<unsigned>(L, v); rd<long>(L, v); rd<long long>(L, v); rd<unsigned long>(L, v);
      rd<double>(L, v); rd<float>(L, v); rd<bool>(L, v); rd<std::string>(L, v); break;
    case 1: rd<std::vector<int>>(L, v); rd<std::vector<double>>(L, v); rd<std::vector<std::string>>(L, v); rd<std::vector<bool>>(L, v); rd<std::vector<unsigned char>>(L, v); rd<std::vector<std::vector<int>>>(L, v); rd<std::vector<std::vector<double>>>(L, v); break;
    case 2: rd<std::array<double, 2>>(L, v); rd<std::array<int, 3>>(L, v); rd<std::array<std::string, 1>>(L, v); rd<std::array<std::vector<double>, 2>>(L, v); rd<std::vector<std::array<int, 2>>>(L, v); rd<ristra::math::vector<int, 3>>(L, v); rd<std::array<bool, 2>>(L, v); break;
    case 3: rd<grid<double, 2, 3>>(L, v); rd<grid<int, 2, 2>>(L, v); rd<grid<std::string, 1, 2>>(L, v); rd<grid<int, 3, 1>>(L, v); break;
    case 4: {
      // several results
      lua_newtable(s); long n = r.size(5, 30, 20); lua_pushinteger(s, n); lua_setfield(s, -2, "n"); std::vector<std::string> vs;
      int ks[3]; for (int & k : ks) k = r.below(6);
      for (long i = 1; i <= n; ++i) { if (r.coin()) push_scalar(s, r.coin() ? 0 : r.below(8)); else push_any(s, 1); vs.push_back(raw(s, -1)); lua_rawseti(s, -2, i); }
      lua_setfield(s, LUA_REGISTRYINDEX, "give");
      bool nil = n && vs.back()[5] == '0';
      try {
        lua_result_t res = L["give"]();
        oo(rec().s("op", "call").i("thrown", 0).i("fun", 1).i("err", 0).raw("vs", arr2(vs)).i("size", res.size()).i("empty", res.empty()));
        tup<int, int>(L, vs, res); tup<int, double>(L, vs, res); tup<std::string, int, double>(L, vs, res); tup<double, std::array<double, 2>, double>(L, vs, res); tup<int, std::vector<int>, bool, std::string>(L, vs, res); tup<std::string, std::string>(L, vs, res);
        if (n == 1) { std::string x; try { x = cpp<double>::val(res.as<double>()); } catch (std::exception &) { x = threw; } oo(rec().s("op", "read").raw("T", cpp<double>::type()).raw("v", vs[0]).raw("r", x)); }
        else { bool t = false; try { res.as<double>(); } catch (std::exception &) { t = true; } oo(rec().s("op", "script").i("bad", 1).i("thrown", t)); }
      } catch (std::exception &) { oo(rec().s("op", "call").i("thrown", 1).i("fun", 1).i("err", 0).raw("vs", arr2(vs)).i("size", 0).i("empty", 0)); }
      break; }
    default: {
      int i = int(r.next()); size_t z = r.coin() ? r.next() : r.below(100); long long q = (long long)r.next(); double d; { std::uint64_t b = r.next(); std::memcpy(&d, &b, 8); if (d != d) d = 0.1; } float f = float(r.in(-1000, 1000)) / 7; bool b = r.coin();
      std::string st; for (long k = r.size(6, 300, 12); k > 0; --k) st += char(r.below(4) ? r.in(32, 126) : r.below(2) * 255);
      std::string cs; for (char c : st) if (c) cs += c;
      auto num = [&](std::string const & x) { lua_pushlstring(s, x.data(), x.size()); long n = lua_isnumber(s, -1); lua_pop(s, 1); return n; };
      std::array<double, 3> a3{d, 0.5, -1}; std::array<double, 1> a1{d};
      args(L, {ei(i), ef(d), eb(b)}, i, d, b); args(L, {es(st, num(st)), ei((long long)z), es(cs, num(cs))}, st, z, cs.c_str());
      args(L, {ef(f), ei(q)}, f, q); args(L, {}); args(L, {ef(d), ef(0.5), ef(-1), ei(i)}, a3, i); args(L, {ei(i), ef(d)}, i, a1); args(L, {eb(b), eb(!b), ei(0), ei(1), ef(0), es("", 0), ei(i), ei(q), ef(d)}, b, !b, 0, 1, 0.0, std::string(), i, q, d);
      echo<int>(L, i, ei(i)); echo<double>(L, i, ei(i)); echo<size_t>(L, z, ei((long long)z)); echo<long long>(L, q, ei(q)); echo<double>(L, d, ef(d)); echo<float>(L, f, ef(f)); echo<bool>(L, b, eb(b)); echo<std::string>(L, st, es(st, num(st))); echo<int>(L, d, ef(d)); echo<bool>(L, i, ei(i)); echo<int>(L, st, es(st, num(st)));
      rdd<int>(L, v, 42); rdd<std::string>(L, v, "dflt"); rdd<double>(L, v, 2.5);
      // lookups
      auto look = [&](lua_result_t h, std::string const & key, long idx, bool byname) {
        lua_getglobal(s, "v"); long tab = lua_istable(s, -1); std::string x = V(0, 0, "[]", "[]", "[]");
        if (tab) { if (byname) { lua_pushlstring(s, key.data(), key.size()); lua_rawget(s, -2); } else lua_rawgeti(s, -1, idx); x = raw(s, -1); lua_pop(s, 1); } lua_pop(s, 1);
        long th = 0, em = 0, sz = 0; try { lua_result_t g = byname ? h[key] : h[int(idx)]; em = g.empty(); sz = g.size(); } catch (std::exception &) { th = 1; }
        oo(rec().s("op", "look").i("tab", tab).raw("v", x).i("thrown", th).i("empty", em).i("size", sz)); };
      { lua_result_t h = L["v"]; look(h, "field", 0, true); look(h, "nokey", 0, true); look(h, "", 0, true); look(h, "", 1, false); look(h, "", 3, false); look(h, "", 0, false); look(h, "", -1, false); }
      auto call = [&](std::string const & n, long fun, long err, std::vector<std::string> vs) { long th = 0, sz = 0, em = 0; try { auto res = L[n](i, st); sz = res.size(); em = res.empty(); } catch (std::exception &) { th = 1; }
        oo(rec().s("op", "call").i("thrown", th).i("fun", fun).i("err", err).raw("vs", arr2(vs)).i("size", sz).i("empty", em)); };
      call("fail", 1, 1, {}); call("failt", 1, 1, {}); call("none", 1, 0, {}); call("isnil", 1, 0, {V(0, 0, "[]", "[]", "[]")}); call("notfun", 0, 0, {}); call("undefined", 0, 0, {}); call("echo", 1, 0, {ei(i), es(st, num(st))});
      auto script = [&](std::string const & t, long bad) { long th = 0; try { if (r.coin()) L.run_string(t); else L(t); } catch (std::exception &) { th = 1; } oo(rec().s("op", "script").i("bad", bad).i("thrown", th)); };
      script("x = 1", 0); script("x = ", 1); script("error('a')", 1); script("return 1, 2", 0); script("notfun()", 1); script("", 0); script("none()", 0);
      { std::string fn = "conv_" + std::to_string(getpid()) + ".lua"; { std::ofstream ff(fn); ff << (b ? "y = 2" : "y = = 2"); } long th = 0; try { L.loadfile(fn); } catch (std::exception &) { th = 1; } oo(rec().s("op", "script").i("bad", !b).i("thrown", th)); unlink(fn.c_str());
        th = 0; try { L.loadfile(fn); } catch (std::exception &) { th = 1; } oo(rec().s("op", "script").i("bad", 1).i("thrown", th)); }
      { long th = 0; try { auto res = L["none"](); res.as<int>(); } catch (std::exception &) { th = 1; } oo(rec().s("op", "script").i("bad", 1).i("thrown", th));
        th = 0; try { auto res = L["none"](); res["a"]; } catch (std::exception &) { th = 1; } oo(rec().s("op", "script").i("bad", 1).i("thrown", th)); }
      } }
    lua_settop(s, 0);
    if (it % 3 == 0) { slot<int>(s); slot<double>(s); slot<bool>(s); slot<std::string>(s); slot<std::vector<int>>(s); slot<std::vector<double>>(s); slot<std::array<int, 2>>(s); slot<std::array<double, 1>>(s); slot<std::vector<std::vector<int>>>(s); slot<grid<int, 2, 2>>(s); slot<grid<double, 1, 2>>(s); }
  }
}
