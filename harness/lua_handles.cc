// Handles of the Lua bridge (spec/LuaHandles.tla).
// usage: lua_handles walk IN OUT | lua_handles random SEED RUNS LEN OUT
// IN: lines "op a b c"; "new n" starts over with n values of ours at the bottom of the stack.
#include "vf.h"
#include "ristra/embedded/embed_lua.h"
#include <functional>
#include <optional>
using namespace vf; using namespace ristra::embedded;
struct world {
  std::optional<lua_t> top; std::optional<lua_result_t> h[8]; int ar[8] = {}; std::function<int()> w[4]; bool wl[4] = {};
  lua_State * s = nullptr; int n0 = 0; long flip = 0;
  explicit world(int n) : n0(n)
  {
    top.emplace(); s = top->state();
    top->run_string("reg = setmetatable({}, {__mode = 'v'})\n"
                    "function mkt(o) local t = {o, id = o}; reg[o] = t; return t end\n"
                    "function mkf(o) local f = function() return o end; reg[o] = f; return f end\n"
                    "function fail() error('no') end");
    lua_settop(s, 0); for (int i = 0; i < n; ++i) { if (i == 0) lua_newtable(s); else lua_pushinteger(s, 1000 + i); }
  }
  void put(int i, lua_result_t && r, int arity) { if (h[i] && ++flip % 2) *h[i] = std::move(r); else { h[i].reset(); h[i].emplace(std::move(r)); } ar[i] = arity; }
  static std::string g(long i) { return "g" + std::to_string(i); }
  // returns {thrown, ret}
  std::pair<long, long> run(std::string const & op, long a, long b, long c)
  {
    try {
      if (op == "get") put(a, (*top)[g(b)], 1);
      else if (op == "idx") put(a, c == 1 ? (*h[b])["a"] : (*h[b])[7], 1);
      else if (op == "copy") { if (h[a] && ++flip % 2) *h[a] = *h[b]; else { h[a].reset(); h[a].emplace(*h[b]); } ar[a] = ar[b]; }
      else if (op == "move") { put(a, std::move(*h[b]), ar[b]); h[b].reset(); ar[b] = 0; }
      else if (op == "del") { h[a].reset(); ar[a] = 0; }
      else if (op == "both") { lua_result_t f = (*top)["both"]; put(a, f(int(b)), 2); }
      else if (op == "call") put(a, (*h[b])(), 1);
      else if (op == "err") { lua_result_t f = (*top)["fail"]; f(1, 2.5, "x"); }
      else if (op == "num") return {0, h[a]->as<int>()};
      else if (op == "pair") { auto t = h[a]->as<int, int>(); return {0, std::get<0>(t) * 100 + std::get<1>(t)}; }
      else if (op == "set") top->run_string(g(a) + " = " + (b ? std::to_string(b) : "nil"));
      else if (op == "alias") top->run_string(g(a) + " = " + g(b));
      else if (op == "mkt") top->run_string(g(a) + " = mkt(" + std::to_string(b) + ")");
      else if (op == "mkf") (*top)(g(a) + " = mkf(" + std::to_string(b) + ")");
      else if (op == "fld") top->run_string(g(a) + (b == 1 ? ".a" : "[7]") + " = " + g(c));
      else if (op == "bad") top->run_string(++flip % 2 ? "this is not lua" : "local x = nil; x.y = 1");
      else if (op == "wrap") { using F = Lua_Func_Wrapper<std::function<int()>>; if (++flip % 2) w[a] = F(*h[b]); else w[a] = F(std::make_unique<lua_result_t>(*h[b])); wl[a] = true; }
      else if (op == "callw") return {0, w[a]()};
      else if (op == "copyw") { w[a] = w[b]; wl[a] = true; }
      else if (op == "delw") { w[a] = nullptr; wl[a] = false; }
      else if (op == "drop") top.reset();
      else if (op == "top") { lua_t t = h[a]->get_top(); top.reset(); top.emplace(t); }
      else { std::fprintf(stderr, "op %s\n", op.c_str()); std::exit(77); }
      return {0, 0};
    } catch (std::exception &) { return {1, 0}; }
  }
  std::vector<long> see(int i)
  {
    if (!h[i]) return {};
    lua_result_t const & x = *h[i];
    if (ar[i] == 2) {
      using V = std::vector<int>;
      try { auto t = x.as<int, int>(); return {std::get<0>(t), std::get<1>(t)}; } catch (std::exception &) {}
      try { auto t = x.as<V, int>(); return {-std::get<0>(t).at(0), std::get<1>(t)}; } catch (std::exception &) {}
      try { auto t = x.as<int, V>(); return {std::get<0>(t), -std::get<1>(t).at(0)}; } catch (std::exception &) {}
      try { auto t = x.as<V, V>(); return {-std::get<0>(t).at(0), -std::get<1>(t).at(0)}; } catch (std::exception &) {}
      return {99, 99};
    }
    if (x.empty()) return {0};
    try { return {-x["id"].as<int>()}; } catch (std::exception &) {}
    try { return {x.as<int>()}; } catch (std::exception &) {}
    try { return {-x().as<int>()}; } catch (std::exception &) {}
    return {99};
  }
  std::vector<long> alive()
  {
    lua_gc(s, LUA_GCCOLLECT, 0); lua_gc(s, LUA_GCCOLLECT, 0); std::vector<long> v;
    int t = lua_gettop(s); lua_rawgeti(s, LUA_REGISTRYINDEX, LUA_RIDX_GLOBALS); lua_getfield(s, -1, "reg");
    for (long o = 1; o <= 9; ++o) { lua_rawgeti(s, -1, o); if (!lua_isnil(s, -1)) v.push_back(o); lua_pop(s, 1); }
    lua_settop(s, t); return v;
  }
  bool stack_ok()
  {
    if (lua_gettop(s) != n0) return false;
    for (int i = 0; i < n0; ++i) if (i == 0 ? !lua_istable(s, 1) : lua_tointeger(s, i + 1) != 1000 + i) return false;
    return true;
  }
};
static void step(world & W, out & o, std::string const & op, long a, long b, long c, int nh)
{
  auto r = W.run(op, a, b, c); bool st = W.stack_ok(); if (!st) lua_settop(W.s, 0), W.n0 = 0;
  std::vector<std::string> hs; for (int i = 1; i <= nh; ++i) hs.push_back(arr(W.see(i)));
  st = st && W.stack_ok(); if (!W.stack_ok()) lua_settop(W.s, 0), W.n0 = 0;
  o(rec().s("op", op).i("a", a).i("b", b).i("c", c).i("th", r.first).i("ret", r.second).i("st", st).raw("hs", arr2(hs)).a("al", W.alive()));
}
static void start(std::optional<world> & W, out & o, int n)
{ W.reset(); W.emplace(n); W->top->run_string("function both(i) return g1, _G['g' .. i] end"); o(rec().s("op", "new")); }
int main(int ac, char ** av)
{
  if (!std::getenv("VF_ERR") && !std::freopen("/dev/null", "w", stderr)) return 77;
  std::string mode = av[1]; std::optional<world> W;
  if (mode == "walk") {
    std::ifstream in(av[2]); out o(av[3]); std::string op; long a, b, c; long k = 0;
    while (in >> op >> a >> b >> c) { if (op == "new") start(W, o, ++k % 3); else step(*W, o, op, a, b, c, 4); }
    return 0;
  }
  rng r(std::atol(av[2])); long runs = std::atol(av[3]), len = std::atol(av[4]); out o(av[5]);
  static const char * ops[] = {"get", "idx", "copy", "move", "del", "both", "call", "err", "num", "pair", "set", "alias", "mkt", "mkf", "fld", "bad", "wrap", "callw", "copyw", "delw", "drop", "top", "get", "idx", "fld", "mkt", "alias"};
  for (long k = 0; k < runs; ++k) {
    start(W, o, k % 4);
    for (long i = 0; i < len; ++i) {
      std::string op = ops[r.below(sizeof ops / sizeof *ops)]; long H = r.in(1, 4), K = r.in(1, 4), G = r.in(1, 3), G2 = r.in(1, 3), F = r.in(1, 2), w = r.in(1, 2), w2 = 3 - w;
      long holders = bool(W->top); for (int j = 1; j <= 4; ++j) holders += bool(W->h[j]); for (int j = 1; j <= 2; ++j) holders += W->wl[j];
      auto has = [&](long j) { return bool(W->h[j]); }; bool t = bool(W->top); long a = 0, b = 0, c = 0;
      if (op == "get") { if (!t) continue; a = H; b = G; }
      else if (op == "idx") { if (!has(K) || W->ar[K] != 1) continue; a = H; b = K; c = F; }
      else if (op == "copy" || op == "move") { if (H == K || !has(K)) continue; a = H; b = K; }
      else if (op == "del") { if (!has(H) || holders < 2) continue; a = H; }
      else if (op == "both") { if (!t) continue; a = H; b = G; }
      else if (op == "call") { if (!has(K) || W->ar[K] != 1) continue; a = H; b = K; }
      else if (op == "err" || op == "bad") { if (!t) continue; }
      else if (op == "num") { if (!has(H) || W->ar[H] != 1) continue; a = H; }
      else if (op == "pair") { if (!has(H)) continue; a = H; }
      else if (op == "set") { if (!t) continue; a = G; b = r.coin() ? 0 : r.in(10, 90); }
      else if (op == "alias") { if (!t || G == G2) continue; a = G; b = G2; }
      else if (op == "mkt" || op == "mkf") { if (!t) continue; auto al = W->alive(); long ob = 0; for (long q = 1; q <= 6 && !ob; ++q) { bool in = false; for (long x : al) in = in || x == q; if (!in) ob = q; } if (!ob) continue; a = G; b = ob; }
      else if (op == "fld") { if (!t) continue; a = G; b = F; c = G2; }
      else if (op == "wrap") { if (!has(K) || W->ar[K] != 1) continue; a = w; b = K; }
      else if (op == "callw") { if (!W->wl[w]) continue; a = w; }
      else if (op == "copyw") { if (!W->wl[w2]) continue; a = w; b = w2; }
      else if (op == "delw") { if (!W->wl[w] || holders < 2) continue; a = w; }
      else if (op == "drop") { if (!t || holders < 2 || !r.coin(3)) continue; }
      else if (op == "top") { if (!has(H)) continue; a = H; }
      step(*W, o, op, a, b, c, 4);
    }
  }
}
