// Every call form of every atomic operation on one value type, called
// sequentially on many values with the real std::atomic; prints each distinct
// (operation, value, operand) -> (stored, returned).
#include <bits/stdc++.h>
#include "ristra/atomics/src/atomics.h"
#include "atomics_ops.h"
using T = VALUE_TYPE;
using TB = table<T>;
struct tied { short key, tag; friend bool operator<(const tied & a, const tied & b) { return a.key < b.key; } };   // distinguishable ties
static tied mkt(long v) { return tied{short(v / 10), short(v % 10)}; }
static long valt(tied t) { return t.key * 10 + t.tag; }
static int width = sizeof(T) <= 2 && std::is_integral<T>::value ? int(sizeof(T)) * 8 : 0;
static bool uns = std::is_unsigned<T>::value;
struct fan { std::map<std::array<long, 2>, std::pair<long, std::string>> res; };
static std::map<std::tuple<std::string, long, long>, fan> all;
static std::string name(const entry & e) { return std::string(e.op) + "/" + e.own + "/" + e.req + "/" + e.form + (e.vol ? "/volatile" : "") + (e.nord ? "/orders" + std::to_string(e.nord) : ""); }
static void put(const char * op, long v, long x, long post, long ret, const std::string & who)
{ auto & f = all[std::make_tuple(std::string(op), v, x)]; auto & r = f.res[{post, ret}]; if (!r.first++) r.second = who; }
template <class A> long readall(A & a)      // every way of reading the value
{
  long v = VT<T>::val(T(a)); const A & c = a; volatile A & vo = a; const volatile A & cv = a;
  bool same = VT<T>::val(T(c)) == v && VT<T>::val(T(vo)) == v && VT<T>::val(T(cv)) == v && VT<T>::val(a.base().load()) == v && VT<T>::val(c.base().load()) == v
    && VT<T>::val(a.ref()) == v && VT<T>::val(c.ref()) == v && VT<T>::val(a.load()) == v && VT<T>::val(vo.base().load()) == v;
  return same ? v : vf::BAD;
}
int main(int argc, char ** argv)
{
  vf::out o(argv[1]); int deep = std::atoi(argv[2]); vf::rng g(std::atoll(argv[3]));
  static TB t; long calls = 0;
  std::vector<long> vals;
  bool fl = std::is_floating_point<T>::value, ptr = std::is_pointer<T>::value, arith = std::is_arithmetic<T>::value;
  if (width == 8) { if (uns) for (long v = 0; v < 256; v += deep ? 1 : 5) vals.push_back(v); else for (long v = -128; v < 128; v += deep ? 1 : 5) vals.push_back(v); vals.push_back(uns ? 254 : 126); vals.push_back(uns ? 1 : -127); vals.push_back(0); }
  else if (width == 16) { if (uns) vals = {0, 1, 2, 7, 255, 256, 300, 32767, 32768, 65534, 65535}; else vals = {-32768, -32767, -256, -9, -1, 0, 1, 2, 9, 255, 300, 32766, 32767}; }
  else if (uns) vals = {0, 1, 2, 3, 7, 12, 100, 4095, -1, -2, -3, -100};
  else vals = {-1000, -9, -8, -3, -2, -1, 0, 1, 2, 3, 5, 8, 9, 64, 1000, 30000};
  if (!arith && !ptr) vals = {-100, -9, -2, -1, 0, 1, 2, 3, 9, 100};
  for (int k = 0; k < (deep ? 20 : 4); ++k) vals.push_back(width == 8 ? (uns ? g.in(0, 255) : g.in(-128, 127)) : uns ? g.in(0, 3000) : g.in(-90, 90));
  for (auto & e : t.es) {
    std::vector<long> xs;
    if (!e.bin) xs = {0};
    else if (e.cls == SHIFT) xs = {0, 1, 2, 3, 7};
    else if (width == 8) xs = uns ? std::vector<long>{0, 1, 2, 3, 7, 16, 100, 127, 128, 200, 255} : std::vector<long>{-128, -100, -7, -2, -1, 0, 1, 2, 3, 50, 127};
    else if (uns) xs = {0, 1, 2, 3, 5, 16, 100, 2048};
    else xs = {-11, -3, -2, -1, 0, 1, 2, 3, 5, 16};
    for (long v : vals) for (long x : xs) {
      bool sgn = !uns && arith && !fl;
      if ((e.cls == DIVI || e.cls == INTG) && x == 0) continue;
      if (e.cls == DIVI && fl && v % x) continue;
      if (width == 0 && (e.cls == BITS || e.cls == SHIFT || (uns && (e.cls == DIVI || e.cls == INTG || e.cls == MINMAX))) && (v < 0 || x < 0)) continue;
      if (sgn && e.cls == SHIFT && v < 0 && !std::strcmp(e.op, "lshift") && width == 0) continue;
      if (width == 0 && e.cls == SHIFT && v > 100000) continue;
      if (ptr && (v < -5000 || v > 5000)) continue;
      if (ptr && e.cls == MINMAX && (x < -5000)) continue;
      if (width == 16 && e.cls == MULT && uns && v > 30000 && x > 30000) continue;   // promoted int overflows
      if (!arith && !ptr && e.cls == MULT && (v * x > 120 || v * x < -120)) continue;
      if (!arith && !ptr && sizeof(T) == 2 && (v + 16 > 120 || v - 16 < -120)) continue;
      if (sizeof(T) == 2 && !arith && !ptr && e.cls == MULT && (v * x > 100 || v * x < -100)) continue;
      void * var = TB::make(e.own, v);
      long r = e.f(var, x); long post = TB::read(var); TB::drop(var); ++calls;
      put(e.op, v, x, post, r, name(e));
    }
  }
  // construction, assignment, reading
  for (long v : vals) for (long x : {0L, 1L, 3L, 7L}) {
    if (ptr && (v < -5000 || v > 5000)) continue;
    RA::atomic<T, RA::strong> a(VT<T>::mk(v)); long r0 = readall(a); put("construct", v, 0, r0, r0, "constructor");
    T ret = (a = VT<T>::mk(x)); put("store", v, x, readall(a), VT<T>::val(ret), "operator=");
    RA::atomic<T, RA::lock, 3> b(VT<T>::mk(v)); volatile auto & vb = b; T ret2 = (vb = VT<T>::mk(x)); put("store", v, x, readall(b), VT<T>::val(ret2), "volatile operator=");
    b.ref() = VT<T>::mk(v); put("store", x, v, readall(b), v, "ref() =");
    if constexpr (std::is_same<T, int>::value || std::is_floating_point<T>::value) { std::ostringstream os; a = VT<T>::mk(x);
      os << a; put("print", x, 0, std::atol(os.str().c_str()), x, "operator<<"); }
    calls += 5;
  }
  // operands of a wider type, outside the range of the variable's: computed in the wider type, then stored
  if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value && sizeof(T) < 8) {
    std::vector<long> wide{-1, -3, -200, 200, 255, 256, 300, 511, -40000, 40000}; if (width == 0) wide = {-1, -3, -11, 7, 300};
    for (long v : vals) if (v >= 0 || width) for (long x : wide) {
      #define WI(fn, S, X) { RA::atomic<T, S> a{T(v)}; T r = RA::fn(a, X(x)); put(#fn, v, x, VT<T>::val(T(a)), VT<T>::val(r), #fn "(" #X ") " #S); RA::atomic<T> b{T(v)}; T r2 = b.template fn<S>(X(x)); put(#fn, v, x, VT<T>::val(T(b)), VT<T>::val(r2), #fn " member<" #S ">(" #X ")"); calls += 2; }
      #define WIS(fn) WI(fn, RA::strong, long) WI(fn, RA::weak, long) WI(fn, RA::strong::pun, long) WI(fn, RA::weak::pun, long) WI(fn, RA::lock, long) WI(fn, RA::serial, long) if (width) { WI(fn, RA::strong, int) WI(fn, RA::lock, int) }
      WIS(add) WIS(sub) if (std::labs(v * x) < 2000000000) { WIS(mul) } WIS(div) WIS(mod) WIS(min) WIS(max) if (width) { WIS(andeq) WIS(oreq) WIS(xoreq) }
    }
  }
  // operands of another type: halves for an int variable (plain int op double)
#ifdef MIXED
  for (long v : {-9L, -2L, -1L, 0L, 1L, 2L, 7L, 100L}) for (long h : {-7L, -3L, -1L, 1L, 3L, 5L, 9L, 24L}) {
    double x = h / 2.0; 
    #define MX(fn, S) { RA::atomic<int, S> a{int(v)}; int r = RA::fn(a, x); put("half_" #fn, v, h, int(a), r, #fn "(double) " #S); RA::atomic<int> b{int(v)}; int r2 = b.fn<S>(x); put("half_" #fn, v, h, int(b), r2, "member<" #S ">(double)"); calls += 2; }
    #define MXS(fn) MX(fn, RA::strong) MX(fn, RA::weak) MX(fn, RA::strong::pun) MX(fn, RA::weak::pun) MX(fn, RA::lock) MX(fn, RA::serial)
    #define TI(fn, S) { long x1 = (h + 8) * 10 + 1, v1 = (v < 20 ? v + 10 : 9) * 10 + 2; RA::atomic<tied, S> a{mkt(v1)}; tied r = RA::fn(a, mkt(x1)); put("tie_" #fn, v1, x1, valt(tied(a)), valt(r), #fn "(tied) " #S); \
      RA::atomic<tied> b{mkt(v1)}; tied r2 = b.fn<S>(mkt(x1)); put("tie_" #fn, v1, x1, valt(tied(b)), valt(r2), "member<" #S ">(tied)"); calls += 2; }
    #define TIS(fn) TI(fn, RA::strong) TI(fn, RA::weak) TI(fn, RA::strong::pun) TI(fn, RA::weak::pun) TI(fn, RA::lock) TI(fn, RA::serial)
    TIS(min) TIS(max)
    MXS(add) MXS(sub) MXS(mul) MXS(min) MXS(max)
  }
#endif
  for (auto & kv : all) for (auto & r : kv.second.res)
    o(vf::rec().s("op", std::get<0>(kv.first)).i("v", std::get<1>(kv.first)).i("x", std::get<2>(kv.first)).i("post", r.first[0]).i("ret", r.first[1]).i("w", width).b("u", uns && width).i("n", r.second.first).s("who", r.second.second));
  std::printf("{\"entries\":%zu,\"calls\":%ld,\"lines\":%ld}\n", t.es.size(), calls, o.n);
}
