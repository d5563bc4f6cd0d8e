// Table of every call form of every atomic operation, for one value type.
#pragma once
#include "vf.h"
namespace RA = ristra::atomics;
static std::memory_order g1 = std::memory_order_seq_cst, g2 = std::memory_order_seq_cst;

// ---- value types ---------------------------------------------------------------
template <class Rep> struct pairs {            // both halves change together
  Rep a, b;
  pairs() = default;
  pairs(long v) : a(Rep(v)), b(Rep(-v)) {}
  pairs & operator+=(pairs o) { a += o.a; b += o.b; return *this; }
  pairs & operator-=(pairs o) { a -= o.a; b -= o.b; return *this; }
  pairs & operator*=(pairs o) { a *= o.a; b = -a; return *this; }
  pairs & operator++() { ++a; --b; return *this; }  pairs operator++(int) { pairs t = *this; ++*this; return t; }
  pairs & operator--() { --a; ++b; return *this; }  pairs operator--(int) { pairs t = *this; --*this; return t; }
  friend bool operator<(pairs x, pairs y) { return x.a < y.a; }
  friend bool operator==(pairs x, pairs y) { return x.a == y.a && x.b == y.b; }  friend bool operator!=(pairs x, pairs y) { return !(x == y); }
};
#ifdef VF_SHIM
struct yld {                                   // every access to a shared object can be interrupted
  int v;
  void pt() const volatile { if (!shim::on_stack(this)) shim::point(); }
  int get() const volatile { pt(); return v; }
  void set(int x) volatile { pt(); v = x; }
  yld() = default;
  yld(long x) : v(int(x)) {}
  yld(const yld & o) : v(o.get()) {}
  yld(const volatile yld & o) : v(o.get()) {}
  yld & operator=(const yld & o) { set(o.get()); return *this; }
  volatile yld & operator=(const volatile yld & o) volatile { set(o.get()); return *this; }
  volatile yld & operator=(const volatile yld && o) volatile { set(o.get()); return *this; }
  volatile yld & operator+=(const yld & o) volatile { set(get() + o.v); return *this; }
  volatile yld & operator-=(const yld & o) volatile { set(get() - o.v); return *this; }
  volatile yld & operator*=(const yld & o) volatile { set(get() * o.v); return *this; }
  volatile yld & operator++() volatile { set(get() + 1); return *this; }
  yld operator++(int) volatile { int t = get(); set(t + 1); return yld(t); }
  volatile yld & operator--() volatile { set(get() - 1); return *this; }
  yld operator--(int) volatile { int t = get(); set(t - 1); return yld(t); }
  friend bool operator<(const volatile yld & x, const volatile yld & y) { return x.get() < y.get(); }
  friend bool operator==(const volatile yld & x, const volatile yld & y) { return x.get() == y.get(); }
  friend bool operator!=(const volatile yld & x, const volatile yld & y) { return x.get() != y.get(); }
};
#endif
template <class T> struct VT {                 // arithmetic types
  static T mk(long v) { return T(v); }
  static long val(T v) { return std::is_floating_point<T>::value ? vf::enc(double(v)) : std::is_unsigned<T>::value && sizeof(T) >= 4 ? vf::enci((long long)(typename std::conditional<sizeof(T) == 8, long long, int>::type)(v)) : vf::enci((long long)v); }
  using X = T;
};
static int g_cells[20001];
template <> struct VT<int *> { static int * mk(long v) { return g_cells + 10000 + v; } static long val(int * p) { return p - (g_cells + 10000); } using X = std::ptrdiff_t; };
template <class R> struct VT<pairs<R>> { static pairs<R> mk(long v) { return pairs<R>(v); } static long val(pairs<R> p) { return p.b == R(-p.a) ? long(p.a) : vf::BAD; } using X = pairs<R>; };
#ifdef VF_SHIM
template <> struct VT<yld> { static yld mk(long v) { return yld(v); } static long val(const yld & p) { return p.v; } using X = yld; };
#endif

// ---- operations ------------------------------------------------------------------
enum cls { ADDSUB, MULT, DIVI, INTG, BITS, SHIFT, MINMAX };
template <class T> constexpr bool supports(int c)
{
  return std::is_integral<T>::value ? true
       : std::is_floating_point<T>::value ? (c == ADDSUB || c == MULT || c == DIVI || c == MINMAX)
       : std::is_pointer<T>::value ? (c == ADDSUB || c == MINMAX) : (c == ADDSUB || c == MULT || c == MINMAX);
}
#define OPF(fn) \
  template <class S, class A, class... X> static auto f0(A & a, X... x) { return RA::fn<S>(a, x...); } \
  template <class S, class A, class... X> static auto f1(A & a, X... x) { return RA::fn<S>(a, x..., g1); } \
  template <class S, class A, class... X> static auto f2(A & a, X... x) { return RA::fn<S>(a, x..., g1, g2); } \
  template <class S, class A, class... X> static auto M0(A & a, X... x) { return a.template fn<S>(x...); } \
  template <class S, class A, class... X> static auto M1(A & a, X... x) { return a.template fn<S>(x..., g1); } \
  template <class S, class A, class... X> static auto M2(A & a, X... x) { return a.template fn<S>(x..., g1, g2); } \
  template <class A, class... X> static auto m0(A & a, X... x) { return a.fn(x...); } \
  template <class A, class... X> static auto m1(A & a, X... x) { return a.fn(x..., g1); } \
  template <class A, class... X> static auto m2(A & a, X... x) { return a.fn(x..., g1, g2); } \
  template <class A, class... X> static auto p0(A & a, X... x) { return RA::fn(a, x...); } \
  template <class A, class... X> static auto p1(A & a, X... x) { return RA::fn(a, x..., g1); } \
  template <class A, class... X> static auto p2(A & a, X... x) { return RA::fn(a, x..., g1, g2); }
#define BIN(fn, c, iscpp, hasop, opexpr) \
  struct OP_##fn { static constexpr const char * name = #fn; static constexpr int K = c; static constexpr bool bin = true, cppok = iscpp, oper = hasop; OPF(fn) \
    template <class A, class X> static auto o0(A & a, X x) { return (opexpr); } };
#define UN(fn, hasop, opexpr) \
  struct OP_##fn { static constexpr const char * name = #fn; static constexpr int K = ADDSUB; static constexpr bool bin = false, cppok = true, oper = hasop; OPF(fn) \
    template <class A> static auto o0(A & a) { return (opexpr); } };
BIN(add, ADDSUB, true, true, a += x) BIN(sub, ADDSUB, true, true, a -= x) BIN(mul, MULT, false, true, a *= x) BIN(div, DIVI, false, true, a /= x)
BIN(mod, INTG, false, true, a %= x) BIN(lshift, SHIFT, false, true, a <<= x) BIN(rshift, SHIFT, false, true, a >>= x)
BIN(andeq, BITS, true, true, a &= x) BIN(oreq, BITS, true, true, a |= x) BIN(xoreq, BITS, true, true, a ^= x)
BIN(min, MINMAX, false, false, 0) BIN(max, MINMAX, false, false, 0)
UN(inc, false, 0) UN(preinc, true, ++a) UN(postinc, true, a++) UN(dec, false, 0) UN(predec, true, --a) UN(postdec, true, a--)

// ---- schemes -----------------------------------------------------------------------
template <class S> struct SN;
template <> struct SN<RA::cpp> { static constexpr const char * n = "cpp"; };
template <> struct SN<RA::strong> { static constexpr const char * n = "strong"; };
template <> struct SN<RA::weak> { static constexpr const char * n = "weak"; };
template <> struct SN<RA::strong::pun> { static constexpr const char * n = "strong_pun"; };
template <> struct SN<RA::weak::pun> { static constexpr const char * n = "weak_pun"; };
template <> struct SN<RA::lock> { static constexpr const char * n = "lock"; };
template <> struct SN<RA::serial> { static constexpr const char * n = "serial"; };
template <class S> constexpr bool is_cas() { return !std::is_same<S, RA::cpp>::value && !std::is_same<S, RA::lock>::value && !std::is_same<S, RA::serial>::value; }

struct entry { const char *op, *own, *req, *form; bool vol, bin; int nord, cls; long (*f)(void *, long); };
template <class T> struct table {
  std::vector<entry> es;
  template <class OP> static typename std::conditional<OP::K == SHIFT, int, typename std::conditional<OP::K == MINMAX, T, typename VT<T>::X>::type>::type operand(long x)
  { if constexpr (OP::K == SHIFT) return int(x); else if constexpr (OP::K == MINMAX) return VT<T>::mk(x); else if constexpr (std::is_pointer<T>::value) return x; else return VT<T>::mk(x); }
#define CALL(which, ...) +[](void * p, long x) -> long { V & a = *static_cast<V *>(p); (void)x; if constexpr (OP::bin) { return VT<T>::val(OP::which(a, operand<OP>(x))); } else { return VT<T>::val(OP::which(a)); } }
#define CALLS(which, ...) +[](void * p, long x) -> long { V & a = *static_cast<V *>(p); (void)x; if constexpr (OP::bin) { return VT<T>::val(OP::template which<S>(a, operand<OP>(x))); } else { return VT<T>::val(OP::template which<S>(a)); } }
  // own: the scheme of the variable's type; S: the scheme asked for (char: none)
  template <class V, class OWN, class S, class OP, bool vol> void forms()
  {
    using R = typename std::conditional<std::is_same<S, char>::value, OWN, S>::type;
    if constexpr (supports<T>(OP::K)) {
      constexpr bool islockser = std::is_same<R, RA::lock>::value || std::is_same<R, RA::serial>::value;
      constexpr bool plaint = std::is_arithmetic<T>::value || std::is_pointer<T>::value;
#ifdef VF_SHIM
      constexpr bool isy = std::is_same<T, yld>::value;
#else
      constexpr bool isy = false;
#endif
      if constexpr ((std::is_same<R, RA::cpp>::value ? OP::cppok && plaint && !std::is_floating_point<T>::value : true)
                    && !(vol && islockser && !plaint && !isy) && !(isy && !islockser)) {
        constexpr int maxord = is_cas<R>() ? 2 : std::is_same<R, RA::cpp>::value && OP::bin ? 1 : 0;
        const char *own = SN<OWN>::n, *req = SN<R>::n;
        auto put = [&](const char * form, int nord, long (*f)(void *, long)) { es.push_back({OP::name, own, req, form, vol, OP::bin, nord, OP::K, f}); };
        if constexpr (std::is_same<S, char>::value) {
          put("free", 0, CALL(p0)); put("member", 0, CALL(m0));
          if constexpr (maxord >= 1) { put("free", 1, CALL(p1)); put("member", 1, CALL(m1)); }
          if constexpr (maxord >= 2) { put("free", 2, CALL(p2)); put("member", 2, CALL(m2)); }
          if constexpr (OP::oper) put("operator", 0, CALL(o0));
        } else {
          put("free<S>", 0, CALLS(f0)); put("member<S>", 0, CALLS(M0));
          if constexpr (maxord >= 1) { put("free<S>", 1, CALLS(f1)); put("member<S>", 1, CALLS(M1)); }
          if constexpr (maxord >= 2) { put("free<S>", 2, CALLS(f2)); put("member<S>", 2, CALLS(M2)); }
        }
      }
    }
  }
  template <class OWN, class S, bool vol> void ops()
  {
    using V0 = RA::atomic<T, OWN>;
    using V = typename std::conditional<vol, volatile V0, V0>::type;
#define ONE(n) forms<V, OWN, S, OP_##n, vol>();
    ONE(add) ONE(sub) ONE(mul) ONE(div) ONE(mod) ONE(lshift) ONE(rshift) ONE(andeq) ONE(oreq) ONE(xoreq) ONE(min) ONE(max)
    ONE(inc) ONE(preinc) ONE(postinc) ONE(dec) ONE(predec) ONE(postdec)
  }
  template <class OWN, class S> void both() { ops<OWN, S, false>(); ops<OWN, S, true>(); }
  template <class OWN> void overrides()
  {
    both<OWN, RA::strong>(); both<OWN, RA::weak>(); both<OWN, RA::cpp>(); both<OWN, RA::lock>(); both<OWN, RA::serial>();
    if constexpr (sizeof(T) <= 8) { both<OWN, RA::strong::pun>(); both<OWN, RA::weak::pun>(); }
  }
  table()
  {
    both<RA::strong, char>(); both<RA::weak, char>(); both<RA::cpp, char>(); both<RA::lock, char>(); both<RA::serial, char>();
    if constexpr (sizeof(T) <= 8) { both<RA::strong::pun, char>(); both<RA::weak::pun, char>(); }
    overrides<RA::strong>();
    if constexpr (std::is_same<T, int>::value) { overrides<RA::lock>(); overrides<RA::cpp>(); }
    if constexpr (!std::is_same<T, int>::value) overrides<RA::lock>();
  }
  // the variable: a heap object of the right static type
  static void * make(const char * own, long v)
  {
    std::string o = own; T t = VT<T>::mk(v);
    if (o == "strong") return new RA::atomic<T, RA::strong>(t);
    if (o == "weak") return new RA::atomic<T, RA::weak>(t);
    if (o == "cpp") return new RA::atomic<T, RA::cpp>(t);
    if (o == "lock") return new RA::atomic<T, RA::lock>(t);
    if (o == "serial") return new RA::atomic<T, RA::serial>(t);
    if (o == "strong_pun") return new RA::atomic<T, RA::strong::pun>(t);
    return new RA::atomic<T, RA::weak::pun>(t);
  }
  static long read(void * p) { return VT<T>::val(T(*static_cast<RA::atomic<T, RA::strong> *>(p))); }
  static void drop(void * p) { ::operator delete(p); }
};
