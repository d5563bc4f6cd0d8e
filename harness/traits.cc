// Questions about types (spec/Traits.tla).  usage: traits SEED OUT
#include "vf.h"
#include <array>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <cxxabi.h>
#include <typeinfo>
#include "ristra/utils/type_traits.h"
#include "ristra/utils/template_helpers.h"
using namespace vf; namespace ru = ristra::utils;
static out * o;
static std::string qs(std::vector<std::string> v) { for (auto & x : v) x = q(x); return arr2(v); }
// a type with any set of members ------------------------------------------------------------
template <int I> struct none {};
struct m0 { using value_type = int; }; struct m1 { using size_type = unsigned; }; struct m2 { using allocator_type = std::allocator<int>; };
struct m3 { using iterator = int *; }; struct m4 { using const_iterator = const int *; };
struct m5 { unsigned size() const; }; struct m6 { int * begin(); }; struct m7 { int * end(); }; struct m8 { const int * cbegin() const; };
struct m9 { const int * cend() const; }; struct m10 { int * data(); };
static const char * mn[] = {"value_type", "size_type", "allocator_type", "iterator", "const_iterator", "size", "begin", "end", "cbegin", "cend", "data"};
template <unsigned M, int I, class T> using opt = std::conditional_t<(M >> I) & 1, T, none<I>>;
template <unsigned M> struct any_members : opt<M, 0, m0>, opt<M, 1, m1>, opt<M, 2, m2>, opt<M, 3, m3>, opt<M, 4, m4>, opt<M, 5, m5>, opt<M, 6, m6>, opt<M, 7, m7>, opt<M, 8, m8>, opt<M, 9, m9>, opt<M, 10, m10> {};
static void say_members(std::vector<std::string> const & f, int c, int m, int i, int w) { (*o)(rec().s("op", "members").raw("f", qs(f)).i("cont", c).i("min", m).i("iter", i).i("out", w)); }
template <class T> static void members(std::vector<std::string> const & f)
{
  say_members(f, ru::is_container<T>::value == ru::is_container_v<T> ? ru::is_container<T>::value : 9, ru::is_minimal_container<T>::value == ru::is_minimal_container_v<T> ? ru::is_minimal_container<T>::value : 9,
    ru::is_iterator<T>::value == ru::is_iterator_v<T> ? ru::is_iterator<T>::value : 9, ru::is_ostream_writeable<T>::value == ru::is_ostream_writeable_v<T> ? ru::is_ostream_writeable<T>::value : 9);
}
static std::vector<std::string> names_of(unsigned m) { std::vector<std::string> f; for (int i = 0; i < 11; ++i) if ((m >> i) & 1) f.push_back(mn[i]); return f; }
template <unsigned M> static void subset() { members<any_members<M>>(names_of(M)); }
template <unsigned... M> static void subsets(std::integer_sequence<unsigned, M...>) { (subset<M>(), ...); (subset<M + 1024>(), ...); }
struct i0 { using difference_type = long; }; struct i1 { using pointer = int *; }; struct i2 { using reference = int &; }; struct i3 { using value_type = int; }; struct i4 { using iterator_category = std::forward_iterator_tag; };
template <unsigned M> struct any_iter : opt<M, 0, i0>, opt<M, 1, i1>, opt<M, 2, i2>, opt<M, 3, i3>, opt<M, 4, i4> {};
template <unsigned M> static void iter() { static const char * n[] = {"difference_type", "pointer", "reference", "value_type", "iterator_category"}; std::vector<std::string> f; for (int i = 0; i < 5; ++i) if ((M >> i) & 1) f.push_back(n[i]); members<any_iter<M>>(f); }
template <unsigned... M> static void iters(std::integer_sequence<unsigned, M...>) { (iter<M>(), ...); }
struct printable {}; std::ostream & operator<<(std::ostream &, printable const &); struct derived : printable {};
// a type with any set of call and subscript operators -----------------------------------------
struct c0 { void operator()(); }; struct c1 { int operator()(int); }; struct c2 { double operator()(double) ; }; struct c3 { void operator()(std::string); }; struct c4 { int operator()(int, std::string); }; struct c5 { void operator()(double, double); };
template <int I> struct nocall { struct secret {}; void operator()(secret, secret, secret); };   // never selected; keeps the using declarations valid
template <unsigned M, int I, class T> using copt = std::conditional_t<(M >> I) & 1, T, nocall<I>>;
template <unsigned M> struct calls : copt<M, 0, c0>, copt<M, 1, c1>, copt<M, 2, c2>, copt<M, 3, c3>, copt<M, 4, c4>, copt<M, 5, c5> {
  using copt<M, 0, c0>::operator(); using copt<M, 1, c1>::operator(); using copt<M, 2, c2>::operator(); using copt<M, 3, c3>::operator(); using copt<M, 4, c4>::operator(); using copt<M, 5, c5>::operator(); };
static const char * sn[] = {"[]", "[\"i\"]", "[\"d\"]", "[\"s\"]", "[\"i\",\"s\"]", "[\"d\",\"d\"]"};
template <class T> static const char * tn() { return std::is_same_v<std::decay_t<T>, int> ? "i" : std::is_same_v<std::decay_t<T>, double> ? "d" : "s"; }
static void say_call(unsigned m, std::initializer_list<const char *> a, int r) { std::vector<std::string> s; for (int i = 0; i < 6; ++i) if ((m >> i) & 1) s.push_back(sn[i]);
  (*o)(rec().s("op", "call").raw("s", arr2(s)).raw("a", qs(std::vector<std::string>(a.begin(), a.end()))).i("r", r)); }
template <unsigned M, class... A> static void call() { say_call(M, {tn<A>()...}, ru::has_call_operator<calls<M>, A...>::value); }
template <unsigned M> static void callset()
{ using S = std::string; using D = double;
  call<M>(); call<M, int>(); call<M, D>(); call<M, S>(); call<M, int, int>(); call<M, int, D>(); call<M, int, S>(); call<M, D, int>(); call<M, D, D>(); call<M, D, S>(); call<M, S, int>(); call<M, S, D>(); call<M, S, S>(); call<M, int const &>(); call<M, S const &>(); call<M, D &, S &>(); }
template <unsigned... M> static void callsets(std::integer_sequence<unsigned, M...>) { (callset<M>(), ...); }
struct x0 { int & operator[](int); }; struct x1 { int operator[](std::string) const; }; template <int I> struct noix { struct secret {}; int operator[](secret); };
template <unsigned M> struct ixs : std::conditional_t<M & 1, x0, noix<0>>, std::conditional_t<M & 2, x1, noix<1>> { using std::conditional_t<M & 1, x0, noix<0>>::operator[]; using std::conditional_t<M & 2, x1, noix<1>>::operator[]; };
template <class T, class A> static void index(std::vector<std::string> s) { (*o)(rec().s("op", "index").raw("s", qs(s)).s("a", tn<A>()).i("r", ru::has_subscript_operator<T, A>::value)); }
template <class T> static void index3(std::vector<std::string> s) { index<T, int>(s); index<T, double>(s); index<T, std::string>(s); index<T, std::string const &>(s); index<T, int &>(s); }
// operators that only lvalues, or only temporaries, or only changeable objects offer
struct callL { void operator()(int) &; int operator[](int) &; }; struct callR { void operator()(int) &&; int operator[](int) &&; }; struct callM { void operator()(int); int operator[](int); };
struct outL {}; std::ostream & operator<<(std::ostream &, outL &); struct outR {}; std::ostream & operator<<(std::ostream &, outR &&); struct outC {}; std::ostream & operator<<(std::ostream &, outC const &);
enum plainenum { e0 }; enum class scoped : int { e1 };
template <class T> static void as(bool offers)
{ std::vector<std::string> c, x; if (offers) { c.push_back("[\"i\"]"); x.push_back("i"); } (*o)(rec().s("op", "call").raw("s", arr2(c)).raw("a", qs({"i"})).i("r", ru::has_call_operator<T, int>::value)); index<T, int>(x); }
struct callA { void operator()(); }; struct callB { void operator()(int) const; void operator()(std::string); }; struct callC : callA {}; struct nocallA { void call(); }; struct nocallB : nocallA { int operator[](int); };
struct callT { template <class T> void operator()(T); };
template <class T> static void callable(std::vector<std::string> sigs) { (*o)(rec().s("op", "callable").raw("s", arr2(sigs)).i("r", ru::is_callable<T>::value == ru::is_callable_v<T> ? ru::is_callable<T>::value : 9)); }
// spelled types -----------------------------------------------------------------------------------
template <class T> static std::string base()
{ using D = std::decay_t<T>; return std::is_same_v<D, int> ? "i" : std::is_same_v<D, long> ? "l" : std::is_same_v<D, char> ? "c" : std::is_same_v<D, bool> ? "b" : std::is_same_v<D, unsigned> ? "u" : std::is_same_v<D, double> ? "d" : std::is_same_v<D, std::string> ? "s" : std::is_same_v<D, float> ? "f" : std::is_same_v<D, int *> ? "p" : std::is_same_v<D, plainenum> ? "e" : std::is_same_v<D, scoped> ? "E" : "?"; }
template <class T> static std::string deco()
{ return std::is_same_v<T, std::reference_wrapper<int>> ? "wrap" : std::string(std::is_const_v<std::remove_reference_t<T>> ? "const" : "") + (std::is_lvalue_reference_v<T> ? "&" : std::is_rvalue_reference_v<T> ? "&&" : ""); }
template <class T> static std::string spell() { return qs({base<T>(), deco<T>()}); }
static void say_types(const char * op, std::string t, std::vector<std::string> ts, int r) { (*o)(rec().s("op", op).raw("t", t).raw("ts", arr2(ts)).i("r", r)); }
template <class T, class... Ts> static void same() { say_types("same", spell<T>(), {spell<Ts>()...}, ru::are_type_t<T, Ts...>::value); }
template <class... Ts> static void integral() { say_types("integral", "0", {spell<Ts>()...}, (ru::are_integral<Ts...>::value == ru::are_integral_v<Ts...> ? ru::are_integral<Ts...>::value : 9)); }
template <class A, class B> static void pairs2()
{ same<A, B>(); same<A, A, B>(); same<A, B, A>(); same<A const &, B, B>(); same<A, B const, A &, A &&>(); same<A, A, A, A, B &>(); same<A &, A const &, A>(); integral<A, B>(); integral<B, A, A>(); integral<A>(); integral<A, A, A, B>(); }
template <class A, class B> static void longer() { same<A, B, A, A, A, A>(); same<A, A, B, A, A, A, A>(); same<A, B, A, A, A, A, A, A>(); same<A, A, A, B, A, A, A, A, A>(); same<A, A, A, A, A, A, A, A, B>(); integral<B, A, A, A, A, A>(); integral<A, A, A, A, A, B>(); integral<A, A, B, A, A, A, A, A>(); }
template <class A, class... B> static void row() { (pairs2<A, B>(), ...); (longer<A, B>(), ...); }
template <class... A> static void table() { (row<A, A...>(), ...); }
template <class T> static void decay(const char * d, const char * b = nullptr) { using R = ru::special_decay_t<T>; (*o)(rec().s("op", "decay").raw("t", qs({b ? b : base<T>(), d})).raw("r", spell<R>())); }
// values ------------------------------------------------------------------------------------------
static rng r(1);
template <std::size_t N> static void filled()
{
  int v = r.in(-99, 99); auto a = ru::make_array<int, N>(v); static_assert(std::is_same_v<decltype(a), std::array<int, N>>); (*o)(rec().s("op", "filled").i("n", N).i("v", v).a("r", a));
  auto b = ru::make_array<double, N>(v); (*o)(rec().s("op", "filled").i("n", N).i("v", v).a("r", b));
  if constexpr (N > 0) { auto c = ru::fill<N>::apply(long(v)); (*o)(rec().s("op", "filled").i("n", N).i("v", v).a("r", c)); }
}
template <class... T> static void product(T... x) { (*o)(rec().s("op", "product").a("s", std::vector<long>{long(x)...}).i("r", long(ru::multiply(x...)))); }
template <class... T> static void tie()
{
  std::tuple<T...> t{T(r.in(-99, 99))...};
  std::apply([&](auto & f, auto &... x) {
    auto c = ru::ctie(f, x...); bool same = true; (void)same;
    std::vector<const void *> ad, ad2{&f, &x...}; std::vector<long> seen; bool rc = true;
    std::apply([&](auto &... y) { (ad.push_back(&y), ...); }, c); same = ad == ad2;
    long nf = r.in(100, 199); std::get<0>(c) = nf; ((x = x + 1), ...);
    std::apply([&](auto &... y) { (seen.push_back(long(y)), ...); }, c);
    std::apply([&](auto &, auto &... y) { ((rc = rc && std::is_const_v<std::remove_reference_t<decltype(y)>>), ...); }, c);
    using C = decltype(c); bool fc = std::is_const_v<std::remove_reference_t<std::tuple_element_t<0, C>>>;
    (*o)(rec().s("op", "tie").i("same", same).a("s", std::vector<long>{long(f), long(x)...}).a("seen", seen).i("firstconst", fc).i("restconst", rc));
  }, t);
}
template <std::size_t N> static void counter() { using C = ru::select_counter_t<N>; constexpr std::size_t mx = std::numeric_limits<C>::max();
  (*o)(rec().s("op", "counter").i("holds", mx >= N).i("signed", std::is_signed_v<C>).i("small", N < (std::size_t(1) << 31) - 1)); }
int main(int, char ** av)
{
  r = rng(std::atol(av[1])); out oo(av[2]); o = &oo;
  subsets(std::make_integer_sequence<unsigned, 1024>()); iters(std::make_integer_sequence<unsigned, 32>());
  std::vector<std::string> all(mn, mn + 11), outp{"<<"}, lst(all); lst.pop_back();
  members<std::vector<int>>(all); members<std::vector<std::string>>(all); members<std::list<int>>(lst); members<std::deque<double>>(lst); members<std::set<int>>(lst); members<std::map<int, int>>(lst);
  { auto s = all; s.push_back("<<"); members<std::string>(s); }
  { auto a = all; a.erase(a.begin() + 2); members<std::array<int, 3>>(a); members<std::array<std::string, 0>>(a); }
  { std::vector<std::string> it{"difference_type", "pointer", "reference", "value_type", "iterator_category"}; members<std::vector<int>::iterator>(it); members<std::list<int>::const_iterator>(it); members<std::map<int, int>::iterator>(it); members<std::back_insert_iterator<std::vector<int>>>(it); auto p = it; p.push_back("<<"); members<int *>(p); members<const double *>(p); }
  members<int>(outp); members<double>(outp); members<printable>(outp); members<derived>(outp); members<std::tuple<int>>({}); members<nocallA>({});
  callsets(std::make_integer_sequence<unsigned, 64>());
  callable<callA>({"[]"}); callable<callB>({"[\"i\"]", "[\"s\"]"}); callable<callC>({"[]"}); callable<callT>({"[\"s\"]"}); callable<nocallA>({}); callable<nocallB>({}); callable<std::vector<int>>({}); callable<std::string>({}); callable<std::tuple<int>>({}); callable<std::array<double, 2>>({}); callable<std::map<int, int>>({});
  callable<std::function<void()>>({"[]"}); callable<std::function<int(int, std::string)>>({"[\"i\",\"s\"]"}); callable<std::less<int>>({"[\"i\",\"i\"]"}); callable<int>({}); callable<double>({}); { auto f = [](int) {}; callable<decltype(f)>({"[\"i\"]"}); auto g = [](auto) {}; callable<decltype(g)>({"[\"s\"]"}); }
  index3<ixs<0>>({}); index3<ixs<1>>({"i"}); index3<ixs<2>>({"s"}); index3<ixs<3>>({"i", "s"}); index3<std::vector<int>>({"i"}); index3<std::map<std::string, int>>({"s"}); index3<std::map<int, int>>({"i"}); index3<std::list<int>>({}); index3<std::deque<int> const &>({"i"}); index3<std::tuple<int>>({}); index3<int>({});
  index<int *, int>({"i"}); index<int *, std::string>({"i"}); index<std::unique_ptr<int[]>, int>({"i"}); index<std::unique_ptr<int>, int>({});
  table<int, long, char, bool, unsigned, double, float, std::string>(); same<int>(); same<int *, int[3], int *>(); same<int *, int *, int>(); integral<>();
  decay<int>(""); decay<int const &>(""); decay<double &&>(""); decay<int[4]>(""); decay<std::string &>(""); decay<std::reference_wrapper<int>>("wrap", "i"); decay<std::reference_wrapper<std::string>>("wrap", "s"); decay<std::reference_wrapper<const double>>("wrapconst", "d");
  using RW = ru::reference_wrapper_t<std::tuple<int, std::string, const double>>;
  oo(rec().s("op", "same").raw("t", qs({"i", ""})).raw("ts", arr2({qs({std::is_same_v<RW, std::tuple<int &, std::string &, const double &>> ? "i" : "other", ""})})).i("r", 1));
  as<callL>(false); as<callL &>(true); as<callR>(true); as<callR &>(false); as<callM>(true); as<callM &>(true); as<callM const>(false); as<callM const &>(false);
  members<outL>({}); members<outL &>({"<<"}); members<outC>({"<<"}); members<outC &>({"<<"}); members<outC const>({"<<"}); members<outR>({"<<"}); members<outR &>({}); members<printable const &>({"<<"});
  pairs2<int, plainenum>(); pairs2<scoped, int>(); integral<plainenum>(); integral<scoped>(); pairs2<plainenum, scoped>();
  filled<0>(); filled<1>(); filled<2>(); filled<3>(); filled<7>(); filled<16>();
  product(); product(5u); product(2, 3); product(2ul, 3, 4l); product(7, 0, 5); product(1, 2, 3, 4, 5, 6); product(std::size_t(65536), 4u, 3);
  for (int k = 0; k < 20; ++k) { product(r.below(20), r.below(20)); product(r.below(12), r.below(12), r.below(12), r.below(12)); tie<int>(); tie<int, double>(); tie<double, int, long>(); tie<long, long, int, double>(); }
  counter<0>(); counter<1>(); counter<127>(); counter<128>(); counter<255>(); counter<256>(); counter<32767>(); counter<32768>(); counter<65535>(); counter<65536>(); counter<2147483646>(); counter<2147483647>(); counter<2147483648u>(); counter<4294967295u>(); counter<4294967296ul>();
}
