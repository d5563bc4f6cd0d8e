// Stand-ins for std::atomic and std::mutex with which /repo's atomics.h is
// compiled: every access to shared memory becomes a scheduling point of a
// deterministic scheduler, and the accesses are recorded.  Threads are real OS
// threads, exactly one of which runs at a time.
#pragma once
#include <bits/stdc++.h>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace shim {
enum kind { LOAD, STORE, RMW, CASFAIL, LOCK, UNLOCK };
struct access { int k; int ord; bool weak, punned, fetch; };
struct vthread {
  int id = -1; char *lo = nullptr, *hi = nullptr;   // its stack
  std::vector<access> log;
  const void * blocked = nullptr; bool done = true, started = false;
  std::atomic<int> baton{0};
};
constexpr int MAXT = 4;
inline vthread & slot(int i) { static vthread s[MAXT + 1]; return s[i]; }   // slot MAXT: the main thread
inline thread_local vthread * self = nullptr;
inline bool on_stack(const volatile void * p)
{ for (int i = 0; i <= MAXT; ++i) { auto & v = slot(i); if ((char*)p >= v.lo && (char*)p < v.hi) return true; } return false; }
inline void set_stack(vthread & v)
{ pthread_attr_t a; void * b; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &b, &n); v.lo = (char*)b; v.hi = v.lo + n; pthread_attr_destroy(&a); }

// ---- the scheduler ----------------------------------------------------------
struct choice { int n, pick; };
struct sched {
  bool on = false; int nthreads = 0, cur = -1; long steps = 0;
  int preempt_left = 0, spurious_left = 0, max_preempt = 0, max_spurious = 0;
  std::vector<choice> path; size_t pos = 0;
  std::vector<int> guide; size_t gpos = 0; bool guided = false; // thread ids; 10+t: t, and its weak CAS fails
  std::function<int()> strategy;                                // if set: picks the thread
  bool force_spurious = false;
  std::string verdict; long long schedules = 0, total_steps = 0;
  int choose(int n)
  {
    if (n <= 1) return 0;
    if (pos == path.size()) path.push_back({n, 0});
    if (path[pos].n != n) { std::fprintf(stderr, "nondeterministic schedule\n"); _exit(77); }
    return path[pos++].pick;
  }
  bool next_path() { while (!path.empty() && path.back().pick + 1 >= path.back().n) path.pop_back();
                     if (path.empty()) return false; ++path.back().pick; return true; }
};
inline sched & S() { static sched s; return s; }
inline void futex_wait(std::atomic<int> & a) { while (a.load() == 0) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0); }
inline void futex_wake(std::atomic<int> & a) { a.store(1); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
inline bool enabled(int t) { auto & v = slot(t); return v.started && !v.done && !v.blocked; }
inline int pick_next(bool must_leave)
{
  auto & s = S();
  int e[MAXT], n = 0; bool cur_ok = !must_leave && enabled(s.cur);
  if (cur_ok) e[n++] = s.cur;
  for (int t = 0; t < s.nthreads; ++t) if (t != s.cur && enabled(t)) e[n++] = t;
  if (n == 0) return -1;
  if (s.strategy) { int t = s.strategy(); for (int k = 0; k < n; ++k) if (e[k] == t) return t; return e[0]; }
  if (s.guided) {
    while (s.gpos < s.guide.size()) { int g = s.guide[s.gpos++], t = g % 10; for (int k = 0; k < n; ++k) if (e[k] == t) { s.force_spurious = g >= 10; return t; } }
    return e[0];
  }
  if (cur_ok && s.preempt_left <= 0) return s.cur;
  int k = s.choose(n);
  if (cur_ok && k > 0) --s.preempt_left;
  return e[k];
}
[[noreturn]] inline void stuck(const char * what) { std::fprintf(stderr, "%s in scheduled execution\n", what); std::fflush(nullptr); _exit(3); }
inline void handoff(int t)
{
  auto & s = S();
  if (t == s.cur) return;
  s.cur = t; vthread * me = self; futex_wake(slot(t).baton);
  if (!me->done) futex_wait(me->baton);
}
inline void point()
{
  auto & s = S();
  if (!s.on || !self || self->id == MAXT) return;
  if (++s.steps > 20000) stuck("livelock");
  int t = pick_next(false);
  if (t < 0) stuck("deadlock");
  handoff(t);
}
inline void block_on(const void * m)
{
  self->blocked = m; int t = pick_next(true);
  if (t < 0) stuck("deadlock");
  handoff(t);
}
inline void release(const void * m) { for (int t = 0; t < S().nthreads; ++t) if (slot(t).blocked == m) slot(t).blocked = nullptr; }
inline bool spurious()
{
  auto & s = S();
  if (!s.on) { if (s.force_spurious) { s.force_spurious = false; return true; } return false; }
  if (s.guided || s.strategy) { bool f = s.force_spurious; s.force_spurious = false; return f; }
  if (s.spurious_left <= 0) return false;
  if (s.choose(2) == 1) { --s.spurious_left; return true; }
  return false;
}
// persistent workers
struct worker { pthread_t th; std::function<void()> body; std::atomic<int> go{0}; };
inline worker & W(int i) { static worker w[MAXT]; return w[i]; }
inline std::atomic<int> & all_done() { static std::atomic<int> a{0}; return a; }
inline void * worker_main(void * p)
{
  int i = int((long)p); self = &slot(i); self->id = i; set_stack(*self);
  futex_wake(all_done());
  for (;;) {
    futex_wait(W(i).go);
    futex_wait(self->baton);
    W(i).body();
    self->done = true;
    int t = pick_next(true);
    if (t < 0) {
      for (int k = 0; k < S().nthreads; ++k) if (!slot(k).done) stuck("deadlock");
      futex_wake(all_done());
    } else { S().cur = t; futex_wake(slot(t).baton); }
  }
}
inline void init_main() { self = &slot(MAXT); self->id = MAXT; set_stack(*self);
  for (int i = 0; i < MAXT; ++i) { pthread_create(&W(i).th, nullptr, worker_main, (void*)(long)i); futex_wait(all_done()); } }
// run the bodies under the scheduler once
inline void execute(const std::vector<std::function<void()>> & bodies)
{
  auto & s = S(); s.nthreads = int(bodies.size()); s.pos = 0; s.gpos = 0; s.steps = 0; s.force_spurious = false;
  s.preempt_left = s.max_preempt; s.spurious_left = s.max_spurious; s.cur = -1;
  for (int i = 0; i < s.nthreads; ++i) { auto & v = slot(i); v.done = false; v.started = true; v.blocked = nullptr; v.log.clear(); W(i).body = bodies[i]; v.baton.store(0); futex_wake(W(i).go); }
  s.on = true;
  int t = pick_next(true); s.cur = t; futex_wake(slot(t).baton);
  futex_wait(all_done());
  s.on = false; ++s.schedules; s.total_steps += s.steps;
}
inline void note(const volatile void * p, int k, int ord, bool weak, bool punned, bool fetch)
{ if (self) self->log.push_back({k, ord, weak, punned, fetch}); }

inline std::memory_order derived(std::memory_order o)
{ return o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o; }
inline const std::type_info *& value_type() { static const std::type_info * t = nullptr; return t; }  // T of the variable under test
} // namespace shim

namespace std {
template <class T> struct vat_base {
  T v;
  using value_type = T;
  vat_base() noexcept = default;
  constexpr vat_base(T x) noexcept : v(x) {}
protected:
  bool shared() const volatile { return !shim::on_stack(this); }
  static bool punned() { return shim::value_type() && *shim::value_type() != typeid(T); }
  T & cell() const volatile { return const_cast<T &>(const_cast<const T &>(v)); }
public:
  bool is_lock_free() const volatile noexcept { return true; }
  T load(memory_order o = memory_order_seq_cst) const volatile noexcept
  { if (!shared()) return cell(); shim::point(); shim::note(this, shim::LOAD, int(o), false, punned(), false); return cell(); }
  void store(T x, memory_order o = memory_order_seq_cst) volatile noexcept
  { if (shared()) { shim::point(); shim::note(this, shim::STORE, int(o), false, punned(), false); } cell() = x; }
  T exchange(T x, memory_order o = memory_order_seq_cst) volatile noexcept
  { if (shared()) { shim::point(); shim::note(this, shim::RMW, int(o), false, punned(), false); } T r = cell(); cell() = x; return r; }
  bool cas(T & e, T d, memory_order s, memory_order f, bool weak) volatile noexcept
  {
    bool sh = shared();
    if (sh) shim::point();
    bool eq = std::memcmp(&cell(), &e, sizeof(T)) == 0;
    if (eq && weak && sh && shim::spurious()) { shim::note(this, shim::CASFAIL, int(f), weak, punned(), false); return false; }
    if (eq) { if (sh) shim::note(this, shim::RMW, int(s), weak, punned(), false); std::memcpy(&cell(), &d, sizeof(T)); return true; }
    if (sh) shim::note(this, shim::CASFAIL, int(f), weak, punned(), false);
    std::memcpy(&e, &cell(), sizeof(T)); return false;
  }
  bool compare_exchange_strong(T & e, T d, memory_order s, memory_order f) volatile noexcept { return cas(e, d, s, f, false); }
  bool compare_exchange_strong(T & e, T d, memory_order s = memory_order_seq_cst) volatile noexcept { return cas(e, d, s, shim::derived(s), false); }
  bool compare_exchange_weak(T & e, T d, memory_order s, memory_order f) volatile noexcept { return cas(e, d, s, f, true); }
  bool compare_exchange_weak(T & e, T d, memory_order s = memory_order_seq_cst) volatile noexcept { return cas(e, d, s, shim::derived(s), true); }
protected:
  template <class F> T rmw(F f, memory_order o) volatile noexcept
  { if (shared()) { shim::point(); shim::note(this, shim::RMW, int(o), false, punned(), true); } T r = cell(); cell() = f(r); return r; }
};
template <class T, int K = is_integral<T>::value && !is_same<T, bool>::value ? 1 : is_pointer<T>::value ? 2 : 0> struct vat_ops : vat_base<T> { using vat_base<T>::vat_base; vat_ops() = default; constexpr vat_ops(T x) noexcept : vat_base<T>(x) {} };
#define VF_FETCH(name, op, D) T name(D x, memory_order o = memory_order_seq_cst) volatile noexcept { return this->rmw([=](T r) { return T(r op x); }, o); }
#define VF_COMMON(D) \
  VF_FETCH(fetch_add, +, D) VF_FETCH(fetch_sub, -, D) \
  T operator+=(D x) volatile noexcept { return T(fetch_add(x) + x); } T operator-=(D x) volatile noexcept { return T(fetch_sub(x) - x); } \
  T operator++() volatile noexcept { return T(fetch_add(1) + 1); } T operator++(int) volatile noexcept { return fetch_add(1); } \
  T operator--() volatile noexcept { return T(fetch_sub(1) - 1); } T operator--(int) volatile noexcept { return fetch_sub(1); }
template <class T> struct vat_ops<T, 1> : vat_base<T> {
  vat_ops() = default; constexpr vat_ops(T x) noexcept : vat_base<T>(x) {}
  VF_COMMON(T)
  VF_FETCH(fetch_and, &, T) VF_FETCH(fetch_or, |, T) VF_FETCH(fetch_xor, ^, T)
  T operator&=(T x) volatile noexcept { return T(fetch_and(x) & x); } T operator|=(T x) volatile noexcept { return T(fetch_or(x) | x); } T operator^=(T x) volatile noexcept { return T(fetch_xor(x) ^ x); }
};
template <class T> struct vat_ops<T, 2> : vat_base<T> {
  vat_ops() = default; constexpr vat_ops(T x) noexcept : vat_base<T>(x) {}
  VF_COMMON(ptrdiff_t)
};
template <class T> struct vatomic : vat_ops<T> {
  vatomic() noexcept = default;
  constexpr vatomic(T x) noexcept : vat_ops<T>(x) {}
  vatomic(const vatomic &) = delete;
  vatomic & operator=(const vatomic &) = delete; vatomic & operator=(const vatomic &) volatile = delete;
  T operator=(T x) noexcept { this->store(x); return x; }
  T operator=(T x) volatile noexcept { this->store(x); return x; }
  operator T() const noexcept { return this->load(); }
  operator T() const volatile noexcept { return this->load(); }
};
// free functions of <atomic>
#define VF_CASF(name, memb) \
 template <class T> bool name(volatile vatomic<T> * a, T * e, T d) noexcept { return a->memb(*e, d); } \
 template <class T> bool name(vatomic<T> * a, T * e, T d) noexcept { return a->memb(*e, d); } \
 template <class T> bool name##_explicit(volatile vatomic<T> * a, T * e, T d, memory_order s, memory_order f) noexcept { return a->memb(*e, d, s, f); } \
 template <class T> bool name##_explicit(vatomic<T> * a, T * e, T d, memory_order s, memory_order f) noexcept { return a->memb(*e, d, s, f); }
VF_CASF(atomic_compare_exchange_strong, compare_exchange_strong)
VF_CASF(atomic_compare_exchange_weak, compare_exchange_weak)
template <class T> T atomic_load(const volatile vatomic<T> * a) noexcept { return a->load(); }
template <class T> T atomic_load_explicit(const volatile vatomic<T> * a, memory_order o) noexcept { return a->load(o); }
template <class T> void atomic_store(volatile vatomic<T> * a, T x) noexcept { a->store(x); }
template <class T> void atomic_store_explicit(volatile vatomic<T> * a, T x, memory_order o) noexcept { a->store(x, o); }
template <class T> T atomic_exchange(volatile vatomic<T> * a, T x) noexcept { return a->exchange(x); }
#define VF_FETCHF(name, memb) \
 template <class T, class X> T name(volatile vatomic<T> * a, X x) noexcept { return a->memb(x); } \
 template <class T, class X> T name##_explicit(volatile vatomic<T> * a, X x, memory_order o) noexcept { return a->memb(x, o); }
VF_FETCHF(atomic_fetch_add, fetch_add) VF_FETCHF(atomic_fetch_sub, fetch_sub)
VF_FETCHF(atomic_fetch_and, fetch_and) VF_FETCHF(atomic_fetch_or, fetch_or) VF_FETCHF(atomic_fetch_xor, fetch_xor)

struct vmutex {
  int owner = -1; int depth = 0; bool rec = false;
  constexpr vmutex(bool r = false) noexcept : rec(r) {}
  vmutex(const vmutex &) = delete;
  void lock()
  {
    shim::point(); int me = shim::self ? shim::self->id : shim::MAXT;
    if (rec && owner == me) { ++depth; return; }
    while (owner != -1) { if (!shim::S().on) shim::stuck("deadlock"); shim::block_on(this); }
    owner = me; depth = 1; shim::note(this, shim::LOCK, int(memory_order_acquire), false, false, false);
  }
  bool try_lock()
  {
    shim::point(); int me = shim::self ? shim::self->id : shim::MAXT;
    if (owner != -1 && !(rec && owner == me)) return false;
    owner = me; ++depth; shim::note(this, shim::LOCK, int(memory_order_acquire), false, false, false); return true;
  }
  template <class D> bool try_lock_for(const D &) { return try_lock(); }
  template <class D> bool try_lock_until(const D &) { return try_lock(); }
  void unlock()
  {
    shim::point(); if (--depth > 0) return;
    owner = -1; shim::note(this, shim::UNLOCK, int(memory_order_release), false, false, false); shim::release(this);
  }
  void lock_shared() { lock(); } void unlock_shared() { unlock(); } bool try_lock_shared() { return try_lock(); }
};
struct vrecursive_mutex : vmutex { constexpr vrecursive_mutex() noexcept : vmutex(true) {} };
}
#define atomic vatomic
#define mutex vmutex
#define shared_mutex vmutex
#define timed_mutex vmutex
#define shared_timed_mutex vmutex
#define recursive_mutex vrecursive_mutex
#define recursive_timed_mutex vrecursive_mutex
#include "ristra/atomics/src/atomics.h"
