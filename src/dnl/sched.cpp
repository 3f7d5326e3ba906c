#include "dnl/sched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <time.h>

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
template <class F> static F next(const char* n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "harness: no %s\n", n); _exit(97); } return f; }
#define REAL(name) ([]{ static decltype(&name) f; if (!f) f = next<decltype(&name)>(#name); return f; }())

namespace sched {
Report* rep = nullptr;
bool no_race_check = false; uint64_t max_points = 200000;
constexpr int MAXT = 8;
struct VC { uint32_t c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i != MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum K { RUN, MUTEX, RWR, RWW, COND, JOIN, FUTEX, DONE };
struct Thr {
  bool used = false; K k = RUN; void* on = nullptr; void* mtx = nullptr; int target = -1; bool timed = false, timedout = false, woken = false; bool excl = true;
  volatile int token = 0; pthread_t real{}; VC vc; const char* what = "";
  void* (*fn)(void*) = nullptr; void* arg = nullptr; uint32_t streak = 0;
};
static Thr T[MAXT];
static int nthr = 0, cur = 0;
static bool on_ = false;
static thread_local int me = -1;
static mc::Ctx* C = nullptr;
struct Mtx { int owner = -1; int depth = 0; int readers = 0; VC vc; };
static std::map<void*, Mtx>* mtxs; static std::map<void*, VC>* syncs;
static Mtx& M(void* p) { return (*mtxs)[p]; }
static VC& S(const void* p) { return (*syncs)[(void*)p]; }
bool active() { return on_ && me >= 0; }
int self() { return me; }

void abort_run(const std::string& key, const std::string& msg) {
  snprintf(rep->key, sizeof rep->key, "%s", key.c_str()); snprintf(rep->msg, sizeof rep->msg, "%s", msg.c_str());
  raw6(SYS_exit_group, 95, 0, 0, 0, 0, 0); __builtin_unreachable();
}
void infeasible() { rep->infeasible = 1; raw6(SYS_exit_group, 95, 0, 0, 0, 0, 0); __builtin_unreachable(); }

static bool enabled(const Thr& t) {
  switch (t.k) {
  case RUN: return true;
  case MUTEX: return M(t.on).owner == -1 && M(t.on).readers == 0;
  case RWR: return M(t.on).owner == -1;
  case RWW: return M(t.on).owner == -1 && M(t.on).readers == 0;
  case COND: case FUTEX: return t.woken;
  case JOIN: return T[t.target].k == DONE;
  case DONE: return false;
  }
  return false;
}
static std::string state() {
  std::string s; for (int i = 0; i != nthr; ++i) { auto& t = T[i]; static const char* KN[] = {"can run", "waits for a mutex", "waits for a lock", "waits for a lock", "waits for a condition variable", "waits for a thread to end", "waits on an atomic", "has ended"}; s += "\n  thread " + std::to_string(i) + ": " + KN[t.k]; if (t.k == JOIN) s += " (thread " + std::to_string(t.target) + ")"; if (t.k == MUTEX) s += " held by thread " + std::to_string(M(t.on).owner); }
  return s;
}
static void pass(int to) {
  if (to == me) { cur = to; return; }
  rep->switches++;
  bool gone = T[me].k == DONE;
  Thr& n = T[to]; cur = to;
  __atomic_store_n(&n.token, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)&n.token, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  if (gone) return;
  Thr& s = T[me];
  while (!__atomic_load_n(&s.token, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&s.token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&s.token, 0, __ATOMIC_RELAXED);
}
// mode 0: an ordinary point (going on is free, another thread costs a preemption), 1: the thread cannot go on
// or gives way freely, 2: it asks for others to run (they must, if any can)
static void point(int mode) {
  if (++rep->points > max_points) abort_run("no-end", "the program does not end: " + std::to_string(rep->points) + " scheduling points" + state());
  Thr& s = T[me]; int E[MAXT], n = 0; bool se = enabled(s);
  if (se && mode == 0) { if (++s.streak > 3000) { mode = 2; s.streak = 0; } } else s.streak = 0;
  for (int k = 1; k <= nthr; ++k) { int i = (me + k) % nthr; if (i != me && enabled(T[i])) E[n++] = i; }
  if (mode == 0 && se) { // self first
    if (n == 0) return;
    int c = C->deviate(n + 1, 0); if (c == 0) return;
    rep->preemptions++; pass(E[c - 1]); return;
  }
  if (mode == 3) { // waits for the network: the others go first, going on at once is a deviation of class 3
    if (n == 0) return;
    E[n++] = me; pass(E[C->deviate(n, 3)]); return;
  }
  if (se && (mode == 1 || n == 0)) E[n++] = me;
  if (n == 0) { // only time can help
    for (int i = 0; i != nthr; ++i) if (T[i].timed && (T[i].k == COND || T[i].k == FUTEX)) { E[n++] = i; }
    if (n == 0) abort_run("deadlock", "no thread can go on:" + state());
    int w = E[C->choose(n)]; T[w].timedout = true; T[w].woken = true; if (T[w].k == COND) { T[w].k = MUTEX; T[w].on = T[w].mtx; if (!enabled(T[w])) { point(1); return; } }
    pass(w); return;
  }
  pass(E[C->choose(n)]);
}
static void tick() { T[me].vc.c[me]++; }
static void acquire(void* p) { T[me].vc.join(S(p)); }
static void release(void* p) { S(p).join(T[me].vc); tick(); }
static void block(K k, void* on) { Thr& s = T[me]; s.k = k; s.on = on; if (!enabled(s)) point(1); s.k = RUN; s.on = nullptr; }

static void lock(void* m, K k) {
  Mtx& x = M(m); block(k, m); // returns only when it is free
  if (k == RWR) x.readers++; else x.owner = me;
  x.depth = 1; T[me].vc.join(x.vc);
}
static void unlock(void* m) { Mtx& x = M(m); x.vc.join(T[me].vc); tick(); if (x.owner == me) { x.owner = -1; x.depth = 0; } else if (x.readers) x.readers--; else abort_run("unlock", "a thread unlocks a mutex it does not hold"); }

void start(mc::Ctx& c, Report* r) {
  C = &c; rep = r; mtxs = new std::map<void*, Mtx>; syncs = new std::map<void*, VC>;
  nthr = 1; cur = 0; me = 0; T[0] = Thr{}; T[0].used = true; T[0].vc.c[0] = 1; on_ = true;
}
void stop() { for (int i = 0; i != 4; ++i) rep->budget_left[i] = C->budget[i]; on_ = false; }
void io_point() { if (active()) point(0); }
void external_wait() { if (active()) point(3); }

static void* thread_main(void* p) {
  int id = (int)(long)p; me = id; Thr& s = T[id];
  while (!__atomic_load_n(&s.token, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&s.token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&s.token, 0, __ATOMIC_RELAXED);
  void* r = s.fn(s.arg);
  tick(); s.k = DONE; if (on_) point(1);
  me = -1; return r;
}

// ---------------------------------------------------------------- race detection
struct Cell { uintptr_t tag; uint32_t wclk; uint8_t wt, wmask; uint8_t rmask[MAXT]; uint32_t rclk[MAXT]; const void* wpc; const void* rpc; };
constexpr size_t NC = 1u << 16;
static Cell* cells;
static size_t slot(uintptr_t g) { return (g ^ g >> 16 ^ g >> 29) & (NC - 1); }
static Cell* cell(uintptr_t g) {
  if (!cells) { cells = (Cell*)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (cells == MAP_FAILED) _exit(97); }
  Cell* x = &cells[slot(g)]; if (x->tag != g) { memset(x, 0, sizeof *x); x->tag = g; } return x;
}
static std::string where(const void* pc) {
  Dl_info i; if (!dladdr(pc, &i)) return "?"; char b[64]; snprintf(b, sizeof b, "+0x%lx", (long)((char*)pc - (char*)i.dli_fbase));
  int st; char* d = i.dli_sname ? abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st) : nullptr; std::string s = d ? d : i.dli_sname ? i.dli_sname : "?"; if (s.size() > 300) s = s.substr(0, 300) + "..."; return s + " (" + b + ")";
}
static void race(const char* a, int t1, const void* pc1, const char* b, int t2, const void* pc2) {
  abort_run("data-race", std::string("thread ") + std::to_string(t1) + " " + a + " and thread " + std::to_string(t2) + " " + b + " the same data without synchronisation:\n  " + where(pc1) + "\n  " + where(pc2));
}
static void access(uintptr_t a, size_t n, bool w, const void* pc) {
  if (!on_ || me < 0 || nthr < 2 || no_race_check) return;
  const VC& vc = T[me].vc; rep->races_checked++;
  while (n) {
    uintptr_t g = a >> 3; unsigned off = a & 7; size_t k = 8 - off < n ? 8 - off : n; uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
    Cell* x = cell(g);
    if (w ? x->wt == me && x->wclk == vc.c[me] && (x->wmask & mask) == mask : x->rclk[me] == vc.c[me] && (x->rmask[me] & mask) == mask) { a += k; n -= k; continue; } // nothing new
    if (x->wmask & mask && x->wt != me && x->wclk > vc.c[x->wt]) race("writes", x->wt, x->wpc, w ? "writes" : "reads", me, pc);
    if (w) {
      for (int t = 0; t != nthr; ++t) if (t != me && x->rmask[t] & mask && x->rclk[t] > vc.c[t]) race("reads", t, x->rpc, "writes", me, pc);
      if (x->wt == me && x->wclk == vc.c[me]) x->wmask |= mask; else { x->wmask = mask; x->wt = (uint8_t)me; x->wclk = vc.c[me]; }
      x->wpc = pc; for (int t = 0; t != nthr; ++t) x->rmask[t] &= (uint8_t)~mask;
    } else { if (x->rclk[me] != vc.c[me]) { x->rclk[me] = vc.c[me]; x->rmask[me] = 0; } x->rmask[me] |= mask; x->rpc = pc; }
    a += k; n -= k;
  }
}
static void forget(void* p, size_t n) { if (!on_ || !cells || n > (1u << 22)) return; for (uintptr_t g = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; g != e; ++g) { Cell* x = &cells[slot(g)]; if (x->tag == g) memset(x, 0, sizeof *x); } }
} // namespace sched
using namespace sched;

// fresh memory carries no history
#include <malloc.h>
#include <new>
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, malloc_usable_size(p)); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) forget(p, malloc_usable_size(p)); return p; }
static void gone(void* p) { if (p && on_) memset(p, 0xDD, malloc_usable_size(p)); free(p); } // what is used afterwards shows
void operator delete(void* p) noexcept { gone(p); }
void operator delete[](void* p) noexcept { gone(p); }
void operator delete(void* p, size_t) noexcept { gone(p); }
void operator delete[](void* p, size_t) noexcept { gone(p); }

// ---------------------------------------------------------------- what the instrumentation calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ACC(n) \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { access((uintptr_t)a, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* a, unsigned long n) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }

enum { RLX, CNS, ACQ, REL, AR, SC };
static bool acq(int o) { return o == ACQ || o == CNS || o == AR || o == SC; }
static bool rel(int o) { return o == REL || o == AR || o == SC; }
static void at_pre() { if (active()) point(0); }
static void at_load(const volatile void* a, int o) { if (active() && acq(o)) acquire((void*)a); }
static void at_store(const volatile void* a, int o) { if (active()) { if (rel(o)) { S((void*)a) = T[me].vc; tick(); } else S((void*)a) = VC{}; } }
static void at_rmw(const volatile void* a, int o) { if (active()) { if (acq(o)) acquire((void*)a); if (rel(o)) release((void*)a); } }
#define ATOM(B, t) \
  t __tsan_atomic##B##_load(const volatile t* a, int o) { at_pre(); at_load(a, o); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile t* a, t v, int o) { at_pre(); at_store(a, o); __atomic_store_n(a, v, 5); } \
  t __tsan_atomic##B##_exchange(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_exchange_n(a, v, 5); } \
  t __tsan_atomic##B##_fetch_add(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_fetch_add(a, v, 5); } \
  t __tsan_atomic##B##_fetch_sub(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_fetch_sub(a, v, 5); } \
  t __tsan_atomic##B##_fetch_and(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_fetch_and(a, v, 5); } \
  t __tsan_atomic##B##_fetch_or(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_fetch_or(a, v, 5); } \
  t __tsan_atomic##B##_fetch_xor(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_fetch_xor(a, v, 5); } \
  t __tsan_atomic##B##_fetch_nand(volatile t* a, t v, int o) { at_pre(); at_rmw(a, o); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile t* a, t* e, t v, int o, int fo) { at_pre(); if (__atomic_compare_exchange_n(a, e, v, 0, 5, 5)) { at_rmw(a, o); return 1; } at_load(a, fo); return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile t* a, t* e, t v, int o, int fo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, o, fo); } \
  t __tsan_atomic##B##_compare_exchange_val(volatile t* a, t e, t v, int o, int fo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, o, fo); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
static char fence_;
void __tsan_atomic_thread_fence(int o) { if (active()) { if (acq(o)) acquire(&fence_); if (rel(o)) release(&fence_); } }
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void* a) { if (active()) acquire(a); }
void __tsan_release(void* a) { if (active()) release(a); }

// ---------------------------------------------------------------- pthread
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!active()) return REAL(pthread_create)(t, at, fn, arg);
  point(0);
  if (nthr == MAXT) { fprintf(stderr, "harness: too many threads\n"); _exit(97); }
  int id = nthr; T[id] = Thr{}; T[id].used = true; T[id].fn = fn; T[id].arg = arg; T[id].vc = T[me].vc; T[id].vc.c[id]++; tick();
  nthr++;
  int r = REAL(pthread_create)(t, at, thread_main, (void*)(long)id);
  if (r) { fprintf(stderr, "harness: pthread_create: %s\n", strerror(r)); _exit(97); }
  T[id].real = *t;
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  if (active()) {
    point(0); int id = -1; for (int i = 0; i != nthr; ++i) if (pthread_equal(T[i].real, t) && i) id = i;
    if (id >= 0) { T[me].target = id; block(JOIN, nullptr); T[me].vc.join(T[id].vc); }
  }
  return REAL(pthread_join)(t, ret);
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return on_ && me < 0 ? 0 : REAL(pthread_mutex_lock)(m);
  point(0);
  if (recursive(m) && M(m).owner == me) { M(m).depth++; return 0; }
  lock(m, MUTEX); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return REAL(pthread_mutex_trylock)(m);
  point(0); Mtx& x = M(m);
  if (recursive(m) && x.owner == me) { x.depth++; return 0; }
  if (x.owner != -1) return EBUSY;
  lock(m, MUTEX); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return on_ && me < 0 ? 0 : REAL(pthread_mutex_unlock)(m);
  if (recursive(m) && M(m).owner == me && M(m).depth > 1) { M(m).depth--; return 0; }
  unlock(m); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (active() && mtxs->count(m)) { if (M(m).owner != -1) abort_run("mutex", "a mutex is destroyed while a thread holds it"); mtxs->erase(m); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!active()) return REAL(pthread_rwlock_rdlock)(m); point(0); lock(m, RWR); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!active()) return REAL(pthread_rwlock_wrlock)(m); point(0); lock(m, RWW); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!active()) return REAL(pthread_rwlock_unlock)(m); unlock(m); return 0; }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  point(0);
  if (M(m).owner != me) abort_run("cond", "a thread waits on a condition variable without holding its mutex");
  unlock(m); Thr& s = T[me]; s.k = COND; s.on = c; s.mtx = m; s.woken = false; s.timed = timed; s.timedout = false;
  int sp = C->deviate(2, 2); if (sp) { s.woken = true; s.k = MUTEX; s.on = m; } // a spurious wake-up
  point(1);
  // woken up: on the mutex now
  s.timed = false; s.k = RUN; s.on = nullptr; Mtx& x = M(m);
  if (x.owner != -1) lock(m, MUTEX); else { x.owner = me; x.depth = 1; s.vc.join(x.vc); }
  return s.timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return REAL(pthread_cond_wait)(c, m); return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!active()) return REAL(pthread_cond_timedwait)(c, m, t); return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
static void wake(pthread_cond_t* c, bool all) {
  int W[MAXT], n = 0; for (int i = 0; i != nthr; ++i) if (T[i].k == COND && T[i].on == c) W[n++] = i;
  if (!n) return;
  if (all) for (int i = 0; i != n; ++i) { T[W[i]].k = MUTEX; T[W[i]].on = T[W[i]].mtx; T[W[i]].woken = true; }
  else { int i = W[C->choose(n)]; T[i].k = MUTEX; T[i].on = T[i].mtx; T[i].woken = true; }
}
int pthread_cond_signal(pthread_cond_t* c) { if (!active()) return on_ && me < 0 ? 0 : REAL(pthread_cond_signal)(c); point(0); wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!active()) return on_ && me < 0 ? 0 : REAL(pthread_cond_broadcast)(c); point(0); wake(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { return 0; }

int sched_yield() { if (active()) { point(2); return 0; } return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (active()) { point(2); return 0; } return (int)raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (active()) { point(2); return 0; } return -(int)raw6(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); }
int usleep(useconds_t u) { if (active()) { point(2); return 0; } struct timespec t { u / 1000000, (long)(u % 1000000) * 1000 }; return (int)raw6(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0); }
// atomics that wait end up in futex calls
long syscall(long n, ...) noexcept {
  va_list v; va_start(v, n); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long); va_end(v);
  if (n == SYS_futex && active()) {
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(0); if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      Thr& s = T[me]; s.k = FUTEX; s.on = (void*)a; s.woken = false; s.timed = d != 0; s.timedout = false; point(1); s.k = RUN; s.on = nullptr; s.timed = false;
      if (s.timedout) { errno = ETIMEDOUT; return -1; } return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(0); long k = 0; for (int i = 0; i != nthr && k < (long)(int)c; ++i) if (T[i].k == FUTEX && T[i].on == (void*)a && !T[i].woken) { T[i].woken = true; ++k; } return k;
    }
  }
  long r = raw6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
// function-local statics
int __cxa_guard_acquire(long long* g) { int r = REAL(__cxa_guard_acquire)(g); if (active()) acquire(g); return r; }
void __cxa_guard_release(long long* g) { if (active()) release(g); REAL(__cxa_guard_release)(g); }
// a clock that is the same in every run
int clock_gettime(clockid_t id, struct timespec* t) noexcept { if (active()) { static long k = 0; ++k; t->tv_sec = 1700000000 + k / 1000; t->tv_nsec = (k % 1000) * 1000000; return 0; } long r = raw6(SYS_clock_gettime, id, (long)t, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
}
