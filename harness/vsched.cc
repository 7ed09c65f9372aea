// See sched.h. Compiled without instrumentation in every flavour.
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace vf {
namespace vt { extern void (*g_hook)(); void advance(int64_t us); int64_t now(); void set(int64_t us); bool is_own(); }
namespace sched {
__thread int quiet = 0;
static const int MAXT = 40;
enum State { NONE, READY, BLOCKED, DONE };
struct Thr {
  int go; int state; const char* name; const char* what;
  bool (*pred)(void*); void* arg;
  bool timed, timeout;         // a timed wait, and whether its time ran out
  int64_t until;               // and when that is
  uint64_t prio; uint64_t sync;
};
static Thr T[MAXT];
static int N, g_mode, g_psync, g_pmem, registered, ended, cur;
static volatile bool g_on = false;
static uint64_t rs, g_lowprio, steps, mem_steps, switches, contended, hash_, sync_steps, timeouts;
static uint64_t change[8]; static int nchange;
static __thread int self = -1;

static uint64_t rnd() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void fwait(int* a) { while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

bool active() { return g_on && self >= 0; }
static bool runnable(int i) { return T[i].state == READY || (T[i].state == BLOCKED && T[i].pred && T[i].pred(T[i].arg)); }

static void say(const char* s) { ssize_t r = write(2, s, strlen(s)); (void)r; }
static void die(const char* head) {
  char b[512];
  say("\nVF-HANG: "); say(head);
  for (int i = 0; i < N; i++) {
    snprintf(b, sizeof b, "%s thread %d (%s) %s%s", i ? ";" : ":", i, T[i].name ? T[i].name : "?",
             T[i].state == DONE ? "has ended" : T[i].state == READY ? "can run" : "waits for ", T[i].state == BLOCKED && T[i].what ? T[i].what : "");
    say(b);
  }
  say("\n");
  _exit(97);
}
// Picks the thread to run next; -1 if all have ended.
static int choose(int me, bool must_leave) {
  int c[MAXT], n = 0;
  quiet++;
  for (int i = 0; i < N; i++) if (runnable(i)) c[n++] = i;
  // Time passes for those who wait for a limited time: when nobody else can
  // run, and now and then while others still could.
  for (int i = 0; i < N; i++) if (T[i].state == BLOCKED && T[i].timed && !runnable(i) && (!n || rnd() % 16 == 0)) {
    T[i].timeout = true; timeouts++;
    if (!vt::is_own() && vt::now() < T[i].until) vt::set(T[i].until);
    quiet--; return i;
  }
  quiet--;
  if (!n) {
    for (int i = 0; i < N; i++) if (T[i].state != DONE) die("deadlock");
    return -1;
  }
  if (must_leave && n > 1) { int k = 0; for (int i = 0; i < n; i++) if (c[i] != me) c[k++] = c[i]; n = k; }
  if (g_mode == 2) { int b = c[0]; for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i]; return b; }
  return c[rnd() % n];
}
static void hand(int me, int to, int kind) {
  if (to == me) { T[me].state = READY; return; }
  switches++;
  hash_ = (hash_ ^ ((uint64_t)me << 8 | (uint64_t)to << 16 | (uint64_t)kind | T[me].sync << 32)) * 0x9E3779B97F4A7C15ull; hash_ ^= hash_ >> 29;
  if (T[to].state == BLOCKED) T[to].state = READY;
  cur = to;
  fwake(&T[to].go);
  if (T[me].state != DONE) fwait(&T[me].go);
}
void point(int kind) {
  if (!g_on || self < 0 || quiet > 0) return;
  int me = self;
  steps++;
  if (kind == P_MEM) mem_steps++; else { T[me].sync++; if (++sync_steps > 400000) die("no end of it (livelock)"); }
  if (g_mode == 2) {
    bool hit = false;
    for (int i = 0; i < nchange; i++) if (steps == change[i]) { T[me].prio = --g_lowprio; hit = true; }
    if (kind == P_YIELD) { T[me].prio = --g_lowprio; hit = true; }
    if (kind == P_MEM && !hit) return;
    hand(me, choose(me, false), kind);
    return;
  }
  bool sw = kind == P_YIELD || (kind == P_MEM ? (int)(rnd() % 100000) < g_pmem : (int)(rnd() % 100) < g_psync);
  if (sw) hand(me, choose(me, true), kind);
}
static bool block(bool (*pred)(void*), void* arg, const char* what, bool timed, int64_t until = 0) {
  int me = self;
  T[me].pred = pred; T[me].arg = arg; T[me].what = what; T[me].timed = timed; T[me].timeout = false; T[me].until = until;
  bool waited = false;
  for (;;) {
    quiet++; bool ok = pred(arg); quiet--;
    if (ok) { T[me].state = READY; break; }
    T[me].state = BLOCKED; waited = true; T[me].sync++;
    if (++sync_steps > 400000) die("no end of it (livelock)");
    hand(me, choose(me, false), P_WAIT);
    T[me].state = READY;
    if (T[me].timeout) { T[me].timed = false; T[me].pred = 0; return false; }
  }
  T[me].timed = false; T[me].pred = 0;
  if (waited) contended++;
  return true;
}
void wait(bool (*pred)(void*), void* arg, const char* what) {
  if (!active()) { int n = 0; while (!pred(arg)) { if (++n < 200) syscall(SYS_sched_yield); else { struct timespec t = {0, 50000}; syscall(SYS_nanosleep, &t, 0); } } return; }
  int q = quiet; quiet = 0;
  point(P_USER);
  block(pred, arg, what, false);
  quiet = q;
}
static void hook() { point(P_TIME); }
void begin(const Opt& o) {
  memset(T, 0, sizeof T);
  N = o.n; g_mode = o.mode; g_psync = o.p_sync; g_pmem = o.p_mem; rs = o.seed;
  registered = 0; steps = mem_steps = switches = contended = sync_steps = timeouts = 0; hash_ = 1469598103934665603ull;
  nchange = o.depth > 1 ? o.depth - 1 : 0; if (nchange > 8) nchange = 8;
  for (int i = 0; i < nchange; i++) change[i] = 1 + rnd() % (o.span ? o.span : 1);
  for (int i = 0; i < N; i++) T[i].prio = (1ull << 40) + rnd() % (1u << 30);
  g_lowprio = 1ull << 39;
  vt::g_hook = hook;
}
void enter(int tid, const char* name) {
  if (!g_mode) return;
  self = tid; quiet = 0; T[tid].name = name; T[tid].state = READY;
  __atomic_fetch_add(&registered, 1, __ATOMIC_RELEASE);
  fwait(&T[tid].go);
}
void await(int n) { while (__atomic_load_n(&registered, __ATOMIC_ACQUIRE) < n) syscall(SYS_sched_yield); }
void start() {
  if (!g_mode) return;
  await(N);
  g_on = true;
  int k = choose(-1, false);
  cur = k;
  fwake(&T[k].go);
}
void leave() {
  if (!active()) return;
  int me = self;
  T[me].state = DONE;
  int k = choose(me, false);
  if (k >= 0) hand(me, k, P_END); else { g_on = false; fwake(&ended); }
  self = -1;
  // What a thread does when it exits comes in the same order, too.
  fwait(&T[me].go);
}
void finish() { if (g_mode) fwait(&ended); }
void release(int i) { if (g_mode) fwake(&T[i].go); }
Stats end() { vt::g_hook = 0; g_on = false; Stats s = {steps, mem_steps, switches, contended, hash_, timeouts}; return s; }

// ---- who holds what. Only the running thread uses these tables.
struct Held { void* m; int owner; int count; int readers; };
static Held H[512]; static int NH;
static Held* held(void* m, bool make) {
  for (int i = 0; i < NH; i++) if (H[i].m == m) return &H[i];
  if (!make) return 0;
  if (NH >= 512) die("too many locks");
  Held* h = &H[NH++]; h->m = m; h->owner = -1; h->count = 0; h->readers = 0;
  return h;
}
static void drop(Held* h) { if (h->owner < 0 && !h->readers) *h = H[--NH]; }
static bool is_free(void* m) { Held* h = held(m, false); return !h || (h->owner < 0 && !h->readers); }
static bool no_writer(void* m) { Held* h = held(m, false); return !h || h->owner < 0; }
struct Waiter { void* c; int tid; bool woken; };
static Waiter CW[64]; static int NCW;
static bool woken(void* w) { return ((Waiter*)w)->woken; }
struct FW { unsigned* a; unsigned v; };
static bool changed(void* x) { FW* f = (FW*)x; return __atomic_load_n(f->a, __ATOMIC_ACQUIRE) != f->v; }
}}  // namespace vf::sched

using namespace vf::sched;
template <class F> static F real(F* cache, const char* name) {
  F f = *cache;
  if (!f) { f = (F)dlsym(RTLD_NEXT, name); *cache = f; if (!f) { say("VF-FATAL: no "); say(name); _exit(98); } }
  return f;
}
#define REAL(ret, name, ...) typedef ret (*fn_##name)(__VA_ARGS__); static fn_##name r_##name;
#define CALL(name) real(&r_##name, #name)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)(void))
REAL(int, __cxa_guard_acquire, void*)
REAL(void, __cxa_guard_release, void*)
REAL(void, __cxa_guard_abort, void*)

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
#define PASS (!g_on || self < 0)

static void take(pthread_mutex_t* m) {
  Held* h = held(m, false);
  if (h && h->owner == self && recursive(m)) { h->count++; return; }
  block(is_free, m, "a mutex", false);
  h = held(m, true); h->owner = self; h->count = 1;
}
static void give(pthread_mutex_t* m) {
  Held* h = held(m, false);
  if (h && h->owner == self) { if (--h->count == 0) { h->owner = -1; drop(h); } }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (PASS) return CALL(pthread_mutex_lock)(m);
  point(P_LOCK);
  take(m);
  return CALL(pthread_mutex_lock)(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (PASS) return CALL(pthread_mutex_trylock)(m);
  point(P_LOCK);
  Held* h = held(m, false);
  if (h && h->owner == self && recursive(m)) h->count++;
  else if (!is_free(m)) return EBUSY;
  else { h = held(m, true); h->owner = self; h->count = 1; }
  return CALL(pthread_mutex_trylock)(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (PASS) return CALL(pthread_mutex_unlock)(m);
  int r = CALL(pthread_mutex_unlock)(m);
  give(m);
  point(P_UNLOCK);
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (PASS) return CALL(pthread_rwlock_rdlock)(m);
  point(P_LOCK);
  block(no_writer, m, "a reader lock", false);
  held(m, true)->readers++;
  return CALL(pthread_rwlock_rdlock)(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (PASS) return CALL(pthread_rwlock_wrlock)(m);
  point(P_LOCK);
  block(is_free, m, "a writer lock", false);
  held(m, true)->owner = self;
  return CALL(pthread_rwlock_wrlock)(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (PASS) return CALL(pthread_rwlock_tryrdlock)(m);
  point(P_LOCK);
  if (!no_writer(m)) return EBUSY;
  held(m, true)->readers++;
  return CALL(pthread_rwlock_tryrdlock)(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (PASS) return CALL(pthread_rwlock_trywrlock)(m);
  point(P_LOCK);
  if (!is_free(m)) return EBUSY;
  held(m, true)->owner = self;
  return CALL(pthread_rwlock_trywrlock)(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (PASS) return CALL(pthread_rwlock_unlock)(m);
  int r = CALL(pthread_rwlock_unlock)(m);
  Held* h = held(m, false);
  if (h) { if (h->owner == self) h->owner = -1; else if (h->readers) h->readers--; drop(h); }
  point(P_UNLOCK);
  return r;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  Waiter* w = 0;
  for (int i = 0; i < NCW; i++) if (CW[i].tid < 0) w = &CW[i];
  if (!w) { if (NCW >= 64) die("too many waiters"); w = &CW[NCW++]; }
  w->c = c; w->tid = self; w->woken = false;
  CALL(pthread_mutex_unlock)(m); give(m);
  bool ok = block(woken, w, "a condition", t, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : 0);
  w->tid = -1; w->c = 0;
  take(m); CALL(pthread_mutex_lock)(m);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (PASS) return CALL(pthread_cond_wait)(c, m);
  return cond_wait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (PASS) return CALL(pthread_cond_timedwait)(c, m, t);
  return cond_wait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (PASS) return CALL(pthread_cond_clockwait)(c, m, k, t);
  return cond_wait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (PASS) return CALL(pthread_cond_signal)(c);
  point(P_LOCK);
  for (int i = 0; i < NCW; i++) if (CW[i].c == c && CW[i].tid >= 0 && !CW[i].woken) { CW[i].woken = true; break; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (PASS) return CALL(pthread_cond_broadcast)(c);
  point(P_LOCK);
  for (int i = 0; i < NCW; i++) if (CW[i].c == c && CW[i].tid >= 0) CW[i].woken = true;
  return 0;
}
// A thread that initialises something is not stopped before it is done.
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  quiet++;
  int r = CALL(pthread_once)(o, f);
  quiet--;
  return r;
}
int __cxa_guard_acquire(void* g) {
  quiet++;
  int r = CALL(__cxa_guard_acquire)(g);
  if (!r) quiet--;
  return r;
}
void __cxa_guard_release(void* g) { CALL(__cxa_guard_release)(g); quiet--; }
void __cxa_guard_abort(void* g) { CALL(__cxa_guard_abort)(g); quiet--; }
int sched_yield(void) noexcept {
  if (PASS) return syscall(SYS_sched_yield);
  point(P_YIELD);
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (PASS) return syscall(SYS_nanosleep, t, rem);
  vf::vt::advance(t->tv_sec * 1000000 + t->tv_nsec / 1000 + 1);
  point(P_YIELD);
  return 0;
}
}
// std::future waits with these.
typedef long long ll;
extern "C" bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void* self_, unsigned* a, unsigned v, bool timed, ll s, ll ns) {
  typedef bool (*F)(void*, unsigned*, unsigned, bool, ll, ll); static F f;
  if (PASS) return real(&f, "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE")(self_, a, v, timed, s, ns);
  FW w = {a, v};
  return block(changed, &w, "a future", timed, s * 1000000 + (ns + 999) / 1000);
}
extern "C" bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void* self_, unsigned* a, unsigned v, bool timed, ll s, ll ns) {
  typedef bool (*F)(void*, unsigned*, unsigned, bool, ll, ll); static F f;
  if (PASS) return real(&f, "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE")(self_, a, v, timed, s, ns);
  FW w = {a, v};
  return block(changed, &w, "a future", timed, s * 1000000 + (ns + 999) / 1000);
}

#ifdef VF_FINE
// The compiler's thread instrumentation, taken as scheduling points.
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define A1(n) void __tsan_read##n(void*) { point(P_MEM); } void __tsan_write##n(void*) { point(P_MEM); } \
  void __tsan_unaligned_read##n(void*) { point(P_MEM); } void __tsan_unaligned_write##n(void*) { point(P_MEM); }
A1(1) A1(2) A1(4) A1(8) A1(16)
void __tsan_read_range(void*, size_t) { point(P_MEM); }
void __tsan_write_range(void*, size_t) { point(P_MEM); }
void __tsan_vptr_update(void**, void*) { point(P_MEM); }
void __tsan_vptr_read(void**) { point(P_MEM); }
#define SC __ATOMIC_SEQ_CST
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { point(P_ATOMIC); return __atomic_load_n(a, SC); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { point(P_ATOMIC); __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { point(P_ATOMIC); return __atomic_fetch_nand(a, v, SC); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(P_ATOMIC); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(P_ATOMIC); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(P_ATOMIC); __atomic_compare_exchange_n(a, &c, v, false, SC, SC); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(P_ATOMIC); __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int) {}
}
#endif
