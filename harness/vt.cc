// Virtual time. Defined in the executable, so these take the place of libc's
// for the library under test; atomics are relaxed so that the race detector
// sees no ordering in them.
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include "core.h"
namespace vf { namespace vt {
static std::atomic<bool> g_on{false};
static std::atomic<int64_t> g_now{1000000000};
static std::atomic<uint64_t> g_reads{0};
void (*g_hook)() = nullptr;   // scheduling point, see vsched.cc
void enable(bool on) { g_on.store(on, std::memory_order_relaxed); }
static __thread bool t_own = false;          // this thread has a clock of its own
static __thread int64_t t_now = 0;
void own(bool on) { t_own = on; }
bool is_own() { return t_own; }
int64_t now() { return t_own ? t_now : g_now.load(std::memory_order_relaxed); }
void set(int64_t us) { if (t_own) t_now = us; else g_now.store(us, std::memory_order_relaxed); }
void advance(int64_t us) { if (t_own) t_now += us; else g_now.fetch_add(us, std::memory_order_relaxed); }
uint64_t reads() { return g_reads.load(std::memory_order_relaxed); }
static bool take(int64_t* t) {
  if (!g_on.load(std::memory_order_relaxed)) return false;
  g_reads.fetch_add(1, std::memory_order_relaxed);
  if (g_hook) g_hook();
  *t = now();
  return true;
}
}}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  int64_t t;
  if (vf::vt::take(&t)) { tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  int64_t t;
  if ((c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE ||
       c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME) &&
      vf::vt::take(&t)) {
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
extern "C" time_t time(time_t* p) noexcept {
  struct timeval tv; gettimeofday(&tv, nullptr);
  if (p) *p = tv.tv_sec;
  return tv.tv_sec;
}
