// Controlled scheduling: at most one registered thread runs at a time, and the
// scheduler decides which at every scheduling point (lock, unlock, wait, clock
// read, atomic access, and in the "fine" flavour any memory access of the
// library). Hand-over uses raw futexes in code that is not instrumented, so the
// race detector sees no ordering in it.
#pragma once
#include <cstdint>
namespace vf { namespace sched {
enum Kind { P_LOCK = 1, P_UNLOCK, P_TIME, P_ATOMIC, P_MEM, P_USER, P_YIELD, P_WAIT, P_END };
struct Opt {
  int mode = 0;              // 0: free running, 1: random walk, 2: priorities with change points
  int n = 0;                 // threads
  int p_sync = 20;           // per 100: switch at a synchronisation point
  int p_mem = 50;            // per 100000: switch at a memory access
  int depth = 2;             // priority change points + 1
  uint64_t span = 2000;      // change points lie within that many points
  uint64_t seed = 1;
};
struct Stats { uint64_t points, mem_points, switches, contended, hash, timeouts; };
void begin(const Opt& o);    // main thread, before the threads are made
void enter(int tid, const char* name);
void await(int n);           // main thread, until n threads have entered
void start();                // main thread, after they are made
void leave();                // hands on, and waits to be released
void finish();               // main thread, until all have left
void release(int i);         // main thread, before it joins thread i
Stats end();                 // main thread, after they are joined
bool active();               // is this a scheduled thread?
void point(int kind);
void wait(bool (*pred)(void*), void* arg, const char* what);   // until pred
extern __thread int quiet;   // no switches while positive
struct Quiet { Quiet() { quiet++; } ~Quiet() { quiet--; } };
}}
