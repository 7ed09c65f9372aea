#pragma once
#include <cstdint>
namespace vf { namespace count {
extern int quiet;                                  // nothing is counted while positive
extern uint64_t accesses, allocations, bytes;
struct Quiet { Quiet() { quiet++; } ~Quiet() { quiet--; } };
// Counts in its scope.
struct Probe {
  uint64_t a, m, b; int q;
  Probe() : a(accesses), m(allocations), b(bytes), q(quiet) { quiet = 0; }
  uint64_t stop() { if (q >= 0) { quiet = q; q = -1; } return (accesses - a) + 20 * (allocations - m) + (bytes - b) / 8; }
  ~Probe() { stop(); }
};
}}
