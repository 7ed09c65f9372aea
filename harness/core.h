// Shared pieces of the runtime monitors: random numbers, virtual time,
// violation reporting, request generation and canonical forms.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <google/protobuf/stubs/status.h>
#include "google/api/metric.pb.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"

namespace vf {
namespace sc = google::api::servicecontrol::v1;
using std::string;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next();
}
inline uint64_t hash_str(const string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// ---- virtual time (vt.cc). Microseconds; when on, gettimeofday and
// clock_gettime answer from it.
namespace vt {
void enable(bool on);
int64_t now();
void set(int64_t us);
void advance(int64_t us);
void own(bool on);          // this thread gets a clock of its own
uint64_t reads();
}

// ---- violations and evidence
struct Report {
  string only;                 // property asked for, or "all"
  uint64_t case_seed = 0;
  int shown = 0;
  std::map<string, uint64_t> counters;      // per driver counters
  std::unordered_set<uint64_t> distinct;    // hashes of non-trivial cases
  uint64_t cases = 0, nontrivial = 0;
  std::map<string, uint64_t> viols;         // prop:key -> count
  std::map<string, uint64_t> others;        // violations of other properties
  std::vector<string> samples;
  bool case_bad = false;
  void viol(const std::vector<string>& props, const string& key, const string& msg);
  void count(const string& k, uint64_t n = 1) { counters[k] += n; }
  void finish(const string& out);
};
extern Report R;

// One driver's command line.
struct Args {
  string prop = "all", profile = "default", out;
  uint64_t seed = 1, cases = 100, from = 0;
  bool replay = false; uint64_t replay_seed = 0;
  bool verbose = false;
  int tier = 0;
  std::map<string, string> kv;
  int geti(const string& k, int d) const { auto i = kv.find(k); return i == kv.end() ? d : atoi(i->second.c_str()); }
};
// Any of the codes a failed call can end with, with some kind of text.
google::protobuf::util::Status failed(Rng& r, const string& why);
Args parse_args(int argc, char** argv);
// Runs fn(case_seed) for all cases, with progress written for the orchestrator
// and a watchdog per case.
int run_cases(const Args& a, const std::function<void(uint64_t)>& fn);
string jesc(const string& s);
string shortpb(const google::protobuf::Message& m);
size_t live_bytes();          // bytes now allocated, or 0 if it is unknown

// ---- canonical forms
// Operation with metric sets sorted by name and values sorted by label set.
sc::Operation norm_op(const sc::Operation& op);
sc::QuotaOperation norm_qop(const sc::QuotaOperation& op);
string det(const google::protobuf::MessageLite& m);   // deterministic bytes
inline string det_op(const sc::Operation& op) { return det(norm_op(op)); }
string labels_key(const google::protobuf::Map<string, string>& l);
string check_identity(const sc::Operation& op);
string report_identity(const sc::Operation& op);
string quota_identity(const sc::QuotaOperation& op);
// Whether the two are equal, with doubles compared to a relative 1e-9.
bool op_close(const sc::Operation& a, const sc::Operation& b, string* why);

// ---- reference merge of operations, written from the documentation
typedef std::unordered_map<string, google::api::MetricDescriptor::MetricKind> Kinds;
struct OpModel {
  sc::Operation base;   // without metrics
  // metric name -> labels -> value
  std::map<string, std::map<string, sc::MetricValue>> m;
  const Kinds* kinds = nullptr;
  OpModel() {}
  OpModel(const sc::Operation& op, const Kinds* k);
  void merge(const sc::Operation& op);
  sc::Operation proto() const;
 private:
  void metrics(const sc::Operation& op);
};
bool dist_merge(const sc::Distribution& from, sc::Distribution* to);
int64_t sat_add(int64_t a, int64_t b);
bool ts_before(const google::protobuf::Timestamp& a, const google::protobuf::Timestamp& b);
}  // namespace vf
