#include "core.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/stubs/logging.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

// For the race detector: nothing of a message is in there, and its own locking
// is not seen.
extern "C" const char* __tsan_default_suppressions() { return "race:google::protobuf::DescriptorPool\n"; }

namespace vf {
Report R;
using google::api::MetricDescriptor;
using google::protobuf::Timestamp;

size_t live_bytes() {
  return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}
string jesc(const string& s) {
  string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
// Protobuf sets things up when they are first used, and says nothing to the
// race detector about it: that is done before there is a second thread.
static void fill_all(google::protobuf::Message* m, int depth) {
  const auto* d = m->GetDescriptor(); const auto* f = m->GetReflection();
  for (int i = 0; i < d->field_count(); i++) {
    const auto* k = d->field(i);
    if (k->cpp_type() != google::protobuf::FieldDescriptor::CPPTYPE_MESSAGE) { if (!k->is_repeated() && k->cpp_type() == google::protobuf::FieldDescriptor::CPPTYPE_STRING) f->SetString(m, k, "x"); continue; }
    if (depth == 0) continue;
    fill_all(k->is_repeated() ? f->AddMessage(m, k) : f->MutableMessage(m, k), depth - 1);
    (void)m->ShortDebugString();
  }
}
template <class T> static void warm() {
  T m; (void)m.ShortDebugString(); fill_all(&m, 5); (void)m.ShortDebugString(); (void)m.DebugString();
  string s = det(m); T n; n.ParseFromString(s); n.MergeFrom(m); n.Clear();
}
static void warm_protobuf() {
  warm<sc::CheckRequest>(); warm<sc::CheckResponse>(); warm<sc::AllocateQuotaRequest>(); warm<sc::AllocateQuotaResponse>(); warm<sc::ReportRequest>(); warm<sc::ReportResponse>(); warm<google::api::MetricDescriptor>();
}
string shortpb(const google::protobuf::Message& m) {
  string s = m.ShortDebugString();
  return s.size() > 700 ? s.substr(0, 700) + "..." : s;
}
void Report::viol(const std::vector<string>& props, const string& key, const string& msg) {
  bool mine = only == "all";
  for (auto& p : props) if (p == only) mine = true;
  if (mine) case_bad = true;
  for (auto& p : props) {
    if (only != "all" && p != only) { others[p + ":" + key]++; continue; }
    viols[p + ":" + key]++;
  }
  if (mine && shown < 12) {
    shown++;
    string m = msg; for (auto& c : m) if (c == '\n' || c == '\t') c = ' ';
    for (auto& p : props)
      if (only == "all" || p == only)
        printf("VIOL\t%s\t%s\t%llu\t%s\n", p.c_str(), key.c_str(), (unsigned long long)case_seed, m.c_str());
    fflush(stdout);
  }
}
google::protobuf::util::Status failed(Rng& r, const string& why) {
  using google::protobuf::util::StatusCode;
  static const StatusCode usual[] = {StatusCode::kUnavailable, StatusCode::kInternal, StatusCode::kNotFound, StatusCode::kDeadlineExceeded, StatusCode::kPermissionDenied, StatusCode::kCancelled};
  StatusCode c = r.chance(50) ? usual[r.below(6)] : (StatusCode)(1 + r.below(16));
  return google::protobuf::util::Status(c, r.chance(85) ? why : r.chance(50) ? string() : why + string(1000, '\n') + "\xc3\xa9%s%n");
}
void Report::finish(const string& out) {
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"counters\":{",
          (unsigned long long)cases, (unsigned long long)nontrivial, (unsigned long long)distinct.size());
  bool first = true;
  for (auto& c : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "},\"viols\":{"); first = true;
  for (auto& c : viols) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "},\"others\":{"); first = true;
  for (auto& c : others) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "},\"samples\":["); first = true;
  for (auto& c : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(c).c_str()); first = false; }
  // The hashes let the orchestrator count distinct cases over all the shards.
  fprintf(f, "],\"hashes\":["); first = true; size_t n = 0;
  for (auto h : distinct) { if (n++ >= 200000) break; fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 11)); first = false; }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f); else fflush(f);
}

static void on_alarm(int) {
  static const char m[] = "\nVF-HANG: a case made no progress within its time\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  signal(SIGABRT, SIG_DFL);
  _exit(97);
}
static void on_log(google::protobuf::LogLevel level, const char* file, int line, const string& msg) {
  if (level == google::protobuf::LOGLEVEL_FATAL)
    fprintf(stderr, "VF-FATAL: %s:%d %s\n", file, line, msg.c_str());
}
Args parse_args(int argc, char** argv) {
  Args a;
  for (int i = 1; i < argc; i++) {
    string k = argv[i];
    if (k.compare(0, 2, "--")) continue;
    k = k.substr(2);
    string v = i + 1 < argc ? argv[i + 1] : "";
    if (k == "verbose") { a.verbose = true; continue; }
    i++;
    if (k == "prop") a.prop = v;
    else if (k == "profile") a.profile = v;
    else if (k == "seed") a.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "cases") a.cases = strtoull(v.c_str(), 0, 10);
    else if (k == "from") a.from = strtoull(v.c_str(), 0, 10);
    else if (k == "case") { a.replay = true; a.replay_seed = strtoull(v.c_str(), 0, 10); }
    else if (k == "out") a.out = v;
    else if (k == "tier") a.tier = atoi(v.c_str());
    else a.kv[k] = v;
  }
  R.only = a.prop;
  google::protobuf::SetLogHandler(on_log);
  warm_protobuf();
  return a;
}
int run_cases(const Args& a, const std::function<void(uint64_t)>& fn) {
  signal(SIGALRM, on_alarm);
  int per_case = a.geti("casetime", 30);
  string pf = a.out.empty() ? "" : a.out + ".progress";
  uint64_t* prog = nullptr;
  if (!pf.empty()) {
    int fd = open(pf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 16) == 0)
      prog = (uint64_t*)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (prog == MAP_FAILED) prog = nullptr;
    if (fd >= 0) close(fd);
  }
  auto one = [&](uint64_t cs) {
    R.case_seed = cs; R.case_bad = false; R.cases++;
    if (prog) { prog[0] = cs; prog[1] = R.cases; }
    alarm(per_case);
    fn(cs);
    alarm(0);
  };
  if (a.replay) one(a.replay_seed);
  else for (uint64_t i = 0; i < a.cases; i++) one(mix(a.seed, a.from + i) >> 1);
  R.finish(a.out);
  return 0;
}

string det(const google::protobuf::MessageLite& m) {
  string s;
  {
    google::protobuf::io::StringOutputStream os(&s);
    google::protobuf::io::CodedOutputStream cs(&os);
    cs.SetSerializationDeterministic(true);
    m.SerializePartialToCodedStream(&cs);
  }
  return s;
}
static void put(string* o, const string& s) { *o += std::to_string(s.size()); *o += ':'; *o += s; }
string labels_key(const google::protobuf::Map<string, string>& l) {
  std::map<string, string> m(l.begin(), l.end());
  string o = std::to_string(m.size()) + "{";
  for (auto& p : m) { put(&o, p.first); put(&o, p.second); }
  return o + "}";
}
template <class RP> static void norm_sets(RP* sets) {
  std::vector<sc::MetricValueSet> v(sets->begin(), sets->end());
  for (auto& s : v) {
    std::vector<std::pair<string, sc::MetricValue>> vals;
    for (auto& x : s.metric_values()) vals.emplace_back(labels_key(x.labels()) + det(x), x);
    std::stable_sort(vals.begin(), vals.end(), [](auto& a, auto& b) { return a.first < b.first; });
    s.clear_metric_values();
    for (auto& x : vals) *s.add_metric_values() = x.second;
  }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.metric_name() < b.metric_name(); });
  sets->Clear();
  for (auto& s : v) *sets->Add() = s;
}
sc::Operation norm_op(const sc::Operation& op) { sc::Operation o(op); norm_sets(o.mutable_metric_value_sets()); return o; }
sc::QuotaOperation norm_qop(const sc::QuotaOperation& op) { sc::QuotaOperation o(op); norm_sets(o.mutable_quota_metrics()); return o; }

string report_identity(const sc::Operation& op) {
  string o = "R"; put(&o, op.consumer_id()); put(&o, op.operation_name()); return o + labels_key(op.labels());
}
string check_identity(const sc::Operation& op) {
  string o = "C"; put(&o, op.operation_name()); put(&o, op.consumer_id()); o += labels_key(op.labels());
  std::map<string, const sc::MetricValueSet*> m;
  for (auto& s : op.metric_value_sets()) m[s.metric_name()] = &s;
  for (auto& p : m) {
    o += "|"; put(&o, p.first);
    for (auto& v : p.second->metric_values()) if (v.labels_size()) o += labels_key(v.labels());
  }
  return o;
}
string quota_identity(const sc::QuotaOperation& op) {
  string o = "Q"; put(&o, op.method_name()); put(&o, op.consumer_id());
  std::set<string> n;
  for (auto& s : op.quota_metrics()) n.insert(s.metric_name());
  for (auto& x : n) { o += "|"; put(&o, x); }
  return o;
}
static bool close_d(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-9;
}
bool op_close(const sc::Operation& x, const sc::Operation& y, string* why) {
  sc::Operation a = norm_op(x), b = norm_op(y);
  // Sorting above may break ties by value; keys here are unique per label set.
  if (a.metric_value_sets_size() != b.metric_value_sets_size()) { *why = "number of metrics"; return false; }
  for (int i = 0; i < a.metric_value_sets_size(); i++) {
    auto* s = a.mutable_metric_value_sets(i); auto* t = b.mutable_metric_value_sets(i);
    if (s->metric_name() != t->metric_name()) { *why = "metric name"; return false; }
    if (s->metric_values_size() != t->metric_values_size()) { *why = "number of values of " + s->metric_name(); return false; }
    for (int j = 0; j < s->metric_values_size(); j++) {
      auto* v = s->mutable_metric_values(j); auto* w = t->mutable_metric_values(j);
      if (v->value_case() != w->value_case()) { *why = "value type of " + s->metric_name(); return false; }
      if (v->value_case() == sc::MetricValue::kDoubleValue && close_d(v->double_value(), w->double_value()))
        w->set_double_value(v->double_value());
      if (v->value_case() == sc::MetricValue::kDistributionValue) {
        auto* d = v->mutable_distribution_value(); auto* e = w->mutable_distribution_value();
        if (close_d(d->mean(), e->mean())) e->set_mean(d->mean());
        if (close_d(d->sum_of_squared_deviation(), e->sum_of_squared_deviation()))
          e->set_sum_of_squared_deviation(d->sum_of_squared_deviation());
      }
      if (det(*v) != det(*w)) { *why = "value of " + s->metric_name() + ": " + shortpb(*v) + " vs " + shortpb(*w); return false; }
    }
  }
  a.clear_metric_value_sets(); b.clear_metric_value_sets();
  if (det(a) != det(b)) {
    *why = "operation fields: " + shortpb(a) + " vs " + shortpb(b); return false;
  }
  return true;
}
bool ts_before(const Timestamp& a, const Timestamp& b) {
  return a.seconds() != b.seconds() ? a.seconds() < b.seconds() : a.nanos() < b.nanos();
}
int64_t sat_add(int64_t a, int64_t b) {
  __int128 s = (__int128)a + b;
  if (s > INT64_MAX) return INT64_MAX;
  if (s < INT64_MIN) return INT64_MIN;
  return (int64_t)s;
}
static bool near(double x, double y) { return std::fabs(x - y) <= 1e-5 * std::fabs(x); }
// to += from; false (and no change) when the bucket layouts differ.
bool dist_merge(const sc::Distribution& f, sc::Distribution* t) {
  if (f.bucket_option_case() != t->bucket_option_case()) return false;
  switch (f.bucket_option_case()) {
    case sc::Distribution::kLinearBuckets:
      if (f.linear_buckets().num_finite_buckets() != t->linear_buckets().num_finite_buckets() ||
          !near(f.linear_buckets().width(), t->linear_buckets().width()) ||
          !near(f.linear_buckets().offset(), t->linear_buckets().offset())) return false;
      break;
    case sc::Distribution::kExponentialBuckets:
      if (f.exponential_buckets().num_finite_buckets() != t->exponential_buckets().num_finite_buckets() ||
          !near(f.exponential_buckets().growth_factor(), t->exponential_buckets().growth_factor()) ||
          !near(f.exponential_buckets().scale(), t->exponential_buckets().scale())) return false;
      break;
    case sc::Distribution::kExplicitBuckets:
      if (f.explicit_buckets().bounds_size() != t->explicit_buckets().bounds_size()) return false;
      for (int i = 0; i < f.explicit_buckets().bounds_size(); i++)
        if (!near(f.explicit_buckets().bounds(i), t->explicit_buckets().bounds(i))) return false;
      break;
    default: return false;
  }
  if (f.bucket_counts_size() != t->bucket_counts_size()) return false;
  if (f.count() <= 0) return true;
  if (t->count() <= 0) { *t = f; return true; }
  long double n1 = t->count(), n2 = f.count(), m1 = t->mean(), m2 = f.mean();
  long double m = (n1 * m1 + n2 * m2) / (n1 + n2);
  long double s = (long double)t->sum_of_squared_deviation() + f.sum_of_squared_deviation() +
                  n1 * (m - m1) * (m - m1) + n2 * (m - m2) * (m - m2);
  t->set_count(sat_add(t->count(), f.count()));
  t->set_mean((double)m); t->set_sum_of_squared_deviation((double)s);
  t->set_minimum(f.minimum() < t->minimum() ? f.minimum() : t->minimum());
  t->set_maximum(f.maximum() > t->maximum() ? f.maximum() : t->maximum());
  for (int i = 0; i < f.bucket_counts_size(); i++)
    t->set_bucket_counts(i, sat_add(t->bucket_counts(i), f.bucket_counts(i)));
  return true;
}
OpModel::OpModel(const sc::Operation& op, const Kinds* k) : base(op), kinds(k) {
  base.clear_metric_value_sets();
  metrics(op);
}
template <class T> static void widen(const T& from, T* to) {
  if (from.has_start_time() && (!to->has_start_time() || ts_before(from.start_time(), to->start_time())))
    *to->mutable_start_time() = from.start_time();
  if (from.has_end_time() && (!to->has_end_time() || ts_before(to->end_time(), from.end_time())))
    *to->mutable_end_time() = from.end_time();
}
void OpModel::merge(const sc::Operation& op) {
  widen(op, &base);
  for (auto& e : op.log_entries()) *base.add_log_entries() = e;
  metrics(op);
}
void OpModel::metrics(const sc::Operation& op) {
  for (auto& s : op.metric_value_sets()) {
    auto& vals = m[s.metric_name()];
    auto kind = MetricDescriptor::DELTA;
    if (kinds) { auto i = kinds->find(s.metric_name()); if (i != kinds->end()) kind = i->second; }
    for (auto& v : s.metric_values()) {
      string lk = labels_key(v.labels());
      auto i = vals.find(lk);
      if (i == vals.end()) { vals[lk] = v; continue; }
      sc::MetricValue* to = &i->second;
      if (kind != MetricDescriptor::DELTA) {
        if (!ts_before(v.end_time(), to->end_time())) *to = v;
        continue;
      }
      if (v.value_case() != to->value_case()) continue;
      widen(v, to);
      if (v.value_case() == sc::MetricValue::kInt64Value) to->set_int64_value(sat_add(to->int64_value(), v.int64_value()));
      else if (v.value_case() == sc::MetricValue::kDoubleValue) to->set_double_value(to->double_value() + v.double_value());
      else if (v.value_case() == sc::MetricValue::kDistributionValue) dist_merge(v.distribution_value(), to->mutable_distribution_value());
    }
  }
}
sc::Operation OpModel::proto() const {
  sc::Operation o(base);
  for (auto& s : m) {
    auto* t = o.add_metric_value_sets(); t->set_metric_name(s.first);
    for (auto& v : s.second) *t->add_metric_values() = v.second;
  }
  return o;
}
}  // namespace vf
