// What a call costs. A case sets up two clients that differ in one respect only
// (how many entries are cached, how long the client has been in use, how many
// metric kinds it knows, how much was merged before, how many answers are
// outstanding), in the second by a factor of a hundred, and puts the same calls
// to both. The work the library does for them, counted in memory accesses,
// allocations and bytes copied, must not grow with it.
#include <algorithm>
#include "core.h"
#include "count.h"
#include "include/service_control_client.h"
using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::protobuf::util::OkStatus;
namespace scc = google::service_control_client;
static Args A;

namespace {
struct Pending { sc::CheckResponse* c = 0; sc::AllocateQuotaResponse* q = 0; scc::TransportDoneFunc done; bool neg = false; };
struct NoTimer : scc::PeriodicTimer { void Stop() override {} };
struct Shape { int entries = 40, room = 40, seen = 0, kinds = 10, merged = 0, names = 0, outstanding = 0; };
enum Dim { ENTRIES, FULL, SEEN, KINDS, MERGED, NAMES, OUTSTANDING, NDIM };
const char* const kDim[] = {"entries cached", "entries in a full cache", "identities seen before", "metric kinds", "calls merged before", "metrics merged before", "answers outstanding"};
const int F = 100000, E = 1000000;                      // ms
struct World {
  bool hold = false; int neg_mod = 0; uint64_t n = 0, sends = 0;
  std::vector<Pending> pending;
  std::function<void()> tick;
  std::unique_ptr<scc::ServiceControlClient> client;
  void settle(Pending p) {
    count::Quiet q;
    if (p.c) { p.c->set_operation_id("an-answer"); if (p.neg) p.c->add_check_errors()->set_detail("no"); }
    if (p.q) { p.q->set_operation_id("an-answer"); if (p.neg) p.q->add_allocate_errors()->set_description("no"); }
    auto d = std::move(p.done);
    count::quiet--; d(OkStatus()); d = nullptr; count::quiet++;
  }
  void send(Pending p) { sends++; if (hold) pending.push_back(std::move(p)); else settle(std::move(p)); }
};
World* W;
struct Call { sc::CheckRequest cq; sc::CheckResponse cr; sc::AllocateQuotaRequest qq; sc::AllocateQuotaResponse qr; sc::ReportRequest rq; sc::ReportResponse rr; };
struct Gen { int metrics, labels, logs, dist; string pad; };
struct Sums { std::vector<uint64_t> v; };
typedef std::map<string, Sums> Costs;

void fill(sc::Operation* op, const Gen& g, const string& id, int name) {
  op->set_operation_id("op"); op->set_operation_name(id); op->set_consumer_id("project:" + g.pad);
  for (int i = 0; i < g.labels; i++) (*op->mutable_labels())["label" + std::to_string(i)] = g.pad;
  op->mutable_start_time()->set_seconds(1000); op->mutable_end_time()->set_seconds(1001);
  for (int i = 0; i < g.metrics; i++) {
    auto* s = op->add_metric_value_sets(); s->set_metric_name("metric" + std::to_string(name >= 0 ? name * g.metrics + i : i));
    auto* v = s->add_metric_values();
    if (i % 2 && g.dist) { auto* d = v->mutable_distribution_value(); auto* b = d->mutable_linear_buckets(); b->set_num_finite_buckets(g.dist); b->set_width(1); b->set_offset(0); d->set_count(1); d->set_mean(1); d->set_minimum(1); d->set_maximum(1); for (int k = 0; k < g.dist + 2; k++) d->add_bucket_counts(k == 1); }
    else v->set_int64_value(1);
  }
}
void check(Call* x, const Gen& g, const string& id, int name = -1) { x->cq.set_service_name("svc"); fill(x->cq.mutable_operation(), g, id, name); }
void report(Call* x, const Gen& g, const string& id, int name = -1) {
  x->rq.set_service_name("svc"); auto* op = x->rq.add_operations(); fill(op, g, id, name);
  if (name < 0) for (int i = 0; i < g.logs; i++) op->add_log_entries()->set_name("log" + g.pad);
}
void quota(Call* x, const Gen& g, const string& id, int = -1) {
  x->qq.set_service_name("svc"); auto* op = x->qq.mutable_allocate_operation(); op->set_operation_id("op"); op->set_method_name("m" + id); op->set_consumer_id("project:" + g.pad);
  for (int i = 0; i < g.metrics; i++) { auto* s = op->add_quota_metrics(); s->set_metric_name("quota" + std::to_string(i) + id); s->add_metric_values()->set_int64_value(1); }
}
enum What { CHECK, QUOTA, REPORT };
const char* const kWhat[] = {"check", "quota", "report"};
void make(Call* x, int what, const Gen& g, const string& id, int name = -1) { what == CHECK ? check(x, g, id, name) : what == QUOTA ? quota(x, g, id, name) : report(x, g, id, name); }
void issue(Call* x, int what) {
  auto cb = [](const Status&) {};
  if (what == CHECK) W->client->Check(x->cq, &x->cr, cb); else if (what == QUOTA) W->client->Quota(x->qq, &x->qr, cb); else W->client->Report(x->rq, &x->rr, cb);
}
uint64_t probe(Call* x, int what) { count::Probe p; issue(x, what); return p.stop(); }
// Identities of one length, so that they cost the same.
string ident(const char* what, uint64_t i) { char b[40]; snprintf(b, sizeof b, "%s%08llu", what, (unsigned long long)i); return b; }
}  // namespace

// The work done for each probe with a client of this shape.
static Costs run(const Shape& s, const Gen& g, uint64_t seed, const int* room, uint64_t* total) {
  std::unique_ptr<World> w(new World); W = w.get();
  Rng r(seed);
  Costs out;
  vt::set(1000000000);
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(room[0], F, E), scc::QuotaAggregationOptions(room[1], F, E), scc::ReportAggregationOptions(room[2], F));
  o.check_transport = [](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { count::Quiet qu; Pending p; p.c = s; p.done = std::move(d); p.neg = q.operation().operation_name().compare(0, 3, "neg") == 0; W->send(std::move(p)); };
  o.quota_transport = [](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { count::Quiet qu; Pending p; p.q = s; p.done = std::move(d); p.neg = q.allocate_operation().method_name().compare(0, 4, "mneg") == 0; W->send(std::move(p)); };
  o.report_transport = [](const sc::ReportRequest&, sc::ReportResponse*, scc::TransportDoneFunc d) { count::Quiet qu; Pending p; p.done = std::move(d); W->send(std::move(p)); };
  o.periodic_timer = [](int, std::function<void()> fn) { count::Quiet qu; W->tick = fn; return std::unique_ptr<scc::PeriodicTimer>(new NoTimer); };
  auto kinds = std::make_shared<scc::MetricKindMap>();
  for (int i = 0; i < s.kinds; i++) (*kinds)["kind" + std::to_string(i)] = google::api::MetricDescriptor::GAUGE;
  o.metric_kinds = kinds;
  w->client = scc::CreateServiceControlClient("svc", "conf", o);
  // ---- the client has been in use
  auto all = [&](const char* what, uint64_t i, int name = -1) { for (int k = 0; k < 3; k++) { Call x; make(&x, k, g, ident(what, i), name); issue(&x, k); } };
  for (int i = 0; i < s.seen; i++) all("old", i);
  for (int i = 0; i < s.entries; i++) all("key", i);
  for (int i = 0; i < 8; i++) all("neg", i);
  for (int i = 0; i < s.merged; i++) all("key", s.entries - 1 - i % 8);
  for (int i = 0; i < s.names; i++) { Gen h = g; h.metrics = 1; Call x; make(&x, CHECK, h, ident("key", s.entries - 1), i); /* another identity */ issue(&x, CHECK); for (int k = 0; k < 8; k++) { Call y; make(&y, REPORT, h, ident("key", s.entries - 1 - k), i); issue(&y, REPORT); } }
  std::list<Call> out_calls;
  w->hold = true;
  for (int i = 0; i < s.outstanding; i++) for (int k = 0; k < 3; k++) { out_calls.emplace_back(); Call* x = &out_calls.back(); make(x, k, g, ident("out", i)); if (k == REPORT) x->rq.mutable_operations(0)->set_importance(sc::Operation::HIGH); issue(x, k); }
  w->hold = false;
  // ---- the probes
  const int N = 40;
  auto add = [&](const string& n, uint64_t c) { out[n].v.push_back(c); *total += c; };
  for (int i = 0; i < N; i++) {
    for (int k = 0; k < 3; k++) {
      string n = kWhat[k];
      { Call x; make(&x, k, g, ident("key", s.entries - 1 - r.below(8))); add("a " + n + " of a cached identity", probe(&x, k)); }
      if (k != REPORT) { Call x; make(&x, k, g, ident("neg", r.below(4))); add("a " + n + " of a denied identity", probe(&x, k)); }
      { Call x; make(&x, k, g, ident("bad", i)); x.cq.set_service_name("other"); x.qq.set_service_name("other"); x.rq.set_service_name("other"); add("a " + n + ", invalid", probe(&x, k)); }
      if (k != QUOTA) { Call x; make(&x, k, g, ident("key", r.below(s.entries))); if (k == CHECK) x.cq.mutable_operation()->set_importance(sc::Operation::HIGH); else x.rq.mutable_operations(0)->set_importance(sc::Operation::HIGH); add("a " + n + ", urgent", probe(&x, k)); }
    }
    { scc::Statistics st; count::Probe p; (void)w->client->GetStatistics(&st); add("GetStatistics", p.stop()); }
    { count::Probe p; w->tick(); add("a tick with nothing due", p.stop()); }
  }
  for (int i = 0; i < N; i++) for (int k = 0; k < 3; k++) { Call x; make(&x, k, g, ident("new", i)); add("a " + string(kWhat[k]) + " of a new identity", probe(&x, k)); }
  for (int i = 0; i < N && !w->pending.empty(); i++) { Pending p = std::move(w->pending.front()); w->pending.erase(w->pending.begin()); count::Probe c; w->settle(std::move(p)); c.stop(); }
  {  // answers that come later, while much is cached
    w->hold = true; std::list<Call> l; size_t at = w->pending.size();
    for (int i = 0; i < N; i++) for (int k = 0; k < 2; k++) { l.emplace_back(); make(&l.back(), k, g, ident("lat", i)); issue(&l.back(), k); }
    w->hold = false;
    while (w->pending.size() > at) { Pending p = std::move(w->pending.back()); w->pending.pop_back(); bool c = p.c; count::Probe b; w->settle(std::move(p)); add(c ? "the answer to a check" : "the answer to a quota call", b.stop()); }
  }
  {  // what is due for a refresh
    vt::advance((int64_t)(F + 1) * 1000);
    for (int i = 0; i < 12; i++) { Call x; make(&x, CHECK, g, ident("lat", i)); add("a check that is due for a refresh", probe(&x, CHECK)); }
    // all reports are flushed: the work for each of them
    uint64_t held = s.merged || s.names ? 0 : (uint64_t)std::min(s.entries + 8 + N, room[2]) + std::min(s.entries + 8 + 2 * N + s.outstanding, room[1]);
    count::Probe p; w->tick(); uint64_t c = p.stop(); if (held) add("a tick, for each of the entries due", c / held);
  }
  {
    vt::advance((int64_t)(E + 1) * 1000);
    uint64_t held = std::min(s.entries + 8 + 2 * N, room[0]) + std::min(s.entries + 8 + 2 * N + s.outstanding, room[1]);
    count::Probe p; w->tick(); uint64_t c = p.stop(); if (!s.merged && !s.names) add("a tick, for each of the entries expired", c / held);
    for (int i = 0; i < N; i++) for (int k = 0; k < 3; k++) { Call x; make(&x, k, g, ident("aft", i)); add("a " + string(kWhat[k]) + " after all had expired", probe(&x, k)); }
  }
  while (!w->pending.empty()) { Pending p = std::move(w->pending.back()); w->pending.pop_back(); w->settle(std::move(p)); }
  for (int i = 0; i < s.entries; i++) all("end", i);
  { count::Probe p; w->client.reset(); uint64_t c = p.stop(); if (!s.merged && !s.names && !s.outstanding) add("destruction, for each entry", c / (std::min(s.entries, room[0]) + std::min(s.entries, room[1]) + std::min(s.entries, room[2]))); }
  w->tick = nullptr;
  return out;
}

static void one(uint64_t cs) {
  Rng r(cs);
  int dim = r.below(NDIM);
  Gen g; g.metrics = r.below(4); g.labels = r.below(5); g.logs = r.below(3); g.dist = r.chance(50) ? 0 : 1 + r.below(20); g.pad = string(1 + r.below(60), 'x');
  if (!g.metrics) g.metrics = r.below(2);
  Shape a, b;
  a.entries = 20 + r.below(40);
  int k = 40 + r.below(80);                                // how much more
  b = a;
  if (dim == ENTRIES || dim == FULL) b.entries = a.entries * k;
  if (dim == SEEN) { a.seen = 2 * a.entries + 200; b.seen = a.seen * k; }
  if (dim == KINDS) b.kinds = a.kinds * 10 * k;
  if (dim == MERGED) { a.merged = 10; b.merged = a.merged * k * 2; g.logs = g.logs ? r.below(2) : 0; }
  if (dim == NAMES) { a.names = 10; b.names = a.names * k; }
  if (dim == OUTSTANDING) { a.outstanding = 24; b.outstanding = a.outstanding * k / 2; }
  int ra[3], rb[3];
  bool same_room = dim != FULL && r.chance(50);
  for (int i = 0; i < 3; i++) {
    if (dim == FULL) { ra[i] = a.entries; rb[i] = b.entries; }
    else { int m = 2 * (std::max(a.entries, b.entries) + std::max(a.outstanding, b.outstanding) + 200 + std::max(a.names, b.names)); rb[i] = m; ra[i] = same_room ? m : 2 * (a.entries + a.outstanding + 200 + a.names); if (dim == SEEN) ra[i] = rb[i] = a.entries + 100; }
  }
  uint64_t wa = 0, wb = 0, seed = r.next();
  Costs ca = run(a, g, seed, ra, &wa), cb = run(b, g, seed, rb, &wb);
  if (A.verbose) printf("case %llu dim %s\n", (unsigned long long)cs, kDim[dim]);
  uint64_t compared = 0;
  const int lo[] = {a.entries, a.entries, a.seen, a.kinds, a.merged, a.names, a.outstanding}, hi[] = {b.entries, b.entries, b.seen, b.kinds, b.merged, b.names, b.outstanding};
  for (auto& p : ca) {
    auto& q = cb[p.first];
    if (p.second.v.empty() || q.v.empty()) continue;
    auto sum = [](std::vector<uint64_t> v) { uint64_t s = 0; for (auto x : v) s += x; return s; };
    auto med = [](std::vector<uint64_t> v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; };
    uint64_t ma = med(p.second.v), mb = med(q.v), aa = sum(p.second.v) / p.second.v.size(), ab = sum(q.v) / q.v.size();
    compared++;
    // The median of 40 equal calls may grow by what longer hash chains or a deeper
    // tree need, the mean by what a table that grows now and then needs.
    if (mb > ma + ma / 2 + 300 || (ab > 3 * aa + 2000 && !(dim == MERGED && g.logs)))  // a hundred log entries are flushed at once
      R.viol({"P01"}, string("grows-with-") + kDim[dim], "the work for " + p.first + " grows with the number of " + kDim[dim] + " (" + std::to_string(lo[dim]) + " -> " + std::to_string(hi[dim]) + "): median " + std::to_string(ma) + " -> " + std::to_string(mb) + ", mean " + std::to_string(aa) + " -> " + std::to_string(ab) + " accesses");
    if (A.verbose) printf("  %-45s median %8llu -> %8llu   mean %8llu -> %8llu\n", p.first.c_str(), (unsigned long long)ma, (unsigned long long)mb, (unsigned long long)aa, (unsigned long long)ab);
  }
  R.counters["probes"] += compared; R.counters[string("compared: ") + kDim[dim]] += compared;
  R.counters["work"] += wa + wb;
  if (R.samples.size() < 3) R.samples.push_back("case " + std::to_string(cs) + ": " + std::to_string(compared) + " kinds of calls compared, " + kDim[dim] + " " + std::to_string(lo[dim]) + " -> " + std::to_string(hi[dim]) + ", work " + std::to_string(wa) + " -> " + std::to_string(wb));
  R.nontrivial++; R.distinct.insert(mix(wa, wb));
}
int main(int argc, char** argv) {
  A = parse_args(argc, argv);
  vt::enable(true);
  count::quiet = 1;
  return run_cases(A, one);
}
