// Who waits for whom. One thread (or two) is stuck in a transport or a callback,
// reached in one of many ways, until another thread is through with its calls,
// none of which has anything to flush: answered from a cache, merged, rejected,
// forwarded. If one of them waits for the first thread, the scheduler sees the
// deadlock; no clock is involved.
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/personality.h>
#include <unistd.h>
#include <algorithm>
#include "core.h"
#include "include/service_control_client.h"
#include "vsched.h"
using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::protobuf::util::OkStatus;
namespace scc = google::service_control_client;
static Args A;

namespace {
struct Loud { int s; Loud() : s(sched::quiet) { sched::quiet = 0; } ~Loud() { sched::quiet = s; } };
struct Hush { Hush() { sched::quiet++; } ~Hush() { sched::quiet--; } };
struct NoTimer : scc::PeriodicTimer { void Stop() override {} };
// What the first thread is stuck in.
enum Stuck { NEW_CHECK, REFRESH_CHECK, URGENT_CHECK, CHECK_DONE, CHECK_DONE_LOCAL, EVICT_CHECK, TICK_CHECK,
             NEW_QUOTA, REFRESH_QUOTA, QUOTA_DONE_LOCAL, EVICT_QUOTA, TICK_QUOTA,
             URGENT_REPORT, REPORT_DONE, REPORT_DONE_LOCAL, EVICT_REPORT, BIG_REPORT, TICK_REPORT, REJECTED_DONE, NSTUCK };
const char* const kStuck[] = {"the transport of a new check", "the transport of a check's refresh", "the transport of an urgent check", "the callback of an answered check", "the callback of a check answered from the cache", "the flush of an evicted check", "the flush of a check by a tick",
  "the send of a new quota call", "the send of a quota refresh", "the callback of a quota call", "the flush of an evicted quota entry", "the refresh of quota by a tick",
  "the transport of an urgent report", "the callback of an answered report", "the callback of a merged report", "the flush of an evicted report", "the flush of a report with many log entries", "the flush of reports by a tick", "the callback of a rejected call"};
int kind_of(int s) { return s <= TICK_CHECK ? 0 : s <= TICK_QUOTA ? 1 : s <= TICK_REPORT ? 2 : 3; }
bool evicts(int s) { return s == EVICT_CHECK || s == EVICT_QUOTA || s == EVICT_REPORT; }
bool ticks(int s) { return s == TICK_CHECK || s == TICK_QUOTA || s == TICK_REPORT; }
// What the second thread does meanwhile.
enum Do { HIT_CHECK, DENIED_CHECK, SAME_CHECK, MISS_CHECK, HIGH_CHECK, BAD_CHECK, HIT_QUOTA, DENIED_QUOTA, SAME_QUOTA, BAD_QUOTA, MERGE_REPORT, FIRST_REPORT, HIGH_REPORT, BAD_REPORT, STATS, TICK, NDO };
const char* const kDo[] = {"check from the cache", "denied check from the cache", "check of the same identity", "new check", "urgent check", "invalid check", "quota call from the cache", "denied quota call from the cache", "quota call of the same identity", "invalid quota call", "merged report", "first report", "urgent report", "invalid report", "GetStatistics", "tick"};

struct World {
  std::unique_ptr<scc::ServiceControlClient> client;
  std::function<void()> tick;
  int stuck_now = 0, stuck_ended = 0, blockers = 0; bool free_to_go = false;
  int in_flush[3] = {0, 0, 0};
  uint64_t seen_stuck[NSTUCK] = {}, done_meanwhile[NDO] = {};
};
World* W;
__thread int t_role = 0;           // 0 setting up, 1 gets stuck, 2 goes on
__thread int t_stuck = 0;          // what the first thread is to be stuck in
__thread bool t_armed = false;     // and it is not yet
bool may_go(void*) { return W->free_to_go; }
bool all_stuck(void*) { return W->stuck_now + W->stuck_ended >= W->blockers; }
void get_stuck() {
  if (t_role != 1 || !t_armed) return;
  t_armed = false;
  W->seen_stuck[t_stuck]++; W->stuck_now++;
  Loud l;
  sched::wait(may_go, nullptr, "the other thread, in a transport or callback");
}
bool in_callback(int s) { return s == CHECK_DONE || s == CHECK_DONE_LOCAL || s == QUOTA_DONE_LOCAL || s == REPORT_DONE || s == REPORT_DONE_LOCAL || s == REJECTED_DONE; }
struct Call { sc::CheckRequest cq; sc::CheckResponse cr; sc::AllocateQuotaRequest qq; sc::AllocateQuotaResponse qr; sc::ReportRequest rq; sc::ReportResponse rr; };
void fill(sc::Operation* op, const string& id, int logs) {
  op->set_operation_id("op"); op->set_operation_name(id); op->set_consumer_id("project:p");
  op->mutable_start_time()->set_seconds(1000); op->mutable_end_time()->set_seconds(1001);
  auto* s = op->add_metric_value_sets(); s->set_metric_name("m"); s->add_metric_values()->set_int64_value(1);
  for (int i = 0; i < logs; i++) op->add_log_entries()->set_name("l");
}
Call* mk_check(const string& id) { Call* x = new Call; x->cq.set_service_name("svc"); fill(x->cq.mutable_operation(), id, 0); return x; }
Call* mk_report(const string& id, int logs = 0) { Call* x = new Call; x->rq.set_service_name("svc"); fill(x->rq.add_operations(), id, logs); return x; }
Call* mk_quota(const string& id) {
  Call* x = new Call; x->qq.set_service_name("svc"); auto* op = x->qq.mutable_allocate_operation(); op->set_operation_id("op"); op->set_method_name(id); op->set_consumer_id("project:p");
  auto* s = op->add_quota_metrics(); s->set_metric_name("m"); s->add_metric_values()->set_int64_value(1); return x;
}
// kind 0 check, 1 quota, 2 report
void issue(Call* x, int kind, bool sync, int* done = nullptr) {
  bool cbstuck = t_role == 1 && in_callback(t_stuck);
  auto cb = [x, cbstuck, done](const Status&) { Hush h; if (done) ++*done; if (cbstuck) get_stuck(); };
  if (sync) {
    { Loud l; if (kind == 0) (void)W->client->Check(x->cq, &x->cr); else if (kind == 1) (void)W->client->Quota(x->qq, &x->qr); else (void)W->client->Report(x->rq, &x->rr); }
    if (done) ++*done;
  } else { Loud l; if (kind == 0) W->client->Check(x->cq, &x->cr, cb); else if (kind == 1) W->client->Quota(x->qq, &x->qr, cb); else W->client->Report(x->rq, &x->rr, cb); }
  delete x;
}
template <class S> void answer(S* s, bool neg, scc::TransportDoneFunc d) {
  (void)s; (void)neg;
  if (!in_callback(t_stuck)) get_stuck();
  Loud l; d(OkStatus());
}
string nm(const char* p, int i) { return p + std::to_string(i); }
struct Thr { int who; pthread_t th; Rng r{1}; int stuck = 0; const std::vector<int>* todo = nullptr; bool full[3] = {}; int lost = 0; };
const int MANY = 12;
// The first thread.
void blocker(Thr* t) {
  t_role = 1; t_stuck = t->stuck; t_armed = true;
  int s = t->stuck; string own = nm("own", t->who);
  bool sync = t->r.chance(30) && !in_callback(s);
  switch (s) {
    case NEW_CHECK: case CHECK_DONE: issue(mk_check("fresh" + own), 0, sync); break;
    case REFRESH_CHECK: issue(mk_check("same"), 0, sync); break;
    case URGENT_CHECK: { Call* x = mk_check("same"); x->cq.mutable_operation()->set_importance(sc::Operation::HIGH); issue(x, 0, sync); break; }
    case CHECK_DONE_LOCAL: issue(mk_check("key1"), 0, false); break;
    case EVICT_CHECK: for (int i = 0; i < 3 && t_armed; i++) { t_armed = false; Call* x = mk_check(nm("evict", i) + own); t_armed = true; issue(x, 0, sync); } break;
    case NEW_QUOTA: issue(mk_quota("fresh" + own), 1, sync); break;
    case REFRESH_QUOTA: issue(mk_quota("same"), 1, sync); break;
    case QUOTA_DONE_LOCAL: issue(mk_quota("key1"), 1, false); break;
    case EVICT_QUOTA: issue(mk_quota("evict" + own), 1, sync); break;
    case URGENT_REPORT: case REPORT_DONE: { Call* x = mk_report("key1"); x->rq.mutable_operations(0)->set_importance(sc::Operation::HIGH); issue(x, 2, sync); break; }
    case REPORT_DONE_LOCAL: issue(mk_report("key1"), 2, false); break;
    case EVICT_REPORT: issue(mk_report("evict" + own), 2, sync); break;
    case BIG_REPORT: issue(mk_report("big" + own, 60), 2, sync); issue(mk_report("big" + own, 60), 2, sync); break;
    case TICK_CHECK: case TICK_QUOTA: case TICK_REPORT: { Loud l; W->tick(); break; }
    case REJECTED_DONE: { int k = t->r.below(3); Call* x = k == 0 ? mk_check("key1") : k == 1 ? mk_quota("key1") : mk_report("key1"); x->cq.set_service_name("no"); x->qq.set_service_name("no"); x->rq.set_service_name("no"); issue(x, k, false); break; }
  }
  if (t_armed) W->stuck_ended++; else W->stuck_now--, W->stuck_ended++;
  t_armed = false;
}
void goer(Thr* t) {
  t_role = 2;
  { Loud l; sched::wait(all_stuck, nullptr, "the first thread to get stuck"); }
  bool meanwhile = W->stuck_now > 0;
  for (int d : *t->todo) {
    int done = 0, want = 1; bool sync = t->r.chance(30);
    string key = nm("key", 1 + t->r.below(3)), neg = nm("neg", t->r.below(2)), mine = nm("mine", t->who) + "." + std::to_string(t->r.below(1000));
    switch (d) {
      case HIT_CHECK: issue(mk_check(key), 0, sync, &done); break;
      case DENIED_CHECK: issue(mk_check(neg), 0, sync, &done); break;
      case SAME_CHECK: issue(mk_check("same"), 0, sync, &done); break;
      case MISS_CHECK: issue(mk_check(mine), 0, sync, &done); break;
      case HIGH_CHECK: { Call* x = mk_check(mine); x->cq.mutable_operation()->set_importance(sc::Operation::HIGH); if (t->full[0]) x->cq.mutable_operation()->set_operation_name(key); issue(x, 0, sync, &done); break; }
      case BAD_CHECK: { Call* x = mk_check(key); if (t->r.chance(50)) x->cq.clear_operation(); else x->cq.set_service_name("no"); issue(x, 0, sync, &done); break; }
      case HIT_QUOTA: issue(mk_quota(key), 1, sync, &done); break;
      case DENIED_QUOTA: issue(mk_quota(neg), 1, sync, &done); break;
      case SAME_QUOTA: issue(mk_quota("same"), 1, sync, &done); break;
      case BAD_QUOTA: { Call* x = mk_quota(key); if (t->r.chance(50)) x->qq.clear_allocate_operation(); else x->qq.set_service_name("no"); issue(x, 1, sync, &done); break; }
      case MERGE_REPORT: issue(mk_report(key, t->r.below(3)), 2, sync, &done); break;
      case FIRST_REPORT: issue(mk_report(mine, t->r.below(3)), 2, sync, &done); break;
      case HIGH_REPORT: { Call* x = mk_report(mine); x->rq.mutable_operations(0)->set_importance(sc::Operation::HIGH); issue(x, 2, sync, &done); break; }
      case BAD_REPORT: { Call* x = mk_report(key); x->rq.set_service_name("no"); issue(x, 2, sync, &done); break; }
      case STATS: { scc::Statistics st; Loud l; (void)W->client->GetStatistics(&st); want = 0; break; }
      case TICK: { Loud l; W->tick(); want = 0; break; }
    }
    if (done != want) t->lost++;
    if (meanwhile) W->done_meanwhile[d]++;
  }
}
int g_goers_left;
void* body(void* p) {
  Thr* t = (Thr*)p;
  sched::enter(t->who, t->todo ? "the one that goes on" : "the one that gets stuck");
  sched::quiet = 1;
  if (t->todo) { goer(t); if (--g_goers_left == 0) W->free_to_go = true; } else blocker(t);
  sched::quiet = 0;
  t_role = 0; t_stuck = 0; t_armed = false;
  sched::leave();
  return nullptr;
}
}  // namespace

static void one(uint64_t cs) {
  Rng r(cs);
  std::unique_ptr<World> w(new World); W = w.get();
  t_role = 0; t_stuck = 0; t_armed = false; sched::quiet = 0;
  vt::set(1000000000);
  int nb = r.chance(25) ? 2 : 1, ng = r.chance(30) ? 2 : 1;
  int st[2]; st[0] = r.below(NSTUCK); st[1] = r.below(NSTUCK);
  // Two of them need the same clock: only one of them depends on it, or both on the same kind.
  auto timed = [](int s) { return ticks(s) || s == REFRESH_CHECK || s == REFRESH_QUOTA; };
  if (nb == 2 && timed(st[0]) && timed(st[1])) st[1] = st[0];
  auto flushes = [&](int s) { return evicts(s) || ticks(s) || s == NEW_QUOTA || s == REFRESH_QUOTA || s == BIG_REPORT; };
  if (nb == 2 && flushes(st[0]) && flushes(st[1]) && kind_of(st[0]) == kind_of(st[1])) st[1] = CHECK_DONE_LOCAL;
  // One way to be stuck in a flush of each kind at a time: a second flush of the same kind may wait.
  // Intervals: what the first thread needs is due at 1100 ms, and made at 0; the rest is made at 600 ms.
  int due = -1; bool refresh = false;
  for (int i = 0; i < nb; i++) if (timed(st[i])) { due = kind_of(st[i]); refresh = st[i] == REFRESH_CHECK || st[i] == REFRESH_QUOTA; }
  const int FAR = 100000000;
  int cf = FAR - 1, ce = FAR, qr = FAR, rf = FAR;
  if (due == 0) { if (refresh) cf = 1000; else { cf = 900; ce = 1000; } }
  if (due == 1) qr = 1000;
  if (due == 2) rf = 1000;
  bool full[3] = {}; for (int i = 0; i < nb; i++) if (evicts(st[i])) full[kind_of(st[i])] = true;
  // Entries made before: MANY old ones, same, key0..3, neg0..1
  int cap = MANY + 1 + 4 + 2;
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(full[0] ? cap : 1000, cf, ce), scc::QuotaAggregationOptions(full[1] ? cap : 1000, qr, FAR), scc::ReportAggregationOptions(full[2] ? cap - 2 : 1000, rf));
  o.check_transport = [](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { Hush h; s->set_operation_id("a"); if (q.operation().operation_name().compare(0, 3, "neg") == 0) s->add_check_errors()->set_detail("no"); answer(s, false, std::move(d)); };
  o.quota_transport = [](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { Hush h; s->set_operation_id("a"); if (q.allocate_operation().method_name().compare(0, 3, "neg") == 0) s->add_allocate_errors()->set_description("no"); answer(s, false, std::move(d)); };
  o.report_transport = [](const sc::ReportRequest&, sc::ReportResponse* s, scc::TransportDoneFunc d) { Hush h; answer(s, false, std::move(d)); };
  o.periodic_timer = [](int, std::function<void()> f) { Hush h; W->tick = f; return std::unique_ptr<scc::PeriodicTimer>(new NoTimer); };
  w->client = scc::CreateServiceControlClient("svc", "conf", o);
  // What is old, each used twice so that there is something to flush.
  for (int i = 0; i < MANY; i++) for (int k = 0; k < 2; k++) { issue(mk_check(nm("old", i)), 0, false); issue(mk_quota(nm("old", i)), 1, false); issue(mk_report(nm("old", i)), 2, false); }
  for (int k = 0; k < 2; k++) { issue(mk_check("same"), 0, false); issue(mk_quota("same"), 1, false); issue(mk_report("same"), 2, false); }
  vt::advance(600000);
  for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) { issue(mk_check(nm("key", i)), 0, false); issue(mk_quota(nm("key", i)), 1, false); issue(mk_report(nm("key", i)), 2, false); }
  for (int i = 0; i < 2; i++) { issue(mk_check(nm("neg", i)), 0, false); issue(mk_quota(nm("neg", i)), 1, false); }
  vt::advance(500000);
  std::vector<int> can;
  for (int d = 0; d < NDO; d++) {
    if (full[0] && (d == MISS_CHECK)) continue;
    if (full[2] && d == FIRST_REPORT) continue;
    if (d == SAME_CHECK && (full[0] || (due == 0 && !refresh))) continue;
    if (d == SAME_QUOTA && (full[1] || (due == 1 && nb == 2))) continue;
    if (d == SAME_QUOTA && due == 1 && !refresh) continue;        // it may be about to be refreshed by this call
    if (d == TICK && refresh) continue;
    can.push_back(d);
  }
  std::vector<int> todo; int n = 1 + r.below(8);
  for (int i = 0; i < n; i++) todo.push_back(can[r.below(can.size())]);
  w->blockers = nb; g_goers_left = ng;
  std::vector<Thr> ts(nb + ng);
  sched::Opt so; so.mode = r.chance(50) ? 1 : 2; so.n = nb + ng; so.seed = r.next();
  static const int pc[] = {0, 3, 25, 60}, pm[] = {0, 20, 200, 1500};
  so.p_sync = pc[r.below(4)]; so.p_mem = pm[r.below(4)]; so.depth = 2 + r.below(4); so.span = r.chance(50) ? 300 : 3000;
  sched::begin(so);
  int up = 0;
  for (int i = 0; i < nb + ng; i++) {
    ts[i].who = i; ts[i].r = Rng(r.next()); for (int k = 0; k < 3; k++) ts[i].full[k] = full[k];
    if (i < nb) ts[i].stuck = st[i]; else ts[i].todo = &todo;
    if (pthread_create(&ts[i].th, nullptr, body, &ts[i])) { fprintf(stderr, "VF-FATAL: no thread\n"); _exit(98); }
    sched::await(++up);
  }
  sched::start(); sched::finish();
  int lost = 0;
  for (auto& t : ts) { sched::release(t.who); pthread_join(t.th, nullptr); lost += t.lost; }
  sched::Stats ss = sched::end();
  if (lost) R.viol({"K07"}, "put-off", std::to_string(lost) + " calls of the second thread returned without their callback having run, while the first was stuck in " + kStuck[st[0]]);
  w->client.reset(); w->tick = nullptr;
  uint64_t stuck = 0, mean = 0;
  for (int i = 0; i < NSTUCK; i++) if (w->seen_stuck[i]) { stuck += w->seen_stuck[i]; R.counters[string("stuck in ") + kStuck[i]] += w->seen_stuck[i]; }
  for (int i = 0; i < NDO; i++) if (w->done_meanwhile[i]) { mean += w->done_meanwhile[i]; R.counters[string("meanwhile: ") + kDo[i]] += w->done_meanwhile[i]; }
  R.counters["stuck"] += stuck; R.counters["calls_meanwhile"] += mean; R.counters["switches"] += ss.switches;
  if (!stuck) R.counters["not_stuck"]++;
  if (A.verbose && !stuck) printf("not stuck: %s\n", kStuck[st[0]]);
  if (R.samples.size() < 3) { string s = "case " + std::to_string(cs) + ": stuck in " + kStuck[st[0]] + (nb == 2 ? string(" and ") + kStuck[st[1]] : "") + "; meanwhile:"; for (int d : todo) s += string(" ") + kDo[d] + ","; R.samples.push_back(s); }
  if (stuck && mean) { R.nontrivial++; R.distinct.insert(mix(ss.hash, mix(st[0] * 64 + (nb == 2 ? st[1] : 63), hash_str(string(todo.begin(), todo.end()))))); }
}
int main(int argc, char** argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  A = parse_args(argc, argv);
  vt::enable(true);
  mallopt(M_ARENA_MAX, 1);
  cpu_set_t all, mine; CPU_ZERO(&all); CPU_ZERO(&mine);
  if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 0) {
    int k = A.geti("shard", getpid()) % CPU_COUNT(&all);
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &mine);
    sched_setaffinity(0, sizeof mine, &mine);
  }
  return run_cases(A, one);
}
