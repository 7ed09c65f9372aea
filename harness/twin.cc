// One generated script of calls, answers, ticks and pauses, run twice against
// fresh clients: once as it is, and once without some of its steps. What the
// service and the callers observe of the remaining steps must be the same.
//   rejected: without the calls that are rejected (D02)
//   other:    without everything that concerns a second client (I01)
//   stats:    without reading the statistics (S01)
//   again:    with nothing left out: the outcome depends on the script only (I01)
//   apart:    the scripts of two or three clients, at the same time, each in a
//             thread of its own, and one after the other (I01)
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/personality.h>
#include <unistd.h>
#include <algorithm>
#include "core.h"
#include "gen.h"
#include "include/service_control_client.h"
#include "vsched.h"
using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::protobuf::util::OkStatus;
namespace scc = google::service_control_client;
static Args A;

namespace {
// The driver's own code is not a place where threads are switched.
struct Loud { int s; Loud() : s(sched::quiet) { sched::quiet = 0; } ~Loud() { sched::quiet = s; } };
struct Hush { Hush() { sched::quiet++; } ~Hush() { sched::quiet--; } };
enum What { CHECK, QUOTA, REPORT, ADVANCE, TICK, ANSWER, STATS, CREATE, DESTROY };
const char* const kWhat[] = {"check", "quota", "report", "advance", "tick", "answer", "statistics", "create", "destroy"};
enum How { GLOBAL, OWN, SYNC };
enum Bad { NONE, SERVICE, NOOP, EMPTY };
struct Step {
  What what; int who = 0; How how = GLOBAL; Bad bad = NONE; int64_t arg = 0;
  std::shared_ptr<sc::CheckRequest> cq; std::shared_ptr<sc::AllocateQuotaRequest> qq; std::shared_ptr<sc::ReportRequest> rq;
};
struct Conf {
  int c_num, c_flush, c_exp, q_num, q_ref, q_exp, r_num, r_flush; bool has[3], timer;
  int p_defer, p_fail, p_neg; uint64_t seed; string service, config;
  std::shared_ptr<scc::MetricKindMap> kinds;
};
struct Pending { What kind; string bytes; sc::CheckResponse* c = 0; sc::AllocateQuotaResponse* q = 0; sc::ReportResponse* r = 0; scc::TransportDoneFunc done; uint64_t h; };
struct NoTimer : scc::PeriodicTimer { void Stop() override {} };
struct Out { sc::CheckResponse c; sc::AllocateQuotaResponse q; sc::ReportResponse r; sc::CheckRequest cq; sc::AllocateQuotaRequest qq; sc::ReportRequest rq; };
typedef std::vector<string> Log;

// One client and the service it talks to.
struct Side {
  Conf cf; std::unique_ptr<scc::ServiceControlClient> client; std::function<void()> tick;
  std::vector<Pending> pending; std::map<string, int> times; Log log; int must = 0;
  std::map<int, std::unique_ptr<Out>> outs;
  scc::Statistics st;
  void make() {
    scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(cf.c_num, cf.c_flush, cf.c_exp), scc::QuotaAggregationOptions(cf.q_num, cf.q_ref, cf.q_exp), scc::ReportAggregationOptions(cf.r_num, cf.r_flush));
    if (cf.has[0]) o.check_transport = [this](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { send(q, s, d, false); };
    if (cf.has[1]) o.quota_transport = [this](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { send(q, s, d, false); };
    if (cf.has[2]) o.report_transport = [this](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) { send(q, s, d, false); };
    if (cf.timer) o.periodic_timer = [this](int ms, std::function<void()> f) { Hush h; log.push_back("timer of " + std::to_string(ms) + " ms"); tick = f; return std::unique_ptr<scc::PeriodicTimer>(new NoTimer); };
    o.metric_kinds = cf.kinds;
    Loud l;
    client = scc::CreateServiceControlClient(cf.service, cf.config, o);
  }
  void send(const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d, bool) { Hush h; Pending p; p.kind = CHECK; p.bytes = det(q); p.c = s; p.done = std::move(d); take(std::move(p)); }
  void send(const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d, bool) { Hush h; Pending p; p.kind = QUOTA; p.bytes = det(q); p.q = s; p.done = std::move(d); take(std::move(p)); }
  void send(const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d, bool) { Hush h; Pending p; p.kind = REPORT; p.bytes = det(q); p.r = s; p.done = std::move(d); take(std::move(p)); }
  // What the service does depends on the request, and on how often it came.
  void take(Pending p) {
    string k = string(1, (char)p.kind) + p.bytes;
    p.h = mix(cf.seed ^ hash_str(k), times[k]++);
    log.push_back(string("sent ") + kWhat[p.kind] + " " + hexless(p));
    Rng r(p.h);
    if (!must && r.chance(cf.p_defer)) { pending.push_back(std::move(p)); return; }
    answer(std::move(p));
  }
  static string hexless(const Pending& p) {
    if (p.kind == CHECK) { sc::CheckRequest q; q.ParseFromString(p.bytes); return shortpb(q) + " #" + std::to_string(hash_str(p.bytes)); }
    if (p.kind == QUOTA) { sc::AllocateQuotaRequest q; q.ParseFromString(p.bytes); return shortpb(q) + " #" + std::to_string(hash_str(p.bytes)); }
    sc::ReportRequest q; q.ParseFromString(p.bytes); return shortpb(q) + " #" + std::to_string(hash_str(p.bytes));
  }
  void answer(Pending p) {
    Rng r(p.h ^ 0xA5);
    bool fail = r.chance(cf.p_fail), neg = r.chance(cf.p_neg); string rid = "rsp-" + std::to_string(r.below(1000000));
    if (!fail) {
      if (p.c) { p.c->set_operation_id(rid); if (neg) p.c->add_check_errors()->set_detail(rid); }
      if (p.q) { p.q->set_operation_id(rid); if (neg) p.q->add_allocate_errors()->set_description(rid); }
      if (p.r) p.r->set_service_config_id(rid);
    }
    scc::TransportDoneFunc d = std::move(p.done);
    Status st = fail ? vf::failed(r, rid) : OkStatus();
    Loud l;
    d(st);
    d = nullptr;
  }
};
struct Run {
  std::vector<Log> seen;           // of the steps that were not left out
  std::vector<int> index;          // and which these are
  std::vector<Log> left;           // what the steps in question showed, if they ran
  scc::Statistics st[2]; uint64_t sends = 0, done = 0, rejected = 0;
  std::vector<std::vector<long long>> stats;
};
}  // namespace

static bool dropped(const Step& s, int mode) {
  if (mode == 0) return s.what <= REPORT && s.bad != NONE && s.who == 0;
  if (mode == 1) return s.who == 1;
  if (mode == 2) return s.what == STATS;
  return false;
}
static const char* statname[] = {"total_called_checks", "send_checks_by_flush", "send_checks_in_flight", "total_called_quotas", "send_quotas_by_flush", "send_quotas_in_flight", "total_called_reports", "send_reports_by_flush", "send_reports_in_flight", "send_report_operations"};
static std::vector<long long> nums(const scc::Statistics& s) {
  return {(long long)s.total_called_checks, (long long)s.send_checks_by_flush, (long long)s.send_checks_in_flight, (long long)s.total_called_quotas, (long long)s.send_quotas_by_flush, (long long)s.send_quotas_in_flight,
          (long long)s.total_called_reports, (long long)s.send_reports_by_flush, (long long)s.send_reports_in_flight, (long long)s.send_report_operations};
}
static const int SIDES = 3;
// The steps of one client only, if only >= 0.
static Run play(const std::vector<Step>& script, const Conf* cf, int mode, bool leave_out, int only = -1) {
  Run run;
  vt::set(mode == 3 && leave_out ? 1760000000000000 : 1000000000);
  Side side[SIDES]; for (int i = 0; i < SIDES; i++) side[i].cf = cf[i];
  long long rejected[3] = {0, 0, 0};
  int n = 0;
  for (auto& s : script) {
    n++;
    bool q = dropped(s, mode);
    if (q && leave_out) continue;
    if (only >= 0 && s.who != only && s.what != ADVANCE) continue;
    Side& w = side[only >= 0 ? only : s.who];
    for (auto& x : side) x.log.clear();
    w.must = s.how == SYNC;
    auto cb = [&w, n](const Status& st) {
      Hush h;
      Out* o = w.outs[n].get();
      w.log.push_back("done " + std::to_string(n) + " " + st.ToString() + " " + shortpb(o->c) + shortpb(o->q) + shortpb(o->r));
    };
    std::vector<long long> sv;
    if (s.what <= REPORT && w.client) {
      Out* o = (w.outs[n].reset(new Out), w.outs[n].get());
      if (s.bad) { run.rejected++; if (s.who == 0) rejected[s.what]++; }
      if (s.what == CHECK) {
        o->cq = *s.cq;
        if (s.how == SYNC) { Status st; { Loud l; st = w.client->Check(o->cq, &o->c); } cb(st); }
        else if (s.bad == EMPTY && s.how == OWN) { Loud l; w.client->Check(o->cq, &o->c, cb, nullptr); }
        else if (s.how == OWN) { Loud l; w.client->Check(o->cq, &o->c, cb, [&w](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { w.send(q, s, d, true); }); }
        else { Loud l; w.client->Check(o->cq, &o->c, cb); }
      } else if (s.what == QUOTA) {
        o->qq = *s.qq;
        if (s.how == SYNC) { Status st; { Loud l; st = w.client->Quota(o->qq, &o->q); } cb(st); }
        else if (s.bad == EMPTY && s.how == OWN) { Loud l; w.client->Quota(o->qq, &o->q, cb, nullptr); }
        else if (s.how == OWN) { Loud l; w.client->Quota(o->qq, &o->q, cb, [&w](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { w.send(q, s, d, true); }); }
        else { Loud l; w.client->Quota(o->qq, &o->q, cb); }
      } else {
        o->rq = *s.rq;
        if (s.how == SYNC) { Status st; { Loud l; st = w.client->Report(o->rq, &o->r); } cb(st); }
        else if (s.bad == EMPTY && s.how == OWN) { Loud l; w.client->Report(o->rq, &o->r, cb, nullptr); }
        else if (s.how == OWN) { Loud l; w.client->Report(o->rq, &o->r, cb, [&w](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) { w.send(q, s, d, true); }); }
        else { Loud l; w.client->Report(o->rq, &o->r, cb); }
      }
    } else if (s.what == ADVANCE) vt::advance(s.arg);
    else if (s.what == TICK) { if (w.tick) { Loud l; w.tick(); } }
    else if (s.what == ANSWER) {
      if (!w.pending.empty()) { size_t i = s.arg % w.pending.size(); Pending p = std::move(w.pending[i]); w.pending.erase(w.pending.begin() + i); w.answer(std::move(p)); }
    } else if (s.what == STATS) {
      scc::Statistics st; memset(&st, 0, sizeof st);
      if (w.client) { { Loud l; (void)w.client->GetStatistics(&st); } sv = nums(st); if (s.who == 0) { sv[0] -= rejected[0]; sv[3] -= rejected[1]; sv[6] -= rejected[2]; } }
    } else if (s.what == CREATE) { if (!w.client) w.make(); }
    else if (s.what == DESTROY) {
      scc::Statistics st; memset(&st, 0, sizeof st);
      if (w.client) { { Loud l; (void)w.client->GetStatistics(&st); } sv = nums(st); if (s.who == 0) { sv[0] -= rejected[0]; sv[3] -= rejected[1]; sv[6] -= rejected[2]; } }
      { Loud l; w.client.reset(); }
    }
    w.must = 0;
    Log l = w.log;
    for (auto& o : side) if (&o != &w && o.log.size()) { l.push_back("the other client did this:"); for (auto& x : o.log) l.push_back(x); }
    for (auto& x : l) { if (x.compare(0, 4, "sent") == 0) run.sends++; else run.done++; }
    std::sort(l.begin(), l.end());
    if (!q) { run.index.push_back(n - 1); run.seen.push_back(l); run.stats.push_back(sv); }
    else if (mode == 0) {
      string why;
      if (l.size() != 1 || l[0].find("done " + std::to_string(n) + " INVALID_ARGUMENT") != 0) {
        if (w.client) { for (auto& x : l) why += x + "; "; R.viol({"D02"}, "not-just-rejected", string("an invalid ") + kWhat[s.what] + " did not just finish with INVALID_ARGUMENT: " + why); }
      }
    }
  }
  for (auto& w : side) { { Loud l; w.client.reset(); } while (!w.pending.empty()) { Pending p = std::move(w.pending.back()); w.pending.pop_back(); w.answer(std::move(p)); } w.tick = nullptr; }
  return run;
}
// Scripts played at the same time.
struct Player { int who; const std::vector<Step>* script; const Conf* cf; bool free; pthread_t th; Run run; };
static const char* const kPlayer[] = {"first client", "second client", "third client"};
static void* player(void* p) {
  Player* x = (Player*)p;
  vt::own(true);
  if (!x->free) sched::enter(x->who, kPlayer[x->who]);
  sched::quiet = 1;
  x->run = play(*x->script, x->cf, 4, true, x->who);
  sched::quiet = 0;
  if (!x->free) sched::leave();
  return nullptr;
}
static void compare(const std::vector<Step>& script, const Run& a, const Run& b, const std::vector<string>& props, int mode, const char* name, const string& without);
static void apart(Rng& r, const std::vector<Step>& script, const Conf* cf, int n) {
  bool free = A.geti("free", 0);
  std::vector<Player> ps(n);
  sched::Opt o; o.mode = free ? 0 : r.chance(50) ? 1 : 2; o.n = n; o.seed = r.next();
  static const int pc[] = {3, 10, 25, 60}, pm[] = {0, 20, 200, 1500};
  o.p_sync = pc[r.below(4)]; o.p_mem = pm[r.below(4)]; o.depth = 2 + r.below(4); o.span = script.size() * (r.chance(50) ? 30 : r.chance(50) ? 300 : 3000);
  sched::begin(o);
  int up = 0;
  for (int i = 0; i < n; i++) {
    ps[i].who = i; ps[i].script = &script; ps[i].cf = cf; ps[i].free = free;
    if (pthread_create(&ps[i].th, nullptr, player, &ps[i])) { fprintf(stderr, "VF-FATAL: no thread\n"); _exit(98); } else if (!free) sched::await(++up);
  }
  if (!free) { sched::start(); sched::finish(); }
  for (int i = 0; i < n; i++) { if (!free) sched::release(i); pthread_join(ps[i].th, nullptr); }
  sched::Stats ss = sched::end();
  // Alone only now: what is set up at the first use was set up by all at once.
  std::vector<Run> solo(n);
  vt::own(true); sched::quiet = 1;
  for (int i = 0; i < n; i++) solo[i] = play(script, cf, 4, true, i);
  sched::quiet = 0; vt::own(false);
  R.counters["points"] += ss.points; R.counters["memory_points"] += ss.mem_points; R.counters["switches"] += ss.switches; R.counters["waited"] += ss.contended;
  R.counters["twins_apart"]++;
  uint64_t sends = 0;
  for (int i = 0; i < n; i++) {
    R.counters["twin_steps"] += solo[i].seen.size(); R.counters["twin_sends"] += solo[i].sends; R.counters["callbacks"] += solo[i].done; sends += solo[i].sends;
    if (!R.case_bad) compare(script, solo[i], ps[i].run, {"I01"}, 4, "apart", "while other clients were at work in other threads");
  }
  if (sends && (ss.switches || free)) { R.nontrivial++; R.distinct.insert(mix(ss.hash, R.case_seed)); }
}
static void one(uint64_t cs) {
  Rng r(cs); Gen g(r);
  static const int kMs[] = {1, 2, 3, 5, 8, 10, 20, 50, 100, 125, 200, 250, 500, 1000};
  std::vector<int> ms(kMs, kMs + 14);
  Conf cf[SIDES];
  for (auto& c : cf) {
    auto cap = [&]() { return r.chance(10) ? 0 : r.chance(15) ? 1000 : 1 + (int)r.below(r.chance(50) ? 4 : 30); };
    c.c_num = cap(); c.q_num = cap(); c.r_num = cap();
    c.c_flush = r.pick(ms); c.c_exp = c.c_flush + 1 + r.below(300); c.q_ref = r.pick(ms); c.q_exp = c.q_ref * (1 + r.below(4)); c.r_flush = r.pick(ms);
    for (int i = 0; i < 3; i++) c.has[i] = !r.chance(8);
    c.timer = r.chance(80); c.p_defer = r.pick(std::vector<int>{0, 20, 60}); c.p_fail = r.pick(std::vector<int>{0, 10, 50}); c.p_neg = r.pick(std::vector<int>{0, 10, 50});
    c.seed = r.next();
    c.service = r.chance(50) ? "svc.example.com" : "other.example.com"; c.config = r.chance(50) ? "c1" : "c2";
    if (r.chance(60)) { c.kinds = std::make_shared<scc::MetricKindMap>(); using MD = google::api::MetricDescriptor; (*c.kinds)["m/gauge"] = MD::GAUGE; if (r.chance(50)) (*c.kinds)["m/bytes"] = r.chance(50) ? MD::CUMULATIVE : MD::DELTA; }
  }
  if (r.chance(50)) for (int i = 1; i < SIDES; i++) { cf[i].service = cf[0].service; cf[i].config = cf[0].config; }
  std::vector<Gen::Ident> cpool, qpool, rpool;
  int nid = 1 + r.below(6);
  for (int i = 0; i < nid; i++) { cpool.push_back(g.ident(4)); qpool.push_back(g.ident(4)); rpool.push_back(g.ident(4)); }
  std::vector<Step> script;
  uint64_t id = 1;
  int mode = A.geti("mode", -1); if (mode < 0) mode = r.below(10) < 5 ? 0 : r.chance(60) ? 1 : r.chance(60) ? 2 : 3;
  if (r.chance(30)) { bool same = r.chance(50); for (int i = 1; i < SIDES; i++) if (same || cf[i].kinds) cf[i].kinds = cf[0].kinds; }
  if (mode == 4) for (auto& c : cf) c.p_defer = std::min(c.p_defer, 20);
  int two = mode == 1 || mode == 3 ? 1 : mode == 4 ? 1 + r.below(2) : 0, p_bad = mode == 0 ? 5 + r.below(40) : 5;
  { Step s; s.what = CREATE; script.push_back(s); }
  for (int k = 1; k <= two; k++) { Step s; s.what = CREATE; s.who = k; if (r.chance(50)) script.push_back(s); else script.insert(script.begin(), s); }
  int steps = (15 + r.below(80)) * (mode == 4 ? 1 + two : 1);
  if (mode == 4 && A.geti("free", 0)) steps *= 4;

  for (int i = 0; i < steps; i++) {
    Step s; s.who = two ? r.below(1 + two) : 0;
    const Conf& c = cf[s.who];
    int x = r.below(100);
    if (x < 66) {
      s.what = x < 22 ? CHECK : x < 44 ? QUOTA : REPORT;
      bool has = c.has[s.what];
      s.how = r.chance(25) ? OWN : r.chance(10) ? SYNC : GLOBAL;
      if (!has && s.how != OWN && !r.chance(30)) s.how = OWN;
      if (!has && s.how != OWN) s.bad = EMPTY;
      if (r.chance(p_bad)) { s.bad = (Bad)(1 + r.below(3)); if (s.bad == EMPTY && has) s.how = OWN; }
      string svc = s.bad == SERVICE ? (r.chance(30) ? "" : r.chance(50) ? c.service + "x" : c.service.substr(1)) : c.service;
      if (s.what == CHECK) {
        s.cq.reset(new sc::CheckRequest); s.cq->set_service_name(svc); if (r.chance(30)) s.cq->set_service_config_id("x");
        if (s.bad != NOOP) { g.op(r.pick(cpool), id++, true, s.cq->mutable_operation(), 2); if (r.chance(8)) s.cq->mutable_operation()->set_importance(sc::Operation::HIGH); }
      } else if (s.what == QUOTA) {
        s.qq.reset(new sc::AllocateQuotaRequest); s.qq->set_service_name(svc);
        if (s.bad != NOOP) g.qop(r.pick(qpool), id++, s.qq->mutable_allocate_operation());
      } else {
        s.rq.reset(new sc::ReportRequest);
        // A report without operations is one without effect, but not an invalid one.
        if (s.bad == NOOP) { s.bad = SERVICE; svc = ""; }
        s.rq->set_service_name(svc);
        int n = 1 + (r.chance(30) ? r.below(5) : 0);
        for (int k = 0; k < n; k++) { auto* o = s.rq->add_operations(); g.op(r.pick(rpool), id++, false, o, 3); if (r.chance(5)) o->set_importance(sc::Operation::HIGH); }
      }
    } else if (x < 82) {
      s.what = ADVANCE; s.who = 0;
      int64_t d[] = {c.c_flush, c.c_exp, c.q_ref, c.q_exp, c.r_flush, (int64_t)r.below(50)};
      int64_t base = d[r.below(6)] * 1000;
      s.arg = r.chance(40) ? base + r.range(-1, 1) : r.below(base + 1);
      if (s.arg < 0) s.arg = 0;
    } else if (x < 90) s.what = TICK;
    else if (x < 96) { s.what = ANSWER; s.arg = r.below(100); }
    else s.what = STATS;
    script.push_back(s);
    if (two && r.chance(2)) { Step t; t.what = DESTROY; t.who = 1 + r.below(two); script.push_back(t); t.what = CREATE; script.push_back(t); }
  }
  { Step s; s.what = DESTROY; script.push_back(s); for (int k = 1; k <= two; k++) { s.who = k; script.push_back(s); } }
  if (mode == 4) { apart(r, script, cf, 1 + two); return; }
  for (int i = 0; i < 3; i++) { Step s; s.what = ANSWER; s.arg = r.below(10); script.push_back(s); }
  static const char* const names[] = {"rejected", "other", "stats", "again"};
  Run a = play(script, cf, mode, false), b = play(script, cf, mode, true);
  if (mode == 3 && a.seen.size() != b.seen.size()) return;
  std::vector<string> props = mode == 0 ? std::vector<string>{"D02"} : mode == 2 ? std::vector<string>{"S01"} : std::vector<string>{"I01"};
  string without = mode == 0 ? "without the rejected calls" : mode == 1 ? "without the other client" : mode == 2 ? "without reading the statistics" : "run again";
  R.counters[string("twins_") + names[mode]]++; R.counters["twin_steps"] += a.seen.size(); R.counters["twin_sends"] += a.sends; R.counters["callbacks"] += a.done; R.counters["invalid"] += a.rejected;
  bool in_question = a.index.size() != script.size() || mode == 3;
  if (a.sends && in_question) { R.nontrivial++; R.distinct.insert(mix(cs, a.sends * 1000 + a.done)); }
  if (R.samples.size() < 2) { string s = "case " + std::to_string(cs) + " (" + names[mode] + "): " + std::to_string(script.size()) + " steps, " + std::to_string(a.index.size()) + " compared; "; for (size_t i = 0; i < a.seen.size() && s.size() < 700; i++) for (auto& x : a.seen[i]) s += kWhat[script[a.index[i]].what] + string(": ") + x.substr(0, 60) + "; "; R.samples.push_back(s); }
  compare(script, a, b, props, mode, names[mode], without);
}
static void compare(const std::vector<Step>& script, const Run& a, const Run& b, const std::vector<string>& props, int mode, const char* name, const string& without) {
  if (a.seen.size() != b.seen.size()) { fprintf(stderr, "VF-FATAL: scripts of different length\n"); _exit(98); }
  for (size_t i = 0; i < a.seen.size(); i++) {
    const Step& s = script[a.index[i]];
    if (a.seen[i] != b.seen[i]) {
      string x, y; for (auto& l : a.seen[i]) x += l.substr(0, 300) + "; "; for (auto& l : b.seen[i]) y += l.substr(0, 300) + "; ";
      if (a.seen[i].size() && b.seen[i].size()) for (size_t k = 0; k < std::min(a.seen[i].size(), b.seen[i].size()); k++) if (a.seen[i][k] != b.seen[i][k]) { x = a.seen[i][k].substr(0, 600); y = b.seen[i][k].substr(0, 600); break; }
      R.viol(props, string("twin-") + name, string("step ") + std::to_string(a.index[i]) + " (" + kWhat[s.what] + ") shows <" + x + "> but, " + without + ", <" + y + ">");
      return;
    }
    if (a.stats[i] != b.stats[i]) {
      string x; for (size_t k = 0; k < a.stats[i].size(); k++) if (a.stats[i][k] != b.stats[i][k]) x += string(statname[k]) + " " + std::to_string(a.stats[i][k]) + " / " + std::to_string(b.stats[i][k]) + "; ";
      auto p = props; if (mode == 0) p.push_back("S01");
      R.viol(p, string("twin-stats-") + name, "statistics (less the rejected calls) differ from those " + without + ": " + x);
      return;
    }
  }
}
int main(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(_GLIBCXX_TSAN) || defined(VF_FINE)
  // Hash orders depend on addresses: the same ones when a case runs again.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
#endif
  A = parse_args(argc, argv);
  vt::enable(true);
  if (A.geti("mode", -1) == 4 && !A.geti("free", 0)) {
    mallopt(M_ARENA_MAX, 1);
    cpu_set_t all, mine; CPU_ZERO(&all); CPU_ZERO(&mine);
    if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 0) {
      int k = A.geti("shard", getpid()) % CPU_COUNT(&all);
      for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &mine);
      sched_setaffinity(0, sizeof mine, &mine);
    }
    // Warm up what is initialised once.
    Report keep; keep.only = R.only; string out = A.out; A.out = ""; for (uint64_t s = 1; s < 4; s++) one(s); R = keep; A.out = out;
  }
  return run_cases(A, one);
}
