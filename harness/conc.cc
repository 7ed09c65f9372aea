// Concurrent histories against the real client. The driver plays the callers,
// the service, the timer and the clock, each in threads of its own, under the
// controlled scheduler (vsched.h) or running freely. Every thread records what
// it does and sees with a global sequence number; the record is checked when
// all have ended. The driver passes data between threads only where a user
// would (a request handed to the thread that answers it), so that the race
// detector sees no more ordering than in real use.
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/personality.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include "core.h"
#include "include/service_control_client.h"
#include "vsched.h"

using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::protobuf::util::OkStatus;
namespace scc = google::service_control_client;
typedef std::vector<string> P;

static Args A;
enum Kind { CHECK, QUOTA, REPORT, STATS, ADVANCE, ANSWER, PAUSE };
static const char* const kKind[] = {"check", "quota", "report", "stats", "advance", "answer", "pause"};
struct Loud { int s; Loud() : s(sched::quiet) { sched::quiet = 0; } ~Loud() { sched::quiet = s; } };
struct Hush { Hush() { sched::quiet++; } ~Hush() { sched::quiet--; } };

enum EvType { CALL, RET, DONE, SEND, ANS_B, ANS_E, TICK_B, TICK_E, DEST_B, DEST_E, STAT };
static const char* const kEv[] = {"call", "return", "done", "send", "answer", "answered", "tick", "ticked", "destroy", "destroyed", "stats"};
struct Ev {
  uint64_t seq; int64_t t; EvType type; int tid;
  int call = 0, sid = 0; Kind kind = CHECK;
  int code = 0; bool neg = false, filled = false;
  string rid, bytes;
  std::shared_ptr<sc::CheckRequest> cq; std::shared_ptr<sc::AllocateQuotaRequest> qq; std::shared_ptr<sc::ReportRequest> rq;
  scc::Statistics st;
};
struct Call {
  int id; Kind kind; int key; bool urgent = false, sync = false, own = false; int nested = 0; bool free_in_done = false;
  int64_t amount = 0; std::vector<string> logs; int64_t t0 = 0, t1 = 0; std::map<string, int64_t> log_amount;
  std::unique_ptr<sc::CheckRequest> cq; std::unique_ptr<sc::CheckResponse> cr;
  std::unique_ptr<sc::AllocateQuotaRequest> qq; std::unique_ptr<sc::AllocateQuotaResponse> qr;
  std::unique_ptr<sc::ReportRequest> rq; std::unique_ptr<sc::ReportResponse> rr;
  string req_bytes;
};
struct Op { Kind kind; int call = 0; int64_t arg = 0; };
struct Pending {
  int sid; Kind kind; int call; bool late, must;
  sc::CheckResponse* cr = nullptr; sc::AllocateQuotaResponse* qr = nullptr; sc::ReportResponse* rr = nullptr;
  scc::TransportDoneFunc done;
};
static const int MAXT = 24, SLOTS = 4096;
struct Thread {
  int id; const char* name; Rng r{1}; std::vector<Ev> log; std::vector<Op> script; pthread_t th; std::atomic<int> nslot{0};   // slots used so far
  std::atomic<Pending*>* slot = nullptr;
};
struct World {
  Rng r;
  string service = "svc.example.com", config = "client-config", callers = "caller-config";
  int c_num, c_flush, c_exp, q_num, q_ref, q_exp, r_num, r_flush;
  int ckeys, qkeys, rkeys, ncall, nserv, ntick, nops, p_inplace, p_fail, p_neg, p_late, mode;
  bool calm, stats_at_end, stop_waits, bits, free_running;
  std::unique_ptr<scc::ServiceControlClient> client;
  std::function<void()> tick;
  std::vector<std::unique_ptr<Call>> calls;   // by id - 1
  std::vector<std::unique_ptr<Thread>> th;
  std::atomic<uint64_t> seq{1}; std::atomic<int> nextsid{1}, nextrid{1};
  std::atomic<int> avail{0}, late{0}, answering{0}, callers_done{0}, active{0}, closing{0}, destroyed{0};
  std::atomic<int> stopped{0}, in_tick{0}, ticks_done{0};
  bool bad_ = false; int soft_ = 0;
  explicit World(uint64_t s) : r(s) {}
  void make();
  void body(Thread* t);
  void do_call(Thread* t, Call* c);
  void done(int id, const Status& s);
  void send(Pending* p, int direct, std::shared_ptr<sc::CheckRequest>, std::shared_ptr<sc::AllocateQuotaRequest>, std::shared_ptr<sc::ReportRequest>);
  void answer(Pending* p);
  bool answer_one();
  void run_tick(Thread* t);
  void destroy(Thread* t);
  void check(const sched::Stats& ss);
  void bad(const P& p, const string& key, const string& msg);
  std::vector<Ev> ev;                        // all, in order
};
static World* W;
static __thread Thread* me;
static Thread* g_main;

static Ev& logev(EvType type) {
  Thread* t = me;
  t->log.emplace_back();
  Ev& e = t->log.back();
  e.type = type; e.tid = t->id; e.t = vt::now(); e.seq = W->seq.fetch_add(1, std::memory_order_relaxed);
  return e;
}

struct TimerObj : scc::PeriodicTimer {
  void Stop() override {
    Hush h;
    W->stopped.fetch_add(1, std::memory_order_relaxed);
    if (!W->stop_waits) return;
    // Like a timer thread that is joined: the tick under way ends first.
    sched::wait([](void*) { return W->in_tick.load(std::memory_order_relaxed) == 0; }, nullptr, "the tick under way");
    W->in_tick.load(std::memory_order_acquire);
  }
};

// ---- building a case
void World::make() {
  const string& prof = A.profile;
  free_running = A.geti("free", 0);
  mode = free_running ? 0 : r.chance(50) ? 1 : 2;
  bool roomy = r.chance(65);
  auto cap = [&]() { return r.chance(6) ? 0 : roomy ? 10 : 1 + (int)r.below(2); };
  c_num = cap(); q_num = cap(); r_num = cap();
  c_flush = 20 + r.below(60); c_exp = r.chance(60) ? 100000000 : c_flush * (1 + r.below(3)) + r.below(20);
  q_ref = 20 + r.below(60); q_exp = r.chance(60) ? 100000000 : q_ref * (1 + r.below(3)) + r.below(20);
  r_flush = 20 + r.below(60);
  ckeys = 1 + r.below(3); qkeys = 1 + r.below(3); rkeys = 1 + r.below(3);
  if (r.chance(50)) ckeys = qkeys = rkeys = 1;
  ncall = 2 + r.below(3); nserv = r.below(3); ntick = r.chance(50); nops = free_running ? 60 + r.below(100) : 2 + r.below(8);
  p_inplace = r.chance(30) ? 0 : r.chance(50) ? 30 : 80; p_fail = r.chance(50) ? 0 : 20; p_neg = r.chance(50) ? 0 : 30; p_late = r.chance(50) ? 0 : 25;
  calm = prof == "destroy" ? r.chance(20) : r.chance(60);
  stats_at_end = calm; stop_waits = r.chance(70);
  if (prof == "destroy") { nserv = 1 + r.below(3); ntick = r.chance(80); p_inplace = r.chance(50) ? 0 : 20; nops = free_running ? 20 : 1 + r.below(5); }
  if (free_running) { ncall = 2 + r.below(4); nserv = 1 + r.below(2); ntick = 1; }
  int wc = 30, wq = 30, wr = 30;
  if (prof == "check") { wc = 90; wq = wr = 2; }
  if (prof == "quota") { wq = 90; wc = wr = 2; }
  if (prof == "report") { wr = 90; wq = wc = 2; }
  int nth = ncall + nserv + ntick + 1;
  for (int i = 0; i < nth; i++) {
    th.emplace_back(new Thread); Thread* t = th.back().get();
    t->id = i; t->r = Rng(r.next()); t->slot = new std::atomic<Pending*>[SLOTS]();
    t->name = i < ncall ? "caller" : i < ncall + nserv ? "service" : i < ncall + nserv + ntick ? "timer" : "owner";
  }
  int quotas = 0;
  auto newcall = [&](Kind k, bool nested) {
    calls.emplace_back(new Call); Call* c = calls.back().get();
    c->id = calls.size(); c->kind = k;
    c->own = r.chance(25); c->sync = !c->own && !nested && r.chance(25); c->urgent = r.chance(k == QUOTA ? 0 : 8); c->free_in_done = r.chance(60);
    string id = "c" + std::to_string(c->id);
    auto fill = [&](sc::Operation* o, int key, int nlog, int n) {
      o->set_operation_id(id); o->set_operation_name("op" + std::to_string(key)); o->set_consumer_id("project:p");
      if (key & 1) (*o->mutable_labels())["zone"] = "a";
      int64_t a = 1 + r.below(1000);
      if (!n) { c->t0 = 1000 + r.below(500); c->t1 = c->t0 + r.below(500); }
      o->mutable_start_time()->set_seconds(c->t0); o->mutable_end_time()->set_seconds(c->t1);
      o->set_importance(c->urgent ? sc::Operation::HIGH : sc::Operation::LOW);
      auto* s = o->add_metric_value_sets(); s->set_metric_name("m/requests"); s->add_metric_values()->set_int64_value(a);
      for (int i = 0; i < nlog; i++) {
        string l = id + "." + std::to_string(n) + "." + std::to_string(i);
        c->logs.push_back(l); c->log_amount[l] = i ? 0 : a; o->add_log_entries()->set_insert_id(l);
      }
      if (!nlog) c->amount += a;
    };
    if (k == CHECK) {
      c->key = r.below(ckeys); c->cq.reset(new sc::CheckRequest); c->cr.reset(new sc::CheckResponse);
      c->cq->set_service_name(service); c->cq->set_service_config_id(callers);
      fill(c->cq->mutable_operation(), c->key, 1, 0); c->req_bytes = det(*c->cq);
      if (r.chance(20)) c->cr->set_operation_id("stale");
    } else if (k == QUOTA) {
      c->key = r.below(qkeys); c->qq.reset(new sc::AllocateQuotaRequest); c->qr.reset(new sc::AllocateQuotaResponse);
      c->qq->set_service_name(service); c->qq->set_service_config_id(callers);
      auto* o = c->qq->mutable_allocate_operation(); o->set_operation_id(id); o->set_method_name("method" + std::to_string(c->key)); o->set_consumer_id("project:p");
      o->set_quota_mode(sc::QuotaOperation::BEST_EFFORT);
      c->amount = bits ? (int64_t)1 << (quotas % 62) : 1 + (int64_t)r.below(1 << 30); quotas++;
      auto* s = o->add_quota_metrics(); s->set_metric_name("q"); s->add_metric_values()->set_int64_value(c->amount);
      c->req_bytes = det(*c->qq);
      if (r.chance(20)) c->qr->set_operation_id("stale");
    } else {
      c->rq.reset(new sc::ReportRequest); c->rr.reset(new sc::ReportResponse);
      c->rq->set_service_name(service); c->rq->set_service_config_id(callers); c->key = r.below(rkeys);
      int n = r.chance(70) ? 1 : 1 + r.below(14);
      for (int i = 0; i < n; i++) fill(c->rq->add_operations(), i ? (int)r.below(n > 6 ? 30 : rkeys) : c->key, r.chance(3) ? 60 : 1 + r.below(2), i);
      c->req_bytes = det(*c->rq);
    }
    return c->id;
  };
  bits = !free_running;
  auto kind = [&]() { int x = r.below(wc + wq + wr); return x < wc ? CHECK : x < wc + wq ? QUOTA : REPORT; };
  for (int i = 0; i < ncall; i++)
    for (int k = 0; k < nops; k++) {
      Op o; int x = r.below(100);
      if (x < 72) {
        o.kind = kind();
        if (o.kind == QUOTA && bits && quotas >= 60) o.kind = REPORT;
        o.call = newcall(o.kind, false);
        if (r.chance(12)) { Kind n = kind(); if (n == QUOTA && bits && quotas >= 60) n = CHECK; int id = newcall(n, true); calls[o.call - 1]->nested = id; }
      } else if (x < 76) o.kind = STATS;
      else if (x < 92) { o.kind = ADVANCE; o.arg = r.chance(50) ? 1000 * (int64_t)(1 + r.below(90)) : r.chance(50) ? 1000 * (int64_t)q_ref : 1000 * (int64_t)r.below(20); }
      else o.kind = ANSWER;
      th[i]->script.push_back(o);
    }
  if (ntick) {
    int n = free_running ? 100 : 1 + r.below(5);
    for (int i = 0; i < n; i++) { Op o; o.kind = PAUSE; o.arg = r.chance(70) ? 1000 * (int64_t)r.below(70) : 0; th[ncall + nserv]->script.push_back(o); }
  }
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(c_num, c_flush, c_exp), scc::QuotaAggregationOptions(q_num, q_ref, q_exp), scc::ReportAggregationOptions(r_num, r_flush));
  if (r.chance(50)) { using MD = google::api::MetricDescriptor; o.metric_kinds = std::make_shared<scc::MetricKindMap>(); (*o.metric_kinds)["m/other"] = MD::GAUGE; if (r.chance(50)) (*o.metric_kinds)["m/requests"] = MD::DELTA; }
  o.check_transport = [](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) {
    Hush h; Pending* p = new Pending; p->kind = CHECK; p->cr = s; p->done = std::move(d);
    auto c = std::make_shared<sc::CheckRequest>(q);
    W->send(p, q.service_config_id() == W->callers ? atoi(q.operation().operation_id().c_str() + 1) : 0, c, nullptr, nullptr);
  };
  o.quota_transport = [](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) {
    Hush h; Pending* p = new Pending; p->kind = QUOTA; p->qr = s; p->done = std::move(d);
    auto c = std::make_shared<sc::AllocateQuotaRequest>(q);
    W->send(p, W->q_num <= 0 ? atoi(q.allocate_operation().operation_id().c_str() + 1) : 0, nullptr, c, nullptr);
  };
  o.report_transport = [](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) {
    Hush h; Pending* p = new Pending; p->kind = REPORT; p->rr = s; p->done = std::move(d);
    auto c = std::make_shared<sc::ReportRequest>(q);
    W->send(p, q.service_config_id() == W->callers && q.operations_size() ? atoi(q.operations(0).operation_id().c_str() + 1) : 0, nullptr, nullptr, c);
  };
  if (ntick) o.periodic_timer = [](int, std::function<void()> f) { W->tick = f; return std::unique_ptr<scc::PeriodicTimer>(new TimerObj); };
  client = scc::CreateServiceControlClient(service, config, o);
}

// ---- the service
void World::send(Pending* p, int direct, std::shared_ptr<sc::CheckRequest> cq, std::shared_ptr<sc::AllocateQuotaRequest> qq, std::shared_ptr<sc::ReportRequest> rq) {
  p->sid = nextsid.fetch_add(1, std::memory_order_relaxed);
  if (direct < 0 || direct > (int)calls.size()) direct = 0;
  p->call = direct;
  Call* c = direct ? calls[direct - 1].get() : nullptr;
  { Ev& e = logev(SEND); e.sid = p->sid; e.kind = p->kind; e.call = direct; e.cq = cq; e.qq = qq; e.rq = rq; }
  p->must = c && c->sync;
  p->late = false;
  { Loud l; sched::point(sched::P_USER); }
  bool inplace = p->must && !nserv ? true : me->r.chance(p_inplace);
  if (me == g_main) inplace = true;
  if (!inplace) {
    p->late = !p->must && me->r.chance(p_late);
    int used = me->nslot.load(std::memory_order_relaxed);
    for (int i = 0; i < SLOTS; i++) {
      auto& s = me->slot[i];
      if (s.load(std::memory_order_relaxed)) continue;
      if (i >= used) me->nslot.store(i + 1, std::memory_order_relaxed);
      bool l = p->late;
      s.store((Pending*)((uintptr_t)p | l), std::memory_order_release);
      (l ? late : avail).fetch_add(1, std::memory_order_relaxed);
      return;
    }
  }
  answering.fetch_add(1, std::memory_order_relaxed);
  answer(p);
}
void World::answer(Pending* p) {
  Rng& r = me->r;
  bool fail = r.chance(p_fail), neg = r.chance(p_neg), fill = !fail || r.chance(30);
  string rid = "rsp-" + std::to_string(nextrid.fetch_add(1, std::memory_order_relaxed));
  Status st = fail ? vf::failed(r, "failed " + rid) : OkStatus();
  string bytes;
  if (fill) {
    if (p->kind == CHECK) { p->cr->Clear(); p->cr->set_operation_id(rid); if (neg) p->cr->add_check_errors()->set_detail(rid); p->cr->set_service_config_id(rid); bytes = det(*p->cr); }
    else if (p->kind == QUOTA) { p->qr->Clear(); p->qr->set_operation_id(rid); if (neg) p->qr->add_allocate_errors()->set_description(rid); p->qr->set_service_config_id(rid); bytes = det(*p->qr); }
    else { p->rr->set_service_config_id(rid); bytes = det(*p->rr); }
  }
  { Ev& e = logev(ANS_B); e.sid = p->sid; e.kind = p->kind; e.call = p->call; e.code = (int)st.code(); e.neg = neg && fill; e.filled = fill; e.rid = rid; e.bytes = bytes; }
  int sid = p->sid;
  { Loud l; scc::TransportDoneFunc d = std::move(p->done); d(st); }
  { Ev& e = logev(ANS_E); e.sid = sid; e.kind = p->kind; }
  delete p;
  answering.fetch_sub(1, std::memory_order_release);
}
bool World::answer_one() {
  int n = th.size(), a = me->r.below(n);
  for (int i = 0; i < n; i++) {
    Thread* t = th[(a + i) % n].get();
    int used = t->nslot.load(std::memory_order_relaxed), b = me->r.below(used);
    for (int k = 0; k < used; k++) {
      auto& s = t->slot[(k + b) % used];
      Pending* p = s.load(std::memory_order_relaxed);
      bool l = (uintptr_t)p & 1;     // to be answered after the destruction
      if (!p || (l && !destroyed.load(std::memory_order_relaxed))) continue;
      if (!s.compare_exchange_strong(p, nullptr, std::memory_order_acquire, std::memory_order_relaxed)) continue;
      p = (Pending*)((uintptr_t)p & ~(uintptr_t)1);
      answering.fetch_add(1, std::memory_order_relaxed);
      (l ? late : avail).fetch_sub(1, std::memory_order_relaxed);
      answer(p);
      return true;
    }
  }
  return false;
}

// ---- the callers
void World::done(int id, const Status& s) {
  Hush h;
  Call* c = calls[id - 1].get();
  {
    Ev& e = logev(DONE); e.call = id; e.kind = c->kind; e.code = (int)s.code();
    if (c->kind == CHECK && c->cr) { e.rid = c->cr->operation_id(); e.bytes = det(*c->cr); e.neg = c->cr->check_errors_size() > 0; }
    if (c->kind == QUOTA && c->qr) { e.rid = c->qr->operation_id(); e.bytes = det(*c->qr); e.neg = c->qr->allocate_errors_size() > 0; }
    if (c->kind == REPORT && c->rr) { e.bytes = det(*c->rr); }
    e.filled = c->cr || c->qr || c->rr;
    string now = c->cq ? det(*c->cq) : c->qq ? det(*c->qq) : c->rq ? det(*c->rq) : c->req_bytes;
    if (now != c->req_bytes) e.sid = -1;   // modified
  }
  if (!c->sync && c->free_in_done) { c->cq.reset(); c->qq.reset(); c->rq.reset(); c->cr.reset(); c->qr.reset(); c->rr.reset(); }
  if (c->nested) {
    int n = c->nested; c->nested = 0;
    active.fetch_add(1, std::memory_order_relaxed);
    if (!closing.load(std::memory_order_relaxed)) do_call(me, calls[n - 1].get());
    active.fetch_sub(1, std::memory_order_release);
  }
}
void World::do_call(Thread* t, Call* c) {
  int id = c->id; Kind k = c->kind; bool sync = c->sync;
  { Ev& e = logev(CALL); e.call = id; e.kind = k; }
  auto cb = [id](const Status& s) { W->done(id, s); };
  Status s;
  if (k == CHECK) {
    sc::CheckRequest& q = *c->cq; sc::CheckResponse* r = c->cr.get(); bool own = c->own;
    Loud l;
    if (sync) s = client->Check(q, r);
    else if (own) client->Check(q, r, cb, [id](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) {
      Hush h; Pending* p = new Pending; p->kind = CHECK; p->cr = s; p->done = std::move(d); W->send(p, id, std::make_shared<sc::CheckRequest>(q), nullptr, nullptr); });
    else client->Check(q, r, cb);
  } else if (k == QUOTA) {
    sc::AllocateQuotaRequest& q = *c->qq; sc::AllocateQuotaResponse* r = c->qr.get(); bool own = c->own;
    Loud l;
    if (sync) s = client->Quota(q, r);
    else if (own) client->Quota(q, r, cb, [id](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) {
      Hush h; Pending* p = new Pending; p->kind = QUOTA; p->qr = s; p->done = std::move(d); W->send(p, id, nullptr, std::make_shared<sc::AllocateQuotaRequest>(q), nullptr); });
    else client->Quota(q, r, cb);
  } else {
    sc::ReportRequest& q = *c->rq; sc::ReportResponse* r = c->rr.get(); bool own = c->own;
    Loud l;
    if (sync) s = client->Report(q, r);
    else if (own) client->Report(q, r, cb, [id](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) {
      Hush h; Pending* p = new Pending; p->kind = REPORT; p->rr = s; p->done = std::move(d); W->send(p, id, nullptr, nullptr, std::make_shared<sc::ReportRequest>(q)); });
    else client->Report(q, r, cb);
  }
  if (sync) done(id, s);
  { Ev& e = logev(RET); e.call = id; e.kind = k; }
}
void World::run_tick(Thread* t) {
  in_tick.fetch_add(1, std::memory_order_relaxed);
  if (tick && !(stop_waits && stopped.load(std::memory_order_relaxed))) {
    logev(TICK_B);
    { Loud l; tick(); }
    logev(TICK_E);
  }
  in_tick.fetch_sub(1, std::memory_order_release);
}
void World::destroy(Thread* t) {
  sched::wait([](void*) { return W->callers_done.load(std::memory_order_relaxed) == W->ncall; }, nullptr, "the callers");
  callers_done.load(std::memory_order_acquire);
  if (calm) {
    auto quiet_now = [](void*) { return W->avail.load(std::memory_order_relaxed) <= 0 && W->answering.load(std::memory_order_relaxed) == 0 && W->active.load(std::memory_order_relaxed) == 0 && (!W->ntick || W->ticks_done.load(std::memory_order_relaxed)); };
    if (nserv) sched::wait(quiet_now, nullptr, "a quiet moment");
    else do {
      while (answer_one()) {}
      sched::wait([](void* q) { return W->avail.load(std::memory_order_relaxed) > 0 || ((bool (*)(void*))q)(nullptr); }, (void*)(bool (*)(void*))quiet_now, "a quiet moment");
    } while (!quiet_now(nullptr));
  }
  closing.fetch_add(1, std::memory_order_relaxed);
  sched::wait([](void*) { return W->active.load(std::memory_order_relaxed) == 0; }, nullptr, "the nested calls");
  active.load(std::memory_order_acquire);
  answering.load(std::memory_order_acquire);
  if (calm && stats_at_end) { Ev& e = logev(STAT); memset(&e.st, 0xA5, sizeof e.st); Loud l; (void)client->GetStatistics(&e.st); }
  logev(DEST_B);
  { Loud l; client.reset(); }
  logev(DEST_E);
  destroyed.store(1, std::memory_order_release);
}
static void quiet_init() { sched::quiet = 1; }
void World::body(Thread* t) {
  me = t;
  if (!free_running) sched::enter(t->id, t->name);
  quiet_init();
  if (t->id < ncall) {
    for (auto& o : t->script) {
      switch (o.kind) {
        case CHECK: case QUOTA: case REPORT: do_call(t, calls[o.call - 1].get()); break;
        case STATS: { scc::Statistics s; Loud l; (void)client->GetStatistics(&s); break; }
        case ADVANCE: vt::advance(o.arg); break;
        case ANSWER: answer_one(); break;
        default: break;
      }
      if (free_running) continue;
      Loud l; sched::point(sched::P_USER);
    }
    callers_done.fetch_add(1, std::memory_order_release);
  } else if (t->id < ncall + nserv) {
    for (;;) {
      sched::wait([](void*) { return W->avail.load(std::memory_order_relaxed) > 0 || W->destroyed.load(std::memory_order_relaxed); }, nullptr, "requests");
      if (!answer_one() && destroyed.load(std::memory_order_relaxed)) break;
    }
  } else if (t->id < ncall + nserv + ntick) {
    for (auto& o : t->script) {
      if (o.arg) vt::advance(o.arg);
      { Loud l; sched::point(sched::P_USER); }
      run_tick(t);
    }
    ticks_done.store(1, std::memory_order_relaxed);
  } else destroy(t);
  sched::quiet = 0;
  if (!free_running) sched::leave();
}

// ---- the checks, over the whole record
void World::bad(const P& p, const string& key, const string& msg) {
  if (bad_) return;
  // A violation of another property does not end the checks: what this one's
  // is about may show only further on.
  if (A.prop == "all" || ++soft_ > 20 || std::find(p.begin(), p.end(), A.prop) != p.end()) bad_ = true;
  string h;
  if (A.verbose) for (auto& e : ev) printf("  #%llu t=%lld T%d(%s) %s %s call=%d sid=%d code=%d %s%s\n", (unsigned long long)e.seq, (long long)e.t, e.tid, e.tid >= 0 && e.tid < (int)th.size() ? th[e.tid]->name : "main", kEv[e.type], kKind[e.kind], e.call, e.sid, e.code, e.rid.c_str(), e.neg ? " denied" : "");
  R.viol(p, key, msg + " [" + std::to_string(ncall) + " callers, " + std::to_string(nserv) + " service, " + std::to_string(ntick) + " timer threads; mode " + std::to_string(mode) + "; check " +
         std::to_string(c_num) + "/" + std::to_string(c_flush) + "/" + std::to_string(c_exp) + " quota " + std::to_string(q_num) + "/" + std::to_string(q_ref) + "/" + std::to_string(q_exp) + " report " + std::to_string(r_num) + "/" + std::to_string(r_flush) + "]");
}
struct CallRec { const Ev *call = 0, *ret = 0, *send = 0, *ans = 0, *anse = 0, *done = 0; int ndone = 0, nsend = 0; };
struct SendRec { const Ev *send = 0, *ans = 0, *anse = 0; };
// Reads and writes of one register with distinct values.
struct Reg { struct V { uint64_t wb = 0, we = UINT64_MAX; uint64_t minend = UINT64_MAX, maxstart = 0; int reads = 0; bool written = false; }; std::map<string, V> v; };
static string reg_check(Reg& g) {
  struct Z { uint64_t a, b; string n; };
  std::vector<Z> fwd, back;
  for (auto& x : g.v) {
    auto& v = x.second;
    uint64_t f = std::min(v.we, v.minend), s = std::max(v.wb, v.maxstart);
    if (f < s) fwd.push_back({f, s, x.first}); else back.push_back({s, f, x.first});
  }
  std::sort(fwd.begin(), fwd.end(), [](auto& a, auto& b) { return a.a < b.a; });
  for (size_t i = 1; i < fwd.size(); i++) if (fwd[i].a < fwd[i - 1].b) return "the answers " + fwd[i - 1].n + " and " + fwd[i].n + " were both served in turn";
  for (auto& b : back) {
    for (auto& f : fwd) if (f.a < b.a && b.b < f.b) return "the answer " + f.n + " was served after the later answer " + b.n;
  }
  return "";
}
void World::check(const sched::Stats& ss) {
  for (auto& t : th) for (auto& e : t->log) ev.push_back(e);
  for (auto& e : g_main->log) ev.push_back(e);
  std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.seq < b.seq; });
  auto& n = R.counters;
  n["events"] += ev.size();
  std::vector<CallRec> cr(calls.size() + 1); std::map<int, SendRec> sr;
  const Ev *db = 0, *de = 0, *stat = 0;
  std::vector<std::pair<const Ev*, const Ev*>> ticks; std::map<int, const Ev*> tick_open;
  for (auto& e : ev) {
    switch (e.type) {
      case CALL: cr[e.call].call = &e; break;
      case RET: cr[e.call].ret = &e; break;
      case DONE: cr[e.call].ndone++; if (!cr[e.call].done) cr[e.call].done = &e; break;
      case SEND: sr[e.sid].send = &e; if (e.call) { cr[e.call].nsend++; cr[e.call].send = &e; } break;
      case ANS_B: sr[e.sid].ans = &e; if (e.call) cr[e.call].ans = &e; break;
      case ANS_E: sr[e.sid].anse = &e; if (sr[e.sid].send && sr[e.sid].send->call) cr[sr[e.sid].send->call].anse = &e; break;
      case TICK_B: tick_open[e.tid] = &e; break;
      case TICK_E: ticks.push_back({tick_open[e.tid], &e}); break;
      case DEST_B: db = &e; break; case DEST_E: de = &e; break; case STAT: stat = &e; break;
    }
  }
  auto id = [&](int c) { return string("call ") + std::to_string(c) + " (" + kKind[calls[c - 1]->kind] + ")"; };
  // How much ran at the same time.
  { int open = 0; std::set<int> in; for (auto& e : ev) { if (e.type == CALL) { in.insert(e.call); if (in.size() > 1) open++; } else if (e.type == RET) in.erase(e.call); } n["calls_overlapping"] += open; }
  bool dest_answers = false, dest_ticks = false;
  for (auto& s : sr) if (s.second.ans && s.second.ans->seq < de->seq && (!s.second.anse || s.second.anse->seq > db->seq)) dest_answers = true;
  for (auto& t : ticks) if (t.first->seq < de->seq && t.second->seq > db->seq) dest_ticks = true;
  if (dest_answers) n["destroyed_during_answers"]++;
  if (dest_ticks) n["destroyed_during_ticks"]++;
  bool strict_r = stop_waits || !dest_ticks, strict = strict_r && !dest_answers;
  // -- each call
  bool any_neg_quota = false, any_fail_quota = false;
  std::map<string, const Ev*> answers;    // response id -> answer
  for (auto& s : sr) {
    if (!s.second.ans) { bad({"D01"}, "driver-unanswered", "a request was not answered"); continue; }
    answers[s.second.ans->rid] = s.second.ans;
    if (s.second.send->kind == QUOTA) { if (s.second.ans->code) any_fail_quota = true; if (s.second.ans->neg && !s.second.ans->code) any_neg_quota = true; }
    if (s.second.send->seq > de->seq) { bad({"K01"}, "send-after-destruction", string("a ") + kKind[s.second.send->kind] + " request was sent after the client was destroyed"); return; }
  }
  for (size_t c = 1; c <= calls.size(); c++) {
    auto& x = cr[c]; Call* k = calls[c - 1].get();
    if (!x.call) continue;      // a nested call that was not made
    n["calls"]++;
    if (x.ndone != 1) { bad(x.ans && x.ans->seq > db->seq ? P{"D01", "K06", "K01"} : P{"D01", "K06"}, x.ndone ? "callback-twice" : "callback-missing", id(c) + ": the callback ran " + std::to_string(x.ndone) + " times"); return; }
    if (x.done->sid == -1) { bad({"D01"}, "request-modified", id(c) + ": the caller's request was modified"); return; }
    if (x.nsend > 1) { bad({"D01", "K06"}, "sent-twice", id(c) + " was sent twice"); return; }
    [&] {
    if (x.nsend) {
      n["calls_forwarded"]++;
      const Ev* s = x.send;
      string b = s->cq ? det(*s->cq) : s->qq ? det(*s->qq) : det(*s->rq);
      if (b != k->req_bytes) { bad({"D01", "B01"}, "request-changed", id(c) + ": the request sent is not the one passed"); return; }
      if (x.done->seq < x.ans->seq) { bad({"D01"}, "callback-early", id(c) + " finished before it was answered"); return; }
      if (!k->sync && x.done->seq > x.anse->seq) { bad({"D01"}, "callback-late", id(c) + " was not finished by its answer"); return; }
      if (x.done->code != x.ans->code) { bad({"D01", "F01"}, "wrong-status", id(c) + " finished with code " + std::to_string(x.done->code) + ", the answer was " + std::to_string(x.ans->code)); return; }
      if (x.ans->filled && x.done->bytes != x.ans->bytes) { bad({"D01", "K06"}, "wrong-response", id(c) + " got another response than its own"); return; }
    } else {
      n["calls_local"]++;
      if (x.done->code) { bad({"D01", "K06"}, "local-status", id(c) + " was answered locally with code " + std::to_string(x.done->code)); return; }
      if (x.done->seq > x.ret->seq) { bad({"D01"}, "callback-late", id(c) + ": the callback ran after the return"); return; }
      if (k->urgent || (k->kind == CHECK ? c_num : k->kind == QUOTA ? q_num : r_num) <= 0) { bad({"B01", "K06"}, "bypass-not-sent", id(c) + " has to bypass the cache but was not sent"); return; }
      if (k->kind == CHECK) {
        auto a = answers.find(x.done->rid);
        if (a == answers.end()) { bad({"C01", "K06"}, "check-unknown-answer", id(c) + " was answered with " + x.done->rid + ", which nobody sent"); return; }
        if (a->second->code) { bad({"F01", "C01", "K06"}, "check-failed-answer", id(c) + " was answered from a failed exchange"); return; }
        if (a->second->bytes != x.done->bytes) { bad({"C01", "K06"}, "check-torn-answer", id(c) + " was answered with a changed response"); return; }
        auto& s = sr[a->second->sid];
        if (calls[s.send->call - 1]->key != k->key || s.send->kind != CHECK) { bad({"C01", "K06"}, "check-other-answer", id(c) + " was answered with the answer of another request"); return; }
        if (a->second->seq > x.done->seq) { bad({"C01", "K06"}, "check-future-answer", id(c) + " was answered with an answer not yet given"); return; }
      }
    }
    }();
  }

  // -- check answers are those of an atomic register per identity
  if (!soft_) [&] {
  for (int key = 0; key < ckeys && c_num > 0; key++) {
    Reg g;
    struct Fw { uint64_t b; int64_t tb, ts; }; std::vector<Fw> fw; uint64_t first_end = UINT64_MAX;
    struct Setter { uint64_t b; int64_t hi, lo; uint64_t e; bool answer; }; std::vector<Setter> set;
    for (size_t c = 1; c <= calls.size(); c++) {
      auto& x = cr[c]; Call* k = calls[c - 1].get();
      if (!x.call || k->kind != CHECK || k->key != key || k->urgent) continue;
      if (x.nsend) {
        fw.push_back({x.call->seq, x.call->t, x.send->t});
        set.push_back({x.call->seq, x.send->t, x.call->t, x.send->seq, false});
      }
    }
    for (size_t c = 1; c <= calls.size(); c++) {   // urgent checks are cached, too
      auto& x = cr[c]; Call* k = calls[c - 1].get();
      if (!x.call || k->kind != CHECK || k->key != key || !x.nsend || x.ans->code) continue;
      auto& v = g.v[x.ans->filled ? x.ans->rid : ""]; v.wb = x.ans->seq; v.we = x.anse->seq; v.written = true;
      first_end = std::min(first_end, x.anse->seq);
      set.push_back({x.ans->seq, x.anse->t, x.ans->t, x.anse->seq, true});
      n["register_writes"]++;
    }
    for (size_t c = 1; c <= calls.size(); c++) {
      auto& x = cr[c]; Call* k = calls[c - 1].get();
      if (!x.call || k->kind != CHECK || k->key != key || x.nsend) continue;
      auto& v = g.v[x.done->rid]; v.reads++; v.minend = std::min(v.minend, x.done->seq); v.maxstart = std::max(v.maxstart, x.call->seq);
      n["register_reads"]++;
      // Served although it was due for refresh?
      int64_t hi = INT64_MIN;
      for (auto& s : set) if (s.b < x.done->seq) hi = std::max(hi, s.hi);
      if (hi != INT64_MIN && hi + (int64_t)c_flush * 1000 <= x.call->t) { bad({"C02", "K06"}, "check-not-refreshed", id(c) + " was answered locally at " + std::to_string(x.call->t) + " us although the last answer or refresh was at " + std::to_string(hi)); return; }
    }
    string w = reg_check(g);
    if (!w.empty()) { bad({"K06", "C01"}, "check-register", "identity " + std::to_string(key) + ": " + w); return; }
    if (c_num >= ckeys && c_exp >= 1000000) {
      for (auto& f : fw) {
        if (f.b <= first_end) continue;
        n["refreshes_spaced"]++;
        for (auto& s : set) {
          if (s.answer ? s.e < f.b && f.ts - s.lo < (int64_t)c_flush * 1000 : false) { bad({"C03", "K06"}, "check-needless", "a check with a fresh answer was sent (" + std::to_string(f.ts - s.lo) + " us after it)"); return; }
        }
        for (auto& o : fw) {
          if (&o == &f || o.b <= first_end) continue;
          if (o.ts - f.tb < (int64_t)c_flush * 1000 && f.ts - o.tb < (int64_t)c_flush * 1000) { bad({"C03", "K06"}, "check-refreshed-twice", "two checks of one identity were sent within a refresh interval"); return; }
        }
      }
    }
  }
  }();
  // -- aggregated checks
  if (!soft_) [&] {
    std::map<string, int> sent;
    std::map<string, int> owner;
    for (size_t c = 1; c <= calls.size(); c++) if (calls[c - 1]->kind == CHECK) owner[calls[c - 1]->logs[0]] = c;
    for (auto& s : sr) {
      const Ev* e = s.second.send;
      if (e->kind != CHECK || e->call) continue;
      n["check_flushes"]++;
      int64_t sum = 0, t0 = INT64_MAX, t1 = 0; int key = -1;
      if (e->cq->service_name() != service || e->cq->service_config_id() != config) { bad({"C05", "K06"}, "check-flush-header", "flushed check " + shortpb(*e->cq)); return; }
      for (auto& l : e->cq->operation().log_entries()) {
        auto o = owner.find(l.insert_id());
        if (o == owner.end()) { bad({"C05", "K06"}, "check-flush-unknown", "flushed check with " + l.insert_id()); return; }
        if (sent[l.insert_id()]++) { bad({"C05", "K06"}, "check-flush-twice", id(o->second) + " was flushed twice"); return; }
        Call* k = calls[o->second - 1].get();
        if (key >= 0 && key != k->key) { bad({"C05", "K06"}, "check-flush-mixed", "a flushed check has operations of two identities"); return; }
        key = k->key; sum += k->log_amount[l.insert_id()]; t0 = std::min(t0, k->t0); t1 = std::max(t1, k->t1);
      }
      auto& op = e->cq->operation();
      int64_t got = op.metric_value_sets_size() == 1 && op.metric_value_sets(0).metric_values_size() == 1 ? op.metric_value_sets(0).metric_values(0).int64_value() : -1;
      if (got != sum || op.start_time().seconds() != t0 || op.end_time().seconds() != t1) { bad({"C05", "K06"}, "check-flush-content", "a flushed check has amount " + std::to_string(got) + " instead of " + std::to_string(sum) + ", or wrong times: " + shortpb(op)); return; }
    }
    for (size_t c = 1; c <= calls.size(); c++) {
      auto& x = cr[c]; Call* k = calls[c - 1].get();
      if (k->kind != CHECK || !x.call) continue;
      int s = sent.count(k->logs[0]);
      if (s && (k->urgent || (!x.nsend && x.done->neg))) { bad({"C05", "K06"}, "check-flush-needless", id(c) + " should not have been aggregated"); return; }
      if (!x.nsend && !x.done->neg) {
        n["checks_conserved"]++;
        if (!s && strict) { bad({"C05", "K06", "K01"}, "check-lost", id(c) + " was answered from the cache but never reported back"); return; }
      }
    }
  }();
  // -- reports
  [&] {
    std::map<string, int> sent; std::map<string, std::pair<int, int64_t>> owner;
    for (size_t c = 1; c <= calls.size(); c++) if (calls[c - 1]->kind == REPORT) for (auto& l : calls[c - 1]->log_amount) owner[l.first] = {(int)c, l.second};
    for (auto& s : sr) {
      const Ev* e = s.second.send;
      if (e->kind != REPORT) continue;
      if (!e->call) {
        n["report_flushes"]++;
        if (e->rq->operations_size() > 10) { bad({"R03", "K06"}, "report-too-big", "a report has " + std::to_string(e->rq->operations_size()) + " operations"); return; }
        if (e->rq->service_name() != service || e->rq->service_config_id() != config) { bad({"R03", "K06"}, "report-header", "flushed report for " + e->rq->service_name() + "/" + e->rq->service_config_id()); return; }
      }
      for (auto& op : e->rq->operations()) {
        int64_t sum = 0, t0 = INT64_MAX, t1 = 0;
        for (auto& l : op.log_entries()) {
          auto o = owner.find(l.insert_id());
          if (o == owner.end()) { bad({"R01", "K06"}, "report-unknown", "log entry " + l.insert_id() + " was sent"); return; }
          if (sent[l.insert_id()]++) { bad({"R01", "K06"}, "report-twice", "log entry " + l.insert_id() + " was sent twice"); return; }
          Call* k = calls[o->second.first - 1].get();
          sum += o->second.second; t0 = std::min(t0, k->t0); t1 = std::max(t1, k->t1);
        }
        int64_t got = op.metric_value_sets_size() == 1 && op.metric_value_sets(0).metric_values_size() == 1 ? op.metric_value_sets(0).metric_values(0).int64_value() : -1;
        if (got != sum || op.start_time().seconds() != t0 || op.end_time().seconds() != t1) { bad({"R02", "R01", "K06"}, "report-content", "an operation has amount " + std::to_string(got) + " instead of " + std::to_string(sum) + ", or wrong times: " + shortpb(op)); return; }
      }
    }
    for (auto& o : owner) {
      auto& x = cr[o.second.first];
      if (!x.call) continue;
      n["log_entries_conserved"]++;
      if (!sent.count(o.first) && strict_r) { bad({"R01", "K06", "K01"}, "report-lost", "log entry " + o.first + " was accepted but never sent"); return; }
    }
  }();
  // -- quota
  [&] {
  for (int key = 0; key < qkeys && q_num > 0; key++) {
    bool nodrop = q_num >= qkeys && q_exp >= 1000000;
    std::vector<SendRec*> own; string method = "method" + std::to_string(key);
    std::vector<size_t> mine; std::set<int> firsts;
    for (auto& s : sr) if (s.second.send->kind == QUOTA && s.second.send->qq->allocate_operation().method_name() == method) own.push_back(&s.second);
    for (size_t c = 1; c <= calls.size(); c++) if (calls[c - 1]->kind == QUOTA && calls[c - 1]->key == key && cr[c].call) mine.push_back(c);
    std::sort(own.begin(), own.end(), [](SendRec* a, SendRec* b) { return a->send->seq < b->send->seq; });
    bool neg = false, fail = false; 
    for (auto* s : own) { if (s->ans->code) fail = true; else if (s->ans->neg) neg = true; }
    if (!mine.empty() && own.empty()) { bad({"Q02", "K06"}, "quota-never-sent", "calls for a key were made but nothing was sent"); return; }
    // amounts
    int64_t seen = 0; __int128 total = 0; int seen_n = 0;
    for (auto* s : own) {
      auto& q = *s->send->qq;
      auto& o = q.allocate_operation();
      int64_t a = o.quota_metrics_size() == 1 && o.quota_metrics(0).metric_values_size() == 1 ? o.quota_metrics(0).metric_values(0).int64_value() : -1;
      n["quota_sends"]++;
      if (q.service_config_id() == callers) {
        int c = atoi(o.operation_id().c_str() + 1);
        if (c < 1 || c > (int)calls.size() || calls[c - 1]->kind != QUOTA || calls[c - 1]->key != key || !cr[c].call) { bad({"Q02", "K06"}, "quota-unknown", "an unknown allocation was sent: " + shortpb(q)); return; }
        if (a != calls[c - 1]->amount) { bad({"Q03", "K06"}, "quota-first-amount", "an allocation for one call has another amount: " + shortpb(q)); return; }
        firsts.insert(c);
      } else {
        n["quota_aggregated"]++;
        if (a < 0 || q.service_name() != service || q.service_config_id() != config) { bad({"Q03", "K06"}, "quota-content", "aggregated allocation " + shortpb(q)); return; }
        if (bits) { if (seen & a) { bad({"Q03", "K06"}, "tokens-twice", "tokens were sent twice: " + shortpb(q)); return; } seen |= a; }
        total += a; seen_n++;
      }
    }
    __int128 granted = 0, possible = 0; int64_t all = 0;
    for (size_t c : mine) {
      Call* k = calls[c - 1].get();
      all |= k->amount;
      bool first = firsts.count(c), denied = cr[c].done->neg;
      if (!first && !denied) { granted += k->amount; possible += k->amount; n["tokens_conserved"]++; }
      if (bits) {
        bool s = seen & k->amount;
        if (s && first) { bad({"Q03", "K06"}, "tokens-of-first", id(c) + " was sent by itself and its tokens again"); return; }
        if (s && denied) { bad({"Q03", "K06"}, "tokens-of-denied", id(c) + " was denied but its tokens were sent"); return; }
        if (!s && !first && !denied && !neg && strict) { bad({"Q03", "K06", "K01"}, "tokens-lost", id(c) + " was granted but its tokens were never sent"); return; }
      }
    }
    if (bits && (seen & ~all)) { bad({"Q03", "K06"}, "tokens-unknown", "tokens nobody asked for were sent"); return; }
    if (!neg && strict && total != granted) { bad({"Q03", "K06", "K01"}, "tokens-total", "the tokens sent differ from those granted"); return; }
    if (total > possible) { bad({"Q03", "K06"}, "tokens-total", "more tokens were sent than granted"); return; }
    if (nodrop) {
      if (firsts.size() > 1) { bad({"K06", "Q02"}, "quota-two-firsts", "two calls sent a first allocation for one key"); return; }
      for (size_t i = 1; i < own.size(); i++) {
        n["quota_spaced"]++;
        if (own[i]->send->seq < own[i - 1]->ans->seq && own[i]->send->seq < db->seq) { bad({"Q02", "K06"}, "quota-two-outstanding", "an allocation was sent while another for the same key was outstanding"); return; }
      }
      // As many sends as refreshes and re-insertions allow.
      for (size_t i = 0; i < own.size(); i++) for (size_t k = i + 1; k < own.size() && own[k]->send->seq < db->seq; k++) {
        // the i-th was decided when its predecessor was answered, at the earliest
        int64_t lo = i ? own[i - 1]->ans->t : mine.empty() ? 0 : cr[mine[0]].call->t;
        if (!i) for (size_t c : mine) lo = std::min(lo, cr[c].call->t);
        int64_t span = own[k]->send->t - lo;
        int64_t most = 1 + 2 * (span / ((int64_t)q_ref * 1000) + 1);
        if ((int64_t)(k - i + 1) > most) { bad({"Q02", "K06"}, "quota-too-often", std::to_string(k - i + 1) + " allocations for one key in " + std::to_string(span) + " us"); return; }
      }
    }
    // answers: each read is of an answer that was the latest at some instant
    for (size_t c : mine) {
      auto& x = cr[c]; const string& rid = x.done->rid;
      n["quota_reads"]++;
      if (rid.empty()) {
        if (!x.done->bytes.empty()) { bad({"Q01", "K06"}, "quota-stale-field", id(c) + " was answered with leftovers"); return; }
        if (nodrop && !fail) for (auto* s : own) if (!s->ans->code && s->anse && s->anse->seq < x.call->seq) { bad({"Q01", "K06"}, "quota-old-answer", id(c) + " was answered with an empty grant after an answer had come"); return; }
        continue;
      }
      auto a = answers.find(rid);
      if (a == answers.end() || a->second->kind != QUOTA) { bad({"Q01", "K06"}, "quota-unknown-answer", id(c) + " was answered with " + rid); return; }
      const Ev* w = a->second;
      if (w->code) { bad({"F01", "Q01", "K06"}, "quota-failed-answer", id(c) + " was answered from a failed exchange"); return; }
      if (w->bytes != x.done->bytes) { bad({"Q01", "K06"}, "quota-torn-answer", id(c) + " was answered with a changed response"); return; }
      auto& ws = sr[w->sid];
      if (ws.send->qq->allocate_operation().method_name() != method) { bad({"Q01", "K06"}, "quota-other-answer", id(c) + " was answered with the answer of another key"); return; }
      if (w->seq > x.done->seq) { bad({"Q01", "K06"}, "quota-future-answer", id(c) + " was answered with an answer not yet given"); return; }
      for (auto* s : own) if (s->ans != w && s->anse && ws.anse && s->ans->seq > ws.anse->seq && s->anse->seq < x.call->seq) { bad({"Q01", "K06"}, "quota-old-answer", id(c) + " was answered with " + rid + " after the later answer " + s->ans->rid); return; }
    }
    // and no two reads in the order opposite to their answers
    for (size_t i : mine) for (size_t k : mine) {
      auto &x = cr[i], &y = cr[k];
      if (x.done->seq >= y.call->seq || x.done->rid == y.done->rid || x.done->rid.empty() || y.done->rid.empty()) continue;
      auto *wx = answers[x.done->rid], *wy = answers[y.done->rid];
      if (sr[wy->sid].anse && sr[wy->sid].anse->seq < wx->seq) { bad({"Q01", "K06"}, "quota-reads-swapped", id(k) + " got an older answer than the earlier " + id(i)); return; }
    }
  }
  }();
  // -- statistics at the quiet moment
  if (stat) [&] {
    scc::Statistics w; memset(&w, 0, sizeof w);
    for (auto& e : ev) {
      if (e.seq > stat->seq) break;
      if (e.type == CALL) (e.kind == CHECK ? w.total_called_checks : e.kind == QUOTA ? w.total_called_quotas : w.total_called_reports)++;
      if (e.type == SEND) {
        if (e.kind == CHECK) (e.call ? w.send_checks_in_flight : w.send_checks_by_flush)++;
        if (e.kind == QUOTA) (e.call ? w.send_quotas_in_flight : w.send_quotas_by_flush)++;
        if (e.kind == REPORT) { (e.call ? w.send_reports_in_flight : w.send_reports_by_flush)++; w.send_report_operations += e.rq->operations_size(); }
      }
    }
    n["stats_compared"]++;
#define CMP(f) if (stat->st.f != w.f) { bad({"S01"}, "stats-" #f, "statistics say " #f "=" + std::to_string(stat->st.f) + ", observed " + std::to_string(w.f)); return; }
    CMP(total_called_checks) CMP(send_checks_by_flush) CMP(send_checks_in_flight) CMP(total_called_quotas) CMP(send_quotas_by_flush) CMP(send_quotas_in_flight)
    CMP(total_called_reports) CMP(send_reports_by_flush) CMP(send_reports_in_flight) CMP(send_report_operations)
  }();
  (void)any_neg_quota; (void)any_fail_quota;
  if (ss.switches || free_running) {
    R.nontrivial++;
    uint64_t h = ss.hash;
    if (free_running) { for (auto& e : ev) h = (h ^ (uint64_t)e.tid ^ (uint64_t)e.type << 8) * 0x9E3779B97F4A7C15ull; }
    R.distinct.insert(mix(h, R.case_seed));
  }
  n["points"] += ss.points; n["memory_points"] += ss.mem_points; n["switches"] += ss.switches; n["waited"] += ss.contended; if (ss.timeouts) n["timed_waits_ended"] += ss.timeouts;
  n["max_threads"] = std::max<uint64_t>(n["max_threads"], th.size());
  n[mode == 1 ? "schedules_random" : mode == 2 ? "schedules_priority" : "schedules_free"]++;
  if (R.samples.size() < 2) {
    string s = "case " + std::to_string(R.case_seed) + ": ";
    for (size_t i = 0; i < ev.size() && s.size() < 900; i++) s += "T" + std::to_string(ev[i].tid) + " " + kEv[ev[i].type] + (ev[i].type < TICK_B ? string(" ") + kKind[ev[i].kind] : "") + "; ";
    R.samples.push_back(s);
  }
}

static void* thread_main(void* p) { W->body((Thread*)p); return nullptr; }
static void one(uint64_t cs) {
  std::unique_ptr<World> w(new World(cs)); W = w.get();
  std::unique_ptr<Thread> mt(new Thread); g_main = mt.get(); mt->id = -1; mt->name = "main"; mt->r = Rng(cs ^ 77); mt->slot = nullptr; me = mt.get();
  vt::set(cs % 3 ? 1000000000 : 1760000000000000);
  w->make();
  sched::Opt o; o.mode = w->mode; o.n = w->th.size(); o.seed = w->r.next();
  static const int ps[] = {3, 10, 25, 60}, pm[] = {0, 20, 200, 1500};
  o.p_sync = ps[w->r.below(4)]; o.p_mem = pm[w->r.below(4)]; o.depth = 2 + w->r.below(4);
  int calls = w->calls.size() + 2;
  o.span = calls * (w->r.chance(50) ? 30 : w->r.chance(50) ? 300 : 3000);
  sched::begin(o);
  int up = 0;
  for (auto& t : w->th) if (pthread_create(&t->th, nullptr, thread_main, t.get())) { fprintf(stderr, "VF-FATAL: no thread\n"); _exit(98); } else if (w->mode) sched::await(++up);
  if (w->mode) sched::start();
  sched::finish();
  for (auto& t : w->th) { sched::release(t->id); pthread_join(t->th, nullptr); }
  sched::Stats ss = sched::end();
  // What is still unanswered is answered now.
  me = mt.get(); sched::quiet = 1;
  while (w->answer_one()) {}
  if (w->tick && w->r.chance(30)) { w->run_tick(mt.get()); }
  w->tick = nullptr;
  sched::quiet = 0;
  w->check(ss);
  for (auto& t : w->th) delete[] t->slot;
  W = nullptr;
}
int main(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(_GLIBCXX_TSAN) || defined(VF_FINE)
  // Hash orders depend on addresses: the same ones when a case runs again.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
#endif
  A = parse_args(argc, argv);
  vt::enable(true);
  if (!A.geti("free", 0)) mallopt(M_ARENA_MAX, 1);     // the same addresses when a case runs again
  if (!A.geti("free", 0)) {
    // One processor: handing over is cheaper.
    cpu_set_t all, mine; CPU_ZERO(&all); CPU_ZERO(&mine);
    if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 0) {
      int k = A.geti("shard", getpid()) % CPU_COUNT(&all);
      for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &mine);
      sched_setaffinity(0, sizeof mine, &mine);
    }
  }
  string out = A.out; 
  // Warm up what is initialised once.
  { Report keep; string only = R.only; A.out = ""; for (uint64_t s = 1; s < 4; s++) one(s); R = keep; R.only = only; A.out = out; }
  return run_cases(A, one);
}
