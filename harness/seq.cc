// Sequential histories against the real client in virtual time. The service,
// the timer and the clock are played by this driver, which records every
// observable event and compares it online with the reference models.
#include <algorithm>
#include "core.h"
#include "gen.h"
#include "include/service_control_client.h"
#include "src/service_control_client_factory_impl.h"
#include "models.h"

using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::protobuf::util::OkStatus;
namespace scc = google::service_control_client;

static Args A;
typedef std::vector<string> P;

enum Kind { K_CHECK, K_QUOTA, K_REPORT };
static const char* const kKind[] = {"check", "quota", "report"};

struct Call {
  int id = 0; Kind kind = K_CHECK; int depth = 0;
  bool sync = false, per_request = false, null_transport = false;
  // Owned copies of what the caller passed; freed as soon as the callback has
  // run and the call has returned, so that a late access is caught.
  std::unique_ptr<sc::CheckRequest> cq; std::unique_ptr<sc::CheckResponse> cr;
  std::unique_ptr<sc::AllocateQuotaRequest> qq; std::unique_ptr<sc::AllocateQuotaResponse> qr;
  std::unique_ptr<sc::ReportRequest> rq; std::unique_ptr<sc::ReportResponse> rr;
  string req_bytes;
  Dec dec = LOCAL; Why why = W_NONE; string qwhy;
  sc::CheckResponse want_c; sc::AllocateQuotaResponse want_q; sc::ReportResponse want_r;
  Status want_status;
  bool want_done = false;      // the callback may run now
  bool has_resp = false, filled = false;   // the service answered, with a response
  int sends = 0, dones = 0;
  bool returned = false, inplace = false;
  bool sub = false;            // issued from a callback
};

struct Pending {               // a request the service has not answered yet
  int sid; Kind kind; bool direct; int call;
  sc::CheckRequest cq; sc::AllocateQuotaRequest qq; sc::ReportRequest rq;
  sc::CheckResponse* cr = nullptr; sc::AllocateQuotaResponse* qr = nullptr; sc::ReportResponse* rr = nullptr;
  scc::TransportDoneFunc done;
};

struct World;
static World* W = nullptr;
static Args* gA = nullptr;

struct TimerObj : scc::PeriodicTimer {
  std::shared_ptr<int> stops, dels;
  void Stop() override { ++*stops; }
  ~TimerObj() { ++*dels; }
};

struct World {
  Rng r; Gen g; Conf cf;
  CheckModel cm; QuotaModel qm; RepModel rm;
  std::unique_ptr<scc::ServiceControlClient> client;
  std::map<int, std::unique_ptr<Call>> calls;
  std::vector<int> stack;              // calls being made
  std::vector<std::unique_ptr<Pending>> pending;
  int nextid = 1, nextsid = 1, nextrsp = 1;
  uint64_t opseq = 1;
  bool dead = false;                   // a violation was seen: stop checking
  int soft = 0;                        // violations of other properties
  string A_prop = gA->prop;
  bool destroyed = false, destroying = false;
  bool in_step = false;
  std::vector<int> step_report_sizes;  // operations per report request flushed in this step
  std::function<void()> tick;
  std::shared_ptr<int> stops = std::make_shared<int>(0), tdels = std::make_shared<int>(0);
  int timers = 0, timer_ms = -1;
  bool timer_given = true;
  bool def_c = false, def_q = false, def_r = false, def_qexp = false, many = false;
  bool from_outside = false;           // the service is answering, no call is being made
  int p_kill = 0;
  bool hostile = false;                // odd values everywhere, memory monitors only
  int p_defer = 30, p_fail = 10, p_neg = 20, p_slow = 3, p_nested = 10, p_perreq = 20, p_sync = 10;
  bool have[3] = {true, true, true};   // transports of the client
  std::map<string, string> rsp_identity;   // response id -> identity or !failed
  scc::Statistics st;                  // what the driver saw
  // exactly-once accounting, independent of the models
  std::map<string, int> log_accept, log_sent;   // log entry id -> times
  std::set<string> retired;
  std::vector<Gen::Ident> cpool, qpool, rpool;
  int maxlogs = 3;
  uint64_t trace = 1469598103934665603ull;
  uint64_t ev = 0;
  std::map<string, uint64_t> n;        // counters of this case
  string prof;
  string last;                         // text of the history, for samples
  int nest = 0;
  std::vector<string> texts;
  bool reuse = false, reentrant = false;                  // callers fill the same few objects again and again
  std::vector<std::unique_ptr<sc::CheckRequest>> fcq; std::vector<std::unique_ptr<sc::CheckResponse>> fcr;
  std::vector<std::unique_ptr<sc::AllocateQuotaRequest>> fqq; std::vector<std::unique_ptr<sc::AllocateQuotaResponse>> fqr;
  std::vector<std::unique_ptr<sc::ReportRequest>> frq; std::vector<std::unique_ptr<sc::ReportResponse>> frr;
  template <class M> void take(std::vector<std::unique_ptr<M>>& f, std::unique_ptr<M>* p) {
    if (f.empty()) { p->reset(new M); return; }
    *p = std::move(f.back()); f.pop_back(); (*p)->Clear(); n["objects_reused"]++;
  }
  template <class M> void give(std::vector<std::unique_ptr<M>>& f, std::unique_ptr<M>* p) {
    if (reuse && *p) f.push_back(std::move(*p));
    p->reset();
  }
  explicit World(uint64_t seed) : r(seed), g(r), cm(cf), qm(cf), rm(cf) { memset(&st, 0, sizeof st); }

  void tr(const string& s) {
    ev++;
    for (unsigned char c : s) { trace ^= c; trace *= 1099511628211ull; }
    trace ^= 0xff; trace *= 1099511628211ull;
    if (gA->verbose) printf("  [%lld] %s\n", (long long)vt::now(), s.c_str());
    if (texts.size() < 40) texts.push_back(s);
  }
  void bad(P p, const string& key, const string& msg) {
    if (dead) return;
    // A callback that does not run, or runs twice, once the client is gone.
    if ((destroyed || destroying) && (key.compare(0, 8, "callback") == 0 || key == "wrong-status" || key == "wrong-response" || key == "duplicate-log-entry" || key == "lost-log-entry" || key.compare(0, 10, "unexpected") == 0) && std::find(p.begin(), p.end(), "K01") == p.end()) p.push_back("K01");
    // A violation of another property does not end the history: what this
    // one's is about may show only later.
    if (A_prop == "all" || ++soft > 40 || std::find(p.begin(), p.end(), A_prop) != p.end()) dead = true;
    R.viol(p, key, msg + " [t=" + std::to_string(vt::now()) + "us check=" + std::to_string(cf.c_num) + "/" + std::to_string(cf.c_flush) + "/" + std::to_string(cf.c_exp) +
           " quota=" + std::to_string(cf.q_num) + "/" + std::to_string(cf.q_ref) + "/" + std::to_string(cf.q_exp) + " report=" + std::to_string(cf.r_num) + "/" + std::to_string(cf.r_flush) + "]");
  }
  void setup();
  void run(int steps);
  void step();
  void teardown();
  void destroy(bool own_step);
  void do_check(bool nested); void do_quota(bool nested); void do_report(bool nested);
  void on_done(int id, const Status& s);
  void after_call(Call* c);
  void maybe_nest(int kind = -1);
  void end_step(const char* what);
  bool step_nested = false;            // a callback made a call in this step
  void begin_step() { step_report_sizes.clear(); step_nested = false; }
  void do_tick();
  void complete(size_t i);
  void answer(Pending* p, bool inplace);
  void send_check(const sc::CheckRequest&, sc::CheckResponse*, scc::TransportDoneFunc, int via);
  void send_quota(const sc::AllocateQuotaRequest&, sc::AllocateQuotaResponse*, scc::TransportDoneFunc, int via);
  void send_report(const sc::ReportRequest&, sc::ReportResponse*, scc::TransportDoneFunc, int via);
  void deliver(std::unique_ptr<Pending> p);
  bool wrong_transport(Call* c, Kind k, bool own_response);
  void check_stats();
  void release(Call* c);
  void sweep();
  Call* top() { return stack.empty() ? nullptr : calls[stack.back()].get(); }
  void account_accept(const sc::ReportRequest& q) { for (auto& o : q.operations()) for (auto& l : o.log_entries()) log_accept[l.insert_id()]++; }
  void account_sent(const sc::ReportRequest& q) {
    for (auto& o : q.operations()) for (auto& l : o.log_entries()) if (++log_sent[l.insert_id()] > log_accept[l.insert_id()])
      bad({"R01"}, "duplicate-log-entry", "log entry " + l.insert_id() + " was accepted " + std::to_string(log_accept[l.insert_id()]) + " times and sent to the service " + std::to_string(log_sent[l.insert_id()]) + " times");
  }
};

static const int kMs[] = {1, 2, 3, 5, 8, 10, 20, 50, 100, 125, 200, 250, 500, 1000};
// Intervals whose number of microseconds needs more than 31 or 32 bits.
static const int kLongMs[] = {60000, 2500000, 3600000, 4294968, 86400000};

void World::setup() {
  // vt intervals whose conversion to microseconds through doubles is exact.
  std::vector<int> ms;
  bool with_long = r.chance(15);
  for (int m : kMs) if ((int64_t)(m / 1000.0 * 1000000) == (int64_t)m * 1000) ms.push_back(m);
  if (with_long) for (int m : kLongMs) if ((int64_t)(m / 1000.0 * 1000000) == (int64_t)m * 1000) ms.push_back(m);
  auto cap = [&](int zero) { return r.chance(zero) ? -(int)r.below(2) : r.chance(15) ? 1000 : 1 + (int)r.below(r.chance(50) ? 4 : 40); };
  prof = A.profile;
  bool only_check = prof == "check", only_quota = prof == "quota", only_report = prof == "report";
  cf.c_num = cap(only_check ? 3 : 12); cf.q_num = cap(only_quota ? 3 : 12); cf.r_num = cap(only_report ? 3 : 12);
  if (only_report && r.chance(50)) cf.r_num = 8 + r.below(40);
  cf.c_flush = r.pick(ms); cf.c_exp = r.chance(30) ? 1 : r.pick(ms);
  for (;;) {
    cf.c_exp = std::max(cf.c_flush + 1, cf.c_exp);
    if ((int64_t)(cf.c_exp / 1000.0 * 1000000) == (int64_t)cf.c_exp * 1000) break;
    cf.c_exp++;
  }
  cf.q_ref = r.pick(ms); cf.q_exp = r.chance(25) ? cf.q_ref : r.chance(70) ? cf.q_ref * (1 + (int)r.below(6)) + (int)r.below(3) : 600000;
  cf.r_flush = r.pick(ms);
  if (r.chance(4)) { cf.c_flush = 0; cf.c_exp = 1; }      // every check is due
  if (r.chance(3)) cf.q_ref = 0;
  if (r.chance(3)) cf.r_flush = 0;
  // What the options are when the user does not choose: as documented.
  def_c = r.chance(5); def_q = r.chance(5); def_r = r.chance(5); def_qexp = cf.q_exp == 600000 && r.chance(50);
  bool def_all = r.chance(2);
  if (def_all) def_c = def_q = def_r = true;
  many = r.chance(3);
  if (many) { cf.c_num = r.pick(std::vector<int>{150, 1000}); cf.q_num = r.pick(std::vector<int>{150, 1000}); cf.r_num = r.pick(std::vector<int>{150, 1000}); n["many_identities"]++; }
  if (def_c) { cf.c_num = 10000; cf.c_flush = 500; cf.c_exp = 1000; }
  if (def_q) { cf.q_num = 10000; cf.q_ref = 1000; cf.q_exp = 600000; }
  if (def_r) { cf.r_num = 10000; cf.r_flush = 1000; }
  if (def_c || def_q || def_r) n["default_options"]++;
  if (r.chance(75)) {
    cf.kinds = std::make_shared<Kinds>();
    using MD = google::api::MetricDescriptor;
    (*cf.kinds)["m/gauge"] = MD::GAUGE;
    if (r.chance(50)) (*cf.kinds)["m/bytes"] = r.chance(50) ? MD::CUMULATIVE : MD::DELTA;
    if (r.chance(20)) (*cf.kinds)["m/requests"] = r.chance(50) ? MD::CUMULATIVE : MD::GAUGE;
    if (r.chance(20)) (*cf.kinds)["m/latency"] = MD::METRIC_KIND_UNSPECIFIED;
  }
  int nid = 1 + r.below(r.chance(50) ? 3 : 12);
  if (only_report && r.chance(40)) nid = 10 + r.below(30);
  if (many) nid = 100 + r.below(200);
  for (int i = 0; i < nid; i++) {
    // Later identities often differ from an earlier one in one place only.
    auto mk = [&](std::vector<Gen::Ident>& pool) {
      Gen::Ident d = g.ident(5);
      if (!pool.empty() && r.chance(60)) {
        d = r.pick(pool);
        switch (r.below(5)) {
          case 0: d.name = r.below(8); break;
          case 1: d.cons = r.below(8); break;
          case 2: d.labels = r.below(11); break;
          case 3: { int m = r.below(4); bool f = false; for (size_t j = 0; j < d.metrics.size(); j++) if (d.metrics[j] == m) { d.metrics.erase(d.metrics.begin() + j); d.mlabels.erase(d.mlabels.begin() + j); f = true; break; }
                    if (!f) { d.metrics.push_back(m); d.mlabels.push_back(0); } break; }
          case 4: if (!d.mlabels.empty()) d.mlabels[r.below(d.mlabels.size())] = r.below(4); break;
        }
      }
      if (many) d.name = 10 + i;
      pool.push_back(d);
    };
    mk(cpool); mk(qpool); mk(rpool);
  }
  maxlogs = r.chance(25) ? 60 : r.chance(20) ? 130 : 3;
  p_defer = r.pick(std::vector<int>{0, 20, 50, 90}); p_fail = r.pick(std::vector<int>{0, 5, 15, 40, 90});
  p_neg = r.pick(std::vector<int>{0, 10, 30, 60}); p_slow = r.pick(std::vector<int>{0, 0, 5, 30});
  p_nested = r.pick(std::vector<int>{0, 10, 30}); p_perreq = r.pick(std::vector<int>{0, 20, 100});
  if (p_perreq == 100 && r.chance(30)) have[0] = have[1] = have[2] = false;
  else if (r.chance(10)) for (bool& h : have) h = r.chance(50);
  timer_given = r.chance(85);
  p_kill = r.pick(std::vector<int>{0, 0, 1, 5});
  hostile = prof == "hostile";
  if (r.chance(30)) g.idmode = 1 + r.below(4);
  if (r.chance(15)) g.logmode = 1 + r.below(2);
  reuse = r.chance(20); reentrant = r.chance(15);
  if (r.chance(20)) cf.service = r.pick(std::vector<string>{"s", string(300, 's') + ".example.com", "svc.example.com:443", "\xc3\xa9"});
  if (r.chance(20)) cf.config = r.pick(std::vector<string>{"", string(300, 'c'), "cfg-7 "});
  if (hostile) {
    dead = true;
    auto odd = [&](int* v) { if (r.chance(12)) *v = r.pick(std::vector<int>{0, -1, INT32_MAX, INT32_MIN, 1, INT32_MAX - 1, -1000}); };
    odd(&cf.c_num); odd(&cf.q_num); odd(&cf.r_num); odd(&cf.c_flush); odd(&cf.c_exp); odd(&cf.q_ref); odd(&cf.q_exp); odd(&cf.r_flush);
  }

  if (r.chance(30)) vt::set(1760000000000000 + (int64_t)r.below(1000000000000));
  else vt::set(1000000000 + (int64_t)r.below(1000000000));
  scc::ServiceControlClientOptions plain, chosen(
      def_c ? scc::CheckAggregationOptions() : scc::CheckAggregationOptions(cf.c_num, cf.c_flush, cf.c_exp),
      def_q ? scc::QuotaAggregationOptions() : def_qexp && cf.q_exp == 600000 ? scc::QuotaAggregationOptions(cf.q_num, cf.q_ref) : scc::QuotaAggregationOptions(cf.q_num, cf.q_ref, cf.q_exp),
      def_r ? scc::ReportAggregationOptions() : scc::ReportAggregationOptions(cf.r_num, cf.r_flush));
  scc::ServiceControlClientOptions& o = def_all && !hostile ? plain : chosen;
  if (cf.kinds) { o.metric_kinds = std::make_shared<scc::MetricKindMap>(); for (auto& k : *cf.kinds) (*o.metric_kinds)[k.first] = k.second; }
  if (have[K_CHECK]) o.check_transport = [](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { W->send_check(q, s, d, 0); };
  if (have[K_QUOTA]) o.quota_transport = [](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { W->send_quota(q, s, d, 0); };
  if (have[K_REPORT]) o.report_transport = [](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) { W->send_report(q, s, d, 0); };
  if (timer_given)
    o.periodic_timer = [](int ms, std::function<void()> f) {
      W->timers++; W->timer_ms = ms; W->tick = f;
      std::unique_ptr<TimerObj> t(new TimerObj); t->stops = W->stops; t->dels = W->tdels;
      return std::unique_ptr<scc::PeriodicTimer>(t.release());
    };
  if (r.chance(30)) { scc::ServiceControlClientFactoryImpl f; client = f.CreateClient(cf.service, cf.config, o); n["made_by_factory"]++; }
  else client = scc::CreateServiceControlClient(cf.service, cf.config, o);
  // The caller's options are his own again.
  if (r.chance(50)) { o.check_transport = nullptr; o.quota_transport = nullptr; o.report_transport = nullptr; o.periodic_timer = nullptr; o.metric_kinds.reset(); }
  // T01: one timer at the shortest interval that any enabled cache needs.
  int want = INT32_MAX;
  if (cf.c_num > 0) want = std::min(want, cf.c_exp);
  if (cf.q_num > 0) want = std::min(want, cf.q_ref);
  if (cf.r_num > 0) want = std::min(want, cf.r_flush);
  if (want <= 0) {
    // Nothing says what the timer does for an interval of zero.
  } else if (timer_given && cf.c_num <= 0 && cf.q_num <= 0 && cf.r_num <= 0) {
    n["timers_unneeded"]++;
    if (timers) bad({"T01"}, "timer-unneeded", "a periodic timer was started though all caches are disabled");
  } else if (timer_given) {
    n["timers"]++;
    if (timers != 1) bad({"T01"}, "timer-count", "expected one periodic timer, saw " + std::to_string(timers));
    else if (timer_ms != want) bad({"T01"}, "timer-interval", "timer interval " + std::to_string(timer_ms) + " ms, the shortest interval is " + std::to_string(want));
  }
}

// A call that brings its own transport is not to be sent by the client's.
bool World::wrong_transport(Call* c, Kind k, bool own_response) {
  if (dead || !c || !own_response || c->kind != k || !c->per_request || c->returned) return false;
  bad({"B01", "D01"}, "wrong-transport", string("a ") + kKind[k] + " call that brought its own transport was sent by the client's");
  return false;
}

// --- the service side -------------------------------------------------------
void World::send_check(const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d, int via) {
  if (destroyed) bad({"K01"}, "send-after-destruction", "a check request was sent after the client was destroyed");
  std::unique_ptr<Pending> p(new Pending); p->sid = nextsid++; p->kind = K_CHECK; p->cq = q; p->cr = s; p->done = d;
  Call* c = top();
  bool direct = via || (c && c->kind == K_CHECK && !c->returned && !c->per_request && c->sends == 0 && !destroying && c->cq && (s == c->cr.get() || (det(*c->cq) == det(q) && (g.idmode == 0 || cm.expect.empty()))));
  if (direct && !calls.count(via ? via : c->id)) direct = false;   // of a call that is over
  if (!direct && wrong_transport(c, K_CHECK, c && c->cr && s == c->cr.get())) return;
  p->direct = direct; p->call = direct ? (via ? via : c->id) : 0;
  if (direct) {
    Call* k = calls[p->call].get();
    tr("send check directly for call " + std::to_string(k->id));
    st.send_checks_in_flight++;
    k->sends++;
    if (k->sends > 1) bad({"D01", "C03"}, "check-sent-twice", "one check call sent two requests");
    else if (k->dec == INVALID) bad({"D02"}, "invalid-check-sent", "an invalid check was sent to the service");
    else if (k->dec == LOCAL) bad({"C03"}, "needless-check", "a check with a fresh cached answer was sent to the service");
    else if (det(q) != k->req_bytes) bad({k->why == W_URGENT || k->why == W_DISABLED ? "B01" : "C01"}, "check-changed", "the request sent differs from the one passed: " + shortpb(q));
    k->want_done = true;
    if (k->why == W_URGENT || k->why == W_DISABLED) n["bypass"]++;
  } else {
    st.send_checks_by_flush++;
    tr("flush check " + shortpb(q.operation()).substr(0, 60));
    n["check_flush"]++;
    if (!dead) {
      string why = "no flush of it was due"; bool ok = false;
      auto& e = cm.expect;
      for (size_t i = 0; i < e.size(); i++) {
        if (check_identity(norm_op(e[i].operation())) != check_identity(norm_op(q.operation()))) continue;
        string w;
        if (e[i].service_name() != q.service_name() || e[i].service_config_id() != q.service_config_id()) w = "service name or config id: " + q.service_name() + "/" + q.service_config_id();
        else if (op_close(e[i].operation(), q.operation(), &w)) { e.erase(e.begin() + i); ok = true; break; }
        why = w;
      }
      if (!ok) {
        Call* t = top();
        P props{"C05"};
        if (t && t->kind == K_CHECK && t->dec == FORWARD && t->sends == 0) props.push_back("C03");
        bad(props, "wrong-check-flush", "flushed check " + shortpb(q) + ": " + why);
      }
    }
  }
  deliver(std::move(p));
}
void World::send_quota(const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d, int via) {
  if (destroyed) bad({"K01"}, "send-after-destruction", "a quota request was sent after the client was destroyed");
  std::unique_ptr<Pending> p(new Pending); p->sid = nextsid++; p->kind = K_QUOTA; p->qq = q; p->qr = s; p->done = d;
  Call* c = top();
  bool direct = via || (cf.q_num <= 0 && c && c->kind == K_QUOTA && !c->per_request && c->sends == 0);
  if (direct && !calls.count(via ? via : c->id)) direct = false;   // of a call that is over
  if (!direct && wrong_transport(c, K_QUOTA, c && c->qr && s == c->qr.get())) return;
  p->direct = direct; p->call = direct ? (via ? via : c->id) : 0;
  if (direct) {
    Call* k = calls[p->call].get();
    tr("send quota directly for call " + std::to_string(k->id));
    st.send_quotas_in_flight++; k->sends++;
    if (k->sends > 1) bad({"D01", "Q02"}, "quota-sent-twice", "one quota call sent two requests");
    else if (k->dec == INVALID) bad({"D02"}, "invalid-quota-sent", "an invalid quota request was sent");
    else if (k->dec == LOCAL) bad({"Q01", "Q02"}, "needless-quota", "a quota call was sent directly although quota is cached");
    else if (det(q) != k->req_bytes) bad({"Q03", "B01"}, "quota-changed", "the request sent differs from the one passed: " + shortpb(q));
    k->want_done = true;
    n["bypass"]++;
  } else {
    st.send_quotas_by_flush++;
    string key = quota_identity(q.allocate_operation());
    tr("refresh quota " + q.allocate_operation().operation_id());
    n["quota_refresh"]++;
    if (!dead) {
      auto& e = qm.expect; bool ok = false;
      const QSend* near = nullptr;
      sc::AllocateQuotaRequest a(q); *a.mutable_allocate_operation() = norm_qop(q.allocate_operation());
      for (size_t i = 0; i < e.size(); i++) {
        if (e[i].key != key) continue;
        sc::AllocateQuotaRequest b(e[i].req); *b.mutable_allocate_operation() = norm_qop(b.allocate_operation());
        near = &e[i];
        if (det(a) == det(b)) { n[string("quota_") + e[i].why]++; e.erase(e.begin() + i); ok = true; break; }
      }
      if (!ok) {
        if (!near) bad({"Q02", "Q03"}, "unexpected-quota-send", "a refresh of this key was not due: " + shortpb(q));
        else {
          sc::AllocateQuotaRequest b(near->req);
          P props; string key2 = "quota-content";
          if (b.allocate_operation().quota_mode() != q.allocate_operation().quota_mode()) { props.push_back("Q02"); key2 = "quota-mode"; }
          sc::AllocateQuotaRequest a2(a), b2(b); *b2.mutable_allocate_operation() = norm_qop(b2.allocate_operation());
          a2.mutable_allocate_operation()->clear_quota_mode(); b2.mutable_allocate_operation()->clear_quota_mode();
          if (det(a2) != det(b2)) { props.push_back("Q03"); if (string(near->why) == "probe" || string(near->why) == "probe-denied" || string(near->why) == "first") props.push_back("Q02"); if (string(near->why) == "leaving") props.push_back("Q04"); }
          bad(props, key2, string("refresh (") + near->why + ") is " + shortpb(q) + " but should be " + shortpb(near->req));
        }
      }
    }
  }
  deliver(std::move(p));
}
void World::send_report(const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d, int via) {
  if (destroyed) bad({"K01"}, "send-after-destruction", "a report request was sent after the client was destroyed");
  std::unique_ptr<Pending> p(new Pending); p->sid = nextsid++; p->kind = K_REPORT; p->rq = q; p->rr = s; p->done = d;
  Call* c = top();
  bool direct = via || (c && c->kind == K_REPORT && !c->returned && !c->per_request && c->sends == 0 && !destroying && c->rq && &q == c->rq.get());
  if (!direct && c && c->kind == K_REPORT && !c->per_request && c->sends == 0 && c->dec == FORWARD && !destroying && det(q) == c->req_bytes && (g.idmode == 0 || rm.expect.empty())) direct = true;
  if (direct && !calls.count(via ? via : c->id)) direct = false;   // of a call that is over
  if (!direct && wrong_transport(c, K_REPORT, c && c->rr && s == c->rr.get())) return;
  p->direct = direct; p->call = direct ? (via ? via : c->id) : 0;
  st.send_report_operations += q.operations_size();
  account_sent(q);
  if (direct) {
    Call* k = calls[p->call].get();
    tr("send report directly for call " + std::to_string(k->id));
    st.send_reports_in_flight++; k->sends++;
    if (k->sends > 1) bad({"D01", "R01"}, "report-sent-twice", "one report call sent two requests");
    else if (k->dec == INVALID) bad({"D02"}, "invalid-report-sent", "an invalid report was sent");
    else if (k->dec == LOCAL) bad({"R03"}, "needless-report", "a report that should be merged was sent directly");
    else if (det(q) != k->req_bytes) bad({"B01", "R01"}, "report-changed", "the request sent differs from the one passed: " + shortpb(q));
    k->want_done = true; n["bypass"]++;
  } else {
    st.send_reports_by_flush++;
    tr("flush report of " + std::to_string(q.operations_size()));
    n["report_flush"]++; n["report_flush_ops"] += q.operations_size();
    step_report_sizes.push_back(q.operations_size());
    if (!dead) {
      if (q.operations_size() > 10) bad({"R03"}, "report-too-big", "a report request has " + std::to_string(q.operations_size()) + " operations");
      if (q.service_name() != cf.service || q.service_config_id() != cf.config) bad({"R03", "R02"}, "report-header", "flushed report for " + q.service_name() + "/" + q.service_config_id());
      for (auto& o : q.operations()) {
        bool ok = false; string why; bool same = false;
        auto& e = rm.expect;
        for (size_t i = 0; i < e.size(); i++) {
          if (report_identity(e[i]) != report_identity(o)) continue;
          same = true;
          if (op_close(e[i], o, &why)) { e.erase(e.begin() + i); ok = true; break; }
        }
        if (ok) { n["report_ops_matched"]++; continue; }
        bool known = rm.ents.count(report_identity(o)) > 0;
        if (same) bad({"R02", "R01"}, "report-content", "flushed operation differs from the merge of what was reported: " + why + " in " + shortpb(o));
        else if (known) bad({"R03"}, "report-early", "an operation was flushed before it was due: " + shortpb(o));
        else bad({"R01", "R02"}, "report-unknown", "an operation was sent that nobody is owed: " + shortpb(o));
      }
    }
  }
  deliver(std::move(p));
}
void World::deliver(std::unique_ptr<Pending> p) {
  Call* c = p->direct && calls.count(p->call) ? calls[p->call].get() : nullptr;
  bool must = c && c->sync;
  // Transports may make calls themselves. From a tick only of the kind being
  // served: in which order a tick serves the caches is not specified.
  if (reentrant && !dead && nest < 2 && (in_step || !stack.empty()) && r.chance(10)) { n[in_step ? "calls_from_tick_transports" : "calls_from_transports"]++; maybe_nest(in_step ? (int)p->kind : 3); }
  if (!must && r.chance(p_defer)) { tr("deferred"); n["deferred"]++; pending.push_back(std::move(p)); return; }
  if (p_slow && r.chance(p_slow)) {
    // A slow transport that completes in place: time passes meanwhile.
    std::vector<int64_t> t; qm.times(&t); cm.times(&t); rm.times(&t);
    int64_t now = vt::now(), best = now + r.below(3000);
    if (!t.empty() && r.chance(60)) { int64_t x = r.pick(t); if (x > now && x < now + 5000000) best = x + r.below(2); }
    vt::set(std::max(now, best)); tr("slow transport"); n["slow_inplace"]++;
  }
  if (c) c->inplace = true;
  answer(p.get(), true);
}
// The service answers p: fills the response and calls the library back.
void World::answer(Pending* p, bool inplace) {
  bool fail = r.chance(p_fail), neg = r.chance(p_neg);
  string rid = "rsp-" + std::to_string(nextrsp++);
  Status status = fail ? vf::failed(r, "transport failed " + rid) : OkStatus();
  bool fill = !fail || r.chance(30);
  Call* c = p->direct && calls.count(p->call) ? calls[p->call].get() : nullptr;
  tr(string(inplace ? "answer in place: " : "answer: ") + (fail ? "failure" : neg ? "denied" : "passed"));
  n[fail ? "answers_failed" : neg ? "answers_denied" : "answers_passed"]++;
  sc::CheckResponse cr; sc::AllocateQuotaResponse qr; sc::ReportResponse rr;
  if (fill && p->kind == K_CHECK) {
    // Most answers name themselves; some say nothing at all.
    bool named = r.chance(93), empty = !named && r.chance(50);
    if (named) cr.set_operation_id(rid);
    if (!empty && r.chance(50)) cr.set_service_config_id("srv-" + rid);
    if (neg) { int k = 1 + r.below(2); for (int i = 0; i < k; i++) { auto* e = cr.add_check_errors(); e->set_code(r.chance(50) ? sc::CheckError::PERMISSION_DENIED : r.chance(50) ? sc::CheckError::API_KEY_INVALID : sc::CheckError::ERROR_CODE_UNSPECIFIED); e->set_detail("why " + rid); } }
    if (!empty && r.chance(30)) cr.set_service_rollout_id("rollout-" + rid);
    if (!empty && r.chance(30)) cr.mutable_check_info()->mutable_consumer_info()->set_project_number(r.below(1000));
  } else if (fill && p->kind == K_QUOTA) {
    bool named = r.chance(93), empty = !named && r.chance(50);
    if (named) qr.set_operation_id(rid);
    if (!empty && r.chance(50)) qr.set_service_config_id("srv-" + rid);
    if (neg) { auto* e = qr.add_allocate_errors(); e->set_code(r.chance(60) ? sc::QuotaError::RESOURCE_EXHAUSTED : r.chance(50) ? sc::QuotaError::UNSPECIFIED : sc::QuotaError::BILLING_NOT_ACTIVE); if (r.chance(30)) e->set_subject("who " + rid); e->set_description("why " + rid); }
    if (!empty && r.chance(30)) { auto* m = qr.add_quota_metrics(); m->set_metric_name("granted"); m->add_metric_values()->set_int64_value(r.below(100)); }
  } else if (fill) {
    bool empty = r.chance(5);
    if (!empty) rr.set_service_config_id(rid);
    if (!empty && r.chance(30)) rr.set_service_rollout_id("rollout-" + rid);
    if (neg) rr.add_report_errors()->set_operation_id(rid);
  }
  if (!hostile && fill && r.chance(3)) {
    // Any field may be set in an answer.
    if (p->kind == K_CHECK) { odd_fill(r, &cr, 40, 4); if (!neg) cr.clear_check_errors(); }
    else if (p->kind == K_QUOTA) { odd_fill(r, &qr, 40, 4); if (!neg) qr.clear_allocate_errors(); }
    else odd_fill(r, &rr, 40, 4);
    n["odd_answers"]++;
  }
  if (hostile && r.chance(40)) { odd_fill(r, &cr, 30, 4); odd_fill(r, &qr, 30, 4); odd_fill(r, &rr, 30, 4); }
  int64_t now = vt::now();
  if (p->kind == K_CHECK) {
    if (fill) *p->cr = cr;
    rsp_identity[rid] = (fail ? "!" : "") + check_identity(p->cq.operation());
    if (p->direct && !fail) cm.cache(p->cq, fill ? cr : sc::CheckResponse(), now);
    if (c) { c->want_c = fill ? cr : sc::CheckResponse(); }
  } else if (p->kind == K_QUOTA) {
    if (fill) *p->qr = qr;
    rsp_identity[rid] = (fail ? "!" : "") + quota_identity(p->qq.allocate_operation());
    // After a failed allocation the key answers like a grant (fail open).
    qm.cache(p->qq, fail ? sc::AllocateQuotaResponse() : qr, now);
    if (c) c->want_q = qr;
  } else {
    if (fill) *p->rr = rr;
    if (c) c->want_r = rr;
  }
  if (destroyed) {
    // Nobody is left to flush to.
    cm.expect.clear(); qm.expect.clear(); rm.expect.clear();
    n["late_answers"]++;
  }
  if (c) { c->want_status = status; c->has_resp = true; c->filled = fill; c->want_done = true; }
  int before = c ? c->dones : 0;
  scc::TransportDoneFunc d = std::move(p->done);
  bool outer = stack.empty() && !in_step;
  if (outer && !inplace) { begin_step(); from_outside = true; }
  d(status);
  d = nullptr;
  from_outside = false;
  if (c && !c->sync && c->dones != before + 1) bad({"D01"}, "callback-not-run", string("the callback of a ") + kKind[p->kind] + " call did not run when the service answered");
  if (outer && !inplace) end_step("answer");
}

// --- the caller side --------------------------------------------------------
static string stat_s(const Status& s) { return s.ToString(); }
void World::on_done(int id, const Status& s) {
  Call* c = calls.count(id) ? calls[id].get() : nullptr;
  if (!c) { bad({"D01"}, "callback-after-release", "a callback ran for a call that was already finished"); return; }
  c->dones++;
  tr(string("done ") + kKind[c->kind] + " " + (s.ok() ? "ok" : "error"));
  n["callbacks"]++;
  if (dead && !hostile) return;
  if (!dead && c->dones > 1) { bad({"D01"}, "callback-twice", string("the callback of a ") + kKind[c->kind] + " call ran twice"); return; }
  if (hostile) { maybe_nest(); return; }
  if (c->null_transport) {
    if (s.code() != StatusCode::kInvalidArgument) bad({"D02"}, "null-transport", "a call with an empty transport finished with " + stat_s(s));
    return;
  }
  if (c->dec == INVALID) {
    if (s.code() != StatusCode::kInvalidArgument) bad({"D02"}, "invalid-accepted", string("an invalid ") + kKind[c->kind] + " finished with " + stat_s(s));
    return;
  }
  if (s.code() == StatusCode::kInvalidArgument && !(c->has_resp && c->want_status.code() == s.code())) {
    bad({"D02", "D01"}, "valid-rejected", string("a valid ") + kKind[c->kind] + " was rejected: " + stat_s(s)); return;
  }
  if (c->dec == FORWARD && !c->has_resp) {
    if (c->sends == 0) {
      string m = string("a ") + kKind[c->kind] + " that has to go to the service was answered locally";
      if (c->kind == K_CHECK) {
        string id = c->cr->operation_id(), from = rsp_identity.count(id) ? rsp_identity[id] : "";
        P p; 
        switch (c->why) {
          case W_URGENT: case W_DISABLED: p = {"B01"}; break;
          case W_IDLE: p = {"C02"}; break;
          case W_REFRESH: p = {"C02"}; break;
          case W_EVICTED: p = {"C03"}; break;
          default: p = {"C01"};
        }
        if (c->why != W_NEVER && c->why != W_URGENT && c->why != W_DISABLED && from != check_identity([&] { sc::CheckRequest q; q.ParseFromString(c->req_bytes); return q.operation(); }())) p.push_back("C01");
        if (!from.empty() && from[0] == '!') p.push_back("F01");
        bad(p, "check-not-forwarded", m + " with " + shortpb(*c->cr) + " (reason it had to: " + std::to_string(c->why) + ")");
      } else if (c->kind == K_QUOTA) bad({"B01", "Q01"}, "quota-not-forwarded", m);
      else bad({"B01"}, "report-not-forwarded", m + " (" + c->qwhy + ")");
    } else bad({"D01"}, "callback-early", string("the callback of a ") + kKind[c->kind] + " ran before the service answered");
    return;
  }
  if (c->dec == FORWARD) {
    if (s.code() != c->want_status.code() || s.message() != c->want_status.message()) {
      P p{"D01"}; if (!c->want_status.ok()) p.push_back("F01");
      bad(p, "wrong-status", string(kKind[c->kind]) + " finished with " + stat_s(s) + " but the service answered " + stat_s(c->want_status)); return;
    }
    string got = c->kind == K_CHECK ? det(*c->cr) : c->kind == K_QUOTA ? det(*c->qr) : det(*c->rr);
    string want = c->kind == K_CHECK ? det(c->want_c) : c->kind == K_QUOTA ? det(c->want_q) : det(c->want_r);
    if (c->filled && got != want) { bad({"D01"}, "wrong-response", string(kKind[c->kind]) + " response is not what the service answered"); return; }
    n["forwarded_done"]++;
  } else {
    // Answered locally.
    if (!s.ok()) {
      P p{"D01"}; if (c->kind == K_CHECK) p.push_back("C01"); if (c->kind == K_QUOTA) p.push_back("Q01");
      bad(p, "local-status", string(kKind[c->kind]) + " answered locally finished with " + stat_s(s)); return; }
    if (c->kind == K_CHECK) {
      n["check_local"]++;
      if (det(*c->cr) != det(c->want_c)) {
        P p{"C01"};
        string id = c->cr->operation_id(), from = rsp_identity.count(id) ? rsp_identity[id] : "";
        if (!from.empty() && from[0] == '!') p.push_back("F01");
        bad(p, "wrong-cached-check", "cached answer " + shortpb(*c->cr) + " but the latest answer for this request is " + shortpb(c->want_c)); return;
      }
    } else if (c->kind == K_QUOTA) {
      n["quota_local"]++;
      if (det(*c->qr) != det(c->want_q)) {
        P p{"Q01"};
        string id = c->qr->operation_id(), from = rsp_identity.count(id) ? rsp_identity[id] : "";
        if ((!from.empty() && from[0] == '!') || c->want_q.operation_id().empty()) p.push_back("F01");
        if (c->qwhy == "first") p.push_back("Q04");
        bad(p, "wrong-quota-answer", "quota answer " + shortpb(*c->qr) + " but the latest one for this key is " + shortpb(c->want_q) + " (" + c->qwhy + ")"); return;
      }
    } else n["report_merged"]++;
  }
  if (!dead) maybe_nest();
  if (from_outside && !dead && !c->sub && nest == 0 && stack.empty() && client && r.chance(p_kill)) {
    // The owner lets go of the client when it hears of this result.
    n["destroyed_in_callback"]++;
    destroy(false);
    from_outside = false;
  }
  if (!dead && !c->sync && r.chance(50)) {
    // The call is finished, also if it has not returned: its owner may free
    // what belongs to it.
    string now = c->cq ? det(*c->cq) : c->qq ? det(*c->qq) : c->rq ? det(*c->rq) : c->req_bytes;
    if (now != c->req_bytes) bad({"D01"}, "request-modified", "the caller's request was modified");
    n["freed_in_callback"]++;
    release(c);
  }
}
void World::maybe_nest(int kind) {
  if (!destroyed && !destroying && nest < 3 && client && (kind >= 0 || r.chance(p_nested))) {
    nest++; n["nested_calls"]++; step_nested = true;
    switch (kind >= 0 && kind < 3 ? kind : (int)r.below(3)) { case 0: do_check(true); break; case 1: do_quota(true); break; default: do_report(true); }
    nest--;
  }
}
void World::release(Call* c) {
  // The library must not touch the caller's objects from here on.
  give(fcq, &c->cq); give(fcr, &c->cr); give(fqq, &c->qq); give(fqr, &c->qr); give(frq, &c->rq); give(frr, &c->rr);
}
void World::sweep() {
  for (auto i = calls.begin(); i != calls.end();) {
    Call* c = i->second.get();
    if (c->returned && c->dones >= 1 && stack.empty()) { release(c); i = calls.erase(i); } else ++i;
  }
}
void World::end_step(const char* what) {
  if (dead) { cm.expect.clear(); qm.expect.clear(); rm.expect.clear(); return; }
  // What cannot be sent is not flushed. A quota refresh that cannot be sent fails open.
  if (!have[K_QUOTA]) {
    for (int guard = 0; !qm.expect.empty() && guard < 1000; guard++) {
      QSend s = qm.expect.front(); qm.expect.erase(qm.expect.begin());
      qm.cache(s.req, sc::AllocateQuotaResponse(), vt::now());
    }
  }
  if (!have[K_CHECK]) cm.expect.clear();
  if (!have[K_REPORT]) rm.expect.clear();
  bool end = destroyed || destroying;
  if (!cm.expect.empty()) bad(end ? P{"C05", "K01"} : P{"C05"}, "missing-check-flush", string(what) + ": a check aggregated earlier was not flushed: " + shortpb(cm.expect[0]));
  if (!qm.expect.empty()) {
    string w = qm.expect[0].why;
    P p = w == "first" ? P{"Q02", "Q01", "Q03"} : w == "leaving" ? P{"Q03", "Q04"} : w == "aggregated" ? P{"Q02", "Q03"} : P{"Q02"};
    if (end) p.push_back("K01");
    bad(p, "missing-quota-" + w, string(what) + ": a quota refresh (" + w + ") was due but not sent: " + shortpb(qm.expect[0].req));
  }
  if (!rm.expect.empty()) bad(end ? P{"R01", "R03", "K01"} : P{"R03", "R01"}, "missing-report-flush", string(what) + ": an operation was due but not sent: " + shortpb(rm.expect[0]));
  int total = 0, reqs = step_report_sizes.size();
  for (int x : step_report_sizes) total += x;
  if (reqs && !step_nested && reqs != (total + 9) / 10) bad({"R03"}, "report-batching", string(what) + ": " + std::to_string(total) + " operations were flushed together in " + std::to_string(reqs) + " requests");
  if (reqs > 1 || total > 1) n["report_batches"]++;
  step_report_sizes.clear();
}
void World::after_call(Call* c) {
  c->returned = true;
  tr("return");
  if (!dead) {
    if (c->null_transport || c->dec == INVALID || c->dec == LOCAL) {
      if (c->dones == 0) bad({"D01"}, "callback-missing", string("a ") + kKind[c->kind] + " call that needs no service returned without running the callback");
    } else if (c->sends == 0 && c->dones == 0) bad({"D01"}, "call-lost", string("a ") + kKind[c->kind] + " call was neither sent nor finished");
    // The caller's request is its own.
    string now = c->cq ? det(*c->cq) : c->qq ? det(*c->qq) : c->rq ? det(*c->rq) : c->req_bytes;
    if (now != c->req_bytes) bad({"D01"}, "request-modified", "the caller's request was modified");
  }
  // Only the response has to live until the callback.
  if (!c->sync && c->dones == 0 && r.chance(30)) { n["requests_freed_early"]++; give(fcq, &c->cq); give(fqq, &c->qq); give(frq, &c->rq); }
}
void World::check_stats() {
  if (dead || !client) return;
  scc::Statistics s; memset(&s, 0xA5, sizeof s);
  Status status = client->GetStatistics(&s);
  n["stats_compared"]++;
  if (!status.ok()) { bad({"S01"}, "stats-status", stat_s(status)); return; }
#define CMP(f) if (s.f != st.f) { bad({"S01"}, "stats-" #f, "statistics say " #f "=" + std::to_string(s.f) + ", observed " + std::to_string(st.f)); return; }
  CMP(total_called_checks) CMP(send_checks_by_flush) CMP(send_checks_in_flight)
  CMP(total_called_quotas) CMP(send_quotas_by_flush) CMP(send_quotas_in_flight)
  CMP(total_called_reports) CMP(send_reports_by_flush) CMP(send_reports_in_flight) CMP(send_report_operations)
}

// Replaces parts of a request by odd values; the identity often stays, so that
// odd values meet in one cache entry.
template <class M> static void wreck(Rng& r, M* m) {
  if (!r.chance(70)) return;
  if (r.chance(10)) { string s = m->service_name(); odd_fill(r, m, 40, 4); if (r.chance(80)) m->set_service_name(s); }
  auto values = [&](auto* sets) { for (auto& s : *sets) { if (r.chance(10)) odd_fill(r, &s, 30, 2); for (auto& v : *s.mutable_metric_values()) if (r.chance(60)) { auto l = v.labels(); odd_fill(r, &v, 60, 3); if (r.chance(60)) *v.mutable_labels() = l; } } };
  if constexpr (std::is_same<M, sc::CheckRequest>::value) { if (m->has_operation()) { values(m->mutable_operation()->mutable_metric_value_sets()); if (r.chance(20)) odd_fill(r, m->mutable_operation()->mutable_start_time(), 90, 1); if (r.chance(80)) m->mutable_operation()->set_importance(sc::Operation::LOW); } }
  else if constexpr (std::is_same<M, sc::AllocateQuotaRequest>::value) { if (m->has_allocate_operation()) values(m->mutable_allocate_operation()->mutable_quota_metrics()); }
  else for (auto& o : *m->mutable_operations()) { values(o.mutable_metric_value_sets()); if (r.chance(20)) odd_fill(r, o.mutable_end_time(), 90, 1); if (r.chance(10)) odd_fill(r, o.add_log_entries(), 50, 4); if (r.chance(80)) o.set_importance(sc::Operation::LOW); }
}

static bool mess(Rng& r, string* service, const string& good) {
  if (!r.chance(3)) return false;
  *service = r.chance(30) ? "" : r.chance(50) ? good + "x" : r.chance(50) ? good.substr(0, good.size() - 1) : r.chance(30) ? "SVC.example.com" : r.chance(30) ? good + string("\0x", 2) : r.chance(30) ? good + string(1, '\0') : r.chance(30) ? good + "/" : r.chance(30) ? good + "." : r.chance(50) ? good + " " : " " + good;
  return true;
}

void World::do_check(bool nested) {
  std::unique_ptr<Call> cc(new Call); Call* c = cc.get();
  c->id = nextid++; c->kind = K_CHECK; c->sub = nested;
  take(fcq, &c->cq); take(fcr, &c->cr);
  string svc = cf.service; mess(r, &svc, cf.service);
  c->cq->set_service_name(svc);
  if (r.chance(30)) c->cq->set_service_config_id("other-config");
  if (!r.chance(1)) g.op(r.pick(cpool), opseq++, true, c->cq->mutable_operation(), 2);
  if (c->cq->has_operation() && r.chance(6)) c->cq->mutable_operation()->set_importance(r.chance(80) ? sc::Operation::HIGH : (sc::Operation::Importance)r.pick(std::vector<int>{2, 3, 100, -1, INT32_MAX, INT32_MIN}));
  if (r.chance(20)) { c->cr->set_operation_id("stale"); c->cr->add_check_errors()->set_detail("stale"); }
  if (hostile) wreck(r, c->cq.get());
  c->req_bytes = det(*c->cq);
  c->per_request = !have[K_CHECK] || r.chance(p_perreq);
  c->null_transport = c->per_request && r.chance(4);
  c->sync = !c->per_request && r.chance(p_sync);
  calls[c->id] = std::move(cc);
  int64_t now = vt::now();
  st.total_called_checks++;
  if (!c->null_transport && !dead) c->dec = cm.call(*c->cq, now, &c->why, &c->want_c); else c->dec = FORWARD;
  tr(string("call check ") + std::to_string(c->id) + (c->sync ? " sync" : "") + (c->per_request ? " own-transport" : "") + " expect " + (c->null_transport ? "error" : kDec[c->dec]) + " why " + std::to_string(c->why));
  if (c->dec == FORWARD && c->why == W_REFRESH) n["check_refresh"]++;
  if (c->why == W_IDLE) n["check_expired"]++;
  if (c->why == W_EVICTED) n["check_evicted"]++;
  if (stack.empty() && !in_step) begin_step();
  stack.push_back(c->id);
  int id = c->id;
  bool held_sync = c->sync;
  if (held_sync) {
    // A synchronous call has no callback: its return is the callback.
    Status s = client->Check(*c->cq, c->cr.get());
    stack.pop_back(); 
    if (c->sends && !c->has_resp) bad({"D01"}, "sync-early", "a synchronous check returned before the service answered");
    c->want_done = true; c->returned = true;
    on_done(id, s);
  } else {
    auto done = [id](const Status& s) { W->on_done(id, s); };
    if (c->null_transport) client->Check(*c->cq, c->cr.get(), done, nullptr);
    else if (c->per_request) client->Check(*c->cq, c->cr.get(), done, [id](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { W->send_check(q, s, d, id); });
    else client->Check(*c->cq, c->cr.get(), done);
    stack.pop_back();
  }
  after_call(c);
  if (stack.empty() && !in_step) end_step("check call");
  if (stack.empty() && !nested && !in_step) sweep();
}
void World::do_quota(bool nested) {
  std::unique_ptr<Call> cc(new Call); Call* c = cc.get();
  c->id = nextid++; c->kind = K_QUOTA; c->sub = nested;
  take(fqq, &c->qq); take(fqr, &c->qr);
  string svc = cf.service; mess(r, &svc, cf.service);
  c->qq->set_service_name(svc);
  if (r.chance(30)) c->qq->set_service_config_id("other-config");
  if (!r.chance(1)) g.qop(r.pick(qpool), opseq++, c->qq->mutable_allocate_operation());
  if (r.chance(20)) { c->qr->set_operation_id("stale"); c->qr->add_allocate_errors()->set_description("stale"); }
  if (hostile) wreck(r, c->qq.get());
  c->req_bytes = det(*c->qq);
  c->per_request = !have[K_QUOTA] || r.chance(p_perreq);
  c->null_transport = c->per_request && r.chance(4);
  c->sync = !c->per_request && r.chance(p_sync);
  calls[c->id] = std::move(cc);
  int64_t now = vt::now();
  st.total_called_quotas++;
  if (!c->null_transport && !dead) c->dec = qm.call(*c->qq, now, &c->want_q, &c->qwhy); else c->dec = FORWARD;
  tr(string("call quota ") + std::to_string(c->id) + " expect " + (c->null_transport ? "error" : kDec[c->dec]) + " " + c->qwhy);
  n["quota_" + c->qwhy]++;
  if (stack.empty() && !in_step) begin_step();
  stack.push_back(c->id);
  int id = c->id;
  if (c->sync) {
    Status s = client->Quota(*c->qq, c->qr.get());
    stack.pop_back();
    if (c->sends && !c->has_resp) bad({"D01"}, "sync-early", "a synchronous quota call returned before the service answered");
    c->returned = true;
    on_done(id, s);
  } else {
    auto done = [id](const Status& s) { W->on_done(id, s); };
    if (c->null_transport) client->Quota(*c->qq, c->qr.get(), done, nullptr);
    else if (c->per_request) client->Quota(*c->qq, c->qr.get(), done, [id](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { W->send_quota(q, s, d, id); });
    else client->Quota(*c->qq, c->qr.get(), done);
    stack.pop_back();
  }
  after_call(c);
  if (stack.empty() && !in_step) end_step("quota call");
  if (stack.empty() && !nested && !in_step) sweep();
}
void World::do_report(bool nested) {
  std::unique_ptr<Call> cc(new Call); Call* c = cc.get();
  c->id = nextid++; c->kind = K_REPORT; c->sub = nested;
  take(frq, &c->rq); take(frr, &c->rr);
  string svc = cf.service; mess(r, &svc, cf.service);
  c->rq->set_service_name(svc);
  if (r.chance(30)) c->rq->set_service_config_id("other-config");
  int nops = r.chance(70) ? 1 : r.chance(5) ? 0 : 1 + r.below(many && r.chance(30) ? 150 : r.chance(30) ? 25 : 4);
  for (int i = 0; i < nops; i++) {
    auto* o = c->rq->add_operations();
    g.op(r.pick(rpool), opseq++, false, o, r.chance(10) ? maxlogs : std::min(maxlogs, 4));
    if (r.chance(4)) o->set_importance(r.chance(80) ? sc::Operation::HIGH : (sc::Operation::Importance)r.pick(std::vector<int>{2, 3, 100, -1, INT32_MAX, INT32_MIN}));
  }
  if (hostile) wreck(r, c->rq.get());
  c->req_bytes = det(*c->rq);
  c->per_request = !have[K_REPORT] || r.chance(p_perreq);
  c->null_transport = c->per_request && r.chance(4);
  c->sync = !c->per_request && r.chance(p_sync);
  calls[c->id] = std::move(cc);
  int64_t now = vt::now();
  st.total_called_reports++;
  if (!c->null_transport && !dead) c->dec = rm.call(*c->rq, now, &c->qwhy); else c->dec = FORWARD;
  tr(string("call report ") + std::to_string(c->id) + " ops " + std::to_string(nops) + " expect " + (c->null_transport ? "error" : kDec[c->dec]) + " " + c->qwhy);
  if (!c->null_transport && c->dec != INVALID) { account_accept(*c->rq); n["report_ops_accepted"] += nops; }
  if (stack.empty() && !in_step) begin_step();
  stack.push_back(c->id);
  int id = c->id;
  if (c->sync) {
    Status s = client->Report(*c->rq, c->rr.get());
    stack.pop_back();
    if (c->sends && !c->has_resp) bad({"D01"}, "sync-early", "a synchronous report returned before the service answered");
    c->returned = true;
    on_done(id, s);
  } else {
    auto done = [id](const Status& s) { W->on_done(id, s); };
    if (c->null_transport) client->Report(*c->rq, c->rr.get(), done, nullptr);
    else if (c->per_request) client->Report(*c->rq, c->rr.get(), done, [id](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) { W->send_report(q, s, d, id); });
    else client->Report(*c->rq, c->rr.get(), done);
    stack.pop_back();
  }
  after_call(c);
  if (stack.empty() && !in_step) end_step("report call");
  if (stack.empty() && !nested && !in_step) sweep();
}
void World::do_tick() {
  if (!tick) return;
  tr("tick"); n["ticks"]++;
  begin_step(); in_step = true;
  // The order in which one tick serves the three caches is not specified, and
  // matters only when a transport lets time pass; it is tried as observed.
  int64_t now = vt::now();
  cm.tick(now);
  qm.tick(now);
  rm.tick(now);
  int slow = p_slow; p_slow = 0;
  tick();
  p_slow = slow;
  in_step = false;
  end_step("timer");
}
void World::complete(size_t i) {
  std::unique_ptr<Pending> p = std::move(pending[i]);
  pending.erase(pending.begin() + i);
  answer(p.get(), false);
  sweep();
}
void World::step() {
  int wc = 30, wq = 30, wr = 30;
  if (prof == "check") { wq = wr = 2; wc = 80; }
  if (prof == "quota") { wc = wr = 2; wq = 80; }
  if (prof == "report") { wc = wq = 2; wr = 80; }
  int wt = 12, wa = 45, wd = pending.empty() ? 0 : 25, ws = 6;
  int x = r.below(wc + wq + wr + wt + wa + wd + ws);
  if ((x -= wc) < 0) do_check(false);
  else if ((x -= wq) < 0) do_quota(false);
  else if ((x -= wr) < 0) do_report(false);
  else if ((x -= wt) < 0) do_tick();
  else if ((x -= wa) < 0) {
    int64_t now = vt::now(), to = now;
    int how = r.below(10);
    if (how < 7) {
      std::vector<int64_t> t;
      if (prof != "quota" && prof != "report") cm.times(&t);
      if (prof != "check" && prof != "report") qm.times(&t);
      if (prof != "check" && prof != "quota") rm.times(&t);
      if (!t.empty()) to = r.pick(t) - 1 + (int64_t)r.below(3);
    } else if (how < 9) to = now + r.below(2000);
    else to = now + r.below(3000000);
    if (to > now) { vt::set(to); tr("advance"); n["advances"]++; }
  } else if ((x -= wd) < 0) complete(r.below(pending.size()));
  else check_stats();
}
void World::run(int steps) {
  setup();
  if (many) steps *= 6;
  for (int i = 0; i < steps && (!dead || hostile) && !destroyed; i++) step();
  teardown();
}
void World::destroy(bool own_step) {
  tr("destroy");
  if (own_step) begin_step();
  in_step = true; destroying = true;
  int64_t now = vt::now();
  cm.flush_all(); qm.flush_all(now); rm.flush_all();
  n["check_flush_at_end"] += cm.expect.size(); n["quota_flush_at_end"] += qm.expect.size(); n["report_flush_at_end"] += rm.expect.size();
  if (!qm.expect.empty() || !rm.expect.empty() || !cm.expect.empty()) n["destroyed_with_data"]++;
  int slow = p_slow; p_slow = 0;
  client.reset();
  p_slow = slow;
  destroying = false; destroyed = true; in_step = false;
  end_step("destruction");
  if (!dead && timers && *stops < 1) bad({"T01", "K01"}, "timer-not-stopped", "the periodic timer was not stopped at destruction");
  if (!dead && timers && *stops > 1) bad({"T01"}, "timer-stopped-twice", "the periodic timer was stopped twice");
}
void World::teardown() {
  if (!destroyed) {
    // Some answers arrive before the client goes away and some after.
    p_kill = 0;
    while (!pending.empty() && r.chance(60)) complete(r.below(pending.size()));
    // Calls whose answer is still due keep their objects; their callbacks run later.
    check_stats();
    destroy(true);
  }
  // Whatever is still outstanding must be harmless, and callbacks still run.
  if (!pending.empty()) n["destroyed_with_outstanding"]++;
  while (!pending.empty()) {
    if (tick && r.chance(20)) { tr("late tick"); n["late_ticks"]++; tick(); }
    complete(r.below(pending.size()));
  }
  if (tick && r.chance(50)) { n["late_ticks"]++; tick(); }
  tick = nullptr;
  sweep();
  if (!dead) for (auto& c : calls) if (c.second->dones != 1 ) bad({"D01"}, "callback-missing", string("the callback of a ") + kKind[c.second->kind] + " call never ran");
  if (!dead && have[K_REPORT]) {
    for (auto& l : log_accept) {
      auto i = log_sent.find(l.first); int sent = i == log_sent.end() ? 0 : i->second;
      if (sent != l.second) { bad({"R01"}, "lost-log-entry", "log entry " + l.first + " was accepted " + std::to_string(l.second) + " times but sent " + std::to_string(sent) + " times"); break; }
    }
    n["log_entries_traced"] += log_accept.size();
  }
}

static uint64_t relevant(const string& p, std::map<string, uint64_t>& n) {
  auto s = [&](std::initializer_list<const char*> l) { uint64_t t = 0; for (auto k : l) { auto i = n.find(k); if (i != n.end()) t += i->second; } return t; };
  if (p == "C01") return s({"check_local"});
  if (p == "C02") return s({"check_refresh", "check_expired"});
  if (p == "C03") return s({"check_local", "check_evicted"});
  if (p == "C05") return s({"check_flush"});
  if (p == "B01") return s({"bypass"});
  if (p == "R01" || p == "R02" || p == "R03") return s({"report_flush"});
  if (p == "Q01") return s({"quota_local"});
  if (p == "Q02" || p == "Q03") return s({"quota_refresh"});
  if (p == "Q04") return s({"quota_evicted", "quota_dropped"});
  if (p == "F01") return s({"answers_failed"});
  if (p == "D01") return s({"callbacks"});
  if (p == "D02") return s({"invalid"});
  if (p == "S01") return s({"stats_compared"});
  if (p == "T01") return s({"timers"});
  if (p == "K01") return s({"destroyed_with_outstanding", "destroyed_with_data"});
  return s({"callbacks"});
}

// The recorded finding about C02: refreshes go unanswered while calls keep coming.
static void directed_f12(bool fail) {
  vt::set(1000000000);
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(10, 100, 200), scc::QuotaAggregationOptions(0, 1, 1), scc::ReportAggregationOptions(0, 1));
  int64_t answered = 0; bool up = true; std::vector<scc::TransportDoneFunc> held;
  o.check_transport = [&](const sc::CheckRequest&, sc::CheckResponse* s, scc::TransportDoneFunc d) {
    if (up) { s->set_operation_id("the answer"); answered = vt::now(); d(OkStatus()); }
    else if (fail) d(Status(StatusCode::kUnavailable, "down"));
    else held.push_back(d);
  };
  auto c = scc::CreateServiceControlClient("svc", "cfg", o);
  std::vector<std::unique_ptr<sc::CheckRequest>> qs; std::vector<std::unique_ptr<sc::CheckResponse>> rs;
  bool old = false; int64_t age = 0;
  for (int i = 0; i < 40; i++) {
    qs.emplace_back(new sc::CheckRequest); rs.emplace_back(new sc::CheckResponse);
    qs.back()->set_service_name("svc"); qs.back()->mutable_operation()->set_operation_name("op"); qs.back()->mutable_operation()->set_consumer_id("project:p");
    sc::CheckResponse* r = rs.back().get();
    bool served = false; int64_t now = vt::now();
    c->Check(*qs.back(), r, [&, r](const Status& s) { if (s.ok() && r->operation_id() == "the answer") served = true; });
    if (served && now - answered > 200000) { old = true; age = std::max(age, now - answered); }
    up = false;
    vt::advance(30000);
  }
  R.counters["directed_f12"]++; R.nontrivial++; R.distinct.insert(12 + fail);
  if (old) R.viol({"C02"}, "known-answer-outlives-expiration", string("with an expiration of 200 ms an answer was served at an age of ") + std::to_string(age / 1000) + " ms, while refreshes " + (fail ? "failed" : "were not answered"));
  for (auto& d : held) d(Status(StatusCode::kUnavailable, "late"));
}

// Amounts that ordinary histories do not reach: tens of thousands of calls,
// sends, merged operations and entries, with everything counted by the driver.
static void bulk(Rng& r) {
  vt::set(1000000000 + (int64_t)r.below(1000000000));
  const int N = 66000 + (int)r.below(6000), WIDE = 1500 + (int)r.below(3000);
  struct Seen { int64_t checks = 0, quotas = 0, reports = 0, ops = 0; std::map<string, int64_t> csum, qsum, rsum; int64_t maxops = 0; };
  auto options = [&](int entries, Seen* seen, int ms) {
    scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(entries, ms, ms + 1), scc::QuotaAggregationOptions(entries, ms, ms), scc::ReportAggregationOptions(entries, ms));
    auto val = [](const google::protobuf::RepeatedPtrField<sc::MetricValueSet>& s) { int64_t n = 0; for (auto& x : s) for (auto& v : x.metric_values()) n += v.int64_value(); return n; };
    o.check_transport = [=](const sc::CheckRequest& q, sc::CheckResponse*, scc::TransportDoneFunc d) { seen->checks++; seen->csum[q.operation().consumer_id()] += val(q.operation().metric_value_sets()); d(OkStatus()); };
    o.quota_transport = [=](const sc::AllocateQuotaRequest& q, sc::AllocateQuotaResponse*, scc::TransportDoneFunc d) { seen->quotas++; seen->qsum[q.allocate_operation().consumer_id()] += val(q.allocate_operation().quota_metrics()); d(OkStatus()); };
    o.report_transport = [=](const sc::ReportRequest& q, sc::ReportResponse*, scc::TransportDoneFunc d) {
      seen->reports++; seen->ops += q.operations_size(); seen->maxops = std::max<int64_t>(seen->maxops, q.operations_size());
      for (auto& op : q.operations()) seen->rsum[op.consumer_id()] += val(op.metric_value_sets());
      d(OkStatus());
    };
    return o;
  };
  auto ck = [](int id, bool urgent) { sc::CheckRequest q; q.set_service_name("svc"); auto* o = q.mutable_operation(); o->set_operation_name("op"); o->set_consumer_id(std::to_string(id)); if (urgent) o->set_importance(sc::Operation::HIGH); auto* m = o->add_metric_value_sets(); m->set_metric_name("m"); m->add_metric_values()->set_int64_value(1); return q; };
  auto qt = [](int id) { sc::AllocateQuotaRequest q; q.set_service_name("svc"); auto* o = q.mutable_allocate_operation(); o->set_method_name("op" + std::to_string(id)); o->set_consumer_id(std::to_string(id)); auto* m = o->add_quota_metrics(); m->set_metric_name("m"); m->add_metric_values()->set_int64_value(1); return q; };
  auto rp = [](int id, int nops, bool urgent) { sc::ReportRequest q; q.set_service_name("svc"); for (int i = 0; i < nops; i++) { auto* o = q.add_operations(); o->set_operation_name("op"); o->set_consumer_id(std::to_string(id)); if (urgent) o->set_importance(sc::Operation::HIGH); auto* m = o->add_metric_value_sets(); m->set_metric_name("m"); m->add_metric_values()->set_int64_value(1); } return q; };
  scc::Statistics st, s;
  auto stats = [&](scc::ServiceControlClient* c, const char* when) {
    memset(&s, 0xA5, sizeof s);
    c->GetStatistics(&s);
#define CMP(f) if (s.f != st.f) R.viol({"S01"}, "bulk-" #f, string(when) + ": statistics say " #f "=" + std::to_string(s.f) + ", observed " + std::to_string(st.f));
    CMP(total_called_checks) CMP(send_checks_by_flush) CMP(send_checks_in_flight)
    CMP(total_called_quotas) CMP(send_quotas_by_flush) CMP(send_quotas_in_flight)
    CMP(total_called_reports) CMP(send_reports_by_flush) CMP(send_reports_in_flight) CMP(send_report_operations)
#undef CMP
    R.counters["stats_compared"]++;
  };
  int64_t ndone = 0; auto done = [&](const Status&) { ndone++; };
  sc::CheckResponse cr; sc::AllocateQuotaResponse qr; sc::ReportResponse rr;
  {
    // Everything goes straight through.
    Seen seen; auto o = options(0, &seen, 1000); memset(&st, 0, sizeof st);
    auto c = scc::CreateServiceControlClient("svc", "cfg", o);
    auto q1 = ck(1, false); auto q2 = qt(1); auto q3 = rp(1, 2, false);
    for (int i = 0; i < N; i++) { c->Check(q1, &cr, done); c->Quota(q2, &qr, done); c->Report(q3, &rr, done); }
    st.total_called_checks = st.total_called_quotas = st.total_called_reports = N;
    st.send_checks_in_flight = seen.checks; st.send_quotas_in_flight = seen.quotas; st.send_reports_in_flight = seen.reports; st.send_report_operations = seen.ops;
    if (seen.checks != N || seen.quotas != N || seen.reports != N || seen.ops != 2 * N) R.viol({"B01"}, "bulk-sent", "of " + std::to_string(N) + " calls each without caches " + std::to_string(seen.checks) + " checks, " + std::to_string(seen.quotas) + " quotas and " + std::to_string(seen.reports) + " reports were sent");
    if (ndone != 3 * N) R.viol({"D01"}, "bulk-callbacks", std::to_string(ndone) + " callbacks of " + std::to_string(3 * N) + " calls");
    stats(c.get(), "without caches");
  }
  {
    // One entry each: the two identities push each other out.
    Seen seen; auto o = options(1, &seen, 1000000); memset(&st, 0, sizeof st); ndone = 0;
    int64_t direct = 0;
    auto c = scc::CreateServiceControlClient("svc", "cfg", o);
    sc::CheckRequest q1[2] = {ck(0, false), ck(1, false)}; sc::AllocateQuotaRequest q2[2] = {qt(0), qt(1)}; sc::ReportRequest q3[2] = {rp(0, 1, false), rp(1, 1, false)};
    for (int i = 0; i < N; i++) {
      c->Check(q1[i & 1], &cr, done, [&](const sc::CheckRequest&, sc::CheckResponse*, scc::TransportDoneFunc d) { direct++; d(OkStatus()); });
      c->Check(q1[i & 1], &cr, done);
      c->Quota(q2[i & 1], &qr, done); c->Report(q3[i & 1], &rr, done);
    }
    st.total_called_checks = 2 * N; st.total_called_quotas = st.total_called_reports = N;
    st.send_checks_in_flight = direct; st.send_checks_by_flush = seen.checks; st.send_quotas_by_flush = seen.quotas; st.send_reports_by_flush = seen.reports; st.send_report_operations = seen.ops;
    if (seen.checks != N - 1 || direct != N) R.viol({"C05"}, "bulk-check-flushes", std::to_string(seen.checks) + " of " + std::to_string(N - 1) + " aggregated checks pushed out were sent, " + std::to_string(direct) + " of " + std::to_string(N) + " directly");
    if (seen.quotas != N) R.viol({"Q02", "Q04"}, "bulk-quota-sends", std::to_string(seen.quotas) + " of " + std::to_string(N) + " first quota requests were sent");
    if (seen.ops != N - 1) R.viol({"R01", "R03"}, "bulk-report-sends", std::to_string(seen.ops) + " of " + std::to_string(N - 1) + " report operations pushed out were sent");
    stats(c.get(), "with one entry each");
    c.reset();
    if (ndone != 4 * N) R.viol({"D01"}, "bulk-callbacks", std::to_string(ndone) + " callbacks of " + std::to_string(4 * N) + " calls");
    if (seen.rsum["0"] + seen.rsum["1"] != N) R.viol({"R01", "K01"}, "bulk-report-sum", "reported " + std::to_string(N) + ", sent " + std::to_string(seen.rsum["0"] + seen.rsum["1"]));
    if (seen.csum["0"] + seen.csum["1"] != N) R.viol({"C05", "K01"}, "bulk-check-sum", "checked " + std::to_string(N) + ", sent " + std::to_string(seen.csum["0"] + seen.csum["1"]));
  }
  {
    // Many calls merged into one entry.
    Seen seen; auto o = options(4, &seen, 1000000); ndone = 0;
    auto c = scc::CreateServiceControlClient("svc", "cfg", o);
    auto q1 = ck(1, false); auto q2 = qt(1); auto q3 = rp(1, 3, false);
    for (int i = 0; i < N; i++) { c->Check(q1, &cr, done); c->Quota(q2, &qr, done); c->Report(q3, &rr, done); }
    if (seen.checks != 1 || seen.quotas != 1 || seen.reports != 0) R.viol({"C03", "Q02", "R03"}, "bulk-merged-sends", "of " + std::to_string(N) + " equal calls " + std::to_string(seen.checks) + " checks, " + std::to_string(seen.quotas) + " quotas, " + std::to_string(seen.reports) + " reports were sent");
    c.reset();
    if (seen.rsum["1"] != 3 * N) R.viol({"R01", "R02"}, "bulk-merged-report", "reported " + std::to_string(3 * N) + ", sent " + std::to_string(seen.rsum["1"]));
    if (seen.csum["1"] != N) R.viol({"C05"}, "bulk-merged-check", "checked " + std::to_string(N) + ", sent " + std::to_string(seen.csum["1"]));
    if (seen.qsum["1"] != N) R.viol({"Q03"}, "bulk-merged-quota", "allocated " + std::to_string(N) + ", sent " + std::to_string(seen.qsum["1"]));
    R.counters["bulk_merged"] += N;
  }
  {
    // Many entries at once, due together by time or at the end.
    bool at_end = r.chance(40); int ms = 100;
    Seen seen; auto o = options(10000, &seen, ms); ndone = 0;
    std::function<void()> tick;
    struct T : scc::PeriodicTimer { void Stop() override {} };
    o.periodic_timer = [&](int, std::function<void()> f) { tick = f; return std::unique_ptr<scc::PeriodicTimer>(new T); };
    auto c = scc::CreateServiceControlClient("svc", "cfg", o);
    for (int i = 0; i < WIDE; i++) {
      auto q1 = ck(i, false); c->Check(q1, &cr, done, [](const sc::CheckRequest&, sc::CheckResponse*, scc::TransportDoneFunc d) { d(OkStatus()); }); c->Check(q1, &cr, done);
      auto q2 = qt(i); c->Quota(q2, &qr, done); c->Quota(q2, &qr, done);
      c->Report(rp(i, 1, false), &rr, done);
    }
    if (seen.checks || seen.reports || seen.quotas != WIDE) R.viol({"C03", "Q02", "R03"}, "bulk-wide-early", "with " + std::to_string(WIDE) + " entries " + std::to_string(seen.checks) + " checks, " + std::to_string(seen.quotas) + " quotas, " + std::to_string(seen.reports) + " reports were sent before any was due");
    if (at_end) c.reset(); else { vt::advance((ms + 2) * 1000); if (tick) tick(); }
    const string when = at_end ? " at the end" : " at one tick";
    P k = at_end ? P{"K01"} : P{"T01"};
    auto with = [&](P p) { p.insert(p.end(), k.begin(), k.end()); return p; };
    if (seen.checks != WIDE) R.viol(with({"C05"}), "bulk-wide-checks", std::to_string(seen.checks) + " of " + std::to_string(WIDE) + " aggregated checks were sent" + when);
    if (seen.quotas != 2 * WIDE) R.viol(with({"Q03"}), "bulk-wide-quotas", std::to_string(seen.quotas - WIDE) + " of " + std::to_string(WIDE) + " keys' tokens were sent" + when);
    if (seen.ops != WIDE) R.viol(with({"R01", "R03"}), "bulk-wide-reports", std::to_string(seen.ops) + " of " + std::to_string(WIDE) + " merged operations were sent" + when);
    if (seen.maxops > 10 || seen.reports != (WIDE + 9) / 10) R.viol({"R03"}, "bulk-wide-batches", std::to_string(seen.ops) + " operations in " + std::to_string(seen.reports) + " requests of up to " + std::to_string(seen.maxops));
    c.reset();
    if (seen.checks != WIDE || seen.ops != WIDE) R.viol({"R01", "C05"}, "bulk-wide-again", "something was sent again at the end");
    for (int i = 0; i < WIDE; i++) { string id = std::to_string(i); if (seen.csum[id] != 1 || seen.rsum[id] != 1 || seen.qsum[id] != 2) { R.viol({"C05", "R01", "Q03"}, "bulk-wide-sums", "identity " + id + " sent " + std::to_string(seen.csum[id]) + "/" + std::to_string(seen.rsum[id]) + "/" + std::to_string(seen.qsum[id])); break; } }
    tick = nullptr;
    R.counters["bulk_entries"] += WIDE;
  }
  R.counters["bulk_calls"] += 7 * N; R.nontrivial++; R.distinct.insert(r.next());
}

int main(int argc, char** argv) {
  A = parse_args(argc, argv); gA = &A;
  vt::enable(true);
  int maxsteps = A.geti("steps", 120);
  bool leak = A.geti("leak", 0);
  auto one = [&](uint64_t cs, bool record) -> size_t {
    size_t before = live_bytes();
    bool bad = false;
    uint64_t trace = 0, ev = 0;
    {
      World w(cs); W = &w;
      w.run(20 + (int)w.r.below(maxsteps));
      w.n["invalid"] = 0;
      bad = w.dead;
      w.n["quota_evicted"] = w.qm.evictions; w.n["quota_dropped"] = w.qm.drops; w.n["quota_reinserted"] = w.qm.reinserts; w.n["quota_cleared_by_denial"] = w.qm.lost_neg;
      w.n["report_by_age"] = w.rm.by_age; w.n["report_by_size"] = w.rm.by_size; w.n["report_by_room"] = w.rm.by_room;
      w.n["invalid"] = w.n["quota_badname"] + w.n["quota_noop"] + 1;
      trace = w.trace; ev = w.ev;
      if (record) {
        for (auto& p : w.n) R.counters[p.first] += p.second;
        R.counters["events"] += ev;
        if (relevant(A.prop, w.n) > 0) {
          R.nontrivial++; R.distinct.insert(trace);
          if (R.samples.size() < 2) { string s = "case " + std::to_string(cs) + ": "; for (size_t i = 0; i < w.texts.size() && s.size() < 900; i++) s += w.texts[i] + "; "; R.samples.push_back(s); }
        }
      }
      W = nullptr;
    }
    (void)bad;
    return live_bytes() - before;
  };
  return run_cases(A, [&](uint64_t cs) {
    if (A.profile == "f12") { directed_f12(false); directed_f12(true); return; }
    if (A.profile == "bulk") { Rng r(cs); bulk(r); return; }
    one(cs, true);
    if (leak && !R.case_bad && live_bytes()) {
      // The same history again: memory allocated before it and after it must
      // be the same. Asked twice, so that one-time allocations do not count.
      size_t d = one(cs, false);
      if (d) d = one(cs, false);
      R.counters["histories_balanced"]++;
      if (d) R.viol({"K05"}, "leak", "a history that ended with everything answered and the client destroyed leaves " + std::to_string((long long)d) + " bytes allocated each time");
    }
  });
}
