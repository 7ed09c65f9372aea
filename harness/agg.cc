// The three aggregators (src/aggregator_interface.h) used directly, without a
// client: any order of calls, answers that were never asked for, flushes and
// FlushAll in the middle of a history, and flush callbacks exchanged at any
// time, against the reference models; and the same from several threads.
#include <algorithm>
#include <atomic>
#include <mutex>
#include <thread>
#include "core.h"
#include "gen.h"
#include "models.h"
#include "src/aggregator_interface.h"
#include "vsched.h"
using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
namespace scc = google::service_control_client;
static Args A;
typedef std::vector<string> P;

namespace {
string conf_text(const Conf& c) {
  return " [check=" + std::to_string(c.c_num) + "/" + std::to_string(c.c_flush) + "/" + std::to_string(c.c_exp) + " quota=" + std::to_string(c.q_num) + "/" +
         std::to_string(c.q_ref) + "/" + std::to_string(c.q_exp) + " report=" + std::to_string(c.r_num) + "/" + std::to_string(c.r_flush) + "]";
}

struct Seq {
  Rng r; Gen g; Conf cf;
  CheckModel cm; QuotaModel qm; RepModel rm;
  std::unique_ptr<scc::CheckAggregator> ca; std::unique_ptr<scc::QuotaAggregator> qa; std::unique_ptr<scc::ReportAggregator> ra;
  // What the callbacks were given in this step, and which callback it was.
  std::vector<sc::CheckRequest> gc; std::vector<sc::AllocateQuotaRequest> gq; std::vector<sc::ReportRequest> gr;
  int cb[3] = {0, 0, 0};           // the callback that is set; 0 is none
  int serial = 0, wrong_cb = 0;
  bool dead = false; string hist; uint64_t trace = 1, handed = 0, seqno = 1;
  std::vector<Gen::Ident> pool;
  std::vector<sc::CheckRequest> cs; std::vector<sc::AllocateQuotaRequest> qs;
  explicit Seq(uint64_t seed) : r(seed), g(r), cm(cf), qm(cf), rm(cf) {}
  void bad(const string& key, const string& msg) {
    if (dead) return;
    dead = true;
    R.viol({"A01"}, key, msg + " [t=" + std::to_string(vt::now()) + "us]" + conf_text(cf));
  }
  void tr(const string& s) { trace = mix(trace, hash_str(s)); if (hist.size() < 1500) hist += s + "; "; if (A.verbose) printf("  [%lld] %s\n", (long long)vt::now(), s.c_str()); }
  void set_cb(int which, bool none) {
    int id = none ? 0 : ++serial;
    cb[which] = id;
    tr(string("callback of ") + "cqr"[which] + " = " + std::to_string(id));
    if (which == 0) { if (id) ca->SetFlushCallback([this, id](const sc::CheckRequest& q) { if (cb[0] != id) wrong_cb++; gc.push_back(q); }); else ca->SetFlushCallback(nullptr); }
    if (which == 1) { if (id) qa->SetFlushCallback([this, id](const sc::AllocateQuotaRequest& q) { if (cb[1] != id) wrong_cb++; gq.push_back(q); }); else qa->SetFlushCallback(nullptr); }
    if (which == 2) { if (id) ra->SetFlushCallback([this, id](const sc::ReportRequest& q) { if (cb[2] != id) wrong_cb++; gr.push_back(q); }); else ra->SetFlushCallback(nullptr); }
  }
  void compare(const string& what) {
    if (dead) return;
    if (wrong_cb) bad("replaced-callback", "a flush callback that had been replaced was called during " + what);
    if (!cb[0]) cm.expect.clear();
    if (!cb[1]) qm.expect.clear();
    if (!cb[2]) rm.expect.clear();
    handed += gc.size() + gq.size() + gr.size();
    string why;
    for (auto& q : gc) {
      if (q.service_name() != cf.service || q.service_config_id() != cf.config) bad("header", "a check handed over during " + what + " names service '" + q.service_name() + "', config '" + q.service_config_id() + "'");
      auto i = std::find_if(cm.expect.begin(), cm.expect.end(), [&](const sc::CheckRequest& e) { return op_close(q.operation(), e.operation(), &why); });
      if (i == cm.expect.end()) { bad("check", "during " + what + " a check was handed over that is not due: " + shortpb(q) + (cm.expect.empty() ? "" : "; expected " + shortpb(cm.expect[0]))); return; }
      R.count("checks_matched"); cm.expect.erase(i);
    }
    if (!cm.expect.empty()) { bad("check", "during " + what + " this check was not handed over: " + shortpb(cm.expect[0])); return; }
    for (auto& q : gq) {
      auto norm = [](const sc::AllocateQuotaRequest& x) { sc::AllocateQuotaRequest n(x); *n.mutable_allocate_operation() = norm_qop(x.allocate_operation()); return det(n); };
      string k = norm(q);
      auto i = std::find_if(qm.expect.begin(), qm.expect.end(), [&](const QSend& e) { return norm(e.req) == k; });
      if (i == qm.expect.end()) { bad("quota", "during " + what + " an allocation was handed over that is not due: " + shortpb(q) + (qm.expect.empty() ? "" : "; expected " + shortpb(qm.expect[0].req))); return; }
      R.count("quota_matched"); qm.expect.erase(i);
    }
    if (!qm.expect.empty()) { bad("quota", "during " + what + " this allocation (" + qm.expect[0].why + ") was not handed over: " + shortpb(qm.expect[0].req)); return; }
    size_t n = 0;
    for (auto& q : gr) {
      if (q.service_name() != cf.service || q.service_config_id() != cf.config) bad("header", "a report handed over during " + what + " names service '" + q.service_name() + "', config '" + q.service_config_id() + "'");
      if (!q.operations_size() || q.operations_size() > 10) bad("report-size", "during " + what + " a report of " + std::to_string(q.operations_size()) + " operations was handed over");
      n += q.operations_size();
      for (auto& o : q.operations()) {
        auto i = std::find_if(rm.expect.begin(), rm.expect.end(), [&](const sc::Operation& e) { return op_close(o, e, &why); });
        if (i == rm.expect.end()) { bad("report", "during " + what + " an operation was handed over that is not due: " + shortpb(o) + (rm.expect.empty() ? "" : "; expected " + shortpb(rm.expect[0]))); return; }
        R.count("report_ops_matched"); rm.expect.erase(i);
      }
    }
    if (!rm.expect.empty()) { bad("report", "during " + what + " this operation was not handed over: " + shortpb(rm.expect[0])); return; }
    if (gr.size() > (n + 9) / 10) bad("report-size", "during " + what + " " + std::to_string(n) + " operations were handed over in " + std::to_string(gr.size()) + " reports");
    gc.clear(); gq.clear(); gr.clear();
  }
  void result(const string& what, const Status& s, Dec want) {
    StatusCode w = want == LOCAL ? StatusCode::kOk : want == FORWARD ? StatusCode::kNotFound : StatusCode::kInvalidArgument;
    if (s.code() != w) bad("status", what + " returned " + s.ToString() + ", but it has to be " + kDec[want]);
    R.count(want == LOCAL ? "calls_local" : want == FORWARD ? "calls_not_found" : "calls_invalid");
  }
  void setup() {
    static const int kMs[] = {1, 2, 3, 5, 8, 10, 20, 50, 100, 125, 200, 250, 500, 1000, 60000};
    std::vector<int> ms; for (int m : kMs) if ((int64_t)(m / 1000.0 * 1000000) == (int64_t)m * 1000) ms.push_back(m);
    auto cap = [&] { return r.chance(8) ? -(int)r.below(2) : r.chance(15) ? 1000 : 1 + (int)r.below(r.chance(50) ? 4 : 40); };
    cf.c_num = cap(); cf.q_num = cap(); cf.r_num = cap();
    cf.c_flush = r.pick(ms); cf.c_exp = r.pick(ms);
    for (cf.c_exp = std::max(cf.c_flush + 1, cf.c_exp); (int64_t)(cf.c_exp / 1000.0 * 1000000) != (int64_t)cf.c_exp * 1000;) cf.c_exp++;
    cf.q_ref = r.pick(ms); cf.q_exp = r.chance(25) ? cf.q_ref : r.chance(80) ? cf.q_ref * (1 + (int)r.below(6)) + (int)r.below(3) : 600000;
    cf.r_flush = r.pick(ms);
    if (r.chance(75)) { cf.kinds = std::make_shared<Kinds>(); (*cf.kinds)["m/gauge"] = google::api::MetricDescriptor::GAUGE; if (r.chance(50)) (*cf.kinds)["m/bytes"] = google::api::MetricDescriptor::CUMULATIVE; }
    if (r.chance(10)) cf.config = "";
    g.idmode = r.below(5); g.logmode = r.below(3);
    int n = 1 + r.below(r.chance(50) ? 4 : 30), spread = 1 + r.below(30);
    for (int i = 0; i < n; i++) pool.push_back(g.ident(spread));
    // The aggregators keep what they are given.
    std::shared_ptr<scc::MetricKindMap> kinds; if (cf.kinds) kinds = std::make_shared<scc::MetricKindMap>(cf.kinds->begin(), cf.kinds->end());
    std::unique_ptr<string> sn(new string(cf.service)), ci(new string(cf.config));
    ca = scc::CreateCheckAggregator(*sn, *ci, scc::CheckAggregationOptions(cf.c_num, cf.c_flush, cf.c_exp), kinds);
    qa = scc::CreateAllocateQuotaAggregator(*sn, *ci, scc::QuotaAggregationOptions(cf.q_num, cf.q_ref, cf.q_exp));
    ra = scc::CreateReportAggregator(*sn, *ci, scc::ReportAggregationOptions(cf.r_num, cf.r_flush), kinds);
    for (int i = 0; i < 3; i++) if (r.chance(90)) set_cb(i, false);
  }
  sc::CheckRequest make_check() {
    sc::CheckRequest q; q.set_service_name(r.chance(3) ? "other" : cf.service); q.set_service_config_id(r.chance(50) ? "of the caller" : "");
    if (!r.chance(3)) { g.op(r.pick(pool), seqno++, true, q.mutable_operation(), 2); if (r.chance(5)) q.mutable_operation()->set_importance(sc::Operation::HIGH); }
    return q;
  }
  sc::AllocateQuotaRequest make_quota() {
    sc::AllocateQuotaRequest q; q.set_service_name(r.chance(3) ? "other" : cf.service); q.set_service_config_id(r.chance(50) ? "of the caller" : "");
    if (!r.chance(3)) g.qop(r.pick(pool), seqno++, q.mutable_allocate_operation());
    return q;
  }
  void step() {
    int what = r.below(100);
    if (what < 18) {
      sc::CheckRequest q = make_check(); sc::CheckResponse got, want; Why w; if (r.chance(20)) got.set_operation_id("what was there before");
      tr("Check " + check_identity(q.operation()));
      Dec d = cm.call(q, vt::now(), &w, &want);
      Status s = ca->Check(q, &got); result("Check", s, d);
      if (d == LOCAL && det(got) != det(want)) bad("answer", "Check answered " + shortpb(got) + " instead of " + shortpb(want));
      if (cs.size() < 30) cs.push_back(q); else cs[r.below(30)] = q;
      compare("Check");
    } else if (what < 32) {
      // Mostly the answer to an earlier call; also one that nobody waits for.
      sc::CheckRequest q = !cs.empty() && r.chance(80) ? r.pick(cs) : make_check(); sc::CheckResponse a;
      a.set_operation_id(Gen::uid("answer", seqno++)); if (r.chance(30)) a.add_check_errors()->set_detail("no");
      tr("CacheResponse check " + check_identity(q.operation()));
      cm.cache(q, a, vt::now());
      if (!ca->CacheResponse(q, a).ok()) bad("status", "CacheResponse of a check failed");
      compare("CacheResponse of a check");
    } else if (what < 50) {
      sc::AllocateQuotaRequest q = make_quota(); sc::AllocateQuotaResponse got, want; string w; if (r.chance(20)) got.set_operation_id("what was there before");
      tr("Quota " + quota_identity(q.allocate_operation()));
      Dec d = qm.call(q, vt::now(), &want, &w);
      Status s = qa->Quota(q, &got); result("Quota", s, d);
      if (d == LOCAL && det(got) != det(want)) bad("answer", "Quota answered " + shortpb(got) + " instead of " + shortpb(want));
      if (d == LOCAL) { if (qs.size() < 30) qs.push_back(q); else qs[r.below(30)] = q; }
      compare("Quota (" + w + ")");
    } else if (what < 62) {
      sc::AllocateQuotaRequest q = !qs.empty() && r.chance(85) ? r.pick(qs) : make_quota(); sc::AllocateQuotaResponse a;
      a.set_operation_id(Gen::uid("answer", seqno++)); if (r.chance(30)) a.add_allocate_errors()->set_description("no");
      tr("CacheResponse quota " + quota_identity(q.allocate_operation()));
      qm.cache(q, a, vt::now());
      if (!qa->CacheResponse(q, a).ok()) bad("status", "CacheResponse of an allocation failed");
      compare("CacheResponse of an allocation");
    } else if (what < 78) {
      sc::ReportRequest q; q.set_service_name(r.chance(3) ? "other" : cf.service);
      for (int n = r.chance(3) ? 0 : 1 + r.below(r.chance(10) ? 30 : 4); n > 0; n--) g.op(r.pick(pool), seqno++, false, q.add_operations(), r.chance(3) ? 60 : 3);
      if (q.operations_size() && r.chance(5)) q.mutable_operations(r.below(q.operations_size()))->set_importance(sc::Operation::HIGH);
      string w; tr("Report of " + std::to_string(q.operations_size()));
      Dec d = rm.call(q, vt::now(), &w);
      result("Report", ra->Report(q), d);
      compare("Report");
    } else if (what < 84) {
      int k = r.below(3); tr(string("Flush ") + "cqr"[k]); R.count("flushes");
      Status s = k == 0 ? (cm.tick(vt::now()), ca->Flush()) : k == 1 ? (qm.tick(vt::now()), qa->Flush()) : (rm.tick(vt::now()), ra->Flush());
      if (!s.ok()) bad("status", "Flush returned " + s.ToString());
      compare(string("Flush of ") + (k == 0 ? "checks" : k == 1 ? "quota" : "reports"));
    } else if (what < 87) {
      int k = r.below(3); tr(string("FlushAll ") + "cqr"[k]); R.count("flushed_all");
      if (k == 0) { cm.gone.clear(); cm.flush_all(); } else if (k == 1) qm.flush_all(vt::now()); else rm.flush_all();
      Status s = k == 0 ? ca->FlushAll() : k == 1 ? qa->FlushAll() : ra->FlushAll();
      if (!s.ok()) bad("status", "FlushAll returned " + s.ToString());
      compare(string("FlushAll of ") + (k == 0 ? "checks" : k == 1 ? "quota" : "reports"));
    } else if (what < 91) {
      set_cb(r.below(3), r.chance(30)); R.count("callbacks_exchanged");
      compare("SetFlushCallback");
    } else if (what < 93) {
      int want[3] = {cf.c_num > 0 ? cf.c_exp : -1, cf.q_num > 0 ? cf.q_ref : -1, cf.r_num > 0 ? cf.r_flush : -1};
      int got[3] = {ca->GetNextFlushInterval(), qa->GetNextFlushInterval(), ra->GetNextFlushInterval()};
      for (int k = 0; k < 3; k++) if (got[k] != want[k]) bad("interval", string("GetNextFlushInterval of ") + "cqr"[k] + " is " + std::to_string(got[k]) + " instead of " + std::to_string(want[k]));
      compare("GetNextFlushInterval"); R.count("intervals");
    } else {
      // Often to a moment at which something becomes due, or next to it.
      std::vector<int64_t> t; cm.times(&t); qm.times(&t); rm.times(&t);
      t.erase(std::remove_if(t.begin(), t.end(), [](int64_t x) { return x <= vt::now(); }), t.end());
      if (!t.empty() && r.chance(70)) vt::set(std::max(vt::now(), r.pick(t) - (int64_t)r.below(2) + (int64_t)r.below(2)));
      else vt::advance(r.chance(90) ? r.below(200000) : r.below(100000000));
      tr("t");
    }
  }
  void run() {
    vt::set(1000000000 + r.below(1000000));
    setup();
    int steps = 40 + r.below(r.chance(10) ? 1200 : 200);
    for (int i = 0; i < steps && !dead; i++) step();
    if (!dead) {
      if (r.chance(50)) { cm.flush_all(); qm.flush_all(vt::now()); rm.flush_all(); (void)ca->FlushAll(); (void)qa->FlushAll(); (void)ra->FlushAll(); compare("FlushAll at the end"); }
      bool pend = !cm.ents.empty() || !qm.ents.empty() || !rm.ents.empty();
      // The callback is not used by the destructor, when its owner may be gone.
      ca.reset(); qa.reset(); ra.reset();
      if (!gc.empty() || !gq.empty() || !gr.empty()) bad("destructor", "the destructor of an aggregator called the flush callback");
      if (pend) R.count("destroyed_with_entries");
    }
    if (handed) { R.nontrivial++; R.distinct.insert(trace); }
    if (R.samples.size() < 2) R.samples.push_back(hist);
  }
};

// Several threads use the aggregators while others flush them and exchange
// their callbacks. Each log entry and each token is tagged, and must be handed
// over exactly once; a callback must not run once it has been replaced.
struct Gate { std::atomic<bool> replaced{false}; std::atomic<int> inside{0}; };
// The driver's own bookkeeping is no place to switch threads.
struct Loud { int s; Loud() : s(sched::quiet) { sched::quiet = 0; } ~Loud() { sched::quiet = s; } };
struct Thr {
  bool ctl;                        // under the scheduler
  Rng r; Conf cf; std::mutex mu;
  std::vector<std::pair<string, string>> bads;
  std::map<string, int> sent_log, must, may;        // of reports and checks
  std::map<string, string> sent_quota; std::map<string, int64_t> asked, sent_tokens;
  uint64_t calls = 0, handed = 0, exchanged = 0; std::atomic<uint64_t> all{0};
  Thr(uint64_t seed, bool c) : ctl(c), r(seed) {}
  void bad(const string& k, const string& m) { std::lock_guard<std::mutex> l(mu); if (bads.size() < 5) bads.push_back({k, m}); }
  template <class F> static auto in(F f) -> decltype(f()) { Loud l; return f(); }
  template <class Q, class F> std::function<void(const Q&)> guarded(std::shared_ptr<Gate> g, F f) {
    return [this, g, f](const Q& q) {
      sched::Quiet quiet;
      g->inside++;
      { Loud l; sched::point(sched::P_USER); }
      if (g->replaced) bad("replaced-callback", "a flush callback was called after SetFlushCallback had replaced it and returned");
      { std::lock_guard<std::mutex> l(mu); handed++; f(q); }
      if (g->replaced) bad("replaced-callback", "SetFlushCallback returned while the callback it replaced was still running");
      g->inside--;
    };
  }
  void run() {
    vt::set(1000000000);
    cf.c_num = 1 + r.below(6); cf.q_num = 1 + r.below(6); cf.r_num = 1 + r.below(6);
    if (r.chance(20)) cf.c_num = cf.q_num = cf.r_num = 100;
    int refresh = r.chance(30) ? 0 : r.chance(50) ? 1 : 50;
    auto ca = scc::CreateCheckAggregator(cf.service, cf.config, scc::CheckAggregationOptions(cf.c_num, refresh, refresh + 1), nullptr);
    auto qa = scc::CreateAllocateQuotaAggregator(cf.service, cf.config, scc::QuotaAggregationOptions(cf.q_num, refresh, refresh * (1 + (int)r.below(5))));
    auto ra = scc::CreateReportAggregator(cf.service, cf.config, scc::ReportAggregationOptions(cf.r_num, refresh), nullptr);
    auto onc = [this](const sc::CheckRequest& q) { for (auto& l : q.operation().log_entries()) sent_log[l.insert_id()]++; };
    auto onr = [this](const sc::ReportRequest& q) { for (auto& o : q.operations()) for (auto& l : o.log_entries()) sent_log[l.insert_id()]++; };
    auto onq = [this](const sc::AllocateQuotaRequest& q) {
      auto& o = q.allocate_operation();
      string bytes = det(norm_qop(o));
      auto i = sent_quota.find(o.operation_id());
      if (i != sent_quota.end()) { if (i->second != bytes) bads.push_back({"quota-twice", "two different allocations are named " + o.operation_id()}); return; }   // the same tokens asked for again, as nothing else is due
      sent_quota[o.operation_id()] = bytes;
      for (auto& s : o.quota_metrics()) for (auto& v : s.metric_values()) sent_tokens[o.method_name()] += v.int64_value();
    };
    std::vector<std::shared_ptr<Gate>> gates;
    auto setc = [&](std::shared_ptr<Gate> g) { ca->SetFlushCallback(guarded<sc::CheckRequest>(g, onc)); };
    auto setq = [&](std::shared_ptr<Gate> g) { qa->SetFlushCallback(guarded<sc::AllocateQuotaRequest>(g, onq)); };
    auto setr = [&](std::shared_ptr<Gate> g) { ra->SetFlushCallback(guarded<sc::ReportRequest>(g, onr)); };
    auto g0 = std::make_shared<Gate>(), g1 = std::make_shared<Gate>(), g2 = std::make_shared<Gate>();
    setc(g0); setq(g1); setr(g2);
    int nt = 2 + r.below(3), ops = 30 + r.below(300), names = 1 + r.below(10), kind = r.below(4);
    if (ctl) { nt = 1 + r.below(3); ops = 2 + r.below(16); names = 1 + r.below(3); }
    struct Own { std::map<string, int> must, may; std::map<string, int64_t> asked; uint64_t calls = 0; };
    std::vector<Own> own(nt);      // of each thread, so that no lock orders the calls
    std::vector<std::function<void()>> jobs; std::atomic<bool> done{false}; std::atomic<int> ready{0}, left{nt};
    int total = nt + 2;
    std::mutex exchanging;
    auto flush = [&](Rng& k) {
      Loud l;
      switch (k.below(8)) {
        case 0: (void)ca->FlushAll(); all++; break;
        case 1: (void)qa->FlushAll(); all++; break;
        case 2: (void)ra->FlushAll(); all++; break;
        case 3: (void)ca->Flush(); break;
        case 4: (void)qa->Flush(); break;
        case 5: (void)ra->Flush(); break;
        case 6: (void)ca->GetNextFlushInterval(); (void)qa->GetNextFlushInterval(); (void)ra->GetNextFlushInterval(); break;
        default: vt::advance(k.below(800));
      }
    };
    auto exchange = [&](Rng& k) {
      std::lock_guard<std::mutex> l(exchanging);
      auto g = std::make_shared<Gate>(); std::shared_ptr<Gate>* old = k.chance(33) ? &g0 : k.chance(50) ? &g1 : &g2;
      { Loud l2; if (old == &g0) setc(g); else if (old == &g1) setq(g); else setr(g); }
      if ((*old)->inside) bad("replaced-callback", "SetFlushCallback returned while the callback it replaced was still running");
      (*old)->replaced = true; *old = g; exchanged++;
    };
    auto start = [&] { if (ctl) return; ready++; while (ready < total) std::this_thread::yield(); };
    for (int t = 0; t < nt; t++) {
      uint64_t seed = r.next();
      jobs.push_back([&, t, seed] {
        Rng k(seed); Own& w = own[t]; start();
        for (int i = 0; i < ops; i++) {
          string tag = std::to_string(t) + "." + std::to_string(i), name = "n" + std::to_string(k.below(names));
          if (ctl) { Loud l; sched::point(sched::P_USER); }
          if (k.chance(6)) flush(k);
          if (k.chance(2)) exchange(k);
          int what = kind < 3 && k.chance(80) ? kind : k.below(3);
          if (what == 0) {
            sc::CheckRequest q; q.set_service_name(cf.service); auto* o = q.mutable_operation(); o->set_operation_name(name); o->set_operation_id(tag); o->add_log_entries()->set_insert_id("c" + tag);
            sc::CheckResponse a; Status s = in([&] { return ca->Check(q, &a); });
            if (s.ok() && a.operation_id() != name) bad("answer", "a check of " + name + " was answered with that of '" + a.operation_id() + "'");
            if (!s.ok() && s.code() != StatusCode::kNotFound) bad("status", "Check returned " + s.ToString());
            bool neg = a.check_errors_size() > 0;
            w.calls++; (s.ok() && !neg ? w.must : w.may)["c" + tag]++;
            if (!s.ok() || k.chance(10)) { sc::CheckResponse b; b.set_operation_id(name); if (k.chance(10)) b.add_check_errors()->set_detail("no"); in([&] { (void)ca->CacheResponse(q, b); }); }
          } else if (what == 1) {
            sc::AllocateQuotaRequest q; q.set_service_name(cf.service); auto* o = q.mutable_allocate_operation(); o->set_method_name(name); o->set_operation_id("q" + tag);
            int64_t n = k.below(1000); auto* m = o->add_quota_metrics(); m->set_metric_name("m"); m->add_metric_values()->set_int64_value(n);
            w.calls++; w.asked[name] += n;
            sc::AllocateQuotaResponse a; Status s = in([&] { return qa->Quota(q, &a); });
            if (!s.ok()) bad("status", "Quota returned " + s.ToString());
            if (!a.operation_id().empty() && a.operation_id() != name) bad("answer", "an allocation of " + name + " was answered with that of '" + a.operation_id() + "'");
            if (k.chance(40)) { sc::AllocateQuotaResponse b; b.set_operation_id(name); in([&] { (void)qa->CacheResponse(q, b); }); }
          } else {
            sc::ReportRequest q; q.set_service_name(cf.service); int n = 1 + k.below(3);
            for (int j = 0; j < n; j++) { auto* o = q.add_operations(); o->set_operation_name("n" + std::to_string(k.below(names))); o->set_operation_id(tag); o->add_log_entries()->set_insert_id("r" + tag + "." + std::to_string(j)); }
            w.calls++; for (int j = 0; j < n; j++) w.must["r" + tag + "." + std::to_string(j)]++;
            Status s = in([&] { return ra->Report(q); }); if (!s.ok()) bad("status", "Report returned " + s.ToString());
          }
        }
      });
    }
    uint64_t fs = r.next(), es = r.next();
    jobs.push_back([&] {
      Rng k(fs); start();
      for (int n = 0; ctl ? n < 6 : !done.load(); n++) { flush(k); if (!ctl) for (int i = k.below(6); i > 0; i--) std::this_thread::yield(); }
    });
    jobs.push_back([&] {
      Rng k(es); start();
      for (int n = 0; ctl ? n < 4 : !done.load(); n++) { exchange(k); if (!ctl) for (int i = k.below(4); i > 0; i--) std::this_thread::yield(); }
    });
    sched::Stats ss{};
    if (ctl) {
      sched::Opt o; o.mode = r.chance(50) ? 1 : 2; o.n = jobs.size(); o.seed = r.next();
      o.p_sync = 5 + r.below(50); o.p_mem = r.chance(50) ? 0 : 20 << r.below(8); o.depth = 1 + r.below(4); o.span = 300 << r.below(6);
      sched::begin(o);
    }
    std::vector<std::thread> ts;
    for (int i = 0; i < (int)jobs.size(); i++) {
      ts.emplace_back([&, i] { if (ctl) { sched::enter(i, i < nt ? "caller" : i == nt ? "flusher" : "exchanger"); sched::quiet = 1; } jobs[i](); if (--left == 0) done = true; if (ctl) { sched::quiet = 0; sched::leave(); } });
      if (ctl) sched::await(i + 1);
    }
    if (ctl) { sched::start(); sched::finish(); }
    for (int i = 0; i < (int)ts.size(); i++) { if (ctl) sched::release(i); ts[i].join(); }
    if (ctl) { ss = sched::end(); R.count("switches", ss.switches); }
    (void)ca->FlushAll(); (void)qa->FlushAll(); (void)ra->FlushAll();
    for (auto& w : own) { calls += w.calls; must.insert(w.must.begin(), w.must.end()); may.insert(w.may.begin(), w.may.end()); for (auto& a : w.asked) asked[a.first] += a.second; }
    for (auto& m : must) { int n = sent_log.count(m.first) ? sent_log[m.first] : 0; if (n != m.second) bad(m.first[0] == 'c' ? "check-lost" : "report-lost", "the operation " + m.first + " was merged once and handed over " + std::to_string(n) + " times"); }
    for (auto& m : may) if (sent_log.count(m.first) && sent_log[m.first] > 1) bad("check-twice", "the check " + m.first + " was handed over " + std::to_string(sent_log[m.first]) + " times");
    for (auto& q : asked) if (sent_tokens[q.first] != q.second) bad("tokens", "allocations of " + q.first + " were granted " + std::to_string(q.second) + " tokens in all, and " + std::to_string(sent_tokens[q.first]) + " were handed over to be charged");
    uint64_t before = handed;
    ca.reset(); qa.reset(); ra.reset();
    if (handed != before) bad("destructor", "the destructor of an aggregator called the flush callback");
    for (auto& b : bads) R.viol({"A01"}, b.first, b.second + conf_text(cf));
    R.count("threaded_calls", calls); R.count("handed_over_concurrently", handed); R.count("callbacks_exchanged_concurrently", exchanged); R.count("flushed_all_concurrently", all);
    R.count("operations_conserved", must.size()); R.count("keys_conserved", asked.size());
    if (ctl ? ss.switches > jobs.size() : handed > 0) { R.nontrivial++; R.distinct.insert(ctl ? ss.hash : mix(r.next(), handed)); }
  }
};
}  // namespace

int main(int argc, char** argv) {
  A = parse_args(argc, argv);
  vt::enable(true);
  int threads = A.geti("threads", 0);       // 1: running freely, 2: under the scheduler
  return run_cases(A, [=](uint64_t cs) { if (threads) { std::unique_ptr<Thr> t(new Thr(cs, threads == 2)); t->run(); } else { std::unique_ptr<Seq> s(new Seq(cs)); s->run(); } });
}
