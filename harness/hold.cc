// A client in use for a long time: cycles of calls on ever new identities, each
// cycle ending in the same way. What the client holds at the ends of the cycles
// (bytes allocated, and driver objects alive) must not keep growing.
#include <algorithm>
#include <thread>
#include "core.h"
#include "include/service_control_client.h"
using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
using google::protobuf::util::OkStatus;
namespace scc = google::service_control_client;
static Args A;

namespace {
int tokens_alive;
// Held by each callback, so that a callback kept after it ran is seen.
struct Token { Token() { tokens_alive++; } ~Token() { tokens_alive--; } };
struct Pending { sc::CheckResponse* c = 0; sc::AllocateQuotaResponse* q = 0; scc::TransportDoneFunc done; };
struct NoTimer : scc::PeriodicTimer { void Stop() override {} };
struct World {
  Rng cyc{1};                        // the same in each cycle
  int pending_n = 0, p_inplace, p_fail, p_neg;
  std::vector<Pending> pending;
  std::function<void()> tick;
  uint64_t ident = 0, calls = 0, sends = 0;
  std::unique_ptr<scc::ServiceControlClient> client;
  void settle(Pending p) {
    bool fail = cyc.chance(p_fail), neg = cyc.chance(p_neg);
    if (!fail && p.c) { p.c->set_operation_id("0123456789012345678901234567890123456789"); if (neg) p.c->add_check_errors()->set_detail("no"); }
    if (!fail && p.q) { p.q->set_operation_id("0123456789012345678901234567890123456789"); if (neg) p.q->add_allocate_errors()->set_description("no"); }
    p.done(fail ? vf::failed(cyc, "down") : OkStatus());
  }
  void send(Pending p) {
    sends++;
    if (cyc.chance(p_inplace)) settle(std::move(p));
    else pending.push_back(std::move(p));
  }
  void answer(int keep) {
    while ((int)pending.size() > keep) { int i = cyc.below(pending.size()); Pending p = std::move(pending[i]); pending[i] = std::move(pending.back()); pending.pop_back(); settle(std::move(p)); }
  }
};
World* W;
}  // namespace

static void one(uint64_t cs) {
  std::unique_ptr<World> w(new World); W = w.get();
  Rng r(cs);
  vt::set(1000000000);
  int cn = r.chance(10) ? 0 : 1 + r.below(20), qn = r.chance(10) ? 0 : 1 + r.below(20), rn = r.chance(10) ? 0 : 1 + r.below(20);
  int f = 20 + r.below(80), e = f * (1 + r.below(4)) + 1;
  w->p_inplace = r.below(101); w->p_fail = r.chance(50) ? 0 : r.below(60); w->p_neg = r.chance(50) ? 0 : r.below(60);
  bool timer = r.chance(80), drain = timer && r.chance(60); uint64_t cseed = r.next(); int steps = 20 + r.below(60), keys = 1 + r.below(30), keep = r.chance(50) ? 0 : r.below(6);
  int mean = r.chance(50) ? 0 : r.below(f * 1000);
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(cn, f, e), scc::QuotaAggregationOptions(qn, f, e), scc::ReportAggregationOptions(rn, f));
  o.check_transport = [](const sc::CheckRequest&, sc::CheckResponse* s, scc::TransportDoneFunc d) { Pending p; p.c = s; p.done = std::move(d); W->send(std::move(p)); };
  o.quota_transport = [](const sc::AllocateQuotaRequest&, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { Pending p; p.q = s; p.done = std::move(d); W->send(std::move(p)); };
  o.report_transport = [](const sc::ReportRequest&, sc::ReportResponse*, scc::TransportDoneFunc d) { Pending p; p.done = std::move(d); W->send(std::move(p)); };
  if (timer) o.periodic_timer = [](int, std::function<void()> fn) { W->tick = fn; return std::unique_ptr<scc::PeriodicTimer>(new NoTimer); };
  w->client = scc::CreateServiceControlClient("svc", "conf", o);
  w->pending.reserve(5000);
  // The caches, of 20 entries at most, are full after WARM cycles. What they hold
  // may still go up and down for ever, with any period, so growth over the next N
  // cycles is only a suspicion: it is confirmed by going on for MORE cycles, after
  // which more than ever before must be held, by more than the ups and downs.
  const int WARM = 24, N = 8, MORE = 600;
  std::vector<size_t> bytes; std::vector<int> alive;
  auto lo = [&](size_t a, size_t n) { return *std::min_element(bytes.begin() + a, bytes.begin() + a + n); };
  auto hi = [&](size_t a, size_t n) { return *std::max_element(bytes.begin() + a, bytes.begin() + a + n); };
  bool suspect = false, in_threads = r.chance(35);
  if (in_threads) R.counters["cases_in_new_threads"]++;
  struct Out { sc::CheckRequest cq; sc::CheckResponse cr; sc::AllocateQuotaRequest qq; sc::AllocateQuotaResponse qr; sc::ReportRequest rq; sc::ReportResponse rr; std::shared_ptr<Token> t; };
  int total = WARM + N;
  for (int c = 0; c < total; c++) {
    w->cyc = Rng(cseed);
    auto cycle = [&] {
      std::list<std::shared_ptr<Out>> live;
      uint64_t base = 100000 + 1000 * c;                // new identities, of the same length
      for (int i = 0; i < steps; i++) {
        Rng& k = w->cyc;
        int what = k.below(100);
        string id = "key" + std::to_string(base + k.below(keys));
        auto x = std::make_shared<Out>(); 
        auto tok = std::make_shared<Token>();
        auto cb = [x, tok](const Status&) {};
        auto fill = [&](sc::Operation* op) {
          op->set_operation_id("op"); op->set_operation_name(id); op->set_consumer_id("project:a-consumer-with-a-long-name"); (*op->mutable_labels())["zone"] = "a";
          op->mutable_start_time()->set_seconds(1000); op->mutable_end_time()->set_seconds(1001);
          auto* s = op->add_metric_value_sets(); s->set_metric_name("metric"); s->add_metric_values()->set_int64_value(1);
          op->add_log_entries()->set_name("a log entry of some length, so that it takes memory");
          if (k.chance(10)) op->set_importance(sc::Operation::HIGH);
        };
        w->calls++;
        if (what < 35) { x->cq.set_service_name("svc"); fill(x->cq.mutable_operation()); w->client->Check(x->cq, &x->cr, cb); }
        else if (what < 60) {
          x->qq.set_service_name("svc"); auto* op = x->qq.mutable_allocate_operation(); op->set_operation_id("op"); op->set_method_name(id); op->set_consumer_id("project:a-consumer-with-a-long-name");
          auto* s = op->add_quota_metrics(); s->set_metric_name("metric"); s->add_metric_values()->set_int64_value(1); w->client->Quota(x->qq, &x->qr, cb);
        } else if (what < 85) { x->rq.set_service_name("svc"); int n = 1 + k.below(3); for (int m = 0; m < n; m++) fill(x->rq.add_operations()); w->client->Report(x->rq, &x->rr, cb); }
        else if (what < 90) { if (w->tick) w->tick(); }
        else if (what < 96) { vt::advance(k.below(mean + 1)); w->answer(keep); }
        else { scc::Statistics st; (void)w->client->GetStatistics(&st); }
      }
      w->answer(0);
    };
    // Callers come and go with their threads.
    if (!in_threads) cycle(); else { std::thread t(cycle); t.join(); }
    if (drain) for (int i = 0; i < 4; i++) { vt::advance((int64_t)(e + 1) * 1000); if (w->tick) w->tick(); w->answer(0); }
    if (c >= WARM) {
      if (bytes.empty()) { bytes.reserve(N + MORE); alive.reserve(N + MORE); }
      bytes.push_back(live_bytes()); alive.push_back(tokens_alive);
    }
    if (c == WARM + N - 1 && live_bytes() && lo(N / 2, N / 2) > lo(0, N / 2)) total += 24;
    if (c == WARM + N + 23 && lo(N + 16, 8) > hi(0, N)) { suspect = true; total += MORE; }
  }
  size_t M = bytes.size();
  auto list = [&](auto& v) { string s; for (size_t i = 0; i < v.size(); i += v.size() > 40 ? 40 : 1) s += " " + std::to_string((long long)v[i]); return s; };
  bool grows = suspect && lo(M - 100, 100) > hi(0, 100) + (hi(0, 100) - lo(0, 100)) / 4 && lo(M - 100, 100) > hi(M - 300, 100);
  R.counters["cycles"] += total; if (suspect) R.counters["growth_examined"]++; R.counters["calls"] += w->calls; R.counters["sends"] += w->sends;
  if (drain) R.counters["drained_cases"]++;
  bool flat = true; for (int i = N - 3; i < N; i++) flat &= bytes[i] == bytes[N - 4];
  R.counters[flat ? "flat" : "fluctuating"]++;
  string conf = " [caches " + std::to_string(cn) + "/" + std::to_string(qn) + "/" + std::to_string(rn) + ", " + (drain ? "all expired at the end of a cycle" : timer ? "timer" : "no timer") + "]";
  if (grows) R.viol({"K05"}, "grows", "the memory held after each of " + std::to_string(total) + " equal cycles of calls keeps growing (every 40th shown):" + list(bytes) + " bytes" + conf);
  else if (alive.back() > 0) R.viol({"K05", "D01"}, "callback-kept", "callbacks are held after they ran:" + list(alive) + conf);
  if (w->sends) { R.nontrivial++; R.distinct.insert(mix(cs, w->sends)); }
  if (R.samples.size() < 2) R.samples.push_back("case " + std::to_string(cs) + ": " + std::to_string(w->calls) + " calls, " + std::to_string(w->sends) + " sent, bytes held:" + list(bytes) + conf);
  w->client.reset(); w->answer(0);
  if (tokens_alive) R.viol({"K05", "K01"}, "callback-kept-for-ever", std::to_string(tokens_alive) + " callbacks are still held after the client was destroyed");
  tokens_alive = 0;
  w->tick = nullptr;
}
int main(int argc, char** argv) {
  A = parse_args(argc, argv);
  vt::enable(true);
  { Report keep; keep.only = R.only; for (uint64_t s = 1; s < 4; s++) one(s); R = keep; }
  return run_cases(A, one);
}
