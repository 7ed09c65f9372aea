// Reference models of the three aggregation caches. They state, for one client
// used sequentially in virtual time, which calls are answered locally, what is
// sent and when. They are written from the documented behaviour and share no
// code with the library.
#pragma once
#include "core.h"

namespace vf {

enum Dec { LOCAL, FORWARD, INVALID };
static const char* const kDec[] = {"answered locally", "forwarded", "rejected"};

struct Conf {
  string service = "svc.example.com", config = "cfg-7";
  int c_num = 0, c_flush = 0, c_exp = 0;   // check: entries, refresh ms, expiration ms
  int q_num = 0, q_ref = 0, q_exp = 0;
  int r_num = 0, r_flush = 0;
  std::shared_ptr<Kinds> kinds;
};

// Why a check had to be forwarded or not.
enum Why { W_NONE, W_URGENT, W_DISABLED, W_NEVER, W_IDLE, W_EVICTED, W_REFRESH, W_FRESH, W_BADNAME, W_NOOP };

struct CheckModel {
  struct Ent {
    sc::CheckResponse resp; bool neg = false;
    int64_t last_check = 0, last_use = 0;
    std::unique_ptr<OpModel> pend; int npend = 0;
  };
  const Conf& c;
  std::map<string, Ent> ents;
  std::list<string> lru;              // front is the most recently used
  std::map<string, Why> gone;         // why an identity is not cached any more
  std::vector<sc::CheckRequest> expect;   // flushes due now
  explicit CheckModel(const Conf& cf) : c(cf) {}
  int64_t flush_us() const { return (int64_t)c.c_flush * 1000; }
  int64_t exp_us() const { return (int64_t)c.c_exp * 1000; }
  void touch(const string& k, int64_t now) {
    ents[k].last_use = now; lru.remove(k); lru.push_front(k);
  }
  void drop(const string& k, Why w) {
    Ent& e = ents[k];
    if (e.pend) {
      sc::CheckRequest r; r.set_service_name(c.service); r.set_service_config_id(c.config);
      *r.mutable_operation() = e.pend->proto();
      expect.push_back(r);
    }
    ents.erase(k); lru.remove(k); gone[k] = w;
  }
  void expire(int64_t now) {
    std::vector<string> v;
    for (auto i = lru.rbegin(); i != lru.rend(); ++i) if (ents[*i].last_use < now - exp_us()) v.push_back(*i);
    for (auto& k : v) drop(k, W_IDLE);
  }
  Dec call(const sc::CheckRequest& q, int64_t now, Why* why, sc::CheckResponse* resp) {
    *why = W_NONE;
    if (q.service_name() != c.service) { *why = W_BADNAME; return INVALID; }
    if (!q.has_operation()) { *why = W_NOOP; return INVALID; }
    if (q.operation().importance() != sc::Operation::LOW) { *why = W_URGENT; return FORWARD; }
    if (c.c_num <= 0) { *why = W_DISABLED; return FORWARD; }
    expire(now);
    string k = check_identity(q.operation());
    auto i = ents.find(k);
    if (i == ents.end()) { auto g = gone.find(k); *why = g == gone.end() ? W_NEVER : g->second; return FORWARD; }
    Ent& e = i->second;
    touch(k, now);
    bool due = now - e.last_check >= flush_us();
    if (!e.neg) {
      if (e.pend) e.pend->merge(q.operation());
      else e.pend.reset(new OpModel(q.operation(), c.kinds.get()));
      e.npend++;
    }
    if (due) { e.last_check = now; *why = W_REFRESH; return FORWARD; }
    *resp = e.resp; *why = W_FRESH;
    return LOCAL;
  }
  void cache(const sc::CheckRequest& q, const sc::CheckResponse& r, int64_t now) {
    if (c.c_num <= 0) return;
    expire(now);
    string k = check_identity(q.operation());
    auto i = ents.find(k);
    if (i != ents.end()) {
      touch(k, now);
      i->second.last_check = now; i->second.resp = r; i->second.neg = r.check_errors_size() > 0;
      return;
    }
    Ent& e = ents[k];
    e.resp = r; e.neg = r.check_errors_size() > 0; e.last_check = now; e.last_use = now;
    while ((int)ents.size() > c.c_num) { string old = lru.back(); drop(old, W_EVICTED); }
    lru.push_front(k);
  }
  void tick(int64_t now) { if (c.c_num > 0) expire(now); }
  void flush_all() { while (!lru.empty()) { string k = lru.back(); drop(k, W_EVICTED); } }
  void times(std::vector<int64_t>* t) const {
    for (auto& e : ents) { t->push_back(e.second.last_check + flush_us()); t->push_back(e.second.last_use + exp_us() + 1); t->push_back(e.second.last_use + exp_us()); }
  }
};

struct QAgg {
  sc::QuotaOperation base;
  std::map<string, sc::MetricValue> m;
  std::set<string> valueless;         // asked for without an amount
  explicit QAgg(const sc::QuotaOperation& op) : base(op) { base.clear_quota_metrics(); merge(op); }
  void merge(const sc::QuotaOperation& op) {
    for (auto& s : op.quota_metrics()) {
      if (!s.metric_values_size()) valueless.insert(s.metric_name());
      for (auto& v : s.metric_values()) {
        auto i = m.find(s.metric_name());
        if (i == m.end()) { m[s.metric_name()] = v; continue; }
        sc::MetricValue* to = &i->second;
        if (to->value_case() != v.value_case()) continue;
        if (v.has_start_time() && (!to->has_start_time() || ts_before(v.start_time(), to->start_time()))) *to->mutable_start_time() = v.start_time();
        if (v.has_end_time() && (!to->has_end_time() || ts_before(to->end_time(), v.end_time()))) *to->mutable_end_time() = v.end_time();
        if (v.value_case() == sc::MetricValue::kInt64Value) to->set_int64_value(sat_add(to->int64_value(), v.int64_value()));
      }
    }
  }
  sc::QuotaOperation proto() const {
    sc::QuotaOperation o(base);
    for (auto& p : m) { auto* s = o.add_quota_metrics(); s->set_metric_name(p.first); *s->add_metric_values() = p.second; }
    for (auto& n : valueless) if (!m.count(n)) o.add_quota_metrics()->set_metric_name(n);
    return o;
  }
};

struct QSend { sc::AllocateQuotaRequest req; string key; const char* why; };

struct QuotaModel {
  struct Ent {
    sc::AllocateQuotaRequest first; sc::AllocateQuotaResponse resp;
    bool in_flight = false; int64_t last_refresh = 0, inserted = 0;
    std::unique_ptr<QAgg> agg; int nagg = 0;
    bool neg() const { return resp.allocate_errors_size() > 0; }
  };
  const Conf& c;
  std::map<string, std::unique_ptr<Ent>> ents;
  std::list<string> order;           // front is the newest
  std::vector<QSend> expect;
  uint64_t drops = 0, evictions = 0, reinserts = 0, lost_neg = 0;
  explicit QuotaModel(const Conf& cf) : c(cf) {}
  int64_t ref_us() const { return (int64_t)c.q_ref * 1000; }
  int64_t exp_us() const { return (int64_t)c.q_exp * 1000; }
  sc::AllocateQuotaRequest take(Ent* e) {
    sc::AllocateQuotaRequest r;
    if (e->agg) {
      r.set_service_name(c.service); r.set_service_config_id(c.config);
      *r.mutable_allocate_operation() = e->agg->proto(); e->agg.reset(); e->nagg = 0;
    } else r = e->first;
    return r;
  }
  void leaving(const string& k, std::unique_ptr<Ent> e, int64_t now, bool all) {
    if (!all && now - e->last_refresh < exp_us() && (int)ents.size() < c.q_num) {
      reinserts++;
      e->inserted = now; order.push_front(k);
      if (!e->in_flight && e->agg) {
        e->in_flight = true; e->last_refresh = now;
        expect.push_back({take(e.get()), k, "aggregated"});
      }
      ents[k] = std::move(e);
      return;
    }
    drops++;
    if (e->agg) expect.push_back({take(e.get()), k, "leaving"});
  }
  void remove(const string& k, int64_t now, bool all) {
    std::unique_ptr<Ent> e = std::move(ents[k]);
    ents.erase(k); order.remove(k);
    leaving(k, std::move(e), now, all);
  }
  void expire(int64_t now) {
    std::vector<string> v;
    for (auto i = order.rbegin(); i != order.rend(); ++i) if (ents[*i]->inserted < now - ref_us()) v.push_back(*i);
    for (auto& k : v) remove(k, now, false);
  }
  Dec call(const sc::AllocateQuotaRequest& q, int64_t now, sc::AllocateQuotaResponse* resp, string* why) {
    if (q.service_name() != c.service) { *why = "badname"; return INVALID; }
    if (!q.has_allocate_operation()) { *why = "noop"; return INVALID; }
    if (c.q_num <= 0) { *why = "disabled"; return FORWARD; }
    expire(now);
    string k = quota_identity(q.allocate_operation());
    auto i = ents.find(k);
    if (i == ents.end()) {
      *why = "first";
      std::unique_ptr<Ent> e(new Ent);
      e->first = q; e->last_refresh = now; e->inserted = now; e->in_flight = true;
      ents[k] = std::move(e);
      while ((int)ents.size() > c.q_num) { string old = order.back(); evictions++; remove(old, now, false); }
      order.push_front(k);
      expect.push_back({q, k, "first"});
      resp->Clear();
      return LOCAL;
    }
    Ent* e = i->second.get();
    *why = e->neg() ? "denied" : e->in_flight ? "inflight" : "granted";
    if (!e->in_flight && now - e->last_refresh >= ref_us()) {
      *why += "+refresh";
      e->in_flight = true; e->last_refresh = now;
      bool agg = (bool)e->agg;
      sc::AllocateQuotaRequest r = take(e);
      if (e->neg()) r.mutable_allocate_operation()->set_quota_mode(sc::QuotaOperation::NORMAL);
      expect.push_back({r, k, agg ? "aggregated" : e->neg() ? "probe-denied" : "probe"});
    }
    if (!e->neg()) {
      if (e->agg) e->agg->merge(q.allocate_operation()); else e->agg.reset(new QAgg(q.allocate_operation()));
      e->nagg++;
    }
    *resp = e->resp;
    return LOCAL;
  }
  void cache(const sc::AllocateQuotaRequest& q, const sc::AllocateQuotaResponse& r, int64_t now) {
    if (c.q_num <= 0) return;
    expire(now);
    auto i = ents.find(quota_identity(q.allocate_operation()));
    if (i == ents.end()) return;
    i->second->in_flight = false; i->second->resp = r;
    if (r.allocate_errors_size() > 0) { if (i->second->agg) lost_neg++; i->second->agg.reset(); i->second->nagg = 0; }
  }
  void tick(int64_t now) { if (c.q_num > 0) expire(now); }
  void flush_all(int64_t now) { while (!order.empty()) { string k = order.back(); remove(k, now, true); } }
  void times(std::vector<int64_t>* t) const {
    for (auto& e : ents) {
      t->push_back(e.second->inserted + ref_us()); t->push_back(e.second->inserted + ref_us() + 1);
      t->push_back(e.second->last_refresh + ref_us()); t->push_back(e.second->last_refresh + exp_us());
      t->push_back(e.second->last_refresh + exp_us() + 1);
    }
  }
};

struct RepModel {
  struct Ent { OpModel op; int64_t inserted; int n; };
  const Conf& c;
  std::map<string, Ent> ents;
  std::list<string> order;
  std::vector<sc::Operation> expect;
  uint64_t by_age = 0, by_size = 0, by_room = 0;
  explicit RepModel(const Conf& cf) : c(cf) {}
  int64_t flush_us() const { return (int64_t)c.r_flush * 1000; }
  void drop(const string& k) { expect.push_back(ents.find(k)->second.op.proto()); ents.erase(k); order.remove(k); }
  void expire(int64_t now) {
    std::vector<string> v;
    for (auto i = order.rbegin(); i != order.rend(); ++i) if (ents.find(*i)->second.inserted < now - flush_us()) v.push_back(*i);
    for (auto& k : v) { by_age++; drop(k); }
  }
  Dec call(const sc::ReportRequest& q, int64_t now, string* why) {
    if (q.service_name() != c.service) { *why = "badname"; return INVALID; }
    for (auto& o : q.operations()) if (o.importance() != sc::Operation::LOW) { *why = "urgent"; return FORWARD; }
    if (c.r_num <= 0) { *why = "disabled"; return FORWARD; }
    *why = "merged";
    for (auto& o : q.operations()) {
      expire(now);
      string k = report_identity(o);
      auto i = ents.find(k);
      if (i != ents.end()) {
        i->second.op.merge(o); i->second.n++;
        if (i->second.op.base.log_entries_size() >= 100) { by_size++; drop(k); }
        continue;
      }
      ents.emplace(k, Ent{OpModel(o, c.kinds.get()), now, 1});
      while ((int)ents.size() > c.r_num) { string old = order.back(); by_room++; drop(old); }
      order.push_front(k);
    }
    return LOCAL;
  }
  void tick(int64_t now) { if (c.r_num > 0) expire(now); }
  void flush_all() { while (!order.empty()) { string k = order.back(); drop(k); } }
  void times(std::vector<int64_t>* t) const {
    for (auto& e : ents) { t->push_back(e.second.inserted + flush_us()); t->push_back(e.second.inserted + flush_us() + 1); }
  }
};
}  // namespace vf
