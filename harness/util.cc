// Monitors for the building blocks: the LRU cache, distributions, money,
// signatures and MD5. Each profile drives the real code with generated inputs
// and compares it step by step with an oracle that shares no code with it.
#include <algorithm>
#include <cmath>
#include <limits>
#include <sys/mman.h>
#include <unistd.h>
#include "core.h"
#include "src/money_utils.h"
#include "src/signature.h"
#include "utils/distribution_helper.h"
#include "utils/md5.h"
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"

using namespace vf;
namespace scc = google::service_control_client;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
typedef std::vector<string> P;
static Args A;

// ---------------------------------------------------------------- LRU cache
namespace lru {
struct Val { int id; };
static std::map<Val*, int>* g_live = nullptr;   // value -> key, owned by the cache
static std::vector<int> g_deleted;              // ids handed to the deleter in this step
static std::set<int>* g_gone = nullptr;
struct Del {
  void operator()(Val* v) const {
    if (!g_live->count(v)) { R.viol({"L02"}, "deleted-twice", "a value that the cache does not own was handed to the deleter"); return; }
    g_live->erase(v); g_deleted.push_back(v->id); g_gone->insert(v->id);
    v->id = -7777; delete v;
  }
};
typedef scc::SimpleLRUCacheWithDeleter<string, Val, Del> Cache;
struct Ent { string key; Val* v; int id; int pin; size_t units; int64_t use; };
struct Model {
  bool lru = true; int64_t idle = -1, max = 0;
  std::map<string, Ent*> table; std::list<Ent*> order;     // front newest
  std::vector<Ent*> defer;
  std::vector<int> deleted; 
  int64_t units = 0, pinned = 0;
  ~Model() { for (auto& p : table) delete p.second; for (auto e : defer) delete e; }
  bool over() { return units > max; }
  void discard(Ent* e) { units -= e->units; deleted.push_back(e->id); delete e; }
  void remove(Ent* e) {
    order.remove(e); table.erase(e->key);
    if (e->pin) { pinned -= e->units; defer.push_back(e); } else discard(e);
  }
  void gc() {
    for (auto i = order.end(); over() && i != order.begin();) {
      --i; Ent* e = *i;
      if (e->pin) continue;
      i = order.erase(i); table.erase(e->key); discard(e);
    }
  }
  void expire(int64_t now) {
    if (idle < 0) return;
    while (!order.empty()) {
      Ent* e = order.back();
      if (!(e->use < now - idle)) break;
      remove(e);
    }
  }
  Ent* find(const string& k) { auto i = table.find(k); return i == table.end() ? nullptr : i->second; }
  Ent* lookup(const string& k, int64_t now, bool upd) {
    expire(now);
    Ent* e = find(k); if (!e) return nullptr;
    if (!e->pin) { pinned += e->units; if (lru && upd) order.remove(e); }
    e->pin++;
    return e;
  }
  void release(const string& k, Val* v, int64_t now, bool upd) {
    for (size_t i = 0; i < defer.size(); i++)
      if (defer[i]->key == k && defer[i]->v == v) {
        Ent* e = defer[i];
        if (--e->pin == 0) { defer.erase(defer.begin() + i); discard(e); }
        return;
      }
    Ent* e = find(k);
    if (!e) return;
    if (lru && upd) e->use = now;
    if (--e->pin == 0) {
      if (lru && upd) order.push_front(e);
      pinned -= e->units;
      if (over()) remove(e);
    }
  }
  void insert(const string& k, Val* v, int id, size_t u, int64_t now) {
    if (Ent* o = find(k)) remove(o);
    Ent* e = new Ent{k, v, id, 1, u, now};
    units += u; pinned += u; table[k] = e;
    if (!lru) order.push_front(e);
    gc();
  }
};
static void run(uint64_t cs) {
  Rng r(cs);
  std::map<Val*, int> live; std::set<int> gone; g_live = &live; g_gone = &gone; g_deleted.clear();
  vt::set((r.chance(30) ? 1760000000000000 : 1000000) + (int64_t)r.below(1000000));
  bool big = r.chance(1), vast = big && r.chance(10);
  // Sizes need not be small numbers.
  const int64_t scale = r.chance(6) ? r.pick(std::vector<int64_t>{1000, 1 << 30, 1500000000, 3000000000, 1ll << 32, 1ll << 40}) : 1;
  if (scale > 1) R.counters["lru_large_sizes"]++;
  Model m; m.max = scale * (r.chance(20) ? 0 : r.below(vast ? 2000 : big ? 300 : 12)); m.lru = r.chance(50);
  Cache* c = new Cache(m.max);
  auto timeout = [&] {
    int64_t us = r.pick(std::vector<int64_t>{0, 1, 2, 3, 100, 125, 1000, 500000, 1000000, 3000000000, 86400000000});
    double s = r.chance(15) ? -1.0 : r.chance(5) ? std::numeric_limits<double>::infinity() : r.chance(5) ? 1e18 : us / 1e6;
    int64_t cyc = s < 0 || std::isinf(s) ? -1 : s >= 1e13 ? INT64_MAX : (int64_t)(s * 1e6);
    m.idle = cyc;
    if (m.lru) c->SetMaxIdleSeconds(s); else c->SetAgeBasedEviction(s);
    // A change of the timeout takes effect at once.
    if (cyc >= 0) m.expire(vt::now());
  };
  if (!m.lru) { c->SetAgeBasedEviction(-1); }
  if (r.chance(75)) timeout();
  int nid = 0, nkeys = vast ? 600 + r.below(1400) : 1 + r.below(big ? 400 : 8);
  struct Pin { string k; Val* v; int id; };
  std::vector<Pin> pins;
  std::vector<Val*> given; std::map<int, bool> given_ids;
  uint64_t tr = m.lru * 2 + m.max; string text;
  auto mixin = [&](uint64_t x) { tr = (tr ^ x) * 1099511628211ull; };
  bool pinned_ever = false, evict = false, expired = false, deferred = false;
  int steps = vast ? 1500 : big ? 600 : 20 + r.below(150);
  auto key = [&] { return string("k") + std::to_string(r.below(nkeys)); };
  for (int st = 0; st < steps && !R.case_bad; st++) {
    g_deleted.clear(); m.deleted.clear();
    int64_t now = vt::now(); string what; P props{"L01"};
    int op = r.below(100);
    if (vast && st < steps - 300) { op = r.chance(90) ? 0 : op; if (op >= 68 && op < 76) op = 0; if (op >= 87) op = 0; }
    if (op < 25) {
      string k = vast && st < steps - 300 ? "k" + std::to_string(st % nkeys) : key(); Val* v = new Val{++nid}; live[v] = 1; given_ids[nid] = true;
      size_t u = scale * (r.chance(80) ? 1 : r.below(5)) - (scale > 1 && r.chance(20));
      if ((int64_t)u < 0) u = 0;
      bool keep = r.chance(25);
      what = "insert " + k + (keep ? " pinned " : " ") + std::to_string(u);
      m.insert(k, v, nid, u, now);
      int id = nid;
      if (keep) { c->InsertPinned(k, v, u); pins.push_back({k, v, id}); pinned_ever = true; }
      else { c->Insert(k, v, u); m.release(k, v, now, true); }
    } else if (op < 50) {
      string k = key(); int how = r.below(3);
      bool upd = how != 2 || !pins.empty() || true;
      Ent* e0 = m.find(k); bool nu = how == 2 && (!e0 || e0->pin == 0);
      upd = !nu;
      what = "lookup " + k + (nu ? " without update" : "");
      Ent* e = m.lookup(k, now, upd);
      scc::SimpleLRUCacheOptions o; o.set_update_eviction_order(upd);
      if (how == 0) {
        Val* v = c->Lookup(k);
        if ((v != nullptr) != (e != nullptr)) R.viol({"L01"}, "lookup", what + (v ? " found what should be gone" : " did not find a live entry"));
        else if (v && (!live.count(v) || v != e->v || v->id != e->id)) R.viol({"L01"}, "lookup-value", what + " found another value");
        if (v && e) {
          if (r.chance(40)) { pins.push_back({k, v, e->id}); pinned_ever = true; }
          else { int id = e->id; (void)id; m.release(k, v, now, true); c->Release(k, v); }
        }
      } else {
        Cache::ScopedLookup l(c, k, o);
        if (l.Found() != (e != nullptr) || (e && (l.value() != e->v || l.value()->id != e->id))) R.viol({"L01"}, "scoped-lookup", what + " differs from the model");
        if (l.key() != k) R.viol({"L01"}, "scoped-key", "scoped lookup has another key");
        if (e) m.release(k, e->v, now, upd);
      }
    } else if (op < 60 && !pins.empty()) {
      size_t i = r.below(pins.size()); Pin p = pins[i]; pins.erase(pins.begin() + i);
      what = "release " + p.k;
      if (!live.count(p.v) || p.v->id != p.id) R.viol({"L02"}, "pinned-deleted", "a pinned value was disposed of");
      else if (!c->StillInUse(p.k, p.v)) R.viol({"L02"}, "pinned-forgotten", "the cache no longer knows a value that is still in use: " + p.k);
      else { m.release(p.k, p.v, now, true); c->Release(p.k, p.v); }
    } else if (op < 68) {
      string k = key(); what = "remove " + k;
      if (Ent* e = m.find(k)) m.remove(e);
      c->Remove(k);
    } else if (op < 70 && (!big || r.chance(5))) {
      what = "remove all";
      while (!m.table.empty()) m.remove(m.table.begin()->second);
      c->RemoveAll();
    } else if (op < 72) {
      what = "remove unpinned";
      for (auto i = m.table.begin(); i != m.table.end();) { Ent* e = i->second; ++i; if (!e->pin) m.remove(e); }
      c->RemoveUnpinned();
    } else if (op < 76) {
      m.max = scale * r.below(big && r.chance(80) ? 300 : 12); what = "set max " + std::to_string(m.max);
      m.gc(); c->SetMaxSize(m.max);
    } else if (op < 80) { what = "timeout"; timeout(); }
    else if (op < 84) { what = "remove expired"; m.expire(now); c->RemoveExpiredEntries(); }
    else if (op < 87) {
      string k = key(); size_t u = scale * r.below(5); what = "update size " + k + " " + std::to_string(u);
      Ent* e = m.find(k); Val* v = e && r.chance(60) ? e->v : !pins.empty() && r.chance(50) ? r.pick(pins).v : nullptr;
      if (e && (!v || v == e->v)) { m.units += (int64_t)u - (int64_t)e->units; if (e->pin) m.pinned += (int64_t)u - (int64_t)e->units; e->units = u; }
      else for (auto d : m.defer) if (d->key == k && (!v || d->v == v)) { m.units += (int64_t)u - (int64_t)d->units; d->units = u; }
      m.gc(); c->UpdateSize(k, v, u);
    } else if (op < 99 || !pins.empty()) {
      std::vector<int64_t> t;
      if (m.idle >= 0 && m.idle < 1000000000000) for (auto& p : m.table) { t.push_back(p.second->use + m.idle); t.push_back(p.second->use + m.idle + 1); }
      int64_t to = t.empty() || r.chance(30) ? now + r.below(2000) : r.pick(t) - 1 + r.below(3);
      if (to > now) vt::set(to);
      what = "advance";
    } else {
      what = "clear";
      while (!m.table.empty()) m.remove(m.table.begin()->second);
      c->Clear();
    }
    if (m.deleted.size() && what.substr(0, 3) == "ins") evict = true;
    if (!m.defer.empty()) deferred = true;
    if (m.deleted.size() && (what.substr(0, 6) == "lookup" || what == "remove expired")) expired = true;
    for (int x : g_deleted) mixin(x);
    mixin(hash_str(what));
    if (text.size() < 700) text += what + "; ";
    if (A.verbose) printf("  [%lld] %s\n", (long long)vt::now(), what.c_str());
    if (R.case_bad) break;
    std::sort(g_deleted.begin(), g_deleted.end()); std::sort(m.deleted.begin(), m.deleted.end());
    if (g_deleted != m.deleted) {
      bool pin = false;
      for (int id : g_deleted) for (auto& p : pins) if (p.id == id) pin = true;
      string d = "deleted {"; for (int x : g_deleted) d += std::to_string(x) + " "; d += "} expected {"; for (int x : m.deleted) d += std::to_string(x) + " ";
      R.viol(pin ? P{"L02"} : P{"L01", "L02"}, "disposal", what + ": " + d + "}"); break;
    }
#define EQ(a, b, n) if ((int64_t)(a) != (int64_t)(b)) { R.viol({"L01"}, n, what + ": " n " is " + std::to_string((int64_t)(a)) + ", should be " + std::to_string((int64_t)(b))); break; }
    EQ(c->Size(), m.units, "size"); EQ(c->Entries(), m.table.size(), "entries"); EQ(c->PinnedSize(), m.pinned, "pinned-size"); EQ(c->MaxSize(), m.max, "max-size");
    int64_t du = 0; for (auto e : m.defer) du += e->units;
    EQ(c->DeferredSize(), du, "deferred-size"); EQ(c->DeferredEntries(), m.defer.size(), "deferred-entries");
    now = vt::now();
    EQ(c->AgeOfLRUItemInMicroseconds(), m.order.empty() ? 0 : now - m.order.back()->use, "age-of-lru-item");
    R.counters["lru_steps"]++;
    if (vast && !r.chance(3) && st + 1 < steps) continue;
    std::map<string, int> seen;
    for (Cache::const_iterator i = c->begin(); i != c->end(); ++i) {
      if (!live.count(i->second)) { R.viol({"L02", "L01"}, "dead-value", what + ": the cache lists a value that was disposed of"); break; }
      seen[i->first] = i->second->id;
      Ent* e = m.find(i->first);
      if (!e || i.last_use_time() != e->use) { R.viol({"L01"}, "iteration", what + ": iteration shows " + i->first + " with time " + std::to_string(i.last_use_time())); break; }
    }
    if (R.case_bad) break;
    if (seen.size() != m.table.size()) { R.viol({"L01"}, "contents", what + ": contents differ"); break; }
    for (auto& p : m.table) {
      if (!seen.count(p.first) || seen[p.first] != p.second->id) { R.viol({"L01"}, "contents", what + ": " + p.first + " differs"); break; }
      int64_t t = m.lru ? c->GetLastUseTime(p.first) : c->GetInsertionTime(p.first);
      if (t != p.second->use) { R.viol({"L01"}, "use-time", what + ": time of " + p.first); break; }
      if (!c->StillInUse(p.first) || !c->StillInUse(p.first, p.second->v)) { R.viol({"L01"}, "still-in-use", what); break; }
    }
    for (auto e : m.defer) if (!c->StillInUse(e->key, e->v)) { R.viol({"L01"}, "still-in-use-deferred", what); break; }
    for (int k = 0; k < nkeys && !R.case_bad; k++) {
      string kk = "k" + std::to_string(k); bool in = m.find(kk) != nullptr; for (auto e : m.defer) if (e->key == kk) in = true;
      if (c->StillInUse(kk) != in) R.viol({"L01"}, "still-in-use", what + ": " + kk);
    }
    if (r.chance(2)) { string s; c->DebugOutput(&s); if (c->Summary().empty() || s.empty()) R.viol({"L01"}, "debug", "no summary"); }
  }
  if (!R.case_bad) {
    for (auto& p : pins) {
      if (!live.count(p.v) || p.v->id != p.id) { R.viol({"L02"}, "pinned-deleted", "a pinned value was disposed of"); break; } if (!c->StillInUse(p.k, p.v)) { R.viol({"L02"}, "pinned-forgotten", "the cache no longer knows a value that is still in use: " + p.k); break; } m.release(p.k, p.v, vt::now(), true); c->Release(p.k, p.v);
    }
    if (R.case_bad) return;
    c->Clear(); delete c;
    if (!live.empty() && !R.case_bad) R.viol({"L02"}, "not-disposed", std::to_string(live.size()) + " values were never handed to the deleter");
    if ((int)gone.size() != nid && !R.case_bad) R.viol({"L02"}, "count", "deleter calls differ from values given");
    R.counters["lru_values"] += nid; if (big) R.counters["lru_big"]++; R.counters["lru_evictions"] += evict; R.counters["lru_expiries"] += expired; R.counters["lru_deferred"] += deferred;
    if ((A.prop == "L02" ? deferred : evict || expired)) { R.nontrivial++; R.distinct.insert(tr); if (R.samples.size() < 2) R.samples.push_back(text); }
  }
}
}  // namespace lru

// ------------------------------------------------------------- distributions
namespace dist {
typedef long double LD;
struct Lay { int kind; int n; double a, b; std::vector<double> bounds; };
static Lay layout(Rng& r) {
  Lay l; l.kind = r.below(3); l.n = 1 + r.below(r.chance(80) ? 6 : 60); l.a = l.b = 0;
  if (l.kind == 0) { l.a = r.chance(50) ? 2 : r.chance(50) ? 0.1 : 1e-3 * (1 + r.below(100000)); l.b = r.chance(40) ? 0 : r.chance(50) ? -5 : 0.37 * r.range(-50, 50); if (r.chance(4)) { l.a = 1e300; l.b = -1e300; } if (r.chance(4)) l.a = 1e-300; if (r.chance(8)) l.b = r.chance(50) ? 1e6 : -1e7; }
  if (l.kind == 1) { l.a = r.chance(40) ? 2 : 1 + (1 + r.below(900)) / 100.0; l.b = r.chance(40) ? 1 : r.chance(50) ? 0.001 * (1 + r.below(5000)) : 1e-9; if (r.chance(4)) l.b = 5e-324; if (r.chance(4)) l.a = 1e300; }
  if (l.kind == 2) { int n = r.chance(10) ? 0 : 1 + r.below(r.chance(85) ? 6 : 90); double x = r.range(-20, 20); if (r.chance(10)) x += 1e7; for (int i = 0; i < n; i++) { l.bounds.push_back(x); x += r.chance(70) ? 1 + r.below(5) : 0.001 * (1 + r.below(1000)); } if (r.chance(5) && n) l.bounds.back() = HUGE_VAL; l.n = n; }
  return l;
}
static Status init(const Lay& l, sc::Distribution* d) {
  if (l.kind == 0) return scc::DistributionHelper::InitLinear(l.n, l.a, l.b, d);
  if (l.kind == 1) return scc::DistributionHelper::InitExponential(l.n, l.a, l.b, d);
  return scc::DistributionHelper::InitExplicit(l.bounds, d);
}
static int buckets(const Lay& l) { return l.kind == 2 ? (int)l.bounds.size() + 1 : l.n + 2; }
// Lower bound of bucket i, 1 <= i.
static LD lower(const Lay& l, int i) {
  if (l.kind == 0) return (LD)l.b + (LD)l.a * (i - 1);
  if (l.kind == 1) return (LD)l.b * powl((LD)l.a, i - 1);
  return l.bounds[i - 1];
}
// The range of buckets that may hold x: two of them within rounding of a bound.
static void where(const Lay& l, double x, int* lo, int* hi) {
  int b = 0, nb = buckets(l);
  for (int i = 1; i < nb; i++) if ((LD)x >= lower(l, i)) b = i; else break;
  *lo = *hi = b;
  if (l.kind == 2) return;
  bool exact = (l.kind == 0 && l.a == 2 && l.b == floor(l.b)) || (l.kind == 1 && l.a == 2 && l.b == 1);
  for (int i = 1; i < nb; i++) {
    LD bd = lower(l, i); LD tol = fabsl(bd) * 1e-12L + (l.kind == 0 ? fabsl((LD)l.b) * 1e-12L : 0);
    if (fabsl((LD)x - bd) > tol) continue;
    if (exact && (LD)x == bd) continue;                       // a value on an exact bound has one bucket
    if (i == 1 && !(l.kind == 1 && false)) { if ((LD)x == bd) continue; }   // the first bound is compared, not computed
    *lo = std::min(*lo, i - 1); *hi = std::max(*hi, i);
  }
  // A sample that overflows when divided by the scale counts as beyond the range.
  if (l.kind == 1 && std::isinf(x / l.b) && x > 0) *hi = nb - 1;
}
static double sample(Rng& r, const Lay& l) {
  int nb = buckets(l); double x;
  int how = r.below(10);
  if (how < 5 && nb > 1) {
    int i = 1 + r.below(nb - 1); x = (double)lower(l, i);
    int d = r.below(5); if (d == 0) x = nextafter(x, -HUGE_VAL); if (d == 1) x = nextafter(x, HUGE_VAL);
    if (d >= 3 && std::isfinite(x)) x += (d == 3 ? -1 : 1) * std::max(fabs(x), l.kind == 1 ? 0.0 : fabs(l.b)) * pow(10, -(double)(2 + r.below(10)));
  } else if (how < 9) {
    if (nb > 1) { LD a = lower(l, 1), b = lower(l, nb - 1); LD w = b - a + 1; x = (double)(a - w / 4 + w * 1.5L * (LD)r.below(1000001) / 1000000); }
    else x = r.range(-100, 100);
    if (r.chance(30)) x = floor(x);
  } else x = r.pick(std::vector<double>{0, -0.0, 1e9, -1e9, 1e300, -1e300, 5e-324, 1.7e308, HUGE_VAL, -HUGE_VAL, 2147483647.0, 2147483648.0, 1e19});
  return x;
}
struct Mom { int64_t n = 0; LD sum = 0, mx = -HUGE_VALL, mn = HUGE_VALL, amax = 0; std::vector<std::pair<double, int64_t>> xs; bool wild = false, nan = false;
  void add(double x, int64_t times = 1) { n += times; if (std::isnan(x)) nan = wild = true; xs.push_back({x, times}); mx = std::max(mx, (LD)x); mn = std::min(mn, (LD)x); amax = std::max(amax, fabsl((LD)x)); if (!std::isfinite(x) || fabs(x) > 1e120) wild = true; }
  LD mean() const { LD s = 0; for (auto& x : xs) s += (LD)x.first * x.second; return s / n; }
  LD ssd() const { LD m = mean(), s = 0; for (auto& x : xs) s += ((LD)x.first - m) * ((LD)x.first - m) * x.second; return s; } };
static bool same_stats(const sc::Distribution& d, const Mom& m, string* why) {
  if (d.count() != m.n) { *why = "count " + std::to_string(d.count()) + ", should be " + std::to_string(m.n); return false; }
  if (!m.n || m.nan) return true;
  if ((LD)d.minimum() != m.mn) { *why = "minimum " + std::to_string(d.minimum()); return false; }
  if ((LD)d.maximum() != m.mx) { *why = "maximum " + std::to_string(d.maximum()); return false; }
  if (m.wild) return true;
  if (fabsl(d.mean() - m.mean()) > 1e-9L * m.amax + 1e-300L) { *why = "mean " + std::to_string(d.mean()) + ", should be " + std::to_string((double)m.mean()); return false; }
  // The error of a stable summation: relative to the deviations, not to the values.
  LD ssd = m.ssd(), k = m.xs.size(), eps = 2.3e-16L;
  if (fabsl(d.sum_of_squared_deviation() - ssd) > 1e-9L * ssd + 64 * k * eps * m.amax * sqrtl(m.n * ssd) + 64 * 64 * k * k * eps * eps * m.n * m.amax * m.amax + 1e-300L) { *why = "sum of squared deviation " + std::to_string(d.sum_of_squared_deviation()) + ", should be " + std::to_string((double)m.ssd()); return false; }
  return true;
}
static string desc(const Lay& l) { char b[200]; snprintf(b, 200, "%s n=%d a=%.17g b=%.17g", l.kind == 0 ? "linear" : l.kind == 1 ? "exponential" : "explicit", l.n, l.a, l.b); string s = b; for (double x : l.bounds) s += " " + std::to_string(x); return s; }
static string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }

static void invalid(Rng& r) {
  sc::Distribution d; 
  bool filled = r.chance(50);
  if (filled) { Lay l = layout(r); (void)init(l, &d); d.set_count(0); }
  sc::Distribution before(d); Status s; string what;
  switch (r.below(9)) {
    case 0: { int n = -(int)r.below(5); s = scc::DistributionHelper::InitLinear(n, 1, 0, &d); what = "linear with " + std::to_string(n) + " buckets"; break; }
    case 1: { double w = -(double)r.below(3) / 2; s = scc::DistributionHelper::InitLinear(3, w, 0, &d); what = "linear of width " + num(w); break; }
    case 2: { int n = -(int)r.below(5); s = scc::DistributionHelper::InitExponential(n, 2, 1, &d); what = "exponential with " + std::to_string(n) + " buckets"; break; }
    case 3: { double g = 1 - (double)r.below(3) / 2; s = scc::DistributionHelper::InitExponential(3, g, 1, &d); what = "exponential with growth " + num(g); break; }
    case 4: { double c = -(double)r.below(3) / 2; s = scc::DistributionHelper::InitExponential(3, 2, c, &d); what = "exponential with scale " + num(c); break; }
    case 5: { std::vector<double> b{1, 2, 3}; int i = r.below(2); std::swap(b[i], b[i + 1]); s = scc::DistributionHelper::InitExplicit(b, &d); what = "explicit bounds out of order"; break; }
    case 6: { std::vector<double> b{1, 2, 3, 4}; int i = r.below(3); b[i + 1] = b[i]; s = scc::DistributionHelper::InitExplicit(b, &d); what = "explicit bounds repeated"; break; }
    default: { d.Clear(); if (r.chance(50)) d.set_count(r.below(3)); before = d; s = scc::DistributionHelper::AddSample(1.5, &d); what = "a sample for no layout"; }
  }
  R.counters["invalid_layouts"]++;
  if (s.ok()) R.viol({"H01"}, "invalid-accepted", what + " was accepted");
  else if (s.code() != StatusCode::kInvalidArgument) R.viol({"H01"}, "invalid-status", what + ": " + s.ToString());
  else if (det(before) != det(d)) R.viol({"H01"}, "invalid-changed", what + " changed the distribution");
}
// Gives d the statistics of many samples of one value.
static void prefill(Rng& r, sc::Distribution* d, Mom* m) {
  int64_t times = r.pick(std::vector<int64_t>{2, 1000, 70000, 2147483647, 2147483648, 4294967296, 3000000000000});
  double x = r.range(-30, 30) / 4.0;
  d->set_count(times); d->set_mean(x); d->set_minimum(x); d->set_maximum(x); d->set_sum_of_squared_deviation(0);
  d->set_bucket_counts(r.below(d->bucket_counts_size()), times);
  m->add(x, times);
  R.counters["large_counts"]++;
}
static void run_add(uint64_t cs) {
  Rng r(cs);
  if (r.chance(10)) { invalid(r); return; }
  Lay l = layout(r);
  sc::Distribution d; Status s = init(l, &d);
  if (!s.ok()) { R.viol({"H01"}, "layout-rejected", desc(l) + ": " + s.ToString()); return; }
  if (d.bucket_counts_size() != buckets(l)) { R.viol({"H01"}, "buckets", desc(l) + " has " + std::to_string(d.bucket_counts_size()) + " buckets"); return; }
  Mom m; int n = 1 + r.below(r.chance(90) ? 12 : 200); string text = desc(l) + " samples";
  uint64_t tr = hash_str(desc(l)); bool edge = false;
  if (r.chance(5)) prefill(r, &d, &m);
  for (int i = 0; i < n; i++) {
    double x = sample(r, l);
    sc::Distribution b(d);
    s = scc::DistributionHelper::AddSample(x, &d);
    m.add(x); text += " " + num(x); tr = mix(tr, hash_str(num(x)));
    R.counters["samples_added"]++;
    if (!s.ok()) { R.viol({"H01"}, "sample-rejected", text + ": " + s.ToString()); return; }
    int lo, hi; where(l, x, &lo, &hi); if (lo != hi) R.counters["samples_near_a_bound"]++; else edge = true;
    int hit = -1;
    if (d.bucket_counts_size() != buckets(l)) { R.viol({"H01"}, "buckets-changed", text); return; }
    for (int k = 0; k < d.bucket_counts_size(); k++) {
      int64_t df = d.bucket_counts(k) - b.bucket_counts(k);
      if (df == 0) continue;
      if (df != 1 || hit >= 0) { R.viol({"H01"}, "bucket-counts", text + ": bucket " + std::to_string(k) + " changed by " + std::to_string(df)); return; }
      hit = k;
    }
    if (hit < lo || hit > hi) { R.viol({"H01"}, "wrong-bucket", text + ": sample in bucket " + std::to_string(hit) + ", should be " + std::to_string(lo)); return; }
    string why;
    if (!same_stats(d, m, &why)) { R.viol({"H01"}, "statistics", text + ": " + why); return; }
  }
  // The layout is as it was.
  sc::Distribution e; init(l, &e);
  sc::Distribution f(d); f.clear_count(); f.clear_mean(); f.clear_minimum(); f.clear_maximum(); f.clear_sum_of_squared_deviation(); f.clear_bucket_counts(); e.clear_bucket_counts();
  if (det(e) != det(f)) R.viol({"H01"}, "layout-changed", text);
  if (edge) { R.nontrivial++; R.distinct.insert(tr); if (R.samples.size() < 2) R.samples.push_back(text.substr(0, 400)); }
}
static void run_merge(uint64_t cs) {
  Rng r(cs);
  Lay l = layout(r); int k = 2 + r.below(4);
  if (l.kind == 0 && (l.a > 1e100 || l.a < 1e-100)) l.a = 2;
  if (r.chance(25)) {
    // Different layouts: no merge, no change.
    Lay l2 = l; int how = r.below(4); string what;
    sc::Distribution a, b;
    if (how == 0) { l2.kind = (l.kind + 1 + r.below(2)) % 3; l2.n = l.kind == 2 ? std::max(1, l.n) : l.n; l2.a = 2; l2.b = 1; l2.bounds.clear(); if (l2.kind == 2) for (int i = 0; i < l2.n + 1; i++) l2.bounds.push_back(i); what = "kind"; }
    else if (how == 1) { if (l.kind == 2) l2.bounds.push_back(l.bounds.empty() ? 1 : std::isfinite(l.bounds.back()) ? l.bounds.back() + 1 : 0); else l2.n++; what = "number of buckets"; if (l.kind == 2 && !std::is_sorted(l2.bounds.begin(), l2.bounds.end())) return; }
    else if (how == 2) { if (l.kind == 2) { if (l.bounds.empty() || !std::isfinite(l.bounds.back())) return; l2.bounds.back() = l.bounds.back() + 1 + fabs(l.bounds.back()) / 100; } else l2.a = l.a * 1.01; what = "width, growth or last bound"; }
    else { if (l.kind == 2) { if (l.bounds.empty() || !std::isfinite(l.bounds[0])) return; l2.bounds[0] = l.bounds[0] - 1 - fabs(l.bounds[0]) / 100; } else l2.b = l.b * 1.01 + (l.kind == 0 ? 1 : 0); if (l2.b == l.b && l.kind != 2) return; what = "offset, scale or first bound"; }
    if (!init(l, &a).ok() || !init(l2, &b).ok()) return;
    int na = r.below(4), nb = r.below(4);
    for (int i = 0; i < na; i++) scc::DistributionHelper::AddSample(sample(r, l), &a);
    for (int i = 0; i < nb; i++) scc::DistributionHelper::AddSample(sample(r, l2), &b);
    string a0 = det(a), b0 = det(b);
    Status s = scc::DistributionHelper::Merge(a, &b);
    R.counters["mismatches"]++;
    if (s.ok()) R.viol({"H02"}, "mismatch-merged", "layouts that differ in " + what + " were merged: " + desc(l) + " and " + desc(l2));
    else if (det(a) != a0 || det(b) != b0) R.viol({"H02"}, "mismatch-changed", "a failed merge changed a distribution");
    R.nontrivial++; R.distinct.insert(mix(hash_str(a0), hash_str(b0)));
    return;
  }
  std::vector<sc::Distribution> ds(k); Mom all; std::vector<int64_t> bc(buckets(l), 0);
  bool wildcount = r.chance(5);
  string text = desc(l) + ":"; uint64_t tr = hash_str(text);
  __int128 total = 0;
  for (auto& d : ds) {
    if (!init(l, &d).ok()) return;
    if (r.chance(10) && l.kind == 0) d.mutable_linear_buckets()->set_width(l.a * (1 + 1e-8));
    if (!wildcount && r.chance(5)) prefill(r, &d, &all);
    int n = r.chance(25) ? 0 : 1 + r.below(10);
    for (int i = 0; i < n; i++) {
      double x = sample(r, l); if (!std::isfinite(x) || fabs(x) > 1e100) x = r.range(-5, 5);
      scc::DistributionHelper::AddSample(x, &d); all.add(x); tr = mix(tr, hash_str(num(x)));
    }
    if (wildcount && n) { int64_t c = INT64_MAX - r.below(3); d.set_count(c); d.set_bucket_counts(r.below(buckets(l)), c); }
    total += d.count();
    for (int i = 0; i < buckets(l); i++) bc[i] = sat_add(bc[i], d.bucket_counts(i));
    text += " " + std::to_string(n);
  }
  // Merge into the first, or into an empty one, in a random order, sometimes as a tree.
  std::vector<sc::Distribution> work(ds);
  while (work.size() > 1) {
    size_t i = r.below(work.size()), j = r.below(work.size() - 1); if (j >= i) j++;
    string f0 = det(work[i]);
    Status s = scc::DistributionHelper::Merge(work[i], &work[j]);
    R.counters["merges"]++;
    if (!s.ok()) { R.viol({"H02"}, "merge-failed", text + ": " + s.ToString()); return; }
    if (det(work[i]) != f0) { R.viol({"H02"}, "from-changed", text); return; }
    work.erase(work.begin() + i);
  }
  sc::Distribution& d = work[0]; string why;
  if (wildcount) {
    int64_t want = total > INT64_MAX ? INT64_MAX : (int64_t)total;
    if (d.count() != want) R.viol({"H02"}, "count", text + ": count " + std::to_string(d.count()));
  } else if (!same_stats(d, all, &why)) { R.viol({"H02"}, "merge-statistics", text + ": " + why); return; }
  if (d.bucket_counts_size() != buckets(l)) { R.viol({"H02"}, "buckets-changed", text); return; }
  for (int i = 0; i < buckets(l); i++) if (d.bucket_counts(i) != bc[i]) { R.viol({"H02"}, "merge-buckets", text + ": bucket " + std::to_string(i) + " is " + std::to_string(d.bucket_counts(i)) + ", should be " + std::to_string(bc[i])); return; }
  if (all.n > 1) { R.nontrivial++; R.distinct.insert(tr); if (R.samples.size() < 2) R.samples.push_back(text.substr(0, 400)); }
}
}  // namespace dist

// --------------------------------------------------------------------- money
namespace money {
using google::type::Money;
static const int64_t B = 1000000000;
static Money make(Rng& r, bool valid) {
  Money m; m.set_currency_code(r.chance(90) ? "USD" : "EUR");
  static const int64_t us[] = {0, 1, -1, 2, -2, 5, -5, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, INT64_MAX / 2, INT64_MAX / 2 + 1, INT64_MIN / 2, INT64_MIN / 2 - 1};
  static const int ns[] = {0, 1, -1, 5, -5, 500000000, -500000000, 999999999, -999999999, 999999998, -999999998, 499999999, 500000001};
  m.set_units(r.chance(70) ? us[r.below(15)] : r.chance(50) ? r.range(-1000, 1000) : (int64_t)r.next());
  m.set_nanos(r.chance(70) ? ns[r.below(13)] : (int)r.range(-999999999, 999999999));
  if (valid) { if ((m.units() > 0 && m.nanos() < 0) || (m.units() < 0 && m.nanos() > 0)) m.set_nanos(-m.nanos()); return m; }
  switch (r.below(6)) {
    case 0: m.set_currency_code(r.pick(std::vector<string>{"", "U", "US", "USDD", string("US\0", 3), "\xc3\xa9s"})); break;
    case 1: m.set_nanos(r.pick(std::vector<int>{1000000000, -1000000000, INT32_MAX, INT32_MIN, 1000000001})); break;
    case 2: m.set_units(1); m.set_nanos(-1); break;
    case 3: m.set_units(-1); m.set_nanos(1); break;
    case 4: m.set_units(r.chance(50) ? INT64_MIN : INT64_MAX); m.set_nanos(m.units() < 0 ? 1 : -1); break;
    default: break;
  }
  return m;
}
static __int128 val(const Money& m) { return (__int128)m.units() * B + m.nanos(); }
static string str(const Money& m) { return m.currency_code() + " " + std::to_string(m.units()) + "." + std::to_string(m.nanos()); }
static bool valid(const Money& m) {
  return m.currency_code().size() == 3 && m.nanos() > -B && m.nanos() < B && !(m.units() > 0 && m.nanos() < 0) && !(m.units() < 0 && m.nanos() > 0);
}
static void run(uint64_t cs) {
  Rng r(cs);
  for (int i = 0; i < 40 && !R.case_bad; i++) {
    Money v = make(r, r.chance(50));
    Status s = scc::ValidateMoney(v);
    R.counters["validations"]++;
    if (s.ok() != valid(v)) { R.viol({"M01"}, "validate", str(v) + (s.ok() ? " was accepted" : " was rejected: " + s.ToString())); return; }
    if (!s.ok() && s.code() != StatusCode::kInvalidArgument) { R.viol({"M01"}, "validate-status", s.ToString()); return; }
    if (!s.ok()) R.counters["invalid_amounts"]++;
    else if (scc::GetAmountSign(v) != (val(v) > 0) - (val(v) < 0)) { R.viol({"M01"}, "sign", str(v) + " has sign " + std::to_string(scc::GetAmountSign(v))); return; }
    Money a = make(r, true), b = make(r, true), sum;
    // Often b is close to what just does or does not overflow, or cancels a.
    if (r.chance(30)) {
      __int128 lim = a.units() >= 0 ? (__int128)INT64_MAX * B + B - 1 : (__int128)INT64_MIN * B - (B - 1);
      __int128 d = (r.chance(50) ? lim : 0) - val(a) + (r.chance(50) ? 0 : r.range(-2, 2) * (r.chance(50) ? 1 : B));
      __int128 u = d / B; int n = (int)(d % B);
      if (u >= INT64_MIN && u <= INT64_MAX) { b = a; b.set_units((int64_t)u); b.set_nanos(n); }
    }
    if (r.chance(30)) { sum.set_currency_code("XXX"); sum.set_units(77); sum.set_nanos(-7); }
    string a0 = det(a), b0 = det(b);
    s = scc::TryAddMoney(a, b, &sum);
    string what = str(a) + " + " + str(b) + " = " + str(sum) + " (" + s.ToString() + ")";
    R.counters["additions"]++;
    if (det(a) != a0 || det(b) != b0) { R.viol({"M01"}, "argument-changed", what); return; }
    R.distinct.insert(mix(hash_str(a0), hash_str(b0))); R.nontrivial++;
    if (R.samples.size() < 3) R.samples.push_back(what);
    if (a.currency_code() != b.currency_code()) {
      R.counters["currencies_differ"]++;
      if (s.code() != StatusCode::kInvalidArgument || !sum.currency_code().empty() || sum.units() || sum.nanos()) R.viol({"M01"}, "currency", what);
      continue;
    }
    __int128 t = val(a) + val(b), hi = (__int128)INT64_MAX * B + B - 1, lo = (__int128)INT64_MIN * B - (B - 1);
    Money want; want.set_currency_code(a.currency_code());
    if (t > hi || t < lo) {
      R.counters["overflows"]++;
      want.set_units(t > 0 ? INT64_MAX : INT64_MIN); want.set_nanos(t > 0 ? B - 1 : -(B - 1));
      if (s.code() != StatusCode::kOutOfRange) { R.viol({"M01"}, "overflow-missed", what); return; }
    } else {
      want.set_units((int64_t)(t / B)); want.set_nanos((int)(t % B));
      if (!s.ok()) { R.viol({"M01"}, "false-overflow", what); return; }
    }
    if (det(want) != det(sum)) { R.viol({"M01"}, "sum", what + ", should be " + str(want)); return; }
    Money sat = scc::SaturatedAddMoney(a, b);
    // The sum may be one of its arguments.
    Money x = a, y = b; Status sx = scc::TryAddMoney(x, b, &x), sy = scc::TryAddMoney(a, y, &y);
    R.counters["sums_into_arguments"] += 2;
    if (det(x) != det(sum) || sx.code() != s.code()) { R.viol({"M01"}, "sum-into-first", what + ", but into its first argument " + str(x) + " (" + sx.ToString() + ")"); return; }
    if (det(y) != det(sum) || sy.code() != s.code()) { R.viol({"M01"}, "sum-into-second", what + ", but into its second argument " + str(y) + " (" + sy.ToString() + ")"); return; }
    if (det(want) != det(sat)) { R.viol({"M01"}, "saturated", what + " saturated to " + str(sat)); return; }
  }
}
}  // namespace money

// ----------------------------------------------------------------------- MD5
namespace md5 {
static string md5_ref(const string& in) {
  static const uint32_t K[64] = {
    0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
    0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
    0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
    0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
  static const int S[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  string m = in; uint64_t bits = (uint64_t)in.size() * 8; m += (char)0x80; while (m.size() % 64 != 56) m += (char)0;
  for (int i = 0; i < 8; i++) m += (char)(bits >> (8 * i));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 3; j >= 0; j--) w[i] = w[i] << 8 | (unsigned char)m[o + i * 4 + j]; }
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
      uint32_t t = d; d = c; c = b; uint32_t x = a + f + K[i] + w[g]; b = b + (x << S[i] | x >> (32 - S[i])); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  string o; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o += (char)(h[i] >> (8 * j));
  return o;
}
static void run(uint64_t cs) {
  Rng r(cs);
  int n = r.chance(60) ? r.below(140) : r.chance(80) ? 50 + r.below(30) : r.below(5000);
  string data; 
  scc::MD5 h; int parts = 0; string text;
  while ((int)data.size() < n || parts == 0) {
    int k = r.chance(10) ? 0 : 1 + r.below(r.chance(70) ? 20 : 200);
    string p; for (int i = 0; i < k; i++) p += r.chance(20) ? (char)0 : (char)r.below(256);
    int how = r.below(4);
    if (how == 0) { h.Update(p.data(), p.size()); data += p; }
    else if (how == 1) { h.Update(p); data += p; }
    else if (how == 2) { string z; for (char c : p) if (c) z += c; h.Update(z.c_str()); data += z; }
    else { int d = (int)r.next(); h.Update(d); data.append((char*)&d, sizeof d); }
    parts++;
    if (text.size() < 200) text += std::to_string(p.size()) + "/" + std::to_string(how) + " ";
    if (r.chance(5)) break;
  }
  string want = md5_ref(data), got = h.Digest(), again = h.Digest();
  R.counters["digests"]++; R.counters["bytes"] += data.size();
  if (got.size() != 16) R.viol({"G02"}, "length", "digest of " + std::to_string(got.size()) + " bytes");
  else if (got != want) R.viol({"G02"}, "digest", "wrong digest of " + std::to_string(data.size()) + " bytes in " + std::to_string(parts) + " parts");
  else if (again != got) R.viol({"G02"}, "digest-again", "the digest changed when read again");
  else {
    string hex; for (unsigned char c : want) { char b[3]; snprintf(b, 3, "%02x", c); hex += b; }
    if (scc::MD5::DebugString(got) != hex) R.viol({"G02"}, "hex", "printed as " + scc::MD5::DebugString(got) + ", should be " + hex);
    if (scc::MD5()(data.data(), data.size()) != want) R.viol({"G02"}, "short-form", "the short form differs");
    scc::MD5 c1; c1.Update(data.substr(0, data.size() / 2)); scc::MD5 c2(c1); c1.Update(data.substr(data.size() / 2)); c2.Update("x");
    if (c1.Digest() != want || c2.Digest() != md5_ref(data.substr(0, data.size() / 2) + "x")) R.viol({"G02"}, "copy", "copies of a digest in progress are not independent");
  }
  if (parts > 1) { R.nontrivial++; R.distinct.insert(hash_str(data)); if (R.samples.size() < 2) R.samples.push_back(std::to_string(data.size()) + " bytes in parts (size/way) " + text); }
}
// More than 31 and 32 bits can count, in one part and in several.
static void huge() {
  static const struct { uint64_t n; const char* hex; } big[] = {{2147483651ull, "3f082206ff2ec77183bd3418249b2d85"}, {4294967301ull, "968a8809aa0886d87f385d88733a98d2"}};
  size_t len = big[1].n;
  char* zeros = (char*)mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (zeros == MAP_FAILED) { fprintf(stderr, "VF-FATAL: no memory\n"); _exit(98); }
  for (int how = 0; how < 3 && !R.case_bad; how++) {
    auto& b = big[how > 0];
    scc::MD5 h;
    if (how < 2) h.Update(zeros, b.n);
    else for (uint64_t o = 0; o < b.n;) { uint64_t k = std::min<uint64_t>(b.n - o, 100000007); h.Update(zeros, k); o += k; }
    string d = h.Digest();
    R.counters["digests_huge"]++;
    if (scc::MD5::DebugString(d) != b.hex) R.viol({"G02"}, "huge", std::to_string(b.n) + " zero bytes in " + (how < 2 ? "one part" : "parts") + " digest to " + scc::MD5::DebugString(d));
  }
  munmap(zeros, len);
  R.nontrivial++; R.distinct.insert(1);
}
}  // namespace md5

// ---------------------------------------------------------------- signatures
namespace sig {
static string word(Rng& r) {
  static const char* w[] = {"", "a", "b", "ab", "ba", "abc", "project:p", "project:q", "read", "zone", "A", "\xc3\xa9", "a b", "0"};
  if (r.chance(8)) { string t; int n = r.chance(70) ? 1 + r.below(140) : r.chance(85) ? 1 + r.below(600) : r.chance(90) ? 600 + r.below(8000) : 60000 + r.below(10000); for (int i = 0; i < n; i++) t += (char)('a' + r.below(3)); return t; }
  return w[r.below(14)];
}
// The same text but for one place.
static string tweak(Rng& r, string t) {
  size_t i = t.empty() ? 0 : r.below(t.size());
  for (unsigned char c : t) if (c >= 0x80) return t + "x";
  switch (t.empty() ? 1 : r.below(6)) {
    case 4: { static const char c[] = " \t\n/:.-_%\"\\"; t.insert(r.chance(40) ? t.size() : r.chance(60) ? 0 : i, 1, c[r.below(sizeof c - 1)]); break; }
    case 5: if (t[i] != t.back()) std::swap(t[i], t.back()); else t += ' '; break;
    case 0: t.erase(i, 1); break;
    case 1: t.insert(i, 1, 'q'); break;
    case 2: t = r.chance(50) ? t.substr(0, t.size() - 1) : t + t.back(); break;
    default: t[i] = t[i] == 'Q' ? 'z' : (t[i] >= 'a' && t[i] <= 'z' && r.chance(40)) ? t[i] - 32 : t[i] == '~' ? 'a' : t[i] + 1;
  }
  return t;
}
static void tweak_labels(Rng& r, google::protobuf::Map<string, string>* m) {
  if (m->empty()) return;
  std::map<string, string> l(m->begin(), m->end());
  auto i = l.begin(); std::advance(i, r.below(l.size()));
  string k = i->first, v = i->second;
  if (r.chance(60)) { (*m)[k] = tweak(r, v); return; }
  m->erase(k); (*m)[tweak(r, k)] = v;
}
static void lab(Rng& r, google::protobuf::Map<string, string>* m, int max) { int n = r.below(max + 1); if (r.chance(2)) for (int i = r.below(150); i > 0; i--) (*m)["l" + std::to_string(r.below(1000))] = word(r); for (int i = 0; i < n; i++) (*m)[word(r)] = word(r); }
static void noise(Rng& r, sc::MetricValue* v) { if (r.chance(50)) v->set_int64_value(r.below(9)); else if (r.chance(50)) v->set_double_value(r.below(5)); if (r.chance(30)) v->mutable_start_time()->set_seconds(r.below(5)); if (r.chance(30)) v->mutable_end_time()->set_seconds(r.below(5)); }
static void noise(Rng& r, sc::Operation* o) {
  o->set_operation_id(word(r)); if (r.chance(30)) o->mutable_start_time()->set_seconds(r.below(5)); if (r.chance(30)) o->mutable_end_time()->set_seconds(r.below(5));
  if (r.chance(30)) o->add_log_entries()->set_name(word(r)); o->set_importance(r.chance(50) ? sc::Operation::LOW : sc::Operation::HIGH);
}
static sc::Operation op(Rng& r, bool check) {
  sc::Operation o; o.set_operation_name(word(r)); o.set_consumer_id(word(r)); lab(r, o.mutable_labels(), 3);
  std::set<string> used; int n = r.chance(2) ? r.below(120) : r.below(4);
  for (int i = 0; i < n; i++) { string w = n > 4 ? "m" + std::to_string(i) : word(r); if (!used.insert(w).second) continue; auto* s = o.add_metric_value_sets(); s->set_metric_name(w); int k = r.chance(70) ? 1 : r.chance(95) ? r.below(3) : r.below(r.chance(80) ? 8 : 90); for (int j = 0; j < k; j++) { auto* v = s->add_metric_values(); lab(r, v->mutable_labels(), 2); noise(r, v); } }
  noise(r, &o); (void)check;
  return o;
}
// The same request with its unordered parts in another order and other noise.
static sc::Operation shuffle(Rng& r, const sc::Operation& o, bool metrics) {
  sc::Operation p(o); p.clear_labels(); p.clear_metric_value_sets(); p.clear_log_entries();
  std::vector<std::pair<string, string>> l(o.labels().begin(), o.labels().end());
  for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
  // Extra insertions and erasures change the map's internal layout.
  for (int i = 0; i < 5; i++) (*p.mutable_labels())["tmp" + std::to_string(r.below(50))] = "x";
  for (auto& x : l) (*p.mutable_labels())[x.first] = x.second;
  std::vector<string> rm; for (auto& x : p.labels()) if (!o.labels().count(x.first)) rm.push_back(x.first);
  for (auto& k : rm) p.mutable_labels()->erase(k);
  std::vector<sc::MetricValueSet> s(o.metric_value_sets().begin(), o.metric_value_sets().end());
  for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.below(i)]);
  if (metrics) for (auto& x : s) { for (auto& v : *x.mutable_metric_values()) { v.clear_value(); v.clear_start_time(); v.clear_end_time(); noise(r, &v); } *p.add_metric_value_sets() = x; }
  else if (r.chance(50)) p.add_metric_value_sets()->set_metric_name("other");
  noise(r, &p);
  return p;
}
// Shifts a boundary or changes one identifying field.
static void mutate(Rng& r, sc::Operation* o, bool check) {
  auto shift = [&](string a, string b, string* x, string* y) { string t = a + b; size_t k = r.below(t.size() + 1); *x = t.substr(0, k); *y = t.substr(k); };
  if (r.chance(40)) {
    auto metric = [&] { return o->mutable_metric_value_sets(r.below(o->metric_value_sets_size())); };
    switch (r.below(check && o->metric_value_sets_size() ? 5 : 3)) {
      case 0: o->set_operation_name(tweak(r, o->operation_name())); break;
      case 1: o->set_consumer_id(tweak(r, o->consumer_id())); break;
      case 2: tweak_labels(r, o->mutable_labels()); break;
      case 3: { auto* s = metric(); string w = tweak(r, s->metric_name()); for (auto& x : o->metric_value_sets()) if (x.metric_name() == w) return; s->set_metric_name(w); break; }
      case 4: { auto* s = metric(); if (s->metric_values_size()) tweak_labels(r, s->mutable_metric_values(r.below(s->metric_values_size()))->mutable_labels()); break; }
    }
    return;
  }
  switch (r.below(check ? 9 : 5)) {
    case 0: o->set_operation_name(word(r)); break;
    case 1: o->set_consumer_id(word(r)); break;
    case 2: { string a, b; shift(o->operation_name(), o->consumer_id(), &a, &b); o->set_operation_name(a); o->set_consumer_id(b); break; }
    case 3: { if (!o->labels().empty() && r.chance(60)) { auto i = o->mutable_labels()->begin(); string k = i->first, v = i->second, a, b; shift(k, v, &a, &b); o->mutable_labels()->erase(k); (*o->mutable_labels())[a] = b; } else if (!o->labels().empty()) { string k = o->labels().begin()->first; o->mutable_labels()->erase(k); } else (*o->mutable_labels())[word(r)] = word(r); break; }
    case 4: { (*o->mutable_labels())[word(r)] = word(r); break; }
    case 5: { auto* s = o->add_metric_value_sets(); string w = "m" + word(r); for (auto& x : o->metric_value_sets()) if (x.metric_name() == w) w += "1"; s->set_metric_name(w); break; }
    case 6: { if (o->metric_value_sets_size()) o->mutable_metric_value_sets()->RemoveLast(); break; }
    case 7: { if (o->metric_value_sets_size()) { auto* s = o->mutable_metric_value_sets(r.below(o->metric_value_sets_size())); string w = s->metric_name() + "x"; for (auto& x : o->metric_value_sets()) if (x.metric_name() == w) return; s->set_metric_name(w); } break; }
    case 8: { if (o->metric_value_sets_size()) { auto* s = o->mutable_metric_value_sets(r.below(o->metric_value_sets_size())); auto* v = s->metric_values_size() ? s->mutable_metric_values(0) : s->add_metric_values(); if (r.chance(70)) (*v->mutable_labels())[word(r)] = word(r); else v->clear_labels(); } break; }
  }
}
// The tokens that identify a request, joined in canonical order. Requests that
// differ but join to the same text are the recorded finding (see below).
static string flat_labels(const google::protobuf::Map<string, string>& l) { std::map<string, string> m(l.begin(), l.end()); string s; for (auto& p : m) { s += '\0'; s += p.first; s += '\0'; s += p.second; } return s; }
static string flat_check(const sc::Operation& o) {
  string s = o.operation_name() + '\0' + o.consumer_id() + '\0' + flat_labels(o.labels());
  std::map<string, const sc::MetricValueSet*> m; for (auto& x : o.metric_value_sets()) m[x.metric_name()] = &x;
  for (auto& p : m) { s += '\0'; s += p.first; for (auto& v : p.second->metric_values()) s += flat_labels(v.labels()); }
  return s;
}
static string csig(const sc::Operation& o) { sc::CheckRequest q; q.set_service_name("s"); *q.mutable_operation() = o; return scc::GenerateCheckRequestSignature(q); }
static string qsig(const sc::QuotaOperation& o) { sc::AllocateQuotaRequest q; q.set_service_name("s"); *q.mutable_allocate_operation() = o; return scc::GenerateAllocateQuotaRequestSignature(q); }
static sc::QuotaOperation qop(Rng& r) {
  sc::QuotaOperation o; o.set_method_name(word(r)); o.set_consumer_id(word(r)); o.set_operation_id(word(r)); lab(r, o.mutable_labels(), 2);
  int n = r.chance(2) ? r.below(120) : r.below(4); for (int i = 0; i < n; i++) { auto* s = o.add_quota_metrics(); s->set_metric_name(word(r)); int k = r.below(3); for (int j = 0; j < k; j++) { auto* v = s->add_metric_values(); lab(r, v->mutable_labels(), 1); noise(r, v); } }
  o.set_quota_mode(r.chance(50) ? sc::QuotaOperation::NORMAL : sc::QuotaOperation::BEST_EFFORT);
  return o;
}
static void cmp(const char* what, bool same, const string& a, const string& b, const string& da, const string& db) {
  R.counters[same ? "pairs_same" : "pairs_different"]++;
  if (same && a != b) R.viol({"G01"}, string(what) + "-unstable", "one request, two signatures: " + da + " | " + db);
  if (!same && a == b) R.viol({"G01"}, string(what) + "-collision", "two requests, one signature: " + da + " | " + db);
  if (a.empty()) R.viol({"G01"}, string(what) + "-empty", "empty signature: " + da);
}
static void run(uint64_t cs) {
  Rng r(cs);
  for (int i = 0; i < 12 && !R.case_bad; i++) {
    { // report operations
      sc::Operation a = op(r, false), b = r.chance(40) ? shuffle(r, a, false) : a; if (r.chance(60)) mutate(r, &b, false);
      cmp("report", report_identity(a) == report_identity(b), scc::GenerateReportOperationSignature(a), scc::GenerateReportOperationSignature(b), shortpb(a), shortpb(b));
      R.distinct.insert(hash_str(det(a) + det(b)));
    }
    { // metric values
      sc::MetricValue a, b; lab(r, a.mutable_labels(), 3); noise(r, &a); b = a; if (r.chance(30)) tweak_labels(r, b.mutable_labels()); else if (r.chance(40)) { b.clear_labels(); lab(r, b.mutable_labels(), 3); } b.clear_value(); noise(r, &b);
      cmp("value", labels_key(a.labels()) == labels_key(b.labels()), scc::GenerateReportMetricValueSignature(a), scc::GenerateReportMetricValueSignature(b), shortpb(a), shortpb(b));
      R.distinct.insert(hash_str(det(a) + det(b)));
    }
    { // checks
      sc::Operation a = op(r, true), b = r.chance(40) ? shuffle(r, a, true) : a; if (r.chance(60)) mutate(r, &b, true);
      bool same = check_identity(a) == check_identity(b);
      if (!same && flat_check(a) == flat_check(b)) { R.counters["pairs_of_the_known_finding"]++; }
      else cmp("check", same, csig(a), csig(b), shortpb(a), shortpb(b));
      R.distinct.insert(hash_str(det(a) + det(b)));
    }
    { // quota
      sc::QuotaOperation a = qop(r), b = a;
      if (r.chance(50)) { std::vector<sc::MetricValueSet> s(a.quota_metrics().begin(), a.quota_metrics().end()); for (size_t k = s.size(); k > 1; k--) std::swap(s[k - 1], s[r.below(k)]); b.clear_quota_metrics(); for (auto& x : s) { if (r.chance(30)) x.clear_metric_values(); *b.add_quota_metrics() = x; if (r.chance(10)) *b.add_quota_metrics() = x; } b.clear_labels(); b.set_operation_id("z"); b.set_quota_mode(sc::QuotaOperation::CHECK_ONLY); }
      if (r.chance(60)) switch (r.below(8)) {
        case 0: b.set_method_name(word(r)); break; case 1: b.set_consumer_id(word(r)); break;
        case 2: { string t = b.method_name() + b.consumer_id(); size_t k = r.below(t.size() + 1); b.set_method_name(t.substr(0, k)); b.set_consumer_id(t.substr(k)); break; }
        case 3: b.add_quota_metrics()->set_metric_name(word(r)); break;
        case 5: b.set_method_name(tweak(r, b.method_name())); break; case 6: b.set_consumer_id(tweak(r, b.consumer_id())); break;
        case 7: if (b.quota_metrics_size()) { auto* s = b.mutable_quota_metrics(r.below(b.quota_metrics_size())); s->set_metric_name(tweak(r, s->metric_name())); } break;
        case 4: if (b.quota_metrics_size()) { auto* s = b.mutable_quota_metrics(0); s->set_metric_name(s->metric_name() + word(r)); } break;
      }
      cmp("quota", quota_identity(a) == quota_identity(b), qsig(a), qsig(b), shortpb(a), shortpb(b));
      R.distinct.insert(hash_str(det(a) + det(b)));
    }
    R.nontrivial += 4;
  }
  if (R.samples.size() < 2) { sc::Operation a = op(r, true); R.samples.push_back("check " + shortpb(a) + " and variants of it"); }
}
// The recorded findings, each one fixed pair of requests.
static void known() {
  auto two = [&](const char* key, const sc::Operation& a, const sc::Operation& b) {
    if (check_identity(a) != check_identity(b) && csig(a) == csig(b)) R.viol({"G01"}, key, "two checks, one signature: " + shortpb(a) + " | " + shortpb(b));
  };
  { sc::Operation a, b; (*a.mutable_labels())["a"] = "b"; a.add_metric_value_sets()->set_metric_name("m"); b.add_metric_value_sets()->set_metric_name("a"); b.add_metric_value_sets()->set_metric_name("b"); b.add_metric_value_sets()->set_metric_name("m"); two("known-label-or-metrics", a, b); }
  { sc::Operation a, b; auto* s = a.add_metric_value_sets(); s->set_metric_name("m"); auto* v = s->add_metric_values(); (*v->mutable_labels())["a"] = "1"; (*v->mutable_labels())["b"] = "2";
    s = b.add_metric_value_sets(); s->set_metric_name("m"); (*s->add_metric_values()->mutable_labels())["a"] = "1"; (*s->add_metric_values()->mutable_labels())["b"] = "2"; two("known-one-or-two-values", a, b); }
  { sc::Operation a, b; a.set_operation_name(string("x\0y", 3)); a.set_consumer_id("z"); b.set_operation_name("x"); b.set_consumer_id(string("y\0z", 3)); two("known-nul-in-check", a, b);
    if (scc::GenerateReportOperationSignature(a) == scc::GenerateReportOperationSignature([&] { sc::Operation c; c.set_consumer_id(string("z\0x", 3)); c.set_operation_name("y"); return c; }())) R.viol({"G01"}, "known-nul-in-report", "two reports, one signature: strings with NUL bytes"); }
  { sc::QuotaOperation a, b; a.set_method_name(string("x\0y", 3)); a.set_consumer_id("z"); b.set_method_name("x"); b.set_consumer_id(string("y\0z", 3));
    if (qsig(a) == qsig(b)) R.viol({"G01"}, "known-nul-in-quota", "two quota requests, one signature: strings with NUL bytes"); }
  { sc::Operation a, b; auto* s = a.add_metric_value_sets(); s->set_metric_name("m"); (*s->add_metric_values()->mutable_labels())["a"] = "1"; s = a.add_metric_value_sets(); s->set_metric_name("m");
    s = b.add_metric_value_sets(); s->set_metric_name("m"); (*s->add_metric_values()->mutable_labels())["a"] = "2"; s = b.add_metric_value_sets(); s->set_metric_name("m");
    if (csig(a) == csig(b)) R.viol({"G01"}, "known-metric-listed-twice", "two checks, one signature: " + shortpb(a) + " | " + shortpb(b)); }
  R.counters["known_pairs"] += 6;
}
}  // namespace sig

int main(int argc, char** argv) {
  A = parse_args(argc, argv);
  if (A.profile == "lru") vt::enable(true);
  return run_cases(A, [&](uint64_t cs) {
    if (A.profile == "lru") lru::run(cs);
    else if (A.profile == "add") dist::run_add(cs);
    else if (A.profile == "merge") dist::run_merge(cs);
    else if (A.profile == "money") money::run(cs);
    else if (A.profile == "md5") md5::run(cs);
    else if (A.profile == "md5huge") md5::huge();
    else if (A.profile == "sig") sig::run(cs);
    else if (A.profile == "sigknown") { sig::known(); R.nontrivial++; R.distinct.insert(1); R.samples.push_back("the recorded pairs"); }
  });
}
