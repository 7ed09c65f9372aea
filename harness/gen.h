// Request generators: identities that differ in one place, times and values
// near the limits the library cares about.
#pragma once
#include <cmath>
#include "core.h"
#include <limits>
#include <google/protobuf/message.h>
namespace vf {
// Fills any message with odd values, by reflection.
inline string odd_string(Rng& r) {
  switch (r.below(12)) {
    case 0: return ""; case 1: return string(1, 0); case 2: return string("a\0b", 3); case 3: return "\xff\xfe\x80";
    case 4: return string(r.below(70000), 'x'); case 5: return "%s%n%d"; case 6: return string(63 + r.below(4), 'm');
    case 7: return "project:p"; case 8: return "m/requests"; case 9: return "\xc3\xa9\xe2\x82\xac"; case 10: return "read";
    default: return string(1 + r.below(5), (char)('a' + r.below(3)));
  }
}
inline void odd_fill(Rng& r, google::protobuf::Message* m, int pct, int depth) {
  using FD = google::protobuf::FieldDescriptor;
  auto* d = m->GetDescriptor(); auto* f = m->GetReflection();
  for (int i = 0; i < d->field_count(); i++) {
    const FD* x = d->field(i);
    if (!r.chance(pct)) continue;
    if (x->containing_oneof() && !r.chance(40)) continue;
    int n = x->is_repeated() ? (r.chance(2) ? (int)r.below(150) : (int)r.below(4)) : 1;
    for (int k = 0; k < n; k++) {
      static const int64_t I[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT32_MAX, INT32_MIN, 1000000000, 999999999, -999999999};
      static const double D[] = {0.0, -0.0, 1.5, -3, 1e308, -1e308, 5e-324, HUGE_VAL, -HUGE_VAL, (double)NAN, 1e19, 2147483648.0};
      int64_t iv = r.chance(80) ? I[r.below(11)] : (int64_t)r.next(); double dv = r.chance(80) ? D[r.below(12)] : r.range(-1000, 1000) / 8.0;
#define PUT(T, v) if (x->is_repeated()) f->Add##T(m, x, v); else f->Set##T(m, x, v)
      switch (x->cpp_type()) {
        case FD::CPPTYPE_INT32: PUT(Int32, (int32_t)iv); break;
        case FD::CPPTYPE_INT64: PUT(Int64, iv); break;
        case FD::CPPTYPE_UINT32: PUT(UInt32, (uint32_t)iv); break;
        case FD::CPPTYPE_UINT64: PUT(UInt64, (uint64_t)iv); break;
        case FD::CPPTYPE_DOUBLE: PUT(Double, dv); break;
        case FD::CPPTYPE_FLOAT: PUT(Float, (float)(std::isfinite(dv) && (dv > 1e30 || dv < -1e30) ? 1e30 : dv)); break;
        case FD::CPPTYPE_BOOL: PUT(Bool, r.chance(50)); break;
        case FD::CPPTYPE_ENUM: PUT(EnumValue, r.chance(80) ? x->enum_type()->value(r.below(x->enum_type()->value_count()))->number() : (int)r.below(100)); break;
        case FD::CPPTYPE_STRING: { string s = odd_string(r); PUT(String, s); break; }
        case FD::CPPTYPE_MESSAGE:
          if (depth <= 0) break;
          odd_fill(r, x->is_repeated() ? f->AddMessage(m, x) : f->MutableMessage(m, x), pct, depth - 1);
          break;
      }
#undef PUT
    }
  }
}
struct Gen {
  Rng& r;
  int nid = 0;
  // How calls name themselves: 0 each its own way, 1 all the same, 2 not at
  // all, 3 a few names, 4 some not at all.
  int idmode = 0;
  int logmode = 0;       // log entries: 0 each with its own insert id, 1 with none, 2 with one of a few
  string logid(uint64_t id, int i) { return logmode == 0 ? uid("l", id) + "." + std::to_string(i) : logmode == 1 ? string() : uid("l", r.below(3)); }
  string opid(const char* p, uint64_t n) { return idmode == 0 ? uid(p, n) : idmode == 1 ? string(p) : idmode == 2 || (idmode == 4 && r.chance(50)) ? string() : idmode == 4 ? uid(p, n) : uid(p, r.below(3)); }
  explicit Gen(Rng& rng) : r(rng) {}
  static string uid(const char* p, uint64_t n) { return string(p) + std::to_string(n); }
  void stamp(google::protobuf::Timestamp* t) {
    // Few seconds values, so that nanos decide; also values far apart.
    t->set_seconds(r.chance(80) ? 1000 + r.below(3) : r.chance(60) ? r.range(-5, 2000000000) : r.chance(50) ? r.range(-62135596800ll, 253402300799ll) : 1000 + ((int64_t)r.below(3) << 32));
    t->set_nanos(r.chance(30) ? 0 : r.chance(50) ? (int)r.below(3) : (int)r.below(1000000000));
  }
  void labels(google::protobuf::Map<string, string>* l, int which) {
    // 0: none; others differ in one key or value, or in which has which.
    switch (which) {
      case 1: (*l)["zone"] = "a"; break;
      case 2: (*l)["zone"] = "b"; break;
      case 3: (*l)["region"] = "a"; break;
      case 4: (*l)["zone"] = "a"; (*l)["region"] = "b"; break;
      case 5: (*l)["zone"] = "b"; (*l)["region"] = "a"; break;
      case 6: (*l)["zonea"] = ""; break;
      case 7: (*l)[""] = "zonea"; break;
      case 8: (*l)["zone"] = ""; break;
      case 9: for (int i = 0; i < 5; i++) (*l)[string(1, (char)('e' - i))] = string(1, (char)('a' + i)); break;
      case 10: (*l)["zone"] = string(300, 'z'); (*l)[string(200, 'k')] = "a"; break;
    }
  }
  struct Ident { int name, cons, labels; std::vector<int> metrics; std::vector<int> mlabels; };
  Ident ident(int spread) {
    Ident d;
    d.name = r.chance(60) ? 0 : r.below(spread); d.cons = r.chance(60) ? 0 : r.below(spread);
    d.labels = r.chance(50) ? 0 : r.below(11);
    int n = r.below(4);
    for (int i = 0; i < 4; i++) if ((int)r.below(4) < n) { d.metrics.push_back(i); d.mlabels.push_back(r.chance(70) ? 0 : 1 + r.below(3)); }
    return d;
  }
  static string opname(int i) { static const char* n[] = {"read", "write", "", "readproject", "rea"}; return i < 5 ? n[i] : uid("op", i); }
  static string consumer(int i) { static const char* n[] = {"project:p", "project:q", "", "project", "dproject:p"}; return i < 5 ? n[i] : uid("project:", i); }
  static string metric(int i) { static const char* n[] = {"m/requests", "m/bytes", "m/latency", "m/gauge"}; return i < 4 ? n[i] : uid("m/", i); }
  void dist(sc::Distribution* d) {
    int kind = r.below(10);
    int nb = 2 + r.below(2);
    if (kind < 4) { auto* l = d->mutable_linear_buckets(); l->set_num_finite_buckets(nb); l->set_width(r.chance(90) ? 2 : 3); l->set_offset(1); nb += 2; }
    else if (kind < 7) { auto* e = d->mutable_exponential_buckets(); e->set_num_finite_buckets(nb); e->set_growth_factor(2); e->set_scale(r.chance(90) ? 1 : 1.5); nb += 2; }
    else if (kind < 9) { auto* e = d->mutable_explicit_buckets(); for (int i = 0; i < nb; i++) e->add_bounds(i * 2 + (r.chance(10) ? 1 : 0)); nb += 1; }
    if (r.chance(3)) nb++;
    int64_t n = 0; double lo = 0, hi = 0, sum = 0;
    std::vector<double> xs;
    for (int i = 0; i < nb; i++) d->add_bucket_counts(0);
    int k = r.below(4);
    for (int i = 0; i < k; i++) {
      double x = (double)r.below(64) / 4; xs.push_back(x); sum += x;
      if (!i || x < lo) lo = x;
      if (!i || x > hi) hi = x;
      int b = r.below(nb); d->set_bucket_counts(b, d->bucket_counts(b) + 1); n++;
    }
    d->set_count(n);
    if (n) {
      double m = sum / n, s = 0; for (double x : xs) s += (x - m) * (x - m);
      d->set_mean(m); d->set_minimum(lo); d->set_maximum(hi); d->set_sum_of_squared_deviation(s);
    }
  }
  void value(sc::MetricValue* v, int metric, bool quota) {
    if (r.chance(40)) stamp(v->mutable_start_time());
    if (r.chance(40)) stamp(v->mutable_end_time());
    int t = quota ? (r.chance(97) ? 0 : 1 + r.below(4)) : r.chance(88) ? (metric == 1 ? 1 : metric == 2 ? 2 : 0) : (int)r.below(6);
    switch (t) {
      case 0: v->set_int64_value(r.chance(94) ? r.range(0, 9) : r.chance(50) ? r.range(-(1ll << 40), 1ll << 40) : r.chance(50) ? INT64_MAX - (int64_t)r.below(5) : r.range(-9, 9)); break;
      case 1: v->set_double_value(r.chance(90) ? (double)r.range(-40, 40) / 4 : (double)r.range(-(1ll << 42), 1ll << 42) / (1 << 20)); break;
      case 2: dist(v->mutable_distribution_value()); break;
      case 3: v->set_string_value("text"); break;
      case 4: v->set_bool_value(r.chance(50)); break;
      default: break;
    }
  }
  void op(const Ident& d, uint64_t id, bool check, sc::Operation* o, int maxlogs) {
    o->set_operation_id(opid("op-", id));
    o->set_operation_name(opname(d.name)); o->set_consumer_id(consumer(d.cons));
    labels(o->mutable_labels(), d.labels);
    if (r.chance(50)) stamp(o->mutable_start_time());
    if (r.chance(50)) stamp(o->mutable_end_time());
    o->set_importance(sc::Operation::LOW);
    if (check) {
      std::vector<int> ord; for (size_t i = 0; i < d.metrics.size(); i++) ord.push_back(i);
      for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
      for (int i : ord) {
        auto* s = o->add_metric_value_sets(); s->set_metric_name(metric(d.metrics[i]));
        auto* v = s->add_metric_values(); value(v, d.metrics[i], false);
        if (d.mlabels[i] == 1) (*v->mutable_labels())["kind"] = "x";
        if (d.mlabels[i] >= 2) (*v->mutable_labels())["kind"] = "y";
        if (d.mlabels[i] == 3) { auto* w = s->add_metric_values(); value(w, d.metrics[i], false); (*w->mutable_labels())["kind"] = "z"; }
      }
    } else {
      for (int m = 0; m < 4; m++) {
        if (!r.chance(45)) continue;
        auto* s = o->add_metric_value_sets(); s->set_metric_name(metric(m));
        int n = r.chance(3) ? 0 : 1 + (r.chance(30) ? 1 + r.below(2) : 0);
        for (int i = 0; i < n; i++) {
          auto* v = s->add_metric_values(); value(v, m, false);
          if (r.chance(45)) labels(v->mutable_labels(), 1 + r.below(r.chance(90) ? 8 : 10));
        }
      }
      // A metric may be listed twice.
      if (o->metric_value_sets_size() && r.chance(4)) {
        auto* s = o->add_metric_value_sets(); *s = o->metric_value_sets(r.below(o->metric_value_sets_size() - 1));
        if (s->metric_values_size() && r.chance(50)) labels(s->mutable_metric_values(0)->mutable_labels(), 1 + r.below(8));
      }
    }
    int logs = r.chance(60) ? 0 : (int)r.below(maxlogs + 1);
    for (int i = 0; i < logs; i++) {
      auto* e = o->add_log_entries(); e->set_name("log"); e->set_insert_id(logid(id, i));
      if (r.chance(5)) e->set_text_payload("payload");
      if (r.chance(5)) { stamp(e->mutable_timestamp()); e->set_severity((google::logging::type::LogSeverity)(100 * r.below(9))); (*e->mutable_labels())["k"] = "v"; }
      if (r.chance(3)) (*e->mutable_struct_payload()->mutable_fields())["f"].set_number_value(r.below(5));
      if (r.chance(3)) e->mutable_proto_payload()->set_type_url("type/t");
      if (r.chance(2)) { string k = e->insert_id(); odd_fill(r, e, 30, 3); e->set_insert_id(k); }
    }
  }
  void qop(const Ident& d, uint64_t id, sc::QuotaOperation* o) {
    o->set_operation_id(opid("qop-", id));
    o->set_method_name(opname(d.name)); o->set_consumer_id(consumer(d.cons));
    if (r.chance(30)) (*o->mutable_labels())["zone"] = r.chance(50) ? "a" : "b";
    o->set_quota_mode(r.chance(70) ? sc::QuotaOperation::BEST_EFFORT : r.chance(50) ? sc::QuotaOperation::NORMAL : sc::QuotaOperation::UNSPECIFIED);
    std::vector<int> ord(d.metrics);
    for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    for (int m : ord) {
      auto* s = o->add_quota_metrics(); s->set_metric_name(metric(m));
      int n = r.chance(97) ? 1 : (int)r.below(3);
      for (int i = 0; i < n; i++) { auto* v = s->add_metric_values(); value(v, m, true); if (r.chance(10)) labels(v->mutable_labels(), 1 + r.below(8)); }
    }
  }
};
}  // namespace vf
