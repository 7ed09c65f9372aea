// The HTTP transport of the sample against a server on the loopback interface
// that answers, fails, cuts and refuses. The server sees each request as it is
// on the wire, the callbacks see what became of it, and the two are compared.
#include <arpa/inet.h>
#include <dirent.h>
#include <poll.h>
#include <pthread.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <thread>
#include "core.h"
#include "include/service_control_client.h"
#include "sample/transport/http_transport.h"
using namespace vf;
using google::protobuf::util::Status;
using google::protobuf::util::StatusCode;
namespace scc = google::service_control_client;
typedef scc::sample::transport::LibCurlTransport Http;
static Args A;

namespace {
enum Reply { PLAIN, CHUNKED, UNTIL_CLOSE, SLOW, OTHER_2XX, EMPTY_BODY, CONTINUE, NO_BODY_204, GOOD_END = NO_BODY_204,
             ERROR_BODY, ERROR_EMPTY, REDIRECT, CUT, CUT_CHUNKED, NO_REPLY, RESET, GARBAGE, BAD_STATUS_LINE, REFUSED, NREPLY };
const char* const kReply[] = {"200", "200 in chunks", "200 until the connection is closed", "200 in slow pieces", "another 2xx", "200 with an empty body", "100 and then 200", "204",
  "an error with a body", "an error without a body", "a redirection", "a cut body", "cut chunks", "no reply", "a reset", "an unreadable body", "no status line", "connection refused"};
struct Call {
  int idx = 0, pause_ms = 0; bool check = true; int reply = PLAIN, code = 200; int how = 0;   // 0 direct, 1 client asynchronously, 2 client synchronously
  string path, token; sc::CheckRequest cq; sc::ReportRequest rq; string want;   // of the request
  sc::CheckResponse ca, cr; sc::ReportResponse ra, rr;                          // answered, received
  int arrivals = 0, done = 0; Status status; string bad;
};
std::mutex M; std::condition_variable CV;
std::vector<std::unique_ptr<Call>> calls;       // of this case
std::vector<std::pair<string, string>> bads;    // key, text
int all_done, conns, live_port;
uint64_t requests_seen, bytes_seen;

void bad(const string& k, const string& m) { bads.push_back({k, m}); }
bool put(int fd, const char* p, size_t n) {
  while (n) { ssize_t k = send(fd, p, n, MSG_NOSIGNAL); if (k <= 0) return false; p += k; n -= k; }
  return true;
}
bool put(int fd, const string& s) { return put(fd, s.data(), s.size()); }
string lower(string s) { for (char& c : s) c = tolower(c); return s; }
string header(const std::vector<std::pair<string, string>>& h, const char* k, int* n = nullptr) {
  string v; int c = 0; for (auto& p : h) if (p.first == k) { v = p.second; c++; } if (n) *n = c; return v;
}
void serve(int fd) {
  string in; char b[65536]; size_t end;
  timeval tv{30, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  while ((end = in.find("\r\n\r\n")) == string::npos) { ssize_t k = recv(fd, b, sizeof b, 0); if (k <= 0) { close(fd); return; } in.append(b, k); }
  std::vector<std::pair<string, string>> h; string line = in.substr(0, in.find("\r\n"));
  for (size_t p = line.size() + 2; p < end + 2;) { size_t e = in.find("\r\n", p); string l = in.substr(p, e - p); size_t c = l.find(':'); if (c != string::npos) { size_t v = l.find_first_not_of(" \t", c + 1); h.push_back({lower(l.substr(0, c)), v == string::npos ? "" : l.substr(v)}); } p = e + 2; }
  string body = in.substr(end + 4);
  bool expect = lower(header(h, "expect")) == "100-continue"; if (expect) put(fd, "HTTP/1.1 100 Continue\r\n\r\n");
  if (lower(header(h, "transfer-encoding")) == "chunked") {
    // Rarely used by a client; read until the last chunk and put it together.
    while (body.find("\r\n0\r\n\r\n") == string::npos && body.compare(0, 5, "0\r\n\r\n") != 0) { ssize_t k = recv(fd, b, sizeof b, 0); if (k <= 0) break; body.append(b, k); }
    string o; size_t p = 0; while (p < body.size()) { size_t e = body.find("\r\n", p); if (e == string::npos) break; size_t n = strtoul(body.c_str() + p, nullptr, 16); if (!n) break; o += body.substr(e + 2, n); p = e + 2 + n + 2; } body = o;
  } else { size_t len = strtoul(header(h, "content-length").c_str(), nullptr, 10); while (body.size() < len) { ssize_t k = recv(fd, b, sizeof b, 0); if (k <= 0) break; body.append(b, k); } }
  Call* c = nullptr; int reply, code, pause = 0; string out;
  {
    std::lock_guard<std::mutex> l(M);
    requests_seen++; bytes_seen += body.size();
    bool chk = line.find(":check ") != string::npos; string id; bool readable;
    if (chk) { sc::CheckRequest q; readable = q.ParseFromString(body); id = q.operation().operation_id(); }
    else { sc::ReportRequest q; readable = q.ParseFromString(body); if (q.operations_size()) id = q.operations(0).operation_id(); }
    if (id.size() > 1 && id[0] == 'N') { size_t i = strtoul(id.c_str() + 1, nullptr, 10); if (i < calls.size()) c = calls[i].get(); }
    if (!c) { bad("request", "a request arrives whose body of " + std::to_string(body.size()) + " bytes is not that of any call: " + line); reply = ERROR_EMPTY; code = 500; }
    else {
      c->arrivals++; reply = c->reply; code = c->code; pause = c->pause_ms;
      string got; if (c->check) { sc::CheckRequest q; readable = q.ParseFromString(body); got = det(q); } else { sc::ReportRequest q; readable = q.ParseFromString(body); got = det(q); }
      if (!readable || got != c->want) bad("request", "the request of call " + id + " arrives " + (readable ? "changed" : "cut") + ": " + std::to_string(body.size()) + " bytes instead of " + std::to_string(c->want.size()));
      if (line != "POST " + c->path + " HTTP/1.1" && line != "POST " + c->path + " HTTP/1.0") bad("url", "call " + id + " arrives as " + line + " instead of POST " + c->path);
      int n; string auth = header(h, "authorization", &n); if (n != 1 || auth != "Bearer " + c->token) bad("token", "call " + id + " arrives with the authorization \"" + auth + "\" instead of \"Bearer " + c->token + "\"");
      string ct = header(h, "content-type", &n); if (n != 1 || ct != "application/x-protobuf") bad("content-type", "call " + id + " arrives with " + std::to_string(n) + " content types, the last one " + ct);
      out = c->check ? c->ca.SerializeAsString() : c->ra.SerializeAsString();
    }
  }
  string st = "HTTP/1.1 " + std::to_string(code) + " x\r\nContent-Type: application/x-protobuf\r\n", cl = "Content-Length: " + std::to_string(out.size()) + "\r\n\r\n";
  auto chunks = [&](size_t upto) { string o = "Transfer-Encoding: chunked\r\n\r\n"; for (size_t p = 0; p < upto;) { size_t k = std::min<size_t>(1 + (p * 7 + out.size()) % 900, upto - p); char x[32]; snprintf(x, sizeof x, "%zx\r\n", k); o += x + out.substr(p, k) + "\r\n"; p += k; } return o; };
  switch (reply) {
    case PLAIN: case OTHER_2XX: case ERROR_BODY: put(fd, st + cl + out); break;
    case CHUNKED: put(fd, st + chunks(out.size()) + "0\r\n\r\n"); break;
    case UNTIL_CLOSE: put(fd, st + "Connection: close\r\n\r\n" + out); break;
    case SLOW: { string all = st + cl + out; size_t step = std::max<size_t>(1, all.size() / 6); for (size_t p = 0; p < all.size(); p += step) { if (!put(fd, all.data() + p, std::min(step, all.size() - p))) break; std::this_thread::sleep_for(p == 3 * step && pause ? std::chrono::microseconds(pause * 1000) : std::chrono::microseconds(300)); } break; }
    case EMPTY_BODY: case ERROR_EMPTY: put(fd, st + "Content-Length: 0\r\n\r\n"); break;
    case CONTINUE: put(fd, (expect ? "" : "HTTP/1.1 100 Continue\r\n\r\n") + st + cl + out); break;
    case NO_BODY_204: put(fd, st + "\r\n"); break;
    case REDIRECT: put(fd, st + "Location: http://127.0.0.1:" + (c->idx % 2 ? "1/moved" : std::to_string(live_port) + c->path) + "\r\n" + cl + out); break;
    case CUT: put(fd, st + "Content-Length: " + std::to_string(out.size() + 10) + "\r\n\r\n" + out); break;
    case CUT_CHUNKED: put(fd, st + chunks(out.size())); break;
    case NO_REPLY: break;
    case RESET: { linger lg{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); break; }
    case GARBAGE: { string g = "\x0a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff not a message"; put(fd, st + "Content-Length: " + std::to_string(g.size()) + "\r\n\r\n" + g); break; }
    case BAD_STATUS_LINE: put(fd, "Nothing like HTTP\r\n\r\n" + out); break;
  }
  if (reply != RESET) { shutdown(fd, SHUT_WR); pollfd p{fd, POLLIN, 0}; for (int i = 0; i < 100 && poll(&p, 1, 1000) > 0 && recv(fd, b, sizeof b, 0) > 0; i++) {} }
  close(fd);
}
struct Server {
  int fd = -1, dead = -1, port = 0, dead_port = 0; std::thread th; std::atomic<bool> stop{false};
  static int bound(int* port) {
    int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
    if (f < 0 || bind(f, (sockaddr*)&a, n) || getsockname(f, (sockaddr*)&a, &n)) { fprintf(stderr, "VF-FATAL: no loopback socket\n"); _exit(98); }
    *port = ntohs(a.sin_port); return f;
  }
  Server() {
    fd = bound(&port); live_port = port; dead = bound(&dead_port);         // nobody listens on the second
    if (listen(fd, 128)) { fprintf(stderr, "VF-FATAL: cannot listen\n"); _exit(98); }
    th = std::thread([this] {
      for (;;) {
        int c = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
        if (stop) { if (c >= 0) close(c); return; }
        if (c < 0) continue;
        { std::lock_guard<std::mutex> l(M); conns++; }
        std::thread([c] { serve(c); std::lock_guard<std::mutex> l(M); conns--; CV.notify_all(); }).detach();
      }
    });
  }
};
Server* S;
int count_dir(const char* d) { int n = 0; if (DIR* p = opendir(d)) { while (readdir(p)) n++; closedir(p); } return n; }
const string kNames[] = {"svc", "a.b-c.appspot.com", "x"};
string blob(Rng& r, size_t n) { string s(n, 0); for (auto& c : s) c = (char)r.below(256); return s; }
string word(Rng& r, int n) { string s; for (int i = 0; i < n; i++) s += "abcdefghijkl_-.:/ ;\"'"[r.below(21)]; return s; }
void fill(Rng& r, sc::Operation* op, const string& id, bool big) {
  op->set_operation_id(id); op->set_operation_name(word(r, r.below(20))); if (r.chance(50)) op->set_consumer_id("project:" + word(r, 3));
  // Zeros, small numbers and doubles give the body bytes of zero.
  for (int i = r.below(4); i > 0; i--) { auto* s = op->add_metric_value_sets(); s->set_metric_name(word(r, 4)); for (int k = r.below(3); k >= 0; k--) { auto* v = s->add_metric_values(); switch (r.below(4)) { case 0: v->set_int64_value(0); break; case 1: v->set_double_value((double)r.below(4)); break; case 2: v->set_int64_value((int64_t)r.next()); break; default: v->mutable_distribution_value()->set_count(r.below(3)); v->mutable_distribution_value()->set_mean(1.0); } } }
  for (int i = r.below(3); i > 0; i--) (*op->mutable_labels())[word(r, 3)] = r.chance(30) ? string(1, '\0') + "x" : word(r, r.below(200));
  if (r.chance(40)) op->mutable_start_time()->set_nanos(256);
  if (r.chance(30)) { auto* l = op->add_log_entries(); l->set_name("log"); l->set_text_payload(word(r, r.below(300))); if (r.chance(50)) l->mutable_proto_payload()->set_value(blob(r, r.below(300))); }
  if (big) { auto* l = op->add_log_entries(); l->mutable_proto_payload()->set_value(blob(r, 100000 + r.below(1200000))); }
}
StatusCode code_for(int c) {
  switch (c) {
    case 400: return StatusCode::kInvalidArgument; case 401: return StatusCode::kUnauthenticated; case 403: return StatusCode::kPermissionDenied; case 404: return StatusCode::kNotFound;
    case 409: return StatusCode::kAborted; case 416: return StatusCode::kOutOfRange; case 429: return StatusCode::kResourceExhausted; case 499: return StatusCode::kCancelled;
    case 501: return StatusCode::kUnimplemented; case 503: return StatusCode::kUnavailable; case 504: return StatusCode::kDeadlineExceeded;
  }
  return c >= 400 && c < 500 ? StatusCode::kFailedPrecondition : c >= 500 && c < 600 ? StatusCode::kInternal : StatusCode::kUnknown;
}
void judge(Call* c) {      // M is held, everything has ended
  string id = (c->check ? "check N" : "report N") + std::to_string(c->idx) + " (" + kReply[c->reply] + (c->reply == ERROR_BODY || c->reply == ERROR_EMPTY || c->reply == OTHER_2XX || c->reply == REDIRECT ? " " + std::to_string(c->code) : "") + ")";
  if (c->done != 1) bad("callback", "the callback of " + id + " ran " + std::to_string(c->done) + " times");
  if (!c->done) return;
  int want_arr = c->reply == REFUSED ? 0 : 1;
  if (c->arrivals != want_arr) bad("arrivals", id + " arrived " + std::to_string(c->arrivals) + " times");
  bool ok = c->reply <= GOOD_END;
  if (ok != c->status.ok()) { bad(ok ? "good-failed" : "failure-ok", id + " ended with the status " + c->status.ToString()); return; }
  if (ok) {
    string want = c->reply == EMPTY_BODY || c->reply == NO_BODY_204 ? "" : c->check ? det(c->ca) : det(c->ra), got = c->check ? det(c->cr) : det(c->rr);
    if (want != got) bad("response", id + " gave a response of " + std::to_string(got.size()) + " bytes that is not the " + std::to_string(want.size()) + " bytes answered");
  } else if (c->reply == ERROR_BODY || c->reply == ERROR_EMPTY || c->reply == REDIRECT) {
    if (c->status.code() != code_for(c->code)) bad("status-code", id + " ended with the status " + c->status.ToString() + " instead of code " + std::to_string((int)code_for(c->code)));
  }
}
struct Side { std::unique_ptr<Http> http, dead; std::unique_ptr<scc::ServiceControlClient> client, client_dead; string name, token; };
std::unique_ptr<scc::ServiceControlClient> over(const string& name, Http* h) {
  scc::ServiceControlClientOptions o(scc::CheckAggregationOptions(-1, 1000, 1000), scc::QuotaAggregationOptions(-1, 1000), scc::ReportAggregationOptions(-1, 1000));
  o.check_transport = [h](const sc::CheckRequest& q, sc::CheckResponse* s, scc::TransportDoneFunc d) { h->Check(q, s, d); };
  o.report_transport = [h](const sc::ReportRequest& q, sc::ReportResponse* s, scc::TransportDoneFunc d) { h->Report(q, s, d); };
  return scc::CreateServiceControlClient(name, "conf", o);
}
void issue(Side* s, Call* c) {
  bool dead = c->reply == REFUSED;
  // The transport may not read the request once it has returned, nor anything but it.
  std::unique_ptr<sc::CheckRequest> cq(new sc::CheckRequest(c->cq)); std::unique_ptr<sc::ReportRequest> rq(new sc::ReportRequest(c->rq));
  auto done = [c](const Status& st) { std::lock_guard<std::mutex> l(M); c->done++; c->status = st; all_done++; CV.notify_all(); };
  if (c->how == 0) { Http* h = dead ? s->dead.get() : s->http.get(); if (c->check) h->Check(*cq, &c->cr, done); else h->Report(*rq, &c->rr, done); }
  else {
    scc::ServiceControlClient* k = dead ? s->client_dead.get() : s->client.get();
    if (c->how == 1) { if (c->check) k->Check(*cq, &c->cr, done); else k->Report(*rq, &c->rr, done); }
    else done(c->check ? k->Check(*cq, &c->cr) : k->Report(*rq, &c->rr));
  }
  cq.reset(); rq.reset();
}
Call* make(Rng& r, const Side& s, int idx, bool mild) {
  std::unique_ptr<Call> c(new Call); c->idx = idx; c->check = r.chance(50); c->how = r.chance(60) ? 0 : 1 + r.below(2);
  c->reply = r.chance(45) ? r.below(GOOD_END + 1) : GOOD_END + 1 + r.below(NREPLY - GOOD_END - 1);
  static const int named[] = {400, 401, 403, 404, 409, 416, 429, 499, 501, 503, 504};
  if (c->reply == OTHER_2XX) c->code = 201 + r.below(3);
  if (c->reply == NO_BODY_204) c->code = 204;
  if (c->reply == REDIRECT) c->code = r.chance(70) ? 301 + r.below(3) : 300 + r.below(100);
  if (c->reply == REDIRECT && c->code == 304) c->code = 307;
  if (c->reply == ERROR_BODY || c->reply == ERROR_EMPTY) c->code = r.chance(60) ? named[r.below(11)] : 400 + r.below(200);
  if (c->reply == SLOW && !mild && r.chance(2)) c->pause_ms = 2200;
  // A challenge without a scheme, or one that a client may answer by itself.
  if (c->code == 417) c->code = 418;
  c->path = "/v1/services/" + s.name + (c->check ? ":check" : ":report"); c->token = s.token;
  string id = "N" + std::to_string(idx); bool big = !mild && r.chance(4);
  if (c->check) { c->cq.set_service_name(s.name); fill(r, c->cq.mutable_operation(), id, big); c->want = det(c->cq); }
  else { c->rq.set_service_name(s.name); for (int i = 1 + r.below(3); i > 0; i--) fill(r, c->rq.add_operations(), id, big); c->want = det(c->rq); }
  bool bigr = !mild && r.chance(4);
  c->ca.set_operation_id("answer" + id); if (r.chance(50)) c->ca.add_check_errors()->set_detail(bigr ? string(300000 + r.below(2000000), 'y') : word(r, r.below(2000))); if (r.chance(50)) c->ca.set_service_config_id(string(r.below(3), '\0') + "z");
  for (int i = r.below(3); i > 0; i--) { auto* e = c->ra.add_report_errors(); e->set_operation_id(id); e->mutable_status()->set_code(r.below(300)); e->mutable_status()->set_message(word(r, bigr ? 200000 : r.below(100))); }
  if (r.chance(30)) { c->cr.set_operation_id("old"); c->cr.add_check_errors()->set_detail("old"); c->rr.add_report_errors()->set_operation_id("old"); }     // left over in a response that is used again
  Call* p = c.get(); calls.push_back(std::move(c)); return p;
}
}  // namespace

static bool batch(Rng& r, std::vector<Side>& sides, int n, int nthreads, bool mild) {
  { std::lock_guard<std::mutex> l(M); calls.clear(); all_done = 0; for (int i = 0; i < n; i++) make(r, sides[r.below(sides.size())], i, mild); }
  std::vector<int> side(n); for (int i = 0; i < n; i++) for (size_t k = 0; k < sides.size(); k++) if (sides[k].token == calls[i]->token) side[i] = k;
  std::vector<std::thread> ts;
  for (int t = 0; t < nthreads; t++) ts.emplace_back([&, t] { for (int i = t; i < n; i += nthreads) issue(&sides[side[i]], calls[i].get()); });
  for (auto& t : ts) t.join();
  std::unique_lock<std::mutex> l(M);
  bool ok = CV.wait_for(l, std::chrono::seconds(60), [&] { return all_done >= n && !conns; });
  for (auto& c : calls) judge(c.get());
  return ok;
}
static void one(uint64_t cs) {
  Rng r(cs); bool keep = A.geti("keep", 0);
  std::vector<Side> sides(1 + r.below(2));
  for (size_t i = 0; i < sides.size(); i++) {
    Side& s = sides[i]; s.name = kNames[r.below(3)]; s.token = "tok" + std::to_string(i) + (r.chance(50) ? word(r, 0) + "ya29.A-b_c" : string(r.below(600), 'k'));
    s.http.reset(new Http("http://127.0.0.1:" + std::to_string(S->port), s.name, s.token)); s.dead.reset(new Http("http://127.0.0.1:" + std::to_string(S->dead_port), s.name, s.token));
    s.client = over(s.name, s.http.get()); s.client_dead = over(s.name, s.dead.get());
  }
  uint64_t h = 0; int total = 0; bool ended = true;
  auto account = [&] { for (auto& c : calls) { total++; R.counters[string("answered with ") + kReply[c->reply]]++; R.counters[c->check ? "checks" : "reports"]++; if (c->pause_ms) R.counters["answers_over_two_seconds"]++; if (c->want.find('\0') != string::npos) R.counters["requests_with_zero_bytes"]++; if (c->how) R.counters["calls_through_a_client"]++; if (c->want.size() > 100000) R.counters["requests_large"]++; h = mix(h, hash_str(c->want) + c->reply * 1000 + c->code); } };
  if (!keep) { int n = 1 + r.below(12); ended = batch(r, sides, n, 1 + r.below(3), false); account(); }
  else {
    // The same calls again and again: what is kept after them must not grow.
    uint64_t again = r.next(); int n = 24;
    auto cycle = [&](int times) { for (int i = 0; i < times && ended; i++) { Rng q(again); ended = batch(q, sides, n, 2, true); account(); } { std::lock_guard<std::mutex> l(M); calls.clear(); calls.shrink_to_fit(); } };
    auto settle = [] { for (int i = 0; i < 3000 && count_dir("/proc/self/task") > 2 + 2; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); };
    cycle(3); settle(); size_t b0 = live_bytes(); int f0 = count_dir("/proc/self/fd"), t0 = count_dir("/proc/self/task");
    cycle(5); settle(); size_t b1 = live_bytes(); int f1 = count_dir("/proc/self/fd"), t1 = count_dir("/proc/self/task");
    R.counters["cycles_compared"]++;
    auto grown = [&](size_t a, size_t b, int k) { return b > a && b - a > (size_t)k * n * 24; };
    if (ended && (grown(b0, b1, 5) || f1 > f0 || t1 > t0)) {
      cycle(20); settle(); size_t b2 = live_bytes(); int f2 = count_dir("/proc/self/fd"), t2 = count_dir("/proc/self/task");
      if (grown(b1, b2, 20)) bad("kept", std::to_string((b2 - b1) / (20.0 * n)) + " bytes are kept for each call");
      if (f2 >= f1 + 20) bad("files", std::to_string(f2 - f1) + " files are left open by " + std::to_string(20 * n) + " calls");
      if (t2 >= t1 + 20) bad("threads", std::to_string(t2 - t1) + " threads are left by " + std::to_string(20 * n) + " calls");
    }
  }
  if (!ended) { R.viol({"N01"}, "no-end", "a call has not ended after a minute"); R.finish(A.out); fflush(stdout); _exit(0); }
  for (auto& s : sides) { s.client.reset(); s.client_dead.reset(); s.http.reset(); s.dead.reset(); }
  { std::lock_guard<std::mutex> l(M); std::set<string> seen; for (auto& b : bads) if (seen.insert(b.first).second) R.viol({"N01"}, b.first, b.second); bads.clear(); R.counters["requests_seen"] += requests_seen; R.counters["bytes_seen"] += bytes_seen; requests_seen = bytes_seen = 0; }
  R.counters["calls"] += total;
  if (R.samples.size() < 3 && !keep) { string s = "case " + std::to_string(cs) + ":"; for (auto& c : calls) s += string(" ") + (c->check ? "check" : "report") + " of " + std::to_string(c->want.size()) + " bytes -> " + kReply[c->reply] + " -> " + c->status.ToString().substr(0, 40) + ";"; R.samples.push_back(s.substr(0, 1000)); }
  if (total) { R.nontrivial++; R.distinct.insert(h); }
}
int main(int argc, char** argv) {
  A = parse_args(argc, argv);
  for (const char* v : {"http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "CURL_CA_BUNDLE"}) unsetenv(v);
  signal(SIGPIPE, SIG_IGN);
  sigset_t m; sigemptyset(&m);
  std::cout.rdbuf(nullptr);        // the transport prints each response
  S = new Server;
  return run_cases(A, one);
}
