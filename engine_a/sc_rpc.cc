// Scenarios for remote procedure calls: P36
#include "conn.h"
#include "pbutil.h"
#include "kanon/util/macro.h"
#include "kanon/log/logger.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/rpc/rpc_channel.h"
#include "kanon/rpc/rpc_controller.h"
#include "kanon/rpc/rpc_server.h"
#include "kanon/rpc/logger.h"
#include "kanon/protobuf/logger.h"
#include "pbt.pb.h"
#include <new>
#include <vector>
using namespace kanon::protobuf::rpc;
typedef google::protobuf::Closure Done;
static const int PORT = 9000;
static void warm() __attribute__((constructor(65000)));
// descriptors and default objects are made once, outside of every run
static void warm() { pbt::Calc::descriptor()->FindMethodByName("twice"); pbt::Other::descriptor()->FindMethodByName("x"); pbt::Req().SerializePartialAsString(); RpcMessage().GetTypeName(); SetProtobufLog(false); SetProtobufRpcLog(false); kanon::EnableAllLog(false); }

// ---- the messages on the wire, by themselves
enum { RESPONSE = 0, REQUEST = 1 };
enum { E_NONE = 0, E_MESSAGE, E_SERVICE, E_METHOD, E_REQUEST };
struct Wire {
  int type = -1, error = -1;
  bool has_id = false, has_service = false, has_method = false, has_body[2] = {false, false}, has_deadline = false;
  uint64_t id = 0, deadline = 0;
  std::string service, method, body[2]; // request, response
  static std::string vi(uint64_t v) { std::string s; while (v >= 128) { s += (char)(v | 128); v >>= 7; } s += (char)v; return s; }
  static std::string str(int tag, std::string const &v) { return (char)tag + vi(v.size()) + v; }
  std::string payload() const
  {
    std::string s;
    if (type >= 0) { s += '\x08'; s += vi((uint64_t)type); }
    if (has_id) { s += '\x11'; for (int i = 0; i < 8; ++i) s += (char)(id >> (8 * i)); }
    if (has_service) s += str(0x1a, service);
    if (has_method) s += str(0x22, method);
    for (int i = 0; i < 2; ++i) if (has_body[i]) s += str(0x2a + 8 * i, body[i]);
    if (error >= 0) { s += '\x38'; s += vi((uint64_t)error); }
    if (has_deadline) { s += '\x40'; s += vi(deadline); }
    return s;
  }
  std::string encode() const { return frame(0, "krpc", payload()); }
  void parse(std::string const &s)
  {
    size_t at = 0;
    auto vi_ = [&] { uint64_t v = 0; for (int sh = 0;; sh += 7) { kmc::check(at < s.size(), "a message is cut"); unsigned char c = (unsigned char)s[at++]; v |= (uint64_t)(c & 127) << sh; if (!(c & 128)) return v; } };
    auto str_ = [&] { size_t n = vi_(); kmc::check(at + n <= s.size(), "a message is cut"); std::string r = s.substr(at, n); at += n; return r; };
    while (at < s.size()) switch ((unsigned char)s[at++]) {
    case 0x08: type = (int)vi_(); break;
    case 0x11: has_id = true; id = 0; kmc::check(at + 8 <= s.size(), "a message is cut"); for (int i = 0; i < 8; ++i) id |= (uint64_t)(unsigned char)s[at++] << (8 * i); break;
    case 0x1a: has_service = true; service = str_(); break;
    case 0x22: has_method = true; method = str_(); break;
    case 0x2a: has_body[0] = true; body[0] = str_(); break;
    case 0x32: has_body[1] = true; body[1] = str_(); break;
    case 0x38: error = (int)vi_(); break;
    case 0x40: has_deadline = true; deadline = vi_(); break;
    default: kmc::check(false, "a message has an unknown field");
    }
  }
  static std::vector<Wire> split(std::string const &s)
  {
    std::vector<Wire> r;
    size_t at = 0;
    while (at < s.size()) {
      kmc::check(s.size() - at >= 12, "%zu bytes at the end are no message", s.size() - at);
      uint32_t n = 0; for (int i = 0; i < 4; ++i) n = n << 8 | (unsigned char)s[at + i];
      kmc::check(n >= 8 && s.size() - at - 4 >= n, "a message is cut");
      std::string b = s.substr(at + 4, n - 4);
      kmc::check(b.substr(0, 4) == "krpc", "a message has a wrong tag");
      kmc::check(s.substr(at, 4 + n) == frame(0, "krpc", b.substr(4)), "a message has a wrong checksum");
      r.emplace_back(); r.back().parse(b.substr(4));
      at += 4 + n;
    }
    return r;
  }
};
static std::string req_bytes(int i, size_t pad) { pbt::Req q; q.set_i(i); if (pad) q.set_pad(std::string(pad, 'q')); return q.SerializeAsString(); }
static std::string rsp_bytes(int i, size_t pad) { pbt::Rsp q; q.set_i(i); if (pad) q.set_pad(std::string(pad, 'r')); return q.SerializeAsString(); }
static std::string any_bytes(std::string const &d) { pbt::Any q; q.set_data(d); return q.SerializeAsString(); }
static Wire request(uint64_t id, const char *service, const char *method, std::string const &body)
{
  Wire w; w.type = REQUEST; w.has_id = true; w.id = id;
  w.has_service = true; w.service = service; w.has_method = true; w.method = method;
  w.has_body[0] = true; w.body[0] = body;
  return w;
}

// ---- the services.  twice: answers at once; later: the closure is kept, the
// test answers; never: gives up (the user then owns everything)
struct Kept { pbt::Rsp *r; Done *d; int i; };
struct CalcImpl : pbt::Calc {
  EventLoop *other = nullptr;  // later answers there, if set
  std::vector<Kept> *kept = nullptr;
  kmc::Counter calls, running, forbidden, nkept;
  bool leave = false; // the request and the controller stay with the test
  kmc::Counter deadline, canceled; // of the last call
  void begin(google::protobuf::RpcController *c, pbt::Req const *q)
  {
    kmc::check(!forbidden.get(), "a service is called after the server is gone");
    calls.add();
    RpcController *rc = dynamic_cast<RpcController *>(c);
    kmc::check(rc != nullptr, "a method got no controller");
    deadline.set((long)rc->deadline()); canceled.set(rc->IsCanceled());
    kmc::check(!rc->Failed() && rc->ErrorText().empty(), "a new controller has failed");
    delete c;
    kmc::logs("call " + std::to_string(q->i()) + " " + std::to_string(q->pad().size()));
  }
  static void fill(pbt::Rsp *r, int i, size_t pad) { r->set_i(2 * i); if (pad) r->set_pad(std::string(pad, 'r')); }
  void twice(google::protobuf::RpcController *c, pbt::Req const *q, pbt::Rsp *r, Done *d) override
  {
    begin(c, q);
    fill(r, q->i(), q->pad().size());
    delete q;
    d->Run();
  }
  void later(google::protobuf::RpcController *c, pbt::Req const *q, pbt::Rsp *r, Done *d) override
  {
    begin(c, q);
    int i = q->i(); fill(r, i, q->pad().size());
    delete q;
    if (kept) { kept->push_back(Kept{r, d, i}); kmc::hb_release(kept); nkept.add(); }
    else if (other) other->QueueToLoop([d] { d->Run(); });
    else d->Run();
  }
  void never(google::protobuf::RpcController *c, pbt::Req const *q, pbt::Rsp *r, Done *d) override { begin(c, q); delete q; delete r; delete d; }
};
struct OtherImpl : pbt::Other {
  kmc::Counter calls;
  void twice(google::protobuf::RpcController *c, pbt::Req const *q, pbt::Rsp *r, Done *d) override
  {
    calls.add();
    r->set_i(-q->i());
    delete c; delete q;
    d->Run();
  }
  void echo(google::protobuf::RpcController *c, pbt::Any const *q, pbt::Any *r, Done *d) override
  {
    calls.add();
    if (q->has_data()) r->set_data(q->data());
    delete c; delete q;
    d->Run();
  }
};
struct Base {
  std::unique_ptr<EventLoop> l;
  explicit Base(int m) : l(new EventLoop(m == 1)) { if (m == 2) l->SetEdgeTriggerMode(); }
};
struct Rpc {
  CalcImpl calc; OtherImpl other;
  std::unique_ptr<RpcServer> s;
  Rpc(EventLoop *l, int loops, int mode)
  {
    s.reset(new RpcServer(l, InetAddr(PORT, true), "rpc"));
    s->AddServices(&calc); s->AddServices(&other);
    s->SetLoopNum(loops);
    if (mode == 2) s->SetThreadInitCallback([](EventLoop *e) { e->SetEdgeTriggerMode(); });
  }
  void destroy() { s.reset(); calc.forbidden.set(1); }
};
static void expect(Wire const &w, uint64_t id, int error, std::string const &body)
{
  kmc::check(w.type == RESPONSE && w.has_id && w.id == id, "the answer is of type %d for %llu, expected one for %llu", w.type, (unsigned long long)w.id, (unsigned long long)id);
  kmc::check(!w.has_body[0] && !w.has_service && !w.has_method && !w.has_deadline, "the answer contains parts of a request");
  if (error) kmc::check(w.error == error && !w.has_body[1], "the answer has error %d, expected %d", w.error, error);
  else {
    kmc::check(w.error <= 0, "the answer has error %d", w.error);
    kmc::check(w.has_body[1] && w.body[1] == body, "the answer has a wrong content");
  }
}

// ---- every program of requests of a client is answered, one for one
enum { KINDS = 18 };
// what a request of that kind is; returns whether an answer is due
static bool make(int kind, uint64_t id, int i, Wire &w, int &error, std::string &body, std::string &called)
{
  w = request(id, "pbt.Calc", "twice", req_bytes(i, 0));
  error = 0; body = rsp_bytes(2 * i, 0); called = "call " + std::to_string(i) + " 0";
  bool answer = true;
  switch (kind) {
  case 0: break;
  case 1: w.method = "later"; break;
  case 2: w.service = "pbt.Other"; body = rsp_bytes(-i, 0); called.clear(); break;
  case 3: w.body[0] = req_bytes(i, 5000); body = rsp_bytes(2 * i, 5000); called = "call " + std::to_string(i) + " 5000"; break;
  case 4: w.service = "Calc"; error = E_SERVICE; break;
  case 5: w.method = "Twice"; error = E_METHOD; break;
  case 6: w.has_service = false; error = E_MESSAGE; break;
  case 7: w.has_method = false; error = E_MESSAGE; break;
  case 8: w.has_body[0] = false; error = E_MESSAGE; break;
  case 9: w.body[0] = "\x08"; error = E_REQUEST; break; // cut
  case 10: w.body[0] = ""; error = E_REQUEST; break; // a required field is missing
  case 11: w.method = "never"; answer = false; break;
  case 12: w.service = ""; w.method = ""; error = E_SERVICE; break;
  case 13: w.service = "pbt.Other"; w.method = "echo"; w.body[0] = body = any_bytes("data"); called.clear(); break;
  case 14: w.service = "pbt.Other"; w.method = "echo"; w.body[0] = body = ""; called.clear(); break; // no field is required
  case 15: w.method = ""; error = E_METHOD; break;
  case 16: w.service = "pbt.Other"; w.method = "later"; error = E_METHOD; break; // another's
  case 17: w.method = "pbt.Calc.twice"; error = E_METHOD; break;
  }
  if (error) called.clear();
  return answer;
}
static void serve(int n, bool all)
{
  int loops = kmc::choose(n == 3 ? 1 : 2, 0, "loops"), mode = kmc::choose(all ? 1 : 3, 0, "back end");
  Base b(mode);
  EventLoop *l = b.l.get();
  Rpc r(l, loops, mode);
  r.s->StartRun();
  static const uint64_t ID[] = {0, 1, 1ull << 40, ~0ull, 7};
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    bool apart = kmc::choose(2, 0, "segments") != 0;
    std::string wire, calls, called;
    struct W { uint64_t id; int error; std::string body; };
    std::vector<W> want;
    for (int i = 0; i < n; ++i) {
      Wire w; int error; std::string body;
      uint64_t id = ID[kmc::choose(all ? 1 : 5, 0, "id")] + (all ? (uint64_t)i : 0);
      if (make(kmc::choose(KINDS, 0, "request"), id, i + 1, w, error, body, called)) want.push_back(W{id, error, body});
      if (called.size()) calls += (calls.empty() ? "" : ";") + called;
      if (apart) { kmc::peer_send(p, w.encode()); kmc::wait_idle(); } else wire += w.encode();
    }
    if (!apart) kmc::peer_send(p, wire);
    kmc::wait_idle();
    auto got = Wire::split(kmc::peer_received(p));
    kmc::check(got.size() == want.size(), "%zu answers, expected %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) expect(got[i], want[i].id, want[i].error, want[i].body);
    std::string log = kmc::log_take();
    kmc::check(log == calls || log == calls + ";", "the service got '%s', expected '%s'", log.c_str(), calls.c_str());
    kmc::check(!kmc::peer_eof(p), "the connection is shut down");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  r.destroy();
}
KMC_SCENARIO("P36", rpc_serve, (0, 0, 1)) { serve(1, false); }
KMC_SCENARIO("P36", rpc_serve_programs, (0, 0, 0)) { serve(2, true); }
KMC_SCENARIO("P36", rpc_serve_programs3, (0, 0, 0)) { serve(3, true); }
KMC_SCENARIO("P36", rpc_serve_faults, (WF | RF, 2, 3))
{
  int mode = kmc::choose(3, 0, "back end");
  Base b(mode);
  EventLoop *l = b.l.get();
  Rpc r(l, 0, mode);
  r.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    std::string wire;
    for (int i = 0; i < 2; ++i) wire += request((uint64_t)i, "pbt.Calc", i ? "no" : "twice", req_bytes(i, 0)).encode();
    kmc::peer_send(p, wire);
    kmc::wait_idle();
    auto got = Wire::split(kmc::peer_received(p));
    kmc::check(got.size() == 2, "%zu answers, expected 2", got.size());
    expect(got[0], 0, 0, rsp_bytes(0, 0)); expect(got[1], 1, E_METHOD, "");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  r.destroy();
}
// a client may send anything: the others are served on
KMC_SCENARIO("P36", rpc_serve_hostile, (0, 0, 1))
{
  int loops = kmc::choose(2, 0, "loops"), mode = kmc::choose(3, 0, "back end");
  Base b(mode);
  EventLoop *l = b.l.get();
  Rpc r(l, loops, mode);
  r.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT), *q = kmc::peer_connect(PORT);
    Wire w = request(3, "pbt.Calc", "twice", req_bytes(1, 0));
    int what = kmc::choose(11, 0, "what");
    std::string bytes;
    switch (what) {
    case 0: w.type = RESPONSE; break;
    case 1: w.type = RESPONSE; w.has_body[1] = true; w.body[1] = rsp_bytes(1, 0); break;
    case 2: w.type = RESPONSE; w.error = E_SERVICE; break;
    case 3: w.type = 2; break;
    case 4: w.type = -1; break;
    case 5: w.has_id = false; break;
    case 6: w.error = E_SERVICE; break;
    case 7: w.error = 99; break;
    case 8: bytes = frame(0, "krpc", "\x0a"); break;
    case 9: bytes = std::string(30, '\0'); break;
    case 10: w.has_deadline = true; w.deadline = ~0ull; break;
    }
    if (bytes.empty()) bytes = w.encode();
    if (kmc::choose(2, 0, "twice")) bytes += bytes;
    kmc::peer_send(p, bytes);
    kmc::wait_idle();
    kmc::peer_send(q, request(5, "pbt.Calc", "twice", req_bytes(4, 0)).encode());
    kmc::wait_idle();
    auto got = Wire::split(kmc::peer_received(q));
    kmc::check(got.size() == 1, "%zu answers, expected 1", got.size());
    expect(got[0], 5, 0, rsp_bytes(8, 0));
    for (Wire const &x : Wire::split(kmc::peer_received(p))) kmc::check(x.type == RESPONSE && x.id == 3, "a client got an answer it did not ask for");
    if (what < 3) kmc::check(r.calc.calls.get() == 1, "a response was taken for a request");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  r.destroy();
}
// a method's controller says what the request says, and nothing of other requests
KMC_SCENARIO("P36", rpc_serve_deadline, (0, 0, 1))
{
  int loops = kmc::choose(2, 0, "loops"), mode = kmc::choose(3, 0, "back end");
  Base b(mode);
  EventLoop *l = b.l.get();
  Rpc r(l, loops, mode);
  r.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    for (int i = 0; i < 3; ++i) {
      uint64_t now = (uint64_t)kmc::realtime_us() / 1000;
      const uint64_t AT[] = {0, now - 1, now + 1, now + 50, now - 50, 1, 1ull << 50};
      int k = kmc::choose(i < 2 ? 7 : 1, 0, "deadline");
      Wire w = request((uint64_t)i, "pbt.Calc", k % 2 ? "later" : "twice", req_bytes(i, 0));
      w.has_deadline = k != 0; w.deadline = AT[k];
      kmc::peer_send(p, w.encode());
      kmc::wait_idle();
      kmc::check(r.calc.calls.get() == i + 1, "request %d is not served", i);
      kmc::check(r.calc.deadline.get() == (long)(k ? AT[k] : ~0ull), "the controller has the deadline %llu, the request %llu", (unsigned long long)r.calc.deadline.get(), (unsigned long long)AT[k]);
      bool past = k && AT[k] < now;
      kmc::check(r.calc.canceled.get() == past, "the call is %scanceled, the deadline is %s", r.calc.canceled.get() ? "" : "not ", past ? "over" : "not over");
      kmc::sleep_us(kmc::choose(2, 0, "wait") * 3000);
    }
    auto got = Wire::split(kmc::peer_received(p));
    kmc::check(got.size() == 3, "%zu answers, expected 3", got.size());
    for (int i = 0; i < 3; ++i) expect(got[(size_t)i], (uint64_t)i, 0, rsp_bytes(2 * i, 0));
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  r.destroy();
}
// every program of a controller
KMC_SCENARIO("P36", rpc_controller, (0, 0, 0))
{
  RpcController c;
  uint64_t want = ~0ull;
  for (int i = 0; i < 4; ++i) {
    uint64_t now = (uint64_t)kmc::realtime_us() / 1000;
    switch (kmc::choose(9, 0, "op")) {
    case 0: c.SetTimeout(0); want = now; break;
    case 1: c.SetTimeout(1); want = now + 1; break;
    case 2: c.SetTimeout(20); want = now + 20; break;
    case 3: c.SetDeadline(now + 7); want = now + 7; break;
    case 4: c.SetDeadline(TimeStamp((int64_t)(now + 3) * 1000 + 999)); want = now + 3; break;
    case 5: c.Reset(); want = ~0ull; break;
    case 6: kmc::advance_us(1000); break;
    case 7: kmc::advance_us(15600); break;
    case 8: c.SetDeadline((uint64_t)0); want = 0; break;
    }
    now = (uint64_t)kmc::realtime_us() / 1000;
    kmc::check(c.deadline() == want, "the deadline is %llu, expected %llu", (unsigned long long)c.deadline(), (unsigned long long)want);
    if (want == ~0ull || now < want) kmc::check(!c.IsCanceled(), "canceled before the deadline");
    else if (now > want) kmc::check(c.IsCanceled(), "not canceled after the deadline");
    kmc::check(!c.Failed() && c.ErrorText().empty(), "the controller has failed");
  }
}
// answers given later, anywhere, in any order, and when it is too late
static void serve_later(bool gone)
{
  int loops = kmc::choose(2, 0, "loops"), mode = kmc::choose(gone ? 1 : 3, 0, "back end");
  std::vector<Kept> kept;
  Base b(mode);
  EventLoop *l = b.l.get();
  Rpc r(l, loops, mode);
  r.calc.kept = &kept;
  r.s->StartRun();
  int end = gone ? kmc::choose(4, 0, "end") : 0;
  bool reverse = kmc::choose(2, 0, "order") != 0;
  kmc::Counter done;
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    kmc::peer_send(p, request(10, "pbt.Calc", "later", req_bytes(1, 0)).encode() + request(11, "pbt.Calc", "later", req_bytes(2, 0)).encode());
    kmc::wait_until([&] { return r.calc.nkept.get() == 2; });
    kmc::hb_acquire(&kept);
    if (end == 1) kmc::peer_close(p); // the client goes, at the same time
    if (end == 2) kmc::peer_reset(p);
    if (end == 3) l->Quit();
    if (reverse) std::swap(kept[0], kept[1]);
    for (Kept &k : kept) k.d->Run();
    if (end) { kmc::wait_idle(); l->Quit(); return; }
    kmc::wait_idle();
    auto got = Wire::split(kmc::peer_received(p));
    kmc::check(got.size() == 2, "%zu answers, expected 2", got.size());
    for (int i = 0; i < 2; ++i) expect(got[(size_t)i], reverse ? 11 - i : 10 + i, 0, rsp_bytes(reverse ? 4 - 2 * i : 2 + 2 * i, 0));
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all(); // who answers from elsewhere does so while the loops are there
  r.destroy();
}
KMC_SCENARIO("P36", rpc_serve_later, (0, 1, 3)) { serve_later(false); }
KMC_SCENARIO("P36", rpc_serve_gone, (0, 2, 3)) { serve_later(true); }
// answers after the connection, or the server, is gone for good
KMC_SCENARIO("P36", rpc_serve_too_late, (0, 1, 2))
{
  int loops = kmc::choose(2, 0, "loops"), mode = kmc::choose(3, 0, "back end");
  std::vector<Kept> kept;
  std::unique_ptr<Base> b(new Base(mode));
  EventLoop *l = b->l.get();
  int when = kmc::choose(3, 0, "when");
  {
    Rpc r(l, loops, mode);
    r.calc.kept = &kept;
    r.s->StartRun();
    kmc::spawn([&, l] {
      kmc::wait_until([] { return kmc::port_listening(PORT); });
      kmc::Peer *p = kmc::peer_connect(PORT);
      kmc::peer_send(p, request(10, "pbt.Calc", "later", req_bytes(1, 0)).encode());
      kmc::wait_idle();
      kmc::hb_acquire(&kept);
      kmc::peer_close(p);
      kmc::wait_idle();
      kmc::check(kmc::peer_fd_closed(p), "the connection is kept by an answer to come");
      if (when == 0) { kept[0].d->Run(); kept.clear(); kmc::wait_idle(); }
      l->Quit();
    });
    l->StartLoop();
    kmc::join_all();
    kmc::check(r.calc.calls.get() == 1, "the service was not called");
    r.destroy();
  }
  if (when == 1) { for (Kept &k : kept) k.d->Run(); kept.clear(); }
  b.reset();
  for (Kept &k : kept) k.d->Run();
}
// the server is destroyed while requests come
static void serve_destroy(bool in_loop)
{
  int loops = kmc::choose(3, 0, "loops");
  Base b(kmc::choose(2, 0, "back end"));
  EventLoop *l = b.l.get();
  Rpc r(l, loops, 0);
  r.s->StartRun();
  kmc::Counter go;
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    kmc::wait_idle();
    go.set(1);
    kmc::peer_send(p, request(10, "pbt.Calc", "twice", req_bytes(1, 0)).encode());
    kmc::peer_send(p, request(11, "pbt.Other", "twice", req_bytes(1, 0)).encode());
  });
  kmc::spawn([&, l] {
    kmc::wait_until([=] { return go.get() == 1; });
    if (in_loop) { l->QueueToLoop([&] { r.destroy(); }); kmc::wait_idle(); }
    l->Quit();
  });
  l->StartLoop();
  if (!in_loop) r.destroy();
  kmc::join_all();
}
KMC_SCENARIO("P36", rpc_serve_destroy, (0, 2, 4)) { serve_destroy(false); }
KMC_SCENARIO("P36", rpc_serve_destroy_loop, (0, 2, 3)) { serve_destroy(true); }

// ---- the client --------------------------------------------------------------
// a channel over a connection; the test is the server
struct Client {
  enum { MAXN = 8 };
  Conn k;
  std::vector<char> mem; // where the channel lives: it may have held anything
  RpcChannel *chan = nullptr;
  pbt::Rsp *rsp[MAXN] = {};
  kmc::Counter ran[MAXN], is_up;
  std::function<void()> start; // once connected
  explicit Client(int mode, int fill = 0) : k(mode), mem(sizeof(RpcChannel) + 64)
  {
    memset(mem.data(), fill, mem.size());
    char *at = mem.data(); at += (64 - (uintptr_t)at % 64) % 64;
    chan = new (at) RpcChannel();
    k.on_up = [this] { chan->SetConnection(k.c); if (start) start(); kmc::hb_release(&is_up); is_up.set(1); };
  }
  ~Client() { if (chan) chan->~RpcChannel(); for (auto r : rsp) delete r; }
  // call number n, for the answer to n
  Done *call(int n, google::protobuf::RpcController *c, bool permanent = false, const char *method = "twice")
  {
    pbt::Req q; q.set_i(n + 1);
    rsp[n] = new pbt::Rsp;
    int me = k.me;
    auto f = [this, n, me] {
      kmc::check(kmc::self() == me, "a call is completed on a foreign thread");
      kmc::check(rsp[n]->i() == 100 + n, "call %d is completed with the answer %d", n, rsp[n]->i());
      kmc::check(ran[n].add() == 1, "call %d is completed again", n);
    };
    Done *d = permanent ? NewPermanentCallable(f) : NewCallable(f);
    pbt::Calc::Stub stub(chan);
    chan->CallMethod(pbt::Calc::descriptor()->FindMethodByName(method), c, &q, rsp[n], d);
    return d;
  }
  // the requests the server got so far
  std::vector<Wire> requests()
  {
    auto r = Wire::split(kmc::peer_received(k.p));
    for (size_t i = 0; i < r.size(); ++i) {
      Wire const &w = r[i];
      kmc::check(w.type == REQUEST && w.has_id && w.service == "pbt.Calc" && w.has_method && w.has_body[0] && !w.has_body[1] && w.error < 0, "request %zu is malformed", i);
      for (size_t j = 0; j < i; ++j) kmc::check(r[j].id != w.id, "two calls have the id %llu", (unsigned long long)w.id);
    }
    return r;
  }
  static int number(Wire const &w) { pbt::Req q; kmc::check(q.ParseFromString(w.body[0]), "a request has a wrong content"); return q.i() - 1; }
  static std::string answer(Wire const &w)
  {
    Wire a; a.type = RESPONSE; a.has_id = true; a.id = w.id; a.has_body[1] = true; a.body[1] = rsp_bytes(100 + number(w), 0);
    return a.encode();
  }
  static std::string stray(uint64_t id) { Wire a; a.type = RESPONSE; a.has_id = true; a.id = id; a.has_body[1] = true; a.body[1] = rsp_bytes(1, 0); return a.encode(); }
};
// calls on the loop's thread, answered in any order, in one or more segments
KMC_SCENARIO("P36", rpc_call_orders, (0, 0, 1))
{
  static const int FILL[] = {0, 0xff, 1};
  Client x(kmc::choose(3, 0, "back end"), FILL[kmc::choose(3, 0, "memory")]);
  int n = 1 + kmc::choose(3, 0, "calls");
  bool null_controller = kmc::choose(2, 0, "controller") != 0;
  x.start = [&] {
    for (int i = 0; i < n; ++i) { RpcController c; x.call(i, null_controller ? nullptr : &c); }
  };
  kmc::spawn([&] {
    kmc::wait_idle();
    auto r = x.requests();
    kmc::check((int)r.size() == n, "%zu requests for %d calls", r.size(), n);
    for (int i = 0; i < n; ++i) kmc::check(Client::number(r[(size_t)i]) == i && r[(size_t)i].method == "twice" && !r[(size_t)i].has_deadline, "request %d has a wrong content", i);
    bool apart = kmc::choose(2, 0, "segments") != 0;
    int twice = kmc::choose(2, 0, "answered twice");
    std::string wire;
    for (auto left = r; left.size();) {
      size_t i = (size_t)kmc::choose((int)left.size(), 0, "next answer");
      std::string a = Client::answer(left[i]);
      if (twice) a += a;
      left.erase(left.begin() + (long)i);
      if (apart) { kmc::peer_send(x.k.p, a); kmc::wait_idle(); } else wire += a;
    }
    if (!apart) kmc::peer_send(x.k.p, wire);
  });
  finish_when_idle(x.k, [&] {
    for (int i = 0; i < n; ++i) kmc::check(x.ran[i].get() == 1, "call %d is completed %ld times", i, x.ran[i].get());
    kmc::check(x.k.down == 0, "the connection is down");
  });
  x.k.l->StartLoop();
  kmc::join_all();
}
// calls from several threads at once
static void call_threads(int calls, unsigned)
{
  Client x(kmc::choose(3, 0, "back end"));
  int order = kmc::choose(2, 0, "order");
  for (int t = 0; t < 2; ++t)
    kmc::spawn([&, t] {
      kmc::wait_until([&] { return x.is_up.get() != 0; });
      kmc::hb_acquire(&x.is_up);
      for (int i = 0; i < calls; ++i) {
        int n = t * calls + i;
        std::unique_ptr<RpcController> c(t ? new RpcController : nullptr);
        x.call(n, c.get());
      }
    });
  int total = 2 * calls;
  kmc::spawn([&, total, order] {
    kmc::wait_idle();
    auto r = x.requests();
    kmc::check((int)r.size() == total, "%zu requests for %d calls", r.size(), total);
    if (order) for (size_t i = 0; i + 1 < r.size(); i += 2) std::swap(r[i], r[i + 1]);
    for (auto &w : r) kmc::peer_send(x.k.p, Client::answer(w));
  });
  finish_when_idle(x.k, [&, total] { for (int i = 0; i < total; ++i) kmc::check(x.ran[i].get() == 1, "call %d is completed %ld times", i, x.ran[i].get()); });
  x.k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P36", rpc_call_threads, (0, 2, 4)) { call_threads(1, 0); }
KMC_SCENARIO("P36", rpc_call_threads2, (kmc::F_SHORT_WRITE | kmc::F_SHORT_READ, 1, 2)) { call_threads(2, 0); }
// calls with deadlines: in time they are completed, later not, and the channel
// may be gone by then
KMC_SCENARIO("P36", rpc_call_deadline, (0, 0, 1))
{
  Client x(kmc::choose(3, 0, "back end"));
  bool destroy = kmc::choose(2, 0, "channel destroyed") != 0, elsewhere = kmc::choose(2, 0, "calling thread") != 0;
  static const int AT[] = {0, 5, 15, 25, 40};
  int reply_at = AT[kmc::choose(5, 0, "answers")], left = 2;
  uint64_t deadline[2];
  std::vector<Done *> permanent;
  auto go = [&] {
    for (int i = 0; i < 2; ++i) {
      RpcController *c = new RpcController;
      c->SetTimeout(i ? 20 : 10);
      deadline[i] = c->deadline();
      permanent.push_back(x.call(i, c, true));
      c->SetDeadline((uint64_t)1); // it is the user's again
      delete c;
    }
  };
  x.start = [&] { if (!elsewhere) go(); };
  (void)left;
  kmc::spawn([&] {
    kmc::wait_until([&] { return x.is_up.get() != 0; });
    kmc::hb_acquire(&x.is_up);
    if (elsewhere) go();
    int64_t t0 = kmc::now_us();
    kmc::wait_until([&] { return kmc::peer_received(x.k.p).size() > 60; }, 1000);
    auto r = x.requests();
    kmc::check(r.size() == 2, "%zu requests for 2 calls", r.size());
    for (size_t i = 0; i < 2; ++i) kmc::check(r[i].has_deadline && r[i].deadline == deadline[i], "request %zu has the deadline %llu", i, (unsigned long long)r[i].deadline);
    kmc::sleep_us(t0 + reply_at * 1000 - kmc::now_us());
    if (!destroy) {
      for (auto &w : r) kmc::peer_send(x.k.p, Client::answer(w));
      kmc::wait_idle();
      for (int i = 0; i < 2; ++i) kmc::check(x.ran[i].get() == (reply_at < 10 * (i + 1) ? 1 : 0), "call %d with a deadline at %d ms, answered at %d ms, is completed %ld times", i, 10 * (i + 1), reply_at, x.ran[i].get());
    } else {
      kmc::Counter gone;
      x.k.l->QueueToLoop([&, gone] { x.k.c->ForceClose(); x.k.drop(); x.k.l->QueueToLoop([&, gone] { x.k.l->QueueToLoop([&, gone] { x.chan->~RpcChannel(); memset(x.mem.data(), 0x5a, x.mem.size()); x.chan = nullptr; gone.set(1); }); }); });
      kmc::wait_until([=] { return gone.get() != 0; });
    }
    kmc::sleep_us(60000);
    kmc::wait_idle();
    x.k.l->QueueToLoop([&] { if (x.k.c) { x.k.c->ForceClose(); x.k.drop(); } });
    kmc::wait_idle();
    x.k.l->Quit();
  });
  x.k.l->StartLoop();
  kmc::join_all();
  for (Done *d : permanent) delete d;
}
// every mix of deadlines of two calls: a call is completed by an answer in time,
// or without a deadline by any, and never by a later one
KMC_SCENARIO("P36", rpc_call_deadlines, (0, 0, 1))
{
  Client x(kmc::choose(3, 0, "back end"));
  static const int AT[] = {5, 15, 25, 3000}, D[] = {0, -1000, 10, 20, 10, 20, 2999};
  int reply_at = AT[kmc::choose(4, 0, "answers")], kind[2];
  for (int &k : kind) k = kmc::choose(7, 0, "deadline");
  std::vector<Done *> permanent;
  int64_t t0 = 0;
  uint64_t deadline[2] = {};
  x.start = [&] {
    t0 = kmc::realtime_us() / 1000;
    for (int i = 0; i < 2; ++i) {
      RpcController c;
      uint64_t at = (uint64_t)(t0 + D[kind[i]]);
      if (kind[i] == 2 || kind[i] == 3 || kind[i] == 6) c.SetTimeout((uint64_t)D[kind[i]]);
      else if (kind[i] == 4) c.SetDeadline(TimeStamp((int64_t)at * 1000));
      else if (kind[i]) c.SetDeadline(at);
      if (kind[i]) deadline[i] = at;
      permanent.push_back(x.call(i, &c, true));
    }
  };
  kmc::spawn([&] {
    kmc::wait_until([&] { return x.is_up.get() != 0; });
    kmc::hb_acquire(&x.is_up);
    int64_t t = kmc::now_us();
    kmc::wait_until([&] { return kmc::peer_received(x.k.p).size() > 60; }, 1000);
    auto r = x.requests();
    kmc::check(r.size() == 2, "%zu requests for 2 calls", r.size());
    for (size_t i = 0; i < 2; ++i) {
      kmc::check(r[i].has_deadline == (kind[i] != 0), "request %zu %s a deadline", i, kind[i] ? "lacks" : "has");
      if (kind[i]) kmc::check(r[i].deadline == deadline[i], "request %zu has the deadline %lld ms from now", i, (long long)(r[i].deadline - (uint64_t)t0));
    }
    kmc::sleep_us(t + reply_at * 1000 - kmc::now_us());
    kmc::peer_send(x.k.p, Client::answer(r[1]) + Client::answer(r[0]));
    kmc::wait_idle();
    for (int i = 0; i < 2; ++i) kmc::check(x.ran[i].get() == (!kind[i] || reply_at < D[kind[i]] ? 1 : 0), "call %d with a deadline at %d ms (%d), answered at %d ms, is completed %ld times", i, D[kind[i]], kind[i], reply_at, x.ran[i].get());
    x.k.l->QueueToLoop([&] { x.k.c->ForceClose(); x.k.drop(); });
    kmc::wait_idle();
    x.k.l->Quit();
  });
  x.k.l->StartLoop();
  kmc::join_all();
  for (Done *d : permanent) delete d;
}
// the connection is lost in the middle; the channel goes on with another
KMC_SCENARIO("P36", rpc_call_lost, (0, 1, 2))
{
  Client x(kmc::choose(2, 0, "back end"));
  int how = kmc::choose(3, 0, "how");
  std::vector<Done *> permanent;
  x.start = [&] { for (int i = 0; i < 2; ++i) permanent.push_back(x.call(i, nullptr, true)); };
  kmc::spawn([&] {
    kmc::wait_idle();
    auto r = x.requests();
    kmc::check(r.size() == 2, "%zu requests for 2 calls", r.size());
    kmc::peer_send(x.k.p, Client::answer(r[1]).substr(0, how == 2 ? 20 : std::string::npos));
    if (how == 0) kmc::peer_close(x.k.p); else kmc::peer_reset(x.k.p);
    kmc::wait_idle();
    kmc::check(x.ran[0].get() == 0, "a call without an answer is completed");
    kmc::check(x.ran[1].get() <= (how == 2 ? 0 : 1), "call 1 is completed %ld times", x.ran[1].get());
    if (how == 0) kmc::check(x.ran[1].get() == 1, "call 1 is not completed");
  });
  finish_when_idle(x.k, [&] { permanent.push_back(x.call(2, nullptr, true)); });
  x.k.l->StartLoop();
  kmc::join_all();
  for (Done *d : permanent) delete d;
}
// strange but well-formed messages to a client
KMC_SCENARIO("P36", rpc_call_stray, (0, 0, 1))
{
  static const int FILL[] = {0, 0xff, 1};
  Client x(kmc::choose(3, 0, "back end"), FILL[kmc::choose(3, 0, "memory")]);
  x.start = [&] { x.call(0, nullptr); };
  kmc::spawn([&] {
    kmc::wait_idle();
    auto r = x.requests();
    kmc::check(r.size() == 1, "%zu requests for 1 call", r.size());
    std::string a = Client::answer(r[0]), s = request(77, "pbt.Calc", "twice", req_bytes(1, 0)).encode();
    switch (kmc::choose(3, 0, "what")) {
    case 0: kmc::peer_send(x.k.p, a + a); break;
    case 1: kmc::peer_send(x.k.p, s + a); break;
    case 2: kmc::peer_send(x.k.p, a + s); break;
    }
  });
  finish_when_idle(x.k, [&] { kmc::check(x.ran[0].get() == 1, "the call is completed %ld times", x.ran[0].get()); });
  x.k.l->StartLoop();
  kmc::join_all();
}
// requests and answers without content are requests and answers
KMC_SCENARIO("P36", rpc_call_empty, (0, 0, 1))
{
  Client x(kmc::choose(3, 0, "back end"));
  int req = kmc::choose(2, 0, "request"), rsp = kmc::choose(2, 0, "answer");
  pbt::Any r[2];
  kmc::Counter n[2];
  x.start = [&] {
    for (int i = 0; i < 2; ++i) {
      pbt::Any q;
      if (i == req) q.set_data("question");
      kmc::Counter c = n[i];
      x.chan->CallMethod(pbt::Other::descriptor()->FindMethodByName("echo"), nullptr, &q, &r[i], NewCallable([c]() mutable { c.add(); }));
    }
  };
  kmc::spawn([&] {
    kmc::wait_idle();
    auto w = Wire::split(kmc::peer_received(x.k.p));
    kmc::check(w.size() == 2, "%zu requests for 2 calls", w.size());
    for (int i = 0; i < 2; ++i) {
      kmc::check(w[(size_t)i].service == "pbt.Other" && w[(size_t)i].method == "echo" && w[(size_t)i].has_body[0] && w[(size_t)i].body[0] == (i == req ? any_bytes("question") : ""), "request %d has a wrong content", i);
      Wire a; a.type = RESPONSE; a.has_id = true; a.id = w[(size_t)i].id; a.has_body[1] = true; a.body[1] = i == rsp ? any_bytes("answer") : "";
      kmc::peer_send(x.k.p, a.encode());
    }
  });
  finish_when_idle(x.k, [&] {
    for (int i = 0; i < 2; ++i) {
      kmc::check(n[i].get() == 1, "call %d is completed %ld times", i, n[i].get());
      kmc::check(r[i].has_data() == (i == rsp) && r[i].data() == (i == rsp ? "answer" : ""), "call %d is completed with a wrong answer", i);
    }
  });
  x.k.l->StartLoop();
  kmc::join_all();
}
// no answer wanted
KMC_SCENARIO("P36", rpc_call_notify, (0, 1, 3))
{
  Client x(kmc::choose(3, 0, "back end"));
  x.start = [&] {
    pbt::Req q; q.set_i(1);
    x.chan->CallMethod(pbt::Calc::descriptor()->FindMethodByName("never"), nullptr, &q, nullptr, nullptr);
  };
  kmc::spawn([&] {
    kmc::wait_idle();
    auto r = x.requests();
    kmc::check(r.size() == 1 && r[0].method == "never", "%zu requests for 1 call", r.size());
    kmc::peer_send(x.k.p, Client::answer(r[0]));
  });
  finish_when_idle(x.k, [] {});
  x.k.l->StartLoop();
  kmc::join_all();
}

// ---- both ends: clients of the library call a server of the library
static void both(int clients, int calls)
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(2, 0, "loops"), method = kmc::choose(3, 0, "method");
  Base b(mode);
  EventLoop *l = b.l.get();
  Rpc r(l, loops, mode);
  if (method == 2) r.calc.other = l;
  r.s->StartRun();
  EventLoopThread lt("clients");
  EventLoop *cl = lt.StartRun();
  struct C { TcpClientPtr c; RpcChannel chan; kmc::Counter up, done[4]; pbt::Rsp rsp[4]; int wrong = 0; };
  std::vector<std::unique_ptr<C>> cs;
  for (int i = 0; i < clients; ++i) {
    cs.emplace_back(new C);
    C *x = cs.back().get();
    x->c = NewTcpClient(cl, InetAddr(PORT, true), "cli" + std::to_string(i));
    x->c->SetConnectionCallback([x](TcpConnectionPtr const &c) { if (c->IsConnected()) { x->chan.SetConnection(c); kmc::hb_release(x); x->up.set(1); } });
    x->c->Connect();
  }
  kmc::spawn([&, l] {
    for (int i = 0; i < clients; ++i) {
      C *x = cs[(size_t)i].get();
      kmc::wait_until([x] { return x->up.get() != 0; });
      kmc::hb_acquire(x);
      pbt::Calc::Stub stub(&x->chan);
      for (int j = 0; j < calls; ++j) {
        pbt::Req q; q.set_i(10 * i + j + 1);
        pbt::Rsp *rsp = &x->rsp[j];
        kmc::Counter d = x->done[j];
        int want = 2 * (10 * i + j + 1);
        Done *k = NewCallable([=] {
          kmc::Counter n = d;
          kmc::check(cl->IsLoopInThread(), "a call is completed on a foreign thread");
          kmc::check(rsp->i() == want, "a call is completed with the answer %d, expected %d", rsp->i(), want);
          kmc::check(n.add() == 1, "a call is completed again");
        });
        RpcController c;
        if (method == 0) stub.twice(nullptr, &q, rsp, k); else stub.later(&c, &q, rsp, k);
      }
    }
    kmc::wait_idle();
    for (int i = 0; i < clients; ++i)
      for (int j = 0; j < calls; ++j) kmc::check(cs[(size_t)i]->done[j].get() == 1, "call %d of client %d is completed %ld times", j, i, cs[(size_t)i]->done[j].get());
    kmc::check(r.calc.calls.get() == clients * calls, "the service is called %ld times for %d calls", r.calc.calls.get(), clients * calls);
    for (auto &x : cs) x->c->Disconnect();
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  for (auto &x : cs) x->c.reset();
  r.destroy();
}
KMC_SCENARIO("P36", rpc_both, (WF | RF, 1, 2)) { both(1, 2); }
KMC_SCENARIO("P36", rpc_both_clients, (0, 1, 2)) { both(2, 1); }
