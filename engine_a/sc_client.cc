// Scenarios for the client side: P14, P15
#include "kmc.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/channel.h"
#include "kanon/net/connector.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/tcp_client.h"
#include <errno.h>
#include <memory>
#include <string.h>
#include <unistd.h>
#include <vector>
using namespace kanon;
using namespace kmc;
static const int PORT = 9000;
struct Base {
  std::unique_ptr<EventLoop> l;
  explicit Base(int m) : l(new EventLoop(m == 1)) { if (m == 2) l->SetEdgeTriggerMode(); }
};
static bool good(int o) { return o == C_INPROGRESS_OK || o == C_IMMEDIATE_OK || o == C_EINTR_OK || o == C_SAMEPORT_OK || o == C_SAMEHOST_OK; }
static bool fatal(int o) { return o == C_EACCES; }

// ---- P14 --------------------------------------------------------------------
// every sequence of outcomes: one descriptor for the good one, retries in
// between after 0.5 s, 1 s, 2 s ... 30 s
static void backoff(int free_attempts, std::initializer_list<int> outs, int seconds = 120)
{
  Base b(kmc::choose(3, 0, "back end"));
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true, kmc::choose(2, 0, "IPv6") == 1);
  auto k = Connector::NewConnector(l, a);
  std::vector<int> got;
  kmc::connect_outcomes(outs, 0);
  k->SetNewConnectionCallback([&](int fd) { got.push_back(fd); });
  k->StartRun();
  int64_t limit = 0;
  std::function<void()> watch = [&] {
    auto log = kmc::connect_log();
    if ((int)log.size() >= free_attempts) kmc::connect_outcomes({C_REFUSED_LATER}, 0);
    if (++limit > 400) { k->Stop(); l->Quit(); } else l->RunAfter(watch, seconds / 400.0);
  };
  watch();
  l->StartLoop();
  auto log = kmc::connect_log();
  kmc::check(log.size() >= 1, "no attempt to connect");
  int64_t want = 500000;
  bool ended = false;
  for (size_t i = 0; i < log.size(); ++i) {
    kmc::check(!ended, "attempt %zu after the connection or a fatal error", i);
    if (i) {
      int64_t d = log[i].t - log[i - 1].t;
      kmc::check(d >= want && d < want + 1000, "attempt %zu came %lld us after the one before, %lld expected", i, (long long)d, (long long)want);
      want = want * 2 > 30000000 ? 30000000 : want * 2;
    }
    ended = good(log[i].outcome) || fatal(log[i].outcome);
  }
  // 31.5 s for the first six, then every 30 s
  if (!ended) kmc::check((int)log.size() == 7 + (seconds * 2 - 63) / 60, "%zu attempts in %d seconds", log.size(), seconds);
  bool ok = ended && good(log.back().outcome);
  kmc::check(got.size() == (ok ? 1u : 0u), "%zu descriptors handed over for %d successful attempts", got.size(), ok);
  for (int fd : got) ::close(fd);
  k.reset();
}
KMC_SCENARIO("P14", retry_outcomes, (0, 0, 0)) { backoff(3, {C_INPROGRESS_OK, C_IMMEDIATE_OK, C_REFUSED_NOW, C_REFUSED_LATER, C_TIMEDOUT_LATER, C_SELF, C_UNREACH_NOW, C_UNREACH_LATER, C_EADDRNOTAVAIL, C_EINTR_OK, C_EACCES, C_SAMEPORT_OK, C_SAMEHOST_OK}); }
KMC_SCENARIO("P14", retry_long, (0, 0, 0)) { backoff(7, {C_REFUSED_LATER, C_INPROGRESS_OK, C_SELF}); }

KMC_SCENARIO("P14", retry_forever, (0, 0, 0)) { backoff(1, {C_REFUSED_LATER, C_REFUSED_NOW, C_SELF, C_EACCES}, 2400); }

// every error connect() may report, at once or later: what may pass is tried
// again, nothing crashes or leaks
KMC_SCENARIO("P14", connect_errors, (0, 0, 0))
{
  static const int PASS[] = {EAGAIN, EADDRNOTAVAIL, ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, ETIMEDOUT},
                   OTHER[] = {EACCES, EPERM, EADDRINUSE, EAFNOSUPPORT, ENOBUFS, ENETDOWN, EPROTOTYPE, EALREADY, EISCONN, EINVAL},
                   LATE[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET, EHOSTDOWN, EPROTO, ENETDOWN};
  int kind = kmc::choose(3, 0, "kind"), e = kind == 0 ? PASS[kmc::choose(6, 0, "error")] : kind == 1 ? OTHER[kmc::choose(10, 0, "error")] : LATE[kmc::choose(8, 0, "error")];
  int mode = kmc::choose(3, 0, "back end"), times = 1 + kmc::choose(3, 0, "times");
  Base b(mode);
  EventLoop *l = b.l.get();
  auto k = Connector::NewConnector(l, InetAddr(PORT, true));
  std::vector<int> got;
  kmc::connect_outcomes({(kind == 2 ? C_ERROR_LATER : C_ERROR_NOW) + e}, 0);
  k->SetNewConnectionCallback([&](int fd) { got.push_back(fd); });
  k->StartRun();
  kmc::spawn([&, l] {
    for (int i = 0; i < times; ++i) {
      if (i + 1 == times) { kmc::wait_idle(); kmc::connect_outcomes({}, 0); }
      kmc::sleep_us(i == 0 ? 600000 : i == 1 ? 1000000 : 2000000);
      kmc::wait_idle();
      if (kind != 1) kmc::check((int)kmc::connect_log().size() == i + 2, "%zu attempts, expected %d (%s)", kmc::connect_log().size(), i + 2, strerror(e));
    }
    l->QueueToLoop([&, l] {
      if (kind != 1) kmc::check(got.size() == 1, "%zu descriptors were handed over (%s)", got.size(), strerror(e));
      else if (kmc::connect_log().size() == 1) kmc::check(got.empty(), "a failed descriptor was handed over (%s)", strerror(e));
      k->Stop();
      l->Quit();
    });
  });
  l->StartLoop();
  kmc::join_all();
  for (int fd : got) ::close(fd);
  k.reset();
}
// what starts anew starts with the first delay
KMC_SCENARIO("P14", retry_anew, (0, 0, 0))
{
  Base b(kmc::choose(3, 0, "back end"));
  EventLoop *l = b.l.get();
  auto k = Connector::NewConnector(l, InetAddr(PORT, true));
  int before = kmc::choose(4, 0, "failures before"), after = 1 + kmc::choose(4, 0, "failures after"), how = kmc::choose(4, 0, "how"), late = kmc::choose(2, 0, "refused later");
  kmc::Counter got, last;
  k->SetNewConnectionCallback([=](int fd) mutable { got.add(); last.set(fd); });
  auto refuse = [=] { kmc::connect_outcomes({late ? C_REFUSED_LATER : C_REFUSED_NOW}, 0); };
  if (before || how >= 2) refuse();
  k->StartRun();
  kmc::spawn([&, l] {
    auto fails = [&](size_t first, int n) { // n refused attempts, the next one is not
      for (int i = 0, d = 500000; i < n; ++i, d *= 2) {
        kmc::wait_idle();
        kmc::check(kmc::connect_log().size() == first + (size_t)i + 1, "%zu attempts, expected %zu", kmc::connect_log().size(), first + (size_t)i + 1);
        if (i + 1 == n && how < 2) kmc::connect_outcomes({}, 0);
        kmc::sleep_us(d);
      }
      kmc::wait_idle();
      auto log = kmc::connect_log();
      kmc::check(log.size() == first + (size_t)n + 1, "%zu attempts, expected %zu", log.size(), first + (size_t)n + 1);
      int64_t d = 500000;
      for (size_t i = first; i + 1 < log.size(); ++i, d *= 2) kmc::check(log[i + 1].t - log[i].t >= d && log[i + 1].t - log[i].t < d + 2000, "%lld us between attempts, expected %lld", (long long)(log[i + 1].t - log[i].t), (long long)d);
    };
    fails(0, before);
    if (how < 2) {
      kmc::check(got.get() == 1, "%ld descriptors were handed over", got.get());
      refuse();
    }
    // lost and connected again, by hand or by a restart; or restarted while it waits
    size_t first = kmc::connect_log().size();
    l->QueueToLoop([&] {
      if (got.get()) { ::close((int)last.get()); got.set(0); }
      if (how == 0) { k->Disconnected(); k->StartRun(); }
      else if (how == 1) { k->Disconnected(); k->Restrat(); }
      else { if (how == 3) k->Stop(); k->Restrat(); }
    });
    fails(first, after);
    if (how < 2) kmc::check(got.get() == 1, "%ld descriptors were handed over after the restart", got.get());
    l->QueueToLoop([&, l] { k->Stop(); l->Quit(); });
  });
  l->StartLoop();
  kmc::join_all();
  if (got.get()) ::close((int)last.get());
  k.reset();
}
// operations on the connector in every order, at different times
static void connector_ops(int depth, bool other)
{
  Base b(kmc::choose(other ? 1 : 2, 0, "back end"));
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true);
  auto k = Connector::NewConnector(l, a);
  std::vector<int> got;
  static const int OUT[][2] = {{C_INPROGRESS_OK, C_INPROGRESS_OK}, {C_REFUSED_NOW, C_INPROGRESS_OK}, {C_REFUSED_LATER, C_REFUSED_LATER}, {C_SELF, C_IMMEDIATE_OK}, {C_NEVER, C_INPROGRESS_OK}, {C_EACCES, C_INPROGRESS_OK}};
  int o = kmc::choose(6, 0, "outcomes");
  kmc::connect_outcomes({OUT[o][0]}, 0);
  kmc::Counter state, attempts_at_stop, have; // state: 0 not started, 1 running, 2 stopped
  k->SetNewConnectionCallback([&](int fd) {
    kmc::check(state.get() != 2, "a descriptor was handed over after the stop");
    kmc::check(have.get() == 0, "a second descriptor was handed over");
    got.push_back(fd);
    have.add();
  });
  auto verify = [&] {
    size_t n = kmc::connect_log().size();
    if (n == 1) kmc::connect_outcomes({OUT[o][1]}, 0);
    if (state.get() == 0) kmc::check(n == 0, "connects before the start");
    if (state.get() == 2) kmc::check((long)n == attempts_at_stop.get(), "connects after the stop");
    int open = kmc::open_fds();
    (void)open;
  };
  auto op = [&](int x) {
    switch (x) {
    case 0: if (state.get() == 0) state.set(1); k->StartRun(); break;
    case 1: k->Stop(); state.set(2); attempts_at_stop.set(kmc::connect_log().size()); break;
    case 2: // the user is done with the descriptor before it asks for another one
      for (int fd : got) ::close(fd);
      got.clear(); have.set(0);
      state.set(1);
      k->Restrat();
      break;
    case 3: for (int fd : got) ::close(fd); got.clear(); have.set(0); k->Disconnected(); break;
    }
  };
  int step = 0;
  static const double W[] = {0, 0.3, 0.7, 5};
  std::function<void()> drive = [&, l] {
    verify();
    if (step++ == depth) {
      op(1);
      l->RunAfter([&, l] { verify(); k.reset(); l->Quit(); }, 70);
      return;
    }
    op(kmc::choose(4, 0, "op"));
    double w = W[kmc::choose(other ? 2 : 4, 0, "wait")];
    if (w == 0) l->QueueToLoop(drive); else l->RunAfter(drive, w);
  };
  l->QueueToLoop(drive);
  l->StartLoop();
  for (int fd : got) ::close(fd);
}
KMC_SCENARIO("P14", connector_programs, (0, 0, 0)) { connector_ops(3, false); }
KMC_SCENARIO("P14", connector_programs4, (0, 0, 0)) { connector_ops(4, true); }

// stopped, restarted and released by other threads at any moment
KMC_SCENARIO("P14", connector_threads, (kmc::F_TIME | kmc::F_ENV, 2, 4))
{
  Base b(kmc::choose(2, 0, "back end"));
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true);
  auto k = Connector::NewConnector(l, a);
  static const int OUT[] = {C_INPROGRESS_OK, C_REFUSED_NOW, C_REFUSED_LATER, C_SELF, C_IMMEDIATE_OK};
  kmc::connect_outcomes({OUT[kmc::choose(5, 0, "outcome")]}, 0);
  int how = kmc::choose(3, 0, "how");
  kmc::Counter have, stopped, at;
  kmc::Counter fds[3];
  k->SetNewConnectionCallback([=](int fd) {
    kmc::check(!stopped.get(), "a descriptor was handed over after the stop took effect");
    fds[(have.add() - 1) % 3].set(fd);
  });
  kmc::spawn([=]() mutable {
    k->StartRun();
    if (how == 2) k->StartRun();
    k->Stop();
    if (how == 1) { k->Restrat(); k->Stop(); }
    l->QueueToLoop([=] { stopped.set(1); at.set(kmc::connect_log().size()); });
    k.reset();
  });
  k.reset();
  kmc::spawn([=] {
    kmc::wait_until([=] { return stopped.get() == 1; });
    kmc::sleep_us(40000000);
    kmc::wait_idle();
    kmc::check(at.get() == (long)kmc::connect_log().size(), "connects after the stop took effect");
    kmc::check(have.get() <= 2, "%ld descriptors were handed over", have.get());
    for (int i = 0; i < have.get(); ++i) ::close((int)fds[i].get());
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}

// ---- P15 --------------------------------------------------------------------
// a client with observers
struct Cli {
  TcpClientPtr c;
  kmc::Counter up, down, msgs, live, loop;
  explicit Cli(EventLoop *l, bool compact = true)
  {
    InetAddr a(PORT, true);
    c = NewTcpClient(l, a, "cli", compact);
    kmc::Counter up = this->up, down = this->down, msgs = this->msgs, live = this->live;
    c->SetConnectionCallback([=](TcpConnectionPtr const &x) {
      kmc::check(l->IsLoopInThread(), "connection callback on a foreign thread");
      if (x->IsConnected()) { kmc::check(live.add() == 1, "connected reported while another connection is up"); up.add(); }
      else { kmc::check(live.add(-1) == 0, "not connected reported without connected"); down.add(); }
    });
    c->SetMessageCallback([=](TcpConnectionPtr const &, Buffer &b, TimeStamp) {
      kmc::check(live.get() == 1, "message without a connection");
      msgs.add(b.GetReadableSize());
      b.AdvanceRead(b.GetReadableSize());
    });
  }
};
// what the peer does, with and without retry: one report each, reconnects or not
KMC_SCENARIO("P15", client_retry, (0, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), retry = kmc::choose(2, 0, "retry"), lose = kmc::choose(3, 0, "lose"), compact = kmc::choose(2, 0, "compact");
  static const int OUT[] = {C_INPROGRESS_OK, C_IMMEDIATE_OK, C_REFUSED_NOW, C_REFUSED_LATER, C_SELF};
  int o = kmc::choose(5, 0, "first outcome");
  Base b(mode);
  EventLoop *l = b.l.get();
  kmc::connect_outcomes({OUT[o]}, 0);
  Cli k(l, compact);
  if (retry) k.c->EnableRetry();
  k.c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    kmc::connect_outcomes({}, 0);
    kmc::check((int)kmc::connect_log().size() == 1, "%zu attempts at first", kmc::connect_log().size());
    if (!good(OUT[o])) { kmc::check(k.up.get() == 0, "connected reported after a failure"); kmc::sleep_us(600000); kmc::wait_idle(); }
    kmc::check(k.up.get() == 1 && k.down.get() == 0, "connected was reported %ld times, not connected %ld times", k.up.get(), k.down.get());
    auto conn = k.c->GetConnection();
    kmc::check(conn && conn->IsConnected(), "no connection although connected was reported");
    conn.reset();
    auto ps = kmc::connected_peers();
    kmc::Peer *p = ps.back();
    kmc::peer_send(p, "hello");
    if (lose == 0) kmc::peer_close(p);
    if (lose == 1) kmc::peer_reset(p);
    if (lose == 2) kmc::peer_shutdown(p);
    size_t before = kmc::connect_log().size();
    kmc::wait_idle();
    kmc::sleep_us(2000000);
    kmc::wait_idle();
    kmc::check(k.down.get() == 1, "the lost connection was reported %ld times", k.down.get());
    kmc::check(kmc::peer_fd_closed(p), "the descriptor of the lost connection is open");
    if (lose != 1) kmc::check(k.msgs.get() == 5, "%ld of 5 bytes were delivered", k.msgs.get());
    kmc::check((int)(kmc::connect_log().size() - before) == retry, "%zu new attempts after the loss", kmc::connect_log().size() - before);
    kmc::check(k.up.get() == 1 + retry, "connected was reported %ld times", k.up.get());
    kmc::check((k.c->GetConnection() != nullptr) == (retry == 1), "the connection of the client is wrong");
    if (!retry) { // by hand
      k.c->Connect();
      kmc::wait_idle();
      kmc::check(k.up.get() == 2, "connecting again does not work");
    }
    Cli *q = &k;
    l->QueueToLoop([q] { q->c.reset(); });
    kmc::wait_idle();
    kmc::sleep_us(40000000);
    kmc::check(k.up.get() == 2 && k.down.get() == 2, "at the end connected was reported %ld times, not connected %ld times", k.up.get(), k.down.get());
    for (auto x : kmc::connected_peers()) kmc::check(kmc::peer_fd_closed(x), "a descriptor is open after the client is gone");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
// disconnecting: what was sent arrives, then the end; no reconnecting
KMC_SCENARIO("P15", client_disconnect, (kmc::F_SHORT_WRITE | kmc::F_EAGAIN_WRITE, 2, 3))
{
  int mode = kmc::choose(3, 0, "back end"), retry = kmc::choose(2, 0, "retry"), thread = kmc::choose(2, 0, "thread");
  Base b(mode);
  EventLoop *l = b.l.get();
  Cli k(l);
  if (retry) k.c->EnableRetry();
  k.c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_until([&] { return k.up.get() == 1; });
    Cli *q = &k;
    auto f = [q] {
      auto c = q->c->GetConnection();
      kmc::check(c != nullptr, "no connection although connected was reported");
      c->Send(StringView("good", 4));
      c->Send(StringView("bye", 3));
      q->c->Disconnect();
      kmc::hb_release(q);
    };
    if (thread) f(); else l->QueueToLoop(f);
    kmc::wait_idle();
    kmc::Peer *p = kmc::connected_peers().back();
    kmc::check(kmc::peer_received(p) == "goodbye", "the peer received '%s'", kmc::peer_received(p).c_str());
    kmc::check(kmc::peer_fin_count(p) == 1, "the peer got end of stream %d times", kmc::peer_fin_count(p));
    kmc::check(k.down.get() == 0, "not connected was reported before the peer closed");
    kmc::peer_close(p);
    kmc::wait_idle();
    kmc::sleep_us(2000000);
    kmc::wait_idle();
    kmc::check(k.down.get() == 1, "not connected was reported %ld times", k.down.get());
    kmc::check(kmc::connect_log().size() == 1, "the client connected again after it was disconnected");
    kmc::check(kmc::peer_fd_closed(p), "the descriptor is open");
    kmc::hb_acquire(q);
    k.c.reset();
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
// stopping while connecting or waiting to retry
KMC_SCENARIO("P15", client_stop, (kmc::F_TIME | kmc::F_ENV, 2, 3))
{
  int mode = kmc::choose(2, 0, "back end"), retry = kmc::choose(2, 0, "retry");
  static const int OUT[] = {C_INPROGRESS_OK, C_REFUSED_NOW, C_REFUSED_LATER, C_NEVER, C_SELF};
  int o = kmc::choose(5, 0, "outcome");
  Base b(mode);
  EventLoop *l = b.l.get();
  kmc::connect_outcomes({OUT[o]}, 0);
  Cli k(l);
  if (retry) k.c->EnableRetry();
  kmc::Counter stopped, at, ups;
  kmc::spawn([&, l] {
    k.c->Connect();
    k.c->Stop();
    kmc::Counter s = stopped, t = at, u = ups, v = k.up;
    l->QueueToLoop([s, t, u, v]() mutable { s.set(1); t.set(kmc::connect_log().size()); u.set(v.get()); });
    kmc::wait_until([=] { return stopped.get() == 1; });
    kmc::sleep_us(40000000);
    kmc::wait_idle();
    kmc::check(at.get() == (long)kmc::connect_log().size(), "connects after the stop took effect");
    kmc::check(ups.get() == k.up.get(), "connected was reported after the stop took effect");
    kmc::check(k.up.get() <= 1 && k.up.get() - k.down.get() == (k.c->GetConnection() ? 1 : 0), "connected was reported %ld times, not connected %ld times", k.up.get(), k.down.get());
    k.c.reset();
    kmc::wait_idle();
    kmc::check(k.up.get() == k.down.get(), "a connection is up after the client is gone");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
// destroyed at any moment, by its loop or another thread
static void destroy(bool from_loop)
{
  int mode = kmc::choose(2, 0, "back end"), retry = kmc::choose(2, 0, "retry"), peer = kmc::choose(3, 0, "peer");
  static const int OUT[] = {C_INPROGRESS_OK, C_REFUSED_NOW, C_REFUSED_LATER, C_IMMEDIATE_OK, C_SELF, C_NEVER};
  int o = kmc::choose(6, 0, "outcome");
  Base b(mode);
  EventLoop *l = b.l.get();
  kmc::connect_outcomes({OUT[o]}, 0);
  std::unique_ptr<Cli> k(new Cli(l));
  kmc::Counter up = k->up, down = k->down, gone;
  if (retry) k->c->EnableRetry();
  k->c->Connect();
  TcpClientPtr c = std::move(k->c);
  k.reset();
  kmc::spawn([=]() mutable {
    if (from_loop) { l->QueueToLoop([c]() mutable { c.reset(); }); c.reset(); }
    else c.reset();
    gone.set(1);
  });
  c.reset();
  if (peer)
    kmc::spawn([=] {
      kmc::wait_until([=] { return gone.get() || !kmc::connected_peers().empty(); });
      auto ps = kmc::connected_peers();
      if (ps.empty()) return;
      if (peer == 1) { kmc::peer_send(ps[0], "x"); kmc::peer_close(ps[0]); }
      if (peer == 2) kmc::peer_reset(ps[0]);
    });
  kmc::spawn([=] {
    kmc::wait_until([=] { return gone.get() == 1; });
    kmc::wait_idle();
    size_t at = kmc::connect_log().size();
    long u = up.get();
    kmc::sleep_us(70000000);
    kmc::wait_idle();
    kmc::check(at == kmc::connect_log().size(), "connects after the client is gone");
    kmc::check(u == up.get(), "connected was reported after the client is gone");
    kmc::check(up.get() == down.get() && up.get() <= 1 + retry, "connected was reported %ld times, not connected %ld times", up.get(), down.get());
    for (auto x : kmc::connected_peers()) kmc::check(kmc::peer_fd_closed(x), "a descriptor is open after the client is gone");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P15", client_destroy, (kmc::F_ENV, 2, 3)) { destroy(false); }
KMC_SCENARIO("P15", client_destroy_loop, (kmc::F_ENV, 1, 3)) { destroy(true); }

// the connection callback ends the connection at once; the client is usable afterwards
KMC_SCENARIO("P15", client_close_up, (0, 1, 3))
{
  int mode = kmc::choose(3, 0, "back end"), how = kmc::choose(4, 0, "how"), retry = kmc::choose(2, 0, "retry"), in_msg = kmc::choose(2, 0, "when");
  Base b(mode);
  EventLoop *l = b.l.get();
  Cli k(l);
  kmc::Counter up, down, did;
  Cli *q = &k;
  auto act = [=](TcpConnectionPtr const &x) {
    if (did.get()) return;
    did.set(1);
    if (how == 0) x->ForceClose();
    if (how == 1) x->ShutdownWrite();
    if (how == 2) q->c->Disconnect();
    if (how == 3) { x->Send(StringView("x", 1)); x->ForceClose(); }
  };
  k.c->SetConnectionCallback([=](TcpConnectionPtr const &x) {
    if (x->IsConnected()) { up.add(); if (!in_msg) act(x); }
    else { down.add(); kmc::check(down.get() <= up.get(), "not connected reported without connected"); }
  });
  k.c->SetMessageCallback([=](TcpConnectionPtr const &x, Buffer &m, TimeStamp) { m.AdvanceRead(m.GetReadableSize()); if (in_msg) act(x); });
  if (retry) k.c->EnableRetry();
  k.c->Connect();
  kmc::spawn([=] {
    kmc::wait_idle();
    kmc::Peer *p = kmc::connected_peers()[0];
    if (in_msg) { kmc::peer_send(p, "m"); kmc::wait_idle(); }
    if (how == 1 || how == 2) { kmc::check(kmc::peer_fin_count(p) == 1, "the peer got end of stream %d times", kmc::peer_fin_count(p)); kmc::peer_close(p); }
    kmc::wait_idle();
    kmc::sleep_us(3000000);
    kmc::wait_idle();
    // disconnecting ends the retrying
    int again = retry && how != 2;
    kmc::check(down.get() == 1 && up.get() == 1 + again, "connected was reported %ld times, not connected %ld times", up.get(), down.get());
    kmc::check(kmc::peer_fd_closed(p), "the descriptor of the closed connection is open");
    if (!again) {
      kmc::check(q->c->GetConnection() == nullptr, "the client keeps the closed connection");
      q->c->Connect();
      kmc::wait_idle();
      kmc::check(up.get() == 2, "connecting again does not work");
    }
    auto c = q->c->GetConnection();
    kmc::check(c && c->IsConnected(), "no connection although connected was reported");
    c.reset();
    l->QueueToLoop([=] { q->c.reset(); });
    kmc::wait_idle();
    kmc::check(up.get() == 2 && down.get() == 2, "at the end connected was reported %ld times, not connected %ld times", up.get(), down.get());
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
// destroyed by its own callbacks
KMC_SCENARIO("P15", client_destroy_callback, (0, 2, 4))
{
  int mode = kmc::choose(3, 0, "back end"), where = kmc::choose(4, 0, "where"), retry = kmc::choose(2, 0, "retry");
  Base b(mode);
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true);
  kmc::Counter up, down;
  auto c = NewTcpClient(l, a, "cli");
  if (retry) c->EnableRetry();
  c->SetConnectionCallback([&](TcpConnectionPtr const &x) {
    if (x->IsConnected()) { up.add(); if (where == 0) c.reset(); if (where == 1) { x->ForceClose(); c.reset(); } }
    else { down.add(); if (where == 2) c.reset(); }
  });
  c->SetMessageCallback([&](TcpConnectionPtr const &, Buffer &x, TimeStamp) { x.AdvanceRead(x.GetReadableSize()); if (where == 3) c.reset(); });
  c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    kmc::Peer *p = kmc::connected_peers()[0];
    kmc::peer_send(p, "x");
    kmc::peer_close(p);
    kmc::wait_idle();
    kmc::sleep_us(2000000);
    kmc::wait_idle();
    kmc::check(up.get() == 1 && down.get() == 1, "connected was reported %ld times, not connected %ld times", up.get(), down.get());
    // ForceClose() of the third way happens while the client is alive: it may retry
    kmc::check(kmc::connect_log().size() <= (where == 1 && retry ? 2u : 1u), "connects after the client is gone");
    kmc::check(kmc::peer_fd_closed(p), "the descriptor is open after the client is gone");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
// the user keeps the connection when it destroys the client
KMC_SCENARIO("P15", client_destroy_held, (0, 2, 4))
{
  int mode = kmc::choose(3, 0, "back end"), peer = kmc::choose(3, 0, "peer"), early = kmc::choose(2, 0, "release early");
  Base b(mode);
  EventLoop *l = b.l.get();
  Cli k(l);
  k.c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_until([&] { return k.up.get() == 1; });
    auto conn = k.c->GetConnection();
    kmc::check(conn != nullptr, "no connection although connected was reported");
    k.c.reset();
    kmc::wait_idle();
    kmc::check(k.down.get() == 0, "the connection the user holds was closed");
    conn->Send(StringView("still", 5));
    kmc::wait_idle();
    kmc::Peer *p = kmc::connected_peers()[0];
    kmc::check(kmc::peer_received(p) == "still", "the peer received '%s'", kmc::peer_received(p).c_str());
    if (early) conn.reset();
    if (peer == 0) kmc::peer_close(p);
    if (peer == 1) kmc::peer_reset(p);
    if (peer == 2) { if (conn) conn->ForceClose(); else kmc::peer_shutdown(p); }
    conn.reset();
    kmc::wait_idle();
    kmc::check(k.down.get() == 1, "not connected was reported %ld times", k.down.get());
    kmc::check(kmc::peer_fd_closed(p), "the descriptor is open");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
// operations of the user in every order
KMC_SCENARIO("P15", client_programs, (0, 0, 0))
{
  Base b(kmc::choose(2, 0, "back end"));
  EventLoop *l = b.l.get();
  Cli k(l);
  int o = kmc::choose(3, 0, "outcomes");
  if (o == 1) kmc::connect_outcomes({C_REFUSED_NOW}, 0);
  if (o == 2) kmc::connect_outcomes({C_REFUSED_LATER}, 0);
  bool stopped = false, retry = false;
  int step = 0;
  std::function<void()> drive = [&, l] {
    auto ps = kmc::connected_peers();
    if (step == 2) kmc::connect_outcomes({}, 0);
    kmc::check(k.up.get() - k.down.get() == (k.c->GetConnection() ? 1 : 0), "connected was reported %ld times, not connected %ld times, but the client has %d connection", k.up.get(), k.down.get(), k.c->GetConnection() ? 1 : 0);
    if (step++ == 4) {
      k.c.reset();
      l->RunAfter([&, l] {
        kmc::check(k.up.get() == k.down.get(), "a connection is up after the client is gone");
        for (auto x : kmc::connected_peers()) kmc::check(kmc::peer_fd_closed(x), "a descriptor is open after the client is gone");
        l->Quit();
      }, 70);
      return;
    }
    switch (kmc::choose(7, 0, "op")) {
    case 0: k.c->Connect(); break;
    case 1: k.c->Disconnect(); retry = false; break;
    case 2: k.c->Stop(); stopped = true; retry = false; break;
    case 3: k.c->EnableRetry(); retry = true; break;
    case 4: if (!ps.empty()) kmc::peer_close(ps.back()); break;
    case 5: if (!ps.empty()) kmc::peer_reset(ps.back()); break;
    case 6: { auto c = k.c->GetConnection(); if (c) { c->Send(StringView("x", 1)); c->ForceClose(); } break; }
    }
    if (kmc::choose(2, 0, "wait")) l->RunAfter(drive, 1.2); else l->QueueToLoop(drive);
  };
  l->QueueToLoop(drive);
  l->StartLoop();
  (void)stopped; (void)retry;
}

// ---- P05 --------------------------------------------------------------------
// the callback of the client reaches every connection it makes
KMC_SCENARIO("P05", client_write_complete, (kmc::F_SHORT_WRITE | kmc::F_EAGAIN_WRITE, 2, 3))
{
  int mode = kmc::choose(3, 0, "back end"), with = kmc::choose(4, 0, "callbacks"), compact = kmc::choose(2, 0, "compact");
  Base b(mode);
  EventLoop *l = b.l.get();
  kmc::connect_outcomes({C_INPROGRESS_OK}, 0);
  auto c = NewTcpClient(l, InetAddr(PORT, true), "cli", compact);
  c->EnableRetry();
  kmc::Counter wc, msgs;
  if (with & 1) c->SetMessageCallback([=](TcpConnectionPtr const &, Buffer &b, TimeStamp) { msgs.add(b.GetReadableSize()); b.AdvanceAll(); });
  if (with & 2) c->SetConnectionCallback([](TcpConnectionPtr const &c) { if (c->IsConnected()) c->Send(StringView("welcome", 7)); });
  c->SetWriteCompleteCallback([=](TcpConnectionPtr const &c) {
    kmc::check(c->GetLoop()->IsLoopInThread(), "write-complete callback on a foreign thread");
    wc.add();
    return true;
  });
  c->Connect();
  kmc::spawn([&, l] {
    for (int turn = 0; turn < 2; ++turn) { // the second one is the reconnect
      kmc::wait_idle();
      auto ps = kmc::connected_peers();
      kmc::check((int)ps.size() == turn + 1, "%zu connections at turn %d", ps.size(), turn);
      kmc::Peer *p = ps.back();
      long before = wc.get(), mbefore = msgs.get();
      kmc::peer_send(p, "hello");
      auto conn = c->GetConnection();
      kmc::check(conn != nullptr, "the client has no connection");
      conn->Send(StringView("news", 4));
      conn.reset();
      kmc::wait_idle();
      std::string want = with & 2 ? "welcomenews" : "news";
      kmc::check(kmc::peer_received(p) == want, "the server received '%s'", kmc::peer_received(p).c_str());
      kmc::check(wc.get() > before, "the write-complete callback did not run at turn %d", turn);
      kmc::check(msgs.get() - mbefore == (with & 1 ? 5 : 0), "%ld bytes were delivered at turn %d", msgs.get() - mbefore, turn);
      kmc::peer_close(p);
    }
    kmc::wait_idle();
    auto *q = &c;
    l->QueueToLoop([q] { q->reset(); });
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
