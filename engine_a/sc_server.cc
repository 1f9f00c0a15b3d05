// Scenarios for the server side: P12, P13
#include "kmc.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/channel.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/tcp_server.h"
#include <errno.h>
#include <memory>
#include <vector>
using namespace kanon;
static const int PORT = 9000;
enum { MAXC = 6 };

// A server with observers on everything it reports.  Connections are told apart
// by the client's port; the counters are safe from any thread.
struct Srv {
  EventLoop *l;
  std::unique_ptr<TcpServer> s;
  kmc::Counter up[MAXC], down[MAXC], msgs[MAXC], loop[MAXC], nup, gone, wrong;
  std::vector<kmc::Peer *> peer;  // filled before the server may see them
  int first_port = 0;
  bool keep = false, close_on_up = false, echo = false, half_on_up = false;
  int kmode = 0;
  // family: IPv4, IPv6 or the longest addresses
  explicit Srv(EventLoop *x, int loops, int family = 0, int io_mode = 0) : l(x)
  {
    InetAddr a(PORT, true, family == 1);
    if (family == 2) a = InetAddr(StringView("2001:db8:aaaa:bbbb:cccc:dddd:eeee:ffff"), PORT);
    if (family == 3) a = InetAddr(StringView("::ffff:127.100.100.100"), PORT);
    s.reset(new TcpServer(l, a, "srv"));
    s->SetLoopNum(loops);
    for (auto &c : loop) c.set(-1);
    if (io_mode) s->SetThreadInitCallback([](EventLoop *e) { e->SetEdgeTriggerMode(); });
    s->SetConnectionCallback([this](TcpConnectionPtr const &c) {
      kmc::check(!gone.get(), "connection callback after the server was destroyed");
      kmc::check(c->GetLoop()->IsLoopInThread(), "connection callback on a foreign thread");
      int i = index(c);
      if (c->IsConnected()) {
        kmc::check(down[i].get() == 0, "connection %d connected after it was not connected", i);
        kmc::check(up[i].add() == 1, "client %d got a second connection", i);
        nup.add();
        loop[i].set(kmc::self());
        if (close_on_up) c->ForceClose();
        if (half_on_up) { c->Send(StringView("bye", 3)); c->ShutdownWrite(); }
      } else {
        kmc::check(up[i].get() == 1, "connection %d not connected without being connected", i);
        kmc::check(down[i].add() == 1, "connection %d not connected again", i);
        kmc::check(loop[i].get() == kmc::self(), "connection %d moved to another thread", i);
      }
    });
    s->SetMessageCallback([this](TcpConnectionPtr const &c, Buffer &b, TimeStamp) {
      kmc::check(!gone.get(), "message callback after the server was destroyed");
      int i = index(c);
      kmc::check(up[i].get() == 1 && down[i].get() == 0, "message outside of the connection's life");
      msgs[i].add();
      if (echo) c->Send(b);
      b.AdvanceRead(b.GetReadableSize());
    });
  }
  int index(TcpConnectionPtr const &c)
  {
    int i = c->GetPeerAddr().GetPort() - 40000;
    kmc::check(i >= 0 && i < MAXC, "connection of an unknown client (port %d)", i + 40000);
    return i;
  }
  void destroy() { s.reset(); gone.set(1); }
  // after the server is gone
  void ended(int n)
  {
    for (int i = 0; i < n; ++i) {
      kmc::check(up[i].get() == down[i].get(), "client %d: connected reported %ld times, not connected %ld times", i, up[i].get(), down[i].get());
      kmc::check(up[i].get() <= 1, "client %d got %ld connections", i, up[i].get());
    }
  }
};
// runs a loop in this thread, in one of the three back ends
struct Base {
  std::unique_ptr<EventLoop> l;
  explicit Base(int m) : l(new EventLoop(m == 1)) { if (m == 2) l->SetEdgeTriggerMode(); }
};

// ---- P12 --------------------------------------------------------------------
// every client is served, in turn by the loops of the pool
KMC_SCENARIO("P12", accept_turns, (0, 1, 3))
{
  int loops = kmc::choose(4, 0, "loops"), mode = kmc::choose(3, 0, "back end"), n = 4;
  int v6 = kmc::choose(4, 0, "family");
  bool burst = kmc::choose(2, 0, "burst");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops, v6, mode == 2);
  s.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    std::vector<kmc::Peer *> p;
    for (int i = 0; i < n; ++i) {
      p.push_back(kmc::peer_connect(PORT, v6 != 0));
      kmc::check(p[i] != nullptr, "the server is not listening");
      if (!burst) { kmc::wait_idle(); kmc::check(s.up[i].get() == 1, "client %d is not served", i); }
    }
    kmc::wait_idle();
    for (int i = 0; i < n; ++i) {
      kmc::check(s.up[i].get() == 1, "client %d got %ld connections", i, s.up[i].get());
      kmc::check(s.down[i].get() == 0, "client %d lost its connection", i);
      if (loops && i >= loops) kmc::check(s.loop[i].get() == s.loop[i - loops].get(), "loops do not take turns: client %d", i);
      if (loops) for (int j = 0; j < i && j < loops && i < loops; ++j) kmc::check(s.loop[i].get() != s.loop[j].get(), "loops do not take turns: clients %d and %d", i, j);
    }
    kmc::Counter peers, names;
    l->QueueToLoop([&, peers, names] {
      std::vector<std::string> seen;
      s.s->ApplyAllPeers([&](TcpConnectionPtr const &c) {
        peers.add();
        for (auto &x : seen) if (x == c->GetName()) names.add();
        seen.push_back(c->GetName());
      });
    });
    kmc::wait_idle();
    kmc::check(peers.get() == n, "%ld of %d connections are known to the server", peers.get(), n);
    kmc::check(names.get() == 0, "two connections have the same name");
    for (auto x : p) kmc::peer_close(x);
    kmc::wait_idle();
    for (int i = 0; i < n; ++i) {
      kmc::check(s.down[i].get() == 1, "client %d: the end was reported %ld times", i, s.down[i].get());
      kmc::check(kmc::peer_fd_closed(p[i]), "the descriptor of client %d is still open", i);
    }
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(n);
}
// errors of accept(): the server goes on, whoever can be served is served
static void accept_faults(std::initializer_list<int> errs)
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(2, 0, "loops");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops);
  s.s->StartRun();
  kmc::accept_errors(errs, 1);
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p[3];
    p[0] = kmc::peer_connect(PORT);
    p[1] = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::accept_errors({}, 1);
    p[2] = kmc::peer_connect(PORT);
    kmc::wait_idle();
    for (int i = 0; i < 3; ++i) {
      kmc::check(p[i] != nullptr, "the server is not listening");
      if (!kmc::peer_got_rst(p[i]) && !kmc::peer_eof(p[i])) kmc::check(s.up[i].get() == 1, "client %d is not served after accept errors", i);
      else kmc::check(s.up[i].get() == 0, "client %d was served and its connection closed", i);
    }
    kmc::check(!kmc::peer_eof(p[2]) && !kmc::peer_got_rst(p[2]), "a client that came after the errors was refused");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(3);
}
KMC_SCENARIO("P12", accept_client_errors, (0, 2, 4)) { accept_faults({ECONNABORTED, EINTR, EPROTO, EPERM}); }
KMC_SCENARIO("P12", accept_net_errors, (0, 2, 3)) { accept_faults({ENETDOWN, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ETIMEDOUT}); }
KMC_SCENARIO("P12", accept_room_errors, (0, 2, 4)) { accept_faults({EMFILE, ENFILE, ENOBUFS, ENOMEM}); }

// out of descriptors for real: excess clients are let go, later ones are served
KMC_SCENARIO("P12", accept_exhausted, (0, 2, 4))
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(2, 0, "loops"), room = kmc::choose(3, 0, "room"), gone = kmc::choose(2, 0, "clients give up");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops);
  s.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::wait_idle();
    kmc::set_fd_limit(kmc::open_fds() + room);
    if (gone) kmc::accept_errors({ECONNABORTED, EINTR, ENETDOWN}, 1);
    kmc::Peer *p[6];
    for (int i = 0; i < 4; ++i) p[i] = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::accept_errors({}, 1);
    int served = 0, first = -1, alive = 4;
    for (int i = 0; i < 4; ++i) {
      served += s.up[i].get() == 1;
      if (first < 0 && s.up[i].get() == 1) first = i;
      alive -= kmc::peer_got_rst(p[i]);
      kmc::check(s.up[i].get() == 1 || kmc::peer_eof(p[i]) || kmc::peer_got_rst(p[i]), "client %d waits although the server is idle", i);
    }
    int want = alive < room ? alive : room;
    kmc::check(served == want, "%d of %d clients served with room for %d", served, alive, room);
    // one leaves, the next is served
    if (served && served == room) {
      kmc::peer_close(p[first]);
      kmc::wait_idle();
      kmc::check(s.down[first].get() == 1, "the end of client %d was not reported", first);
    } else kmc::set_fd_limit(kmc::open_fds() + 1);
    p[4] = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::check(s.up[4].get() == 1, "a client that came after a descriptor was free is not served");
    // the descriptors are exhausted again
    p[5] = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::check(kmc::peer_eof(p[5]) || kmc::peer_got_rst(p[5]), "client 5 waits although the server is idle");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(6);
}
// clients that come and go while others are accepted
KMC_SCENARIO("P12", accept_churn, (0, 2, 3))
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(2, 0, "loops");
  int how = kmc::choose(3, 0, "how");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops);
  s.close_on_up = how == 2;
  s.s->EnablePool(kmc::choose(2, 0, "connection pool"));
  s.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p[3];
    for (int i = 0; i < 3; ++i) {
      p[i] = kmc::peer_connect(PORT);
      if (how == 0) kmc::peer_close(p[i]);
      if (how == 1) { kmc::peer_send(p[i], "x"); kmc::peer_reset(p[i]); }
    }
    kmc::wait_idle();
    for (int i = 0; i < 3; ++i) {
      kmc::check(s.up[i].get() == 1, "client %d got %ld connections", i, s.up[i].get());
      kmc::check(s.down[i].get() == 1, "client %d: the end was reported %ld times", i, s.down[i].get());
      kmc::check(kmc::peer_fd_closed(p[i]), "the descriptor of client %d is still open", i);
    }
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(3);
}

// ---- P13 --------------------------------------------------------------------
KMC_SCENARIO("P13", start_many, (0, 2, 4))
{
  int mode = kmc::choose(2, 0, "back end"), loops = kmc::choose(2, 0, "loops"), how = kmc::choose(3, 0, "how");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops);
  kmc::Counter init;
  s.s->SetThreadInitCallback([=](EventLoop *) { init.add(); });
  if (how == 1) { s.s->StartRun(); s.s->StartRun(); }
  int n = how == 2 ? 2 : 1;
  for (int i = 0; i < n; ++i) kmc::spawn([&] { s.s->StartRun(); s.s->IsRunning(); s.s->StartRun(); });
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::wait_idle();
    kmc::check(s.s->IsRunning(), "the server does not say it runs");
    kmc::check(kmc::listen_count(PORT) == 1, "the server listened %d times", kmc::listen_count(PORT));
    kmc::check(init.get() == (loops ? loops : 1), "threads were initialised %ld times", init.get());
    kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::check(s.up[0].get() == 1, "the client is not served");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(1);
}
// never started, or destroyed right after the start
KMC_SCENARIO("P13", start_destroy, (0, 3, 5))
{
  int mode = kmc::choose(2, 0, "back end"), loops = kmc::choose(3, 0, "loops"), how = kmc::choose(3, 0, "how");
  Base b(mode);
  Srv s(b.l.get(), loops);
  if (how) s.s->StartRun();
  if (how == 2) { kmc::peer_connect(PORT); kmc::wait_idle(); }
  s.destroy();
}
// destroyed at any moment while clients come, talk and go
static void teardown(int nclients, int where, bool pool)
{
  int loops = kmc::choose(3, 0, "loops"), mode = kmc::choose(3, 0, "back end"), what = kmc::choose(6, 0, "clients");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops, nclients > 1 ? kmc::choose(2, 0, "family") * 3 : 0, mode == 2);
  s.echo = true;
  s.half_on_up = what == 5;
  s.s->EnablePool(pool);
  s.s->StartRun();
  kmc::Counter go;
  kmc::spawn([&] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    for (int i = 0; i < nclients; ++i) {
      kmc::Peer *p = kmc::peer_connect(PORT);
      go.set(1);
      if (!p) return;
      if (what == 1 || what == 2) kmc::peer_send(p, "x");
      if (what == 2 || what == 3) kmc::peer_close(p);
      if (what == 4) kmc::peer_reset(p);
    }
  });
  kmc::spawn([&, l] {
    kmc::wait_until([=] { return go.get() == 1; });
    if (where == 0) l->Quit();
    else { l->QueueToLoop([&] { s.destroy(); }); kmc::wait_idle(); l->Quit(); }
  });
  l->StartLoop();
  if (where == 0) s.destroy();
  s.ended(nclients);
  if (loops) kmc::check(true, "ok");
  kmc::join_all();
  b.l.reset();
}
KMC_SCENARIO("P13", teardown_after_loop, (0, 1, 3)) { teardown(2, 0, false); }
KMC_SCENARIO("P13", teardown_in_loop, (0, 1, 3)) { teardown(2, 1, false); }
KMC_SCENARIO("P13", teardown_pool, (0, 1, 2)) { teardown(2, kmc::choose(2, 0, "where"), true); }
KMC_SCENARIO("P13", teardown_deep, (0, 2, 4)) { teardown(1, 1, false); }

// the server is destroyed by a callback of one of its connections on its loop
KMC_SCENARIO("P13", teardown_callback, (0, 3, 4))
{
  int mode = kmc::choose(3, 0, "back end"), where = kmc::choose(3, 0, "where");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, 0);
  s.s->SetMessageCallback([&](TcpConnectionPtr const &c, Buffer &x, TimeStamp) {
    x.AdvanceRead(x.GetReadableSize());
    if (where == 0) s.destroy();
    if (where == 1) { c->ForceClose(); s.destroy(); }
    if (where == 2) l->QueueToLoop([&] { s.destroy(); });
  });
  s.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT), *q = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::peer_send(p, "x");
    kmc::peer_close(q);
    kmc::wait_idle();
    kmc::check(kmc::peer_fd_closed(p) && kmc::peer_fd_closed(q), "descriptors are open after the server is gone");
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  kmc::check(s.gone.get() == 1, "the server is still there");
  s.ended(2);
}
// connections held by the user after the server is gone
KMC_SCENARIO("P13", teardown_held, (0, 2, 4))
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(2, 0, "loops");
  bool pool = kmc::choose(2, 0, "connection pool");
  Base b(mode);
  EventLoop *l = b.l.get();
  Srv s(l, loops);
  s.s->EnablePool(pool);
  std::vector<TcpConnectionPtr> held;
  kmc::Counter taken;
  s.s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::peer_send(p, "hi");
    l->QueueToLoop([&] { s.s->ApplyAllPeers([&](TcpConnectionPtr const &c) { held.push_back(c); c->Send(StringView("hello", 5)); }); });
    kmc::wait_idle();
    kmc::check(kmc::peer_received(p) == "hello", "the client received '%s'", kmc::peer_received(p).c_str());
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(1);
  kmc::check(held.size() == 1, "%zu connections for one client", held.size());
  for (auto &c : held) { c->Send(StringView("late", 4)); c->ForceClose(); c->ShutdownWrite(); kmc::check(c->IsDisconnected(), "a connection says it is connected after the server is gone"); }
  held.clear();
}
// every connection is visited while connections open and close
KMC_SCENARIO("P13", apply_all, (0, 2, 4))
{
  int loops = kmc::choose(2, 0, "loops"), what = kmc::choose(3, 0, "what"), where = kmc::choose(2, 0, "where");
  Base b(0);
  EventLoop *l = b.l.get();
  Srv s(l, loops);
  s.s->StartRun();
  kmc::Counter seen;
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p = kmc::peer_connect(PORT);
    kmc::wait_idle();
    kmc::Peer *q = kmc::peer_connect(PORT);
    if (what == 2) kmc::peer_close(p);
    auto apply = [&s, seen, what] {
      s.s->ApplyAllPeers([=](TcpConnectionPtr const &c) {
        kmc::Counter n = seen;
        n.add();
        if (what == 1) c->ForceClose(); else c->Send(StringView("news", 4));
      });
    };
    if (where) l->QueueToLoop(apply); else apply();
    kmc::wait_idle();
    if (what < 2) kmc::check(seen.get() >= 1, "a connection was not visited");
    kmc::check(seen.get() <= 2, "connections were visited %ld times", seen.get());
    if (what == 0) kmc::check(kmc::peer_received(p) == "news", "the first client received '%s'", kmc::peer_received(p).c_str());
    if (what == 1) kmc::check(s.down[0].get() == 1, "the first client was not closed");
    kmc::peer_close(q);
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  s.destroy();
  s.ended(2);
}

// ---- P05 --------------------------------------------------------------------
// the callback of the server reaches every connection, with and without the
// other callbacks
KMC_SCENARIO("P05", server_write_complete, (kmc::F_SHORT_WRITE | kmc::F_EAGAIN_WRITE, 1, 3))
{
  int loops = kmc::choose(3, 0, "loops"), mode = kmc::choose(3, 0, "back end"), with = kmc::choose(4, 0, "callbacks"), pool = kmc::choose(2, 0, "pool");
  Base b(mode);
  EventLoop *l = b.l.get();
  TcpServer s(l, InetAddr(PORT, true), "srv");
  s.SetLoopNum(loops);
  s.EnablePool(pool);
  if (mode == 2) s.SetThreadInitCallback([](EventLoop *e) { e->SetEdgeTriggerMode(); });
  kmc::Counter wc[2], msgs;
  if (with & 1) s.SetMessageCallback([=](TcpConnectionPtr const &, Buffer &b, TimeStamp) { msgs.add(b.GetReadableSize()); b.AdvanceAll(); });
  if (with & 2) s.SetConnectionCallback([](TcpConnectionPtr const &c) { if (c->IsConnected()) c->Send(StringView("welcome", 7)); });
  kmc::Counter w0 = wc[0], w1 = wc[1];
  s.SetWriteCompleteCallback([=](TcpConnectionPtr const &c) {
    kmc::check(c->GetLoop()->IsLoopInThread(), "write-complete callback on a foreign thread");
    (c->GetPeerAddr().GetPort() == 40000 ? w0 : w1).add();
    return true;
  });
  s.StartRun();
  kmc::spawn([&, l] {
    kmc::wait_until([] { return kmc::port_listening(PORT); });
    kmc::Peer *p[2];
    for (auto &x : p) { x = kmc::peer_connect(PORT); kmc::peer_send(x, "hello"); }
    kmc::wait_idle();
    for (int i = 0; i < 2; ++i) {
      kmc::check(kmc::peer_received(p[i]) == (with & 2 ? "welcome" : ""), "client %d received '%s'", i, kmc::peer_received(p[i]).c_str());
      kmc::check((wc[i].get() >= 1) == ((with & 2) != 0), "client %d: the write-complete callback ran %ld times", i, wc[i].get());
    }
    kmc::check(msgs.get() == (with & 1 ? 10 : 0), "%ld bytes were delivered", msgs.get());
    s.ApplyAllPeers([](TcpConnectionPtr const &c) { c->Send(StringView("news", 4)); });
    kmc::wait_idle();
    for (int i = 0; i < 2; ++i) {
      kmc::check(kmc::peer_received(p[i]) == (with & 2 ? "welcomenews" : "news"), "client %d received '%s'", i, kmc::peer_received(p[i]).c_str());
      kmc::check(wc[i].get() >= (with & 2 ? 2 : 1), "client %d: the write-complete callback ran %ld times after all", i, wc[i].get());
      kmc::peer_close(p[i]);
    }
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
}
