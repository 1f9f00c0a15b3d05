// Scenarios for sockets, their options, flags and addresses: P38
#include "kmc.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/channel.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/tcp_server.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <memory>
#include <unistd.h>
#include <vector>
using namespace kanon;
static const int PORT = 9000;
struct Base {
  std::unique_ptr<EventLoop> l;
  explicit Base(int m) : l(new EventLoop(m == 1)) { if (m == 2) l->SetEdgeTriggerMode(); }
};
static std::string opt(int lv, int o, int v) { return std::to_string(lv) + "/" + std::to_string(o) + "=" + std::to_string(v) + " "; }
// no loop may block in a read or write, no child may inherit a descriptor
static void flags_ok(int at_least)
{
  auto v = kmc::fd_infos();
  kmc::check((int)v.size() >= at_least, "%zu descriptors only, something is missing", v.size());
  for (auto &f : v) {
    kmc::check(f.cloexec, "descriptor of type %c is inherited by children | %d", f.type, f.fd);
    if (f.type == 's' || f.type == 'e') kmc::check(f.nonblock, "descriptor of type %c blocks | %d", f.type, f.fd);
  }
}
static std::string text_of(const sockaddr *a)
{
  char b[64];
  if (a->sa_family == AF_INET) {
    auto x = (const sockaddr_in *)a;
    unsigned ip = ntohl(x->sin_addr.s_addr);
    snprintf(b, sizeof b, "%u.%u.%u.%u:%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255, ntohs(x->sin_port));
    return b;
  }
  auto x = (const sockaddr_in6 *)a;
  char t[64];
  inet_ntop(AF_INET6, &x->sin6_addr, t, sizeof t);
  snprintf(b, sizeof b, "]:%u", ntohs(x->sin6_port));
  return std::string("[") + t + b;
}
static std::string kernel_name(int fd, bool peer)
{
  sockaddr_in6 a;
  socklen_t n = sizeof a;
  int r = peer ? ::getpeername(fd, (sockaddr *)&a, &n) : ::getsockname(fd, (sockaddr *)&a, &n);
  kmc::check(r == 0, "no name");
  return text_of((sockaddr *)&a);
}
static void one_state(TcpConnectionPtr const &c, int want)
{
  bool s[4] = {c->IsConnecting(), c->IsConnected(), c->IsDisconnecting(), c->IsDisconnected()};
  for (int i = 0; i < 4; ++i) kmc::check(s[i] == (i == want), "state %d is %d instead of state %d", i, s[i], want);
}

// ---- options of connections
// every sequence of settings on two connections: each changes its socket alone,
// and the last one of a kind is what counts
static void options(int depth)
{
  int ctx[2] = {0, 1}, fdv[2];
  Base b(0);
  std::vector<TcpConnectionPtr> c;
  std::vector<kmc::Peer *> p(2);
  for (int i = 0; i < 2; ++i) {
    fdv[i] = kmc::make_stream(&p[i]);
    InetAddr x(80), y(81);
    c.push_back(TcpConnection::NewTcpConnection(b.l.get(), i ? "b" : "a", fdv[i], x, y));
    c[i]->SetConnectionCallback([](TcpConnectionPtr const &) {});
    c[i]->SetCloseCallback([&b](TcpConnectionPtr const &x) { b.l->QueueToLoop([x] { x->ConnectionDestroyed(); }); });
  }
  b.l->QueueToLoop([&] {
    c[0]->ConnectionEstablished();
    c[1]->ConnectionEstablished();
    int keep[2], nodelay[2] = {-1, -1}, *cx[2] = {nullptr, nullptr};
    // the keep-alive default is the library's choice
    for (int i = 0; i < 2; ++i) {
      std::string s = kmc::sock_opts(fdv[i]);
      keep[i] = s.empty() ? -1 : s == opt(SOL_SOCKET, SO_KEEPALIVE, 1);
      kmc::check(s.empty() || s == opt(SOL_SOCKET, SO_KEEPALIVE, 1) || s == opt(SOL_SOCKET, SO_KEEPALIVE, 0), "a new connection has unexpected options | %s", s.c_str());
    }
    for (int d = 0; d < depth; ++d) {
      int k = kmc::choose(7, 0, "operation"), i = kmc::choose(2, 0, "connection");
      switch (k) {
      case 0: case 1: c[i]->SetNoDelay(k); nodelay[i] = k; break;
      case 2: case 3: c[i]->SetKeepAlive(k - 2); keep[i] = k - 2; break;
      case 4: case 5: c[i]->SetContext(ctx[k - 4]); cx[i] = &ctx[k - 4]; break;
      default: c[i]->GetContext().clear(); cx[i] = nullptr; break;
      }
      for (int j = 0; j < 2; ++j) {
        std::string want;
        if (keep[j] >= 0) want += opt(SOL_SOCKET, SO_KEEPALIVE, keep[j]);
        if (nodelay[j] >= 0) want += opt(IPPROTO_TCP, TCP_NODELAY, nodelay[j]);
        std::string got = kmc::sock_opts(fdv[j]);
        kmc::check(got == want, "options of connection %d after operation %d on %d | '%s' instead of '%s'", j, k, i, got.c_str(), want.c_str());
        TcpConnection const &q = *c[j];
        kmc::check(AnyCast<int>(q.GetContext()) == cx[j] && AnyCast<int>(c[j]->GetContext()) == cx[j], "context of connection %d after operation %d on %d", j, k, i);
      }
    }
    c[0]->ForceClose();
    c[1]->ForceClose();
    c.clear();
    b.l->Quit();
  });
  b.l->StartLoop();
}
KMC_SCENARIO("P38", conn_options, (0, 0, 0)) { options(4); }

// ---- options of listening sockets
// set before the address is taken, and no failure to set one stops the server
KMC_SCENARIO("P38", listen_options, (0, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), v6 = kmc::choose(2, 0, "IPv6"), share = kmc::choose(2, 0, "share the port"), fail = kmc::choose(3, 0, "options fail");
  Base b(mode);
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true, v6 != 0);
  if (fail) kmc::setsockopt_error(fail == 1 ? ENOPROTOOPT : EPERM);
  std::unique_ptr<TcpServer> s(new TcpServer(l, a, "srv", share != 0));
  s->SetLoopNum(kmc::choose(2, 0, "loops"));
  kmc::Counter up;
  s->SetConnectionCallback([up, fail](TcpConnectionPtr const &c) {
    if (!c->IsConnected()) return;
    c->SetNoDelay(true);
    c->SetKeepAlive(false);
    int fd = c->channel()->GetFd();
    if (!fail) kmc::check(kmc::sock_opts(fd) == opt(SOL_SOCKET, SO_KEEPALIVE, 0) + opt(IPPROTO_TCP, TCP_NODELAY, 1), "options of an accepted connection | '%s'", kmc::sock_opts(fd).c_str());
    up.add();
  });
  s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    int fd = kmc::listener_fd(PORT);
    kmc::check(fd >= 0, "the server doesn't listen");
    kmc::check(kmc::listen_count(PORT) == 1, "listen() was called %d times", kmc::listen_count(PORT));
    std::string none = opt(SOL_SOCKET, SO_REUSEADDR, 1), off = none + opt(SOL_SOCKET, SO_REUSEPORT, 0), on = none + opt(SOL_SOCKET, SO_REUSEPORT, 1);
    std::string at = kmc::sock_opts(fd, true), now = kmc::sock_opts(fd);
    if (fail) kmc::check(now.empty(), "options: '%s'", now.c_str());
    else if (share) kmc::check(at == on && now == on, "options of a shared port | '%s' before bind(), '%s' now", at.c_str(), now.c_str());
    else kmc::check((at == off || at == none) && (now == off || now == none), "options of a port that isn't shared | '%s' before bind(), '%s' now", at.c_str(), now.c_str());
    kmc::Peer *p = kmc::peer_connect(PORT, v6 != 0);
    kmc::check(p != nullptr, "nobody listens");
    kmc::wait_idle();
    kmc::check(up.get() == 1, "the client is not served");
    kmc::peer_close(p);
    kmc::wait_idle();
    l->QueueToLoop([&] { s.reset(); });
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
}

// ---- flags of descriptors
KMC_SCENARIO("P38", fd_flags_server, (0, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(3, 0, "loops"), v6 = kmc::choose(2, 0, "IPv6"), what = kmc::choose(4, 0, "what happens");
  Base b(mode);
  EventLoop *l = b.l.get();
  std::unique_ptr<TcpServer> s(new TcpServer(l, InetAddr(PORT, true, v6 != 0), "srv"));
  s->SetLoopNum(loops);
  if (mode == 2) s->SetThreadInitCallback([](EventLoop *e) { e->SetEdgeTriggerMode(); });
  kmc::Counter up;
  s->SetConnectionCallback([up](TcpConnectionPtr const &c) { if (c->IsConnected()) up.add(); });
  s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    int base = 2 + (mode != 1) + 2; // event, timer, poller; listener and reserve
    flags_ok(base + loops * 3);
    std::vector<kmc::Peer *> p;
    if (what) {
      for (int i = 0; i < 2; ++i) p.push_back(kmc::peer_connect(PORT, v6 != 0));
      kmc::wait_idle();
      kmc::check(up.get() == 2, "the clients are not served");
      flags_ok(base + loops * 3 + 2);
    }
    if (what == 2) { // too many clients: the reserve descriptor is used, and made again
      kmc::set_fd_limit(kmc::open_fds());
      for (int i = 0; i < 2; ++i) p.push_back(kmc::peer_connect(PORT, v6 != 0));
      kmc::wait_idle();
      kmc::check(up.get() == 2, "more clients than descriptors are served");
      kmc::set_fd_limit(1000);
      flags_ok(base + loops * 3 + 2);
      p.push_back(kmc::peer_connect(PORT, v6 != 0));
      kmc::wait_idle();
      kmc::check(up.get() == 3, "the client that comes afterwards is not served");
      flags_ok(base + loops * 3 + 3);
    }
    if (what == 3) { kmc::peer_send(p[0], "hello"); kmc::peer_close(p[1]); kmc::wait_idle(); flags_ok(base + loops * 3 + 1); }
    l->QueueToLoop([&] { s.reset(); });
    kmc::wait_idle();
    flags_ok(base - 2);
    l->Quit();
  });
  l->StartLoop();
}
KMC_SCENARIO("P38", fd_flags_client, (0, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), v6 = kmc::choose(2, 0, "IPv6");
  static const int OUT[] = {kmc::C_INPROGRESS_OK, kmc::C_IMMEDIATE_OK, kmc::C_REFUSED_NOW, kmc::C_REFUSED_LATER, kmc::C_SELF, kmc::C_NEVER};
  int o = kmc::choose(6, 0, "first outcome");
  Base b(mode);
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true, v6 != 0);
  kmc::connect_outcomes({OUT[o]}, 0);
  auto c = NewTcpClient(l, a, "cli");
  kmc::Counter up;
  c->SetConnectionCallback([up](TcpConnectionPtr const &x) { if (x->IsConnected()) up.add(); });
  c->EnableRetry();
  c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    int base = 2 + (mode != 1);
    flags_ok(base);
    kmc::connect_outcomes({}, 0);
    if (OUT[o] != kmc::C_NEVER) {
      if (o > 1) { kmc::sleep_us(700000); kmc::wait_idle(); }
      kmc::check(up.get() == 1, "connected was reported %ld times", up.get());
      flags_ok(base + 1);
      kmc::peer_close(kmc::connected_peers().back());
      kmc::wait_idle();
      flags_ok(base + 1);
      kmc::check(up.get() == 2, "the client doesn't connect again");
    }
    l->QueueToLoop([&] { c->Stop(); c.reset(); });
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
}
// the functions that make and change descriptors
KMC_SCENARIO("P38", fd_flags_calls, (0, 0, 0))
{
  int v6 = kmc::choose(2, 0, "IPv6"), nb = kmc::choose(2, 0, "non-blocking before"), ce = kmc::choose(2, 0, "closed on exec before"), how = kmc::choose(2, 0, "how");
  int fd;
  if (how) fd = sock::CreateNonBlockAndCloExecSocket(v6 != 0);
  else {
    fd = sock::CreateSocket(v6 != 0);
    if (nb) ::fcntl(fd, F_SETFL, O_NONBLOCK);
    if (ce) ::fcntl(fd, F_SETFD, FD_CLOEXEC);
    sock::SetNonBlockAndCloExec(fd);
  }
  flags_ok(1);
  for (int i = 0; i < 3; ++i) {
    sock::SetReuseAddr(fd, i != 1);
    sock::SetReusePort(fd, i != 2);
    sock::SetNoDelay(fd, i != 0);
    sock::SetKeepAlive(fd, i == 0);
    std::string want = opt(SOL_SOCKET, SO_REUSEADDR, i != 1) + opt(SOL_SOCKET, SO_KEEPALIVE, i == 0) + opt(SOL_SOCKET, SO_REUSEPORT, i != 2) + opt(IPPROTO_TCP, TCP_NODELAY, i != 0);
    kmc::check(kmc::sock_opts(fd) == want, "options | '%s' instead of '%s'", kmc::sock_opts(fd).c_str(), want.c_str());
  }
  sock::Close(fd);
  kmc::check(kmc::open_fds() == 0, "the descriptor is open");
}

// ---- addresses, states and names
KMC_SCENARIO("P38", conn_addresses_server, (0, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), v6 = kmc::choose(2, 0, "IPv6"), loops = kmc::choose(2, 0, "loops"), pool = kmc::choose(2, 0, "connection pool"), end = kmc::choose(3, 0, "end");
  Base b(mode);
  EventLoop *l = b.l.get();
  std::unique_ptr<TcpServer> s(new TcpServer(l, InetAddr(PORT, true, v6 != 0), "srv"));
  s->SetLoopNum(loops);
  if (pool) s->EnablePool(true);
  kmc::Counter up, down, ports[3];
  s->SetConnectionCallback([=](TcpConnectionPtr const &c) {
    int fd = c->channel()->GetFd();
    if (c->IsConnected()) {
      one_state(c, 1);
      std::string me = kernel_name(fd, false), other = kernel_name(fd, true);
      kmc::check(c->GetLocalAddr().ToIpPort() == me, "local address | %s instead of %s", c->GetLocalAddr().ToIpPort().c_str(), me.c_str());
      kmc::check(c->GetPeerAddr().ToIpPort() == other, "peer's address | %s instead of %s", c->GetPeerAddr().ToIpPort().c_str(), other.c_str());
      kmc::check(c->GetLocalAddr().GetPort() == PORT, "local port %d", c->GetLocalAddr().GetPort());
      kmc::check(c->GetLocalAddr().IsIpv4() == !v6 && c->GetPeerAddr().IsIpv4() == !v6, "family");
      up.add();
      if (end == 0) { c->ShutdownWrite(); kmc::check(!c->IsConnected() && !c->IsDisconnected(), "connected after the write side was shut down"); }
      if (end == 1) c->ForceClose();
    } else {
      kmc::check(!c->IsConnected() && !c->IsConnecting(), "connected when not connected is reported");
      kmc::check(c->IsDisconnecting() + c->IsDisconnected() == 1, "no state or two");
      kmc::check(c->GetPeerAddr().GetPort() >= 40000, "the peer's address is gone");
      down.add();
    }
  });
  s->StartRun();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    std::vector<kmc::Peer *> p;
    for (int i = 0; i < 3; ++i) p.push_back(kmc::peer_connect(PORT, v6 != 0));
    kmc::wait_idle();
    kmc::check(up.get() == 3, "%ld of 3 clients are served", up.get());
    if (end == 0) for (auto x : p) kmc::check(kmc::peer_eof(x), "no end of stream after the write side was shut down");
    if (end != 1) for (auto x : p) kmc::peer_close(x);
    kmc::wait_idle();
    kmc::check(down.get() == 3, "%ld of 3 connections are gone", down.get());
    l->QueueToLoop([&] { s.reset(); });
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
}
KMC_SCENARIO("P38", conn_addresses_client, (0, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), v6 = kmc::choose(2, 0, "IPv6"), o = kmc::choose(3, 0, "outcome"), end = kmc::choose(3, 0, "end");
  static const int OUT[] = {kmc::C_INPROGRESS_OK, kmc::C_IMMEDIATE_OK, kmc::C_EINTR_OK};
  Base b(mode);
  EventLoop *l = b.l.get();
  InetAddr a(PORT, true, v6 != 0);
  kmc::connect_outcomes({OUT[o]}, 0);
  auto c = NewTcpClient(l, a, "cli");
  kmc::check(c->GetServerAddr().ToIpPort() == a.ToIpPort(), "address of the server");
  kmc::check(c->GetLoop() == l, "loop of the client");
  kmc::Counter up, down;
  std::string server = a.ToIpPort();
  c->SetConnectionCallback([=](TcpConnectionPtr const &x) {
    int fd = x->channel()->GetFd();
    if (x->IsConnected()) {
      one_state(x, 1);
      std::string me = kernel_name(fd, false);
      kmc::check(x->GetLocalAddr().ToIpPort() == me, "local address | %s instead of %s", x->GetLocalAddr().ToIpPort().c_str(), me.c_str());
      kmc::check(x->GetPeerAddr().ToIpPort() == server, "peer's address | %s instead of %s", x->GetPeerAddr().ToIpPort().c_str(), server.c_str());
      kmc::check(x->GetName() == "cli" && x->GetLoop() == l, "name or loop");
      up.add();
      if (end == 0) x->ShutdownWrite();
      if (end == 1) x->ForceClose();
    } else {
      kmc::check(!x->IsConnected() && !x->IsConnecting() && x->IsDisconnecting() + x->IsDisconnected() == 1, "state when not connected is reported");
      down.add();
    }
  });
  c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    kmc::check(up.get() == 1, "connected was reported %ld times", up.get());
    kmc::Peer *p = kmc::connected_peers().back();
    auto held = c->GetConnection();
    if (end != 1) { kmc::check(held != nullptr, "no connection"); kmc::check(held->IsConnected() == (end == 2), "state"); kmc::peer_close(p); }
    kmc::wait_idle();
    kmc::check(down.get() == 1, "not connected was reported %ld times", down.get());
    if (held) one_state(held, 3);
    held.reset();
    l->QueueToLoop([&] { c.reset(); });
    kmc::wait_idle();
    l->Quit();
  });
  l->StartLoop();
}
