// A connection under observation, for the scenarios that need one.
#ifndef CONN_H
#define CONN_H
#include "kmc.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/channel.h"
#include "kanon/net/connection/tcp_connection.h"
#include <memory>
#include <string>
using namespace kanon;
#pragma GCC diagnostic ignored "-Wunused-function"
static const unsigned WF = kmc::F_SHORT_WRITE | kmc::F_EAGAIN_WRITE | kmc::F_EINTR_WRITE;
static const unsigned RF = kmc::F_SHORT_READ | kmc::F_EAGAIN_READ | kmc::F_EINTR_READ;

// One connection on a loop of the calling thread, set up and torn down the way
// the server does it.  All fields are used on the loop's thread only.
struct Conn {
  std::unique_ptr<EventLoop> l;
  kmc::Peer *p = nullptr;
  TcpConnectionPtr c;
  int mode, me, up = 0, down = 0, msgs = 0, wc = 0;
  bool closing = false, wc_ret = true;
  std::string want;      // accepted for sending on the loop's thread, or known to be
  std::string got;       // delivered to the message callback
  std::function<void()> on_up, on_down, on_wc;
  std::function<void(Buffer &)> on_msg;
  kmc::Counter seq, last_send, last_wc;
  explicit Conn(int m, bool start = true) : l(new EventLoop(m == 1)), mode(m), me(kmc::self())
  {
    if (m == 2) l->SetEdgeTriggerMode();
    int fd = kmc::make_stream(&p);
    InetAddr a(80), b(81);
    c = TcpConnection::NewTcpConnection(l.get(), "c", fd, a, b);
    c->SetConnectionCallback([this](TcpConnectionPtr const &x) {
      kmc::check(kmc::self() == me, "connection callback on a foreign thread");
      if (x->IsConnected()) {
        kmc::check(up == 0 && down == 0, "connected reported again");
        ++up;
        if (on_up) on_up();
      } else {
        kmc::check(up == 1, "not connected reported without connected");
        kmc::check(down == 0, "not connected reported again");
        ++down;
        if (on_down) on_down();
      }
    });
    c->SetMessageCallback([this](TcpConnectionPtr const &, Buffer &b, TimeStamp) {
      kmc::check(kmc::self() == me, "message callback on a foreign thread");
      kmc::check(up == 1, "message before connected was reported");
      kmc::check(down == 0, "message after not connected was reported");
      ++msgs;
      if (on_msg) on_msg(b);
      else { got += std::string(b.GetReadBegin(), b.GetReadableSize()); b.AdvanceRead(b.GetReadableSize()); }
    });
    c->SetCloseCallback([this](TcpConnectionPtr const &x) {
      kmc::check(!closing, "closed twice");
      closing = true;
      l->QueueToLoop([x] { x->ConnectionDestroyed(); });
    });
    if (start) l->QueueToLoop([this] { c->ConnectionEstablished(); });
  }
  void write_complete(bool ret)
  {
    wc_ret = ret;
    c->SetWriteCompleteCallback([this](TcpConnectionPtr const &) {
      kmc::check(kmc::self() == me, "write-complete callback on a foreign thread");
      kmc::check(up == 1 && down == 0, "write-complete callback of a connection that is not up");
      ++wc;
      last_wc.set(seq.add());
      if (on_wc) on_wc();
      return wc_ret;
    });
  }
  // what was written to the socket so far
  size_t written() const { return kmc::peer_received(p).size(); }
  void drop() { c.reset(); }
};
// the send operations
enum { FORMS = 4 };
static void send_form(TcpConnectionPtr const &c, int form, std::string const &s)
{
  switch (form) {
  case 0: c->Send((void const *)s.data(), s.size()); break;
  case 1: c->Send(StringView(s.data(), s.size())); break;
  case 2: { Buffer b; b.Append(s.data(), s.size()); c->Send(b); break; }
  case 3: { ChunkList b; b.Append(s.data(), s.size()); c->Send(b); break; }
  }
}
static std::string letters(char first, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += char(first + i % 7); return s; }

static void same(std::string const &got, std::string const &want, const char *who)
{
  if (got == want) return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  kmc::check(false, "%s %zu bytes, %zu expected; they differ at %zu: '%s' instead of '%s'", who, got.size(), want.size(), i, got.substr(i, 12).c_str(), want.substr(i, 12).c_str());
}
// ends the run: checks after everything is quiet, then closes and quits
static void finish_when_idle(Conn &k, std::function<void()> checks)
{
  EventLoop *l = k.l.get();
  kmc::spawn([&k, l, checks] {
    kmc::wait_idle();
    l->QueueToLoop([&k, checks] { checks(); if (k.c) { k.c->ForceClose(); k.drop(); } });
    kmc::wait_idle();
    l->Quit();
  });
}
#endif
