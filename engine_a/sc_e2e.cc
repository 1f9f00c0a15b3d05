// Scenarios with both ends of the library: P02
#include "kmc.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/channel.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/tcp_server.h"
#include <memory>
#include <string>
using namespace kanon;
static const int PORT = 9000;
static const unsigned WF = kmc::F_SHORT_WRITE | kmc::F_EAGAIN_WRITE;
static const unsigned RF = kmc::F_SHORT_READ;

// a client talks to an echoing server on other threads; both ends see every
// byte, in order, and the end
static void echo(int form, bool threads)
{
  int mode = kmc::choose(3, 0, "back end"), loops = kmc::choose(2, 0, "loops"), who = kmc::choose(2, 0, "who closes");
  std::unique_ptr<EventLoop> base(new EventLoop(mode == 1));
  if (mode == 2) base->SetEdgeTriggerMode();
  EventLoop *l = base.get();
  std::unique_ptr<TcpServer> s(new TcpServer(l, InetAddr(PORT, true), "srv"));
  s->SetLoopNum(loops);
  if (mode == 2) s->SetThreadInitCallback([](EventLoop *e) { e->SetEdgeTriggerMode(); });
  kmc::Counter sup, sdown, cup, cdown, ngot;
  s->SetConnectionCallback([=](TcpConnectionPtr const &c) { kmc::Counter u = sup, d = sdown; if (c->IsConnected()) u.add(); else d.add(); });
  s->SetMessageCallback([=](TcpConnectionPtr const &c, Buffer &b, TimeStamp) {
    std::string t(b.GetReadBegin(), b.GetReadableSize());
    bool end = t.find('.') != std::string::npos;
    if (form == 0) { c->Send(StringView(t)); b.AdvanceAll(); }
    else if (form == 1) { c->Send(b); b.AdvanceAll(); }
    else { ChunkList k; k.Append(t.data(), t.size()); b.AdvanceAll(); c->Send(k); }
    if (end && who == 0) c->ShutdownWrite();
  });
  s->StartRun();
  std::string *got = new std::string;
  std::unique_ptr<EventLoopThread> lt;
  EventLoop *cl = l;
  if (threads) { lt.reset(new EventLoopThread("client")); cl = lt->StartRun(); }
  auto c = NewTcpClient(cl, InetAddr(PORT, true), "cli");
  c->SetConnectionCallback([=](TcpConnectionPtr const &x) {
    kmc::Counter u = cup, d = cdown;
    if (x->IsConnected()) { u.add(); x->Send(StringView("hello ", 6)); x->Send(StringView("wor", 3)); }
    else d.add();
  });
  c->SetMessageCallback([=](TcpConnectionPtr const &x, Buffer &b, TimeStamp) {
    std::string t(b.GetReadBegin(), b.GetReadableSize());
    b.AdvanceAll();
    *got += t;
    kmc::Counter n = ngot;
    n.add((long)t.size());
    if (n.get() == 9) x->Send(StringView("ld.", 3));
    if (t.find('.') != std::string::npos && who == 1) x->ShutdownWrite();
    kmc::hb_release(got);
  });
  c->Connect();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    kmc::hb_acquire(got);
    kmc::check(*got == "hello world.", "the client got '%s' back", got->c_str());
    kmc::check(sup.get() == 1 && cup.get() == 1, "connected was reported %ld times by the server, %ld by the client", sup.get(), cup.get());
    kmc::check(sdown.get() == 1 && cdown.get() == 1, "not connected was reported %ld times by the server, %ld by the client", sdown.get(), cdown.get());
    l->Quit();
  });
  l->StartLoop();
  kmc::join_all();
  c.reset();
  s.reset();
  lt.reset();
  delete got;
}
KMC_SCENARIO("P02", end_to_end, (WF | RF, 2, 3)) { echo(kmc::choose(3, 0, "form"), false); }
KMC_SCENARIO("P02", end_to_end_threads, (WF | RF, 1, 2)) { echo(kmc::choose(3, 0, "form"), true); }
