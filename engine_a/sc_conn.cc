// Scenarios for connections: P01-P05
#include "conn.h"

// ---- P01 --------------------------------------------------------------------
// programs of three sends of every form in one task or in three, against every
// short, full or interrupted write
static void send_program(int ntask)
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const int LEN[] = {3, 1, 2};
  int form[3];
  form[0] = kmc::choose(FORMS, 0, "form"); form[1] = kmc::choose(FORMS, 0, "form");
  form[2] = (form[0] + 2 * form[1]) % FORMS;
  int wc = kmc::choose(3, 0, "write complete");
  if (wc) k.write_complete(wc == 1);
  int step = 0;
  std::function<void()> one = [&] {
    std::string s = letters('a' + 7 * step, LEN[step]);
    send_form(k.c, form[step], s);
    k.want += s;
    ++step;
  };
  std::function<void()> task = [&] {
    if (ntask == 1) while (step < 3) one();
    else { one(); if (step < 3) k.l->QueueToLoop(task); }
  };
  k.on_up = [&] { task(); };
  finish_when_idle(k, [&] { same(kmc::peer_received(k.p), k.want, "the peer received"); kmc::check(k.up == 1 && k.down == 0, "the connection went down"); });
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P01", send_forms, (WF, 2, 4)) { send_program(1); }
KMC_SCENARIO("P01", send_tasks, (WF, 2, 4)) { send_program(3); }

// deep: one or two forms, many deviations
KMC_SCENARIO("P01", send_deep, (WF, 3, 6))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = kmc::choose(2, 0, "form") ? 3 : 0;
  if (kmc::choose(2, 0, "write complete")) k.write_complete(true);
  k.on_up = [&] {
    send_form(k.c, form, "abcd"); send_form(k.c, 3 - form, "efg"); k.want = "abcdefg";
    k.l->QueueToLoop([&] { send_form(k.c, form, "hij"); k.want += "hij"; });
  };
  finish_when_idle(k, [&] { same(kmc::peer_received(k.p), k.want, "the peer received"); });
  k.l->StartLoop();
  kmc::join_all();
}
// a small window that the peer opens in steps; sends happen at any of them
KMC_SCENARIO("P01", send_window, (0, 1, 3))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int win = 1 + kmc::choose(4, 0, "window");
  int form[2] = {kmc::choose(FORMS, 0, "form"), kmc::choose(FORMS, 0, "form")};
  int at = kmc::choose(4, 0, "second send at");
  int wc = kmc::choose(3, 0, "write complete");
  if (wc) k.write_complete(wc == 1);
  kmc::peer_window(k.p, win);
  kmc::peer_pause(k.p, true);
  k.on_up = [&] { send_form(k.c, form[0], "abcdefg"); k.want += "abcdefg"; };
  EventLoop *l = k.l.get();
  kmc::spawn([&, l] {
    for (int i = 0; i < 20; ++i) {
      kmc::wait_idle();
      if (i == at) { l->QueueToLoop([&] { send_form(k.c, form[1], "hijkl"); k.want += "hijkl"; }); kmc::wait_idle(); }
      kmc::peer_drain(k.p, 1 + i % 2);
    }
    kmc::wait_idle();
    l->QueueToLoop([&] { same(kmc::peer_received(k.p), k.want, "the peer received"); k.c->ForceClose(); k.drop(); });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}
// big messages: more chunks than one gathering write takes, chunk borders
KMC_SCENARIO("P01", send_big, (0, 0, 0))
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const size_t N[] = {4095, 4096, 4097, 70000, 4096 * 1024 + 5, 4096 * 1030};
  size_t n = N[kmc::choose(6, 0, "size")];
  int form = kmc::choose(FORMS, 0, "form");
  static const size_t W[] = {1u << 20, 4096, 100000};
  size_t w = W[kmc::choose(n > 1000000 ? 1 : 3, 0, "window")];
  int pre = kmc::choose(2, 0, "something queued before");
  kmc::peer_window(k.p, w);
  std::string s;
  s.resize(n);
  for (size_t i = 0; i < n; ++i) s[i] = char('A' + (i ^ (i >> 7) ^ (i >> 15)) % 53);
  k.on_up = [&] {
    if (pre) { std::string q(w + 10, '.'); send_form(k.c, 0, q); k.want += q; }
    send_form(k.c, form, s); k.want += s;
    send_form(k.c, 3 - form, "END"); k.want += "END";
  };
  finish_when_idle(k, [&] { same(kmc::peer_received(k.p), k.want, "the peer received"); });
  k.l->StartLoop();
  kmc::join_all();
}
// many pieces are pending: more than one gathering write takes, and the socket
// takes them all or some of them
KMC_SCENARIO("P01", send_pieces, (0, 0, 1))
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const int N[] = {2, 1023, 1024, 1025, 2050};
  int n = N[kmc::choose(5, 0, "pieces")];
  bool shut = kmc::choose(2, 0, "shut down"), wc = kmc::choose(2, 0, "write complete");
  static const size_t W[] = {100000, 3000};
  size_t w = W[kmc::choose(2, 0, "window")];
  if (wc) k.write_complete(true);
  kmc::peer_window(k.p, 1);
  kmc::peer_pause(k.p, true);
  k.on_up = [&] {
    send_form(k.c, 0, "ab");
    k.want = "ab";
    for (int i = 0; i < n; ++i) {
      std::string s = std::to_string(i) + ";";
      ChunkList b;
      b.Append(s.data(), s.size());
      k.c->Send(b);
      k.want += s;
    }
    if (shut) k.c->ShutdownWrite();
  };
  EventLoop *l = k.l.get();
  kmc::spawn([&, l, w] {
    kmc::wait_idle();
    kmc::peer_window(k.p, w);
    kmc::peer_drain(k.p, 1);
    kmc::peer_pause(k.p, false);
    kmc::wait_idle();
    l->QueueToLoop([&] {
      same(kmc::peer_received(k.p), k.want, "the peer received");
      kmc::check(kmc::peer_fin_count(k.p) == shut, "the peer got end of stream %d times", kmc::peer_fin_count(k.p));
      if (wc) kmc::check(k.wc >= 1, "completion of the writing was not reported");
      k.c->ForceClose(); k.drop();
    });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}
// sends of several threads: each whole, in the order of its thread
static void send_threads(int threads, int each, bool loopsends)
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = kmc::choose(FORMS, 0, "form");
  EventLoop *l = k.l.get();
  TcpConnectionPtr c = k.c;
  kmc::Counter sent;
  auto msg = [](int t, int i) { return "<" + std::string(1, char('a' + t)) + std::to_string(i) + ">"; };
  k.on_up = [&, c, l] {
    for (int t = 0; t < threads; ++t)
      kmc::spawn([&, c, t] {
        for (int i = 0; i < each; ++i) send_form(c, (form + i) % FORMS, msg(t, i));
        sent.add();
      });
    if (loopsends) { send_form(c, 1, msg(threads, 0)); l->QueueToLoop([&, c] { send_form(c, form, msg(threads, 1)); }); }
  };
  finish_when_idle(k, [&] {
    std::string r = kmc::peer_received(k.p);
    int next[4] = {0, 0, 0, 0};
    size_t n = 0, i = 0;
    for (; i + 4 <= r.size(); i += 4, ++n) {
      int t = r[i + 1] - 'a', x = r[i + 2] - '0';
      kmc::check(r[i] == '<' && r[i + 3] == '>' && t >= 0 && t <= threads, "a message is torn: %s", r.c_str());
      kmc::check(x == next[t], "message %d of thread %d came when %d was expected: %s", x, t, next[t], r.c_str());
      ++next[t];
    }
    kmc::check(i == r.size(), "a message is torn: %s", r.c_str());
    for (int t = 0; t < threads; ++t) kmc::check(next[t] == each, "%d of %d messages of thread %d arrived", next[t], each, t);
    if (loopsends) kmc::check(next[threads] == 2, "%d of 2 messages of the loop arrived", next[threads]);
  });
  c.reset();
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P01", send_threads1, (WF, 2, 4)) { send_threads(1, 2, true); }
KMC_SCENARIO("P01", send_threads2, (kmc::F_SHORT_WRITE, 2, 3)) { send_threads(2, 2, true); }

// ---- P02 --------------------------------------------------------------------
// segments, read faults, what the callback takes, and how the stream ends
static void receive(int nseg)
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const char *S[] = {"ab", "c", "defg"};
  int take = kmc::choose(4, 0, "take"), end = kmc::choose(4, 0, "end");
  k.on_msg = [&](Buffer &b) {
    size_t n = b.GetReadableSize();
    kmc::check(n > 0, "message callback without a message");
    std::string all(b.GetReadBegin(), n);
    std::string left = k.want.substr(0, 0);
    size_t use = take == 0 ? n : take == 1 ? 1 : take == 2 ? n - 1 : (k.msgs % 2 ? 0 : n);
    k.got += all.substr(0, use);
    b.AdvanceRead(use);
  };
  auto rest = [&] { auto *b = k.c->GetInputBuffer(); return std::string(b->GetReadBegin(), b->GetReadableSize()); };
  std::string want;
  for (int i = 0; i < nseg; ++i) want += S[i];
  k.on_down = [&] { if (end != 2) same(k.got + rest(), want, "before the end was reported, the callback saw"); };
  EventLoop *l = k.l.get();
  kmc::Peer *p = k.p;
  kmc::spawn([=] {
    for (int i = 0; i < nseg; ++i) kmc::peer_send(p, S[i]);
    if (end == 1) kmc::peer_shutdown(p);
    if (end == 2) kmc::peer_reset(p);
    if (end == 3) kmc::peer_close(p);
  });
  kmc::spawn([&, l] {
    kmc::wait_idle();
    l->QueueToLoop([&] {
      if (end != 2) same(k.got + (k.c ? rest() : ""), want, "the callback saw");
      else kmc::check(want.compare(0, (k.got + rest()).size(), k.got + rest()) == 0, "the callback saw other bytes than the peer sent");
      kmc::check(k.down == (end != 0), "the end was reported %d times", k.down);
      k.c->ForceClose();
      k.drop();
    });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P02", receive_segments, (RF, 2, 4)) { receive(2); }
KMC_SCENARIO("P02", receive_segments3, (RF, 2, 3)) { receive(3); }

// sizes around the input buffer's and the spare room's size
KMC_SCENARIO("P02", receive_big, (0, 0, 0))
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const size_t N[] = {1, 1023, 1024, 1025, 65536, 65537, 66560, 200000};
  size_t a = N[kmc::choose(8, 0, "first")], b = N[kmc::choose(8, 0, "second")];
  int keep = kmc::choose(3, 0, "keep");
  std::string s(a + b, 0);
  for (size_t i = 0; i < s.size(); ++i) s[i] = char('A' + (i ^ (i >> 7) ^ (i >> 15)) % 53);
  k.on_msg = [&](Buffer &x) {
    size_t n = x.GetReadableSize(), u = keep == 0 ? n : keep == 1 ? n / 2 : 0;
    k.got += std::string(x.GetReadBegin(), u);
    x.AdvanceRead(u);
  };
  auto rest = [&] { auto *x = k.c->GetInputBuffer(); return std::string(x->GetReadBegin(), x->GetReadableSize()); };
  k.on_down = [&] { same(k.got + rest(), s, "before the end was reported, the callback saw"); };
  EventLoop *l = k.l.get();
  kmc::Peer *p = k.p;
  bool apart = kmc::choose(2, 0, "apart");
  kmc::spawn([&, l, p] {
    kmc::peer_send(p, s.substr(0, a));
    if (apart) kmc::wait_idle();
    kmc::peer_send(p, s.substr(a));
    kmc::peer_shutdown(p);
    kmc::wait_idle();
    l->QueueToLoop([&] { kmc::check(k.down == 1, "the end was reported %d times", k.down); k.drop(); });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}
// reading disabled and enabled again by the callback or later
KMC_SCENARIO("P02", receive_paused, (RF, 2, 4))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int when = kmc::choose(3, 0, "pause"), end = kmc::choose(2, 0, "end"), half = kmc::choose(3, 0, "write side shut down");
  k.on_msg = [&](Buffer &b) {
    k.got += std::string(b.GetReadBegin(), b.GetReadableSize());
    b.AdvanceRead(b.GetReadableSize());
    if (half == 2) k.c->ShutdownWrite();
    if (when == 1) { k.c->DisbaleRead(); int m = k.msgs; k.l->QueueToLoop([&, m] { kmc::check(k.msgs == m, "message while reading was disabled"); k.c->EnableRead(); }); }
    if (when == 2) { k.c->DisbaleRead(); k.c->EnableRead(); }
    if (half == 1) k.c->ShutdownWrite();
  };
  if (when == 0) k.on_up = [&] { if (half == 2) k.c->ShutdownWrite(); k.c->DisbaleRead(); if (half == 1) k.c->ShutdownWrite(); k.l->RunAfter([&] { kmc::check(k.msgs == 0, "message while reading was disabled"); k.c->EnableRead(); }, 1); };
  k.on_down = [&] { same(k.got, "abcde", "before the end was reported, the callback saw"); };
  kmc::Peer *p = k.p;
  EventLoop *l = k.l.get();
  kmc::spawn([=] { kmc::peer_send(p, "ab"); kmc::peer_send(p, "cde"); if (end) kmc::peer_shutdown(p); });
  k.l->RunAfter([&, l] {
    same(k.got, "abcde", "the callback saw");
    kmc::check(k.down == end, "the end was reported %d times", k.down);
    k.c->ForceClose(); k.drop();
    l->QueueToLoop([l] { l->Quit(); });
  }, 2);
  k.l->StartLoop();
  kmc::join_all();
}
// two loops read at the same time, more than their buffers can take
KMC_SCENARIO("P02", receive_two_loops, (kmc::F_SHORT_READ, 2, 3))
{
  int mode = kmc::choose(3, 0, "back end"), size = kmc::choose(3, 0, "size");
  static const size_t N[] = {1500, 3000, 66000};
  auto run = [mode, size](char c) {
    Conn k(mode);
    std::string s(N[size], c);
    EventLoop *l = k.l.get();
    k.on_down = [&] { same(k.got, s, "before the end was reported, the callback saw"); k.drop(); l->QueueToLoop([l] { l->Quit(); }); };
    kmc::peer_send(k.p, s); kmc::peer_shutdown(k.p);
    k.l->StartLoop();
    kmc::check(k.down == 1, "the end was reported %d times", k.down);
  };
  kmc::spawn([run] { run('a'); });
  run('b');
  kmc::join_all();
}
// both directions at once: an echo
KMC_SCENARIO("P02", echo, (RF | WF, 2, 3))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = kmc::choose(2, 0, "form");
  k.on_msg = [&](Buffer &b) {
    std::string s(b.GetReadBegin(), b.GetReadableSize());
    k.got += s;
    if (form == 0) { k.c->Send(b); b.AdvanceRead(b.GetReadableSize()); }
    else { b.AdvanceRead(s.size()); send_form(k.c, 3, s); }
  };
  kmc::Peer *p = k.p;
  kmc::spawn([=] { kmc::peer_send(p, "abc"); kmc::peer_send(p, "de"); });
  finish_when_idle(k, [&] { same(k.got, "abcde", "the callback saw"); same(kmc::peer_received(k.p), "abcde", "the peer received"); });
  k.l->StartLoop();
  kmc::join_all();
}

// ---- P03 --------------------------------------------------------------------
// every end at every point: peer, force close of any thread, reset, write error
static void lifecycle(bool hold)
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const int PEER[] = {0, 1, 2, 5, 3, 4}, LOCAL[] = {0, 3, 4, 5, 1, 2};
  int peer = PEER[kmc::choose(hold ? 6 : 4, 0, "peer")], local = LOCAL[kmc::choose(hold ? 6 : 4, 0, "local")];
  if (hold && kmc::choose(2, 0, "write complete")) k.write_complete(true);
  EventLoop *l = k.l.get();
  kmc::Peer *p = k.p;
  std::weak_ptr<TcpConnection> w = k.c;
  k.on_up = [&, l] {
    if (local == 1) k.c->ForceClose();
    if (local == 2) { k.c->Send(StringView("hello", 5)); k.c->ShutdownWrite(); k.c->ForceClose(); }
    if (local == 3) k.c->ForceClose();
  };
  k.on_msg = [&](Buffer &b) {
    k.got += std::string(b.GetReadBegin(), b.GetReadableSize());
    b.AdvanceRead(b.GetReadableSize());
    k.c->Send(StringView("re", 2));
    if (local == 4) k.c->ForceClose();
  };
  k.on_down = [&] { k.c->Send(StringView("late", 4)); k.c->ShutdownWrite(); k.c->DisbaleRead(); k.c->EnableRead(); k.c->ForceClose(); };
  kmc::spawn([=] {
    if (peer & 1) kmc::peer_send(p, "xy");
    if (peer / 2 == 0) kmc::peer_close(p);
    if (peer / 2 == 1) kmc::peer_reset(p);
    if (peer / 2 == 2) kmc::peer_shutdown(p);
  });
  if (local == 3 || local == 5) {
    TcpConnectionPtr c = k.c;
    kmc::spawn([c] { c->ForceClose(); c->Send(StringView("zz", 2)); c->ForceClose(); });
  }
  kmc::spawn([&, l] {
    kmc::wait_idle();
    l->QueueToLoop([&] {
      kmc::check(k.up == 1, "connected was reported %d times", k.up);
      kmc::check(k.down == 1, "not connected was reported %d times", k.down);
      kmc::check(k.c->IsDisconnected(), "the state is not disconnected");
      if (hold) { k.c->Send(StringView("later", 5)); k.c->ForceClose(); k.c->ShutdownWrite(); k.c->EnableRead(); }
      k.drop();
    });
    kmc::wait_idle();
    l->QueueToLoop([&] { kmc::check(w.expired(), "the connection is still held"); kmc::check(kmc::peer_fd_closed(p), "the descriptor is open after the connection is gone"); });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
  kmc::check(kmc::closed_registered() == 0, "a descriptor was closed while the poller still watched it");
}
KMC_SCENARIO("P03", lifecycle_ends, (RF | WF, 1, 2)) { lifecycle(true); }
KMC_SCENARIO("P03", lifecycle_races, (0, 2, 3)) { lifecycle(false); }

// destroyed by its owner (as a server's destructor does) at any moment
KMC_SCENARIO("P03", lifecycle_owner, (0, 2, 4))
{
  Conn k(kmc::choose(3, 0, "back end"), false);
  int peer = kmc::choose(4, 0, "peer");
  bool wait = kmc::choose(2, 0, "wait");
  int half = kmc::choose(3, 0, "half closed"); // with or without output to go
  if (half == 2) kmc::peer_window(k.p, 2);
  EventLoop *l = k.l.get();
  kmc::Peer *p = k.p;
  std::weak_ptr<TcpConnection> w = k.c;
  // the server looks in its table first, so the owner and the close callback
  // never both ask for the destruction
  kmc::Counter owned;
  owned.set(1);
  k.c->SetCloseCallback([=](TcpConnectionPtr const &x) {
    if (owned.add(-1) < 0) return;
    l->QueueToLoop([x] { x->ConnectionDestroyed(); });
  });
  kmc::spawn([=] {
    if (peer == 1) { kmc::peer_send(p, "a"); kmc::peer_close(p); }
    if (peer == 2) kmc::peer_reset(p);
    if (peer == 3) kmc::peer_send(p, "abc");
  });
  TcpConnectionPtr c = k.c;
  k.on_up = [&w, half] {
    if (half) { auto c = w.lock(); c->Send(StringView("abc", 3)); c->ShutdownWrite(); }
  };
  k.c.reset();
  k.on_msg = [&](Buffer &b) { b.AdvanceRead(b.GetReadableSize()); };
  // after ConnectionEstablished(), as it was queued earlier
  l->QueueToLoop([c] { c->ConnectionEstablished(); });
  kmc::spawn([=]() mutable {
    if (wait) kmc::wait_idle();
    if (owned.add(-1) >= 0) l->RunInLoop([c] { c->ConnectionDestroyed(); });
    c.reset();
  });
  c.reset();
  kmc::spawn([&, l] {
    kmc::wait_idle();
    kmc::check(w.expired(), "the connection is still held");
    l->QueueToLoop([&] { kmc::check(k.up == 1 && k.down == 1, "connected was reported %d times, not connected %d times", k.up, k.down); });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
  kmc::check(kmc::closed_registered() == 0, "a descriptor was closed while the poller still watched it");
}

// ---- P04 --------------------------------------------------------------------
static void shut(unsigned, bool threads)
{
  Conn k(kmc::choose(3, 0, "back end"));
  int how = kmc::choose(threads ? 4 : 5, 0, "how"), form = threads ? 2 + kmc::choose(2, 0, "form") : kmc::choose(FORMS, 0, "form");
  int wc = kmc::choose(3, 0, "write complete");
  int win = kmc::choose(2, 0, "window");
  if (wc) k.write_complete(wc == 1);
  if (win) kmc::peer_window(k.p, 2);
  EventLoop *l = k.l.get();
  kmc::Peer *p = k.p;
  std::string want = "abcde";
  if (!threads)
    k.on_up = [&, l] {
      switch (how) {
      case 0: send_form(k.c, form, "abc"); send_form(k.c, 3 - form, "de"); k.c->ShutdownWrite(); break;
      case 1: send_form(k.c, form, "abcde"); k.c->ShutdownWrite(); k.c->ShutdownWrite(); k.c->Send(StringView("no", 2)); break;
      case 2: send_form(k.c, form, "abcde"); l->QueueToLoop([&] { k.c->ShutdownWrite(); }); break;
      case 3: send_form(k.c, form, "abc"); l->QueueToLoop([&] { send_form(k.c, form, "de"); k.c->ShutdownWrite(); }); break;
      case 4: k.c->ShutdownWrite(); want = ""; break;
      }
    };
  else {
    TcpConnectionPtr c = k.c;
    k.on_up = [&, c] {
      kmc::spawn([=] {
        if (how == 0) { send_form(c, form, "abc"); send_form(c, 3 - form, "de"); c->ShutdownWrite(); }
        if (how == 1) { send_form(c, form, "abcde"); c->ShutdownWrite(); c->ShutdownWrite(); }
        if (how == 2) { send_form(c, form, "abcde"); kmc::wait_until([p] { return kmc::peer_received(p).size() == 5; }); c->ShutdownWrite(); }
        if (how == 3) { send_form(c, form, "abcde"); c->GetLoop()->QueueToLoop([c] { c->ShutdownWrite(); }); }
      });
    };
    c.reset();
  }
  finish_when_idle(k, [&] {
    kmc::check(k.down == 0, "the connection went down");
    same(kmc::peer_received(p), want, "before the end of stream the peer received");
    kmc::check(kmc::peer_fin_count(p) == 1, "the peer got end of stream %d times", kmc::peer_fin_count(p));
    k.on_up = nullptr;
  });
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P04", shutdown_loop, (WF, 2, 4)) { shut(WF, false); }
KMC_SCENARIO("P04", shutdown_threads, (WF, 2, 3)) { shut(WF, true); }

// data still comes in after the half close, then the peer closes
KMC_SCENARIO("P04", shutdown_half, (WF | RF, 2, 3))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int end = kmc::choose(2, 0, "end");
  kmc::Peer *p = k.p;
  EventLoop *l = k.l.get();
  k.on_up = [&] { k.c->Send(StringView("abc", 3)); k.c->ShutdownWrite(); };
  kmc::spawn([&, l, p] {
    kmc::wait_idle();
    kmc::check(kmc::peer_fin_count(p) == 1, "the peer got end of stream %d times", kmc::peer_fin_count(p));
    kmc::peer_send(p, "xyz");
    if (end) kmc::peer_shutdown(p); else kmc::peer_close(p);
    kmc::wait_idle();
    l->QueueToLoop([&k, p] {
      same(k.got, "xyz", "after the half close the callback saw");
      same(kmc::peer_received(p), "abc", "the peer received");
      kmc::check(k.down == 1, "not connected was reported %d times", k.down);
      k.drop();
    });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}

// ---- P05 --------------------------------------------------------------------
// a send on the loop's thread with the expected high-water-mark notification
struct Marks {
  Conn &k;
  size_t mark;
  std::vector<size_t> want, got;
  Marks(Conn &x, size_t m) : k(x), mark(m)
  {
    k.c->SetHighWaterMarkCallback([this](TcpConnectionPtr const &, size_t n) { kmc::check(kmc::self() == k.me, "high-water-mark callback on a foreign thread"); got.push_back(n); }, m);
  }
  size_t queued() const { return k.want.size() - k.written(); }
  void send(int form, std::string const &s)
  {
    size_t before = queued();
    k.want += s;
    k.last_send.set(k.seq.add());
    send_form(k.c, form, s);
    size_t after = queued();
    if (before < mark && after >= mark) want.push_back(after);
  }
  void done()
  {
    std::string w, g;
    for (auto x : want) w += std::to_string(x) + " ";
    for (auto x : got) g += std::to_string(x) + " ";
    kmc::check(w == g, "high-water-mark notifications: '%s', expected '%s'", g.c_str(), w.c_str());
  }
};
// write-complete is called only when everything accepted was written, and after
// the last drain; high-water mark exactly on crossings
static void notify(int nsend, bool split)
{
  Conn k(kmc::choose(3, 0, "back end"));
  static const size_t M[] = {1, 3, 6};
  Marks m(k, M[kmc::choose(3, 0, "mark")]);
  int form = 2 + kmc::choose(2, 0, "form"), again = kmc::choose(2, 0, "send in write complete");
  k.write_complete(kmc::choose(2, 0, "write complete returns") == 0);
  int win = kmc::choose(2, 0, "window");
  if (win) kmc::peer_window(k.p, 2);
  k.on_wc = [&] {
    kmc::check(k.want.size() == k.written(), "write complete although %zu of %zu bytes are written", k.written(), k.want.size());
    if (again && k.wc <= 2) m.send(again == 1 ? form : 0, letters('r', k.wc == 1 ? 4 : 1));
  };
  static const int LEN[] = {3, 2, 4};
  int i = 0;
  std::function<void()> task = [&] {
    m.send((form + i) % FORMS, letters('a' + 7 * i, LEN[i]));
    if (++i == nsend) return;
    if (split) k.l->QueueToLoop(task); else task();
  };
  k.on_up = [&] { task(); };
  finish_when_idle(k, [&] {
    same(kmc::peer_received(k.p), k.want, "the peer received");
    kmc::check(k.wc >= 1, "write complete was never reported");
    kmc::check(k.last_wc.get() > k.last_send.get(), "write complete was not reported after the last drain");
    m.done();
    // later sends still work
    k.on_wc = nullptr;
    k.write_complete(true);
  });
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P05", notify_one_task, (WF, 2, 4)) { notify(2, false); }
KMC_SCENARIO("P05", notify_tasks, (WF, 1, 3)) { notify(3, true); }

// sends from another thread: notified after the drain, never while bytes are queued
KMC_SCENARIO("P05", notify_threads, (WF, 2, 4))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = kmc::choose(FORMS, 0, "form");
  k.write_complete(kmc::choose(2, 0, "write complete returns") == 0);
  size_t at_wc = 0;
  k.on_wc = [&] { kmc::check(!k.c->GetOutputBuffer()->HasReadable(), "write complete although output is queued"); at_wc = k.written(); };
  TcpConnectionPtr c = k.c;
  k.on_up = [&, c] { kmc::spawn([=] { send_form(c, form, "abc"); send_form(c, 3 - form, "de"); }); };
  c.reset();
  finish_when_idle(k, [&] {
    same(kmc::peer_received(k.p), "abcde", "the peer received");
    kmc::check(at_wc == 5, "write complete was not reported after the last drain");
    k.on_up = nullptr;
  });
  k.l->StartLoop();
  kmc::join_all();
}
// the connection goes down with or without output pending: not after that
KMC_SCENARIO("P05", notify_down, (WF, 2, 3))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = kmc::choose(FORMS, 0, "form"), how = kmc::choose(6, 0, "how");
  if (kmc::choose(2, 0, "window")) kmc::peer_window(k.p, 2);
  k.write_complete(kmc::choose(2, 0, "write complete returns") == 0);
  TcpConnectionPtr c = k.c;
  kmc::Peer *p = k.p;
  if (how == 5) k.on_wc = [c] { c->ForceClose(); };
  k.on_up = [=] {
    if (how == 0) kmc::peer_close(p);
    if (how == 1) kmc::peer_reset(p);
    send_form(c, form, "abc");
    if (how == 2) c->ForceClose();
    if (how == 3) kmc::peer_close(p);
    if (how == 4) kmc::spawn([=] { send_form(c, form, "de"); c->ForceClose(); });
  };
  c.reset();
  finish_when_idle(k, [&] {
    if (how < 5) kmc::check(k.down == 1, "the connection is not down");
    k.on_up = nullptr; k.on_wc = nullptr;
  });
  k.l->StartLoop();
  kmc::join_all();
}
// the callback sets another one, or none
KMC_SCENARIO("P05", notify_replaced, (WF, 2, 3))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = kmc::choose(FORMS, 0, "form"), other = kmc::choose(2, 0, "another"), ret = kmc::choose(2, 0, "write complete returns");
  TcpConnectionPtr c = k.c;
  int first = 0, second = 0;
  std::string text(100, 'x'); // a copy of it lives in the callback
  c->SetWriteCompleteCallback([&k, &first, &second, text, other, ret](TcpConnectionPtr const &x) {
    if (other) x->SetWriteCompleteCallback([&](TcpConnectionPtr const &) { ++second; return true; });
    else x->SetWriteCompleteCallback({});
    kmc::check(text == std::string(100, 'x'), "the callback is gone while it runs");
    ++first;
    if (ret) x->Send(StringView("de", 2));
    return ret == 0;
  });
  k.on_up = [c, form] { send_form(c, form, "abc"); };
  c.reset();
  finish_when_idle(k, [&] {
    same(kmc::peer_received(k.p), ret ? "abcde" : "abc", "the peer received");
    kmc::check(first == 1, "the first callback ran %d times", first);
    if (ret) kmc::check((second >= 1) == (other == 1), "the second callback ran %d times", second);
    k.on_up = nullptr;
  });
  k.l->StartLoop();
  kmc::join_all();
}
// after the callback returned either value, later sends and events go on
KMC_SCENARIO("P05", notify_later, (WF, 2, 3))
{
  Conn k(kmc::choose(3, 0, "back end"));
  int form = 2 + kmc::choose(2, 0, "form"), rets = kmc::choose(8, 0, "write complete returns");
  int win = kmc::choose(2, 0, "window");
  if (win) kmc::peer_window(k.p, 2);
  k.write_complete(true);
  k.on_wc = [&] {
    kmc::check(k.want.size() == k.written(), "write complete although %zu of %zu bytes are written", k.written(), k.want.size());
    k.wc_ret = !((rets >> (k.wc % 3)) & 1);
  };
  EventLoop *l = k.l.get();
  auto send = [&](const char *s) { k.want += s; k.last_send.set(k.seq.add()); send_form(k.c, form, s); };
  k.on_up = [&] { send("abc"); };
  kmc::spawn([&, l] {
    for (int r = 0; r < 3; ++r) {
      kmc::wait_idle();
      l->QueueToLoop([&, r] {
        same(kmc::peer_received(k.p), k.want, "the peer received");
        kmc::check(k.last_wc.get() > k.last_send.get(), "write complete was not reported after the last drain");
        if (r < 2) send(r ? "fgh" : "de"); else k.c->ForceClose();
      });
    }
    kmc::wait_idle();
    l->QueueToLoop([&] { k.drop(); });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}
