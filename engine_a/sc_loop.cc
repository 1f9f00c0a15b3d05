// Scenarios for the event loop, its timers, pollers, threads and pools: P06-P11
#include "kmc.h"
#include <math.h>
#include <stdint.h>
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/net/channel.h"
#include "kanon/net/timer/timer_id.h"
#include "kanon/thread/current_thread.h"
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using namespace kanon;
static const unsigned LF = kmc::F_EINTR_POLL | kmc::F_SPURIOUS;

// back end and trigger mode
// the loop ends without waiting for anything
static void start_and_end(EventLoop *l)
{
  int64_t t0 = kmc::now_us();
  l->StartLoop();
  kmc::check(kmc::now_us() - t0 < 1000000, "the loop ended only after another event");
}
struct Loop {
  std::unique_ptr<EventLoop> l;
  int mode;
  explicit Loop(int m) : l(new EventLoop(m == 1)), mode(m) { if (m == 2) l->SetEdgeTriggerMode(); }
  EventLoop *operator->() const { return l.get(); }
};

// ---- P06: tasks -----------------------------------------------------------
// tasks of several threads, all run once, in the order of their thread, on the
// loop's thread; the loop sleeps in between
static void tasks(int producers, int each)
{
  Loop loop(kmc::choose(3, 0, "back end"));
  int me = kmc::self();
  kmc::Counter run, in, last[3];
  EventLoop *l = loop.l.get();
  int64_t t0 = kmc::now_us();
  l->QueueToLoop([&, me] { kmc::check(kmc::self() == me, "task on a foreign thread"); in.add(); });
  for (int p = 0; p < producers; ++p)
    kmc::spawn([&, p, l, me] {
      for (int i = 1; i <= each; ++i) {
        auto f = [&, p, i, me, l] {
          kmc::check(kmc::self() == me, "task on a foreign thread");
          kmc::check(last[p].get() == i - 1, "task %d of a thread ran when %ld of its tasks had run", i, last[p].get());
          last[p].set(i);
          if (run.add() == producers * each) l->Quit();
        };
        if (i & 1) l->QueueToLoop(f); else l->RunInLoop(f);
      }
    });
  l->StartLoop();
  kmc::check(kmc::now_us() - t0 < 1000000, "the loop slept while a task was queued");
  kmc::join_all();
  kmc::check(in.get() == 1, "the task queued before the start ran %ld times", in.get());
  kmc::check(run.get() == producers * each, "%ld of %d tasks ran", run.get(), producers * each);
}
KMC_SCENARIO("P06", loop_tasks, (LF, 3, 5)) { tasks(2, 2); }
KMC_SCENARIO("P06", loop_tasks_one, (LF, 4, 6)) { tasks(1, 3); }

// a task from every phase of the loop: before the start, from a task, from a
// timer callback and from an event callback; running one from the loop's own
// thread does not queue it
KMC_SCENARIO("P06", loop_self_tasks, (LF, 3, 4))
{
  Loop loop(kmc::choose(3, 0, "back end"));
  EventLoop *l = loop.l.get();
  int fd = kmc::make_event(true);
  Channel ch(l, fd);
  kmc::Counter a, b, c, d, now, order;
  int first = kmc::choose(3, 0, "first");
  auto finish = [&, l] { if (a.get() && b.get() && c.get() && d.get()) l->Quit(); };
  ch.SetReadCallback([&, l, finish](TimeStamp) {
    uint64_t x; ::read(fd, &x, 8);
    ch.DisableAll(); ch.Remove();
    int64_t q = kmc::now_us();
    l->QueueToLoop([&, finish, q] { kmc::check(kmc::now_us() - q < 100000, "the loop slept while a task was queued"); kmc::check(a.add() == 1, "task of an event callback ran twice"); finish(); });
  });
  auto at_once = [](int64_t since) { kmc::check(kmc::now_us() - since < 100000, "the loop slept while a task was queued"); };
  auto task = [&, l, finish, at_once] {
    int64_t q = kmc::now_us();
    l->QueueToLoop([&, l, finish, at_once, q]() mutable {
      at_once(q);
      kmc::check(order.get() == 1, "a queued task ran inside the task that queued it");
      kmc::check(b.add() == 1, "task of a task ran twice");
      q = kmc::now_us();
      l->QueueToLoop([&, l, finish, at_once, q] { at_once(q); kmc::check(c.add() == 1, "task of a task's task ran twice"); finish(); });
      finish();
    });
    l->RunInLoop([&] { now.add(); });
    kmc::check(now.get() == 1, "running a task from the loop's thread did not run it at once");
    order.set(1);
  };
  auto timer = [&, l, finish] { l->RunAfter([&, l, finish] { int64_t q = kmc::now_us(); l->QueueToLoop([&, finish, q] { kmc::check(kmc::now_us() - q < 100000, "the loop slept while a task was queued"); kmc::check(d.add() == 1, "task of a timer ran twice"); finish(); }); }, 0.5); };
  if (first == 0) { ch.EnableReading(); l->QueueToLoop(task); timer(); }
  else if (first == 1) l->QueueToLoop([&, task, timer] { ch.EnableReading(); task(); timer(); });
  else { timer(); kmc::spawn([&, l, task] { l->RunInLoop([&, task] { ch.EnableReading(); task(); }); }); }
  int64_t t0 = kmc::now_us();
  l->StartLoop();
  kmc::check(kmc::now_us() - t0 < 1000000, "the loop slept while a task was queued");
  kmc::join_all();
  kmc::check(a.get() == 1 && b.get() == 1 && c.get() == 1 && d.get() == 1 && now.get() == 1, "tasks ran %ld %ld %ld %ld", a.get(), b.get(), c.get(), d.get());
  ::close(fd);
}

// a chain of tasks, each queued by the one before, on a loop that has nothing
// else to do; the first from outside or from the loop's thread
KMC_SCENARIO("P06", loop_chain, (LF, 3, 4))
{
  int mode = kmc::choose(3, 0, "back end"), n = 1 + kmc::choose(3, 0, "length"), how = kmc::choose(4, 0, "first by");
  Loop loop(mode);
  EventLoop *l = loop.l.get();
  kmc::Counter ran;
  int64_t q = 0;
  std::function<void()> next = [&, l] {
    kmc::check(kmc::now_us() - q < 100000, "the loop slept while a task was queued");
    q = kmc::now_us();
    if (ran.add() < n) { if (how & 1) l->RunInLoop([&, l] { l->QueueToLoop(next); }); else l->QueueToLoop(next); }
    else l->Quit();
  };
  if (how < 2) l->RunAfter([&, l] { q = kmc::now_us(); l->QueueToLoop(next); }, 1);
  else kmc::spawn([&, l] { kmc::wait_idle(); l->QueueToLoop([&] { q = kmc::now_us(); next(); }); });
  l->StartLoop();
  kmc::join_all();
  kmc::check(ran.get() == n, "%ld of %d tasks ran", ran.get(), n);
}

// an idle loop in another thread: every task runs without any other event, and
// what the tasks capture is released
KMC_SCENARIO("P06", loop_idle_wakes, (LF, 3, 4))
{
  EventLoopThread t;
  EventLoop *l = t.StartRun();
  for (int i = 0; i < 3; ++i) {
    kmc::Counter ran;
    kmc::wait_idle();
    auto sp = std::make_shared<int>(7);
    std::weak_ptr<int> w = sp;
    l->QueueToLoop([sp, ran] { ran.add(); });
    sp.reset();
    kmc::wait_idle();
    kmc::check(ran.get() == 1, "task queued to a sleeping loop ran %ld times when everything was idle again", ran.get());
    kmc::check(w.expired(), "what a finished task captured is still held");
  }
}

// ---- P07: quitting --------------------------------------------------------
// quit at any point; the loop is destroyed as soon as it ended
KMC_SCENARIO("P07", quit_other, (LF, 3, 6))
{
  int mode = kmc::choose(3, 0, "back end");
  kmc::Counter ran, post;
  std::function<void()> fn;
  {
    Loop loop(mode);
    EventLoop *l = loop.l.get();
    kmc::spawn([l, ran, post] { l->QueueToLoop([ran] { ran.add(); }); l->RunInLoop([ran] { ran.add(); }); l->Quit(); post.set(1); });
    start_and_end(l);
    kmc::check(ran.get() == 2, "%ld of 2 tasks handed over before quit ran before the loop ended", ran.get());
  }
  kmc::join_all();
  kmc::check(ran.get() == 2, "tasks ran %ld times", ran.get());
}
// a task handed over by a second thread, concurrently with the quit: runs at most once
KMC_SCENARIO("P07", quit_race_task, (LF, 3, 5))
{
  int mode = kmc::choose(2, 0, "back end");
  kmc::Counter before, other;
  Loop loop(mode);
  EventLoop *l = loop.l.get();
  kmc::spawn([=] { l->QueueToLoop([other] { other.add(); }); });
  kmc::spawn([=] { l->QueueToLoop([before] { before.add(); }); l->Quit(); });
  start_and_end(l);
  kmc::join_all();
  kmc::check(before.get() == 1, "the task handed over before the quit ran %ld times", before.get());
  kmc::check(other.get() <= 1, "a task ran %ld times", other.get());
}
// two threads quit the same loop
KMC_SCENARIO("P07", quit_two, (LF, 3, 5))
{
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  kmc::Counter n;
  for (int i = 0; i < 2; ++i) kmc::spawn([=] { l->QueueToLoop([n] { n.add(); }); l->Quit(); });
  start_and_end(l);
  long seen = n.get();
  kmc::check(seen >= 1, "the loop ended before the task handed over before the quit ran");
  kmc::join_all();
  kmc::check(n.get() <= 2 && n.get() == seen, "tasks ran %ld times, %ld before the loop ended", n.get(), seen);
}
// quit from inside: before the start, a task, an event callback, a timer callback
KMC_SCENARIO("P07", quit_inside, (LF, 3, 5))
{
  int mode = kmc::choose(3, 0, "back end"), how = kmc::choose(6, 0, "from");
  Loop loop(mode);
  EventLoop *l = loop.l.get();
  kmc::Counter ran;
  int fd = kmc::make_event(true);
  Channel ch(l, fd);
  ch.SetReadCallback([&](TimeStamp) { uint64_t x; ::read(fd, &x, 8); l->QueueToLoop([ran] { ran.add(); }); l->Quit(); ch.DisableAll(); ch.Remove(); });
  int64_t t0 = kmc::now_us();
  switch (how) {
  case 0: l->QueueToLoop([ran] { ran.add(); }); l->Quit(); break;
  case 1: l->QueueToLoop([=] { l->QueueToLoop([ran] { ran.add(); }); l->Quit(); }); break;
  case 2: ch.EnableReading(); break;
  case 3: l->RunAfter([=] { l->QueueToLoop([ran] { ran.add(); }); l->Quit(); }, 1); break;
  case 4: l->QueueToLoop([=] { l->Quit(); }); l->QueueToLoop([ran] { ran.add(); }); break;
  case 5: ran.add(); l->Quit(); break; // nothing handed over, so nothing else wakes the loop
  }
  l->RunAfter([] {}, 100); // the loop does not wait for this one
  l->StartLoop();
  kmc::check(ran.get() == 1, "the task handed over before the quit ran %ld times", ran.get());
  kmc::check(kmc::now_us() - t0 < 2000000, "the loop ended only after another event");
  ::close(fd);
}
// a quitting thread against a loop busy with events
KMC_SCENARIO("P07", quit_busy, (LF, 3, 5))
{
  Loop loop(kmc::choose(3, 0, "back end"));
  EventLoop *l = loop.l.get();
  int fd = kmc::make_event(false);
  Channel ch(l, fd);
  kmc::Counter ev, ran;
  ch.SetReadCallback([&](TimeStamp) { ev.add(); uint64_t x; ::read(fd, &x, 8); });
  ch.EnableReading();
  kmc::spawn([&, l] { kmc::event_set(fd, true); l->RunInLoop([ran] { ran.add(); }); l->Quit(); });
  kmc::spawn([&] { kmc::event_set(fd, true); });
  start_and_end(l);
  kmc::check(ran.get() == 1, "the task handed over before the quit ran %ld times", ran.get());
  ch.DisableAll(); ch.Remove();
  kmc::join_all();
  ::close(fd);
}

// a task that keeps queueing itself holds up neither the quit nor timers and events
KMC_SCENARIO("P07", quit_requeue, (LF, 2, 3))
{
  int mode = kmc::choose(3, 0, "back end"), how = kmc::choose(4, 0, "quit from");
  kmc::Counter n, at, timer, ev;
  at.set(-1);
  int fd = kmc::make_event(how == 2);
  {
    Loop loop(mode);
    EventLoop *l = loop.l.get();
    Channel ch(l, fd);
    ch.SetReadCallback([&, l](TimeStamp) { uint64_t x; ::read(fd, &x, 8); ev.add(); at.set(n.get()); l->Quit(); });
    if (how == 2) ch.EnableReading();
    std::function<void()> again = [&, l] {
      long k = n.add();
      if (k == 2 && how == 0) { at.set(k); l->Quit(); }
      if (k < 10) l->QueueToLoop(again);
    };
    l->QueueToLoop(again);
    if (how == 1) l->RunAfter([&, l] { timer.add(); at.set(n.get()); l->Quit(); }, 0.0001);
    if (how == 3) kmc::spawn([&, l] { at.set(n.get()); l->Quit(); });
    start_and_end(l);
    if (how == 2) { ch.DisableAll(); ch.Remove(); }
    kmc::join_all();
  }
  kmc::check(at.get() >= 0, "the quit was never requested");
  if (how == 0) kmc::check(n.get() <= at.get() + 2, "a task that queues itself ran %ld times after the quit", n.get() - at.get());
  if (how == 2) kmc::check(at.get() <= 7, "a ready event waited for %ld runs of a task that queues itself", at.get());
  ::close(fd);
}

// ---- P08: loop threads and pools --------------------------------------------
KMC_SCENARIO("P08", loop_thread, (LF, 3, 6))
{
  kmc::Counter ran, tid;
  {
    EventLoopThread t("lt");
    EventLoop *l = t.StartRun();
    kmc::check(l != nullptr, "no loop");
    kmc::check(t.GetLoop() == l, "GetLoop() differs from StartRun()");
    kmc::check(!l->IsLoopInThread(), "the loop belongs to the starting thread");
    l->QueueToLoop([=] { ran.add(); tid.set(kmc::self()); kmc::check(l->IsLoopInThread(), "loop not on its thread"); });
  }
  kmc::check(ran.get() == 1, "the task handed to the loop thread ran %ld times", ran.get());
  kmc::check(tid.get() != kmc::self(), "the task ran on the starting thread");
  kmc::check(kmc::live_threads() == 0, "the loop thread still runs after its object is gone");
}
KMC_SCENARIO("P08", loop_thread_init, (LF, 3, 5))
{
  int how = kmc::choose(4, 0, "init");
  kmc::Counter init, ran;
  {
    EventLoopThread t;
    EventLoop *seen = nullptr;
    EventLoop *l = t.StartRun([&](EventLoop *x) {
      seen = x; init.add();
      kmc::check(x->IsLoopInThread(), "initialised on a foreign thread");
      if (how == 1) x->Quit();
      if (how == 2) x->QueueToLoop([=] { ran.add(); });
      if (how == 3) x->QueueToLoop([=] { x->Quit(); });
    });
    kmc::check(init.get() == 1, "init callback ran %ld times before the start returned", init.get());
    if (how != 1 && how != 3) kmc::check(seen == l, "init callback got another loop");
  }
  kmc::check(ran.get() == (how == 2), "task of the init callback ran %ld times", ran.get());
  kmc::check(kmc::live_threads() == 0, "the loop thread still runs after its object is gone");
}
// the loop quits by itself or by request while the owner destroys the thread
KMC_SCENARIO("P08", loop_thread_quit, (LF, 3, 5))
{
  int how = kmc::choose(4, 0, "quit");
  kmc::Counter ran;
  {
    EventLoopThread t;
    if (how == 3) return; // never started
    EventLoop *l = t.StartRun();
    if (how == 0) l->QueueToLoop([=] { ran.add(); l->Quit(); });
    if (how == 1) { l->QueueToLoop([=] { ran.add(); }); l->Quit(); }
    if (how == 2) { l->RunAfter([=] { ran.add(); l->Quit(); }, 0.1); kmc::wait_idle(); }
    if (kmc::choose(2, 0, "wait") == 1) kmc::wait_idle();
  }
  if (how != 2) kmc::check(ran.get() == 1, "the task ran %ld times", ran.get());
  kmc::check(kmc::live_threads() == 0, "the loop thread still runs after its object is gone");
}
KMC_SCENARIO("P08", loop_pool, (LF, 2, 4))
{
  int n = kmc::choose(4, 0, "loops");
  EventLoop base;
  kmc::Counter init, ran[3], bad;
  {
    EventLoopPool pool(&base, "p");
    pool.SetLoopNum(n);
    kmc::check(pool.GetLoopNum() == n, "loop number");
    if (kmc::choose(2, 0, "init cb")) { pool.StartRun([&](EventLoop *l) { init.add(); kmc::check(l->IsLoopInThread(), "init callback on a foreign thread"); }); kmc::check(init.get() == n, "init callback ran %ld times for %d loops", init.get(), n); }
    else pool.StartRun();
    kmc::check(pool.IsStarted(), "pool is not started");
    std::vector<EventLoop *> got;
    for (int i = 0; i < 2 * n + 2; ++i) {
      EventLoop *l = pool.GetNextLoop();
      kmc::check(l != nullptr, "no loop");
      got.push_back(l);
      if (n == 0) { kmc::check(l == &base, "empty pool gave another loop than the base loop"); continue; }
      kmc::check(l != &base, "the pool gave the base loop");
      if (i >= n) kmc::check(l == got[i - n], "loops are not handed out in turn: loop %d differs from loop %d", i, i - n);
      else for (int j = 0; j < i; ++j) kmc::check(got[j] != l, "loop %d was handed out again before every loop had its turn", j);
      if (i < n) l->QueueToLoop([&, i, l] { ran[i].add(); if (!l->IsLoopInThread()) bad.add(); });
    }
  }
  for (int i = 0; i < n; ++i) kmc::check(ran[i].get() == 1, "the task of loop %d ran %ld times", i, ran[i].get());
  kmc::check(!bad.get(), "a task ran on a foreign thread");
  kmc::check(kmc::live_threads() == 0, "a loop of the pool still runs after the pool is gone");
}
KMC_SCENARIO("P08", loop_pool_unused, (LF, 3, 5))
{
  EventLoop base;
  EventLoopPool pool(&base, "p");
  pool.SetLoopNum(2);
  if (kmc::choose(2, 0, "start")) pool.StartRun();
}

// ---- P09, P10: timers -----------------------------------------------------
struct TimerRec { int64_t due, added, interval; int runs; int64_t last; bool cancelled, once_cancelled; };
// expected behaviour of every timer of one loop, checked at each callback
struct Model {
  EventLoop *l;
  int me;
  bool exact;
  std::map<int, TimerRec> t;
  std::map<int, TimerId> id;
  int next = 0;
  explicit Model(EventLoop *x, bool ex = true) : l(x), me(kmc::self()), exact(ex) {}
  int add(int64_t due, int64_t interval) { TimerRec r = {due, kmc::realtime_us(), interval, 0, 0, false, false}; t[next] = r; return next++; }
  void fired(int i) {
    TimerRec &r = t[i];
    int64_t now = kmc::realtime_us();
    kmc::check(kmc::self() == me, "timer callback on a foreign thread");
    kmc::check(!r.cancelled, "timer %d ran after it was cancelled", i);
    kmc::check(r.interval || !r.runs, "one-shot timer %d ran again", i);
    kmc::check(now >= r.due, "timer %d ran %lld us early", i, (long long)(r.due - now));
    if (exact) kmc::check(now - (r.due > r.added ? r.due : r.added) <= 1000, "timer %d ran %lld us late although the loop was free", i, (long long)(now - r.due));
    for (auto &o : t)
      if (o.first != i && !o.second.cancelled && (exact || !o.second.interval) && (o.second.interval || !o.second.runs) && o.second.due < r.due && o.second.added <= o.second.due)
        kmc::check(false, "timer %d (due %lld us later) ran before timer %d", i, (long long)(r.due - o.second.due), o.first);
    ++r.runs; r.last = now;
    // the next due time is one interval after the loop noticed this one
    if (r.interval) r.due = exact ? now + r.interval : r.due + r.interval;
  }
  void done() { for (auto &o : t) if (!o.second.cancelled) kmc::check(o.second.runs >= 1, "timer %d never ran", o.first); }
};

// every insertion order of one-shot timers with equal, past and future times
KMC_SCENARIO("P09", timer_orders, (0, 0, 0))
{
  static const int64_t D[] = {-1000000, 0, 40, 1000, 2500000};
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  Model m(l);
  int n = 4;
  for (int i = 0; i < n; ++i) {
    int64_t d = D[kmc::choose(5, 0, "due")];
    TimeStamp at(TimeStamp::Now().GetMicrosecondsSinceEpoch() + d);
    int k = m.add(at.GetMicrosecondsSinceEpoch(), 0);
    l->RunAt([&m, k] { m.fired(k); }, at);
  }
  l->RunAfter([=] { l->Quit(); }, 10);
  l->StartLoop();
  m.done();
}
// timers added from inside timer callbacks
KMC_SCENARIO("P09", timer_nested, (0, 0, 0))
{
  static const double D[] = {0, 0.00005, 0.5, 1.0};
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  Model m(l);
  auto after = [&](double d, std::function<void()> f) {
    int k = m.add(kmc::realtime_us() + int64_t(d * 1e6), 0);
    l->RunAfter([&m, k, f] { m.fired(k); if (f) f(); }, d);
  };
  double a = D[kmc::choose(4, 0, "a")], b = D[kmc::choose(4, 0, "b")], c = D[kmc::choose(4, 0, "c")], d = D[kmc::choose(4, 0, "d")];
  after(a, [=] { after(b, [=] { after(c, nullptr); }); after(c, nullptr); });
  after(d, nullptr);
  l->RunAfter([=] { l->Quit(); }, 20);
  l->StartLoop();
  m.done();
}
// the convenience forms compute the right due time, also for long delays
KMC_SCENARIO("P09", timer_forms, (0, 0, 0))
{
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  Model m(l);
  int form = kmc::choose(5, 0, "form");
  static const int64_t US[] = {1, 999, 1000, 999999, 1000000, 1500000, 3600000000ll, 5000000000ll * 1000};
  int64_t us = US[kmc::choose(8, 0, "delay")];
  kmc::Counter n;
  if (form == 1) us = us / 1000 * 1000;
  int k = m.add(kmc::realtime_us() + us, 0);
  auto f = [&, k] { m.fired(k); n.add(); };
  // a double holds the delay to within a microsecond
  if (form == 0 || form == 3) m.t[k].due -= 1;
  switch (form) {
  case 0: l->RunAfter(f, us / 1e6); break;
  case 1: l->RunAfterMs(f, us / 1000); break;
  case 2: l->RunAfterUs(f, us); break;
  case 3: l->RunEvery([=] { f(); l->Quit(); }, us / 1e6); break;
  case 4: l->RunEvery([=] { f(); l->Quit(); }, TimeStamp(kmc::realtime_us() + us), 5000.0); break;
  }
  l->RunAt([=] { l->Quit(); }, TimeStamp(kmc::realtime_us() + us + 20000000));
  l->StartLoop();
  kmc::check(n.get() == 1, "timer ran %ld times", n.get());
}
// delays that nobody lives to see, due times before all time
KMC_SCENARIO("P09", timer_extremes, (0, 0, 0))
{
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  static const double S[] = {1e9, 9e12, 9.3e12, 1.84e13, 1.9e13, 1e18, 1e300, INFINITY};
  static const uint64_t N[] = {INT64_MAX / 1000, INT64_MAX / 1000 + 1, UINT64_MAX / 1000 - 1, UINT64_MAX / 1000 + 1, INT64_MAX - 1, (uint64_t)INT64_MAX + 1, UINT64_MAX - 1, UINT64_MAX};
  static const int64_t AT[] = {INT64_MIN, INT64_MIN + 1, -1, 0, 1, -9000000000000000000ll, INT64_MAX - 1, INT64_MAX};
  int form = kmc::choose(6, 0, "form"), k = kmc::choose(8, 0, "value"), first = kmc::choose(2, 0, "first");
  kmc::Counter n; bool past = form >= 4 && k < 6;
  auto add = [&] {
    switch (form) {
    case 0: l->RunAfter([&] { n.add(); }, S[k]); break;
    case 1: l->RunAfterMs([&] { n.add(); }, N[k]); break;
    case 2: l->RunAfterUs([&] { n.add(); }, N[k]); break;
    case 3: l->RunEvery([&] { n.add(); }, S[k]); break;
    case 4: l->RunAt([&] { n.add(); }, TimeStamp(AT[k])); break;
    case 5: l->RunEvery([&] { n.add(); }, TimeStamp(AT[k]), 1e300); break;
    }
  };
  if (first) add();
  l->RunAfter([l] { l->Quit(); }, 5.0);
  if (!first) add();
  l->StartLoop();
  kmc::check(n.get() == (past ? 1 : 0), "a timer with an extreme time (form %d, value %d) ran %ld times", form, k, n.get());
}
// periodic timers of different periods next to one-shot ones
KMC_SCENARIO("P09", timer_periodic, (0, 0, 0))
{
  static const double P[] = {0.02, 0.3, 1.0};
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  Model m(l);
  kmc::Counter n;
  double p = P[kmc::choose(3, 0, "p")], q = P[kmc::choose(3, 0, "q")], o = P[kmc::choose(3, 0, "o")] * (kmc::choose(2, 0, "o2") ? 1 : 2.5);
  int work = kmc::choose(2, 0, "work");
  m.exact = !work;
  int a = m.add(kmc::realtime_us() + int64_t(p * 1e6), int64_t(p * 1e6));
  l->RunEvery([&, a, l, work] { m.fired(a); if (work) kmc::advance_us(400000); if (n.add() == 6) l->Quit(); }, p);
  int b = m.add(kmc::realtime_us() + int64_t(q * 1e6), int64_t(q * 1e6));
  l->RunEvery([&, b, l] { m.fired(b); if (n.get() == 0 && m.t[b].runs > 4000) l->Quit(); }, q);
  int c = m.add(kmc::realtime_us() + int64_t(o * 1e6), 0);
  l->RunAfter([&, c] { m.fired(c); }, o);
  l->StartLoop();
  kmc::check(n.get() == 6 || p > 0.9, "periodic timer ran %ld times", n.get());
}
// timers added from other threads while the loop runs; time may pass anywhere
static void timers_mt(int threads, bool cancel)
{
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  kmc::Counter ran[4], quit, adders;
  int me = kmc::self();
  for (int i = 0; i < threads; ++i)
    kmc::spawn([&, i, l, me] {
      int64_t due = kmc::realtime_us() + (i + 1) * 1000;
      l->RunAt([&, i, l, due, me] {
        kmc::check(kmc::realtime_us() >= due, "timer ran %lld us early", (long long)(due - kmc::realtime_us()));
        kmc::check(kmc::self() == me, "timer callback on a foreign thread");
        kmc::check(ran[i].add() == 1, "one-shot timer ran again");
        if (quit.add() == threads) l->Quit();
      }, TimeStamp(due));
    });
  l->StartLoop();
  kmc::join_all();
  for (int i = 0; i < threads; ++i) kmc::check(ran[i].get() == 1, "timer ran %ld times", ran[i].get());
}
KMC_SCENARIO("P09", timer_threads, (LF | kmc::F_TIME, 3, 5)) { timers_mt(2, false); }
KMC_SCENARIO("P09", timer_threads3, (kmc::F_TIME, 2, 4)) { timers_mt(3, false); }

// ---- P10: cancellation ------------------------------------------------------
// all sequences of adding, cancelling and letting time pass, also from callbacks
KMC_SCENARIO("P10", cancel_sequences, (0, 0, 0))
{
  EventLoop loop(kmc::choose(2, 0, "back end") == 1);
  EventLoop *l = &loop;
  Model m(l, false);
  static const double D[] = {0.001, 0.001, 0.002};
  int periodic = kmc::choose(8, 0, "periodic");      // which of three timers repeat
  int act[3];                                         // what each callback does
  for (int i = 0; i < 3; ++i) act[i] = kmc::choose(7, 0, "action"); // 0 nothing, 1-3 cancel timer, 4 cancel self twice, 5 cancel and re-add, 6 cancel all
  int pre = kmc::choose(5, 0, "pre");                 // cancel before the start: none, one of them, one twice
  std::function<void(int)> cancel = [&](int i) { l->CancelTimer(m.id[i]); m.t[i].cancelled = true; };
  std::function<void(int, double, bool)> add = [&](int i, double d, bool p) {
    m.t[i] = TimerRec{kmc::realtime_us() + int64_t(d * 1e6), kmc::realtime_us(), p ? int64_t(d * 1e6) : 0, 0, 0, false, false};
    auto cb = [&, i, p] {
      m.fired(i);
      if (m.t[i].runs > 1) return;
      int a = act[i % 3];
      if (i >= 3) return;
      switch (a) {
      case 1: case 2: case 3: cancel(a - 1); break;
      case 4: cancel(i); cancel(i); break;
      case 5: cancel(i); add(i + 3, 0.003, false); break;
      case 6: for (int j = 0; j < 3; ++j) cancel(j); break;
      }
    };
    m.id[i] = p ? l->RunEvery(cb, d) : l->RunAfter(cb, d);
  };
  for (int i = 0; i < 3; ++i) add(i, D[i], (periodic >> i) & 1);
  l->CancelTimer(TimerId()); // refers to none
  if (pre >= 1 && pre <= 3) cancel(pre - 1);
  if (pre == 4) { cancel(1); cancel(1); }
  l->RunAfter([=] { l->Quit(); }, 0.0101);
  l->StartLoop();
  m.done();
}
// cancelled from another thread while it is due
KMC_SCENARIO("P10", cancel_race, (LF | kmc::F_TIME, 3, 5))
{
  Loop loop(kmc::choose(2, 0, "back end"));
  EventLoop *l = loop.l.get();
  bool periodic = kmc::choose(2, 0, "periodic");
  kmc::Counter ran, dead, other;
  auto cb = [=] { kmc::check(!dead.get(), "timer ran after its cancellation took effect"); ran.add(); };
  TimerId id = periodic ? l->RunEvery(cb, 0.001) : l->RunAfter(cb, 0.001);
  l->RunAfter([=] { other.add(); }, 0.001);
  kmc::spawn([=] { l->CancelTimer(id); l->QueueToLoop([=] { dead.set(1); }); l->CancelTimer(id); });
  l->RunAfter([=] { l->Quit(); }, 0.005);
  l->StartLoop();
  kmc::join_all();
  kmc::check(other.get() == 1, "another timer ran %ld times", other.get());
  kmc::check(periodic || ran.get() <= 1, "one-shot timer ran %ld times", ran.get());
}
// added and cancelled by another thread, the identity handed to a third
KMC_SCENARIO("P10", cancel_cross, (LF | kmc::F_TIME, 3, 5))
{
  EventLoopThread t;
  EventLoop *l = t.StartRun();
  kmc::Counter ran, dead, keep;
  TimerId id = l->RunAfter([=] { kmc::check(!dead.get(), "timer ran after its cancellation took effect"); ran.add(); }, 0.001);
  TimerId id2 = l->RunAfter([=] { keep.add(); }, 0.002);
  (void)id2;
  kmc::spawn([=] { l->CancelTimer(id); l->QueueToLoop([=] { dead.set(1); }); });
  l->CancelTimer(id);
  l->RunInLoop([=] { dead.set(1); });
  kmc::join_all();
  kmc::wait_until([=] { return keep.get() >= 1; });
  kmc::wait_idle();
  kmc::check(keep.get() == 1, "a timer that was not cancelled ran %ld times", keep.get());
  kmc::check(ran.get() <= 1, "one-shot timer ran %ld times", ran.get());
}

// ---- P11: pollers -----------------------------------------------------------
// all operation sequences on two channels against an ideal poller
struct PollModel {
  struct C { int fd; std::unique_ptr<Channel> ch; bool r, w, ready, added; int gotr, gotw, gote; };
  C c[3];
};
static void poll_sequences(int mode, int nch, int depth)
{
  Loop loop(mode);
  EventLoop *l = loop.l.get();
  PollModel m;
  for (int i = 0; i < nch; ++i) {
    auto &c = m.c[i];
    c.fd = kmc::make_event(false);
    c.r = c.w = c.ready = c.added = false; c.gotr = c.gotw = c.gote = 0;
  }
  auto fresh = [&, l](int i) {
    auto &c = m.c[i];
    c.ch.reset(new Channel(l, c.fd));
    c.ch->SetReadCallback([&c](TimeStamp) { ++c.gotr; });
    c.ch->SetWriteCallback([&c] { ++c.gotw; });
    c.ch->SetErrorCallback([&c] { ++c.gote; });
    c.ch->SetCloseCallback([&c] { ++c.gote; });
  };
  for (int i = 0; i < nch; ++i) fresh(i);
  int step = 0;
  std::function<void()> drive = [&, l] {
    // what the last poll reported
    for (int i = 0; i < nch; ++i) {
      auto &c = m.c[i];
      if (step) {
        kmc::check(c.gotr == (c.r && c.ready), "channel %d: readable reported %d times, expected %d", i, c.gotr, c.r && c.ready);
        kmc::check(c.gotw == (c.w ? 1 : 0), "channel %d: writable reported %d times, expected %d", i, c.gotw, c.w);
        kmc::check(c.gote == 0, "channel %d: error reported", i);
      }
      c.gotr = c.gotw = 0;
    }
    if (step++ == depth) {
      for (int i = 0; i < nch; ++i) { m.c[i].ch->DisableAll(); m.c[i].ch->Remove(); m.c[i].ch.reset(); ::close(m.c[i].fd); }
      l->Quit();
      return;
    }
    int op = kmc::choose(nch * 8, 0, "op"), i = op / 8;
    auto &c = m.c[i];
    switch (op % 8) {
    case 0: c.ch->EnableReading(); c.r = true; break;
    case 1: c.ch->DisableReading(); c.r = false; break;
    case 2: c.ch->EnableWriting(); c.w = true; break;
    case 3: c.ch->DisableWriting(); c.w = false; break;
    case 4: c.ch->DisableAll(); c.r = c.w = false; break;
    case 5: c.ready = !c.ready; kmc::event_set(c.fd, c.ready); break;
    case 6: // removed; used again later
      c.ch->DisableAll(); c.ch->Remove(); c.r = c.w = false; break;
    case 7: // removed, another channel takes the descriptor number
      c.ch->DisableAll(); c.ch->Remove(); c.r = c.w = false;
      c.ch.reset(); ::close(c.fd);
      c.fd = kmc::make_event(c.ready);
      fresh(i); break;
    }
    l->QueueToLoop(drive);
  };
  l->QueueToLoop(drive);
  l->StartLoop();
}
KMC_SCENARIO("P11", poll_sequences2, (0, 0, 0)) { poll_sequences(kmc::choose(2, 0, "back end"), 2, 4); }
KMC_SCENARIO("P11", poll_sequences3, (0, 0, 0)) { poll_sequences(kmc::choose(2, 0, "back end"), 3, 3); }

// more ready channels than the poller's first room for results
KMC_SCENARIO("P11", poll_many, (0, 0, 0))
{
  Loop loop(kmc::choose(3, 0, "back end"));
  EventLoop *l = loop.l.get();
  static const int N[] = {1, 15, 16, 17, 40, 100};
  int n = N[kmc::choose(6, 0, "n")];
  std::vector<std::unique_ptr<Channel>> ch;
  std::vector<int> got(n, 0), fd;
  for (int i = 0; i < n; ++i) {
    fd.push_back(kmc::make_event(true));
    ch.emplace_back(new Channel(l, fd[i]));
    ch[i]->SetReadCallback([&, i](TimeStamp) { ++got[i]; uint64_t x; ::read(fd[i], &x, 8); });
    ch[i]->EnableReading();
  }
  int iter = 0;
  std::function<void()> drive = [&, l] { if (++iter == 8) { for (auto &c : ch) { c->DisableAll(); c->Remove(); } l->Quit(); } else l->QueueToLoop(drive); };
  l->QueueToLoop(drive);
  l->StartLoop();
  for (int i = 0; i < n; ++i) { kmc::check(got[i] == 1, "channel %d of %d reported %d times", i, n, got[i]); ::close(fd[i]); }
}

// end of stream, hang-up and reset reach the channel on both back ends in the
// same way, and only while it is interested in something
KMC_SCENARIO("P11", poll_hangup, (LF, 1, 2))
{
  int mode = kmc::choose(3, 0, "back end"), interest = kmc::choose(4, 0, "interest"), what = kmc::choose(5, 0, "what");
  Loop loop(mode);
  EventLoop *l = loop.l.get();
  kmc::Peer *p;
  int fd = kmc::make_stream(&p);
  kmc::Counter r, w, e, h;
  Channel ch(l, fd);
  ch.SetReadCallback([&](TimeStamp) { r.add(); ch.DisableReading(); });
  ch.SetWriteCallback([&] { w.add(); ch.DisableWriting(); });
  ch.SetErrorCallback([&] { e.add(); ch.DisableAll(); });
  ch.SetCloseCallback([&] { h.add(); ch.DisableAll(); });
  if (interest & 1) ch.EnableReading();
  if (interest & 2) ch.EnableWriting();
  if (interest == 0) { ch.EnableReading(); ch.DisableAll(); } // armed once, now not
  if (what == 0) kmc::peer_send(p, "x");
  if (what == 1) kmc::peer_shutdown(p);
  if (what == 2) kmc::peer_close(p);
  if (what == 3) kmc::peer_reset(p);
  if (what == 4) { ::shutdown(fd, SHUT_WR); kmc::peer_shutdown(p); } // closed in both directions
  int iter = 0;
  std::function<void()> drive = [&, l] { if (++iter == 4) { ch.DisableAll(); ch.Remove(); l->Quit(); } else l->QueueToLoop(drive); };
  l->QueueToLoop(drive);
  l->StartLoop();
  ::close(fd);
  if (interest == 0) kmc::check(!r.get() && !w.get() && !e.get() && !h.get(), "a channel without interest got %ld %ld %ld %ld", r.get(), w.get(), e.get(), h.get());
  if (interest & 1) kmc::check(r.get() >= 1 || h.get() || e.get(), "a readable channel was never reported");
  if (interest == 2 && what < 3) kmc::check(w.get() == 1 && !r.get(), "interest in writing only: read %ld write %ld", r.get(), w.get());
  if (what == 0) kmc::check(!e.get() && !h.get(), "error reported for data");
  if (what == 3 && interest) kmc::check(e.get() == 1, "the error of a reset connection was reported %ld times", e.get());
  if (what >= 3 && interest == 2) kmc::check(h.get() == 1 && !r.get(), "interest in writing only, hang-up: closed %ld read %ld", h.get(), r.get());
  if (what >= 3 && (interest & 1)) kmc::check(r.get() == 1 && !h.get(), "interest in reading, hang-up: closed %ld read %ld", h.get(), r.get());
  if (what == 4) kmc::check(!e.get(), "error reported for an orderly end");
}
// a callback removes or re-arms other channels that are ready in the same round
KMC_SCENARIO("P11", poll_same_round, (0, 0, 0))
{
  Loop loop(kmc::choose(3, 0, "back end"));
  EventLoop *l = loop.l.get();
  int act = kmc::choose(4, 0, "act"), who = kmc::choose(9, 0, "who");
  std::unique_ptr<Channel> ch[3];
  int fd[3], got[3] = {0, 0, 0};
  for (int i = 0; i < 3; ++i) { fd[i] = kmc::make_event(true); ch[i].reset(new Channel(l, fd[i])); }
  for (int i = 0; i < 3; ++i)
    ch[i]->SetReadCallback([&, i](TimeStamp) {
      ++got[i];
      uint64_t x; ::read(fd[i], &x, 8);
      if (i != who / 3 || got[i] > 1) return;
      Channel *o = ch[who % 3].get();
      if (act == 1) o->DisableAll();
      if (act == 2) { o->DisableAll(); o->Remove(); }
      if (act == 3) { o->DisableAll(); o->EnableReading(); }
    });
  for (int i = 0; i < 3; ++i) ch[i]->EnableReading();
  int iter = 0;
  std::function<void()> drive = [&, l] {
    ++iter;
    if (iter == 3) for (int i = 0; i < 3; ++i) kmc::event_set(fd[i], true);
    if (iter == 6) { for (auto &c : ch) { c->DisableAll(); c->Remove(); } l->Quit(); }
    else l->QueueToLoop(drive);
  };
  l->QueueToLoop(drive);
  l->StartLoop();
  for (int i = 0; i < 3; ++i) {
    int most = (i == who % 3 && (act == 1 || act == 2)) ? 1 : 2;
    kmc::check(got[i] <= most && got[i] >= (most == 1 ? 0 : 2), "channel %d reported %d times, expected %d", i, got[i], most);
    ::close(fd[i]);
  }
}
