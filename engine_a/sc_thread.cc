// Scenarios for kanon/thread: P16-P20
#include "kmc.h"
#include <limits.h>
#include <math.h>
#include "kanon/thread/count_down_latch.h"
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/condition.h"
#include "kanon/thread/rw_lock.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_pool.h"
#include "kanon/thread/weak_callback.h"
#include <memory>
#include <unistd.h>
#include <sys/syscall.h>
using namespace kanon;
static const unsigned SPUR = kmc::F_SPURIOUS | kmc::F_SIGNAL_PICK;

// ---- P16: count-down latch -------------------------------------------------
KMC_SCENARIO("P16", latch_wait, (SPUR, 3, 5))
{
  CountDownLatch latch(2);
  kmc::Counter done, released;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&] { done.add(); latch.Countdown(); });
  kmc::spawn([&] { latch.Wait(); kmc::check(done.get() == 2, "latch released a waiter after %ld of 2 counts", done.get()); released.add(); });
  latch.Wait();
  kmc::check(done.get() == 2, "latch released a waiter after %ld of 2 counts", done.get());
  kmc::join_all();
  kmc::check(released.get() == 1, "waiter not released");
  kmc::check(latch.GetCount() == 0, "count is %d", latch.GetCount());
}

// every way to lower the count to zero releases the waiters
KMC_SCENARIO("P16", latch_lowering, (SPUR, 2, 4))
{
  CountDownLatch latch(3);
  kmc::Counter zero, released;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&] { latch.Wait(); kmc::check(zero.get() == 1, "latch released a waiter before zero"); released.add(); });
  int how = kmc::choose(5, 0, "how");
  kmc::spawn([&, how] {
    if (how == 4) { latch.Decr(); latch.Decr(); zero.set(1); latch.Countdown(); return; }
    latch.Countdown();
    switch (how) {
    case 0: zero.set(1); latch.Minus(2); break;
    case 1: latch.Decr(); zero.set(1); latch.Decr(); break;
    case 2: latch.Countdown(); zero.set(1); latch.Countdown(); break;
    case 3: zero.set(1); latch.Reset(0); break;
    }
  });
  kmc::join_all();
  kmc::check(released.get() == 2, "waiter not released");
  latch.Wait(); // returns at once on a latch at zero
}

// raising, waiting in the same call
KMC_SCENARIO("P16", latch_raise_wait, (SPUR, 2, 4))
{
  int how = kmc::choose(3, 0, "how");
  CountDownLatch latch(how == 2 ? 7 : 1);
  kmc::Counter done;
  kmc::Counter need;
  need.set(how == 0 ? 2 : how == 1 ? 3 : 2);
  kmc::Counter go;
  for (int i = 0; i < need.get(); ++i)
    kmc::spawn([&] { kmc::wait_until([&] { return go.get() == 1; }); done.add(); latch.Countdown(); });
  if (how != 2) { // the raise must come before the lowering: counts commute, so let them go at once
    go.set(1);
    kmc::spawn([&] { kmc::yield_point(); });
  }
  // how 0: 1+1, how 1: 1+2, how 2: set to 2
  if (how == 0) { latch.IncrAndWait(); }
  else if (how == 1) { latch.AddAndWait(2); }
  else { go.set(1); CountDownLatch l2(0); l2.Wait(); kmc::wait_until([&] { return done.get() == 2; }); latch.Reset(0); latch.Wait(); }
  kmc::check(done.get() == need.get(), "latch released the waiter after %ld of %ld counts", done.get(), need.get());
  kmc::join_all();
}

// every sequence of changes that ends at zero or below releases every waiter, and none while the count never was there
static void latch_ops(int len)
{
  CountDownLatch latch(2);
  kmc::Counter zeros, released;
  for (int i = 0; i < 2; ++i) kmc::spawn([&] { latch.Wait(); kmc::check(zeros.get() > 0, "latch released a waiter although the count never was zero"); released.add(); });
  long n = 2;
  auto will = [&](long v) { n = v; if (n <= 0) zeros.add(); };
  for (int i = 0; i < len; ++i) {
    switch (kmc::choose(n <= 1 ? 11 : 9, 0, "op")) {
    case 0: will(n - 1); latch.Countdown(); break;
    case 1: will(n - 1); latch.Decr(); break;
    case 2: will(n - 2); latch.Minus(2); break;
    case 3: will(n - 3); latch.Add(-3); break;
    case 4: will(n + 2); latch.Add(2); break;
    case 5: will(n + 1); latch.Incr(); break;
    case 6: will(2); latch.Reset(2); break;
    case 7: will(-1); latch.Reset(-1); break;
    case 8: will(0); latch.ResetAndWait(0); break;
    case 9: will(n - 1); latch.AddAndWait(-1); break;
    case 10: if (n > -1) { will(n - 2); latch.AddAndWait(-2); } else { will(n + 1); latch.IncrAndWait(); } break;
    }
    kmc::check(latch.GetCount() == n, "count is %d, not %ld", latch.GetCount(), n);
  }
  switch (kmc::choose(4, 0, "last")) {
  case 0: will(0); latch.Reset(0); break;
  case 1: will(0); latch.ResetAndWait(0); break;
  case 2: { long d = n; will(d > 0 ? 0 : d - 1); latch.Add((int)(d > 0 ? -d : -1)); break; }
  case 3: { long d = n; will(d > 0 ? 0 : d - 1); latch.AddAndWait((int)(d > 0 ? -d : -1)); break; }
  }
  kmc::join_all();
  kmc::check(released.get() == 2, "waiter not released");
}
KMC_SCENARIO("P16", latch_changes, (SPUR, 2, 4)) { latch_ops(1); }
KMC_SCENARIO("P16", latch_changes2, (0, 1, 2)) { latch_ops(2); }

// reset while nobody waits, then used again
KMC_SCENARIO("P16", latch_reuse, (SPUR, 2, 4))
{
  CountDownLatch latch(1);
  kmc::Counter done;
  kmc::spawn([&] { done.add(); latch.Countdown(); });
  latch.Wait();
  kmc::check(done.get() == 1, "released early in round 1");
  kmc::join_all();
  latch.Reset(1);
  latch.Incr();
  latch.Add(1);
  kmc::check(latch.GetCount() == 3, "count is %d", latch.GetCount());
  kmc::spawn([&] { for (int i = 0; i < 3; ++i) { done.add(); latch.Countdown(); } });
  kmc::spawn([&] { latch.Wait(); kmc::check(done.get() == 4, "released early in round 2"); });
  latch.Wait();
  kmc::check(done.get() == 4, "released early in round 2");
  kmc::join_all();
}

// the waiter destroys the latch as soon as it is released
KMC_SCENARIO("P16", latch_destroyed, (SPUR, 3, 5))
{
  int how = kmc::choose(4, 0, "how");
  std::unique_ptr<CountDownLatch> latch(new CountDownLatch(1));
  CountDownLatch *l = latch.get();
  kmc::spawn([l, how] { if (how == 0) l->Countdown(); else if (how == 1) l->Decr(); else if (how == 2) l->Reset(0); else l->Add(-1); });
  kmc::yield_point();
  latch->Wait();
  latch.reset();
  kmc::join_all();
}
// many waiters, many counters
KMC_SCENARIO("P16", latch_many, (SPUR, 2, 3))
{
  CountDownLatch latch(3);
  kmc::Counter done, released;
  for (int i = 0; i < 3; ++i) kmc::spawn([&] { done.add(); latch.Countdown(); });
  for (int i = 0; i < 3; ++i) kmc::spawn([&] { latch.Wait(); kmc::check(done.get() == 3, "released early"); released.add(); });
  kmc::join_all();
  kmc::check(released.get() == 3, "waiter not released");
}

// ---- P17: mutexes, reader-writer lock --------------------------------------
KMC_SCENARIO("P17", mutex_excludes, (0, 3, 5))
{
  MutexLock m;
  kmc::Counter inside;
  int plain = 0; // raced on unless the lock orders the threads
  for (int i = 0; i < 3; ++i)
    kmc::spawn([&] {
      for (int k = 0; k < 2; ++k) {
        MutexGuard g(m);
        kmc::check(inside.add(1) == 1, "two threads inside the mutex");
        kmc::check(m.IsLockedInThisThread(), "holder unknown inside the lock");
        ++plain;
        kmc::yield_point();
        m.AssertLocked();
        inside.add(-1);
      }
      kmc::check(!m.IsLockedInThisThread(), "holder still set after the guard");
    });
  kmc::join_all();
  kmc::check(plain == 6, "lost update: %d", plain);
}

KMC_SCENARIO("P17", mutex_try, (0, 3, 5))
{
  MutexLock m;
  kmc::Counter inside, got;
  int plain = 0;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&, i] {
      for (int k = 0; k < 2; ++k) {
        bool locked = true;
        if (i == 0) locked = m.TryLock(); else m.Lock();
        kmc::check(m.IsLockedInThisThread() == locked, "ownership query is %d after locking gave %d", (int)m.IsLockedInThisThread(), (int)locked);
        if (!locked) continue;
        kmc::check(inside.add(1) == 1, "two threads inside the mutex");
        ++plain; got.add();
        kmc::yield_point();
        m.AssertLocked();
        inside.add(-1);
        m.Unlock();
        kmc::check(!m.IsLockedInThisThread(), "holder still set after unlock");
      }
    });
  kmc::join_all();
  kmc::check(plain == got.get(), "lost update");
  kmc::check(m.TryLock(), "try-lock of a free mutex fails");
  kmc::spawn([&] { kmc::check(!m.TryLock(), "try-lock of a held mutex succeeds"); kmc::check(!m.IsLockedInThisThread(), "not the holder"); });
  kmc::join_all();
  kmc::check(m.IsLockedInThisThread(), "holder lost by a foreign try-lock");
  m.Unlock();
}

// the last user destroys the lock right after releasing it
KMC_SCENARIO("P17", mutex_destroy, (0, 3, 5))
{
  struct Obj { MutexLock m; int refs = 2; };
  Obj *o = new Obj;
  auto drop = [o] {
    bool last;
    { MutexGuard g(o->m); last = --o->refs == 0; }
    if (last) delete o;
  };
  kmc::spawn(drop);
  kmc::spawn(drop);
  kmc::join_all();
}
KMC_SCENARIO("P17", mutex_guard_throw, (0, 2, 4))
{
  MutexLock m;
  kmc::Counter n;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&, i] {
      try { MutexGuard g(m); n.add(); if (i == 0) throw 1; } catch (int) {}
      auto f = [&] { MutexGuardT<MutexLock> g(m); n.add(); return; };
      f();
      { KANON_MUTEX_GUARD(m); n.add(); }
    });
  kmc::join_all();
  kmc::check(n.get() == 6, "missing");
  kmc::check(m.TryLock(), "guard did not release"); m.Unlock();
}

static void rw_body(RWLock &l, kmc::Counter readers, kmc::Counter writers, int &plain, bool write)
{
  if (write) {
    l.WLock();
    kmc::check(writers.add(1) == 1, "two writers inside the lock");
    kmc::check(readers.get() == 0, "writer inside with %ld readers", readers.get());
    ++plain;
    kmc::yield_point();
    kmc::check(readers.get() == 0, "reader entered beside a writer");
    writers.add(-1);
    l.WUnlock();
  } else {
    l.RLock();
    kmc::check(writers.get() == 0, "reader entered beside a writer");
    readers.add(1);
    int v = plain;
    kmc::yield_point();
    kmc::check(v == plain, "value changed under a reader");
    kmc::check(writers.get() == 0, "writer entered beside a reader");
    readers.add(-1);
    l.RUnlock();
  }
}
KMC_SCENARIO("P17", rw_two_writers_reader, (SPUR, 2, 4))
{
  RWLock l; kmc::Counter r, w; int plain = 0;
  kmc::spawn([&] { rw_body(l, r, w, plain, true); });
  kmc::spawn([&] { rw_body(l, r, w, plain, true); });
  kmc::spawn([&] { rw_body(l, r, w, plain, false); });
  kmc::join_all();
  kmc::check(plain == 2, "lost update: %d", plain);
}
KMC_SCENARIO("P17", rw_two_readers_writer, (SPUR, 2, 4))
{
  RWLock l; kmc::Counter r, w; int plain = 0;
  kmc::spawn([&] { rw_body(l, r, w, plain, false); rw_body(l, r, w, plain, false); });
  kmc::spawn([&] { rw_body(l, r, w, plain, false); });
  kmc::spawn([&] { rw_body(l, r, w, plain, true); });
  kmc::join_all();
  kmc::check(plain == 1, "lost update: %d", plain);
}
KMC_SCENARIO("P17", rw_mixed, (SPUR, 2, 3))
{
  RWLock l; kmc::Counter r, w; int plain = 0;
  for (int i = 0; i < 4; ++i)
    kmc::spawn([&, i] { rw_body(l, r, w, plain, i & 1); rw_body(l, r, w, plain, !(i & 1)); });
  kmc::join_all();
  kmc::check(plain == 4, "lost update: %d", plain);
}
// readers overlap: a reader gets in while another one stays inside
KMC_SCENARIO("P17", rw_readers_overlap, (SPUR, 2, 4))
{
  RWLock l;
  kmc::Counter in;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&] {
      l.RLock();
      in.add(1);
      kmc::wait_until([&] { return in.get() == 2; });
      l.RUnlock();
    });
  kmc::join_all();
  l.WLock(); l.WUnlock();
}

// ---- P18: thread pool --------------------------------------------------------
static void pool_run(int threads, int queue, int tasks, int producers, bool order)
{
  kmc::Counter run[8];
  kmc::Counter seq;
  int plain = 0;
  {
    ThreadPool pool(queue);
    pool.StartRun(threads);
    auto push = [&](int from, int to) {
      for (int i = from; i < to; ++i)
        pool.Push([&, i] {
          run[i].add();
          if (order) { kmc::check(seq.get() == i, "task %d runs as number %ld", i, seq.get()); seq.add(); ++plain; }
          else kmc::yield_point();
        });
    };
    for (int p = 1; p < producers; ++p) kmc::spawn([&, p] { push(tasks * p / producers, tasks * (p + 1) / producers); });
    push(0, tasks / producers);
    kmc::join_all();
  }
  for (int i = 0; i < tasks; ++i) kmc::check(run[i].get() == 1, "task %d ran %ld times", i, run[i].get());
  if (order) kmc::check(plain == tasks, "tasks lost");
}
KMC_SCENARIO("P18", pool_one_worker_order, (SPUR, 3, 4)) { pool_run(1, 2, 4, 1, true); }
KMC_SCENARIO("P18", pool_full_queue, (SPUR, 3, 4)) { pool_run(1, 1, 3, 1, true); }
KMC_SCENARIO("P18", pool_two_workers, (SPUR, 2, 4)) { pool_run(2, 2, 3, 1, false); }
KMC_SCENARIO("P18", pool_two_producers, (SPUR, 2, 4)) { pool_run(1, 1, 4, 2, false); }
KMC_SCENARIO("P18", pool_two_two, (SPUR, 2, 3)) { pool_run(2, 1, 4, 2, false); }
KMC_SCENARIO("P18", pool_more_workers, (SPUR, 2, 3)) { pool_run(3, 5, 2, 1, false); }
KMC_SCENARIO("P18", pool_idle_destroy, (SPUR, 3, 5)) { ThreadPool p; p.StartRun(2); }
KMC_SCENARIO("P18", pool_never_started, (SPUR, 1, 1)) { ThreadPool p; }
// the workers stay: work after an idle period, more tasks than threads
KMC_SCENARIO("P18", pool_reused, (SPUR, 2, 3))
{
  kmc::Counter n;
  ThreadPool pool(2);
  pool.StartRun(2);
  for (int round = 1; round <= 3; ++round) {
    for (int i = 0; i < 2; ++i) pool.Push([&] { n.add(); });
    kmc::wait_until([&] { return n.get() == 2 * round; }, 1000000);
    kmc::check(n.get() == 2 * round, "%ld of %d tasks ran although workers are idle", n.get(), 2 * round);
  }
}
// two workers really run side by side
KMC_SCENARIO("P18", pool_parallel, (SPUR, 2, 3))
{
  kmc::Counter in, out;
  ThreadPool pool(4);
  pool.StartRun(2);
  for (int i = 0; i < 2; ++i)
    pool.Push([&] { in.add(); kmc::wait_until([&] { return in.get() == 2; }); out.add(); });
  kmc::wait_until([&] { return out.get() == 2; });
}
// a task may push
KMC_SCENARIO("P18", pool_task_pushes, (SPUR, 2, 3))
{
  kmc::Counter n;
  {
    ThreadPool pool(3);
    pool.StartRun(1);
    pool.Push([&] { n.add(); pool.Push([&] { n.add(10); }); });
    kmc::wait_until([&] { return n.get() == 11; });
  }
  kmc::check(n.get() == 11, "n=%ld", n.get());
}
// producers that wait for room in a queue of two
KMC_SCENARIO("P18", pool_producers_wait, (SPUR, 2, 3))
{
  kmc::Counter gate, held, n, pushed;
  ThreadPool pool(2);
  pool.StartRun(1);
  pool.Push([&] { held.set(1); kmc::wait_until([&] { return gate.get() == 1; }); n.add(); });
  kmc::wait_until([&] { return held.get() == 1; });
  for (int i = 0; i < 4; ++i) kmc::spawn([&] { pool.Push([&] { n.add(); }); pushed.add(); });
  kmc::wait_idle();
  kmc::check(pushed.get() == 2, "%ld of 4 tasks accepted by a queue of 2 with a busy worker", pushed.get());
  gate.set(1);
  kmc::join_all();
  kmc::wait_until([&] { return n.get() == 5; }, 1000000);
  kmc::check(n.get() == 5, "%ld of 5 tasks ran", n.get());
}
KMC_SCENARIO("P18", pool_queue_size_setting, (SPUR, 2, 3))
{
  kmc::Counter gate, n, pushed;
  ThreadPool pool(5);
  pool.SetMaxQueueSize(2);
  pool.SetMaxQueueSize(0); // ignored
  pool.StartRun(1);
  kmc::Counter held;
  pool.Push([&] { held.set(1); kmc::wait_until([&] { return gate.get() == 1; }); n.add(); });
  kmc::wait_until([&] { return held.get() == 1; }); // the worker holds the first task
  kmc::spawn([&] { for (int i = 0; i < 4; ++i) { pool.Push([&] { n.add(); }); pushed.add(); } });
  kmc::wait_idle();
  kmc::check(pushed.get() == 2, "%ld tasks accepted by a queue of 2 with a busy worker", pushed.get());
  gate.set(1);
  kmc::join_all();
  kmc::wait_until([&] { return n.get() == 5; }, 1000000);
  kmc::check(n.get() == 5, "%ld of 5 tasks ran", n.get());
}

// ---- P19: conditions ---------------------------------------------------------
KMC_SCENARIO("P19", cond_handover, (SPUR, 3, 5))
{
  MutexLock m; Condition c(m);
  int ready = 0; kmc::Counter got;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&] {
      MutexGuard g(m);
      while (ready == 0) {
        kmc::check(m.IsLockedInThisThread(), "not the holder before the wait");
        c.Wait();
        kmc::check(m.IsLockedInThisThread(), "not the holder after the wait");
      }
      --ready; got.add();
    });
  for (int i = 0; i < 2; ++i) { MutexGuard g(m); m.AssertLocked(); ++ready; c.Notify(); kmc::check(m.IsLockedInThisThread(), "holder lost"); }
  kmc::join_all();
  kmc::check(got.get() == 2, "a waiter was not woken");
}
// one notification wakes a waiter: no predicate loop, so a lost notification hangs
KMC_SCENARIO("P19", cond_no_lost_notify, (kmc::F_SIGNAL_PICK, 3, 5))
{
  MutexLock m; Condition c(m);
  int waiting = 0; kmc::Counter woken;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&] { MutexGuard g(m); ++waiting; c.Wait(); kmc::check(m.IsLockedInThisThread(), "not the holder after the wait"); --waiting; woken.add(); });
  kmc::wait_idle();
  int all = kmc::choose(2, 0, "notify or broadcast");
  { MutexGuard g(m); kmc::check(waiting == 2, "wait does not release the mutex"); if (all) c.NotifyAll(); else c.Notify(); }
  kmc::wait_idle();
  kmc::check(woken.get() == (all ? 2 : 1), "%s woke %ld of 2 waiters", all ? "broadcast" : "notify", woken.get());
  if (!all) { MutexGuard g(m); c.Notify(); }
  kmc::join_all();
  kmc::check(waiting == 0, "waiter lost");
}
// nobody else enters between release and sleep
KMC_SCENARIO("P19", cond_atomic, (0, 3, 5))
{
  MutexLock m; Condition c(m);
  bool flag = false;
  kmc::spawn([&] { MutexGuard g(m); if (!flag) { c.Wait(); } kmc::check(flag, "woken without notification"); });
  kmc::spawn([&] { MutexGuard g(m); flag = true; c.Notify(); });
  kmc::join_all();
}
static const double LIMITS[] = {0, 0.000000001, 0.000001, 0.001, 0.1, 0.25, 0.5, 0.75, 0.999999, 0.9999999999, 1, 1.000001, 1.5, 2, 2.75, 3.999, 60, 3600.5, 100000};
static const long PHASE[] = {0, 1, 250000, 500000, 999000, 999999};
static void timed(bool use_int)
{
  int nl = use_int ? 4 : (int)(sizeof LIMITS / sizeof *LIMITS);
  static const int IL[] = {0, 1, 2, 60};
  double lim = use_int ? IL[kmc::choose(nl, 0, "limit")] : LIMITS[kmc::choose(nl, 0, "limit")];
  long ph = PHASE[kmc::choose(6, 0, "phase")];
  int64_t rt = kmc::realtime_us() % 1000000;
  kmc::advance_us((ph - rt + 1000000) % 1000000);
  MutexLock m; Condition c(m);
  int mode = kmc::choose(3, 0, "mode"); // nobody notifies / notified half-way / notified long after
  int64_t lim_us = (int64_t)(lim * 1e6);
  kmc::Counter over;
  if (mode) {
    int64_t at = mode == 1 ? lim_us / 2 : lim_us + 500000;
    if (mode == 1 && lim_us < 2000) return;
    kmc::spawn([&, at] { kmc::sleep_us(at); MutexGuard g(m); c.Notify(); });
  }
  {
    MutexGuard g(m);
    int64_t t0 = kmc::now_us();
    bool to = use_int ? c.WaitForSeconds((int)lim) : c.WaitForSeconds(lim);
    int64_t dt = kmc::now_us() - t0;
    kmc::check(m.IsLockedInThisThread(), "not the holder after a timed wait");
    if (mode == 1) {
      kmc::check(!to, "limit %.9f: notified after half of it but reported as time-out", lim);
      kmc::check(dt == lim_us / 2, "limit %.9f: notified after %ld us, returned after %ld", lim, (long)(lim_us / 2), (long)dt);
    } else {
      kmc::check(to, "limit %.9f (clock at .%06ld): time-out reported as notification after %ld us", lim, ph, (long)dt);
      kmc::check(dt >= lim_us - 1 && dt <= lim_us + 1, "limit %.9f: wait took %ld us", lim, (long)dt);
    }
  }
  kmc::join_all();
}
KMC_SCENARIO("P19", cond_timed_double, (0, 0, 1)) { timed(false); }
KMC_SCENARIO("P19", cond_timed_int, (0, 0, 1)) { timed(true); }
// limits as good as none: the notification comes first
KMC_SCENARIO("P19", cond_timed_large, (0, 1, 2))
{
  static const double LARGE[] = {2147483648.0, 4294967296.0, 9e9, 9223372037.0, 18446744073.0, 18446744074.0, 36893488148.0, 1e11, 1e12, 1e15, 9.3e18, 1.9e19, 1e30, 1e300, INFINITY};
  const int nl = sizeof LARGE / sizeof *LARGE;
  int k = kmc::choose(nl + 6, 0, "limit");
  MutexLock m; Condition c(m);
  bool told = false;
  kmc::spawn([&] { kmc::sleep_us(1500000); MutexGuard g(m); told = true; c.Notify(); });
  {
    MutexGuard g(m);
    int64_t t0 = kmc::now_us();
    bool to = k < nl ? c.WaitForSeconds(LARGE[k]) : k == nl ? c.WaitForSeconds(INT_MAX) : k == nl + 1 ? c.WaitForSeconds(UINT_MAX) : k == nl + 2 ? c.WaitForSeconds(LONG_MAX) :
      k == nl + 3 ? c.WaitForSeconds(ULONG_MAX) : k == nl + 4 ? c.WaitForSeconds(LLONG_MAX / 1000000000ll) : c.WaitForSeconds((uint64_t)INT64_MAX + 1);
    int64_t dt = kmc::now_us() - t0;
    kmc::check(m.IsLockedInThisThread(), "not the holder after a timed wait");
    kmc::check(!to && told, "a wait with limit number %d times out after %ld us", k, (long)dt);
    kmc::check(dt == 1500000, "notified after 1500000 us, returned after %ld", (long)dt);
  }
  kmc::join_all();
}
// notification against time-out, in every order
KMC_SCENARIO("P19", cond_timed_race, (kmc::F_TIME | kmc::F_SPURIOUS, 3, 4))
{
  MutexLock m; Condition c(m);
  int items = 0; kmc::Counter got, timeouts;
  for (int i = 0; i < 2; ++i)
    kmc::spawn([&] {
      MutexGuard g(m);
      for (int k = 0; k < 3 && items == 0; ++k)
        if (c.WaitForSeconds(0.5)) timeouts.add();
      kmc::check(m.IsLockedInThisThread(), "not the holder after a timed wait");
      if (items > 0) { --items; got.add(); }
    });
  { MutexGuard g(m); ++items; c.Notify(); }
  kmc::join_all();
  kmc::check(items + got.get() == 1, "item lost");
}

// ---- P20: thread objects -------------------------------------------------------
static void who(const char *name)
{
  kmc::check(CurrentThread::tid() == (int)::syscall(SYS_gettid), "cached thread id is not the thread's");
  kmc::check(atoi(CurrentThread::tidString()) == CurrentThread::tid(), "thread id text is %s", CurrentThread::tidString());
  kmc::check((int)strlen(CurrentThread::tidString()) == CurrentThread::tidLength(), "thread id length");
  kmc::check(CurrentThread::tidName() && !strcmp(CurrentThread::tidName(), name), "thread name is '%s', not '%s'", CurrentThread::tidName() ? CurrentThread::tidName() : "(null)", name);
  kmc::check(!CurrentThread::isMainThread(), "believes to be the main thread");
}
KMC_SCENARIO("P20", thread_join, (0, 3, 5))
{
  kmc::Counter n; int plain = 0;
  Thread a([&] { who("worker-a"); n.add(); ++plain; }, "worker-a");
  Thread b("worker-b");
  a.StartRun();
  b.StartRun([&] { who("worker-b"); n.add(); });
  a.Join();
  kmc::check(plain == 1, "joined before the function finished");
  b.Join();
  kmc::check(n.get() == 2, "functions ran %ld times", n.get());
  kmc::check(a.tidName() == "worker-a" && b.tidName() == "worker-b", "names changed");
}
KMC_SCENARIO("P20", thread_destroyed_early, (0, 3, 5))
{
  kmc::Counter n;
  auto s = std::make_shared<int>(5);
  { Thread a([&n, s] { who("transient"); kmc::yield_point(); kmc::check(*s == 5, "capture dead"); n.add(); }, "transient"); a.StartRun(); }
  kmc::wait_until([&] { return n.get() == 1; });
  kmc::wait_idle();
  kmc::check(s.use_count() == 1, "callable not destroyed with its thread");
}
KMC_SCENARIO("P20", thread_moved_running, (0, 3, 5))
{
  kmc::Counter n; int plain = 0;
  {
    Thread a([&] { who("mover"); ++plain; n.add(); }, "mover");
    a.StartRun();
    Thread b(std::move(a));
    int how = kmc::choose(3, 0, "how");
    if (how == 0) { b.Join(); kmc::check(plain == 1, "joined early"); }
    else if (how == 1) { Thread c([] {}); c = std::move(b); c.Join(); kmc::check(plain == 1, "joined early"); }
    else { Thread c([&] { n.add(10); }, "other"); c.StartRun(); c = std::move(b); c.Join(); kmc::check(plain == 1, "joined early"); }
  }
  kmc::wait_idle();
  kmc::check(n.get() == 1 || n.get() == 11, "functions ran %ld", n.get());
}
KMC_SCENARIO("P20", thread_moved_idle, (0, 2, 4))
{
  kmc::Counter n;
  Thread a([&] { who("later"); n.add(); }, "later");
  Thread b(std::move(a));
  b.StartRun();
  b.Join();
  kmc::check(n.get() == 1, "function ran %ld times", n.get());
  Thread d([] {}, "never started");
}
// every sequence of operations on two thread objects
static void thread_programs(int len)
{
  enum { NONE, IDLE, STARTED, JOINED };
  static const char *NAME[] = {"one", "two"};
  kmc::Counter ran;
  long started = 0; int st[2] = {NONE, NONE};
  {
    std::unique_ptr<Thread> t[2];
    auto body = [&ran] { kmc::check(CurrentThread::tid() == (int)::syscall(SYS_gettid), "cached thread id is not the thread's"); ran.add(); };
    for (int i = 0; i < len; ++i) {
      int k = kmc::choose(2, 0, "object");
      std::unique_ptr<Thread> &x = t[k], &y = t[1 - k];
      int &sx = st[k], &sy = st[1 - k];
      switch (sx == NONE ? kmc::choose(2, 0, "create") : 2 + kmc::choose(6, 0, "op")) {
      case 0: x.reset(new Thread(body, NAME[k])); sx = IDLE; break;
      case 1: x.reset(new Thread(NAME[k])); x->StartRun(body); ++started; sx = STARTED; break;
      case 2: if (sx == IDLE) { x->StartRun(); ++started; sx = STARTED; } break;
      case 3: if (sx == STARTED) { x->Join(); sx = JOINED; kmc::check(ran.get() > 0, "joined before the function finished"); } break;
      case 4: x.reset(); sx = NONE; break;
      case 5: y.reset(new Thread(std::move(*x))); sy = sx; sx = NONE; x.reset(); break;
      case 6: if (sy != NONE) { *y = std::move(*x); sy = sx; sx = NONE; x.reset(); } break;
      case 7: if (sx == STARTED) { Thread z(std::move(*x)); x.reset(); sx = NONE; z.Join(); } break;
      }
    }
    for (int k = 0; k < 2; ++k) if (st[k] == STARTED && kmc::choose(2, 0, "join")) t[k]->Join();
  }
  kmc::wait_idle();
  kmc::check(ran.get() == started, "%ld of %ld functions ran", ran.get(), started);
}
KMC_SCENARIO("P20", thread_programs3, (0, 2, 3)) { thread_programs(3); }
KMC_SCENARIO("P20", thread_programs4, (0, 1, 2)) { thread_programs(4); }
KMC_SCENARIO("P20", thread_programs5, (0, 0, 1)) { thread_programs(5); }
KMC_SCENARIO("P20", thread_default_name, (0, 2, 3))
{
  kmc::Counter n;
  Thread a([&] { kmc::check(!strncmp(CurrentThread::tidName(), "KanonThread", 11), "default name %s", CurrentThread::tidName()); n.add(); });
  Thread b([&] { kmc::check(!strncmp(CurrentThread::tidName(), "KanonThread", 11), "default name %s", CurrentThread::tidName()); n.add(); });
  kmc::check(a.tidName() != b.tidName(), "default names are equal");
  a.StartRun(); b.StartRun();
  a.Join(); b.Join();
  kmc::check(n.get() == 2, "functions ran %ld times", n.get());
}
// threads that are created by several threads at once
KMC_SCENARIO("P20", thread_default_names, (0, 3, 4))
{
  std::string name[3];
  for (int i = 0; i < 2; ++i) kmc::spawn([&, i] { Thread t([] {}); name[i] = t.tidName(); });
  Thread t([] {});
  name[2] = t.tidName();
  kmc::join_all();
  kmc::check(name[0] != name[1] && name[0] != name[2] && name[1] != name[2], "default names are equal: %s %s %s", name[0].c_str(), name[1].c_str(), name[2].c_str());
}
KMC_SCENARIO("P20", thread_creates_threads, (0, 2, 3))
{
  kmc::Counter n;
  Thread a([&] { Thread b([&] { who("inner"); n.add(); }, "inner"); b.StartRun(); b.Join(); who("outer"); n.add(); }, "outer");
  a.StartRun();
  a.Join();
  kmc::check(n.get() == 2, "functions ran %ld times", n.get());
}

// ---- P37: weak callbacks -----------------------------------------------------
namespace {
struct Obj {
  kmc::Counter alive, calls, in;
  int sum;
  Obj(kmc::Counter a, kmc::Counter c) : alive(a), calls(c), sum(0) { alive.add(); }
  ~Obj() { kmc::check(in.get() == 0, "the object is destroyed while its function runs"); alive.add(-1); sum = -1; }
  int f(int a, int b) { enter(); sum += a * 10 + b; kmc::yield_point(); int r = sum; leave(); return r; }
  long g(int a) const { const_cast<Obj *>(this)->enter(); kmc::yield_point(); long r = sum + a; const_cast<Obj *>(this)->leave(); return r; }
  void h() { enter(); kmc::yield_point(); leave(); }
  std::string s(std::string const &t, std::string u) { enter(); leave(); return t + u; }
  void enter() { kmc::check(alive.get() == 1, "function called on a dead object"); in.add(); calls.add(); }
  void leave() { kmc::check(alive.get() == 1, "the object died while its function ran"); in.add(-1); }
};
}
// the last owner lets go while another thread calls: all or nothing
KMC_SCENARIO("P37", weak_release, (0, 4, 8))
{
  kmc::Counter alive, calls, after;
  auto sp = std::make_shared<Obj>(alive, calls);
  int kind = kmc::choose(3, 0, "function");
  auto cf = makeWeakCallback(sp, &Obj::f);
  auto cg = makeWeakCallback(sp, &Obj::g);
  auto ch = makeWeakCallback(sp, &Obj::h);
  kmc::check(sp.use_count() == 1, "a weak callback owns its object");
  auto call = [=] {
    long before = calls.get(), ret = -5;
    bool dead = after.get();
    if (kind == 0) ret = cf(1, 2); else if (kind == 1) ret = cg(12); else ch();
    long n = calls.get() - before;
    kmc::check(n == 0 || !dead, "the function ran after the object was gone");
    if (kind != 2) kmc::check(n == 0 ? ret == 0 : ret == 12, "the call returned %ld", ret);
  };
  kmc::spawn([=] { call(); if (kind != 0) call(); });
  kmc::spawn([&] { sp.reset(); after.set(1); });
  kmc::join_all();
  kmc::check(alive.get() == 0, "a weak callback keeps its object alive");
  call();
}
// two threads call the same callback; copies of it share the object
KMC_SCENARIO("P37", weak_callers, (0, 3, 6))
{
  kmc::Counter alive, calls;
  auto sp = std::make_shared<Obj>(alive, calls);
  auto ch = std::make_shared<WeakCallback<void, Obj>>(makeWeakCallback(sp, &Obj::h));
  auto copy = *ch;
  kmc::spawn([=] { (*ch)(); });
  kmc::spawn([=] { copy(); });
  if (kmc::choose(2, 0, "owner")) { sp.reset(); kmc::join_all(); kmc::check(calls.get() <= 2, "%ld calls", calls.get()); }
  else { kmc::join_all(); kmc::check(calls.get() == 2, "%ld of 2 calls on a live object were made", calls.get()); sp.reset(); }
  kmc::check(alive.get() == 0, "a weak callback keeps its object alive");
  long n = calls.get();
  copy(); (*ch)();
  kmc::check(calls.get() == n, "the function ran after the object was gone");
}
// arguments and results arrive unchanged, and the object dies exactly once
KMC_SCENARIO("P37", weak_values, (0, 1, 1))
{
  kmc::Counter alive, calls;
  auto sp = std::make_shared<Obj>(alive, calls);
  auto cs = makeWeakCallback(sp, &Obj::s);
  auto cf = makeWeakCallback(sp, &Obj::f);
  std::function<std::string(Obj *, int)> fn = [](Obj *o, int k) { o->enter(); o->leave(); return std::to_string(k); };
  WeakCallback<std::string, Obj, int> own(sp, fn);
  std::string a(40, 'a');
  kmc::check(cs(a, "b") == a + "b", "wrong result");
  kmc::check(own(77) == "77", "wrong result");
  kmc::check(cf(1, 2) == 12 && cf(3, 0) == 42, "wrong result");
  kmc::check(calls.get() == 4 && sp->sum == 42, "wrong number of calls");
  sp.reset();
  kmc::check(cs(a, "b") == "" && own(77) == "" && cf(1, 2) == 0, "a result although the object is gone");
  kmc::check(calls.get() == 4 && alive.get() == 0, "called although the object is gone");
}
