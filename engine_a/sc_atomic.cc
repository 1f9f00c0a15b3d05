// Scenarios for P39: atomic counters, thread-local values
#include "kmc.h"
#include "kanon/thread/atomic.h"
#include "kanon/thread/atomic_counter.h"
#include "kanon/thread/thread.h"
#include "kanon/thread/thread_local.h"
#include <array>
#include <string>
#include <vector>
using namespace kanon;
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

// ---- counters --------------------------------------------------------------
// what an operation does to an ideal counter; r: what it returns (if it tells)
namespace {
struct Ret { bool has; long long v; };
template <class T> struct NewKind { // AtomicCounter
  typedef AtomicCounter<T> C;
  enum { N = 12 };
  static Ret run(C &c, int op)
  {
    switch (op) {
    case 0: return {true, (long long)c.Add((T)3)};
    case 1: return {true, (long long)c.GetAndAdd((T)3)};
    case 2: return {true, (long long)c.Sub((T)2)};
    case 3: return {true, (long long)c.GetAndSub((T)2)};
    case 4: return {true, (long long)++c};
    case 5: return {true, (long long)c++};
    case 6: return {true, (long long)--c};
    case 7: return {true, (long long)c--};
    case 8: return {true, (long long)c.GetValue()};
    case 9: c.SetValue((T)100); return {false, 0};
    case 10: c = (T)50; return {false, 0};
    default: c.Reset(); return {false, 0};
    }
  }
  static Ret ideal(T &c, int op)
  {
    T o = c;
    switch (op) {
    case 0: c = (T)(o + 3); return {true, (long long)c};
    case 1: c = (T)(o + 3); return {true, (long long)o};
    case 2: c = (T)(o - 2); return {true, (long long)c};
    case 3: c = (T)(o - 2); return {true, (long long)o};
    case 4: c = (T)(o + 1); return {true, (long long)c};
    case 5: c = (T)(o + 1); return {true, (long long)o};
    case 6: c = (T)(o - 1); return {true, (long long)c};
    case 7: c = (T)(o - 1); return {true, (long long)o};
    case 8: return {true, (long long)o};
    case 9: c = 100; return {false, 0};
    case 10: c = 50; return {false, 0};
    default: c = 0; return {false, 0};
    }
  }
  static void init(C &c, T v) { c.SetValue(v); }
  static T get(C &c) { return c; }
};
template <class T> struct OldKind { // Atomic
  typedef Atomic<T> C;
  enum { N = 9 };
  static Ret run(C &c, int op)
  {
    switch (op) {
    case 0: return {true, (long long)c.get()};
    case 1: return {true, (long long)c.getAndAdd((T)3)};
    case 2: return {true, (long long)c.addAndGet((T)3)};
    case 3: return {true, (long long)c.incrementAndGet()};
    case 4: return {true, (long long)c.decrementAndGet()};
    case 5: c.add((T)5); return {false, 0};
    case 6: c.increment(); return {false, 0};
    case 7: c.decrement(); return {false, 0};
    default: return {true, (long long)c.getAndSet((T)100)};
    }
  }
  static Ret ideal(T &c, int op)
  {
    T o = c;
    switch (op) {
    case 0: return {true, (long long)o};
    case 1: c = (T)(o + 3); return {true, (long long)o};
    case 2: c = (T)(o + 3); return {true, (long long)c};
    case 3: c = (T)(o + 1); return {true, (long long)c};
    case 4: c = (T)(o - 1); return {true, (long long)c};
    case 5: c = (T)(o + 5); return {false, 0};
    case 6: c = (T)(o + 1); return {false, 0};
    case 7: c = (T)(o - 1); return {false, 0};
    default: c = 100; return {true, (long long)o};
    }
  }
  static void init(C &c, T v) { c.getAndSet(v); }
  static T get(C &c) { return c.get(); }
};
}
// is there an order of the operations, each thread's kept, that gives the same
template <class K, class T>
static bool explained(T v, T end, std::vector<int> const *op, std::vector<Ret> const *got, std::vector<size_t> at, int n)
{
  bool left = false;
  for (int t = 0; t < n; ++t) {
    if (at[t] == op[t].size()) continue;
    left = true;
    T w = v;
    Ret r = K::ideal(w, op[t][at[t]]);
    if (r.has && r.v != got[t][at[t]].v) continue;
    auto next = at;
    ++next[t];
    if (explained<K, T>(w, end, op, got, next, n)) return true;
  }
  return !left && v == end;
}
// all programs of `ops` operations spread over threads (ops[t] each)
template <class K, class T> static void counter_programs(T start, int threads, int const *ops)
{
  typename K::C c;
  K::init(c, start);
  std::vector<int> op[3];
  std::vector<Ret> got[3];
  for (int t = 0; t < threads; ++t)
    for (int i = 0; i < ops[t]; ++i) { op[t].push_back(kmc::choose(K::N, 0, "op")); got[t].push_back({false, 0}); }
  kmc::Counter sync;
  for (int t = 0; t < threads; ++t)
    kmc::spawn([&, t] {
      for (size_t i = 0; i < op[t].size(); ++i) got[t][i] = K::run(c, op[t][i]);
    });
  kmc::join_all();
  T end = K::get(c);
  std::vector<size_t> at(threads, 0);
  kmc::check(explained<K, T>(start, end, op, got, at, threads),
             "no order of the operations explains the value %lld and what they returned (operations %d %d ...: %lld %lld)", (long long)end, op[0][0], op[1][0], got[0][0].v, got[1][0].v);
}
static void counter_kinds(int threads, int const *ops)
{
  switch (kmc::choose(6, 0, "kind")) {
  case 0: return counter_programs<NewKind<uint32_t>, uint32_t>(1, threads, ops);
  case 1: return counter_programs<NewKind<uint64_t>, uint64_t>(0xfffffffeull, threads, ops); // beyond 32 bits
  case 2: return counter_programs<NewKind<int8_t>, int8_t>(126, threads, ops); // wraps round
  case 3: return counter_programs<OldKind<int32_t>, int32_t>(-1, threads, ops);
  case 4: return counter_programs<OldKind<int64_t>, int64_t>(0x7fffffffll, threads, ops);
  default: return counter_programs<OldKind<uint8_t>, uint8_t>(254, threads, ops);
  }
}
KMC_SCENARIO("P39", counter_two, (0, 2, 3)) { static const int o[] = {1, 1}; counter_kinds(2, o); }
KMC_SCENARIO("P39", counter_three, (0, 1, 3)) { static const int o[] = {2, 1}; counter_kinds(2, o); }
KMC_SCENARIO("P39", counter_threads, (0, 1, 2)) { static const int o[] = {1, 1, 1}; counter_kinds(3, o); }
KMC_SCENARIO("P39", counter_four, (0, 0, 2)) { static const int o[] = {2, 2}; counter_kinds(2, o); }

// construction, moves, conversions
KMC_SCENARIO("P39", counter_values, (0, 0, 0))
{
  AtomicCounter32 a(5), d;
  AtomicCounter64 b(0x100000000ull);
  Atomic<int64_t> o;
  kmc::check(a.GetValue() == 5 && d.GetValue() == 0 && b.GetValue() == 0x100000000ull && o.get() == 0, "first values");
  AtomicCounter32 m(std::move(a));
  kmc::check(m.GetValue() == 5 && (uint32_t)m == 5, "a moved counter has the value %u", m.GetValue());
  d = std::move(m);
  kmc::check(d.GetValue() == 5, "a counter that was assigned has the value %u", d.GetValue());
  kmc::check((d = 9u) == 9 && d.GetValue() == 9, "assignment");
  d.Reset();
  kmc::check(d.GetValue() == 0, "a counter that was reset has the value %u", d.GetValue());
}
// tickets: no two threads get the same
KMC_SCENARIO("P39", counter_tickets, (0, 3, 5))
{
  AtomicCounter32 a(5); AtomicCounter64 b;
  kmc::Counter seen[4];
  for (int i = 0; i < 2; ++i) kmc::spawn([&] { for (int k = 0; k < 2; ++k) { uint32_t o = a++; seen[o - 5].add(); } b.Add(2); b.Sub(1); });
  kmc::join_all();
  kmc::check(a.GetValue() == 9 && b.GetValue() == 2, "lost update");
  for (auto &s : seen) kmc::check(s.get() == 1, "the same ticket %ld times", s.get());
}

// ---- thread-local values -----------------------------------------------------
namespace {
struct Tls {
  static kmc::Counter *live, *made;
  int v, w;
  std::string s;
  Tls(int x = 0, int y = 0) : v(x), w(y), s(100, 'x') { live->add(1); made->add(1); }
  Tls(Tls const &) = delete;
  ~Tls() { kmc::check(v != -77, "a thread-local value is destroyed twice"); v = -77; live->add(-1); }
};
kmc::Counter *Tls::live, *Tls::made;
}
// every program of `n` accesses per thread to two holders
static void tls_programs(int threads, int n)
{
  kmc::Counter live, made;
  Tls::live = &live; Tls::made = &made;
  ThreadLocal<Tls> h[2];
  std::vector<int> op[3];
  for (int t = 0; t < threads; ++t) for (int i = 0; i < n; ++i) op[t].push_back(kmc::choose(4, 0, "access"));
  kmc::Counter expect;
  for (int t = 0; t < threads; ++t)
    kmc::spawn([&, t] {
      int have[2] = {-1, -1};
      Tls const *where[2] = {nullptr, nullptr};
      for (int i = 0; i < n; ++i) {
        int k = op[t][i] & 1, arg = 100 * t + i + 1;
        Tls const *p;
        if (op[t][i] & 2) p = &static_cast<ThreadLocal<Tls> const &>(h[k]).value(arg, 7);
        else {
          Tls &r = h[k].value(arg, 7);
          p = &r;
          if (have[k] < 0) have[k] = arg;
          kmc::check(r.v == have[k], "a value is %d, expected %d", r.v, have[k]);
          have[k] += 1000; r.v = have[k];
        }
        if (have[k] < 0) have[k] = arg;
        if (!where[k]) { where[k] = p; expect.add(); }
        kmc::check(p == where[k], "a thread has two values of one holder");
        kmc::check(p->v == have[k] && p->w == 7, "a value is %d, expected %d", p->v, have[k]);
        kmc::yield_point();
        kmc::check(p->v == have[k], "a value was changed by another thread");
      }
      kmc::check(!where[0] || where[0] != where[1], "two holders share a value");
    });
  kmc::join_all();
  kmc::wait_idle();
  kmc::check(made.get() == expect.get(), "%ld values were made, expected %ld", made.get(), expect.get());
  kmc::check(live.get() == 0, "%ld thread-local values outlive their threads", live.get());
}
KMC_SCENARIO("P39", tls_two, (0, 2, 4)) { tls_programs(2, 2); }
KMC_SCENARIO("P39", tls_three, (0, 1, 2)) { tls_programs(2, 3); }
KMC_SCENARIO("P39", tls_threads, (0, 1, 2)) { tls_programs(3, 2); }
// threads that come one after the other start anew; so do holders
KMC_SCENARIO("P39", tls_anew, (0, 1, 2))
{
  kmc::Counter live, made;
  Tls::live = &live; Tls::made = &made;
  for (int round = 0; round < 3; ++round) {
    ThreadLocal<Tls> h;
    for (int i = 1; i <= 2; ++i) {
      Thread t([&, i, round] { kmc::check(h.value(round * 10 + i).v == round * 10 + i, "a new thread finds the value of another one"); }, "t");
      t.StartRun();
      t.Join();
      kmc::wait_idle();
      kmc::check(live.get() == 0, "a thread-local value outlives its thread");
    }
  }
  kmc::check(made.get() == 6, "%ld values were made, expected 6", made.get());
}
// a thread that lives on while holders come and go: their values stay its own
// (what becomes of the values of a holder that is gone is not looked at)
namespace {
struct Pooled {
  static kmc::Counter *used;
  static char room[32][16];
  int v;
  explicit Pooled(int x) : v(x) {}
  static void *operator new(size_t) { return room[used->add() - 1]; }
  static void operator delete(void *) {}
};
kmc::Counter *Pooled::used;
char Pooled::room[32][16] __attribute__((aligned(16)));
}
KMC_SCENARIO("P39", tls_holders, (0, 2, 3))
{
  kmc::Counter used;
  Pooled::used = &used;
  int n = 1 + kmc::choose(2, 0, "threads"), keep = kmc::choose(2, 0, "another holder meanwhile");
  ThreadLocal<Pooled> other;
  for (int t = 0; t < n; ++t)
    kmc::spawn([&, t] {
      for (int i = 1; i <= 3; ++i) {
        if (keep) { int v = other.value(500 + t).v; kmc::check(v == 500 + t, "another holder has the value %d", v); }
        ThreadLocal<Pooled> h;
        int v = h.value(10 * t + i).v, w = h.value(99).v;
        kmc::check(v == 10 * t + i && w == v, "a new holder has the values %d and %d, expected %d", v, w, 10 * t + i);
      }
      if (keep) { int v = other.value(0).v; kmc::check(v == 500 + t, "another holder has the value %d", v); }
    });
  kmc::join_all();
  kmc::check(used.get() == n * (3 + keep), "%ld values were made", used.get());
}
