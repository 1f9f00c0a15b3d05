// Internals shared by the runtime's parts.
#ifndef KMC_INT_H
#define KMC_INT_H
#include "kmc.h"
#include <pthread.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

namespace kmc {
static const int MAXT = 24;
struct VC { uint32_t c[MAXT]; void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

extern __thread int in_rt;
extern bool active;
extern bool verbose;
struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };

enum TState { T_RUN, T_BLOCKED, T_FINISHED };
struct Thr {
  int id;
  TState st;
  volatile int baton;
  bool (*pred)(void *);
  void *pctx;
  int64_t deadline;    // ns, -1 none
  bool timed_out;
  bool idle_wait;      // waits for quiescence
  const char *why;
  const void *obj;
  // condition variables
  const void *cond; bool signalled; bool spurious_ok; bool woke_spurious; uint64_t cond_seq;
  VC vc;
  bool detached, joined, harness;
  void *(*fn)(void *); void *arg; void *ret;
  char *stack; size_t stack_size;
  uint32_t sstack[512]; int sdepth;
  uint64_t accesses;
  std::vector<std::pair<void (*)(void *), void *>> *atexits;
  void *keys[64];
  uintptr_t own[16]; int nown;
};
extern __thread Thr *cur;
extern Thr *thr[MAXT];
extern int nthr;
extern int64_t now_ns;
extern Cfg cfg;
extern bool exploring;

int choice(int n, uint32_t zeromask, const char *kind);
// Scheduling point before a visible operation.
void point(const char *what, const void *obj);
// Blocks until pred holds or the deadline passes; returns true if pred held.
bool block(const char *why, const void *obj, bool (*pred)(void *), void *ctx, int64_t deadline_ns);
template <class F> bool block_on(const char *why, const void *obj, F f, int64_t deadline_ns = -1)
{
  return block(why, obj, [](void *p) { return (*static_cast<F *>(p))(); }, &f, deadline_ns);
}
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void release(const void *key);
void acquire(const void *key);
void mem_range(const void *p, size_t n, bool wr, void *pc);
std::string symname(uint32_t pc);
std::string where();
// environment hooks (kernel)
bool env_pending();
void env_step();
void kernel_end_checks();
void real_init();
extern pthread_t (*real_self)();
extern uint64_t steps;
}
#endif
