// Runtime: scheduler, memory and race monitors, pthread interposition.
#include "kmc_int.h"
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <climits>
#include <csignal>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <unistd.h>
#include <cxxabi.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <algorithm>
#include <set>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_realloc(void *, size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_memalign(size_t, size_t);
extern char __data_start, _end;
}

namespace kmc {
__thread int in_rt = 0;
__thread Thr *cur = nullptr;
bool active = false, verbose = false, exploring = true;
Thr *thr[MAXT];
int nthr = 0;
int64_t now_ns = 0;
Cfg cfg;
uint64_t steps = 0;
static uint64_t sched_steps = 0;

// ---------------------------------------------------------------- raw syscalls
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void futex_wait(volatile int *p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(volatile int *p) { raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0); }

// ---------------------------------------------------------------- shared state
struct Dev { uint32_t pos; uint16_t alt, n; };
static const int MAXDEV = 40;
struct Job { uint8_t ndev, cost; Dev dev[MAXDEV]; };
struct ChoiceRec { uint16_t n; uint8_t pad; uint8_t thr; uint32_t zeromask; };
static const int MAXCH = 60000;
struct Result {
  volatile int done;         // 1 ok, 2 violation, 3 diverged
  uint32_t nch;
  uint64_t steps, sched;
  uint64_t obs_hash;
  char sig[512];
  char msg[8192];
  char knownhits[1024];
  ChoiceRec ch[MAXCH];
};
static Result *res = nullptr;
static Job job;
static int next_dev = 0;
static uint32_t npos = 0;
static uint64_t obs_hash = 1469598103934665603ull;
static void obs(const char *s) { for (; *s; ++s) { obs_hash ^= (unsigned char)*s; obs_hash *= 1099511628211ull; } }
static std::vector<std::string> *known_sigs = nullptr;

// ---------------------------------------------------------------- symbols
struct Sym { uint64_t a, sz; const char *n; };
static std::vector<Sym> *syms;
static void load_syms()
{
  Rt g;
  syms = new std::vector<Sym>;
  int fd = raw(SYS_open, (long)"/proc/self/exe", O_RDONLY);
  if (fd < 0) return;
  struct stat st;
  raw(SYS_fstat, fd, (long)&st);
  char *p = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  raw(SYS_close, fd);
  Elf64_Ehdr *eh = (Elf64_Ehdr *)p;
  Elf64_Shdr *sh = (Elf64_Shdr *)(p + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i)
    if (sh[i].sh_type == SHT_SYMTAB) {
      Elf64_Sym *s = (Elf64_Sym *)(p + sh[i].sh_offset);
      const char *str = p + sh[sh[i].sh_link].sh_offset;
      for (size_t k = 0; k < sh[i].sh_size / sizeof *s; ++k)
        if (ELF64_ST_TYPE(s[k].st_info) == STT_FUNC && s[k].st_value) syms->push_back({s[k].st_value, s[k].st_size, str + s[k].st_name});
    }
  std::sort(syms->begin(), syms->end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
}
std::string symname(uint32_t pc)
{
  Rt g;
  if (!syms) return "?";
  auto it = std::upper_bound(syms->begin(), syms->end(), (uint64_t)pc, [](uint64_t v, const Sym &s) { return v < s.a; });
  if (it == syms->begin()) return "?";
  --it;
  if (pc > it->a + it->sz + 16) return "?";
  int stt;
  char *d = abi::__cxa_demangle(it->n, nullptr, nullptr, &stt);
  std::string r = d ? d : it->n;
  if (d) __libc_free(d);
  return r;
}
// drop parameter lists and template arguments
static std::string shortname(std::string s)
{
  std::string o;
  int lt = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c == '<' && s.compare(i, 2, "<<") != 0) { ++lt; continue; }
    if (c == '>' && lt) { --lt; continue; }
    if (lt) continue;
    if (c == '(') {
      if (s.compare(i, 21, "(anonymous namespace)") == 0) { o += "anon"; i += 20; continue; }
      if (s.compare(i, 2, "()") == 0 && o.size() > 8 && o.compare(o.size() - 8, 8, "operator") == 0) { o += "()"; ++i; continue; }
      // lambda marker {lambda(..)#1}
      int d = 0; size_t j = i;
      for (; j < s.size(); ++j) { if (s[j] == '(') ++d; else if (s[j] == ')' && --d == 0) break; }
      i = j; continue;
    }
    o += c;
  }
  size_t p = o.find(" const"); if (p != std::string::npos) o.erase(p, 6);
  p = o.rfind(' '); if (p != std::string::npos && o.find("operator") == std::string::npos) o = o.substr(p + 1);
  return o;
}
static bool libname(const std::string &n)
{
  return n.compare(0, 5, "std::") == 0 || n.find("__gnu_cxx::") == 0 || n.find("kmc_") == 0 || n == "?" || n.find("operator new") != std::string::npos ||
         n.find("operator delete") != std::string::npos || n.compare(0, 5, "void ") == 0 || n.find(" std::") != std::string::npos;
}
static std::string stack_of(Thr *t, uint32_t pc, int max = 14)
{
  std::string r;
  if (pc) r += "    " + symname(pc) + "\n";
  if (t) for (int i = t->sdepth - 1, k = 0; i >= 0 && k < max; --i, ++k) {
    if (i >= 512) continue;
    r += "    < " + symname(t->sstack[i]) + "\n";
  }
  return r;
}
// first interesting function of the current stack
static std::string topfn(Thr *t, uint32_t pc)
{
  std::string first;
  if (pc) { std::string n = symname(pc); first = shortname(n); if (!libname(n)) return first; }
  if (t) for (int i = t->sdepth - 1; i >= 0; --i) {
    if (i >= 512) continue;
    std::string n = symname(t->sstack[i]);
    if (!libname(n)) return shortname(n);
  }
  return first;
}
std::string where() { return topfn(cur, 0); }

// ---------------------------------------------------------------- verdict
void trace(const char *fmt, ...)
{
  if (!verbose) return;
  Rt g;
  char b[1024];
  int n = snprintf(b, sizeof b, "[%8lld.%06lld T%d] ", (long long)(now_ns / 1000000000), (long long)(now_ns / 1000 % 1000000), cur ? cur->id : -1);
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  raw(SYS_write, 2, (long)b, n);
}
[[noreturn]] static void finish(int code)
{
  ++in_rt;
  if (res) {
    res->nch = npos < MAXCH ? npos : MAXCH;
    res->steps = steps; res->sched = sched_steps; res->obs_hash = obs_hash;
    __atomic_store_n(&res->done, code, __ATOMIC_SEQ_CST);
  }
  raw(SYS_exit_group, code == 1 ? 0 : 1);
  for (;;) ;
}
static bool sig_known(const char *sig)
{
  if (!known_sigs) return false;
  for (auto &s : *known_sigs) if (strstr(sig, s.c_str())) return true;
  return false;
}
[[noreturn]] static void vviolation(const char *sig, const std::string &msg)
{
  ++in_rt;
  if (res) {
    snprintf(res->sig, sizeof res->sig, "%s", sig);
    std::string m = msg + "\n  thread T" + std::to_string(cur ? cur->id : -1) + " stack:\n" + stack_of(cur, 0);
    for (int i = 0; i < nthr; ++i)
      m += "  T" + std::to_string(i) + (thr[i]->st == T_RUN ? " running" : thr[i]->st == T_FINISHED ? " finished" : " blocked in ") +
           (thr[i]->st == T_BLOCKED ? thr[i]->why : "") + (thr[i]->st == T_BLOCKED ? " (" + topfn(thr[i], 0) + ")" : "") + "\n";
    snprintf(res->msg, sizeof res->msg, "%s", m.c_str());
  }
  if (verbose) trace("VIOLATION %s: %s", sig, msg.c_str());
  finish(2);
}
void violation(const char *kind, const char *fmt, ...)
{
  ++in_rt;
  char b[3000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  std::string sig = std::string(kind) + "|" + where();
  vviolation(sig.c_str(), std::string(kind) + ": " + b);
}
void fail(const char *fmt, ...)
{
  ++in_rt;
  char b[3000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  // signature: the message up to the first ':'
  std::string s(b);
  size_t p = s.find(':');
  vviolation(("oracle|" + s.substr(0, p)).c_str(), s);
}
void check(bool ok, const char *fmt, ...)
{
  if (ok) return;
  ++in_rt;
  char b[3000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  --in_rt;
  fail("%s", b);
}
void note(const char *fmt, ...)
{
  Rt g;
  char b[1000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  obs(b); obs(";");
  trace("note: %s", b);
}

// ---------------------------------------------------------------- choices
int choice(int n, uint32_t zeromask, const char *kind)
{
  if (n <= 1) return 0;
  if (!exploring) return 0;
  uint32_t pos = npos++;
  int a = 0;
  if (next_dev < job.ndev && job.dev[next_dev].pos == pos) {
    if (job.dev[next_dev].n != (uint16_t)n) {
      if (res) snprintf(res->msg, sizeof res->msg, "choice %u (%s) has %d options, recorded %d", pos, kind, n, job.dev[next_dev].n);
      finish(3);
    }
    a = job.dev[next_dev].alt;
    ++next_dev;
    if (verbose) trace("choice %u: %s = %d of %d", pos, kind, a, n);
  }
  if (pos < MAXCH && res) { res->ch[pos].n = n; res->ch[pos].zeromask = zeromask; res->ch[pos].thr = cur ? cur->id : 0; }
  else if (pos >= MAXCH) violation("too-long", "more than %d choice points", MAXCH);
  return a;
}
int choose(int n, int cost, const char *what)
{
  Rt g;
  int r = choice(n, cost ? 0 : ~0u, what);
  if (verbose) trace("%s -> %d/%d", what, r, n);
  return r;
}
static bool save_exploring;
void explore(bool on) { (void)save_exploring; exploring = on; }
void faults(unsigned m) { cfg.faults = m; }
unsigned faults() { return cfg.faults; }

// ---------------------------------------------------------------- memory map
static const uintptr_t A0 = 0x200000000000ull;    // heap arena
static const size_t ASZ = 1ull << 30;
static const uintptr_t S0 = A0 + ASZ;             // thread stacks
static const size_t STK = 1ull << 20;
static const size_t SSZ = STK * MAXT;
static const uintptr_t SH0 = 0x210000000000ull;   // shadow, 1 byte per 8
static const uintptr_t C0 = 0x220000000000ull;    // race cells, 64 bytes per 8
static const uintptr_t CG0 = 0x230000000000ull;   // race cells of globals
struct RCell { uint32_t clk; uint8_t tid, mask, fl, pad; uint32_t pc, caller; };
static_assert(sizeof(RCell) == 16, "");
static uintptr_t G0, G1;
static uintptr_t bump;
struct Block { uintptr_t a; uint32_t size; uint8_t freed; uint8_t rt; uint8_t tid, ftid; uint32_t pc[6]; uint32_t fpc[4]; };
static Block *blocks;
static int nblocks;
static const int MAXBLOCKS = 400000;
static size_t live_b, live_n;

static void map_fixed(uintptr_t a, size_t n)
{
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { static const char m[] = "kmc: mmap failed\n"; raw(SYS_write, 2, (long)m, sizeof m - 1); raw(SYS_exit_group, 3); }
}
static void mem_init()
{
  map_fixed(A0, ASZ + SSZ);
  map_fixed(SH0, ASZ / 8);
  map_fixed(C0, (ASZ + SSZ) * 8);
  G0 = (uintptr_t)&__data_start; G1 = (uintptr_t)&_end;
  map_fixed(CG0, ((G1 - G0) + 4096) * 8);
  blocks = (Block *)mmap(nullptr, sizeof(Block) * MAXBLOCKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  bump = A0 + 4096;
}
static inline uint8_t *shadow(uintptr_t a) { return (uint8_t *)(SH0 + ((a - A0) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a - A0 < ASZ; }
static inline bool in_stacks(uintptr_t a) { return a - S0 < SSZ; }
static Block *find_block(uintptr_t a)
{
  int lo = 0, hi = nblocks;
  while (lo < hi) { int m = (lo + hi) / 2; if (blocks[m].a <= a) lo = m + 1; else hi = m; }
  return lo ? &blocks[lo - 1] : nullptr;
}
static std::string block_info(uintptr_t a)
{
  Block *b = find_block(a);
  if (!b) return "";
  char t[200];
  snprintf(t, sizeof t, "  address is %ld bytes into a block of %u bytes%s\n", (long)(a - b->a), b->size, b->freed ? " (freed)" : "");
  std::string r = t;
  r += "  allocated by T" + std::to_string(b->tid) + ":\n";
  for (int i = 0; i < 6 && b->pc[i]; ++i) r += "    " + symname(b->pc[i]) + "\n";
  if (b->freed) { r += "  freed by T" + std::to_string(b->ftid) + ":\n"; for (int i = 0; i < 4 && b->fpc[i]; ++i) r += "    " + symname(b->fpc[i]) + "\n"; }
  return r;
}
[[noreturn]] static void bad_access(uintptr_t a, unsigned sz, bool wr, uint32_t pc)
{
  ++in_rt;
  const char *k = "heap-overflow";
  uint8_t s = in_arena(a) ? *shadow(a) : 0;
  if (in_arena(a) && s == 0xFD) k = "use-after-free";
  if (in_stacks(a)) k = "use-of-dead-stack";
  std::string fn = topfn(cur, pc);
  std::string sig = std::string(k) + "|" + fn;
  char b[200];
  snprintf(b, sizeof b, "%s: %s of %u bytes at %p in %s\n", k, wr ? "write" : "read", sz, (void *)a, fn.c_str());
  vviolation(sig.c_str(), std::string(b) + (in_arena(a) ? block_info(a) : ""));
}

static inline RCell *cells_of(uintptr_t a)
{
  if (a - A0 < ASZ + SSZ) return (RCell *)(C0 + ((a - A0) & ~7ull) * 8);
  if (a - G0 < G1 - G0) return (RCell *)(CG0 + ((a - (G0 & ~7ull)) & ~7ull) * 8);
  return nullptr;
}
static std::set<std::string> *race_seen;
static void report_race(uintptr_t a, RCell *c, bool wr, uint32_t pc)
{
  Rt g;
  std::string f1 = topfn(cur, pc);
  std::string n2 = symname(c->pc);
  std::string f2 = libname(n2) ? shortname(symname(c->caller)) : shortname(n2);
  std::string x = f1, y = f2;
  if (y < x) std::swap(x, y);
  std::string sig = "race|" + x + "|" + y;
  if (!race_seen) race_seen = new std::set<std::string>;
  if (race_seen->count(sig)) return;
  race_seen->insert(sig);
  if (sig_known(sig.c_str())) {
    if (res) { size_t l = strlen(res->knownhits); snprintf(res->knownhits + l, sizeof res->knownhits - l, "%s\n", sig.c_str()); }
    return;
  }
  char b[400];
  snprintf(b, sizeof b, "data race on %p: %s%s by T%d in ", (void *)a, (c->fl & 2) ? "atomic " : "", (c->fl & 1) ? "write" : "read", c->tid);
  std::string m = std::string(b) + f2 + " [" + n2 + "] and " + (wr ? "write" : "read") + " by T" + std::to_string(cur->id) + " in " + f1 + "\n";
  if (in_arena(a)) m += block_info(a);
  vviolation(sig.c_str(), m);
}
static bool multi = false; // a second thread has existed
static inline void race_access(uintptr_t a, unsigned sz, bool wr, bool atomic, uint32_t pc)
{
  if (!multi || !cfg.race_check) return;
  RCell *c = cells_of(a);
  if (!c) return;
  Thr *t = cur;
  unsigned off = a & 7;
  uint8_t mask = (uint8_t)(((1u << sz) - 1) << off);
  uint8_t fl = (wr ? 1 : 0) | (atomic ? 2 : 0);
  uint32_t clk = t->vc.c[t->id];
  int slot = -1, hbslot = -1;
  for (int i = 0; i < 4; ++i) {
    RCell &k = c[i];
    if (k.mask == 0) { if (slot < 0) slot = i; continue; }
    if (k.tid == t->id) {
      if (k.mask == mask && k.fl == fl) { k.clk = clk; k.pc = pc; k.caller = t->sdepth ? t->sstack[(t->sdepth - 1) & 511] : 0; slot = -2; continue; }
      if ((k.mask & ~mask) == 0 && (fl & 1) >= (k.fl & 1) && !(fl & 2) && hbslot < 0) hbslot = i;
      continue;
    }
    bool ordered = k.clk <= t->vc.c[k.tid];
    if ((k.mask & mask) && (wr || (k.fl & 1)) && !(atomic && (k.fl & 2)) && !ordered) report_race(a, &k, wr, pc);
    if (ordered && (k.mask & ~mask) == 0 && wr && !atomic && hbslot < 0) hbslot = i;
  }
  if (slot == -2) return;
  if (hbslot >= 0) slot = hbslot;
  if (slot < 0) slot = (pc ^ clk) & 3;
  RCell &k = c[slot];
  k.clk = clk; k.tid = t->id; k.mask = mask; k.fl = fl; k.pc = pc; k.caller = t->sdepth ? t->sstack[(t->sdepth - 1) & 511] : 0;
}
static inline void addr_check(uintptr_t a, unsigned sz, bool wr, uint32_t pc)
{
  if (in_arena(a)) {
    uint8_t s = *shadow(a);
    unsigned off = a & 7;
    if (__builtin_expect(s > 8 || off + sz > s, 0)) {
      if (s <= 8 && s == 8 && off + sz > 8) { // crosses the granule
        uint8_t s2 = *shadow(a + sz - 1);
        if (s2 <= 8 && ((a + sz - 1) & 7) + 1 <= s2) return;
      }
      bad_access(a, sz, wr, pc);
    }
  } else if (in_stacks(a)) {
    unsigned i = (a - S0) / STK;
    if ((int)i < nthr && thr[i] && thr[i]->st == T_FINISHED) bad_access(a, sz, wr, pc);
  } else if (a < 4096) bad_access(a, sz, wr, pc);
}
static inline void access(const void *p, unsigned sz, bool wr, bool atomic, void *pcv)
{
  if (!active || in_rt || !cur) return;
  uintptr_t a = (uintptr_t)p;
  uint32_t pc = (uint32_t)(uintptr_t)pcv;
  addr_check(a, sz, wr, pc);
  if (++cur->accesses > 60000000ull) violation("livelock", "a thread runs without end");
  unsigned off = a & 7;
  if (off + sz <= 8) race_access(a, sz, wr, atomic, pc);
  else { race_access(a, 8 - off, wr, atomic, pc); race_access(a + 8 - off, off + sz - 8 > 8 ? 8 : off + sz - 8, wr, atomic, pc); }
}
static void range(uintptr_t a, size_t n, bool wr, uint32_t pc)
{
  if (!n) return;
  if (in_arena(a)) {
    if (!in_arena(a + n - 1)) bad_access(a, 1, wr, pc);
    // head
    uint8_t s = *shadow(a);
    if (s > 8 || (a & 7) >= s) bad_access(a, 1, wr, pc);
    uintptr_t e = a + n, g = (a & ~7ull);
    for (; g + 8 <= e; g += 8) if (*shadow(g) != 8) { uintptr_t x = g < a ? a : g; if (*shadow(g) > 8 || (g + *shadow(g)) < (e < g + 8 ? e : g + 8)) bad_access(g + (*shadow(g) <= 8 ? *shadow(g) : 0) < x ? x : g + (*shadow(g) <= 8 ? *shadow(g) : 0), 1, wr, pc); }
    if (g < e && (*shadow(g) > 8 || g + *shadow(g) < e)) bad_access(e - 1, 1, wr, pc);
  } else addr_check(a, 1, wr, pc);
  if (!multi || !cfg.race_check) return;
  uintptr_t e = a + n;
  size_t left = n;
  uintptr_t q = a;
  while (q < e) {
    unsigned off = q & 7, k = 8 - off;
    if (k > e - q) k = e - q;
    race_access(q, k, wr, false, pc);
    q += k;
    if (left > 1024 && q - a > 256 && q < e - 256) q = (e - 256) & ~7ull;
  }
}
void mem_range(const void *p, size_t n, bool wr, void *pc)
{
  // called from inside the runtime on behalf of the running code
  if (!active || !cur || !n) return;
  range((uintptr_t)p, n, wr, (uint32_t)(uintptr_t)pc);
}

// ---------------------------------------------------------------- allocation
static void capture(uint32_t *pc, int n)
{
  int k = 0;
  if (cur) for (int i = cur->sdepth - 1; i >= 0 && k < n; --i) { if (i >= 512) continue; pc[k++] = cur->sstack[i]; }
  while (k < n) pc[k++] = 0;
}
static void *arena_alloc(size_t n, size_t align = 16)
{
  Rt g;
  if (align < 16) align = 16;
  if (n >= 0x7fffffff || bump + n + 64 + align > A0 + ASZ) {
    if (n < (1ull << 28)) violation("memory-exhausted", "allocation of %zu bytes exceeds the arena", n);
    return nullptr;
  }
  uintptr_t a = (bump + align - 1) & ~(align - 1);
  bump = a + ((n + 7) & ~7ull) + 16;
  if (nblocks >= MAXBLOCKS) violation("memory-exhausted", "too many blocks");
  Block &b = blocks[nblocks++];
  b.a = a; b.size = (uint32_t)n; b.freed = 0; b.rt = 0; b.tid = cur ? cur->id : 0;
  capture(b.pc, 6);
  size_t full = n / 8;
  uint8_t *s = shadow(a);
  for (size_t i = 0; i < full; ++i) s[i] = 8;
  if (n & 7) s[full] = n & 7;
  else if (!n) { }
  size_t fill = n < 8192 ? n : 256;
  for (size_t i = 0; i < fill; ++i) ((volatile char *)a)[i] = (char)0xA5;
  live_b += n; ++live_n;
  return (void *)a;
}
static void arena_free(void *p)
{
  Rt g;
  uintptr_t a = (uintptr_t)p;
  Block *b = find_block(a);
  if (!b || b->a != a) violation("bad-free", "free of %p, which is not the start of a block\n%s", p, block_info(a).c_str());
  if (b->freed) violation("double-free", "block %p freed again\n%s", p, block_info(a).c_str());
  if (cur) { uint32_t pc = cur->sdepth ? cur->sstack[(cur->sdepth - 1) & 511] : 0; if (b->size) { range(a, b->size, true, pc); } }
  b->freed = 1; b->ftid = cur ? cur->id : 0;
  capture(b->fpc, 4);
  uint8_t *s = shadow(a);
  for (size_t i = 0; i < (b->size + 7) / 8; ++i) s[i] = 0xFD;
  if (b->size <= 4096) for (size_t i = 0; i < b->size; ++i) ((volatile char *)a)[i] = (char)0xDD;
  live_b -= b->size; --live_n;
}
size_t live_bytes() { return live_b; }
size_t live_blocks() { return live_n; }
bool ptr_live(const void *p) { Block *b = find_block((uintptr_t)p); return b && !b->freed && (uintptr_t)p < b->a + b->size; }

// leak check: blocks not reachable from static data
static std::vector<std::pair<uintptr_t, uintptr_t>> *roots;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *)
{
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
      uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      roots->push_back({a, a + i->dlpi_phdr[k].p_memsz});
    }
  return 0;
}
static void leak_check()
{
  roots = new std::vector<std::pair<uintptr_t, uintptr_t>>;
  dl_iterate_phdr(phdr_cb, nullptr);
  std::vector<bool> seen(nblocks);
  std::vector<int> st;
  auto scan = [&](uintptr_t a, uintptr_t e) {
    for (a = (a + 7) & ~7ull; a + 8 <= e; a += 8) {
      uintptr_t v = *(uintptr_t *)a;
      if (!in_arena(v)) continue;
      Block *b = find_block(v);
      if (!b || b->freed || v > b->a + b->size) continue;
      int i = b - blocks;
      if (!seen[i]) { seen[i] = true; st.push_back(i); }
    }
  };
  for (auto &r : *roots) {
    // the runtime's own variables are no roots: skip nothing, they hold no arena pointers
    scan(r.first, r.second);
  }
  while (!st.empty()) { int i = st.back(); st.pop_back(); scan(blocks[i].a, blocks[i].a + blocks[i].size); }
  int n = 0; size_t bytes = 0; std::string desc; std::string fn;
  for (int i = 0; i < nblocks; ++i)
    if (!blocks[i].freed && !seen[i]) {
      ++n; bytes += blocks[i].size;
      if (n <= 3) {
        desc += "  leaked " + std::to_string(blocks[i].size) + " bytes allocated by T" + std::to_string(blocks[i].tid) + " in:\n";
        for (int k = 0; k < 6 && blocks[i].pc[k]; ++k) {
          std::string s = symname(blocks[i].pc[k]);
          desc += "    " + s + "\n";
          if (fn.empty() && !libname(s)) fn = shortname(s);
        }
      }
    }
  if (n) vviolation(("leak|" + fn).c_str(), "leak: " + std::to_string(n) + " blocks, " + std::to_string(bytes) + " bytes never freed\n" + desc);
}

// ---------------------------------------------------------------- sync objects
struct Sync {
  VC vc;
  int owner = -1, depth = 0;       // mutex
  int readers[MAXT];               // rwlock
  bool destroyed = false, isrw = false;
  int clock = 0;                   // cond clock
  int type = 0;                    // mutex type
  int kind = 0;                    // 1 mutex 2 cond 3 rwlock 4 other
  int semval = 0;
  Sync() { memset(&vc, 0, sizeof vc); memset(readers, 0, sizeof readers); }
};
static std::unordered_map<uintptr_t, Sync> *syncs;
static Sync &sync_of(const void *p) { return (*syncs)[(uintptr_t)p]; }
void release(const void *key)
{
  if (!cur) return;
  Sync &s = sync_of(key);
  s.vc.join(cur->vc);
  ++cur->vc.c[cur->id];
}
void acquire(const void *key)
{
  if (!cur) return;
  auto it = syncs->find((uintptr_t)key);
  if (it != syncs->end()) cur->vc.join(it->second.vc);
}
static void release_store(const void *key) { Sync &s = sync_of(key); s.vc = cur->vc; ++cur->vc.c[cur->id]; }
void hb_release(const void *k) { Rt g; release(k); }
void hb_acquire(const void *k) { Rt g; acquire(k); }

// ---------------------------------------------------------------- scheduler
static bool ready(Thr *t)
{
  if (t->st == T_RUN) return true;
  if (t->st == T_FINISHED) return false;
  if (t->idle_wait) return false;
  if (t->pred && t->pred(t->pctx)) return true;
  return t->deadline >= 0 && now_ns >= t->deadline;
}
static void switch_to(Thr *n)
{
  Thr *me = cur;
  if (n == me) return;
  trace("switch to T%d", n->id);
  n->baton = 1;
  futex_wake(&n->baton);
  while (!me->baton) futex_wait(&me->baton, 0);
  me->baton = 0;
}
extern int64_t next_timer_deadline();
static int64_t earliest()
{
  int64_t d = INT64_MAX;
  for (int i = 0; i < nthr; ++i)
    if (thr[i]->st == T_BLOCKED && thr[i]->deadline >= 0 && thr[i]->deadline < d) d = thr[i]->deadline;
  int64_t k = next_timer_deadline();
  if (k < d) d = k;
  return d;
}
[[noreturn]] static void deadlock()
{
  std::string m = "no thread can run:\n", fn;
  for (int i = 0; i < nthr; ++i)
    if (thr[i]->st != T_FINISHED) {
      m += "  T" + std::to_string(i) + " waits: " + thr[i]->why + "\n" + stack_of(thr[i], 0, 6);
      if (!thr[i]->harness) fn += "|" + topfn(thr[i], 0);
    }
  vviolation(("deadlock" + fn).c_str(), "deadlock: " + m);
}
// Picks the thread that runs next; cur may be blocked.
static Thr *pick(bool cur_can)
{
  for (;;) {
    if (++sched_steps > (uint64_t)cfg.max_steps) violation("livelock", "more than %ld scheduling steps", cfg.max_steps);
    Thr *opt[MAXT + MAXT + 4];
    int kind[MAXT + MAXT + 4]; // 0 thread, 1 spurious, 2 env, 3 time
    int n = 0, nready;
    if (cur_can) { opt[n] = cur; kind[n++] = 0; }
    for (int k = 1; k <= nthr; ++k) {
      Thr *t = thr[(cur->id + k) % nthr];
      if (t == cur && (cur_can || t->st == T_FINISHED)) continue;
      if (ready(t)) { opt[n] = t; kind[n++] = 0; }
    }
    nready = n;
    if (n == 0) {
      if (env_pending()) { trace("environment step"); env_step(); continue; }
      // quiescent: threads waiting for that
      for (int i = 0; i < nthr; ++i) if (thr[i]->st == T_BLOCKED && thr[i]->idle_wait) { thr[i]->idle_wait = false; return thr[i]; }
      int64_t d = earliest();
      if (d == INT64_MAX) deadlock();
      if (d > now_ns) { now_ns = d; trace("time advances"); }
      else {
        // a timer is due but nobody waits for it
        bool any = false;
        for (int i = 0; i < nthr; ++i) if (thr[i]->st != T_FINISHED && ready(thr[i])) any = true;
        if (!any) {
          int64_t e = INT64_MAX;
          for (int i = 0; i < nthr; ++i)
            if (thr[i]->st == T_BLOCKED && thr[i]->deadline > now_ns && thr[i]->deadline < e) e = thr[i]->deadline;
          if (e == INT64_MAX) deadlock();
          now_ns = e;
        }
      }
      continue;
    }
    if (exploring) {
      if (cfg.faults & F_SPURIOUS)
        for (int i = 0; i < nthr; ++i)
          if (thr[i]->st == T_BLOCKED && thr[i]->spurious_ok && !ready(thr[i])) { opt[n] = thr[i]; kind[n++] = 1; }
      if ((cfg.faults & F_ENV) && env_pending()) { opt[n] = nullptr; kind[n++] = 2; }
      if (cfg.faults & F_TIME) { int64_t d = earliest(); if (d != INT64_MAX && d > now_ns) { opt[n] = nullptr; kind[n++] = 3; } }
    }
    uint32_t zm = 0;
    if (!cur_can && (cfg.faults & F_FREE_SWITCH)) for (int i = 1; i < nready; ++i) zm |= 1u << i;
    int a = choice(n, zm, "sched");
    if (kind[a] == 2) { env_step(); continue; }
    if (kind[a] == 3) { now_ns = earliest(); trace("time jumps"); continue; }
    if (kind[a] == 1) { opt[a]->woke_spurious = true; opt[a]->spurious_ok = false; trace("spurious wake-up of T%d", opt[a]->id); }
    return opt[a];
  }
}
void point(const char *what, const void *obj)
{
  if (!active || !cur) return;
  ++steps;
  trace("%s %p", what, obj);
  Thr *n = pick(true);
  switch_to(n);
}
bool block(const char *why, const void *obj, bool (*pred)(void *), void *ctx, int64_t deadline)
{
  Thr *t = cur;
  ++steps;
  if (pred(ctx)) return true;
  t->why = why; t->obj = obj; t->pred = pred; t->pctx = ctx; t->deadline = deadline;
  for (;;) {
    t->st = T_BLOCKED;
    trace("blocks: %s", why);
    Thr *n = pick(false);
    switch_to(n);
    t->st = T_RUN;
    bool ok = pred(ctx);
    if (ok || t->woke_spurious || (deadline >= 0 && now_ns >= deadline)) { t->pred = nullptr; t->deadline = -1; return ok; }
  }
}
void wait_idle()
{
  Rt g;
  Thr *t = cur;
  t->why = "wait_idle"; t->pred = nullptr; t->deadline = -1; t->idle_wait = true; t->st = T_BLOCKED;
  Thr *n = pick(false);
  switch_to(n);
  t->st = T_RUN; t->idle_wait = false;
}
bool wait_until(const std::function<bool()> &p, int64_t timeout)
{
  Rt g;
  return block_on("wait_until", nullptr, [&] { return p(); }, timeout < 0 ? -1 : now_ns + timeout * 1000);
}
void sleep_us(int64_t us)
{
  Rt g;
  int64_t d = now_ns + us * 1000;
  block_on("sleep", nullptr, [] { return false; }, d);
}
void yield_point() { Rt g; point("yield", nullptr); }
int64_t now_us() { return now_ns / 1000; }
static const int64_t REAL0 = 1700000000ll * 1000000000ll;
static const int64_t MONO0 = 5000ll * 1000000000ll;
int64_t realtime_us() { return (REAL0 + now_ns) / 1000; }
void advance_us(int64_t us) { now_ns += us * 1000; }
int self() { return cur ? cur->id : -1; }

// ---------------------------------------------------------------- threads
typedef int (*create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static create_fn real_create;
static const uintptr_t H0 = 0x7100;
static void run_thread_exit(Thr *t)
{
  // thread_local destructors, then keys
  while (t->atexits && !t->atexits->empty()) {
    auto p = t->atexits->back();
    { Rt g; t->atexits->pop_back(); }
    p.first(p.second);
  }
}
struct Key { bool used; void (*dtor)(void *); };
static Key keys[64];
static void run_keys(Thr *t)
{
  for (int round = 0; round < 4; ++round)
    for (int i = 0; i < 64; ++i)
      if (keys[i].used && keys[i].dtor && t->keys[i]) { void *v = t->keys[i]; t->keys[i] = nullptr; keys[i].dtor(v); }
}
static void *tramp(void *p)
{
  Thr *t = (Thr *)p;
  ++in_rt;
  cur = t;
  while (!t->baton) futex_wait(&t->baton, 0);
  t->baton = 0;
  trace("thread starts");
  --in_rt;
  t->ret = t->fn(t->arg);
  run_thread_exit(t);
  run_keys(t);
  ++in_rt;
  point("thread exit", t);
  release(t);
  t->st = T_FINISHED;
  trace("thread ends");
  Thr *n = pick(false);
  n->baton = 1;
  futex_wake(&n->baton);
  return nullptr;
}
static Thr *new_thr()
{
  if (nthr >= MAXT) violation("too-many-threads", "more than %d threads", MAXT);
  Thr *t = new Thr();
  t->id = nthr; t->st = T_RUN; t->deadline = -1;
  t->atexits = new std::vector<std::pair<void (*)(void *), void *>>;
  thr[nthr++] = t;
  return t;
}
static Thr *create(void *(*fn)(void *), void *arg, bool detached, bool harness)
{
  Thr *t = new_thr();
  multi = true;
  t->fn = fn; t->arg = arg; t->detached = detached; t->harness = harness;
  t->vc = cur->vc;
  ++cur->vc.c[cur->id];
  t->vc.c[t->id] = 1;
  t->stack = (char *)(S0 + STK * t->id); t->stack_size = STK;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, t->stack, t->stack_size);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  pthread_t r;
  if (real_create(&r, &at, tramp, t)) violation("engine", "pthread_create failed");
  pthread_attr_destroy(&at);
  return t;
}
static Thr *of_handle(pthread_t h)
{
  uintptr_t i = (uintptr_t)h - H0;
  return i < (uintptr_t)nthr ? thr[i] : nullptr;
}
static void *harness_tramp(void *p)
{
  std::function<void()> f;
  { Rt g; f = std::move(*(std::function<void()> *)p); delete (std::function<void()> *)p; }
  f();
  return nullptr;
}
int spawn(std::function<void()> fn)
{
  Rt g;
  point("spawn", nullptr);
  return create(harness_tramp, new std::function<void()>(std::move(fn)), false, true)->id;
}
static void join_thr(Thr *t, const char *why)
{
  block_on(why, t, [t] { return t->st == T_FINISHED; });
  acquire(t);
  t->joined = true;
}
void join(int tid) { Rt g; join_thr(thr[tid], "harness join"); }
void join_all() { Rt g; for (int i = 1; i < nthr; ++i) if (thr[i]->harness && thr[i] != cur) join_thr(thr[i], "harness join"); }
bool thread_finished(int tid) { return thr[tid]->st == T_FINISHED; }
int live_threads() { int n = 0; for (int i = 0; i < nthr; ++i) if (thr[i] != cur && thr[i]->st != T_FINISHED) ++n; return n; }

static long cells_v[4096];
static int ncells;
int cell_new() { return ncells++; }
long cell_get(int i) { return cells_v[i]; }
void cell_set(int i, long v) { cells_v[i] = v; }
long cell_add(int i, long v) { return cells_v[i] += v; }
static std::string *thelog;
static std::map<int, std::string> *recs;
void logs(const std::string &s) { Rt g; if (!thelog->empty()) *thelog += ';'; *thelog += s; obs(s.c_str()); obs(";"); trace("log: %s", s.c_str()); }
std::string log_take() { Rt g; return *thelog; }
void rec(int c, const char *p, size_t n) { Rt g; (*recs)[c].append(p, n); trace("rec %d +%zu", c, n); }
std::string rec_get(int c) { Rt g; return (*recs)[c]; }

// ---------------------------------------------------------------- running one execution
static std::vector<struct Scen> *scens;
struct Scen { std::string prop, name, file; ScenFn fn; Cfg cfg; };
Reg::Reg(const char *prop, const char *name, ScenFn fn, Cfg c, const char *file)
{
  if (!scens) scens = new std::vector<Scen>;
  scens->push_back({prop, name, file, fn, c});
}
static Scen *scen;
static void *main_tramp(void *p)
{
  Thr *t = (Thr *)p;
  ++in_rt;
  cur = t;
  active = true;
  --in_rt;
  scen->fn();
  ++in_rt;
  // let everything settle
  if (live_threads()) {
    --in_rt; wait_idle(); ++in_rt;
    for (int i = 0; i < nthr; ++i)
      if (thr[i] != cur && thr[i]->st != T_FINISHED)
        vviolation(("thread-leak|" + topfn(thr[i], 0)).c_str(), "thread T" + std::to_string(i) + " still there at the end, in " + thr[i]->why + "\n" + stack_of(thr[i], 0));
  }
  for (int i = 1; i < nthr; ++i)
    if (!thr[i]->detached && !thr[i]->joined && !thr[i]->harness) violation("thread-leak", "thread T%d was neither joined nor detached", i);
  --in_rt;
  run_thread_exit(t);
  run_keys(t);
  ++in_rt;
  cur->sdepth = 0;
  kernel_end_checks();
  if (cfg.leak_check) leak_check();
  finish(1);
}
static char altstack[65536];
static void on_signal(int s, siginfo_t *si, void *uc)
{
  ++in_rt;
  (void)uc;
  char b[200];
  snprintf(b, sizeof b, "signal %d at address %p", s, si->si_addr);
  vviolation((std::string(s == SIGSEGV ? "segv|" : s == SIGABRT ? "abort|" : s == SIGFPE ? "fpe|" : "signal|") + where()).c_str(), b);
}
static void run_child()
{
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  alarm(40);
  syncs = new std::unordered_map<uintptr_t, Sync>;
  thelog = new std::string; recs = new std::map<int, std::string>;
  npos = 0; next_dev = 0; steps = 0; sched_steps = 0; exploring = true;
  cfg = scen->cfg;
  if (res) { res->done = 0; res->nch = 0; res->sig[0] = res->msg[0] = res->knownhits[0] = 0; }
  Thr *t = new_thr();
  t->vc.c[0] = 1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)(S0), STK);
  pthread_t r;
  if (real_create(&r, &at, main_tramp, t)) _exit(9);
  for (;;) raw(SYS_pause);
}

// ---------------------------------------------------------------- driver
struct Shared {
  volatile int lock;
  volatile int stop;
  volatile long outstanding;
  volatile long execs, steps, sched, points, hangs, diverged, unstable;
  volatile long newnodes;
  volatile long ntop[10];
  volatile long levels[10];
  volatile uint64_t maxlen;
  int nviol;
  struct { char sig[512]; char msg[8192]; Job job; volatile long count; int known; } viol[64];
  // distinct outcomes
  uint64_t outcomes[1 << 16];
  volatile long noutcomes;
  // known hits
  char known[4096];
  Job sample; int sample_set;
};
static Shared *sh;
static Job *queue[10];
static const long QCAP = 4000000;
static void slock() { while (__atomic_exchange_n(&sh->lock, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield); }
static void sunlock() { __atomic_store_n(&sh->lock, 0, __ATOMIC_RELEASE); }
static double wall()
{
  struct timespec ts;
  raw(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static int bound;
static bool all_mode = false;
static void add_outcome(uint64_t h)
{
  if (!h) h = 1;
  unsigned i = h & 0xffff;
  for (int k = 0; k < 64; ++k, i = (i + 1) & 0xffff) {
    if (sh->outcomes[i] == h) return;
    if (!sh->outcomes[i]) { sh->outcomes[i] = h; ++sh->noutcomes; return; }
  }
}
static int exec_job(const Job &j)
{
  job = j;
  res->done = 0;
  pid_t pid = (pid_t)raw(SYS_fork);
  if (pid == 0) { run_child(); }
  if (pid < 0) { usleep(10000); return exec_job(j); }
  int st = 0;
  while (raw(SYS_wait4, pid, (long)&st, 0, 0) < 0) ;
  if (res->done == 0) {
    // died without a verdict
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
      snprintf(res->sig, sizeof res->sig, "hang|");
      snprintf(res->msg, sizeof res->msg, "the execution did not end (signal %d)", WTERMSIG(st));
    } else {
      snprintf(res->sig, sizeof res->sig, "died|");
      snprintf(res->msg, sizeof res->msg, "the process ended unexpectedly (status 0x%x)", st);
    }
    res->nch = 0;
    return 2;
  }
  return res->done;
}
static void push_shared(const Job &j)
{
  slock();
  int c = j.cost > 9 ? 9 : j.cost;
  if (sh->ntop[c] < QCAP) { queue[c][sh->ntop[c]] = j; ++sh->ntop[c]; }
  ++sh->outstanding;
  sunlock();
}
static void worker(double deadline)
{
  std::vector<Job> local;
  for (;;) {
    Job j;
    bool have = false;
    if (!local.empty()) { j = local.back(); local.pop_back(); have = true; }
    else {
      slock();
      for (int c = 0; c < 10 && !have; ++c)
        if (sh->ntop[c] > 0) { j = queue[c][--sh->ntop[c]]; have = true; }
      long out = sh->outstanding;
      sunlock();
      if (!have) { if (out == 0 || sh->stop) return; usleep(200); continue; }
    }
    if (sh->stop || wall() > deadline) { if (!sh->stop) sh->stop = 2; return; }
    int r = exec_job(j);
    if (r == 2) {
      // confirm by re-running
      std::string sig = res->sig, msg = res->msg;
      int r2 = exec_job(j);
      if (r2 == 2 && sig == res->sig) {
        slock();
        int k = 0;
        for (; k < sh->nviol; ++k) if (sig == sh->viol[k].sig) break;
        if (k == sh->nviol && k < 64) {
          ++sh->nviol;
          snprintf(sh->viol[k].sig, 512, "%s", sig.c_str());
          snprintf(sh->viol[k].msg, 8192, "%s", msg.c_str());
          sh->viol[k].job = j; sh->viol[k].count = 0;
          sh->viol[k].known = sig_known(sig.c_str());
        }
        if (k < 64) {
          ++sh->viol[k].count;
          if (j.ndev < sh->viol[k].job.ndev) { sh->viol[k].job = j; snprintf(sh->viol[k].msg, 8192, "%s", msg.c_str()); }
          if (!sh->viol[k].known && !all_mode) sh->stop = 1;
        }
        sunlock();
      } else __atomic_add_fetch(&sh->unstable, 1, __ATOMIC_SEQ_CST);
    }
    if (r == 3) { __atomic_add_fetch(&sh->diverged, 1, __ATOMIC_SEQ_CST); }
    __atomic_add_fetch(&sh->execs, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&sh->steps, (long)res->steps, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&sh->sched, (long)res->sched, __ATOMIC_SEQ_CST);
    slock();
    add_outcome(res->obs_hash ^ (r == 2 ? 0x5555 : 0));
    ++sh->levels[j.cost > 9 ? 9 : j.cost];
    if (res->nch > sh->maxlen) sh->maxlen = res->nch;
    if (r == 1 && (!sh->sample_set || j.cost >= sh->sample.cost) && (sh->execs & (sh->execs - 1)) == 0) { sh->sample = j; sh->sample_set = 1; }
    if (res->knownhits[0]) {
      char *p = res->knownhits;
      while (*p) { char *e = strchr(p, '\n'); if (!e) break; *e = 0; if (!strstr(sh->known, p)) { size_t l = strlen(sh->known); snprintf(sh->known + l, sizeof sh->known - l, "%s\n", p); } p = e + 1; }
    }
    sunlock();
    uint32_t from = j.ndev ? j.dev[j.ndev - 1].pos + 1 : 0;
    if (res->nch >= from) __atomic_add_fetch(&sh->newnodes, (long)(res->nch - from + 1), __ATOMIC_SEQ_CST);
    if (r != 3 && j.ndev < MAXDEV) {
      // children, deepest first so that the queue stays small
      for (long i = (long)res->nch - 1; i >= (long)from; --i) {
        const ChoiceRec &c = res->ch[i];
        for (int a = 1; a < c.n; ++a) {
          int cost = j.cost + ((c.zeromask >> a) & 1 ? 0 : 1);
          if (cost > bound) continue;
          Job k = j;
          k.dev[k.ndev].pos = (uint32_t)i; k.dev[k.ndev].alt = a; k.dev[k.ndev].n = c.n;
          ++k.ndev; k.cost = cost;
          if (cost < bound || sh->ntop[cost > 9 ? 9 : cost] < 256) push_shared(k); else local.push_back(k);
        }
      }
    }
    // jobs in the local stack keep the parent outstanding
    if (!local.empty()) { slock(); sh->outstanding += (long)0; sunlock(); }
    // run the local stack to the end before the parent counts as finished
    static thread_local int depth = 0;
    (void)depth;
    if (local.empty()) { slock(); --sh->outstanding; sunlock(); }
    else {
      // keep count: one outstanding token stands for the whole local stack
    }
  }
}
static std::string job_str(const Job &j)
{
  std::string s;
  for (int i = 0; i < j.ndev; ++i) s += (i ? "," : "") + std::to_string(j.dev[i].pos) + ":" + std::to_string(j.dev[i].alt) + "/" + std::to_string(j.dev[i].n);
  return s.empty() ? "-" : s;
}
static std::string jesc(const std::string &s)
{
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }

static int drive(int argc, char **argv)
{
  ++in_rt;
  std::string prop, only, out, knownf, replay, tier = "quick";
  double limit = 200;
  int nw = 8, bdelta = 0;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx();
    else if (a == "--scen") only = nx();
    else if (a == "--out") out = nx();
    else if (a == "--known") knownf = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--workers") nw = atoi(nx().c_str());
    else if (a == "--bound") bdelta = atoi(nx().c_str());
    else if (a == "--all") all_mode = true;
    else if (a == "--list") list = true;
    else if (a == "--replay") replay = nx();
    else if (a == "--verbose") verbose = true;
  }
  load_syms();
  known_sigs = new std::vector<std::string>;
  if (!knownf.empty()) {
    FILE *f = fopen(knownf.c_str(), "r");
    char b[1024];
    while (f && fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); if (!s.empty() && s[0] != '#') known_sigs->push_back(s); }
    if (f) fclose(f);
  }
  if (list) { for (auto &s : *scens) printf("%s %s\n", s.prop.c_str(), s.name.c_str()); return 0; }
  if (!replay.empty()) {
    for (auto &s : *scens) if (s.name == only) scen = &s;
    if (!scen) { fprintf(stderr, "no such scenario\n"); return 2; }
    res = (Result *)shm(sizeof(Result));
    memset(&job, 0, sizeof job);
    if (replay != "-") {
      const char *p = replay.c_str();
      while (*p) { unsigned a, b, c; int n = 0; if (sscanf(p, "%u:%u/%u%n", &a, &b, &c, &n) != 3) break; job.dev[job.ndev++] = {a, (uint16_t)b, (uint16_t)c}; p += n; if (*p == ',') ++p; }
    }
    int r = exec_job(Job(job));
    printf("result %d\nsig %s\n%s\n", r, res->sig, res->msg);
    return r == 1 ? 0 : 1;
  }
  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!fo) { perror("out"); return 2; }
  fprintf(fo, "{\"scenarios\":[\n");
  bool first = true, bad = false;
  int total = 0;
  for (auto &s : *scens) if ((prop.empty() || s.prop == prop) && (only.empty() || s.name == only)) ++total;
  int idx = 0;
  double t_all = wall();
  for (auto &s : *scens) {
    if (!prop.empty() && s.prop != prop) continue;
    if (!only.empty() && s.name != only) continue;
    ++idx;
    scen = &s;
    bound = (tier == "thorough" ? s.cfg.thorough : s.cfg.quick) + bdelta;
    if (bound < 0) bound = 0;
    sh = (Shared *)shm(sizeof(Shared));
    for (int i = 0; i < 10; ++i) queue[i] = (Job *)shm(sizeof(Job) * QCAP);
    double t0 = wall();
    double left = limit - (t0 - t_all);
    double share = left / (total - idx + 1);
    if (share < 2) share = 2;
    // a scenario may use twice its share, unused time goes to the rest
    double dl = t0 + (share * 2 < left ? share * 2 : (left > 2 ? left : 2));
    Job root; memset(&root, 0, sizeof root);
    push_shared(root);
    fflush(fo); fflush(stdout);
    std::vector<pid_t> ws;
    for (int w = 0; w < nw; ++w) {
      pid_t p = (pid_t)raw(SYS_fork);
      if (p == 0) {
        res = (Result *)shm(sizeof(Result));
        setpgid(0, 0);
        worker(dl);
        _exit(0);
      }
      ws.push_back(p);
    }
    for (pid_t p : ws) { int st; while (raw(SYS_wait4, p, (long)&st, 0, 0) < 0) ; }
    double el = wall() - t0;
    bool complete = sh->stop == 0;
    fprintf(fo, "%s{\"name\":\"%s\",\"prop\":\"%s\",\"bound\":%d,\"complete\":%s,\"executions\":%ld,\"nodes\":%ld,\"steps\":%ld,\"sched_steps\":%ld,\"outcomes\":%ld,\"maxchoices\":%lu,\"diverged\":%ld,\"unstable\":%ld,\"wall\":%.2f,\"levels\":[",
            first ? "" : ",\n", s.name.c_str(), s.prop.c_str(), bound, complete ? "true" : "false", sh->execs, sh->newnodes, sh->steps, sh->sched, sh->noutcomes, (unsigned long)sh->maxlen, sh->diverged, sh->unstable, el);
    for (int i = 0; i <= bound && i < 10; ++i) fprintf(fo, "%s%ld", i ? "," : "", sh->levels[i]);
    fprintf(fo, "],\"sample\":\"%s\",\"known\":\"%s\",\"violations\":[", sh->sample_set ? job_str(sh->sample).c_str() : "-", jesc(sh->known).c_str());
    for (int k = 0; k < sh->nviol; ++k) {
      if (!sh->viol[k].known) bad = true;
      fprintf(fo, "%s{\"sig\":\"%s\",\"known\":%s,\"count\":%ld,\"choices\":\"%s\",\"msg\":\"%s\"}", k ? "," : "", jesc(sh->viol[k].sig).c_str(), sh->viol[k].known ? "true" : "false", sh->viol[k].count, job_str(sh->viol[k].job).c_str(), jesc(sh->viol[k].msg).c_str());
    }
    fprintf(fo, "]}");
    first = false;
    for (int i = 0; i < 10; ++i) munmap(queue[i], sizeof(Job) * QCAP);
    munmap(sh, sizeof(Shared));
    if (bad && !all_mode) break;
  }
  fprintf(fo, "\n]}\n");
  fclose(fo);
  return bad ? 1 : 0;
}
} // namespace kmc

using namespace kmc;

// ================================================================ interposers
extern "C" {
#define CALLER __builtin_return_address(0)

// ---- allocation
void *malloc(size_t n)
{
  if (active && !in_rt && cur) return arena_alloc(n);
  return __libc_malloc(n);
}
void free(void *p)
{
  if (!p) return;
  if (in_arena((uintptr_t)p)) { arena_free(p); return; }
  __libc_free(p);
}
void *calloc(size_t a, size_t b)
{
  if (active && !in_rt && cur) {
    size_t n = a * b;
    if (a && n / a != b) return nullptr;
    void *p = arena_alloc(n);
    if (p) for (size_t i = 0; i < n && i < 8192; ++i) ((volatile char *)p)[i] = 0;
    return p;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n)
{
  if (p && in_arena((uintptr_t)p)) {
    size_t old;
    { Rt g; Block *b = find_block((uintptr_t)p); if (!b || b->a != (uintptr_t)p || b->freed) violation("bad-free", "realloc of %p", p); old = b->size; }
    if (!n) { arena_free(p); return nullptr; }
    void *q = arena_alloc(n);
    if (!q) return nullptr;
    { Rt g; memcpy(q, p, old < n ? old : n); }
    arena_free(p);
    return q;
  }
  if (active && !in_rt && cur) {
    if (!p) return arena_alloc(n);
  }
  return __libc_realloc(p, n);
}
void *memalign(size_t al, size_t n) { if (active && !in_rt && cur) return arena_alloc(n, al); return __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { if (in_arena((uintptr_t)p)) { Block *b = find_block((uintptr_t)p); return b ? b->size : 0; } return 0; }

// ---- string functions
void *memcpy(void *__restrict d, const void *__restrict s, size_t n)
{
  if (active && !in_rt && cur && n) { Rt g; uint32_t pc = (uint32_t)(uintptr_t)CALLER; range((uintptr_t)s, n, false, pc); range((uintptr_t)d, n, true, pc); }
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n)
{
  if (active && !in_rt && cur && n) { Rt g; uint32_t pc = (uint32_t)(uintptr_t)CALLER; range((uintptr_t)s, n, false, pc); range((uintptr_t)d, n, true, pc); }
  void *r = d;
  if (d <= s || (char *)d >= (const char *)s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else {
    char *dd = (char *)d + n - 1; const char *ssp = (const char *)s + n - 1;
    __asm__ volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ssp), "+c"(n)::"memory");
  }
  return r;
}
void *memset(void *d, int c, size_t n)
{
  if (active && !in_rt && cur && n) { Rt g; range((uintptr_t)d, n, true, (uint32_t)(uintptr_t)CALLER); }
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

// ---- tsan instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *pc)
{
  Thr *t = cur;
  if (!t || in_rt) { if (t) { if (t->sdepth < 512) t->sstack[t->sdepth] = (uint32_t)(uintptr_t)pc; ++t->sdepth; } return; }
  // pc is the call site in the caller; remember the callee instead
  if (t->sdepth < 512) t->sstack[t->sdepth] = (uint32_t)(uintptr_t)CALLER;
  ++t->sdepth;
  if (t->sdepth > 5000) violation("stack-overflow", "endless recursion");
}
void __tsan_func_exit() { if (cur && cur->sdepth > 0) --cur->sdepth; }
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, false, false, CALLER); } \
  void __tsan_write##n(void *p) { access(p, n, true, false, CALLER); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, CALLER); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, CALLER); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, false, CALLER); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, false, CALLER); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void *p) { access(p, 8, false, false, CALLER); access((char *)p + 8, 8, false, false, CALLER); }
void __tsan_write16(void *p) { access(p, 8, true, false, CALLER); access((char *)p + 8, 8, true, false, CALLER); }
void __tsan_unaligned_read16(void *p) { access(p, 8, false, false, CALLER); access((char *)p + 8, 8, false, false, CALLER); }
void __tsan_unaligned_write16(void *p) { access(p, 8, true, false, CALLER); access((char *)p + 8, 8, true, false, CALLER); }
void __tsan_read_range(void *p, size_t n) { if (active && !in_rt && cur) { Rt g; range((uintptr_t)p, n, false, (uint32_t)(uintptr_t)CALLER); } }
void __tsan_write_range(void *p, size_t n) { if (active && !in_rt && cur) { Rt g; range((uintptr_t)p, n, true, (uint32_t)(uintptr_t)CALLER); } }
void __tsan_vptr_update(void **p, void *nv) { if (*p != nv) access(p, 8, true, false, CALLER); else access(p, 8, false, false, CALLER); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false, CALLER); }

// ---- atomics.  __ATOMIC_*: relaxed 0 consume 1 acquire 2 release 3 acq_rel 4 seq_cst 5
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline bool on() { return active && !in_rt && cur; }
// A relaxed access to the bookkeeping of a mutex that this thread holds (kanon
// keeps the holder beside the mutex) orders nothing: not a scheduling point.
static bool quiet_relaxed(const volatile void *a, int mo);
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) \
  { \
    if (on()) { void *pc = CALLER; { Rt g; if (!quiet_relaxed(a, mo)) point("atomic load", (void *)a); } access((void *)a, bits / 8, false, true, pc); Rt g; if (acq(mo)) acquire((void *)a); } \
    return *a; \
  } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) \
  { \
    if (on()) { void *pc = CALLER; { Rt g; if (!quiet_relaxed(a, mo)) point("atomic store", (void *)a); } access((void *)a, bits / 8, true, true, pc); Rt g; *a = v; if (rel(mo)) release_store((void *)a); return; } \
    *a = v; \
  } \
  static inline void rmw##bits(volatile T *a, int mo, void *pc, bool sched) \
  { \
    if (!on()) return; \
    if (sched) { Rt g; point("atomic rmw", (void *)a); } \
    access((void *)a, bits / 8, true, true, pc); \
    Rt g; if (acq(mo)) acquire((void *)a); if (rel(mo)) release((void *)a); \
  } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, mo != 4); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, mo != 4); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { rmw##bits(a, mo, CALLER, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) \
  { \
    rmw##bits(a, mo, CALLER, mo != 4 || true); \
    if (*a == *e) { *a = v; return 1; } \
    *e = *a; return 0; \
  } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int) \
  { \
    rmw##bits(a, mo, CALLER, true); \
    if (*a == *e) { *a = v; return 1; } \
    *e = *a; return 0; \
  } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int) \
  { \
    rmw##bits(a, mo, CALLER, true); \
    T o = *a; if (o == e) *a = v; return o; \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int) { if (on()) { Rt g; acquire(&fence_obj); release(&fence_obj); } }
void __tsan_atomic_signal_fence(int) {}

// ---- static initialisers and once
int __cxa_guard_acquire(uint64_t *gd)
{
  volatile char *b = (volatile char *)gd;
  if (!active || in_rt || !cur) { if (*b) return 0; return 1; }
  Rt g;
  if (b[0]) { acquire(gd); return 0; }
  block_on("static initialiser", gd, [b] { return b[0] || !b[1]; });
  if (b[0]) { acquire(gd); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *gd)
{
  volatile char *b = (volatile char *)gd;
  if (active && cur) { Rt g; release(gd); }
  b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(uint64_t *gd) { ((volatile char *)gd)[1] = 0; }
int pthread_once(pthread_once_t *o, void (*f)())
{
  volatile int *v = (volatile int *)o;
  if (!active || in_rt || !cur) { if (!*v) { *v = 2; f(); } return 0; }
  {
    Rt g;
    point("once", o);
    block_on("once", o, [v] { return *v != 1; });
    if (*v == 2) { acquire(o); return 0; }
    *v = 1;
  }
  f();
  Rt g;
  release(o);
  *v = 2;
  return 0;
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *)
{
  if (cur) { Rt g; cur->atexits->push_back({f, o}); }
  return 0;
}

// ---- failures
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
  ++in_rt;
  const char *s = strrchr(f, '/');
  if (active) vviolation((std::string("assert|") + shortname(fn) + "|" + e).c_str(), std::string("assertion failed: ") + e + " at " + (s ? s + 1 : f) + ":" + std::to_string(l) + " in " + fn);
  fprintf(stderr, "assert %s %s:%u\n", e, f, l);
  raw(SYS_exit_group, 3);
  for (;;) ;
}
void abort()
{
  ++in_rt;
  if (active) violation("abort", "abort() called");
  raw(SYS_exit_group, 3);
  for (;;) ;
}

// ---- threads
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*f)(void *), void *arg)
{
  if (!active || in_rt) return real_create(out, at, f, arg);
  Rt g;
  int det = 0;
  if (at) pthread_attr_getdetachstate(at, &det);
  point("pthread_create", nullptr);
  mem_range(out, sizeof *out, true, CALLER);
  Thr *t = create(f, arg, det == PTHREAD_CREATE_DETACHED, false);
  *out = (pthread_t)(H0 + t->id);
  return 0;
}
int pthread_join(pthread_t h, void **ret)
{
  Rt g;
  point("pthread_join", (void *)h);
  Thr *t = of_handle(h);
  if (!t) violation("bad-join", "join of a handle that is no thread");
  if (t->detached) violation("bad-join", "join of a detached thread");
  if (t->joined) violation("bad-join", "thread joined twice");
  if (t == cur) return EDEADLK;
  join_thr(t, "pthread_join");
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t h)
{
  Rt g;
  if (!active) return 0;
  point("pthread_detach", (void *)h);
  Thr *t = of_handle(h);
  if (!t) violation("bad-detach", "detach of a handle that is no thread");
  if (t->joined || t->detached) violation("bad-detach", "detach of a joined or detached thread");
  t->detached = true;
  return 0;
}
pthread_t pthread_self() { if (active && cur) return (pthread_t)(H0 + cur->id); return real_self ? real_self() : 0; }
int pthread_setname_np(pthread_t, const char *) { return 0; }
int pthread_cancel(pthread_t) { violation("unsupported", "pthread_cancel"); }
void pthread_exit(void *) { violation("unsupported", "pthread_exit"); }
int pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
  for (int i = 0; i < 64; ++i) if (!keys[i].used) { keys[i].used = true; keys[i].dtor = d; *k = i; return 0; }
  return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) { if (k >= 64 || !keys[k].used) return EINVAL; keys[k].used = false; for (int i = 0; i < nthr; ++i) thr[i]->keys[k] = nullptr; return 0; }
static void *main_keys[64];
void *pthread_getspecific(pthread_key_t k) { return k < 64 ? (cur ? cur->keys[k] : main_keys[k]) : nullptr; }
int pthread_setspecific(pthread_key_t k, const void *v) { if (k >= 64 || !keys[k].used) return EINVAL; (cur ? cur->keys[k] : main_keys[k]) = (void *)v; return 0; }
int sched_yield() { if (on()) { Rt g; point("yield", nullptr); } return 0; }
int pthread_atfork(void (*)(), void (*)(), void (*)()) { return 0; }

// ---- mutexes
static bool mutex_alive(pthread_mutex_t *m, Sync &s)
{
  if (s.destroyed && m->__data.__kind == -1) return false;
  if (s.destroyed) { int t = m->__data.__kind & 3; s = Sync(); s.type = t; s.kind = 1; }
  if (s.kind != 1) { s.kind = 1; s.type = m->__data.__kind & 3; s.owner = -1; s.depth = 0; }
  return true;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
  int ty = PTHREAD_MUTEX_NORMAL;
  if (a) pthread_mutexattr_gettype(a, &ty);
  for (size_t i = 0; i < sizeof *m; ++i) ((volatile char *)m)[i] = 0;
  m->__data.__kind = ty;
  if (!active || !syncs) return 0;
  Rt g;
  mem_range(m, sizeof *m, true, CALLER);
  Sync s; s.kind = 1; s.type = ty;
  (*syncs)[(uintptr_t)m] = s;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
  if (!active || in_rt || !cur) return 0;
  Rt g;
  mem_range(m, sizeof *m, true, CALLER);
  Sync &s = sync_of(m);
  if (!mutex_alive(m, s)) violation("destroyed-mutex", "mutex destroyed twice");
  if (s.owner >= 0) violation("destroyed-mutex", "mutex destroyed while T%d holds it", s.owner);
  for (int i = 0; i < nthr; ++i) if (thr[i]->st == T_BLOCKED && thr[i]->obj == m && thr[i] != cur) violation("destroyed-mutex", "mutex destroyed while T%d waits for it", i);
  s.destroyed = true;
  m->__data.__kind = -1;
  return 0;
}
static bool quiet_relaxed(const volatile void *a, int mo)
{
  if (mo != 0) return false;
  for (int i = 0; i < cur->nown; ++i) { intptr_t d = (intptr_t)a - (intptr_t)cur->own[i]; if (d > -64 && d < 64) return true; }
  return false;
}
static void own(pthread_mutex_t *m) { if (cur->nown < 16) cur->own[cur->nown++] = (uintptr_t)m; }
static int do_lock(pthread_mutex_t *m, bool pt, void *pc, int64_t deadline = -1)
{
  mem_range(m, sizeof(int), false, pc);
  if (pt) point("mutex lock", m);
  mem_range(m, sizeof(int), false, pc);
  { Sync &s = sync_of(m); if (!mutex_alive(m, s)) violation("destroyed-mutex", "lock of a destroyed mutex"); }
  Sync *s = &sync_of(m);
  if (s->owner == cur->id) {
    if (s->type == PTHREAD_MUTEX_RECURSIVE) { ++s->depth; return 0; }
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (!block_on("mutex", m, [m] { return sync_of(m).owner < 0; }, deadline)) return ETIMEDOUT;
  s = &sync_of(m);
  s->owner = cur->id; s->depth = 1;
  own(m);
  cur->vc.join(s->vc);
  return 0;
}
static int do_unlock(pthread_mutex_t *m)
{
  Sync &s = sync_of(m);
  if (!mutex_alive(m, s)) violation("destroyed-mutex", "unlock of a destroyed mutex");
  if (s.owner != cur->id) {
    if (s.type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
    violation("bad-unlock", "mutex unlocked by a thread that does not hold it (owner T%d)", s.owner);
  }
  if (--s.depth > 0) return 0;
  s.owner = -1;
  for (int i = 0; i < cur->nown; ++i) if (cur->own[i] == (uintptr_t)m) { cur->own[i] = cur->own[--cur->nown]; break; }
  s.vc.join(cur->vc);
  ++cur->vc.c[cur->id];
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) return 0; Rt g; return do_lock(m, true, CALLER); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!on()) return 0; Rt g; trace("mutex unlock %p", (void *)m); mem_range(m, sizeof(int), false, CALLER); return do_unlock(m); }
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (!on()) return 0;
  Rt g;
  mem_range(m, sizeof(int), false, CALLER);
  point("mutex trylock", m);
  Sync &s = sync_of(m);
  if (!mutex_alive(m, s)) violation("destroyed-mutex", "trylock of a destroyed mutex");
  if (s.owner == cur->id && s.type == PTHREAD_MUTEX_RECURSIVE) { ++s.depth; return 0; }
  if (s.owner >= 0) return EBUSY;
  s.owner = cur->id; s.depth = 1;
  own(m);
  cur->vc.join(s.vc);
  return 0;
}
static int64_t abs_ns(const struct timespec *ts, int clk)
{
  if (ts->tv_sec > (int64_t)9000000000) return (int64_t)9000000000 * 1000000000ll; // centuries
  int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  v -= clk == CLOCK_REALTIME ? REAL0 : MONO0;
  return v < 0 ? 0 : v;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!on()) return 0; Rt g; return do_lock(m, true, CALLER, abs_ns(ts, CLOCK_REALTIME)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { if (!on()) return 0; Rt g; return do_lock(m, true, CALLER, abs_ns(ts, c)); }

// ---- conditions
int pthread_condattr_init(pthread_condattr_t *a) { *(int *)a = CLOCK_REALTIME; return 0; }
int pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { *(int *)a = c; return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
  for (size_t i = 0; i < sizeof *c; ++i) ((volatile char *)c)[i] = 0;
  if (!active || !syncs) return 0;
  Rt g;
  mem_range(c, sizeof *c, true, CALLER);
  Sync s; s.kind = 2; s.clock = a ? *(const int *)a : CLOCK_REALTIME;
  (*syncs)[(uintptr_t)c] = s;
  return 0;
}
static const unsigned COND_DEAD = 0xdeadc0deu;
static void cond_alive(pthread_cond_t *c, const char *op)
{
  Sync &s = sync_of(c);
  if (s.destroyed) {
    if (((volatile unsigned *)c)[0] == COND_DEAD) violation("destroyed-cond", "%s of a destroyed condition", op);
    s = Sync(); s.kind = 2;
  }
}
int pthread_cond_destroy(pthread_cond_t *c)
{
  if (!on()) return 0;
  Rt g;
  mem_range(c, sizeof *c, true, CALLER);
  cond_alive(c, "destroy");
  for (int i = 0; i < nthr; ++i) if (thr[i]->st == T_BLOCKED && thr[i]->cond == c && !thr[i]->signalled) violation("destroyed-cond", "condition destroyed while T%d waits on it", i);
  sync_of(c).destroyed = true;
  ((volatile unsigned *)c)[0] = COND_DEAD;
  return 0;
}
static uint64_t cond_seq;
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline, void *pc)
{
  mem_range(c, sizeof(int), false, pc);
  point("cond wait", c);
  cond_alive(c, "wait");
  Thr *t = cur;
  t->cond = c; t->signalled = false; t->spurious_ok = true; t->woke_spurious = false; t->cond_seq = ++cond_seq;
  if (sync_of(m).owner != t->id) violation("bad-wait", "condition wait without holding the mutex");
  int depth = sync_of(m).depth;
  sync_of(m).depth = 1;
  do_unlock(m);
  bool ok = block_on("condition", c, [t] { return t->signalled; }, deadline);
  t->cond = nullptr; t->spurious_ok = false;
  bool sp = t->woke_spurious;
  t->woke_spurious = false;
  do_lock(m, false, pc);
  sync_of(m).depth = depth;
  return ok || sp ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return 0; Rt g; return cond_wait(c, m, -1, CALLER); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
  if (!on()) return 0;
  Rt g;
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cond_wait(c, m, abs_ns(ts, sync_of(c).kind == 2 ? sync_of(c).clock : CLOCK_REALTIME), CALLER);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (!on()) return 0; Rt g; return cond_wait(c, m, abs_ns(ts, k), CALLER); }
static int cond_wake(pthread_cond_t *c, bool all, void *pc)
{
  mem_range(c, sizeof(int), false, pc);
  point(all ? "cond broadcast" : "cond signal", c);
  mem_range(c, sizeof(int), false, pc);
  cond_alive(c, "signal");
  Thr *w[MAXT];
  int n = 0;
  for (int i = 0; i < nthr; ++i) if (thr[i]->st == T_BLOCKED && thr[i]->cond == c && !thr[i]->signalled) w[n++] = thr[i];
  std::sort(w, w + n, [](Thr *a, Thr *b) { return a->cond_seq < b->cond_seq; });
  if (all) { for (int i = 0; i < n; ++i) w[i]->signalled = true; return 0; }
  if (n) { int k = (n > 1 && (cfg.faults & F_SIGNAL_PICK)) ? choice(n, 0, "signal pick") : 0; w[k]->signalled = true; }
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { if (!on()) return 0; Rt g; return cond_wake(c, false, CALLER); }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!on()) return 0; Rt g; return cond_wake(c, true, CALLER); }

// ---- reader-writer locks
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *)
{
  for (size_t i = 0; i < sizeof *l; ++i) ((volatile char *)l)[i] = 0;
  if (!active || !syncs) return 0;
  Rt g; Sync s; s.kind = 3; (*syncs)[(uintptr_t)l] = s; return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l)
{
  if (!on()) return 0;
  Rt g;
  Sync &s = sync_of(l);
  if (s.owner >= 0) violation("destroyed-rwlock", "rwlock destroyed while held");
  for (int i = 0; i < MAXT; ++i) if (s.readers[i]) violation("destroyed-rwlock", "rwlock destroyed while held");
  s = Sync();
  return 0;
}
static bool rd_free(void *l) { return sync_of(l).owner < 0; }
static bool wr_free(void *l) { Sync &s = sync_of(l); if (s.owner >= 0) return false; for (int i = 0; i < MAXT; ++i) if (s.readers[i]) return false; return true; }
static int rw_lock(pthread_rwlock_t *l, bool wr, bool try_, int64_t dl = -1)
{
  point(wr ? "wrlock" : "rdlock", l);
  mem_range(l, sizeof(int), false, CALLER);
  sync_of(l).kind = 3;
  if (sync_of(l).owner == cur->id) { if (try_) return EBUSY; return EDEADLK; }
  if (try_ && !(wr ? wr_free(l) : rd_free(l))) return EBUSY;
  if (!block(wr ? "wrlock" : "rdlock", l, wr ? wr_free : rd_free, l, dl)) return ETIMEDOUT;
  Sync &s = sync_of(l);
  if (wr) s.owner = cur->id; else ++s.readers[cur->id];
  cur->vc.join(s.vc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!on()) return 0; Rt g; return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!on()) return 0; Rt g; return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!on()) return 0; Rt g; return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!on()) return 0; Rt g; return rw_lock(l, true, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *t) { if (!on()) return 0; Rt g; return rw_lock(l, false, false, abs_ns(t, CLOCK_REALTIME)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *t) { if (!on()) return 0; Rt g; return rw_lock(l, true, false, abs_ns(t, CLOCK_REALTIME)); }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
  if (!on()) return 0;
  Rt g;
  trace("rwlock unlock %p", (void *)l);
  Sync &s = sync_of(l);
  if (s.owner == cur->id) { s.owner = -1; s.vc.join(cur->vc); }
  else if (s.readers[cur->id]) { --s.readers[cur->id]; s.vc.join(cur->vc); }
  else violation("bad-unlock", "rwlock unlocked by a thread that does not hold it");
  ++cur->vc.c[cur->id];
  return 0;
}
// ---- spin locks
int pthread_spin_init(pthread_spinlock_t *l, int) { *(volatile int *)l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l)
{
  if (!on()) return 0;
  Rt g;
  point("spin lock", (void *)l);
  block_on("spin lock", (void *)l, [l] { return sync_of((void *)l).owner < 0; });
  sync_of((void *)l).owner = cur->id;
  acquire((void *)l);
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t *l)
{
  if (!on()) return 0;
  Rt g;
  point("spin lock", (void *)l);
  if (sync_of((void *)l).owner >= 0) return EBUSY;
  sync_of((void *)l).owner = cur->id;
  acquire((void *)l);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!on()) return 0; Rt g; sync_of((void *)l).owner = -1; release((void *)l); return 0; }

// ---- clocks
static int64_t clk_ns(clockid_t c)
{
  if (cfg.tick_us) now_ns += cfg.tick_us * 1000;
  return (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL0 : MONO0) + now_ns;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!active || !cur) return (int)raw(SYS_clock_gettime, c, (long)ts);
  Rt g;
  int64_t v = clk_ns(c);
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
  if (!active || !cur) { struct timespec ts; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  Rt g;
  int64_t v = clk_ns(CLOCK_REALTIME);
  tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *o)
{
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  if (o) *o = tv.tv_sec;
  return tv.tv_sec;
}
int nanosleep(const struct timespec *r, struct timespec *)
{
  if (!on()) return (int)raw(SYS_nanosleep, (long)r, 0);
  sleep_us(r->tv_sec * 1000000ll + r->tv_nsec / 1000);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *)
{
  if (!on()) return 0;
  int64_t v = r->tv_sec * 1000000000ll + r->tv_nsec;
  if (fl & TIMER_ABSTIME) v -= (c == CLOCK_REALTIME ? REAL0 : MONO0) + now_ns;
  if (v > 0) sleep_us(v / 1000);
  return 0;
}
int usleep(useconds_t u) { if (!on()) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; raw(SYS_nanosleep, (long)&ts, 0); return 0; } sleep_us(u); return 0; }
unsigned sleep(unsigned s) { if (!on()) { struct timespec ts = {(time_t)s, 0}; raw(SYS_nanosleep, (long)&ts, 0); return 0; } sleep_us(s * 1000000ll); return 0; }

pid_t gettid() { if (active && cur) return 1000 + cur->id; return (pid_t)raw(SYS_gettid); }
pid_t getpid() { if (active && cur) return 1000; return (pid_t)raw(SYS_getpid); }
long syscall(long n, ...)
{
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && cur && n == SYS_gettid) return 1000 + cur->id;
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
} // extern "C"

void *operator new(size_t n) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

namespace kmc {
pthread_t (*real_self)();
void real_init()
{
  real_create = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
  real_self = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
}
}
int main(int argc, char **argv)
{
  kmc::real_init();
  kmc::mem_init();
  return kmc::drive(argc, argv);
}
