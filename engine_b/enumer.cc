#include "enumer.h"
#include <cstdarg>
#include <map>
#include <set>
#include <algorithm>
#include <atomic>
#include <new>
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0:strict_string_checks=0:symbolize=1:handle_abort=0:quarantine_size_mb=16"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }
#endif
namespace en {
static const int MAXC = 512, MAXW = 16, QN = 4096;
struct Dec { int alt, n; };
struct Slot {
  int len, base;          // decisions of the running case; first `base` are fixed
  Dec d[MAXC];
  int state;              // 0 idle 1 running
  int infail; char msg[2000]; char opname[400];
  uint64_t cases, nodes, steps, leaks;
  uint64_t seq;
  int slen; Dec sd[MAXC]; // a sample case
};
struct Pref { int len; Dec d[64]; };
struct Shm {
  pthread_mutex_t mu;
  int idle, workers, stop;
  int qn; Pref q[QN];
  Slot slot[MAXW];
};
static Shm *S;
static Slot *me;
static int pos, lastbase;
static bool trace_on;
static int bound;
static Fn curfn;
static std::vector<int> forced; static bool replaying;
static jmp_buf skipbuf;
static long blocks; static bool leakcheck;
static bool counting;
static std::string trace_text;

static void mhook(const volatile void *, size_t) { if (counting) ++blocks; }
static void fhook(const volatile void *p) { if (counting && p) --blocks; }
long live_blocks() { return blocks; }
void no_leak_check() { leakcheck = false; }
bool tracing() { return trace_on; }
int depth() { return bound; }

struct Skip {};
void skip() { throw Skip(); }
int ch(int n)
{
  if (n <= 1) return 0;
  if (pos >= MAXC) fail("too many decisions in one case");
  if (pos < me->len) {
    if (me->d[pos].n > n && !(pos < me->base)) { /* trimmed by a split: keep */ }
    if (me->d[pos].alt >= n) fail("engine: decision %d out of range (%d of %d): nondeterministic case", pos, me->d[pos].alt, n);
    return me->d[pos++].alt;
  }
  if (replaying) { me->d[pos].alt = pos < (int)forced.size() ? forced[pos] : 0; if (me->d[pos].alt >= n) fail("replay: decision %d out of range", pos); }
  else me->d[pos].alt = 0;
  me->d[pos].n = n;
  me->len = pos + 1;
  ++me->nodes;
  return me->d[pos++].alt;
}
void step() { ++me->steps; }
void op(const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  vsnprintf(me->opname, sizeof me->opname, fmt, ap);
  va_end(ap);
  ++me->steps;
  if (trace_on) { fprintf(stderr, "  op: %s\n", me->opname); }
}
void fail(const char *fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  vsnprintf(me->msg, sizeof me->msg, fmt, ap);
  va_end(ap);
  me->infail = 1;
  if (trace_on) fprintf(stderr, "FAILED: %s\n", me->msg);
  _exit(76);
}
std::string esc(const std::string &s)
{
  std::string o; char b[8];
  for (unsigned char c : s.substr(0, 120)) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
  if (s.size() > 120) o += "...";
  return o;
}
struct R { const char *prop, *name; Fn fn; int q, t; };
static std::vector<R> &regs() { static std::vector<R> r; return r; }
Reg::Reg(const char *p, const char *n, Fn f, int q, int t) { regs().push_back(R{p, n, f, q, t}); }

static void run_case()
{
  pos = 0; me->infail = 0; me->msg[0] = 0; me->opname[0] = 0;
  leakcheck = true; blocks = 0;
  counting = true;
  try { curfn(); } catch (Skip) {}
  catch (std::exception &e) { counting = false; fail("exception escapes: %s", e.what()); }
  counting = false;
  long left = blocks;
  if (left > 0 && leakcheck) {
    // static caches fill once: judge by a second run of the same case
    pos = 0; blocks = 0; counting = true;
    try { curfn(); } catch (Skip) {}
    counting = false;
    if (blocks > 0 && leakcheck) { snprintf(me->msg, sizeof me->msg, "leak: %ld blocks never freed (last step: %s)", blocks, me->opname); me->infail = 1; if (trace_on) fprintf(stderr, "FAILED: %s\n", me->msg); _exit(76); }
  }
  if (pos < me->len) { me->len = pos; }
  ++me->cases; ++me->seq;
  if ((me->cases & (me->cases - 1)) == 0 || me->len > me->slen) { me->slen = me->len; memcpy(me->sd, me->d, sizeof(Dec) * me->len); }
}
// advances to the next decision vector; false when the subtree is done
static bool advance()
{
  while (me->len > me->base) {
    Dec &d = me->d[me->len - 1];
    if (d.alt + 1 < d.n) { ++d.alt; return true; }
    --me->len;
  }
  return false;
}
static void split()
{
  // offers the untried alternatives of the shallowest open decision
  for (int i = me->base; i < me->len && i < 63; ++i) {
    Dec &d = me->d[i];
    if (d.alt + 1 < d.n) {
      pthread_mutex_lock(&S->mu);
      int from = d.alt + 1;
      // one prefix per alternative, as far as the queue has room
      int k = 0;
      for (int a = d.n - 1; a >= from && S->qn < QN; --a, ++k) {
        Pref &p = S->q[S->qn++];
        p.len = i + 1;
        memcpy(p.d, me->d, sizeof(Dec) * (i + 1));
        p.d[i].alt = a;
      }
      d.n -= k;
      pthread_mutex_unlock(&S->mu);
      return;
    }
  }
}
static uint64_t lastseq; static int stuck;
static void on_tick(int)
{
  if (me->state == 1 && me->seq == lastseq) {
    if (++stuck >= 10) { me->infail = 1; snprintf(me->msg, sizeof me->msg, "hang: the step never ends (%s)", me->opname); _exit(76); }
  } else { stuck = 0; lastseq = me->seq; }
}
static void tick_on()
{
  signal(SIGVTALRM, on_tick);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_interval.tv_usec = it.it_value.tv_usec = 300000;
  setitimer(ITIMER_VIRTUAL, &it, 0);
}
static void worker(int w, bool resume)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  me = &S->slot[w];
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  tick_on();
  char path[64]; snprintf(path, sizeof path, "/proc/self/fd/2");
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
  bool have = false;
  if (resume && me->state == 1) have = advance();
  for (;;) {
    if (!have) {
      me->state = 0;
      bool was = false;
      pthread_mutex_lock(&S->mu);
      ++S->idle;
      for (;;) {
        if (S->stop || (S->qn == 0 && S->idle == S->workers)) { pthread_mutex_unlock(&S->mu); return; }
        if (S->qn) break;
        pthread_mutex_unlock(&S->mu); usleep(500); pthread_mutex_lock(&S->mu);
      }
      (void)was;
      --S->idle;
      Pref p = S->q[--S->qn];
      me->base = me->len = p.len;
      memcpy(me->d, p.d, sizeof(Dec) * p.len);
      me->state = 1;
      pthread_mutex_unlock(&S->mu);
      have = true;
    }
    run_case();
    if (S->stop) return;
    have = advance();
    if (have && S->idle && S->qn < 4) split();
  }
}
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jstr(const std::string &s)
{
  std::string o = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
struct Viol { std::string sig, msg, choices; long count; bool known; };
static std::string last_lines(const std::string &file, std::string &sig)
{
  std::string t; if (FILE *f = fopen(file.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && t.size() < 200000) t.append(b, n); fclose(f); }
  size_t p = t.find("ERROR: AddressSanitizer: ");
  size_t q = t.find("runtime error: ");
  size_t a = t.find("Assertion");
  auto frame = [&](size_t from) {
    // first frame inside kanon
    size_t l = from; int seen = 0;
    while (l < t.size() && seen < 40) {
      size_t e = t.find('\n', l); if (e == std::string::npos) e = t.size();
      std::string line = t.substr(l, e - l);
      size_t h = line.find("#");
      if (h != std::string::npos && line.find(" in ") != std::string::npos) {
        ++seen;
        if (line.find("/kanon/") != std::string::npos) { size_t i = line.find(" in ") + 4; size_t s = line.find(" /", i); return line.substr(i, s - i); }
      }
      l = e + 1;
    }
    return std::string();
  };
  if (p != std::string::npos) { size_t e = t.find_first_of(" \n", p + 25); sig = t.substr(p + 7, e - p - 7) + " " + frame(p); return t.substr(p, 2500); }
  if (q != std::string::npos) { size_t b = t.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1; size_t e = t.find('\n', q); std::string what = t.substr(q, e - q); for (char &c : what) if (c >= '0' && c <= '9') c = '0'; sig = "ubsan " + what + " " + frame(q); return t.substr(b, 1500); }
  if (a != std::string::npos) { size_t b = t.rfind('\n', a); b = b == std::string::npos ? 0 : b + 1; size_t e = t.find('\n', a); sig = t.substr(a, e - a); return t.substr(b, 800); }
  sig = "";
  return t.size() > 600 ? t.substr(t.size() - 600) : t;
}
static std::string tmpdir;
static std::string choices_of(const Slot *s, int n) { std::string c; for (int i = 0; i < n; ++i) c += (i ? "," : "") + std::to_string(s->d[i].alt); return c.empty() ? "-" : c; }

// one case in a child, with its text
static int replay_case(const R &r, const std::string &choices, std::string &sig, std::string &msg, bool show)
{
  forced.clear();
  if (choices != "-") { size_t i = 0; while (i < choices.size()) { forced.push_back(atoi(choices.c_str() + i)); i = choices.find(',', i); if (i == std::string::npos) break; ++i; } }
  std::string f = tmpdir + "/replay";
  Slot *s = &S->slot[0];
  s->len = s->base = 0; s->infail = 0; s->msg[0] = 0; s->opname[0] = 0; s->state = 1; s->seq = 0;
  pid_t p = fork();
  if (p == 0) {
    if (!show) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 2); dup2(fd, 1); }
    me = s; curfn = r.fn; replaying = true; trace_on = true;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    tick_on();
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
    run_case();
    _exit(0);
  }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  std::string text = show ? "" : last_lines(f, sig);
  if (s->infail) { sig = s->msg; for (char &c : sig) if (c >= '0' && c <= '9') c = '0'; size_t k = sig.find('|'); if (k != std::string::npos) sig.resize(k); if (sig.size() > 160) sig.resize(160); msg = s->msg; }
  else { msg = text; if (sig.empty()) { char b[64]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "process ended with %d", WEXITSTATUS(st)); sig = b; } }
  // the operations that lead there
  if (!show) {
    std::string t; if (FILE *fp = fopen(f.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && t.size() < 100000) t.append(b, n); fclose(fp); }
    std::string ops; size_t l = 0;
    while (l < t.size()) { size_t e = t.find('\n', l); if (e == std::string::npos) e = t.size(); std::string line = t.substr(l, e - l); if (line.compare(0, 6, "  op: ") == 0) ops += "\n  " + line.substr(6); l = e + 1; }
    msg += "\nsteps:" + ops;
  }
  return 1;
}
} // namespace en
using namespace en;
int main(int argc, char **argv)
{
  std::string prop, scen, out, rep; bool thorough = false, list = false; double limit = 1e9; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN), delta = 0; std::string knownf;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = v(); else if (a == "--scen") scen = v(); else if (a == "--tier") thorough = v() == "thorough";
    else if (a == "--limit") limit = atof(v().c_str()); else if (a == "--workers") workers = atoi(v().c_str());
    else if (a == "--bound") delta = atoi(v().c_str()); else if (a == "--out") out = v(); else if (a == "--replay") rep = v();
    else if (a == "--known") knownf = v(); else if (a == "--list") list = true;
  }
  if (workers > MAXW) workers = MAXW;
  if (workers < 1) workers = 1;
  std::vector<std::string> known;
  if (!knownf.empty()) if (FILE *f = fopen(knownf.c_str(), "r")) { char b[1000]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) known.push_back(b); } fclose(f); }
  S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  { pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&S->mu, &at); }
  char td[] = "/tmp/enumer.XXXXXX"; if (!mkdtemp(td)) { perror("mkdtemp"); return 2; } tmpdir = td;
  struct Clean { ~Clean() { std::string c = tmpdir; unlink((c + "/replay").c_str()); for (int i = 0; i < MAXW; ++i) unlink((c + "/w" + std::to_string(i)).c_str()); rmdir(c.c_str()); } };
  static Clean *clean = new Clean;
  std::string js = "{\"scenarios\":[\n"; bool first = true; bool bad = false;
  double t_end = mono() + limit;
  int nsel = 0; for (auto &r : regs()) if ((prop.empty() || prop == r.prop) && (scen.empty() || scen == r.name)) ++nsel;
  int idx = 0;
  for (auto &r : regs()) {
    if (!prop.empty() && prop != r.prop) continue;
    if (!scen.empty() && scen != r.name) continue;
    if (list) { printf("%s %s %d %d\n", r.prop, r.name, r.q, r.t); continue; }
    bound = (thorough ? r.t : r.q) + delta;
    if (!rep.empty()) { std::string sig, msg; int rc = replay_case(r, rep, sig, msg, true); printf("%s: %s\n", r.name, rc ? "VIOLATED" : "holds"); if (rc) printf("%s\n%s\n", sig.c_str(), msg.c_str()); delete clean; return rc; }
    double t0 = mono(), left = t_end - t0; double share = left / (nsel - idx); ++idx;
    if (left > 0 && share < left * 0.5) share = left * 0.5;
    memset((void *)&S->idle, 0, sizeof(Shm) - offsetof(Shm, idle));
    S->workers = workers; S->idle = 0; S->stop = 0; S->qn = 1; S->q[0].len = 0;
    curfn = r.fn;
    std::vector<pid_t> pids(workers);
    auto start = [&](int w, bool resume) {
      fflush(0);
      pid_t p = fork();
      if (p == 0) { std::string f = tmpdir + "/w" + std::to_string(w); int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600); dup2(fd, 2); dup2(fd, 1); close(fd); worker(w, resume); _exit(0); }
      pids[w] = p;
    };
    for (int w = 0; w < workers; ++w) start(w, false);
    std::map<std::string, Viol> vs; long crashes = 0, unknown = 0; bool complete = true;
    int livew = workers;
    struct Pend { std::string sig, msg, choices; }; std::vector<Pend> pend;
    while (livew) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p == 0) { if (mono() > t0 + share && !S->stop) { S->stop = 1; complete = false; } 
        if (mono() > t0 + share + 20) { for (int w = 0; w < workers; ++w) if (pids[w]) kill(pids[w], SIGKILL); }
        usleep(1000); continue; }
      if (p < 0) break;
      int w = -1; for (int i = 0; i < workers; ++i) if (pids[i] == p) w = i;
      if (w < 0) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pids[w] = 0; --livew; continue; }
      Slot *s = &S->slot[w];
      std::string sig, text = last_lines(tmpdir + "/w" + std::to_string(w), sig);
      if (s->infail) { sig = s->msg; for (char &c : sig) if (c >= '0' && c <= '9') c = '0'; size_t k = sig.find('|'); if (k != std::string::npos) sig.resize(k); if (sig.size() > 160) sig.resize(160); text = s->msg; }
      else if (sig.empty()) { char b[64]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "process ended with %d", WEXITSTATUS(st)); sig = b; }
      { bool kn = false; for (auto &k : known) if (sig.find(k) != std::string::npos || (std::string(r.name) + ":" + sig).find(k) != std::string::npos) kn = true; if (!kn) ++unknown; }
      ++crashes;
      auto it = vs.find(sig);
      std::string cs = choices_of(s, s->len);
      if (it == vs.end()) vs[sig] = Viol{sig, text, cs, 1, false};
      else { ++it->second.count; if (cs.size() < it->second.choices.size()) { it->second.choices = cs; it->second.msg = text; } }
      ++s->cases; ++s->seq;
      if ((crashes > 20000 || unknown > 300) && !S->stop) { S->stop = 1; complete = false; }
      if (S->stop) { pids[w] = 0; --livew; } else start(w, true);
    }
    uint64_t cases = 0, nodes = 0, steps = 0;
    for (int w = 0; w < workers; ++w) { cases += S->slot[w].cases; nodes += S->slot[w].nodes; steps += S->slot[w].steps; }
    js += first ? "" : ",\n"; first = false;
    char b[512];
    std::string seenk;
    std::string vj; bool fv = true;
    for (auto &kv : vs) {
      Viol &v = kv.second; v.known = false;
      for (auto &k : known) if (v.sig.find(k) != std::string::npos || (std::string(r.name) + ":" + v.sig).find(k) != std::string::npos) { v.known = true; seenk += (seenk.empty() ? "" : "\n") + k; }
      if (!v.known) {
        bad = true;
        std::string sg, mg;
        int rc = replay_case(r, v.choices, sg, mg, false);
        v.msg = rc ? mg : v.msg + "\n(not reproduced in isolation)";
      }
      vj += std::string(fv ? "" : ",") + "{\"sig\":" + jstr(v.sig) + ",\"known\":" + (v.known ? "true" : "false") + ",\"count\":" + std::to_string(v.count) + ",\"choices\":" + jstr(v.choices) + ",\"msg\":" + jstr(v.msg) + "}";
      fv = false;
    }
    snprintf(b, sizeof b, "{\"name\":\"%s\",\"prop\":\"%s\",\"bound\":%d,\"complete\":%s,\"executions\":%lu,\"nodes\":%lu,\"steps\":%lu,\"outcomes\":1,\"diverged\":0,\"unstable\":0,\"wall\":%.2f,\"levels\":[],", r.name, r.prop, bound, complete ? "true" : "false", (unsigned long)cases, (unsigned long)nodes, (unsigned long)steps, mono() - t0);
    js += b;
    { int best = 0; for (int w = 0; w < workers; ++w) if (S->slot[w].slen >= S->slot[best].slen) best = w;
      std::string c; for (int i = 0; i < S->slot[best].slen; ++i) c += (i ? "," : "") + std::to_string(S->slot[best].sd[i].alt);
      js += "\"sample\":" + jstr(c.empty() ? "-" : c) + ","; }
    js += "\"known\":" + jstr(seenk) + ",\"violations\":[" + vj + "]}";
  }
  js += "\n]}\n";
  delete clean;
  if (list) return 0;
  if (out.empty()) fputs(js.c_str(), stdout);
  else if (FILE *f = fopen(out.c_str(), "w")) { fputs(js.c_str(), f); fclose(f); }
  return bad ? 1 : 0;
}
