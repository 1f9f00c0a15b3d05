// P21, P22: the asynchronous log and the log files, over a file system in memory.
#include "kmc.h"
#include "kmc_int.h"
#include "kanon/util/macro.h"
#include "kanon/log/async_log.h"
#include "kanon/log/log_file.h"
#include "kanon/log/append_file.h"
#include "kanon/process/process_info.h"
#include <dlfcn.h>
#include <errno.h>
#include <memory>
#include <set>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
using namespace kanon;
// ---- the files. The harness keeps them outside of the explored memory.
struct File { std::string name, data; int64_t born_us; bool removed, open; };
struct Dir { std::string name; unsigned mode; };
static std::vector<File> *files; static std::vector<Dir> *dirs; static long generation; static int opens, removes;
struct Cookie { long gen; size_t file; };
static bool two_files;
static bool mine() { return kmc::cur && kmc::active && !kmc::in_rt; }
static ssize_t c_write(void *k, const char *p, size_t n)
{
  kmc::Rt g;
  Cookie *c = (Cookie *)k;
  if (c->gen == generation) (*files)[c->file].data.append(p, n);
  return (ssize_t)n;
}
static int c_close(void *k)
{
  kmc::Rt g;
  Cookie *c = (Cookie *)k;
  if (c->gen == generation) (*files)[c->file].open = false;
  delete c;
  return 0;
}
static File *find(const char *name)
{
  for (auto &f : *files) if (!f.removed && f.name == name) return &f;
  return nullptr;
}
extern "C" {
FILE *fopen(const char *path, const char *mode)
{
  if (!mine()) { static auto real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen"); return real(path, mode); }
  kmc::yield_point();
  kmc::Rt g;
  std::string p = path, d;
  if (mode[0] != 'a') kmc::fail("a log file is opened with mode %s, what it held is lost", mode);
  size_t s = p.rfind('/');
  if (s != std::string::npos) {
    d = p.substr(0, s);
    Dir *dir = nullptr;
    for (auto &x : *dirs) if (x.name == d) dir = &x;
    if (!dir) { errno = ENOENT; return nullptr; }
    if ((dir->mode & 0300) != 0300) { errno = EACCES; return nullptr; } // the owner isn't root
  }
  File *f = find(path);
  if (!f) { files->push_back(File{p, "", kmc::now_us(), false, false}); f = &files->back(); }
  f->open = true; ++opens;
  cookie_io_functions_t io = {nullptr, c_write, nullptr, c_close};
  return fopencookie(new Cookie{generation, (size_t)(f - &(*files)[0])}, mode, io);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int mkdir(const char *path, mode_t mode)
{
  if (!mine()) { static auto real = (int (*)(const char *, mode_t))dlsym(RTLD_NEXT, "mkdir"); return real(path, mode); }
  kmc::yield_point();
  kmc::Rt g;
  std::string p = path;
  while (p.size() > 1 && p.back() == '/') p.pop_back();
  for (auto &x : *dirs) if (x.name == p) { errno = EEXIST; return -1; }
  size_t s = p.rfind('/');
  if (s != std::string::npos && s > 0) {
    bool found = false;
    for (auto &x : *dirs) if (x.name == p.substr(0, s)) found = true;
    if (!found) { errno = ENOENT; return -1; }
  }
  dirs->push_back(Dir{p, mode & ~022u & 07777u});
  return 0;
}
// localtime() has one result for all threads, filled field by field.
struct tm *localtime(const time_t *t)
{
  if (!mine()) { static auto real = (struct tm *(*)(const time_t *))dlsym(RTLD_NEXT, "localtime"); return real(t); }
  static struct tm shared;
  { kmc::Rt g; struct tm tm; gmtime_r(t, &tm); shared.tm_sec = tm.tm_sec; }
  if (two_files) kmc::yield_point();
  kmc::Rt g;
  gmtime_r(t, &shared);
  return &shared;
}
size_t strftime(char *s, size_t max, const char *format, const struct tm *tm)
{
  static auto real = (size_t (*)(char *, size_t, const char *, const struct tm *))dlsym(RTLD_NEXT, "strftime");
  if (mine() && two_files) kmc::yield_point();
  kmc::Rt g;
  return real(s, max, format, tm);
}
static int take_away(const char *path)
{
  kmc::yield_point();
  kmc::Rt g;
  ++removes;
  if (!path || !*path) kmc::fail("a file without name is removed");
  File *f = find(path);
  if (!f) kmc::fail("a file that doesn't exist is removed: %s", path);
  if (f == &files->back()) kmc::fail("the newest log file is removed");
  if (f->open) kmc::fail("an open log file is removed");
  for (auto &x : *files) if (&x < f && !x.removed) kmc::fail("a log file is removed while an older one remains");
  f->removed = true;
  return 0;
}
int remove(const char *path)
{
  if (!mine()) { static auto real = (int (*)(const char *))dlsym(RTLD_NEXT, "remove"); return real(path); }
  return take_away(path);
}
int unlink(const char *path)
{
  if (!mine()) { static auto real = (int (*)(const char *))dlsym(RTLD_NEXT, "unlink"); return real(path); }
  return take_away(path);
}
}
static void fresh()
{
  kmc::Rt g;
  ++generation; opens = removes = 0; two_files = false;
  if (!files) { files = new std::vector<File>; dirs = new std::vector<Dir>; setenv("TZ", "UTC0", 1); tzset(); }
  files->clear(); dirs->clear();
  files->reserve(64);
}
static std::string all() { std::string s; for (auto &f : *files) s += f.data; return s; }
static size_t count() { kmc::Rt g; return files->size(); }
static size_t remaining() { size_t n = 0; for (auto &f : *files) n += !f.removed; return n; }
// A record is "<producer.number|fill>\n".
static std::string record(int who, int i, size_t len)
{
  char h[40];
  snprintf(h, sizeof h, "<%d.%d|", who, i);
  std::string s = h;
  if (s.size() + 2 < len) s.append(len - 2 - s.size(), char('a' + (who * 7 + i) % 26));
  s += ">\n";
  return s;
}
// Whole records, in the order of their producer, none twice. Fills `got` with the numbers of each producer.
static void parse(const std::string &text, std::vector<std::vector<int>> &got, bool discards = false)
{
  size_t i = 0;
  got.assign(4, std::vector<int>());
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == std::string::npos) kmc::fail("the last record in the log is broken: %s", text.substr(i, 60).c_str());
    std::string line = text.substr(i, e - i + 1);
    i = e + 1;
    int who, n;
    if (discards && line.compare(0, 8, "Discard ") == 0) continue;
    if (sscanf(line.c_str(), "<%d.%d|", &who, &n) != 2 || who < 0 || who > 3 || line != record(who, n, line.size()))
      kmc::fail("a record in the log is broken: %s", line.substr(0, 60).c_str());
    if (!got[who].empty() && got[who].back() == n) kmc::fail("a record is written twice");
    if (!got[who].empty() && got[who].back() > n) kmc::fail("records of a thread are out of order");
    got[who].push_back(n);
  }
}
// Each file alone holds whole records.
static void parse_files(std::vector<std::vector<int>> &got, bool discards = false)
{
  for (auto &f : *files) parse(f.data, got, discards);
  parse(all(), got, discards);
}
static void exactly(int who, int n, const std::vector<std::vector<int>> &got, const char *what)
{
  for (int i = 0; i < n; ++i)
    if ((int)got[who].size() <= i || got[who][i] != i) kmc::fail("%s", what);
  if ((int)got[who].size() > n) kmc::fail("there is a record that nobody appended");
}
static void names(const char *prefix, const char *base, bool others = false)
{
  std::set<std::string> seen;
  for (auto &f : *files) {
    if (others && f.name.compare(0, strlen(prefix) + strlen(base), std::string(prefix) + base) != 0) continue;
    time_t t = (time_t)((kmc::realtime_us() - kmc::now_us() + f.born_us) / 1000000);
    struct tm tm; char b[64];
    gmtime_r(&t, &tm);
    strftime(b, sizeof b, ".%Y%m%d-%H%M%S.", &tm);
    std::string host = std::to_string((long)process::Pid()) + "." + std::string(process::Hostname().data()) + ".log", want = std::string(prefix) + base + b + host;
    for (int late = 0; f.name != want && late < 10; ++late) { // the clock may move on before the file is there
      --t; gmtime_r(&t, &tm); strftime(b, sizeof b, ".%Y%m%d-%H%M%S.", &tm);
      if (f.name == std::string(prefix) + base + b + host) want = f.name;
    }
    if (f.name != want) kmc::fail("a log file has a wrong name: %s, expected %s", f.name.c_str(), want.c_str());
    if (!seen.insert(f.name).second) kmc::fail("two log files have the same name");
  }
}
// Some thing about the files that a scenario looks at while threads run.
template <class F> static void look(F f) { kmc::Rt g; f(); }

// ==== P21
static const size_t BUF = 256; // -DKANON_VERIF_LARGE_STREAM_SIZE
static_assert(kLargeStreamSize == 256, "the size of the buffers");
typedef std::unique_ptr<AsyncLog> Log;
static void put(AsyncLog &l, int who, int i, size_t len) { std::string r = record(who, i, len); l.Append(r.data(), r.size()); }
static void ended(Log &l, bool by_stop)
{
  if (by_stop) l->Stop();
  l.reset();
  kmc::check(kmc::live_threads() == 0, "a stopped log leaves a thread behind");
}
static void whole_log(int n0, int n1, const char *what)
{
  look([=] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    exactly(0, n0, got, what); exactly(1, n1, got, what);
    names("", "app");
  });
}
// sizes around the end of a buffer
KMC_SCENARIO("P21", async_sizes, (0, 1, 1))
{
  fresh();
  static const size_t LEN[] = {8, 60, 127, 128, 129, 254, 255};
  int n = kmc::choose(5, 0, "records"), by_stop = kmc::choose(2, 0, "stop");
  size_t len[4];
  for (int i = 0; i < n; ++i) len[i] = LEN[kmc::choose(7, 0, "length")];
  Log l(new AsyncLog("app", 1 << 20));
  l->StartRun();
  for (int i = 0; i < n; ++i) put(*l, 0, i, len[i]);
  ended(l, by_stop);
  whole_log(n, 0, "a record before the stop isn't in the log");
}
// records before the start, one thread against the back end
KMC_SCENARIO("P21", async_stop, (kmc::F_SPURIOUS | kmc::F_TIME, 3, 5))
{
  fresh();
  int early = 3 * kmc::choose(2, 0, "records before the start"), n = (int[]){3, 0, 1, 5}[kmc::choose(4, 0, "records")], by_stop = kmc::choose(2, 0, "stop");
  Log l(new AsyncLog("app", 1 << 20));
  for (int i = 0; i < early; ++i) put(*l, 0, i, 100);
  l->StartRun();
  for (int i = 0; i < n; ++i) put(*l, 0, early + i, 100);
  ended(l, by_stop);
  whole_log(early + n, 0, "a record before the stop isn't in the log");
}
static void producers(int n, size_t len, size_t flush)
{
  fresh();
  Log l(new AsyncLog("app", 1 << 20, "", UINT_MAX, 86400, flush));
  l->StartRun();
  AsyncLog *p = l.get();
  for (int who = 0; who < 2; ++who)
    kmc::spawn([p, who, n, len] { for (int i = 0; i < n; ++i) put(*p, who, i, len); });
  kmc::join_all();
  ended(l, false);
  whole_log(n, n, "a record before the stop isn't in the log");
}
KMC_SCENARIO("P21", async_two, (kmc::F_TIME, 3, 5)) { producers(2, 100, 3); }
KMC_SCENARIO("P21", async_two_many, (0, 3, 5)) { producers(4, 120, 3); }
KMC_SCENARIO("P21", async_two_full, (kmc::F_SPURIOUS, 3, 5)) { producers(3, 200, 1); }
// somebody stops the log while others use it
KMC_SCENARIO("P21", async_race_stop, (kmc::F_TIME, 4, 6))
{
  fresh();
  Log l(new AsyncLog("app", 1 << 20));
  l->StartRun();
  AsyncLog *p = l.get();
  kmc::Counter done;
  kmc::spawn([p, done] { for (int i = 0; i < 4; ++i) { put(*p, 0, i, 120); done.add(); } });
  long before = done.get();
  l->Stop();
  kmc::join_all();
  l.reset();
  kmc::check(kmc::live_threads() == 0, "a stopped log leaves a thread behind");
  look([=] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    if ((long)got[0].size() < before) kmc::fail("a record before the stop isn't in the log");
    exactly(0, (int)got[0].size(), got, "a record is missing before others of the same thread");
  });
}
// a record is in the file after the flush interval
KMC_SCENARIO("P21", async_timed, (kmc::F_SPURIOUS, 2, 4))
{
  fresh();
  int flush = 1 + kmc::choose(3, 0, "interval"), rounds = 1 + kmc::choose(2, 0, "rounds");
  Log l(new AsyncLog("app", 1 << 20, "", UINT_MAX, 86400, (size_t)flush));
  l->StartRun();
  int n = 0;
  for (int r = 0; r < rounds; ++r) {
    int k = 1 + kmc::choose(3, 0, "records");
    for (int i = 0; i < k; ++i) put(*l, 0, n++, 120);
    kmc::sleep_us(flush * 1000000ll + 1000);
    kmc::wait_idle();
    look([=] {
      std::vector<std::vector<int>> got;
      parse_files(got);
      exactly(0, n, got, "a record isn't in the file after the flush interval");
    });
  }
  ended(l, kmc::choose(2, 0, "stop"));
  whole_log(n, 0, "a record before the stop isn't in the log");
}
// more buffers than are kept: the oldest 16 are written, and the number of the others
KMC_SCENARIO("P21", async_overload, (0, 2, 3))
{
  fresh();
  int n = 14 + kmc::choose(10, 0, "buffers");
  Log l(new AsyncLog("app", 1 << 20));
  for (int i = 0; i < n; ++i) put(*l, 0, i, 200); // one in each buffer
  l->StartRun();
  int more = kmc::choose(2, 0, "more");
  kmc::wait_idle();
  if (more) put(*l, 0, n, 200);
  ended(l, true);
  look([=] {
    std::vector<std::vector<int>> got;
    parse_files(got, true);
    int kept = n > 16 ? 16 : n;
    if ((int)got[0].size() != kept + more) kmc::fail("%d of %d buffers are written, expected %d", (int)got[0].size(), n + more, kept + more);
    for (int i = 0; i < kept; ++i) if (got[0][i] != i) kmc::fail("another buffer than the latest ones is discarded");
    if (more && got[0][kept] != n) kmc::fail("a record after the discard isn't in the log");
    std::string text = all();
    size_t at = text.find("Discard ");
    if ((at != std::string::npos) != (n > 16)) kmc::fail(n > 16 ? "the discard isn't noted in the log" : "a discard is noted though nothing is discarded");
    if (n > 16 && atoi(text.c_str() + at + 8) != n - 16) kmc::fail("the discard in the log is wrong: %s", text.substr(at, 40).c_str());
  });
}
// through rolled and removed files
KMC_SCENARIO("P21", async_roll, (kmc::F_TIME, 2, 4))
{
  fresh();
  Log l(new AsyncLog("app", 100, "dir", 2, 86400, 1));
  l->StartRun();
  AsyncLog *p = l.get();
  for (int who = 0; who < 2; ++who)
    kmc::spawn([p, who] {
      for (int i = 0; i < 2; ++i) { put(*p, who, i, 130); kmc::sleep_us(1100000); }
    });
  kmc::join_all();
  ended(l, true);
  look([=] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    exactly(0, 2, got, "a record before the stop isn't in the log"); exactly(1, 2, got, "a record before the stop isn't in the log");
    names("dir/", "app");
    if (files->back().removed || remaining() > 1) kmc::fail("%zu files remain", remaining());
  });
}
// records through Logger
static AsyncLog *g_al;
KMC_SCENARIO("P21", async_logger, (kmc::F_TIME, 3, 5))
{
  fresh();
  Log l(new AsyncLog("app", 1 << 20, "", UINT_MAX, 86400, 1));
  g_al = l.get();
  auto out = Logger::GetOutputCallback(); auto flush = Logger::GetFlushCallback();
  Logger::SetOutputCallback([](char const *d, size_t n) { g_al->Append(d, n); });
  Logger::SetFlushCallback([] { g_al->Flush(); });
  l->StartRun();
  for (int who = 0; who < 2; ++who)
    kmc::spawn([who] { for (int i = 0; i < 2; ++i) LOG_INFO << "msg" << who << "." << i; });
  kmc::join_all();
  ended(l, true);
  Logger::SetOutputCallback(out); Logger::SetFlushCallback(flush);
  look([] {
    std::string text = all();
    size_t at = 0; int lines = 0, next[2] = {0, 0};
    while (at < text.size()) {
      size_t e = text.find('\n', at);
      if (e == std::string::npos) kmc::fail("the last record in the log is broken: %s", text.substr(at).c_str());
      std::string line = text.substr(at, e - at);
      at = e + 1; ++lines;
      size_t m = line.find("[INFO] msg"), s = line.find(" - sc_log.cc:");
      if (m == std::string::npos || s != m + 13) kmc::fail("a record in the log is broken: %s", line.c_str());
      int who = line[m + 10] - '0', i = line[m + 12] - '0';
      if (who < 0 || who > 1 || i != next[who]++) kmc::fail("records of a thread are out of order or twice");
    }
    if (lines != 4) kmc::fail("%d of 4 records are in the log", lines);
  });
}

// ==== P22
static const size_t NUMS[] = {UINT_MAX, 1, 2, 3, 0};
struct Watch { // what the rolling must and must not do
  size_t roll, interval, flush, num; std::vector<std::string> lines; std::vector<int64_t> sec; int64_t seen;
};
static int64_t sec_now() { return kmc::realtime_us() / 1000000; }
// every record whole, in order, in files that roll when they have to and only then
static void rolled(const Watch &w, bool closed)
{
  std::string want;
  for (auto &x : w.lines) want += x;
  std::string text = all();
  if (closed && text != want) kmc::fail("the log files hold other records than were appended, %zu of %zu bytes", text.size(), want.size());
  if (want.compare(0, text.size(), text) != 0) kmc::fail("the log files hold something that wasn't appended");
  if (!closed) return;
  size_t r = 0;
  int64_t off = (kmc::realtime_us() - kmc::now_us());
  for (size_t k = 0; k < files->size(); ++k) {
    File &f = (*files)[k];
    size_t at = 0; int64_t born = (f.born_us + off) / 1000000;
    int late = 0; bool over_before = false; int64_t last = born;
    while (at < f.data.size()) {
      if (r >= w.lines.size() || f.data.compare(at, w.lines[r].size(), w.lines[r]) != 0) kmc::fail("a record is split over two log files");
      if (over_before && w.sec[r] > born) kmc::fail("a record is appended to a file beyond the roll size");
      at += w.lines[r].size();
      if (at > w.roll && w.sec[r] > born) over_before = true;
      late += w.sec[r] / (int64_t)w.interval > born / (int64_t)w.interval;
      if (late > 1) kmc::fail("records of a later period are appended to the old file");
      last = w.sec[r];
      ++r;
    }
    if (k + 1 < files->size()) {
      if (f.data.size() <= w.roll && last / (int64_t)w.interval <= born / (int64_t)w.interval) kmc::fail("a log file rolls though neither the size nor the period is over");
    }
  }
}
template <bool TS> static void file_sequences(int depth)
{
  fresh();
  const size_t ROLL[] = {1 << 20, 0, 2 * record(0, 0, 10).size(), 60}; // also filled to the last byte
  static const size_t IV[] = {86400, 1, 3};
  Watch w;
  { kmc::Rt g; w.lines.reserve(64); }
  w.roll = ROLL[kmc::choose(4, 0, "roll size")];
  w.interval = IV[kmc::choose(3, 0, "roll interval")];
  w.flush = (size_t)kmc::choose(2, 0, "flush interval") * 2;
  w.num = NUMS[kmc::choose(5, 0, "files")];
  bool dir = kmc::choose(2, 0, "prefix") == 1;
  kmc::advance_us(500000);
  w.seen = sec_now();
  std::unique_ptr<LogFile<TS>> lf(new LogFile<TS>("app", w.roll, dir ? "logs/" : "", w.num, w.interval, w.flush));
  int n = 0; bool rolls = false;
  for (int i = 0; i < depth; ++i) {
    int k = kmc::choose(6, 0, "step");
    size_t before = count();
    if (k == 0) break;
    if (k == 1) kmc::advance_us(1000000);
    else if (k == 2) kmc::advance_us(4000000);
    else if (k == 3) {
      lf->Flush();
      look([&] { std::string t = all(), want; for (auto &x : w.lines) want += x; if (t != want) kmc::fail("a flush leaves records in the buffer"); });
    } else {
      std::string r = record(0, n++, k == 4 ? 10 : 40);
      lf->Append(r.data(), r.size());
      look([&] {
        w.lines.push_back(r); w.sec.push_back(sec_now());
        rolled(w, false);
        std::string t = all(), want; for (auto &x : w.lines) want += x;
        if (t == want) w.seen = sec_now();
        else if (sec_now() - w.seen > (int64_t)w.flush) kmc::fail("records aren't flushed after the flush interval");
      });
    }
    if (count() != before) rolls = true;
  }
  (void)rolls;
  size_t open = 0;
  look([&] { for (auto &f : *files) open += f.open; });
  kmc::check(open == 1, "%zu log files are open", open);
  lf.reset();
  kmc::check(kmc::live_threads() == 0, "a closed log file leaves a thread behind");
  look([&] {
    rolled(w, true);
    names(dir ? "logs/" : "", "app");
    if (files->back().removed) kmc::fail("the newest log file is removed");
    size_t most = w.num == UINT_MAX ? files->size() : w.num < 2 ? 1 : w.num - 1;
    if (remaining() > most) kmc::fail("%zu log files remain, at most %zu are wanted", remaining(), most);
    if (w.num == UINT_MAX && removes) kmc::fail("a log file is removed without a limit");
    if (files->size() < w.num && removes) kmc::fail("a log file is removed below the limit");
    for (auto &f : *files) if (f.open) kmc::fail("a log file stays open");
  });
}
KMC_SCENARIO("P22", file_plain, (0, 0, 0)) { file_sequences<false>(4); }
KMC_SCENARIO("P22", file_safe, (0, 0, 1)) { file_sequences<true>(3); }
// the removing thread against the one that appends
KMC_SCENARIO("P22", file_remove, (kmc::F_SPURIOUS, 3, 5))
{
  fresh();
  size_t num = NUMS[1 + kmc::choose(3, 0, "files")];
  int n = 2 + kmc::choose(3, 0, "records");
  std::unique_ptr<LogFile<>> lf(new LogFile<>("app", 5, "", num));
  for (int i = 0; i < n; ++i) {
    kmc::advance_us(1000000);
    std::string r = record(0, i, 20);
    lf->Append(r.data(), r.size());
  }
  if (kmc::choose(2, 0, "wait")) {
    kmc::wait_idle();
    look([&] { if (remaining() > (num < 2 ? 1 : num - 1)) kmc::fail("old log files aren't removed, %zu remain", remaining()); });
  }
  lf.reset();
  kmc::check(kmc::live_threads() == 0, "a closed log file leaves a thread behind");
  look([&] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    exactly(0, n, got, "a record isn't in the log files");
    if (remaining() > (num < 2 ? 1 : num - 1)) kmc::fail("old log files aren't removed, %zu remain", remaining());
    if ((int)files->size() != n + 1) kmc::fail("there are %zu log files after %d rolls", files->size(), n);
  });
}
// several threads append
static void appenders(size_t num, int n, bool flushes)
{
  fresh();
  std::unique_ptr<LogFile<true>> lf(new LogFile<true>("app", 30, "d", num, 86400, 1));
  LogFile<true> *p = lf.get();
  for (int who = 0; who < 2; ++who)
    kmc::spawn([p, who, n, flushes] {
      for (int i = 0; i < n; ++i) {
        std::string r = record(who, i, 25);
        p->Append(r.data(), r.size());
        if (flushes && who) p->Flush(); else kmc::advance_us(1000000);
      }
    });
  kmc::join_all();
  lf.reset();
  kmc::check(kmc::live_threads() == 0, "a closed log file leaves a thread behind");
  look([&] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    exactly(0, n, got, "a record isn't in the log files"); exactly(1, n, got, "a record isn't in the log files");
    names("d/", "app");
    if (num != UINT_MAX && remaining() > (num < 2 ? 1 : num - 1)) kmc::fail("old log files aren't removed, %zu remain", remaining());
  });
}
KMC_SCENARIO("P22", file_threads, (0, 4, 7)) { appenders(UINT_MAX, 2, true); }
KMC_SCENARIO("P22", file_threads_remove, (0, 3, 4)) { appenders(2, 3, false); }
// two log files in the same directory, each with a thread of its own
KMC_SCENARIO("P22", file_two, (0, 3, 6))
{
  fresh();
  { kmc::Rt g; two_files = true; }
  std::unique_ptr<LogFile<>> lf[2];
  int n = 1 + kmc::choose(2, 0, "records");
  kmc::advance_us(60000000 - kmc::realtime_us() % 60000000 - 1500000); // a minute ends soon
  for (int i = 0; i < 2; ++i) lf[i].reset(new LogFile<>(i ? "web" : "app", 20, "d"));
  for (int who = 0; who < 2; ++who) {
    LogFile<> *p = lf[who].get();
    kmc::spawn([p, who, n] {
      for (int i = 0; i < n; ++i) {
        kmc::advance_us(1000000);
        std::string r = record(who, i, 25);
        p->Append(r.data(), r.size());
      }
    });
  }
  kmc::join_all();
  lf[0].reset(); lf[1].reset();
  look([&] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    exactly(0, n, got, "a record isn't in the log files"); exactly(1, n, got, "a record isn't in the log files");
    names("d/", "app", true); names("d/", "web", true);
    if ((int)files->size() != 2 + 2 * n) kmc::fail("there are %zu log files after %d rolls", files->size(), 2 * n);
    for (auto &f : *files) if (f.open) kmc::fail("a log file stays open");
  });
}
// two files that are the first ones of their directory
KMC_SCENARIO("P22", file_new_directory, (0, 4, 20))
{
  fresh();
  for (int who = 0; who < 2; ++who)
    kmc::spawn([who] {
      std::unique_ptr<AppendFile> f(new AppendFile(who ? "new/y.log" : "new/x.log"));
      std::string r = record(who, 0, 10);
      f->Append(r.data(), r.size());
    });
  kmc::join_all();
  look([&] {
    std::vector<std::vector<int>> got;
    parse_files(got);
    exactly(0, 1, got, "a record isn't in the log files"); exactly(1, 1, got, "a record isn't in the log files");
    for (auto &f : *files) if (f.open) kmc::fail("a log file stays open");
  });
}
// a file alone: what is appended is there, at the end of what was there before
KMC_SCENARIO("P22", file_append, (0, 0, 0))
{
  fresh();
  std::string want;
  int rounds = 1 + kmc::choose(2, 0, "rounds"), dir = kmc::choose(3, 0, "directory");
  static const char *const NAME[] = {"x.log", "new/x.log", "/abs/x.log"};
  for (int r = 0; r < rounds; ++r) {
    std::unique_ptr<AppendFile> f(new AppendFile(NAME[dir]));
    size_t here = 0;
    int n = kmc::choose(3 + (rounds == 1), 0, "records");
    for (int i = 0; i < n; ++i) {
      static const size_t LEN[] = {0, 10, 65535, 65536, 140000};
      std::string s = kmc::choose(2, 0, "empty") == 0 ? record(r, i, 10) : std::string();
      size_t len = s.empty() ? 0 : LEN[1 + kmc::choose(4, 0, "bytes")];
      if (len) s = record(r, i, len);
      f->Append(s.data(), s.size());
      want += s; here += s.size();
      kmc::check(f->writtenBytes() == here, "writtenBytes() is wrong");
      if (kmc::choose(2, 0, "flush")) { f->Flush(); look([&] { if (all() != want) kmc::fail("a flush leaves bytes in the buffer"); }); }
    }
    f.reset();
    look([&] { if (all() != want || files->size() != 1 || files->back().open) kmc::fail("a file doesn't hold what was appended"); });
  }
}

// ==== P23: statements of several threads
static std::vector<std::string> *said; // by thread, only used by it
static void a_record(const std::string &s, int64_t from, int64_t to, const char *level, const std::string &msg, int line)
{
  if (s.size() < 24 || s.find('\n') != s.size() - 1) kmc::fail("a record is no line | %s", s.c_str());
  std::string t[2];
  for (int k = 0; k < 2; ++k) { // the time is one between the start and the end of the statement
    int64_t us = k ? to : from; time_t sec = us / 1000000; struct tm tm; char b[64];
    localtime_r(&sec, &tm); size_t n = strftime(b, sizeof b, "%Y%m%d:%H%M%S", &tm); snprintf(b + n, sizeof b - n, ".%06d ", (int)(us % 1000000));
    t[k] = b;
  }
  std::string at = s.substr(0, 23);
  if (at < t[0] || at > t[1]) kmc::fail("the time of a record is wrong | %s, from %s to %s", s.c_str(), t[0].c_str(), t[1].c_str());
  std::string head = std::to_string(CurrentThread::tid()) + " ";
  if (s.compare(23, head.size(), head)) kmc::fail("the thread of a record is wrong | %s", s.c_str());
  std::string want = std::string(" [") + level + "] " + msg + " - sc_log.cc:" + std::to_string(line) + "\n";
  if (s.size() < want.size() || s.compare(s.size() - want.size(), want.size(), want)) kmc::fail("a record is wrong | %s, expected %s", s.c_str(), want.c_str());
}
static void log_threads(int n, int rounds)
{
  look([] { delete[] said; said = new std::vector<std::string>[16]; });
  auto out = Logger::GetOutputCallback(); auto flush = Logger::GetFlushCallback();
  Logger::SetColor(false);
  Logger::SetOutputCallback([](char const *d, size_t k) { int me = kmc::self(); look([=] { said[me].push_back(std::string(d, k)); }); });
  Logger::SetFlushCallback([] {});
  bool errors = kmc::choose(2, 0, "errors");
  int gap = kmc::choose(3, 0, "gap"); // at once, later in the second, in another second
  bool inturn = kmc::choose(2, 0, "in turn");
  kmc::Counter turn;
  auto body = [&turn, errors, gap, inturn, n, rounds](int who) {
    static const long GAP[] = {0, 300000, 1000000};
    for (int i = 0; i < rounds; ++i) {
      if (inturn) kmc::wait_until([&turn, i, n, who] { return turn.get() == i * n + who; });
      int64_t from = kmc::realtime_us();
      int e = 1 + who * 3 + i, line;
      if (errors) { errno = e; line = __LINE__; LOG_SYSERROR << "msg" << who << "." << i; } else { line = __LINE__; LOG_INFO << "msg" << who << "." << i; }
      int64_t to = kmc::realtime_us();
      int me = kmc::self();
      look([=] {
        if (said[me].size() != size_t(i + 1)) kmc::fail("a statement writes %d records", (int)said[me].size() - i);
        std::string msg = "msg" + std::to_string(who) + "." + std::to_string(i);
        if (errors) msg = "errno: " + std::to_string(e) + ", errmsg: " + strerror(e) + " " + msg;
        a_record(said[me].back(), from, to, errors ? "SYS_ERROR" : "INFO", msg, line);
      });
      if (gap && (who == n - 1 || !inturn)) kmc::sleep_us(GAP[gap]);
      turn.add();
    }
  };
  for (int who = 1; who < n; ++who) kmc::spawn([body, who] { body(who); });
  body(0);
  kmc::join_all();
  Logger::SetOutputCallback(out); Logger::SetFlushCallback(flush);
}
KMC_SCENARIO("P23", log_two_threads, (kmc::F_TIME, 3, 6)) { log_threads(2, 3); }
KMC_SCENARIO("P23", log_three_threads, (kmc::F_TIME, 2, 4)) { log_threads(3, 2); }
