// P23: log statements.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/log/logger.h"
#include "kanon/string/type.h"
#include "kanon/thread/current_thread.h"
#include <errno.h>
#include <memory>
#include <setjmp.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using namespace kanon;
static std::string E(const std::string &s) { return "\"" + en::esc(s.size() > 300 ? s.substr(0, 200) + "..." + s.substr(s.size() - 60) : s) + "\""; }
// ---- the clock and the end of the process
static struct timeval fake = {1600000000, 123456};
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *) { *tv = fake; return 0; }
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
  if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return __real_clock_gettime(c, t);
  t->tv_sec = fake.tv_sec; t->tv_nsec = fake.tv_usec * 1000;
  return 0;
}
static jmp_buf ended; static bool catching; static int aborts;
extern "C" [[noreturn]] void __real_abort();
extern "C" [[noreturn]] void __wrap_abort()
{
  if (!catching) __real_abort();
  ++aborts; catching = false;
  longjmp(ended, 1);
}
// ---- what is written
static std::vector<std::string> *recs; static int flushes, flushed_after;
static void out(char const *p, size_t n) { recs->push_back(std::string(p, n)); }
static void flush() { ++flushes; flushed_after = (int)recs->size(); }
static void start()
{
  static bool once;
  if (!once) { once = true; setenv("TZ", "UTC0", 1); tzset(); recs = new std::vector<std::string>; }
  recs->clear(); flushes = aborts = 0; flushed_after = -1;
  Logger::SetOutputCallback(&out); Logger::SetFlushCallback(&flush);
  Logger::SetLogLevel(Logger::KANON_LL_TRACE); EnableAllLog(true); SetKanonLog(true); Logger::SetColor(false);
  fake.tv_sec = 1600000000; fake.tv_usec = 123456;
  CurrentThread::t_tid = 0; // the process may be forked
}
static std::string plain(const std::string &s) // without the colours
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') { size_t e = s.find('m', i); if (e != std::string::npos) { i = e; continue; } }
    r += s[i];
  }
  return r;
}
static std::string stamp()
{
  struct tm tm; gmtime_r(&fake.tv_sec, &tm);
  char b[80]; snprintf(b, sizeof b, "%04d%02d%02d:%02d%02d%02d.%06d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)fake.tv_usec);
  return b;
}
static const char *const NAME[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "SYS_ERROR", "FATAL", "SYS_FATAL"};
// The head of a record is: stamp, thread id, thread name, level. Gives the message with the location.
static std::string after_head(const std::string &rec, int level)
{
  std::string r = plain(rec), head = stamp() + " " + std::to_string((long)syscall(SYS_gettid)) + " ";
  EN_CHECK(r.compare(0, head.size(), head) == 0, "a record doesn't begin with the time and the thread | %s, expected %s", E(r).c_str(), E(head).c_str());
  size_t sp = r.find(' ', head.size());
  std::string lv = std::string("[") + NAME[level] + "] ";
  EN_CHECK(sp != std::string::npos && sp > head.size() && r.compare(sp + 1, lv.size(), lv) == 0, "a record has no thread name or a wrong level | %s, expected %s", E(r).c_str(), lv.c_str());
  return r.substr(sp + 1 + lv.size());
}
static std::string err_text(int e) { return e ? "errno: " + std::to_string(e) + ", errmsg: " + strerror(e) + " " : std::string(); }
// the message of a statement at this level: the function, or the error number
static void complete(const std::string &rec, int level, const std::string &msg, const char *func, int err, const char *file, int line)
{
  std::string body = after_head(rec, level), want;
  if (level <= 1) want = std::string(func) + "() ";
  if (level == 5 || level == 7) { // without error there may be a blank
    want = err_text(err);
    if (!err) { size_t i = 0; while (i < body.size() && i < 2 && body[i] == ' ' && (msg.empty() || msg[0] != ' ')) ++i; body.erase(0, i); }
  }
  want += msg + " - " + file + ":" + std::to_string(line) + "\n";
  EN_CHECK(body == want, "a record is wrong | %s, expected %s", E(body).c_str(), E(want).c_str());
}
// ---- every statement, threshold and switch
static int else_taken, line_of;
#define ST(macro) do { line_of = __LINE__; if (taken) macro << "hello" << 42; else ++else_taken; } while (0)
#define SF(macro) do { line_of = __LINE__; if (taken) macro("<%-%>", "hello", 42); else ++else_taken; } while (0)
static void statement(int k, bool taken)
{
  using namespace kanon;
  switch (k) {
  case 0: ST(LOG_TRACE); break;
  case 1: ST(LOG_DEBUG); break;
  case 2: ST(LOG_INFO); break;
  case 3: ST(LOG_WARN); break;
  case 4: ST(LOG_ERROR); break;
  case 5: ST(LOG_SYSERROR); break;
  case 6: ST(LOG_FATAL); break;
  case 7: ST(LOG_SYSFATAL); break;
  case 8: SF(FMT_LOG_TRACE); break;
  case 9: SF(FMT_LOG_DEBUG); break;
  case 10: SF(FMT_LOG_INFO); break;
  case 11: SF(FMT_LOG_WARN); break;
  case 12: SF(FMT_LOG_ERROR); break;
  case 13: SF(FMT_LOG_SYSERROR); break;
  case 14: SF(FMT_LOG_FATAL); break;
  case 15: SF(FMT_LOG_SYSFATAL); break;
  case 16: ST(LOG_TRACE_KANON); break;
  case 17: ST(LOG_DEBUG_KANON); break;
  case 18: ST(LOG_INFO_KANON); break;
  case 19: ST(LOG_WARN_KANON); break;
  case 20: ST(LOG_ERROR_KANON); break;
  case 21: ST(LOG_SYSERROR_KANON); break;
  }
}
EN_CASE("P23", log_statements, 0, 0)
{
  en::no_leak_check();
  start();
  int k = en::ch(22), threshold = en::ch(9), level = k % 8;
  if (k >= 16) level = k - 16;
  if (k >= 8 && k < 14) level = k - 8; else if (k == 14) level = 6; else if (k == 15) level = 7;
  if (threshold == 8) threshold = Logger::KANON_LL_OFF;
  bool all = en::flip(), kanon = en::flip(), color = en::flip(), taken = en::flip(), set_first = en::flip();
  if (set_first) EnableAllLog(all);
  Logger::SetLogLevel((Logger::LogLevel)threshold); SetKanonLog(kanon); Logger::SetColor(color);
  EnableAllLog(all);
  bool fatal = level >= 6, want = taken && (fatal || (all && level >= threshold && (k < 16 || kanon)));
  en::op("%s statement %d at threshold %d, all %d, kanon %d, taken %d", NAME[level], k, threshold, all, kanon, taken);
  en::step();
  else_taken = 0; errno = ENOENT;
  bool end = false;
  if (setjmp(ended) == 0) { catching = true; statement(k, taken); catching = false; } else end = true;
  EN_CHECK(end == (fatal && taken), fatal ? "a fatal statement doesn't end the process |" : "a statement that isn't fatal ends the process | %d", k);
  EN_CHECK(recs->size() == (want ? 1u : 0u), want ? "a statement at or above the threshold writes %zu records | statement %d threshold %d" : "a statement that is switched off writes %zu records | statement %d threshold %d", recs->size(), k, threshold);
  EN_CHECK(else_taken == !taken, taken ? "the else belongs to a log statement | statement %d" : "the else isn't taken | statement %d", k);
  if (want) complete((*recs)[0], level, k >= 8 && k < 16 ? "<hello-42>" : "hello42", "statement", ENOENT, "case_logger.cc", line_of);
  if (fatal && taken) EN_CHECK(flushes >= 1 && flushed_after == 1, "the last record isn't flushed | %d times", flushes);
  if (want && color) EN_CHECK((*recs)[0].find("\033[") != std::string::npos, "the colour is missing |");
  if (want && !color) EN_CHECK((*recs)[0].find('\033') == std::string::npos, "there is colour though it is off |");
}
// ---- lengths around the limit of a record
EN_CASE("P23", log_lengths, 0, 0)
{
  start();
  int n = en::ch(600), level = en::ch(6), kind = en::ch(4);
  bool color = en::flip();
  if (n >= 100) n += 3600; // 3700..4199
  std::string msg((size_t)n, 'm');
  for (size_t i = 0; i < msg.size(); i += 7) msg[i] = char('a' + i / 7 % 26);
  Logger::SetColor(color);
  en::op("a %s message of %d bytes, kind %d", NAME[level], n, kind);
  en::step();
  int line = 0;
  errno = 0;
#define PUT(x) do { line = __LINE__; switch (level) { case 0: LOG_TRACE << x; break; case 1: LOG_DEBUG << x; break; case 2: LOG_INFO << x; break; case 3: LOG_WARN << x; break; case 4: LOG_ERROR << x; break; case 5: LOG_SYSERROR << x; break; } } while (0)
  std::string want = msg; size_t slack = 0;
  switch (kind) {
  case 0: PUT(msg); break;
  case 1: PUT(msg.substr(0, (size_t)n / 2) << StringView(msg).substr((size_t)n / 2)); break;
  case 2: PUT(msg << -1234567890123l); want += "-1234567890123"; slack = 33; break;
  case 3: PUT(msg << 'x' << "yz"); want += "xyz"; break;
  }
  EN_CHECK(recs->size() == 1, "a statement writes %zu records | %d bytes", recs->size(), n);
  std::string rec = (*recs)[0];
  EN_CHECK(rec.size() <= kSmallStreamSize, "a record is longer than the limit | %zu", rec.size());
  EN_CHECK(!rec.empty() && rec.back() == '\n' && rec.find('\n') == rec.size() - 1, "a record doesn't end with its newline | %d bytes, level %d: %s", n, level, E(rec).c_str());
  std::string body = after_head(rec, level), tail = " - case_logger.cc:" + std::to_string(line) + "\n", fn = level <= 1 ? std::string(__func__) + "() " : "";
  size_t head = rec.size() - body.size(), blanks = 0;
  if (level == 5) { while (blanks < body.size() && blanks < 2 && body[blanks] == ' ' && body.compare(blanks, tail.size() + 1, tail) != 0) ++blanks; body.erase(0, blanks); }
  if (head + blanks + fn.size() + want.size() + tail.size() + slack < kSmallStreamSize)
    EN_CHECK(body == fn + want + tail, "the record of a message that fits is incomplete | %d bytes, level %d: %s", n, level, E(body).c_str());
  else {
    std::string all = fn + want;
    size_t common = 0;
    while (common < body.size() && common < all.size() && body[common] == all[common]) ++common;
    EN_CHECK(common >= fn.size() + (n < 3000 ? (size_t)n : 3000), "the record of a long message has another message | %d bytes: %s", n, E(body).c_str());
    EN_CHECK(body.size() - common <= tail.size(), "the record of a long message has something else behind it | %d bytes: %s", n, E(body.substr(common)).c_str());
  }
  // the next record is unaffected
  recs->clear();
  Logger::SetColor(false);
  line = __LINE__; LOG_WARN << "next";
  EN_CHECK(recs->size() == 1, "a statement writes %zu records | after %d bytes", recs->size(), n);
  complete((*recs)[0], 3, "next", "", 0, "case_logger.cc", line);
}
// ---- error numbers
EN_CASE("P23", log_errors, 0, 0)
{
  en::no_leak_check();
  start();
  int e = en::ch(160), e2 = en::ch(4);
  static const int OTHER[] = {0, 2, 11, 9999};
  bool fatal = en::flip();
  if (e >= 150) e = (e - 149) * 1000;
  en::op("error %d, then %d", e, OTHER[e2]);
  en::step();
  int line;
  if (setjmp(ended) == 0) {
    catching = true;
    errno = e; line_of = __LINE__;
    if (fatal) LOG_SYSFATAL << "failed"; else LOG_SYSERROR << "failed";
    catching = false;
  }
  line = line_of + 1;
  EN_CHECK(recs->size() == 1, "a statement writes %zu records | error %d", recs->size(), e);
  complete((*recs)[0], fatal ? 7 : 5, "failed", "", e, "case_logger.cc", line);
  recs->clear();
  errno = OTHER[e2]; line = __LINE__; LOG_SYSERROR << "again";
  complete((*recs)[0], 5, "again", "", OTHER[e2], "case_logger.cc", line);
  EN_CHECK(std::string(strerror_tl(e)) == strerror(e), "strerror_tl() is wrong | %d: %s", e, strerror_tl(e));
}
// ---- the time is cached
EN_CASE("P23", log_times, 3, 5)
{
  start();
  static const long SEC[] = {1600000000, 1600000001, 1599999999, 951782399, 951782400, 2147483648l, 4102444799l};
  static const int US[] = {0, 5, 99999, 999999};
  for (int i = 0; i < en::depth(); ++i) {
    fake.tv_sec = en::pick(SEC); fake.tv_usec = en::pick(US);
    en::op("at %ld.%06d", (long)fake.tv_sec, (int)fake.tv_usec);
    en::step();
    recs->clear();
    int line = __LINE__; LOG_INFO << "tick";
    EN_CHECK(recs->size() == 1, "a statement writes %zu records |", recs->size());
    complete((*recs)[0], 2, "tick", "", 0, "case_logger.cc", line);
  }
}
// ---- names of files, functions and threads
EN_CASE("P23", log_names, 0, 0)
{
  start();
  static const char *const FILE_[] = {"a.cc", "/a.cc", "dir/b.cc", "/x/y/z/long_name_of_a_file.h", "./c", "dir/"};
  static const char *const BASE[] = {"a.cc", "a.cc", "b.cc", "long_name_of_a_file.h", "c", ""};
  static const char *const TH[] = {nullptr, "worker", "a-rather-long-name-of-a-thread-0123456789"};
  static const size_t LINE[] = {0, 1, 10, 99999, 4294967295u, 4294967296ull};
  int f = en::ch(6), t = en::ch(3);
  size_t l = en::pick(LINE);
  bool func = en::flip();
  char const *old = CurrentThread::t_name;
  CurrentThread::t_name = TH[t];
  en::op("%s:%zu in %s", FILE_[f], l, TH[t] ? TH[t] : "-");
  en::step();
  if (func) { Logger(FILE_[f], l, Logger::KANON_LL_DEBUG, "fn").stream() << "m"; } else { Logger(FILE_[f], l, Logger::KANON_LL_ERROR).stream() << "m"; }
  CurrentThread::t_name = old;
  EN_CHECK(recs->size() == 1, "a statement writes %zu records |", recs->size());
  std::string body = after_head((*recs)[0], func ? 1 : 4), want = std::string(func ? "fn() " : "") + "m - " + BASE[f] + ":" + std::to_string(l) + "\n";
  EN_CHECK(body == want, "a record is wrong | %s, expected %s", E(body).c_str(), E(want).c_str());
  if (TH[t]) EN_CHECK((*recs)[0].find(std::string(" ") + TH[t] + " [") != std::string::npos, "the thread's name is missing | %s", E((*recs)[0]).c_str());
}
// ---- values
EN_CASE("P23", log_values, 3, 4)
{
  start();
  std::string want; int line;
  recs->clear();
  {
    Logger lg("f.cc", 7, Logger::KANON_LL_INFO);
    LogStream &s = lg.stream();
    for (int i = 0; i < en::depth(); ++i) {
      switch (en::ch(13)) {
      case 0: s << std::numeric_limits<int>::min(); want += "-2147483648"; break;
      case 1: s << ~0ull; want += "18446744073709551615"; break;
      case 2: s << true; want += "True"; break;
      case 3: s << 'c'; want += "c"; break;
      case 4: s << 1.25f; want += "1.25"; break;
      case 5: s << -1e-300; want += "-1e-300"; break;
      case 6: s << "text"; want += "text"; break;
      case 7: s << std::string("a\0b", 3); want += std::string("a\0b", 3); break;
      case 8: s << StringView("view", 3); want += "vie"; break;
      case 9: s << (void *)0xab; want += "0x00000000000000AB"; break;
      case 10: s << LogFmtStream("%%%", 5); want += "%5"; break;
      case 11: s << (unsigned char)200; want += "200"; break;
      case 12: s << (short)-3; want += "-3"; break;
      }
      en::step();
    }
    EN_CHECK(recs->empty(), "a record is written before the statement ends |");
  }
  line = 7;
  EN_CHECK(recs->size() == 1, "a statement writes %zu records |", recs->size());
  complete((*recs)[0], 2, want, "", 0, "f.cc", line);
}
