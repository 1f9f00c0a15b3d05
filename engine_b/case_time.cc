// P33: time stamps.
#include "enumer.h"
#include "kanon/util/time_stamp.h"
#include <limits>
#include <sys/time.h>
using namespace kanon;
typedef __int128 Big;
typedef TimeStamp TS;
static std::string dec(Big b, int width = 0)
{
  std::string s; bool neg = b < 0;
  do { int d = (int)(b % 10); s.insert(s.begin(), char('0' + (d < 0 ? -d : d))); b /= 10; } while (b);
  while ((int)s.size() < width) s.insert(s.begin(), '0');
  if (neg) s.insert(s.begin(), '-');
  return s;
}
// ---- the clock
static struct timeval fake; static bool faking;
extern "C" int __real_gettimeofday(struct timeval *, void *);
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
  if (!faking) return __real_gettimeofday(tv, tz);
  *tv = fake;
  return 0;
}
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
  if (!faking || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, t);
  t->tv_sec = fake.tv_sec; t->tv_nsec = fake.tv_usec * 1000;
  return 0;
}
static const int64_t SECS[] = {0, 1, 59, 86399, 86400, 999999999, 2147, 2148, 2147483, 2147484, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 9223372036853ll};
EN_CASE("P33", time_now, 0, 0)
{
  int64_t s = en::pick(SECS);
  static const int US[] = {0, 1, 999, 1000, 500000, 999999};
  int us = en::pick(US);
  en::op("the clock at %lld.%06d", (long long)s, us);
  fake.tv_sec = s; fake.tv_usec = us; faking = true;
  TS t = TS::Now();
  faking = false;
  en::step();
  EN_CHECK(t.microseconds() == s * 1000000 + us, "Now() is wrong | %lld.%06d gives %lld", (long long)s, us, (long long)t.microseconds());
  EN_CHECK(TS::FromUnixTime(s, us).microseconds() == s * 1000000 + us && TS::FromUnixTime(s).microseconds() == s * 1000000, "FromUnixTime() is wrong | %lld %d", (long long)s, us);
}
// ---- boundary values: around 0, seconds, 2^31, 2^32 and the range's ends
static int64_t value()
{
  int k = en::ch(13); Big b = 0;
  switch (k) {
  case 0: b = 0; break;
  case 1: b = 1000; break;
  case 2: b = 1000000; break;
  case 3: b = (Big)1 << 31; break;
  case 4: b = (Big)1 << 32; break;
  case 5: b = (Big)2147483647 * 1000; break;
  case 6: b = (Big)2147483647 * 1000000; break;
  case 7: b = (Big)2147483648ll * 1000000; break;
  case 8: b = (Big)1600000000 * 1000000 + 123456; break;
  case 9: b = (Big)1 << 53; break;
  case 10: b = (Big)1 << 62; break;
  case 11: b = ((Big)1 << 63) - 3; break;
  case 12: b = (Big)4102444800ll * 1000000 - 1; break;
  }
  b += en::ch(5) - 2;
  if (en::flip()) b = -b;
  return (int64_t)b;
}
static bool fits(Big b) { return b >= std::numeric_limits<int64_t>::min() && b <= std::numeric_limits<int64_t>::max(); }
#define IS(what, t, want) do { en::step(); TS t_ = (t); Big w_ = (want); EN_CHECK((Big)t_.microseconds() == w_, what " is wrong | %lld and %lld: %lld, expected %s", (long long)x, (long long)y, (long long)t_.microseconds(), dec(w_).c_str()); } while (0)
EN_CASE("P33", time_pairs, 0, 0)
{
  int64_t x = value(), y = value();
  en::op("%lld and %lld", (long long)x, (long long)y);
  TS a(x), b(y);
  en::step();
  EN_CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality is wrong | %lld %lld", (long long)x, (long long)y);
  EN_CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order is wrong | %lld %lld", (long long)x, (long long)y);
  if (fits((Big)x + y)) { IS("a+b", a + b, (Big)x + y); TS c = a; IS("a+=b", c += b, (Big)x + y); IS("a after +=", c, (Big)x + y); }
  if (fits((Big)x - y)) {
    IS("a-b", a - b, (Big)x - y); TS c = a; IS("a-=b", c -= b, (Big)x - y);
    double d = TimeDifference(a, b), w = (double)((long double)((Big)x - y) / 1e6L);
    EN_CHECK(d == w || __builtin_fabs(d - w) <= __builtin_fabs(w) * 3e-16, "TimeDifference is wrong | %lld %lld: %.17g, expected %.17g", (long long)x, (long long)y, d, w);
  }
  if (x != std::numeric_limits<int64_t>::min()) IS("-a", -a, -(Big)x);
  TS c(5); c.SetMicroseconds(x); IS("SetMicroseconds", c, x);
  EN_CHECK(a.GetMicrosecondsSinceEpoch() == x && a.GetMicroseconds() == x && a.microseconds() == x, "a getter is wrong | %lld", (long long)x);
  Big s = (Big)x - (Big)a.GetSeconds() * 1000000, m = (Big)x - (Big)a.GetMilliseconds() * 1000;
  EN_CHECK(s > -1000000 && s < 1000000 && (x < 0 || s >= 0) && a.seconds() == a.GetSeconds(), "GetSeconds is wrong | %lld: %lld", (long long)x, (long long)a.GetSeconds());
  EN_CHECK(m > -1000 && m < 1000 && (x < 0 || m >= 0) && a.milliseconds() == a.GetMilliseconds(), "GetMilliseconds is wrong | %lld: %lld", (long long)x, (long long)a.GetMilliseconds());
}
EN_CASE("P33", time_units, 0, 0)
{
  static const int N[] = {0, 1, 2, 999, 1000, 1001, 2147, 2148, 4294, 4295, 999999, 1000000, 2147483, 2147484, 2000000000, 2147483646, 2147483647};
  int64_t x = value();
  int y = en::pick(N);
  if (en::flip()) y = -y - en::ch(2);
  en::op("%lld and %d units", (long long)x, y);
  TS a(x);
#define UNIT(U, f) if (fits((Big)x + (Big)y * f) && fits((Big)x - (Big)y * f)) { \
    IS("a + " #U, a + TS::U(y), (Big)x + (Big)y * f); IS(#U " + a", TS::U(y) + a, (Big)x + (Big)y * f); IS("a - " #U, a - TS::U(y), (Big)x - (Big)y * f); \
    if (fits((Big)y * f - x)) IS(#U " - a", TS::U(y) - a, (Big)y * f - x); }
  UNIT(Microsecond, 1) UNIT(MilliSecond, 1000) UNIT(Second, 1000000)
  if (y >= 0 && fits((Big)x + (Big)y * 1000)) { IS("AddTimeUs", AddTimeUs(a, (uint64_t)y), (Big)x + y); IS("AddTimeMs", AddTimeMs(a, (uint64_t)y), (Big)x + (Big)y * 1000); }
}
// an interval in (fractional) seconds means the microseconds it is nearest to
static void interval(int64_t x, int64_t y)
{
  double s = (double)y / 1e6;
  TS a(x);
  if (fits((Big)x + y) && fits((Big)x - y) && fits((Big)y - x)) {
    IS("a + seconds", a + s, (Big)x + y); IS("seconds + a", s + a, (Big)x + y); IS("a - seconds", a - s, (Big)x - y);
    IS("seconds - a", s - a, (Big)y - x); IS("AddTime", AddTime(a, s), (Big)x + y);
  }
}
EN_CASE("P33", time_interval_small, 1000, 5000) // every microsecond of the first second(s)
{
  int64_t y = (int64_t)en::ch(en::depth()) * 1000 + en::ch(1000);
  en::op("an interval of %lld us", (long long)y);
  interval(1600000000123456ll, y);
  interval(0, -y);
}
EN_CASE("P33", time_interval_large, 0, 0)
{
  int64_t x = value(), y = value();
  if (y > ((int64_t)1 << 50) || y < -((int64_t)1 << 50)) en::skip();
  en::op("%lld and an interval of %lld us", (long long)x, (long long)y);
  interval(x, y);
}
// ---- text
EN_CASE("P33", time_text_seconds, 0, 0)
{
  int64_t x = value();
  int64_t us = en::ch(21) - 10;
  if (us > 2 || us < -2) us *= 99999; // ...899991, 999990
  if (!fits((Big)x + us)) en::skip();
  x += us;
  en::op("%lld us", (long long)x);
  en::step();
  Big m = x < 0 ? -(Big)x : (Big)x;
  std::string want = std::string(x < 0 ? "-" : "") + dec(m / 1000000) + "." + dec(m % 1000000, 6), got = TS(x).ToString();
  EN_CHECK(got == want, "ToString is wrong | %lld us: %s", (long long)x, got.c_str());
}
static void zone(const char *tz) { static std::string cur; if (cur != tz) { cur = tz; setenv("TZ", tz, 1); tzset(); } }
static std::string civil(int64_t sec) // of the proleptic Gregorian calendar
{
  int64_t day = sec / 86400, s = sec % 86400;
  if (s < 0) { s += 86400; --day; }
  int64_t y = 1970;
  auto leap = [](int64_t q) { return q % 4 == 0 && (q % 100 != 0 || q % 400 == 0); };
  while (day < 0) { --y; day += leap(y) ? 366 : 365; }
  while (day >= (leap(y) ? 366 : 365)) { day -= leap(y) ? 366 : 365; ++y; }
  static const int ML[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int m = 0;
  for (;; ++m) { int l = ML[m] + (m == 1 && leap(y)); if (day < l) break; day -= l; }
  char b[64];
  snprintf(b, sizeof b, "%04d%02d%02d %02d:%02d:%02d", (int)y, m + 1, (int)day + 1, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
  return b;
}
static const struct { const char *tz; int off; } ZONE[] = {{"UTC0", 0}, {"CST-8", 8 * 3600}, {"IST-5:30", 19800}, {"XXX11", -11 * 3600}};
static void text(int64_t sec, int us, const char *tz, int off)
{
  en::op("%lld s and %d us in %s", (long long)sec, us, tz);
  zone(tz);
  en::step();
  TS t(sec * 1000000 + us);
  std::string want = civil(sec + off), got = t.ToFormattedString(false);
  EN_CHECK(got == want, "ToFormattedString without microseconds is wrong | %lld s %d us in %s: %s, expected %s", (long long)sec, us, tz, got.c_str(), want.c_str());
  got = t.ToFormattedString();
  std::string want2 = want + "." + dec(us, 6);
  EN_CHECK(got == want2, "ToFormattedString is wrong | %lld s %d us in %s: %s, expected %s", (long long)sec, us, tz, got.c_str(), want2.c_str());
  bool ok = false;
  TS b = TS::FromTimeStr("%Y%m%d %H:%M:%S", want, &ok);
  EN_CHECK(ok && b.microseconds() == sec * 1000000, "FromTimeStr is wrong | %s in %s: %lld, expected %lld", want.c_str(), tz, (long long)b.microseconds(), (long long)sec * 1000000);
}
// every day of 1904-2096 (quick), 1700-2300 (thorough)
EN_CASE("P33", time_calendar_days, 193, 600)
{
  int years = en::depth();
  int64_t day = (en::ch(years) - years / 2 + 30) * 365 + en::ch(366);
  int z = en::ch(4);
  int64_t sec = day * 86400 + (en::flip() ? 86399 : 0) - ZONE[z].off;
  text(sec, sec % 2 ? 999999 : 0, ZONE[z].tz, ZONE[z].off);
}
EN_CASE("P33", time_calendar_seconds, 0, 0) // every second of a day, around the epoch too
{
  static const int64_t START[] = {0, -86400, 951782400 /* 2000-02-29 */, 2147472000};
  int64_t s = en::pick(START) + en::ch(288) * 300 + en::ch(300);
  static const int US[] = {0, 1, 999999};
  text(s, en::pick(US), "UTC0", 0);
}
// daylight saving: the text of a time parses back to it, or to the other time of the same text
EN_CASE("P33", time_daylight, 0, 0)
{
  zone("EST5EDT,M3.2.0,M11.1.0");
  int64_t sec = 1577836800 + (int64_t)en::ch(366) * 86400 + en::ch(24) * 3600 + en::ch(2) * 1799; // 2020
  en::op("%lld s", (long long)sec);
  en::step();
  TS t(sec * 1000000);
  std::string s = t.ToFormattedString(false);
  bool est = s == civil(sec - 5 * 3600), edt = s == civil(sec - 4 * 3600);
  bool dst = sec >= 1583650800 && sec < 1604210400; // 2020-03-08 07:00 .. 2020-11-01 06:00 UTC
  EN_CHECK(dst ? edt : est, "ToFormattedString in daylight saving time is wrong | %lld: %s", (long long)sec, s.c_str());
  bool ok = false;
  TS b = TS::FromTimeStr("%Y%m%d %H:%M:%S", s, &ok);
  EN_CHECK(ok && b.ToFormattedString(false) == s, "FromTimeStr in daylight saving time is wrong | %s: %lld", s.c_str(), (long long)b.microseconds());
}
EN_CASE("P33", time_bad_text, 0, 0)
{
  zone("UTC0");
  static const char *const T[] = {"", "x", "2020", "2020-01", "20201301 00:00:00", "20200132 00:00:00", "20200101 24:00:00", "20200101 00:60:00", "20200101T00:00:00", "abcd0101 00:00:00"};
  const char *t = en::pick(T);
  en::op("parse \"%s\"", t);
  en::step();
  bool ok = true;
  TS a = TS::FromTimeStr("%Y%m%d %H:%M:%S", t, &ok);
  EN_CHECK(!ok, "FromTimeStr accepts bad text | \"%s\"", t);
  TS b = TS::FromTimeStr("%Y%m%d %H:%M:%S", t);
  EN_CHECK(a == b, "FromTimeStr of bad text depends on the indicator | \"%s\": %lld and %lld", t, (long long)a.microseconds(), (long long)b.microseconds());
}
