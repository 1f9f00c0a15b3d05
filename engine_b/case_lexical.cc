// P29: numbers to text and back, and the space of the target buffer.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/string/lexical_cast.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/string_view_util.h"
#include "kanon/log/log_stream.h"
#include <math.h>
#include <memory>
using namespace kanon;
typedef __int128 Big;
static std::string E(const std::string &s) { return "\"" + en::esc(s) + "\""; }
struct Own { // exactly sized, not terminated
  std::unique_ptr<char[]> p; size_t n;
  explicit Own(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  StringView v() const { return StringView(p.get(), n); }
};
static std::string dec(Big b)
{
  std::string s; bool neg = b < 0;
  do { int d = (int)(b % 10); s.insert(s.begin(), char('0' + (d < 0 ? -d : d))); b /= 10; } while (b);
  if (neg) s.insert(s.begin(), '-');
  return s;
}
// ---- number -> text
template <class Stream, class T> static void stream_one(const char *what, T v, const std::string &want)
{
  std::unique_ptr<Stream> s(new Stream);
  en::step();
  *s << v;
  std::string got(s->data(), s->size());
  EN_CHECK(got == want, "%s is printed wrong | %s as %s", what, want.c_str(), E(got).c_str());
  EN_CHECK(s->data()[s->size()] == 0, "%s isn't terminated | %s", what, want.c_str());
  *s << '|' << v;
  got.assign(s->data(), s->size());
  EN_CHECK(got == want + "|" + want, "%s is printed wrong behind another | %s as %s", what, want.c_str(), E(got).c_str());
}
template <class T> static void num_text(const char *what, T v)
{
  std::string want = dec((Big)v);
  stream_one<LexicalStream<kCastStreamSize>>(what, v, want);
  en::step();
  std::string got = lexical_cast<std::string>(v);
  EN_CHECK(got == want, "lexical_cast<string> of %s is wrong | %s as %s", what, want.c_str(), E(got).c_str());
  StringView gv = lexical_cast<StringView>(v);
  EN_CHECK(gv.ToString() == want, "lexical_cast<StringView> of %s is wrong | %s as %s", what, want.c_str(), E(gv.ToString()).c_str());
}
template <class T> static void back(const char *what, const std::string &text, bool ok, T v)
{
  en::step();
  Own o(text);
  auto a = lexical_cast<T>(o.v());
  EN_CHECK(a.has_value() == ok, ok ? "lexical_cast<%s> rejects a number | %s" : "lexical_cast<%s> accepts bad text | %s", what, E(text).c_str());
  if (ok) EN_CHECK(*a == v, "lexical_cast<%s> is wrong | %s gives %s", what, E(text).c_str(), dec((Big)*a).c_str());
  auto b = lexical_cast<T>(text);
  EN_CHECK(b.has_value() == ok, ok ? "lexical_cast<%s> rejects a string | %s" : "lexical_cast<%s> accepts a bad string | %s", what, E(text).c_str());
  if (ok) EN_CHECK(*b == v, "lexical_cast<%s> of a string is wrong | %s gives %s", what, E(text).c_str(), dec((Big)*b).c_str());
}
template <class T> static void round_trip(const char *what, T v)
{
  num_text(what, v);
  back<T>(what, dec((Big)v), true, v);
}
template <class T> static void round_trip_sv(const char *what, T v, optional<T> (*f)(StringView const &, int))
{
  round_trip(what, v);
  Own o(dec((Big)v));
  auto r = f(o.v(), 10);
  EN_CHECK(r.has_value() && *r == v, "StringViewTo(%s) is wrong | %s", what, dec((Big)v).c_str());
}
EN_CASE("P29", lexical_small, 0, 0)
{
  int v = en::ch(256) * 256 + en::ch(256);
  en::op("the 16-bit value %d", v);
  round_trip_sv<short>("short", (short)v, &StringViewTo16);
  round_trip_sv<unsigned short>("unsigned short", (unsigned short)v, &StringViewToU16);
  if (v < 256) {
    num_text<unsigned char>("unsigned char", (unsigned char)v);
    back<unsigned char>("unsigned char", dec(v), true, (unsigned char)v);
    back<signed char>("signed char", dec(v - 128), true, (signed char)(v - 128));
    Own o(dec(v)), s(dec(v - 128));
    auto r = StringViewToU8(o.v()); auto t = StringViewTo8(s.v());
    EN_CHECK(r.has_value() && *r == v, "StringViewToU8 is wrong | %d", v);
    EN_CHECK(t.has_value() && *t == v - 128, "StringViewTo8 is wrong | %d", v - 128);
  }
}
// 2^k + d, 10^k + d, 2^64 - 10^k..., of both signs
static Big boundary()
{
  int kind = en::ch(2), k = en::ch(kind ? 20 : 65), d = en::ch(7) - 3;
  Big b = 1;
  for (int i = 0; i < k; ++i) b *= kind ? 10 : 2;
  b += d;
  return en::flip() ? -b : b;
}
template <class T> static bool fits(Big b) { return b >= (Big)std::numeric_limits<T>::min() && b <= (Big)std::numeric_limits<T>::max(); }
EN_CASE("P29", lexical_boundary, 0, 0)
{
  Big b = boundary();
  en::op("the value %s", dec(b).c_str());
#define RT(T) if (fits<T>(b)) { round_trip<T>(#T, (T)b); stream_one<LogStream>(#T " in the log stream", (T)b, dec(b)); }
  RT(short) RT(unsigned short) RT(int) RT(unsigned) RT(long) RT(unsigned long) RT(long long) RT(unsigned long long)
  // out of range text is rejected, in range text is accepted by every type
  static const char *const ZEROS[] = {"", "0", "0000000000000000000000"};
  static const char *const TAIL[] = {"", "x", " ", ".", "-", "+1"};
  std::string z = en::pick(ZEROS), tail = en::pick(TAIL), text = dec(b);
  text.insert(b < 0 ? 1 : 0, z);
  text += tail;
#define TX(T) back<T>(#T, text, tail.empty() && fits<T>(b), fits<T>(b) ? (T)b : (T)0);
  TX(signed char) TX(short) TX(int) TX(long) TX(long long) TX(unsigned char) TX(unsigned short) TX(unsigned) TX(unsigned long) TX(unsigned long long)
  // The wrappers of strtol() take the leading number.
  Own o(text);
#define SV(T, f) { en::step(); auto r = f(o.v(), 10); bool ok = fits<T>(b); \
    EN_CHECK(r.has_value() == ok, ok ? #f " rejects a number | %s" : #f " accepts an out of range number | %s", E(text).c_str()); \
    if (ok) EN_CHECK(*r == (T)b, #f " is wrong | %s", E(text).c_str()); }
  SV(int64_t, StringViewTo64) SV(int32_t, StringViewTo32) SV(int16_t, StringViewTo16) SV(int8_t, StringViewTo8)
  SV(uint64_t, StringViewToU64) SV(uint32_t, StringViewToU32) SV(uint16_t, StringViewToU16) SV(uint8_t, StringViewToU8)
}
EN_CASE("P29", lexical_bases, 0, 0)
{
  Big b = boundary();
  static const int BASE[] = {2, 3, 8, 16, 36};
  int base = en::pick(BASE);
  bool upper = en::flip();
  std::string text; Big x = b < 0 ? -b : b;
  const char *digit = upper ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : "0123456789abcdefghijklmnopqrstuvwxyz";
  do { text.insert(text.begin(), digit[(int)(x % base)]); x /= base; } while (x);
  if (b < 0) text.insert(text.begin(), '-');
  en::op("the number %s of base %d", text.c_str(), base);
  Own o(text);
#undef SV
#define SV(T, f) { en::step(); auto r = f(o.v(), base); bool ok = fits<T>(b); \
    EN_CHECK(r.has_value() == ok, ok ? #f " rejects a number of a base | %d %s" : #f " accepts an out of range number of a base | %d %s", base, E(text).c_str()); \
    if (ok) EN_CHECK(*r == (T)b, #f " of a base is wrong | %d %s", base, E(text).c_str()); }
  SV(int64_t, StringViewTo64) SV(int32_t, StringViewTo32) SV(int16_t, StringViewTo16) SV(int8_t, StringViewTo8)
  SV(uint64_t, StringViewToU64) SV(uint32_t, StringViewToU32) SV(uint16_t, StringViewToU16) SV(uint8_t, StringViewToU8)
}
// every text up to a length
EN_CASE("P29", lexical_text, 6, 8)
{
  static const char AL[] = {'0', '1', '2', '9', '-', '+', ' ', 'x', 0};
  int n = en::ch(en::depth() + 1);
  std::string t;
  for (int i = 0; i < n; ++i) t += en::pick(AL);
  en::op("the text %s", E(t).c_str());
  size_t i = 0;
  bool neg = false, plus = false;
  while (i < t.size() && t[i] == ' ') ++i;
  if (i) { // whether leading spaces are accepted is left open
    Own o(t);
    (void)lexical_cast<int>(o.v()); (void)lexical_cast<unsigned>(o.v()); (void)StringViewTo32(o.v()); (void)StringViewToU64(o.v());
    en::skip();
  }
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; plus = !neg; ++i; }
  size_t d0 = i;
  Big b = 0;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') b = b * 10 + (t[i++] - '0');
  bool whole = i > d0 && i == t.size(), digits = i > d0;
  if (neg) b = -b;
  Own o(t);
#define TT(T) { en::step(); bool ok = whole && fits<T>(b); auto r = lexical_cast<T>(o.v()); auto s = lexical_cast<T>(t); \
    bool open = ok && (plus || (neg && std::is_unsigned<T>::value)); \
    EN_CHECK(open || r.has_value() == ok, ok ? "lexical_cast<" #T "> rejects a number | %s" : "lexical_cast<" #T "> accepts bad text | %s", E(t).c_str()); \
    EN_CHECK(r.has_value() == s.has_value(), "lexical_cast<" #T "> of a string differs from that of a view | %s", E(t).c_str()); \
    if (r.has_value()) EN_CHECK(*r == (T)b && *s == (T)b, "lexical_cast<" #T "> is wrong | %s", E(t).c_str()); }
  TT(signed char) TT(short) TT(int) TT(long) TT(long long) TT(unsigned char) TT(unsigned short) TT(unsigned) TT(unsigned long) TT(unsigned long long)
#undef SV
#define SV(T, f) { en::step(); bool ok = digits && fits<T>(b); auto r = f(o.v(), 10); \
    bool open = ok && (!whole || plus || (neg && std::is_unsigned<T>::value)); \
    EN_CHECK(open || r.has_value() == ok, ok ? #f " rejects a number | %s" : #f " accepts bad text | %s", E(t).c_str()); \
    if (r.has_value()) EN_CHECK(*r == (T)b, #f " is wrong | %s", E(t).c_str()); }
  SV(int64_t, StringViewTo64) SV(int32_t, StringViewTo32) SV(int16_t, StringViewTo16) SV(int8_t, StringViewTo8)
  SV(uint64_t, StringViewToU64) SV(uint32_t, StringViewToU32) SV(uint16_t, StringViewToU16) SV(uint8_t, StringViewToU8)
}
// texts around the size of the conversion buffers
EN_CASE("P29", lexical_long, 0, 0)
{
  int n = en::ch(300);
  static const char C[] = {'0', '9', 'x', '-'};
  char c = en::pick(C);
  std::string t((size_t)n, c);
  bool one = en::flip();
  if (one) t += '7';
  en::op("%d times %c%s", n, c, one ? " and 7" : "");
  Own o(t);
  // the number at the beginning of the text, if there is one
  size_t i = t.size() > 1 && t[0] == '-' ? 1 : 0, d0 = i;
  Big v = 0;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') { if (v < (Big)1 << 70) v = v * 10 + (t[i] - '0'); ++i; }
  bool digits = i > d0, whole = digits && i == t.size();
  if (d0) v = -v;
#define LL(T) { en::step(); auto r = lexical_cast<T>(o.v()); auto s = lexical_cast<T>(t); bool ok = whole && fits<T>(v); \
    if (t.size() < 64) EN_CHECK(r.has_value() == ok, "lexical_cast<" #T "> of long text is wrong | %d x %c %d", n, c, one); \
    if (r.has_value()) EN_CHECK(ok && *r == (T)v, "lexical_cast<" #T "> of long text is wrong | %d x %c %d", n, c, one); \
    if (s.has_value()) EN_CHECK(ok && *s == (T)v, "lexical_cast<" #T "> of a long string is wrong | %d x %c %d", n, c, one); }
  LL(signed char) LL(int) LL(long long) LL(unsigned short) LL(unsigned long)
#undef SV
#define SV(T, f) { en::step(); auto r = f(o.v(), 10); bool ok = digits && fits<T>(v); \
    if (t.size() < 64 && whole) EN_CHECK(r.has_value() == ok, #f " of long text is wrong | %d x %c %d", n, c, one); \
    if (r.has_value()) EN_CHECK(ok && *r == (T)v, #f " of long text is wrong | %d x %c %d", n, c, one); }
  SV(int64_t, StringViewTo64) SV(int32_t, StringViewTo32) SV(int16_t, StringViewTo16) SV(int8_t, StringViewTo8)
  SV(uint64_t, StringViewToU64) SV(uint32_t, StringViewToU32) SV(uint16_t, StringViewToU16) SV(uint8_t, StringViewToU8)
}
// ---- floating point: every exponent with boundary mantissas, and decimals
static void check_float(double d, const std::string &got, const char *what)
{
  EN_CHECK(got.size() <= 24, "%s is too long | %s", what, E(got).c_str());
  if (std::isnan(d)) { EN_CHECK(got.find("nan") != std::string::npos || got.find("NaN") != std::string::npos, "%s: NaN is printed wrong | %s", what, E(got).c_str()); return; }
  char *end = 0;
  double r = strtod(got.c_str(), &end);
  EN_CHECK(!got.empty() && *end == 0, "%s isn't a number | %.17g as %s", what, d, E(got).c_str());
  if (std::isinf(d)) { EN_CHECK(r == d, "%s: infinity is printed wrong | %s", what, E(got).c_str()); return; }
  EN_CHECK(std::signbit(r) == std::signbit(d), "%s has a wrong sign | %.17g as %s", what, d, E(got).c_str());
  // 12 significant digits; the last one of a denormal may cost more
  double err = fabs(r - d), tol = fabs(d) * 5.1e-12;
  EN_CHECK(err <= tol || (fabs(d) < 1e-300 && err <= 1e-311) || std::isinf(r), "%s is printed wrong | %.17g as %s", what, d, E(got).c_str());
  if (std::isinf(r)) EN_CHECK(fabs(d) > 1.79769313486e308, "%s is printed wrong | %.17g as %s", what, d, E(got).c_str());
}
static void float_one(double d)
{
  en::step();
  LexicalStream<kCastStreamSize> s;
  s << d;
  check_float(d, std::string(s.data(), s.size()), "a double");
  std::string c = lexical_cast<std::string>(d);
  check_float(d, c, "lexical_cast<string> of a double");
  if (fabs(d) < 3e38 && fabs(d) > 2e-38) {
    LexicalStream<kCastStreamSize> t;
    t << (float)d;
    check_float((double)(float)d, std::string(t.data(), t.size()), "a float");
  }
}
EN_CASE("P29", lexical_float_bits, 0, 0)
{
  static const uint64_t MAN[] = {0, 1, 0xFFFFFFFFFFFFFull, 0x8000000000000ull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull, 0x7FFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull};
  uint64_t bits = (uint64_t)en::ch(2) << 63 | (uint64_t)en::ch(2048) << 52 | en::pick(MAN);
  double d;
  memcpy(&d, &bits, 8);
  en::op("the double %.17g", d);
  float_one(d);
}
EN_CASE("P29", lexical_float_decimal, 0, 1)
{
  static const double DIG[] = {1, 9, 1.5, 9.99999999999, 9.999999999999, 9.99999999999951, 1.00000000001, 1.000000000001, 123456789012.0, 999999999999.0, 0.1, 3.14159265358979};
  double d = en::pick(DIG);
  int e = en::ch(601) - 300;
  d *= pow(10, e);
  if (en::flip()) d = -d;
  en::op("the double %.17g", d);
  float_one(d);
}
// ---- pointers, booleans, characters
EN_CASE("P29", lexical_pointer, 0, 0)
{
  int hi = en::ch(64), lo = en::ch(64), d = en::ch(3) - 1;
  uintptr_t u = ((uintptr_t)1 << hi | (uintptr_t)1 << lo) + (uintptr_t)d;
  void *p = (void *)u;
  en::op("the pointer %p", p);
  en::step();
  LexicalStream<kCastStreamSize> s;
  s << (void const *)p;
  std::string got(s.data(), s.size());
  if (!p) { EN_CHECK(got == "(null)", "the null pointer is printed wrong | %s", E(got).c_str()); return; }
  EN_CHECK(got.size() > 2 && got[0] == '0' && (got[1] == 'x' || got[1] == 'X'), "a pointer is printed without 0x | %s", E(got).c_str());
  char *end = 0;
  errno = 0;
  uintptr_t r = strtoull(got.c_str(), &end, 16);
  EN_CHECK(*end == 0 && !errno && r == u, "a pointer is printed wrong | %p as %s", p, E(got).c_str());
  s.reset();
  s << true << false << 'c';
  std::string b(s.data(), s.size());
  EN_CHECK(b == "TrueFalsec", "booleans are printed wrong | %s", E(b).c_str());
}
// ---- the space that is left
template <unsigned SZ> static void space(int used)
{
  typedef detail::FixedBuffer<SZ> Buf;
  std::unique_ptr<Buf> hold(new Buf);
  Buf &b = *hold;
  std::string want((size_t)used, 'a');
  b.Append(want.data(), (unsigned)want.size());
  for (int k = 0; k < 2; ++k) {
    int kind = en::ch(11);
    std::string full; bool text = false;
    unsigned reserved = 0;
    en::step();
    switch (kind) {
    case 0: { int n = en::ch(4); static const int L[] = {0, 1, 7, (int)SZ + 3}; full = std::string((size_t)L[n], char('b' + k)); Own o(full); text = true; b.Append(o.v()); break; }
    case 1: full = dec((Big)std::numeric_limits<long>::min()); reserved = 33; b.appendInt(std::numeric_limits<long>::min()); break;
    case 2: full = dec((Big)std::numeric_limits<unsigned long>::max()); reserved = 33; b.appendInt(std::numeric_limits<unsigned long>::max()); break;
    case 3: full = "7"; reserved = 33; b.appendInt(7); break;
    case 4: full = "True"; text = true; b.appendBool(true); break;
    case 5: full = "False"; text = true; b.appendBool(false); break;
    case 6: full = "z"; text = true; b.appendChar('z'); break;
    case 7: full = "-1.23456789012e-300"; reserved = 33; b.appendFloat(-1.23456789012e-300); break;
    case 8: full = "(null)"; reserved = 7; b.appendPtr(nullptr); break;
    case 9: full = "0xFFFFFFFFFFFFFFFF"; reserved = 19; b.appendPtr((void *)~(uintptr_t)0); break;
    case 10: full = "1"; reserved = 33; b.appendFloat(1); break;
    }
    unsigned avail = SZ - (unsigned)want.size(); // one for the terminator
    std::string got(b.data(), b.len());
    EN_CHECK(b.len() < SZ, "the text is longer than the buffer | %u bytes, appended %s behind %zu", SZ, E(full).c_str(), want.size());
    EN_CHECK(got.compare(0, want.size(), want) == 0, "the text before is changed | appended %s behind %zu: %s", E(full).c_str(), want.size(), E(got).c_str());
    std::string tail = got.substr(want.size());
    if (text) // as much of it as there is space for
      EN_CHECK(tail == full.substr(0, avail - 1), "text isn't cut at the end of the buffer | %u left, %s becomes %s", avail, E(full).c_str(), E(tail).c_str());
    else // all of it or nothing
      EN_CHECK(tail == full || (tail.empty() && avail < reserved), "a number is printed wrong at the end of the buffer | %u left, %s becomes %s", avail, E(full).c_str(), E(tail).c_str());
    EN_CHECK(b.data()[b.len()] == 0, "the text isn't terminated | %s behind %zu", E(full).c_str(), want.size());
    EN_CHECK(b.ToStringView().ToString() == got && b.avali() == SZ - b.len() && b.empty() == got.empty(), "the view of the buffer is wrong | %s", E(got).c_str());
    want = got;
  }
  b.reset();
  EN_CHECK(b.empty() && b.len() == 0 && b.avali() == SZ, "the reset buffer isn't empty |");
}
EN_CASE("P29", lexical_space, 0, 0)
{
  if (en::flip()) { int u = en::ch(48); en::op("%d bytes used of 48", u); space<48>(u); }
  else { int u = en::ch(40); en::op("%d bytes used of 4096", 4096 - 1 - u); space<4096>(4096 - 1 - u); }
}
// a log stream near its end
EN_CASE("P29", lexical_stream_space, 0, 0)
{
  int left = en::ch(70);
  std::unique_ptr<LogStream> hold(new LogStream);
  LogStream &s = *hold;
  std::string fill((size_t)(4095 - left), 'f');
  s << fill;
  EN_CHECK(s.size() == fill.size(), "text that fits is cut | %zu becomes %u", fill.size(), s.size());
  std::string want = fill;
  for (int k = 0; k < 2; ++k) {
    en::step();
    int kind = en::ch(6);
    std::string full;
    switch (kind) {
    case 0: full = "hello, world"; s << "hello, world"; break;
    case 1: full = std::string(40, 's'); s << full; break;
    case 2: full = "-9223372036854775808"; s << std::numeric_limits<long long>::min(); break;
    case 3: full = "c"; s << 'c'; break;
    case 4: full = "2.5"; s << 2.5; break;
    case 5: full = std::string(20, 'v'); { Own o(full); s << o.v(); } break;
    }
    std::string got(s.data(), s.size());
    size_t avail = 4095 - want.size();
    EN_CHECK(got.size() <= 4095 && got.compare(0, want.size(), want) == 0, "the stream overflows | %s with %zu left", E(full).c_str(), avail);
    std::string tail = got.substr(want.size());
    if (kind == 2 || kind == 4) EN_CHECK(tail == full || (tail.empty() && avail < 33), "a number is printed wrong at the end of the stream | %s becomes %s", E(full).c_str(), E(tail).c_str());
    else EN_CHECK(tail == full.substr(0, avail), "text isn't cut at the end of the stream | %s becomes %s", E(full).c_str(), E(tail).c_str());
    want = got;
  }
}
