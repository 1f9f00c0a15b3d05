// P30: format strings and concatenation.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/string/fmt_stream.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/string_util.h"
#include <setjmp.h>
#include <limits>
#include <memory>
using namespace kanon;
static std::string E(const std::string &s) { return "\"" + en::esc(s) + "\""; }
struct Own { // exactly sized, not terminated
  std::unique_ptr<char[]> p; size_t n;
  explicit Own(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  StringView v() const { return StringView(p.get(), n); }
};
// A format that doesn't match its arguments is reported by the assertion.
static jmp_buf reported;
static bool catching;
extern "C" [[noreturn]] void __real___assert_fail(const char *, const char *, unsigned, const char *);
extern "C" [[noreturn]] void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
  if (catching) { catching = false; longjmp(reported, 1); }
  __real___assert_fail(e, f, l, fn);
}
// What the format gives: false if it doesn't match.
static bool expect(const std::string &f, const std::vector<std::string> &args, std::string *out)
{
  size_t a = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { *out += f[i]; continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { *out += '%'; ++i; continue; }
    if (a == args.size()) return false;
    *out += args[a++];
  }
  return a == args.size();
}
static std::string format(int maxlen)
{
  static const char AL[] = {'%', 'a', 0};
  int n = en::ch(maxlen + 1);
  std::string f;
  for (int i = 0; i < n; ++i) f += en::pick(AL);
  return f;
}
template <unsigned SZ, class... A> static void run(const std::string &f, const std::vector<std::string> &texts, A... args)
{
  en::op("%s with %zu arguments", E(f).c_str(), texts.size());
  std::string want;
  bool ok = expect(f, texts, &want);
  static FmtStream<SZ> *s; // the jump must not lose it
  static Own *o;
  delete s; delete o;
  s = new FmtStream<SZ>; o = new Own(f);
  en::step();
  bool reportd = false;
  if (setjmp(reported) == 0) {
    catching = true;
    s->Serialize(o->v(), args...);
    catching = false;
  } else reportd = true;
  if (!ok) { EN_CHECK(reportd, "a format that doesn't match its arguments isn't reported | %s with %zu arguments gives %s", E(f).c_str(), texts.size(), E(s->ToStringView().ToString()).c_str()); return; }
  EN_CHECK(!reportd, "a format that matches its arguments is reported as mismatched | %s with %zu arguments", E(f).c_str(), texts.size());
  std::string got = s->ToStringView().ToString();
  EN_CHECK(got == want, "a format gives wrong text | %s with %zu arguments gives %s, expected %s", E(f).c_str(), texts.size(), E(got).c_str(), E(want).c_str());
  EN_CHECK(s->GetData()[got.size()] == 0, "the formatted text isn't terminated | %s", E(f).c_str());
}
static void *const PTR = (void *)0x12;
#define STR(x) std::string(x)
EN_CASE("P30", fmt_text, 10, 13)
{
  en::no_leak_check();
  std::string f = format(en::depth());
  std::string str("st\0r", 4);
  switch (en::ch(5)) {
  case 0: run<4096>(f, {}); break;
  case 1: run<4096>(f, {"-7"}, -7); break;
  case 2: run<4096>(f, {"s%", "2.5"}, "s%", 2.5); break;
  case 3: run<4096>(f, {str, "True", "%"}, str, true, '%'); break;
  case 4: run<4096>(f, {"1", "2", "3", "4"}, 1, 2u, 3l, (short)4); break;
  }
}
// every kind of argument at every place
static const struct { const char *text; } KIND[] = {{"-2147483648"}, {"255"}, {"18446744073709551615"}, {"False"}, {"c"}, {"-0.5"}, {"cs%tr"}, {""}, {"std"}, {"view"}, {"0x0000000000000012"}, {"(null)"}, {"-32768"}, {"1e+300"}};
template <int N> struct Nth {
  template <class... A> static void go(const std::string &f, std::vector<std::string> t, A... a)
  {
    int k = en::ch(14);
    t.push_back(KIND[k].text);
    switch (k) {
    case 0: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., -2147483647 - 1); break;
    case 1: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., (unsigned char)255); break;
    case 2: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., ~0ul); break;
    case 3: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., false); break;
    case 4: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., 'c'); break;
    case 5: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., -0.5f); break;
    case 6: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., "cs%tr"); break;
    case 7: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., (char *)""); break;
    case 8: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., std::string("std")); break;
    case 9: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., StringView("view")); break;
    case 10: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., PTR); break;
    case 11: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., nullptr); break;
    case 12: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., (short)-32768); break;
    case 13: Nth<N == 10 ? 0 : N - 1>::go(f, t, a..., 1e300); break;
    }
  }
};
// the last of two arguments
struct Last {
  template <class... A> static void go(const std::string &f, std::vector<std::string> t, A... a)
  {
    switch (en::ch(3)) {
    case 0: t.push_back("-8"); run<4096>(f, t, a..., -8); break;
    case 1: t.push_back("%%"); run<4096>(f, t, a..., "%%"); break;
    case 2: t.push_back("1.5"); run<4096>(f, t, a..., 1.5); break;
    }
  }
};
template <> struct Nth<1> {
  template <class... A> static void go(const std::string &f, std::vector<std::string> t, A... a) { Last::go(f, t, a...); }
};
template <> struct Nth<0> {
  template <class... A> static void go(const std::string &f, std::vector<std::string> t, A... a) { run<4096>(f, t, a...); }
};
EN_CASE("P30", fmt_kinds, 0, 0)
{
  en::no_leak_check();
  static const char *const ONE[] = {"%", "a%", "%b", "%%%", "% %%", "a%b"};
  static const char *const TWO[] = {"%a%", "%%%%%a%", "% %", "a%b%c", "%%a%%%c%", "%,%%,%"};
  if (en::flip()) Nth<10>::go(en::pick(ONE), {});
  else Nth<2>::go(en::pick(TWO), {});
}
// a small buffer: the text is cut, nothing is overrun, a number is whole or absent
EN_CASE("P30", fmt_space, 0, 0)
{
  en::no_leak_check();
  int n = en::ch(52), m = en::ch(3), kind = en::ch(5);
  std::string head((size_t)n, 'a'), tail((size_t)m * 7, 'z'), f = head + "%" + tail, full;
  en::op("%d characters, kind %d, %d characters", n, kind, m * 7);
  Own o(f);
  std::unique_ptr<FmtStream<48>> s(new FmtStream<48>);
  en::step();
  switch (kind) {
  case 0: full = "-9223372036854775808"; s->Serialize(o.v(), std::numeric_limits<long>::min()); break;
  case 1: full = "some text"; s->Serialize(o.v(), "some text"); break;
  case 2: full = "-1.23456789012e-300"; s->Serialize(o.v(), -1.23456789012e-300); break;
  case 3: full = "0x0000000000000012"; s->Serialize(o.v(), PTR); break;
  case 4: full = std::string(60, 's'); s->Serialize(o.v(), full); break;
  }
  std::string got = s->ToStringView().ToString();
  EN_CHECK(got.size() < 48, "the text is longer than its buffer | %zu", got.size());
  std::string with = (head + full + tail).substr(0, 47), without = (head + tail).substr(0, 47);
  bool number = kind == 0 || kind == 2 || kind == 3;
  EN_CHECK(got == with || (number && got == without && 48 - n < 33), "text at the end of the buffer is wrong | %d, kind %d: %s", n, kind, E(got).c_str());
}
// ---- concatenation
template <int N> struct Cat {
  template <class... A> static void go(const std::string &want, A &&... a)
  {
    static const std::string s0, s1("string"), s2("a\0b", 3);
    static const StringView v0, v1("view", 4), v2("x\0", 2);
    switch (en::ch(4)) {
    case 0: { char c = en::flip() ? 'c' : '\0'; Cat<N - 1>::go(want + c, a..., c); break; }
    case 1: { const char *p = en::flip() ? "lit" : ""; Cat<N - 1>::go(want + p, a..., p); break; }
    case 2: { static const std::string *const S[] = {&s0, &s1, &s2}; const std::string &x = *en::pick(S); Cat<N - 1>::go(want + x, a..., x); break; }
    case 3: { static const StringView *const V[] = {&v0, &v1, &v2}; const StringView &x = *en::pick(V); Cat<N - 1>::go(want + x.ToString(), a..., x); break; }
    }
  }
};
template <> struct Cat<0> {
  template <class A, class... B> static void go(const std::string &want, A &&a, B &&... b)
  {
    en::op("the concatenation %s of %zu pieces", E(want).c_str(), 1 + sizeof...(b));
    en::step();
    std::string got = StrCat(a, b...);
    EN_CHECK(got == want, "StrCat is wrong | %s, expected %s", E(got).c_str(), E(want).c_str());
    int n = en::ch(3) * 15;
    std::string s((size_t)n, 'p'), w = s + want;
    StrAppend(s, a, b...);
    EN_CHECK(s == w, "StrAppend is wrong | %s, expected %s", E(s).c_str(), E(w).c_str());
    StrAppend(s, a, b...);
    EN_CHECK(s == w + want, "StrAppend twice is wrong | %s, expected %s", E(s).c_str(), E(w + want).c_str());
  }
  static void go(const std::string &) {}
};
EN_CASE("P30", fmt_concat, 0, 0) { Cat<3>::go(""); }
// a stream of everything is the concatenation
EN_CASE("P30", fmt_stream_values, 4, 5)
{
  std::unique_ptr<LexicalStream<4096>> s(new LexicalStream<4096>);
  std::string want;
  for (int i = 0; i < en::depth(); ++i) {
    en::step();
    switch (en::ch(12)) {
    case 0: *s << -5; want += "-5"; break;
    case 1: *s << 5u; want += "5"; break;
    case 2: *s << 'c'; want += 'c'; break;
    case 3: *s << "lit"; want += "lit"; break;
    case 4: *s << std::string("a\0b", 3); want += std::string("a\0b", 3); break;
    case 5: *s << StringView("view", 2); want += "vi"; break;
    case 6: *s << 0.25; want += "0.25"; break;
    case 7: *s << true; want += "True"; break;
    case 8: *s << FmtStream<4096>("<%>", 3); want += "<3>"; break;
    case 9: *s << (void *)0; want += "(null)"; break;
    case 10: *s << 1ll << (unsigned short)2; want += "12"; break;
    case 11: s->reset(); want.clear(); break;
    }
    std::string got(s->data(), s->size());
    EN_CHECK(got == want, "the stream differs from what was written | %s, expected %s", E(got).c_str(), E(want).c_str());
  }
}
