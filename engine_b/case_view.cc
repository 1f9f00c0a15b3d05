// P28: kanon::StringView against std::string. Every view is given bytes of its
// own in an exactly sized heap block, so that a read beyond them is caught.
#include "enumer.h"
#include "kanon/string/string_view.h"
#include "kanon/string/string_util.h"
#include <strings.h>
#include <memory>
#include <stdexcept>
using kanon::StringView;
typedef StringView V;
static const size_t NP = V::npos;
struct Own {
  std::unique_ptr<char[]> p; size_t n;
  explicit Own(const std::string &s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), n); if (!n) p.reset(new char[0]); }
  V v() const { return V(p.get(), n); }
};
static std::string draw(const char *alpha, int k, int maxlen)
{
  int n = en::ch(maxlen + 1);
  std::string s;
  for (int i = 0; i < n; ++i) s += alpha[en::ch(k)];
  return s;
}
static std::string E(const std::string &s) { return "\"" + en::esc(s) + "\""; }
#define SAME(what, got, want) do { en::step(); auto g_ = (got); auto w_ = (want); EN_CHECK((long long)g_ == (long long)w_, "%s is wrong | %s in %s pos %lld: %lld, expected %lld", what, E(b).c_str(), E(a).c_str(), (long long)pos, (long long)g_, (long long)w_); } while (0)
static int sg(int x) { return x < 0 ? -1 : x > 0; }

EN_CASE("P28", view_search_string, 0, 1)
{
  int deep = en::depth();
  std::string a = draw("ab\0", 3, deep ? 10 : 8), b = draw("ab\0", 3, 4);
  en::op("search %s in %s", E(b).c_str(), E(a).c_str());
  Own ha(a), hb(b); V v = ha.v(), w = hb.v();
  size_t pos = 0;
  SAME("find", v.find(w), a.find(b));
  SAME("rfind", v.rfind(w), a.rfind(b));
  SAME("find_first_of", v.find_first_of(w), a.find_first_of(b));
  SAME("find_last_of", v.find_last_of(w), a.find_last_of(b));
  SAME("find_first_not_of", v.find_first_not_of(w), a.find_first_not_of(b));
  SAME("find_last_not_of", v.find_last_not_of(w), a.find_last_not_of(b));
  SAME("contains", v.contains(w), a.find(b) != std::string::npos);
  SAME("starts_with", v.starts_with(w), a.compare(0, b.size(), b) == 0);
  SAME("ends_with", v.ends_with(w), a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0);
  for (pos = 0; pos <= a.size() + 2; ++pos) {
    if (pos <= a.size()) SAME("find from a position", v.find(w, pos), a.find(b, pos));
    SAME("rfind from a position", v.rfind(w, pos), a.rfind(b, pos));
    SAME("find_first_of from a position", v.find_first_of(w, pos), a.find_first_of(b, pos));
    SAME("find_last_of from a position", v.find_last_of(w, pos), a.find_last_of(b, pos));
    SAME("find_first_not_of from a position", v.find_first_not_of(w, pos), a.find_first_not_of(b, pos));
    SAME("find_last_not_of from a position", v.find_last_not_of(w, pos), a.find_last_not_of(b, pos));
  }
  // split
  std::vector<std::string> want;
  if (b.empty()) want.push_back(a);
  else for (size_t at = 0;;) {
    size_t e = a.find(b, at);
    want.push_back(a.substr(at, e == std::string::npos ? e : e - at));
    if (e == std::string::npos) break;
    at = e + b.size();
  }
  auto got = v.split(w);
  EN_CHECK(got == want, "split is wrong | %s by %s gives %zu parts, expected %zu", E(a).c_str(), E(b).c_str(), got.size(), want.size());
  if (b.empty()) {
    std::vector<std::string> sp;
    auto d = v.split();
    EN_CHECK(d.size() == 1 && d[0] == a, "split by the space is wrong | %s", E(a).c_str());
  }
}
EN_CASE("P28", view_search_char, 0, 1)
{
  static const char AL[] = {'a', 'b', 0, '\x80'};
  std::string a = draw(AL, 4, en::depth() ? 9 : 8);
  char c = en::pick(AL);
  std::string b(1, c);
  en::op("search %s in %s", E(b).c_str(), E(a).c_str());
  Own ha(a); V v = ha.v();
  size_t pos = 0;
  SAME("find(char)", v.find(c), a.find(c));
  SAME("rfind(char)", v.rfind(c), a.rfind(c));
  SAME("find_first_of(char)", v.find_first_of(c), a.find_first_of(c));
  SAME("find_last_of(char)", v.find_last_of(c), a.find_last_of(c));
  SAME("find_first_not_of(char)", v.find_first_not_of(c), a.find_first_not_of(c));
  SAME("find_last_not_of(char)", v.find_last_not_of(c), a.find_last_not_of(c));
  SAME("contains(char)", v.contains(c), a.find(c) != std::string::npos);
  SAME("starts_with(char)", v.starts_with(c), !a.empty() && a[0] == c);
  SAME("ends_with(char)", v.ends_with(c), !a.empty() && a.back() == c);
  for (pos = 0; pos <= a.size() + 2; ++pos) {
    SAME("find(char) from a position", v.find(c, pos), a.find(c, pos));
    SAME("rfind(char) from a position", v.rfind(c, pos), a.rfind(c, pos));
    SAME("find_first_of(char) from a position", v.find_first_of(c, pos), a.find_first_of(c, pos));
    SAME("find_last_of(char) from a position", v.find_last_of(c, pos), a.find_last_of(c, pos));
    SAME("find_first_not_of(char) from a position", v.find_first_not_of(c, pos), a.find_first_not_of(c, pos));
    SAME("find_last_not_of(char) from a position", v.find_last_not_of(c, pos), a.find_last_not_of(c, pos));
  }
}
static std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = c - 'A' + 'a'; return s; }
static std::string upp(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = c - 'a' + 'A'; return s; }
EN_CASE("P28", view_compare, 4, 5)
{
  static const char AL[] = {0, 'a', 'A', 'b', '_', '\xe1'};
  std::string a = draw(AL, 6, en::depth()), b = draw(AL, 6, 4);
  en::op("compare %s and %s", E(a).c_str(), E(b).c_str());
  Own ha(a), hb(b); V v = ha.v(), w = hb.v();
  size_t pos = 0;
  SAME("compare", sg(v.compare(w)), sg(a.compare(b)));
  SAME("caseCompare", sg(v.caseCompare(w)), sg(low(a).compare(low(b))));
  if (b.size() == 1) {
    SAME("compare(char)", sg(v.compare(b[0])), sg(a.compare(b)));
    SAME("caseCompare(char)", sg(v.caseCompare(b[0])), sg(low(a).compare(low(b))));
  }
  SAME("==", v == w, a == b); SAME("!=", v != w, a != b);
  SAME("<", v < w, a < b); SAME(">", v > w, a > b); SAME("<=", v <= w, a <= b); SAME(">=", v >= w, a >= b);
#define LIT(l) { std::string b(l, sizeof l - 1); SAME("== literal", v == l, a == b); SAME("!= literal", v != l, a != b); SAME("< literal", v < l, a < b); SAME("> literal", v > l, a > b); SAME("<= literal", v <= l, a <= b); SAME(">= literal", v >= l, a >= b); }
  if (b.empty()) { LIT("") LIT("a") LIT("A\0a") LIT("\0") LIT("b_") LIT("\xe1") }
  if (b.empty()) {
    EN_CHECK(v.ToString() == a, "ToString | %s", E(a).c_str());
    EN_CHECK(v.ToUpperString() == upp(a), "ToUpperString | %s gives %s", E(a).c_str(), E(v.ToUpperString()).c_str());
    EN_CHECK(v.ToLowerString() == low(a), "ToLowerString | %s gives %s", E(a).c_str(), E(v.ToLowerString()).c_str());
  }
  V x = v, y = w;
  x.swap(y); EN_CHECK(x.data() == w.data() && x.size() == b.size() && y.data() == v.data() && y.size() == a.size(), "swap | %s", E(a).c_str());
  swap(x, y); EN_CHECK(x == v && y == w, "swap | %s", E(a).c_str());
  x.set(w.data(), w.size()); EN_CHECK(x == w, "set | %s", E(a).c_str());
  x.reset(); EN_CHECK(x.empty() && x.size() == 0 && x.begin() == x.end() && x == "", "reset | %s", E(a).c_str());
}
EN_CASE("P28", view_slice, 8, 9)
{
  std::string a = draw("ab\0", 3, en::depth());
  en::op("slices of %s", E(a).c_str());
  Own ha(a); const V v = ha.v();
  EN_CHECK(v.size() == a.size() && v.empty() == a.empty() && std::string(v.begin(), v.end()) == a, "size or iteration | %s", E(a).c_str());
  V s(a), z(a.c_str());
  EN_CHECK(s.size() == a.size() && z.size() == strlen(a.c_str()), "construction | %s", E(a).c_str());
  V u((unsigned char const *)a.c_str()), u2((unsigned char const *)a.data(), a.size());
  EN_CHECK(u == z && u2 == s, "construction from unsigned char | %s", E(a).c_str());
  if (!a.empty()) EN_CHECK(v.front() == a.front() && v.back() == a.back(), "front or back | %s", E(a).c_str());
  for (size_t i = 0; i < a.size() + 3; ++i) {
    bool threw = false;
    try { char c = v.at(i); EN_CHECK(i < a.size() && c == a[i] && v[i] == c, "at | %s %zu", E(a).c_str(), i); } catch (std::exception &) { threw = true; }
    EN_CHECK(threw == (i >= a.size()), "at does not report a bad position | %s %zu", E(a).c_str(), i);
    for (size_t k = 0; k <= a.size() + 3; ++k) {
      size_t n = k == a.size() + 3 ? NP : k;
      en::step();
      V t = v.substr(i, n);
      EN_CHECK(t.data() >= v.data() && t.data() + t.size() <= v.data() + v.size(), "substr leaves the viewed bytes | %s %zu %zu", E(a).c_str(), i, n);
      if (i <= a.size()) EN_CHECK(t.ToString() == a.substr(i, n), "substr | %s %zu %zu gives %s", E(a).c_str(), i, n, E(t.ToString()).c_str());
      if (i <= a.size() && (n == NP || n >= i)) {
        V r = v.substr_range(i, n);
        EN_CHECK(r.ToString() == a.substr(i, n == NP ? NP : n - i), "substr_range | %s %zu %zu gives %s", E(a).c_str(), i, n, E(r.ToString()).c_str());
      }
      size_t want = i > a.size() ? 0 : std::min(n, a.size() - i);
      std::unique_ptr<char[]> d(new char[want]);
      bool thr = false;
      try { size_t g = v.copy(d.get(), n, i); EN_CHECK(g == want && memcmp(d.get(), a.data() + i, want) == 0, "copy | %s count %zu pos %zu copies %zu", E(a).c_str(), n, i, g); } catch (std::out_of_range &) { thr = true; }
      EN_CHECK(thr == (i > a.size()), "copy does not treat the position as the standard does | %s count %zu pos %zu", E(a).c_str(), n, i);
    }
    if (i <= a.size()) {
      V p = v; p.remove_prefix(i); EN_CHECK(p.ToString() == a.substr(i), "remove_prefix | %s %zu", E(a).c_str(), i);
      V q = v; q.remove_suffix(i); EN_CHECK(q.ToString() == a.substr(0, a.size() - i), "remove_suffix | %s %zu", E(a).c_str(), i);
    }
  }
}
// the free functions on zero-terminated text
EN_CASE("P28", str_case_compare, 4, 5)
{
  static const char AL[] = {'a', 'A', 'b', 'B', '_', '\xe1'};
  std::string a, b;
  { int n = en::ch(en::depth() + 1); for (int i = 0; i < n; ++i) a += en::pick(AL); }
  { int n = en::ch(4); for (int i = 0; i < n; ++i) b += en::pick(AL); }
  en::op("compare %s and %s", E(a).c_str(), E(b).c_str());
  std::unique_ptr<char[]> x(new char[a.size() + 1]), y(new char[b.size() + 1]);
  memcpy(x.get(), a.c_str(), a.size() + 1); memcpy(y.get(), b.c_str(), b.size() + 1);
  size_t pos = 0;
  SAME("StrCaseCompare", sg(kanon::StrCaseCompare(x.get(), y.get())), sg(low(a).compare(low(b))));
  for (pos = 0; pos < 7; ++pos) SAME("StrNCaseCompare", sg(kanon::StrNCaseCompare(x.get(), y.get(), pos)), sg(low(a).substr(0, pos).compare(low(b).substr(0, pos))));
}
