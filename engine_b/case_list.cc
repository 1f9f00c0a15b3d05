// P26: kanon/algo/forward_list against std::list
#include "tracked.h"
#include "kanon/algo/forward_list.h"
#include <list>
#include <vector>
#include <algorithm>
long Tracked::live;
typedef zstl::ForwardList<Tracked> L;
typedef std::list<Tracked> M;
static std::string show(const M &m) { std::string s = "["; for (auto &x : m) s += std::to_string(x.key) + "." + std::to_string(x.id) + " "; return s + "]"; }
static std::string show(const L &l) { std::string s = "["; int n = 0; for (auto it = l.begin(); it != l.end() && n < 50; ++it, ++n) s += std::to_string((*it).key) + "." + std::to_string((*it).id) + " "; return s + "]"; }
static void same(L &l, M &m, const char *which)
{
  const L &cl = l;
  size_t n = 0;
  auto it = l.begin(); auto ct = cl.begin();
  for (auto &x : m) {
    EN_CHECK(it != l.end(), "list %s is %s, expected %s", which, show(l).c_str(), show(m).c_str());
    (*it).chk();
    EN_CHECK((*it).key == x.key && (*it).id == x.id, "list %s is %s, expected %s", which, show(l).c_str(), show(m).c_str());
    EN_CHECK(&*it == &*ct, "const and plain iterators differ");
    ++it; ct++; ++n;
  }
  EN_CHECK(it == l.end() && ct == cl.end(), "list %s is %s, expected %s", which, show(l).c_str(), show(m).c_str());
  EN_CHECK(l.size() == n, "list %s counts %zu elements, has %zu", which, l.size(), n);
  EN_CHECK(l.empty() == m.empty(), "list %s empty() is wrong", which);
  if (n) {
    EN_CHECK(l.front().id == m.front().id, "list %s front", which);
    EN_CHECK(l.back().key == m.back().key && l.back().id == m.back().id, "list %s back() is %d.%d, expected %d.%d", which, l.back().key, l.back().id, m.back().key, m.back().id);
    EN_CHECK(l.before_end().next() == l.end(), "list %s before_end", which);
    EN_CHECK(&*l.before_begin().next() == &l.front(), "list %s before_begin", which);
  } else { EN_CHECK(l.before_end() == l.before_begin(), "list %s before_end of an empty list", which); }
}
static L::Iterator before(L &l, int i) { auto it = l.before_begin(); while (i--) ++it; return it; }
static M::iterator at(M &m, int i) { auto it = m.begin(); std::advance(it, i); return it; }

struct St { L a, b; M ma, mb; int id = 0; Tracked v(int k) { return Tracked(k, ++id); } };
static void step(St &s, int group)
{
  L &a = s.a, &b = s.b; M &ma = s.ma, &mb = s.mb;
  int n = (int)ma.size(), nb = (int)mb.size();
  auto P = [&](int lim) { return en::ch(lim); }; // position
  switch (group) {
  case 0: { int k = en::ch(2); en::op("push_front(%d)", k); Tracked v = s.v(k); a.push_front(v); ma.push_front(v); break; }
  case 1: { int k = en::ch(2); en::op("push_back(%d)", k); Tracked v = s.v(k); a.push_back(v); ma.push_back(v); break; }
  case 2: { int p = P(n + 1); en::op("insert_after(%d, 1)", p); Tracked v = s.v(1); a.insert_after(before(a, p), v); ma.insert(at(ma, p), v); break; }
  case 3: { if (!n) en::skip(); en::op("pop_front"); a.pop_front(); ma.pop_front(); break; }
  case 4: { if (!n) en::skip(); int p = P(n); en::op("erase_after(%d)", p); auto r = a.erase_after(before(a, p)); auto mr = ma.erase(at(ma, p)); EN_CHECK(mr == ma.end() ? r == a.end() : (r != a.end() && (*r).id == mr->id), "erase_after returns a wrong position"); break; }
  case 5: { int p = P(n + 1); int q = p + en::ch(n - p + 1); en::op("erase_after(%d..%d)", p, q); auto r = a.erase_after(before(a, p), q == n ? a.end() : before(a, q + 1)); auto mr = ma.erase(at(ma, p), at(ma, q)); EN_CHECK(mr == ma.end() ? r == a.end() : (r != a.end() && (*r).id == mr->id), "erase_after(range) returns a wrong position"); break; }
  case 6: { if (!n) en::skip(); int p = P(n); int back = en::ch(3); en::op("extract_after(%d) then reuse %d", p, back); auto node = a.extract_after(before(a, p)); Tracked v = *at(ma, p); ma.erase(at(ma, p)); if (back == 0) { a.push_back(node); ma.push_back(v); } else if (back == 1) { a.push_front(node); ma.push_front(v); } else { b.push_back(node); mb.push_back(v); } break; }
  case 7: { if (!n) en::skip(); en::op("push_back(extract_front)"); a.push_back(a.extract_front()); ma.splice(ma.end(), ma, ma.begin()); break; }
  case 8: { int c = en::ch(4); en::op("assign(%d, 7)", c); Tracked v = s.v(7); a.assign((size_t)c, v); ma.assign(c, v); break; }
  case 9: { int c = en::ch(4); en::op("assign(range of %d)", c); std::vector<Tracked> v; for (int i = 0; i < c; ++i) v.push_back(s.v(i)); a.assign(v.begin(), v.end()); ma.assign(v.begin(), v.end()); break; }
  case 10: { int c = en::ch(5); en::op("resize(%d, 3)", c); Tracked v = s.v(3); a.resize((size_t)c, v); ma.resize(c, v); break; }
  case 11: { en::op("clear"); a.clear(); ma.clear(); break; }
  case 12: { en::op("reverse"); a.reverse(); ma.reverse(); break; }
  case 13: { int how = en::ch(2); en::op(how ? "sort(>)" : "sort()"); if (how) { auto gt = [](Tracked const &x, Tracked const &y) { return y < x; }; a.sort(gt); ma.sort(gt); } else { a.sort(); ma.sort(); } break; }
  case 14: { int k = en::ch(2); en::op("remove(%d)", k); Tracked v(k); size_t c0 = ma.size(); ma.remove(v); size_t r = a.remove(v); EN_CHECK(r == c0 - ma.size(), "remove() counts %zu, removed %zu", r, c0 - ma.size()); break; }
  case 15: { en::op("unique"); size_t c0 = ma.size(); ma.unique(); size_t r = a.unique(); EN_CHECK(r == c0 - ma.size(), "unique() counts %zu, removed %zu", r, c0 - ma.size()); break; }
  case 16: { int p = P(n + 1); en::op("splice_after(%d, b)", p); a.splice_after(before(a, p), b); ma.splice(at(ma, p), mb); break; }
  case 17: { if (!nb) en::skip(); int p = P(n + 1), q = P(nb); en::op("splice_after(%d, b, %d)", p, q); a.splice_after(before(a, p), b, before(b, q)); ma.splice(at(ma, p), mb, at(mb, q)); break; }
  case 18: { int p = P(n + 1), q = P(nb + 1), r = q + en::ch(nb - q + 1); en::op("splice_after(%d, b, %d..%d)", p, q, r); a.splice_after(before(a, p), b, before(b, q), r == nb ? b.end() : before(b, r + 1)); ma.splice(at(ma, p), mb, at(mb, q), at(mb, r)); break; }
  case 19: { en::op("sort both, merge"); a.sort(); b.sort(); ma.sort(); mb.sort(); a.merge(b); ma.merge(mb); break; }
  case 20: { en::op("swap"); a.swap(b); ma.swap(mb); break; }
  case 21: { en::op("b = a"); b = a; mb = ma; break; }
  case 22: { en::op("move a to a new list and back to b"); L c(std::move(a)); M mc(std::move(ma)); ma.clear(); same(a, ma, "moved-from"); same(c, mc, "moved-to"); b = std::move(c); mb = std::move(mc); break; }
  case 23: { en::op("copy-construct"); L c(a); same(c, ma, "copy"); break; }
  case 24: { en::op("emplace front/back/after"); a.emplace_front(5, ++s.id); ma.emplace_front(5, s.id); a.emplace_back(6, ++s.id); ma.emplace_back(6, s.id); a.emplace_after(a.cbefore_begin(), 4, ++s.id); ma.emplace_front(4, s.id); break; }
  case 25: { int p = P(n + 1), c = en::ch(3); en::op("insert_after(%d, %d x 2)", p, c); Tracked v = s.v(2); a.insert_after(before(a, p), (size_t)c, v); ma.insert(at(ma, p), c, v); break; }
  case 26: { int p = P(n + 1); en::op("insert_after(%d, range of b)", p); a.insert_after(before(a, p), b.cbegin(), b.cend()); ma.insert(at(ma, p), mb.begin(), mb.end()); break; }
  case 27: { int k = en::ch(3); en::op("search_before(%d)", k); Tracked v(k); auto it = a.search_before(v); auto mi = std::find(ma.begin(), ma.end(), v); if (mi == ma.end()) EN_CHECK(it == a.end(), "search_before finds what is not there"); else EN_CHECK(it != a.end() && it.next() != a.end() && (*it.next()).id == mi->id, "search_before finds another element"); break; }
  case 28: { en::op("compare"); bool eq = ma == mb, lt = ma < mb; EN_CHECK((a == b) == eq && (a != b) == !eq, "equality of %s and %s", show(ma).c_str(), show(mb).c_str()); EN_CHECK((a < b) == lt && (a >= b) == !lt && (b > a) == lt && (b <= a) == !lt, "order of %s and %s", show(ma).c_str(), show(mb).c_str()); break; }
  case 29: { en::op("a = a"); L &r = a; a = r; break; }
  case 30: { if (!n) en::skip(); int p = P(n), q = P(n + 1); en::op("splice_after(%d, a, %d) within one list", q, p); a.splice_after(before(a, q), a, before(a, p)); ma.splice(at(ma, q), ma, at(ma, p)); break; }
  case 31: { if (!n) en::skip(); en::op("remove(front())"); Tracked v = ma.front(); ma.remove(v); a.remove(a.front()); break; }
  case 32: { en::op("sort2"); a.sort2(); M t; for (auto it = a.begin(); it != a.end(); ++it) t.push_back(*it); EN_CHECK(t.size() == ma.size(), "sort2 loses elements"); EN_CHECK(std::is_sorted(t.begin(), t.end()), "sort2 gives %s", show(t).c_str()); auto idl = [](Tracked const &x, Tracked const &y) { return x.id < y.id; }; M u = t, w = ma; u.sort(idl); w.sort(idl); EN_CHECK(show(u) == show(w), "sort2 changes elements"); ma = t; break; }
  case 33: { int k = en::ch(2); en::op("remove_if(key==%d or 7)", k); auto pr = [k](Tracked const &x) { return x.key == k || x.key == 7; }; size_t c0 = ma.size(); ma.remove_if(pr); size_t r = a.remove_if(pr); EN_CHECK(r == c0 - ma.size(), "remove_if() counts %zu, removed %zu", r, c0 - ma.size()); break; }
  }
}
static const int NG = 34;
EN_CASE("P26", list_ops, 3, 4)
{
  long l0 = Tracked::live;
  {
    St s;
    // initial contents of both lists
    static const char *const INIT[] = {"|", "1|", "|0", "01|10", "110|1", "0|0101", "2101|21"};
    const char *p = en::pick(INIT);
    en::op("start with %s", p);
    for (; *p != '|'; ++p) { Tracked v = s.v(*p - '0'); s.a.push_back(v); s.ma.push_back(v); }
    for (++p; *p; ++p) { Tracked v = s.v(*p - '0'); s.b.push_back(v); s.mb.push_back(v); }
    for (int d = 0; d < en::depth(); ++d) {
      step(s, en::ch(NG));
      same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
    }
    // both ends still work
    Tracked v = s.v(9);
    s.a.push_back(v); s.ma.push_back(v); s.b.push_back(v); s.mb.push_back(v);
    same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
  }
  EN_CHECK(Tracked::live == l0, "%ld elements never destroyed", Tracked::live - l0);
}
// sorting, merging, unique and removal of every short content
EN_CASE("P26", list_contents, 6, 8)
{
  long l0 = Tracked::live;
  {
    St s;
    int n = en::ch(en::depth() + 1), what = en::ch(6);
    en::op("contents of %d elements, operation %d", n, what);
    for (int i = 0; i < n; ++i) { Tracked v = s.v(en::ch(3)); s.a.push_back(v); s.ma.push_back(v); }
    switch (what) {
    case 0: s.a.sort(); s.ma.sort(); break;
    case 1: s.a.unique(); s.ma.unique(); break;
    case 2: s.a.remove(Tracked(1)); s.ma.remove(Tracked(1)); break;
    case 3: s.a.reverse(); s.ma.reverse(); break;
    case 4: { // split at the middle, sort both parts, merge
      int h = n / 2;
      for (int i = 0; i < h; ++i) { s.b.push_back(s.a.extract_front()); s.mb.splice(s.mb.end(), s.ma, s.ma.begin()); }
      s.a.sort(); s.ma.sort(); s.b.sort(); s.mb.sort();
      same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
      s.a.merge(s.b); s.ma.merge(s.mb); break;
    }
    case 5: { s.a.sort2(); std::vector<Tracked> v; for (auto it = s.a.begin(); it != s.a.end(); ++it) v.push_back(*it); EN_CHECK(std::is_sorted(v.begin(), v.end()) && v.size() == (size_t)n, "sort2 gives %s", show(s.a).c_str()); s.ma.assign(v.begin(), v.end()); break; }
    }
    en::step();
    same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
    Tracked v = s.v(9); s.a.push_back(v); s.ma.push_back(v);
    same(s.a, s.ma, "a");
  }
  EN_CHECK(Tracked::live == l0, "%ld elements never destroyed", Tracked::live - l0);
}
// every way to make and to fill a list, with elements that can be copied
template <class It> struct Once { // a single pass over a range
  It it;
  typedef std::input_iterator_tag iterator_category; typedef Tracked value_type; typedef std::ptrdiff_t difference_type; typedef Tracked const *pointer; typedef Tracked const &reference;
  Tracked const &operator*() const { return *it; }
  Once &operator++() { ++it; return *this; }
  Once operator++(int) { Once o = *this; ++it; return o; }
  friend bool operator==(Once a, Once b) { return a.it == b.it; }
  friend bool operator!=(Once a, Once b) { return !(a == b); }
};
EN_CASE("P26", list_make, 3, 4)
{
  long l0 = Tracked::live;
  {
    St s;
    int n = en::ch(en::depth() + 1);
    std::vector<Tracked> v;
    for (int i = 0; i < n; ++i) v.push_back(s.v(en::ch(2)));
    typedef Once<std::vector<Tracked>::const_iterator> O;
    int how = en::ch(7);
    en::op("make a list of %d elements, way %d", n, how);
    Tracked w = s.v(8);
    std::initializer_list<Tracked> il = {w, s.v(1), s.v(0)};
    M mc;
    auto made = [&](L &&c) {
      same(c, mc, "made");
      int m = (int)mc.size();
      int then = en::ch(12);
      en::op("then %d", then);
      switch (then) {
      case 0: { int c2 = en::ch(5); c.resize((size_t)c2); mc.resize(c2); break; }
      case 1: c.assign(O{v.cbegin()}, O{v.cend()}); mc.assign(v.begin(), v.end()); break;
      case 2: c.assign(il); mc.assign(il); break;
      case 3: { int p = en::ch(m + 1); c.insert_after(before(c, p), O{v.cbegin()}, O{v.cend()}); mc.insert(at(mc, p), v.begin(), v.end()); break; }
      case 4: { int p = en::ch(m + 1); Tracked x = s.v(5), y = x; c.insert_after(before(c, p), std::move(x)); mc.insert(at(mc, p), y); break; }
      case 5: { Tracked x = s.v(5), y = x, z = s.v(6), t = z; c.push_front(std::move(x)); c.push_back(std::move(z)); mc.push_front(y); mc.push_back(t); break; }
      case 6: { int p = en::ch(m + 1); if (!m) en::skip(); if (p == 0) { c.insert_after(c.cbefore_begin(), c.extract_front()); break; } auto node = c.extract_front(); Tracked x = mc.front(); mc.pop_front(); int q = p - 1; c.insert_after(before(c, q), node); mc.insert(at(mc, q), x); break; }
      case 7: { L d(c); M md(mc); c.splice_after(c.cbefore_begin(), std::move(d)); mc.splice(mc.begin(), md); same(d, md, "spliced"); break; }
      case 8: { L d(c); M md(mc); auto gt = [](Tracked const &x, Tracked const &y) { return y < x; }; c.sort(gt); d.sort(gt); mc.sort(gt); md.sort(gt); c.merge(std::move(d), gt); mc.merge(md, gt); same(d, md, "merged"); break; }
      case 9: { auto pr = [](Tracked const &x, Tracked const &y) { return x.key <= y.key; }; size_t c0 = mc.size(); mc.unique(pr); size_t r = c.unique(pr); EN_CHECK(r == c0 - mc.size(), "unique() counts wrongly | %zu", r); break; }
      case 10: { L &r = c; c = std::move(r); break; }
      case 11: { long left = 0; c.clear([&](zstl::forward_list_detail::BaseLinkedNode *x) { ++left; c.drop_node(x); }); EN_CHECK(left == m, "clear() gives back another number of nodes | %ld of %d", left, m); mc.clear(); break; }
      }
      same(c, mc, "made and changed");
      Tracked e = s.v(9); c.push_back(e); mc.push_back(e); same(c, mc, "at the end");
    };
    switch (how) {
    case 0: mc.assign(v.begin(), v.end()); made(L(v.begin(), v.end())); break;
    case 1: mc.assign(v.begin(), v.end()); made(L(O{v.cbegin()}, O{v.cend()})); break;
    case 2: mc.assign(n, w); made(L((size_t)n, w)); break;
    case 3: mc.resize(n); made(L((size_t)n)); break;
    case 4: mc.assign(il); made(L(il)); break;
    case 5: { mc.assign(v.begin(), v.end()); L c(v.begin(), v.end()); made(L(std::move(c))); M e; same(c, e, "moved-from"); break; }
    case 6: { mc.assign(v.begin(), v.end()); L const c(v.begin(), v.end()); made(L(c)); break; }
    }
  }
  EN_CHECK(Tracked::live == l0, "%ld elements never destroyed", Tracked::live - l0);
}
// elements that can't always be made or compared: nothing leaks, and the lists stay lists
namespace {
struct Boom {};
int fuse = -1;
void burn() { if (fuse == 0) { fuse = -1; throw Boom(); } if (fuse > 0) --fuse; }
struct F {
  Tracked t;
  F(int k = 0) : t((burn(), k)) {}
  F(F const &o) : t((burn(), o.t)) {}
  F &operator=(F const &o) { burn(); t = o.t; return *this; }
  friend bool operator==(F const &a, F const &b) { burn(); return a.t == b.t; }
  friend bool operator<(F const &a, F const &b) { burn(); return a.t < b.t; }
};
typedef zstl::ForwardList<F> FL;
size_t whole(FL &l)
{
  size_t n = 0;
  for (auto it = l.begin(); it != l.end(); ++it) { (*it).t.chk(); EN_CHECK(++n < 30, "a list has no end |"); if (it.next() == l.end()) EN_CHECK(it == l.before_end(), "the last element of a list is another |"); }
  EN_CHECK(l.size() == n && l.empty() == (n == 0), "a list counts wrongly | %zu, has %zu", l.size(), n);
  if (!n) EN_CHECK(l.before_end() == l.before_begin(), "an empty list has a last element |");
  return n;
}
}
EN_CASE("P26", list_throw, 4, 5)
{
  long l0 = Tracked::live, b0 = en::live_blocks();
  {
    fuse = -1;
    int n = en::ch(en::depth()), m = en::ch(en::depth()), what = en::ch(22), f = en::ch(2 * en::depth() + 1);
    en::op("lists of %d and %d elements, operation %d, failure %d", n, m, what, f);
    std::vector<F> v; v.reserve(8);
    for (int i = 0; i < m; ++i) v.push_back(F((i * 2 + 1) % 3));
    F w(5);
    FL a, b;
    for (int i = 0; i < n; ++i) a.push_back(F((7 - i) % 3));
    for (int i = 0; i < m; ++i) b.push_back(v[(size_t)i]);
    bool thrown = false, single = false;
    long alive = Tracked::live;
    fuse = f;
    try {
      switch (what) {
      case 0: single = true; a.push_front(w); break;
      case 1: single = true; a.push_back(w); break;
      case 2: single = true; a.emplace_front(3); break;
      case 3: single = true; a.emplace_back(3); break;
      case 4: single = true; a.emplace_after(a.cbefore_end(), 3); break;
      case 5: single = true; a.insert_after(a.cbefore_begin(), w); break;
      case 6: a.insert_after(a.cbefore_begin(), (size_t)m, w); break;
      case 7: a.insert_after(a.cbefore_end(), v.begin(), v.end()); break;
      case 8: a.assign((size_t)m, w); break;
      case 9: a.assign(v.begin(), v.end()); break;
      case 10: a.resize((size_t)m, w); break;
      case 11: a.resize((size_t)m); break;
      case 12: a = b; break;
      case 13: single = true; { FL c(b); whole(c); } break;
      case 14: single = true; { FL c((size_t)m, w); whole(c); } break;
      case 15: single = true; { FL c(v.begin(), v.end()); whole(c); } break;
      case 16: a.sort(); break;
      case 17: a.sort2(); break;
      case 18: a.merge(b); break;
      case 19: a.unique(); break;
      case 20: a.remove(w); break;
      case 21: single = true; { FL c({1, 2, 0}); whole(c); } break;
      }
    } catch (Boom const &) { thrown = true; }
    fuse = -1;
    en::step();
    size_t na = whole(a), nb = whole(b);
    if (thrown && single) EN_CHECK(na == (size_t)n && nb == (size_t)m && Tracked::live == alive, "a failed operation on one element changes the list | %zu %zu", na, nb);
    if (thrown && what == 18) EN_CHECK(na + nb == (size_t)(n + m), "a failed merge loses elements | %zu %zu", na, nb);
    a.push_back(F(1)); b.push_back(F(1)); whole(a); whole(b);
  }
  EN_CHECK(Tracked::live == l0, "elements are never destroyed | %ld", Tracked::live - l0);
  EN_CHECK(en::live_blocks() == b0, "memory of a list is never released | %ld", en::live_blocks() - b0);
}
