// P32: any, unique any, raw any and optional.
#include "enumer.h"
#include "kanon/util/macro.h"
#include <algorithm>
#include <memory>
#include "kanon/util/any.h"
#include "kanon/util/unique_any.h"
#include "kanon/util/raw_any.h"
#include "kanon/util/optional.h"
#include <set>
using namespace kanon;
// ---- a value whose constructions and destructions are counted
struct Boom {};
static std::set<const void *> live_objects;
static bool boom; // the next copy throws
struct Life {
  Life() { bool n = live_objects.insert(this).second; EN_CHECK(n, "an object is constructed over another |"); }
  ~Life() { size_t n = live_objects.erase(this); EN_CHECK(n == 1, "an object that isn't alive is destroyed |"); }
  bool alive() const { return live_objects.count(this); }
};
template <int K> struct Val {
  Life life; int v; int *heap; char pad[K];
  Val(int x = -1) : v(x), heap(new int(x)) {}
  Val(Val const &o) : v(o.get()), heap(nullptr) { if (boom) { boom = false; throw Boom(); } heap = new int(v); }
  Val(Val &&o) noexcept : v(o.get()), heap(o.heap) { o.v = -2; o.heap = nullptr; }
  Val &operator=(Val const &o) { if (boom) { boom = false; throw Boom(); } int x = o.get(); EN_CHECK(life.alive(), "assignment to an object that isn't alive |"); int *h = new int(x); delete heap; v = x; heap = h; return *this; }
  Val &operator=(Val &&o) noexcept { EN_CHECK(life.alive(), "assignment to an object that isn't alive |"); if (this != &o) { delete heap; v = o.get(); heap = o.heap; o.v = -2; o.heap = nullptr; } return *this; }
  ~Val() { delete heap; heap = nullptr; v = -3; }
  int get() const { EN_CHECK(life.alive(), "an object that isn't alive is used |"); if (v >= 0) EN_CHECK(heap && *heap == v, "the content of an object is wrong |"); return v; }
};
typedef Val<1> A; typedef Val<64> B;
struct Move { std::unique_ptr<A> p; explicit Move(int x) : p(new A(x)) {} };
static void start() { live_objects.clear(); boom = false; }
static void finish() { EN_CHECK(live_objects.empty(), "objects outlive their holders | %zu", live_objects.size()); }
// ---- model: 0 empty, otherwise type * 100 + value
enum { T_A = 1, T_B = 2, T_INT = 3, T_STR = 4, T_MOVE = 5 };
static std::string str(int m) { return m == 0 ? "empty" : std::string("?ABISM"[m / 100] + std::to_string(m % 100)); }
static int see(const Any &a)
{
  en::step();
  int m = 0, hits = 0;
  if (A *p = SafeAnyCast<A>(a)) { m = T_A * 100 + p->get(); ++hits; EN_CHECK(a.type() == typeid(A), "type() is wrong |"); EN_CHECK(UnsafeAnyCast<A>(a) == p && AnyCast<A>(a) == p, "the casts differ |"); }
  if (B *p = SafeAnyCast<B>(a)) { m = T_B * 100 + p->get(); ++hits; EN_CHECK(a.type() == typeid(B), "type() is wrong |"); EN_CHECK(UnsafeAnyCast<B>(a) == p, "the casts differ |"); }
  if (int *p = SafeAnyCast<int>(a)) { m = T_INT * 100 + *p; ++hits; }
  if (std::string *p = SafeAnyCast<std::string>(a)) { m = T_STR * 100 + (int)p->size(); EN_CHECK(*p == std::string(p->size(), 's'), "the content of a string is wrong |"); ++hits; }
  if (SafeAnyCast<long>(a) || SafeAnyCast<char const *>(a) || AnyCast<unsigned>(a)) ++hits;
  EN_CHECK(hits == (a.empty() ? 0 : 1), "a holder casts to %d types | empty %d", hits, a.empty());
  return m;
}
#define EXPECT(i, got, want) do { int g_ = (got), w_ = (want); EN_CHECK(g_ == w_, "a holder has a wrong value | holder %d is %s, expected %s", i, str(g_).c_str(), str(w_).c_str()); } while (0)
EN_CASE("P32", any_history, 4, 5)
{
  start();
  {
    Any h[2]; int m[2] = {0, 0};
    int next = 1;
    for (int s = 0; s < en::depth(); ++s) {
      int i = en::ch(2), j = 1 - i;
      switch (en::ch(19)) {
      case 0: { A v(next); en::op("h%d = lvalue A", i); h[i] = v; EXPECT(-1, v.get(), next); m[i] = T_A * 100 + next++; break; }
      case 1: { const B v(next); en::op("h%d = const lvalue B", i); h[i] = v; EXPECT(-1, v.get(), next); m[i] = T_B * 100 + next++; break; }
      case 2: en::op("h%d = temporary A", i); h[i] = A(next); m[i] = T_A * 100 + next++; break;
      case 3: en::op("h%d = int", i); h[i] = next; m[i] = T_INT * 100 + next++; break;
      case 4: { en::op("h%d = string", i); h[i] = std::string((size_t)next + 30, 's'); m[i] = T_STR * 100 + next++ + 30; break; }
      case 5: en::op("h%d = h%d", i, j); h[i] = h[j]; m[i] = m[j]; break;
      case 6: { en::op("h%d = const h%d", i, j); const Any &c = h[j]; h[i] = c; m[i] = m[j]; break; }
      case 7: { en::op("h%d = h%d (itself)", i, i); if (en::flip()) { Any &c = h[i]; h[i] = c; } else { const Any &c = h[i]; h[i] = c; } break; }
      case 8: { // the source may keep anything it could have: nothing or the old value of the target
        en::op("h%d = move(h%d)", i, j);
        h[i] = std::move(h[j]);
        int g = see(h[j]);
        EN_CHECK(g == 0 || g == m[i], "a moved-from holder has a value of nobody | %s", str(g).c_str());
        m[i] = m[j]; m[j] = g;
        break; }
      case 9: en::op("swap"); h[i].swap(h[j]); std::swap(m[i], m[j]); break;
      case 10: en::op("clear h%d", i); h[i].clear(); m[i] = 0; break;
      case 11: { en::op("copy of h%d", i); Any c(h[i]); EXPECT(9, see(c), m[i]); if (A *p = SafeAnyCast<A>(c)) { p->v = 50; *p->heap = 50; } break; }
      case 12: { en::op("move construct from h%d", i); Any c(std::move(h[i])); EXPECT(9, see(c), m[i]); EXPECT(i, see(h[i]), 0); m[i] = 0; break; }
      case 13: { en::op("h%d = A whose copy throws", i); A v(next); bool t = false; boom = true; try { h[i] = v; } catch (Boom &) { t = true; } boom = false; EN_CHECK(t, "the exception of a copy is lost |"); break; }
      case 14: { // copying the other holder throws if it holds A or B
        en::op("h%d = h%d whose copy throws", i, j);
        bool t = false; boom = true;
        bool k = en::flip(); const Any &c = h[j];
        try { if (k) h[i] = c; else h[i] = h[j]; } catch (Boom &) { t = true; }
        boom = false;
        bool can = m[j] / 100 == T_A || m[j] / 100 == T_B;
        EN_CHECK(t == can, "the exception of a copy is lost | %d %d", t, can);
        if (!t) m[i] = m[j];
        break; }
      case 15: { en::op("change the value of h%d in place", i); if (A *p = AnyCast<A>(h[i])) { p->v = 40; *p->heap = 40; m[i] = T_A * 100 + 40; } else if (int *q = AnyCast<int>(h[i])) { *q = 41; m[i] = T_INT * 100 + 41; } else en::skip(); break; }
      case 16: { en::op("h%d = move(itself)", i); Any &c = h[i]; h[i] = std::move(c); break; }
      case 17: { en::op("h%d holds a list of holders", i); std::vector<Any> l(2, h[i]); Any c(l), d(c); std::vector<Any> *p = SafeAnyCast<std::vector<Any>>(d);
        EN_CHECK(p && p->size() == 2, "a list of holders isn't kept | %zu", p ? p->size() : 0); EXPECT(8, see((*p)[0]), m[i]); EXPECT(9, see((*p)[1]), m[i]); break; }
      case 18: { en::op("a temporary of h%d = B", i); Any c = B(next); h[i] = Any(c); EXPECT(9, see(c), T_B * 100 + next); m[i] = T_B * 100 + next++; break; }
      }
      EXPECT(0, see(h[0]), m[0]);
      EXPECT(1, see(h[1]), m[1]);
    }
  }
  finish();
}
static int see(const UniqueAny &a)
{
  en::step();
  int m = 0, hits = 0;
  if (A *p = SafeUniqueAnyCast<A>(a)) { m = T_A * 100 + p->get(); ++hits; EN_CHECK(a.type() == typeid(A) && UnsafeUniqueAnyCast<A>(a) == p && UniqueAnyCast<A>(a) == p && SafeAnyCast<A>(a) == p && AnyCast<A>(a) == p, "the casts differ |"); }
  if (Move *p = SafeUniqueAnyCast<Move>(a)) { EN_CHECK(p->p != nullptr, "the value is moved away |"); m = T_MOVE * 100 + p->p->get(); ++hits; }
  if (int *p = SafeUniqueAnyCast<int>(a)) { m = T_INT * 100 + *p; ++hits; }
  if (SafeUniqueAnyCast<long>(a) || SafeAnyCast<unsigned>(a)) ++hits;
  EN_CHECK(hits == (a.empty() ? 0 : 1), "a holder casts to %d types | empty %d", hits, a.empty());
  return m;
}
EN_CASE("P32", unique_any_history, 5, 6)
{
  start();
  {
    UniqueAny h[2]; int m[2] = {0, 0};
    int next = 1;
    for (int s = 0; s < en::depth(); ++s) {
      int i = en::ch(2), j = 1 - i;
      switch (en::ch(10)) {
      case 0: en::op("h%d = A", i); h[i] = A(next); m[i] = T_A * 100 + next++; break;
      case 1: en::op("h%d = move-only", i); h[i] = Move(next); m[i] = T_MOVE * 100 + next++; break;
      case 2: { en::op("h%d = moved lvalue", i); Move v(next); h[i] = std::move(v); EN_CHECK(!v.p, "the value isn't moved |"); m[i] = T_MOVE * 100 + next++; break; }
      case 3: en::op("h%d = int", i); h[i] = int(next); m[i] = T_INT * 100 + next++; break;
      case 4: {
        en::op("h%d = move(h%d)", i, j);
        h[i] = std::move(h[j]);
        int g = see(h[j]);
        EN_CHECK(g == 0 || g == m[i], "a moved-from holder has a value of nobody | %s", str(g).c_str());
        m[i] = m[j]; m[j] = g;
        break; }
      case 5: en::op("swap"); h[i].swap(h[j]); std::swap(m[i], m[j]); break;
      case 6: en::op("clear h%d", i); h[i].clear(); m[i] = 0; break;
      case 7: { en::op("move construct from h%d", i); UniqueAny c(std::move(h[i])); EXPECT(9, see(c), m[i]); EXPECT(i, see(h[i]), 0); m[i] = 0; break; }
      case 8: { en::op("h%d = move(itself)", i); UniqueAny &c = h[i]; h[i] = std::move(c); break; }
      case 9: { en::op("h%d goes into a list", i); std::vector<UniqueAny> l; l.push_back(std::move(h[i])); UniqueAny c(std::move(l)); EN_CHECK(l.empty(), "a list isn't moved |");
        std::vector<UniqueAny> *p = SafeUniqueAnyCast<std::vector<UniqueAny>>(c); EN_CHECK(p && p->size() == 1, "a list of holders isn't kept |"); EXPECT(9, see((*p)[0]), m[i]); m[i] = 0; break; }
      }
      EXPECT(0, see(h[0]), m[0]);
      EXPECT(1, see(h[1]), m[1]);
    }
  }
  finish();
}
EN_CASE("P32", raw_any_history, 5, 6)
{
  A objs[2] = {A(1), A(2)}; int num = 7;
  RawAny h[2]; void *m[2] = {nullptr, nullptr};
  for (int s = 0; s < en::depth(); ++s) {
    int i = en::ch(2), j = 1 - i;
    switch (en::ch(11)) {
    case 0: { int k = en::ch(2); en::op("h%d = object", i); h[i] = objs[k]; m[i] = &objs[k]; break; }
    case 1: en::op("h%d = number", i); h[i] = num; m[i] = &num; break;
    case 2: en::op("h%d = h%d", i, j); { const RawAny &c = h[j]; h[i] = c; } m[i] = m[j]; break;
    case 3: en::op("h%d = move(h%d)", i, j); { void *o = m[i]; h[i] = std::move(h[j]); m[i] = m[j]; m[j] = SafeAnyCast<void>(h[j]); EN_CHECK(m[j] == nullptr || m[j] == o, "a moved-from raw holder has a value of nobody |"); } break;
    case 4: en::op("swap"); h[i].swap(h[j]); std::swap(m[i], m[j]); break;
    case 5: en::op("clear"); h[i].clear(); m[i] = nullptr; break;
    case 6: { en::op("move construct"); RawAny c(std::move(h[i])); EN_CHECK(SafeAnyCast<void>(c) == m[i] && h[i].empty(), "a moved raw holder is wrong |"); m[i] = nullptr; break; }
    case 7: { en::op("copy construct"); const RawAny &s = h[i]; RawAny c(s); EN_CHECK(SafeAnyCast<void>(c) == m[i], "a copied raw holder is wrong |"); break; }
    case 8: { en::op("from void*"); void *p = &objs[1]; h[i] = RawAny((void *)p); m[i] = p; break; }
    case 9: { en::op("from a reference"); h[i] = RawAny(num); m[i] = &num; break; }
    case 10: { en::op("h%d = move(itself)", i); RawAny &c = h[i]; h[i] = std::move(c); break; }
    }
    for (int k = 0; k < 2; ++k) {
      en::step();
      EN_CHECK(h[k].empty() == (m[k] == nullptr), "a raw holder's emptiness is wrong |");
      EN_CHECK(AnyCast<A>(h[k]) == m[k] && UnsafeAnyCast<A>(h[k]) == m[k] && SafeAnyCast<A>(h[k]) == m[k] && AnyCast2<A *>(h[k]) == m[k] && SafeAnyCast2<int *>(h[k]) == m[k], "a raw holder has a wrong address |");
    }
  }
}
// ---- optional
template <class T> static int see(const optional<T> &o)
{
  en::step();
  EN_CHECK((bool)o == o.has_value(), "bool and has_value() differ |");
  if (!o) return 0;
  int v = o.value().get();
  EN_CHECK((*o).get() == v && o->get() == v, "the accesses differ |");
  return v;
}
struct Conv { int v; int get() const { return v; } Conv(int x = -1) : v(x) {} operator A() const { if (boom) { boom = false; throw Boom(); } return A(v); } };
EN_CASE("P32", optional_history, 4, 5)
{
  start();
  {
    optional<A> h[2]; int m[2] = {0, 0};
    optional<Conv> c; int mc = 0;
    int next = 1;
    for (int s = 0; s < en::depth(); ++s) {
      int i = en::ch(2), j = 1 - i;
      switch (en::ch(22)) {
      case 0: { en::op("h%d = lvalue", i); A v(next); h[i] = v; EXPECT(-1, v.get(), next); m[i] = next++; break; }
      case 1: en::op("h%d = temporary", i); h[i] = A(next); m[i] = next++; break;
      case 2: en::op("h%d = int", i); h[i] = next; m[i] = next++; break;
      case 3: en::op("h%d = h%d", i, j); h[i] = h[j]; m[i] = m[j]; break;
      case 4: { en::op("h%d = itself", i); optional<A> &o = h[i]; h[i] = o; break; }
      case 5: en::op("h%d = move(h%d)", i, j); h[i] = std::move(h[j]); m[i] = m[j]; h[j].SetInvalid(); m[j] = 0; break;
      case 6: en::op("SetInvalid h%d", i); h[i].SetInvalid(); m[i] = 0; break;
      case 7: en::op("h%d = optional of another type", i); h[i] = c; m[i] = mc; break;
      case 8: en::op("h%d = moved optional of another type", i); h[i] = std::move(c); m[i] = mc; break;
      case 9: { en::op("construct from an optional of another type"); optional<A> o(c); EXPECT(9, see(o), mc); break; }
      case 10: { en::op("construct from a moved optional of another type"); optional<Conv> t(c); optional<A> o(std::move(t)); EXPECT(9, see(o), mc); break; }
      case 11: en::op("the other = %d", next); c = Conv(next); mc = next++; break;
      case 12: en::op("the other is invalid"); c.SetInvalid(); mc = 0; break;
      case 13: { en::op("copy of h%d", i); optional<A> o(h[i]); EXPECT(9, see(o), m[i]); o = A(60); break; }
      case 14: { en::op("move construct from h%d", i); optional<A> o(std::move(h[i])); EXPECT(9, see(o), m[i]); h[i].SetInvalid(); m[i] = 0; break; }
      case 15: { en::op("h%d = value whose copy throws", i); A v(next); bool t = false; boom = true; try { h[i] = v; } catch (Boom &) { t = true; } boom = false; EN_CHECK(t, "the exception of a copy is lost |"); break; }
      case 16: { en::op("h%d = h%d whose copy throws", i, j); bool t = false; boom = true; try { h[i] = h[j]; } catch (Boom &) { t = true; } boom = false; if (!t) m[i] = m[j]; EN_CHECK(t || !m[j], "the exception of a copy is lost |"); break; }
      case 17: { en::op("h%d = optional of another type whose conversion throws", i); bool t = false; boom = true; try { h[i] = c; } catch (Boom &) { t = true; } boom = false; if (!t) m[i] = mc; EN_CHECK(t == (mc != 0), "the exception of a conversion is lost |"); break; }
      case 18: { if (!m[i]) en::skip(); en::op("change h%d in place", i); h[i]->v = 70; *h[i].value().heap = 70; m[i] = 70; (*h[i]).get(); break; }
      case 19: { if (!m[i]) en::skip(); en::op("take the value of h%d", i); A v(std::move(h[i]).value()); EXPECT(9, v.get(), m[i]); h[i] = A(next); m[i] = next++; break; }
      case 20: { en::op("h%d = make_optional", i); h[i] = make_optional(A(next)); m[i] = next++; break; }
      case 21: { en::op("h%d = make_null_optional", i); h[i] = make_null_optional<A>(); m[i] = 0; break; }
      }
      EXPECT(0, see(h[0]), m[0]);
      EXPECT(1, see(h[1]), m[1]);
    }
  }
  finish();
}
// ---- a value that can also be made of a list of its like: holding it is not to wrap it
struct Bag {
  int v, wraps; std::vector<Bag> in;
  Bag() : v(0), wraps(0) {}
  explicit Bag(int x) : v(x), wraps(0) {}
  Bag(std::initializer_list<Bag> l) : v(-1), wraps(1), in(l) {}
  Bag(Bag const &) = default; Bag(Bag &&) = default; Bag &operator=(Bag const &) = default; Bag &operator=(Bag &&) = default;
};
EN_CASE("P32", list_values, 1, 1)
{
  int holder = en::ch(3), how = en::ch(7), type = en::ch(2);
  en::op("holder %d, value type %d, way %d", holder, type, how);
  Bag const b(7); std::vector<Any> const l = {Any(1), Any(std::string("s"))};
  auto bag = [&](Bag const *p) { EN_CHECK(p && p->v == 7 && p->wraps == 0 && p->in.empty(), "a holder wraps the value put into it |"); };
  auto list = [&](std::vector<Any> const *p) { EN_CHECK(p && p->size() == 2 && SafeAnyCast<int>((*p)[0]) && *SafeAnyCast<int>((*p)[0]) == 1 && SafeAnyCast<std::string>((*p)[1]), "a holder wraps the value put into it |"); };
  en::step();
  Bag tb(b); std::vector<Any> tl(l);
  if (holder == 0) {
    optional<Bag> o; optional<std::vector<Any>> q;
    switch (how) {
    case 0: o = b; q = l; break;
    case 1: o = std::move(tb); q = std::move(tl); break;
    case 2: o = optional<Bag>(b); q = optional<std::vector<Any>>(l); break;
    case 3: o = optional<Bag>(std::move(tb)); q = optional<std::vector<Any>>(std::move(tl)); break;
    case 4: { optional<Bag> x(b); o = x; optional<std::vector<Any>> y(l); q = y; break; }
    case 5: { optional<Bag> x(b); optional<Bag> z(x); o = std::move(z); optional<std::vector<Any>> y(l); optional<std::vector<Any>> u(y); q = std::move(u); break; }
    case 6: o = make_optional(b); q = make_optional(l); break;
    }
    EN_CHECK(o.has_value() && q.has_value(), "a holder lost its value |");
    if (type) bag(&o.value()); else list(&q.value());
  } else if (holder == 1) {
    Any a;
    switch (how) {
    case 0: if (type) a = b; else a = l; break;
    case 1: if (type) a = std::move(tb); else a = std::move(tl); break;
    case 2: if (type) { Any x(b); a = x; } else { Any x(l); a = x; } break;
    case 3: if (type) { Any x(std::move(tb)); a = std::move(x); } else { Any x(std::move(tl)); a = std::move(x); } break;
    default: { if (type) a = b; else a = l; Any x(a); Any y(std::move(x)); y.swap(a); break; }
    }
    if (type) bag(SafeAnyCast<Bag>(a)); else list(SafeAnyCast<std::vector<Any>>(a));
  } else {
    UniqueAny a;
    switch (how) {
    case 0: if (type) a = std::move(tb); else a = std::move(tl); break;
    default: { if (type) { UniqueAny x(std::move(tb)); a = std::move(x); } else { UniqueAny x(std::move(tl)); a = std::move(x); } break; }
    }
    if (type) bag(SafeUniqueAnyCast<Bag>(a)); else list(SafeUniqueAnyCast<std::vector<Any>>(a));
  }
}
