// P37: pointer helpers of kanon/util/ptr.h
#include "tracked.h"
#include "kanon/util/ptr.h"
#include <map>
#include <set>
long Tracked::live = 0;
using namespace kanon;
namespace {
struct A { Tracked a; int va; A(int v = 1) : a(v), va(v) {} virtual ~A() {} virtual int who() const { return 1; } };
struct B { Tracked b; int vb; B(int v = 2) : b(v), vb(v) {} virtual ~B() {} virtual int who2() const { return 2; } };
struct D : A, B { Tracked d; int vd; D(int v = 3) : A(v + 1), B(v + 2), d(v), vd(v) {} int who() const override { return 3; } int who2() const override { return 4; } };
struct DD : D { int vdd; DD(int v = 5) : D(v), vdd(v * 7) {} int who2() const override { return 9; } };
struct Prot { Tracked t; std::unique_ptr<int> u; std::string s; long live0;
 protected:
  Prot(int k, std::unique_ptr<int> p, std::string const &x) : t(k), u(std::move(p)), s(x) {}
  Prot() : t(0) {}
 public: int sum() const { return t.key + (u ? *u : 0) + (int)s.size(); } };
int dels;
struct Count { template <class T> void operator()(T *p) const { ++dels; delete p; } };
struct Boom { static int left; Tracked t; Boom() : t(1) { if (left-- == 0) throw 5; } };
int Boom::left = -1;
}
EN_CASE("P37", down_cast, 0, 0)
{
  long l0 = Tracked::live;
  int how = en::ch(3), base = en::ch(2), deep = en::ch(2), v = en::ch(3);
  en::op("cast %d from base %d to level %d", how, base, deep);
  D *d = deep ? new DD(v) : new D(v);
  auto same = [&](D *g, const char *w) {
    EN_CHECK(g == d, "%s gives another address | off by %ld", w, (long)((char *)g - (char *)d));
    EN_CHECK(g->vd == v && g->A::va == v + 1 && g->B::vb == v + 2 && g->who() == 3 && g->who2() == (deep ? 9 : 4), "%s gives another object", w);
  };
  auto dd = [&](DD *g, const char *w) { EN_CHECK(g == d && g->vdd == v * 7, "%s gives another address | level 2", w); };
  if (how == 0) {
    if (base) { B *p = d; same(down_pointer_cast<D>(p), "raw cast"); if (deep) dd(down_pointer_cast<DD>(p), "raw cast"); }
    else { A *p = d; same(down_pointer_cast<D>(p), "raw cast"); if (deep) dd(down_pointer_cast<DD>(p), "raw cast"); }
    same(GetPointer(d), "GetPointer");
    delete d;
  } else if (how == 1) {
    if (base) { std::shared_ptr<B> p(d); auto q = down_pointer_cast<D>(p); same(q.get(), "shared cast"); EN_CHECK(p.use_count() == 2, "shared cast loses the owner count | %ld", p.use_count()); p.reset(); EN_CHECK(q->d.key == v, "object lost"); same(GetPointer(q), "GetPointer"); }
    else { std::shared_ptr<A> p(d); auto q = down_pointer_cast<D>(p); same(q.get(), "shared cast"); EN_CHECK(p.use_count() == 2, "shared cast loses the owner count | %ld", p.use_count()); p.reset(); EN_CHECK(q->d.key == v, "object lost"); same(GetPointer(q), "GetPointer"); }
  } else {
    if (base) { std::unique_ptr<B> p(d); auto q = down_pointer_cast<D>(p); same(q.get(), "unique cast"); EN_CHECK(!p, "two owners after the cast"); same(GetPointer(q), "GetPointer"); }
    else { std::unique_ptr<A> p(d); auto q = down_pointer_cast<D>(p); same(q.get(), "unique cast"); EN_CHECK(!p, "two owners after the cast"); same(GetPointer(q), "GetPointer"); }
  }
  EN_CHECK(Tracked::live == l0, "%ld members left or lost", Tracked::live - l0);
}
// keys made of a raw pointer find owners of it and never delete it
EN_CASE("P37", key_pointer, 4, 5)
{
  long l0 = Tracked::live;
  {
    std::set<KeyUniquePtr<Tracked>> s;
    std::map<Tracked *, bool> m;
    std::vector<Tracked *> all;
    for (int i = 0; i < 3; ++i) all.push_back(nullptr);
    for (int i = 0; i < en::depth(); ++i) {
      int o = en::ch(4), k = en::ch(3);
      en::op("operation %d on %d", o, k);
      switch (o) {
      case 0: if (!all[k]) { all[k] = new Tracked(k); s.insert(KeyUniquePtr<Tracked>(all[k])); } break;
      case 1: if (all[k]) { auto it = s.find(MakeUniquePtrAsKey(all[k])); EN_CHECK(it != s.end() && it->get() == all[k], "a key does not find its owner"); EN_CHECK((*it)->key == k, "wrong owner found"); } break;
      case 2: if (all[k]) { EN_CHECK(s.erase(MakeUniquePtrAsKey(all[k])) == 1, "a key does not erase its owner"); all[k] = nullptr; } break;
      case 3: { KeyUniquePtr<Tracked> key = MakeUniquePtrAsKey(all[k]); EN_CHECK(GetPointer(key) == all[k], "a key holds another pointer"); KeyUniquePtr<Tracked> moved(std::move(key)); EN_CHECK(!key && moved.get() == all[k], "moving a key"); } break;
      }
      long want = 0; for (auto p : all) if (p) { ++want; p->chk(); }
      EN_CHECK(Tracked::live - l0 == want && (long)s.size() == want, "%ld objects live, %zu owned, expected %ld", Tracked::live - l0, s.size(), want);
    }
  }
  EN_CHECK(Tracked::live == l0, "%ld owned objects left", Tracked::live - l0);
}
EN_CASE("P37", make_helpers, 0, 0)
{
  long l0 = Tracked::live;
  int how = en::ch(6), k = en::ch(4);
  en::op("helper %d with %d", how, k);
  if (how == 0) {
    auto p = MakeSharedFromProtected<Prot>(k, std::unique_ptr<int>(new int(10)), std::string(k, 'x'));
    EN_CHECK(p->sum() == k + 10 + k && p.use_count() == 1, "arguments do not arrive | %d", p->sum());
    std::weak_ptr<Prot> w = p; p.reset(); EN_CHECK(w.expired(), "object still owned");
  } else if (how == 1) {
    std::string s(k, 'y');
    auto p = AllocateSharedFromProtected<Prot>(std::allocator<Prot>(), k, std::unique_ptr<int>(), s);
    EN_CHECK(p->sum() == 2 * k && s.size() == (size_t)k, "arguments do not arrive or are consumed | %d", p->sum());
  } else if (how == 2) {
    auto p = MakeSharedFromProtected<Prot>();
    EN_CHECK(p->sum() == 0, "default construction");
  } else if (how == 3) {
    int cut = k; Tracked *obj = new Tracked(3);
    try { KANON_DEFER_DELETE(Tracked, obj); if (cut == 1) throw 1; EN_CHECK(Tracked::live == l0 + 1, "deleted before the end of the scope"); } catch (int) {}
  } else if (how == 4) {
    dels = 0; Tracked *obj = new Tracked(3);
    try { KANON_DEFER_DELETE2(Tracked, obj, Count()); if (k == 1) throw 1; EN_CHECK(dels == 0, "deleted before the end of the scope"); } catch (int) {}
    EN_CHECK(dels == 1, "deleter ran %d times", dels);
  } else {
    auto p = kanon::make_unique<Tracked>(k, 2); EN_CHECK(p->key == k && p->id == 2, "arguments do not arrive");
    auto q = kanon::make_unique<Tracked[]>(k); for (int i = 0; i < k; ++i) q[i].chk();
    EN_CHECK(Tracked::live == l0 + 1 + k, "wrong number of objects");
    Boom::left = k; bool thrown = false;
    try { auto r = kanon::make_unique<Boom[]>(3); } catch (int) { thrown = true; }
    EN_CHECK(thrown == (k < 3), "a throwing constructor is not reported"); Boom::left = -1;
  }
  EN_CHECK(Tracked::live == l0, "%ld objects left or lost", Tracked::live - l0);
}
