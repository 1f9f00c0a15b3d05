// P34: arrays that grow and shrink, and the vector of fixed size.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/algo/reserved_array.h"
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include "kanon/algo/fixed_vector.h"
using namespace kanon;
using kanon::algo::ReservedArray;
struct Boom {};
static int fuse = -1;  // constructions that may still succeed; -1: all
static long live;
static void burn() { if (fuse == 0) { fuse = -1; throw Boom(); } if (fuse > 0) --fuse; }
enum { ALIVE = 0x51ab3c0f, DEAD = 0x0ddba11, FRESH = 77 };
// an element that owns memory: a bit copy of it that is destroyed as well is a double free
struct Core {
  unsigned tag; int *heap;
  explicit Core(int v) : tag(ALIVE), heap(new int(v)) { ++live; }
  ~Core() { EN_CHECK(tag == ALIVE, "an element is destroyed twice or was never constructed |"); delete heap; heap = nullptr; tag = DEAD; --live; }
  int get() const { EN_CHECK(tag == ALIVE, "an element that isn't alive is used |"); return heap ? *heap : -2; }
  void set(int v) { get(); int *h = new int(v); delete heap; heap = h; }
  void take(Core &o) { get(); o.get(); if (this != &o) { delete heap; heap = o.heap; o.heap = nullptr; } }
  Core(Core const &) = delete; Core &operator=(Core const &) = delete;
};
// moves without throwing, copies may throw
struct N { static const bool strict = true, moves = true; Core c; N() : c((burn(), FRESH)) {} N(N const &o) : c((burn(), o.c.get())) {} N(N &&o) noexcept : c(0) { c.take(o.c); } N &operator=(N const &o) { burn(); c.set(o.c.get()); return *this; } N &operator=(N &&o) noexcept { c.take(o.c); return *this; } };
// moving may throw, so that it is copied
struct C { static const bool strict = true, moves = false; Core c; C() : c((burn(), FRESH)) {} C(C const &o) : c((burn(), o.c.get())) {} C(C &&o) noexcept(false) : c(0) { c.take(o.c); burn(); } C &operator=(C const &o) { burn(); c.set(o.c.get()); return *this; } };
// copies are assigned without throwing
struct Q { Core c; Q() noexcept : c(FRESH) {} Q(Q const &o) noexcept : c(o.c.get()) {} Q(Q &&o) noexcept : c(0) { c.take(o.c); } Q &operator=(Q const &o) noexcept { c.set(o.c.get()); return *this; } };
// may be moved by copying its bytes
struct R { static constexpr bool can_reallocate = true; Core c; R() noexcept : c(FRESH) {} R(R const &o) noexcept : c(o.c.get()) {} R &operator=(R const &o) noexcept { c.set(o.c.get()); return *this; } };
// says that its bytes may be copied, but has a default constructor that throws
struct D { static constexpr bool can_reallocate = true; static const bool strict = true, moves = false; Core c; D() : c((burn(), FRESH)) {} D(D const &o) : c((burn(), o.c.get())) {} D &operator=(D const &o) { burn(); c.set(o.c.get()); return *this; } };
// can only be moved
struct M { Core c; M() : c((burn(), FRESH)) {} M(M &&o) noexcept : c(0) { c.take(o.c); } M &operator=(M &&o) noexcept { c.take(o.c); return *this; } };
template <class T> static int get(T const &x) { return x.c.get(); }
template <class T> static void set(T &x, int v) { x.c.set(v); }
static int get(int const &x) { return x; }
static void set(int &x, int v) { x = v; }
template <class T> struct Fresh { static const bool known = true; };
template <> struct Fresh<int> { static const bool known = false; };
typedef std::vector<int> Model; // -1: not known
// memory that can't always be had: the n-th allocation from now on fails
static int mem = -1; static bool refused;
static bool denied() { if (mem == 0) { mem = -1; return refused = true; } if (mem > 0) --mem; return false; }
template <class T> struct Scarce : kanon::algo::LibcAllocatorWithRealloc<T> {
  typedef kanon::algo::LibcAllocatorWithRealloc<T> Base;
  template <class U> struct rebind { typedef Scarce<U> other; };
  T *allocate(size_t n) noexcept { return n && denied() ? nullptr : Base::allocate(n); }
  T *reallocate(T *p, size_t n) noexcept { return n && denied() ? nullptr : Base::reallocate(p, n); }
};
template <class T> using Poor = ReservedArray<T, Scarce<T>>;
template <class A> static void see(A &a, Model &m, const char *who)
{
  en::step();
  A const &c = a;
  EN_CHECK(a.size() == m.size() && a.GetSize() == m.size() && a.empty() == m.empty() && c.size() == m.size(), "an array has a wrong size | %s: %zu, expected %zu", who, a.size(), m.size());
  EN_CHECK((size_t)(a.end() - a.begin()) == m.size() && c.begin() == a.begin() && c.end() == a.end() && a.cbegin() == a.begin() && a.cend() == a.end() && a.data() == a.begin() && c.data() == a.begin(), "the iterators of an array are wrong | %s", who);
  for (size_t i = 0; i < m.size(); ++i) {
    if (m[i] == -1) { set(a[i], 1000 + (int)i); m[i] = 1000 + (int)i; } // any value may be there, but it has to be memory of the array
    EN_CHECK(get(a[i]) == m[i] && get(c[i]) == m[i], "an element has a wrong value | %s[%zu] is %d, expected %d", who, i, get(a[i]), m[i]);
  }
}
template <class A> static void fill(A &a, Model &m, int &next) { for (size_t i = 0; i < a.size(); ++i) { set(a[i], next); m[i] = next++; } }
template <class T> static void resize(Model &m, size_t n) { m.resize(n, Fresh<T>::known ? (int)FRESH : -1); }
template <class A> static void assign(A &a, A const &b) { a = b; }
static void assign(ReservedArray<M> &, ReservedArray<M> const &) { en::skip(); }
static void assign(Poor<M> &, Poor<M> const &) { en::skip(); }
template <class A> static A copy(A const &b) { return b; }
static ReservedArray<M> copy(ReservedArray<M> const &) { en::skip(); }
static Poor<M> copy(Poor<M> const &) { en::skip(); }
enum { NOTHING, ELEMENT, MEMORY };
template <class A> static void history(int fails)
{
  typedef typename A::value_type T;
  static const size_t N_[] = {0, 1, 2, 3, 5};
  live = 0; fuse = mem = -1;
  long l0 = en::live_blocks();
  {
    A a[2] = {A(), A(2)};
    Model m[2]; int next = 1; bool burnt = false;
    resize<T>(m[1], 2);
    see(a[0], m[0], "a0"); see(a[1], m[1], "a1");
    fill(a[1], m[1], next);
    for (int s = 0; s < en::depth(); ++s) {
      int i = en::ch(2), j = 1 - i, op = en::ch(10);
      if (fails == ELEMENT && !burnt && op < 6 && op != 3) { fuse = en::ch(5) - 1; burnt = fuse >= 0; } // one of the steps fails
      if (fails == MEMORY && !burnt && op < 6 && op != 3) { mem = en::ch(3) - 1; burnt = mem >= 0; }
      refused = false;
      Model om = m[i]; bool thrown = false;
      try {
        switch (op) {
        case 0: { size_t n = en::pick(N_); en::op("a%d.Grow(%zu)", i, n); a[i].Grow(n); if (n > m[i].size()) resize<T>(m[i], n); break; }
        case 1: { size_t n = en::pick(N_); en::op("a%d.Shrink(%zu)", i, n); a[i].Shrink(n); if (n < m[i].size()) m[i].resize(n); break; }
        case 2: en::op("a%d = a%d", i, j); assign(a[i], a[j]); m[i] = m[j]; break;
        case 3: en::op("a%d = move(a%d)", i, j); a[i] = std::move(a[j]); { // what is left in the source isn't promised
          m[i] = m[j]; Model left((size_t)a[j].size(), 0); for (size_t k = 0; k < left.size(); ++k) left[k] = get(a[j][k]); m[j] = left; } break;
        case 4: { en::op("copy of a%d", i); A c(copy(a[i])); Model mc = m[i]; mem = -1; see(c, mc, "copy"); fuse = -1; if (c.size()) set(c[0], 500); break; }
        case 5: { size_t n = en::pick(N_); en::op("a%d = array(%zu)", i, n); A c(n); a[i] = std::move(c); m[i].clear(); resize<T>(m[i], n); break; }
        case 6: { en::op("move construct from a%d", i); A c(std::move(a[i])); Model mc = m[i]; see(c, mc, "moved"); m[i].clear(); see(a[i], m[i], "source"); if (en::flip()) { a[i] = std::move(c); m[i] = mc; } break; }
        case 7: { en::op("swap"); if (en::flip()) a[i].swap(a[j]); else std::swap(a[i], a[j]); std::swap(m[i], m[j]); break; }
        case 8: { en::op("a%d = itself", i); A &r = a[i]; assign(r, a[i]); break; }
        case 9: en::op("write to a%d", i); if (!a[i].size()) en::skip(); fill(a[i], m[i], next); break;
        }
      } catch (Boom &) { thrown = true; }
      catch (std::bad_alloc &) { EN_CHECK(refused, "bad_alloc though there is memory |"); thrown = true; }
      fuse = mem = -1;
      if (thrown) m[i] = om; // as if nothing happened
      see(a[0], m[0], "a0"); see(a[1], m[1], "a1");
      if (Fresh<T>::known) EN_CHECK(live == (long)(a[0].size() + a[1].size()), "elements are constructed and not destroyed | %ld live, %zu in the arrays", live, a[0].size() + a[1].size());
    }
  }
  EN_CHECK(live == 0, "elements outlive their array | %ld", live);
  EN_CHECK(en::live_blocks() == l0, "memory outlives its array | %ld blocks", en::live_blocks() - l0);
}
EN_CASE("P34", array_int, 4, 5) { history<ReservedArray<int>>(NOTHING); }
EN_CASE("P34", array_moved, 4, 5) { history<ReservedArray<N>>(NOTHING); }
EN_CASE("P34", array_copied, 4, 5) { history<ReservedArray<C>>(NOTHING); }
EN_CASE("P34", array_assigned, 4, 5) { history<ReservedArray<Q>>(NOTHING); }
EN_CASE("P34", array_bytes, 4, 5) { history<ReservedArray<R>>(NOTHING); }
EN_CASE("P34", array_move_only, 4, 5) { history<ReservedArray<M>>(NOTHING); }
EN_CASE("P34", array_moved_throwing, 3, 4) { history<ReservedArray<N>>(ELEMENT); }
EN_CASE("P34", array_copied_throwing, 3, 4) { history<ReservedArray<C>>(ELEMENT); }
EN_CASE("P34", array_move_only_throwing, 3, 4) { history<ReservedArray<M>>(ELEMENT); }
EN_CASE("P34", array_bytes_throwing, 3, 4) { history<ReservedArray<D>>(ELEMENT); }
EN_CASE("P34", array_int_memory, 3, 4) { history<Poor<int>>(MEMORY); }
EN_CASE("P34", array_moved_memory, 3, 4) { history<Poor<N>>(MEMORY); }
EN_CASE("P34", array_copied_memory, 3, 4) { history<Poor<C>>(MEMORY); }
EN_CASE("P34", array_assigned_memory, 3, 4) { history<Poor<Q>>(MEMORY); }
EN_CASE("P34", array_bytes_memory, 3, 4) { history<Poor<R>>(MEMORY); }
EN_CASE("P34", array_move_only_memory, 3, 4) { history<Poor<M>>(MEMORY); }
// the constructors, with every element in turn unable to be made
template <class T> static void construct()
{
  live = 0; fuse = mem = -1;
  long l0 = en::live_blocks();
  {
    size_t n = (size_t)en::ch(6); int k = en::ch(7) - 1;
    ReservedArray<T> a(n);
    for (size_t i = 0; i < n; ++i) set(a[i], (int)i + 1);
    bool thrown = false;
    fuse = k;
    en::op("array(%zu), construction %d throws", n, k);
    try {
      if (en::flip()) { ReservedArray<T> b(n); fuse = -1; for (size_t i = 0; i < n; ++i) EN_CHECK(get(b[i]) == FRESH, "an element isn't default constructed |"); EN_CHECK(b.size() == n, "wrong size |"); }
      else { ReservedArray<T> b(copy(a)); fuse = -1; for (size_t i = 0; i < n; ++i) EN_CHECK(get(b[i]) == (int)i + 1, "an element isn't copied |"); EN_CHECK(b.size() == n, "wrong size |"); }
    } catch (Boom &) { thrown = true; }
    fuse = -1;
    EN_CHECK(thrown == (k >= 0 && (size_t)k < n), "the exception of a constructor is lost |");
    EN_CHECK(live == (long)n, "elements outlive their array | %ld", live);
    en::step();
  }
  EN_CHECK(live == 0 && en::live_blocks() == l0, "elements or memory outlive their array | %ld", live);
}
EN_CASE("P34", array_construct, 1, 1) { if (en::flip()) construct<N>(); else construct<C>(); }
// ---- the vector of fixed size: its elements are constructed one by one, all before it is destroyed
EN_CASE("P34", fixed_vector, 5, 6)
{
  live = 0; fuse = mem = -1;
  long l0 = en::live_blocks();
  {
    size_t n = 1 + (size_t)en::ch(en::depth());
    FixedVector<N> v(n); FixedVector<std::string> w(n);
    FixedVector<N> const &cv = v;
    EN_CHECK(v.size() == n && w.size() == n && (size_t)(v.end() - v.begin()) == n && (size_t)(cv.end() - cv.begin()) == n && v.data() == v.begin() && cv.data() == v.data() && v.cbegin() == v.begin() && v.cend() == v.end() && cv.cbegin() == v.begin() && cv.begin() == v.begin() && cv.cend() == v.end(), "the size of a fixed vector is wrong |");
    EN_CHECK(live == 0, "a fixed vector constructs elements by itself |");
    std::vector<char> done(n, 0);
    for (size_t k = 0; k < n; ++k) { // in any order
      size_t i = (size_t)en::ch((int)(n - k));
      for (size_t x = 0, seen = 0; x < n; ++x) if (!done[x] && seen++ == i) { i = x; break; }
      N src; set(src, (int)i + 1);
      en::op("construct %zu", i);
      bool moved = en::ch(2) && k < 2, thrown = false;
      if (!moved && k == 0 && en::flip()) { // a constructor that throws passes its exception on
        fuse = 0; try { v.Construct(i, src); } catch (Boom &) { thrown = true; } fuse = -1;
        EN_CHECK(thrown, "the exception of a constructor is lost |");
      }
      if (moved) v.Construct(i, std::move(src)); else v.Construct(i, src);
      EN_CHECK(moved == (get(src) == -2), "an argument isn't forwarded |");
      w.Construct(i, std::string(40, (char)('a' + i)));
      done[i] = 1;
      en::step();
      for (size_t x = 0; x < n; ++x) if (done[x]) EN_CHECK(get(v[x]) == (int)x + 1 && get(cv[x]) == (int)x + 1, "an element has a wrong value |");
    }
    EN_CHECK(live == (long)n, "elements are constructed twice or not at all | %ld", live);
  }
  EN_CHECK(live == 0 && en::live_blocks() == l0, "elements or memory outlive the vector | %ld", live);
}

// sizes that overflow when they are counted in bytes
template <class T> static void huge(size_t n)
{
  typedef ReservedArray<T> A;
  live = 0; fuse = mem = -1;
  bool thrown = false;
  try { A a(n); EN_CHECK(a.size() == n, "an array has a wrong size |"); } catch (std::bad_alloc &) { thrown = true; }
  EN_CHECK(thrown, "an array is larger than any memory |");
  A b(3); Model m; resize<T>(m, 3); int next = 1;
  fill(b, m, next);
  thrown = false;
  try { b.Grow(n); } catch (std::bad_alloc &) { thrown = true; }
  EN_CHECK(thrown, "an array is larger than any memory |");
  see(b, m, "b");
}
EN_CASE("P34", array_huge, 0, 0)
{
  int t = en::ch(5), k = en::ch(12), s = 1 + en::ch(4);
  static const size_t SZ[] = {4, sizeof(N), sizeof(C), sizeof(R), 24};
  size_t n = (size_t)((((unsigned __int128)1 << 64) * (unsigned)s) / SZ[t] + 1 + (unsigned)k);
  if (n > SIZE_MAX - 16 || (unsigned)s >= SZ[t]) en::skip();
  en::op("array(%zu) of elements of %zu bytes", n, SZ[t]);
  switch (t) {
  case 0: huge<int>(n); break;
  case 1: huge<N>(n); break;
  case 2: huge<C>(n); break;
  case 3: huge<R>(n); break;
  case 4: {
    struct Big { char b[24]; };
    bool thrown = false;
    try { FixedVector<Big> v(n); } catch (std::bad_alloc &) { thrown = true; }
    EN_CHECK(thrown, "an array is larger than any memory |");
    break;
  }
  }
}
