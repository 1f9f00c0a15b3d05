// P27: memory pools
#include "tracked.h"
#include "kanon/util/macro.h"
#include "kanon/mem/fixed_chunk_memory_pool.h"
#include "kanon/mem/linear_fixed_memory_pool.h"
#include "kanon/mem/object_memory_pool.h"
#include "kanon/mem/object_pool_allocator.h"
#include <algorithm>
#include <list>
extern "C" void *__asan_region_is_poisoned(void *, size_t);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
long Tracked::live;
// memory that can't always be had
static int mem = -1; static bool refused;
extern "C" void *__real_malloc(size_t);
extern "C" void *__wrap_malloc(size_t n)
{
  if (mem == 0) { mem = -1; refused = true; return nullptr; }
  if (mem > 0) --mem;
  return __real_malloc(n);
}
struct Blk { char *p; size_t n; unsigned char fill; };
static unsigned char fillno;
static void add(std::vector<Blk> &v, void *p, size_t n, size_t align)
{
  EN_CHECK(p, "no block although there is memory");
  EN_CHECK((uintptr_t)p % align == 0, "block not aligned for its contents | %zu-byte block, address %% %zu = %zu", n, align, (size_t)((uintptr_t)p % align));
  for (auto &b : v) EN_CHECK((char *)p + n <= b.p || b.p + b.n <= (char *)p, "two live blocks overlap");
  EN_CHECK(!__asan_region_is_poisoned(p, n), "a block reaches outside allocated memory");
  Blk b = {(char *)p, n, ++fillno};
  memset(p, b.fill, n);
  v.push_back(b);
}
static void check(const std::vector<Blk> &v)
{
  for (auto &b : v) {
    EN_CHECK(!__asan_region_is_poisoned(b.p, b.n), "a live block was released");
    for (size_t i = 0; i < b.n; ++i) EN_CHECK((unsigned char)b.p[i] == b.fill, "the contents of a live block changed");
  }
}
EN_CASE("P27", fixed_pool, 7, 9)
{
  static const int SZ[] = {1, 7, 8, 9, 12, 16, 24, 33, 100};
  int sz = en::pick(SZ), per = 1 + en::ch(3);
  en::op("pool of %d-byte blocks, %d per chunk", sz, per);
  long h0 = en::live_blocks();
  fillno = 0;
  std::vector<Blk> v; v.reserve(64);
  {
    kanon::FixedChunkMemoryPool pool((size_t)per);
    long hp = en::live_blocks(); (void)hp;
    size_t total = 0; // blocks the pool owns
    bool changed = false;
    EN_CHECK(pool.Malloc(0) == nullptr, "Malloc(0)");
    pool.Free(nullptr);
    for (int d = 0; d < en::depth(); ++d) {
      switch (en::ch(5)) {
      case 0: {
        en::op("Malloc");
        size_t f = pool.GetFreeChunkNum((size_t)sz), bn = pool.GetBlockNum();
        void *p = pool.Malloc((size_t)sz);
        add(v, p, (size_t)sz, sz >= 8 ? 8 : sz >= 4 ? 4 : 1);
        if (f) { EN_CHECK(pool.GetBlockNum() == bn, "new memory is taken although a block is free"); }
        else { EN_CHECK(pool.GetBlockNum() == bn + 1, "block count"); total += pool.GetChunkPerBlock(); }
        break;
      }
      case 1: { if (v.empty()) en::skip(); size_t k = (size_t)en::ch((int)v.size()); en::op("Free #%zu", k); pool.Free(v[k].p); v.erase(v.begin() + (long)k); break; }
      case 2: {
        en::op("Shrink");
        pool.Shrink((size_t)sz);
        // what is left holds live blocks: with one block per chunk exactly as many
        size_t left = pool.GetFreeChunkNum((size_t)sz) + v.size();
        EN_CHECK(pool.GetBlockNum() <= v.size(), "Shrink keeps unused memory | %zu chunks, %zu live blocks", pool.GetBlockNum(), v.size());
        EN_CHECK(left <= total, "free count after Shrink");
        if (!changed) EN_CHECK(left == pool.GetBlockNum() * (size_t)per, "free count after Shrink | %zu", left);
        total = left;
        break;
      }
      case 3: { if (v.size() < 2) en::skip(); en::op("Free all, last first"); while (!v.empty()) { pool.Free(v.back().p); v.pop_back(); } break; }
      case 4: { if (changed) en::skip(); changed = true; en::op("SetChunkPerBlock(%d)", per + 2); pool.SetChunkPerBlock((size_t)per + 2); break; }
      }
      check(v);
      EN_CHECK(pool.GetFreeChunkNum((size_t)sz) + v.size() == total, "free blocks counted wrongly | %zu free, %zu live, %zu in all", pool.GetFreeChunkNum((size_t)sz), v.size(), total);
      EN_CHECK(en::live_blocks() - h0 - 1 == (long)pool.GetBlockNum(), "the pool holds other memory than it counts | %ld, %zu", en::live_blocks() - h0 - 1, pool.GetBlockNum());
      EN_CHECK(pool.GetUsage((size_t)sz) >= total * (size_t)sz, "usage below the size of the blocks");
    }
  }
  v.clear(); v.shrink_to_fit();
  EN_CHECK(en::live_blocks() == h0, "the pool leaves memory behind | %ld", en::live_blocks() - h0);
}
EN_CASE("P27", object_pool, 6, 8)
{
  en::op("typed pool");
  struct Big { double d[5]; };
  std::vector<Blk> v; v.reserve(64); fillno = 0;
  kanon::ObjectMemoryPool<Big> pool((size_t)(1 + en::ch(2)));
  for (int d = 0; d < en::depth(); ++d) {
    switch (en::ch(3)) {
    case 0: en::op("Malloc"); add(v, pool.Malloc(), sizeof(Big), alignof(Big)); break;
    case 1: { if (v.empty()) en::skip(); size_t k = (size_t)en::ch((int)v.size()); en::op("Free #%zu", k); pool.Free(v[k].p); v.erase(v.begin() + (long)k); break; }
    case 2: en::op("Shrink"); pool.Shrink(); break;
    }
    check(v);
    EN_CHECK(pool.GetUsage() >= v.size() * sizeof(Big), "usage");
  }
}
EN_CASE("P27", pool_allocator, 6, 8)
{
  long l0 = Tracked::live;
  int per = 1 + en::ch(3);
  en::op("list on a pool, %d per chunk", per);
  {
    kanon::FixedChunkMemoryPool pool((size_t)per);
    {
      kanon::ObjectPoolAllocator<Tracked> al(pool), al2(al);
      EN_CHECK(al == al2 && !(al != al2), "copies of an allocator compare different");
      typedef kanon::ObjectPoolAllocator<Tracked>::rebind<int>::other AI;
      AI ai(al); (void)ai;
      std::list<Tracked, kanon::ObjectPoolAllocator<Tracked>> l(al);
      std::list<Tracked> m;
      int id = 0;
      for (int d = 0; d < en::depth(); ++d) {
        switch (en::ch(5)) {
        case 0: en::op("push_back"); ++id; l.push_back(Tracked(id, id)); m.push_back(Tracked(id, id)); break;
        case 1: en::op("push_front"); ++id; l.emplace_front(id, id); m.emplace_front(id, id); break;
        case 2: if (m.empty()) en::skip(); en::op("pop_front"); l.pop_front(); m.pop_front(); break;
        case 3: { if (m.empty()) en::skip(); int k = en::ch((int)m.size()); en::op("erase %d", k); auto i = l.begin(); auto j = m.begin(); std::advance(i, k); std::advance(j, k); l.erase(i); m.erase(j); break; }
        case 4: en::op("clear"); l.clear(); m.clear(); break;
        }
        EN_CHECK(l.size() == m.size(), "size");
        auto i = l.begin(); for (auto &x : m) { i->chk(); EN_CHECK(i->id == x.id && i->key == x.key, "list on a pool differs"); ++i; }
      }
    }
  }
  EN_CHECK(Tracked::live == l0, "objects constructed and destroyed differ");
}
EN_CASE("P27", linear_pool, 7, 9)
{
  int cap = en::ch(4);
  en::op("linear pool of %d", cap);
  long h0 = en::live_blocks(); (void)h0;
  typedef struct { char c[24]; } T;
  {
    kanon::LinearFixedMemoryPool<T> pool((size_t)cap);
    std::vector<Blk> v; v.reserve(64); fillno = 0;
    // a branch may be left at any point
    struct Rest { kanon::LinearFixedMemoryPool<T> &p; std::vector<Blk> &v; ~Rest() { while (!v.empty()) { p.Free((T *)v.back().p); v.pop_back(); } } } rest = {pool, v};
    for (int d = 0; d < en::depth(); ++d) {
      switch (en::ch(3)) {
      case 0: en::op("Malloc"); add(v, pool.Malloc(), sizeof(T), 8); break;
      case 1: { if (v.empty()) en::skip(); size_t k = (size_t)en::ch((int)v.size()); en::op("Free #%zu", k); pool.Free((T *)v[k].p); v.erase(v.begin() + (long)k); break; }
      case 2: { if (!v.empty()) en::skip(); int r = en::ch(4); en::op("Reserve(%d)", r + 1); pool.Reserve((size_t)r + 1); EN_CHECK(pool.size() >= (size_t)r + 1, "Reserve"); break; }
      }
      check(v);
      size_t in = v.size() < pool.size() ? v.size() : pool.size(); (void)in;
      EN_CHECK(pool.freesize() + v.size() >= pool.size(), "free blocks counted wrongly");
    }
    while (!v.empty()) { pool.Free((T *)v.back().p); v.pop_back(); }
    EN_CHECK(pool.freesize() == pool.size(), "blocks missing after everything was freed");
  }
}
// growing a linear pool that has live blocks
EN_CASE("P27", linear_pool_grow, 0, 0)
{
  typedef struct { char c[24]; } T;
  int cap = 1 + en::ch(2), used = 1 + en::ch(2), r = 1 + en::ch(3);
  if (used > cap) en::skip();
  en::op("linear pool of %d, %d used, Reserve(%d)", cap, used, cap + r);
  kanon::LinearFixedMemoryPool<T> pool((size_t)cap);
  std::vector<Blk> v; v.reserve(8); fillno = 0;
  for (int i = 0; i < used; ++i) add(v, pool.Malloc(), sizeof(T), 8);
  pool.Reserve((size_t)(cap + r));
  for (auto &b : v) EN_CHECK(!__asan_region_is_poisoned(b.p, b.n), "growing the linear pool releases blocks in use");
  check(v);
}

// one of the allocations fails
EN_CASE("P27", pool_memory, 6, 7)
{
  en::op("pool without memory");
  std::vector<Blk> v; v.reserve(64); fillno = 0; mem = -1;
  long l0 = Tracked::live;
  size_t per = (size_t)(1 + en::ch(2));
  mem = en::ch(3);
  {
    kanon::FixedChunkMemoryPool pool(per);
    kanon::ObjectPoolAllocator<Tracked> al(pool);
    std::list<Tracked, kanon::ObjectPoolAllocator<Tracked>> l(al);
    int n = 0;
    for (int d = 0; d < en::depth(); ++d) {
      refused = false;
      switch (en::ch(4)) {
      case 0: { en::op("Malloc"); void *p = pool.Malloc(sizeof(Tracked) + 2 * sizeof(void *)); EN_CHECK((p != nullptr) == !refused, "a block without memory, or none with it"); if (p) add(v, p, sizeof(Tracked) + 2 * sizeof(void *), 8); break; }
      case 1: { if (v.empty()) en::skip(); size_t k = (size_t)en::ch((int)v.size()); en::op("Free #%zu", k); pool.Free(v[k].p); v.erase(v.begin() + (long)k); break; }
      case 2: en::op("list on the pool: emplace_back"); try { l.emplace_back(n, n); ++n; EN_CHECK(!refused, "an object is made without memory"); } catch (std::bad_alloc &) { EN_CHECK(refused, "bad_alloc though there is memory"); } break;
      case 3: en::op("Shrink"); pool.Shrink(sizeof(Tracked) + 2 * sizeof(void *)); break;
      }
      check(v);
      EN_CHECK((int)l.size() == n, "size of a list on a pool");
      int i = 0; for (auto &x : l) { x.chk(); EN_CHECK(x.id == i, "list on a pool differs"); ++i; }
    }
    mem = -1;
  }
  EN_CHECK(Tracked::live == l0, "objects constructed and destroyed differ");
}
// sizes whose blocks nobody has the memory for
EN_CASE("P27", pool_huge, 0, 0)
{
  static const size_t PER[] = {1, 2, 3, 16, (size_t)1 << 32, SIZE_MAX / 32, SIZE_MAX / 16, SIZE_MAX / 16 + 1, SIZE_MAX / 24 + 1, SIZE_MAX};
  size_t per = en::pick(PER); mem = -1;
  bool many = per > 16;
  int k = en::ch(12);
  size_t sz = k < 8 ? SIZE_MAX - (size_t)k * 5 : SIZE_MAX / (many ? 1 : per) - (size_t)(k - 8) * 24;
  if (many && k >= 8) sz = (size_t)1 << (4 * (k - 7)); // many small ones
  if (many && sz < SIZE_MAX / 2 && per < SIZE_MAX / 64 && sz * per < (size_t)1 << 62) en::skip();
  en::op("Malloc(%zu), %zu per block", sz, per);
  kanon::FixedChunkMemoryPool pool(per);
  EN_CHECK(pool.Malloc(sz) == nullptr, "a block is larger than any memory");
  EN_CHECK(pool.Malloc(sz) == nullptr, "a block is larger than any memory");
}
