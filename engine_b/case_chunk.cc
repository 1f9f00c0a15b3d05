// P25: kanon/buffer/chunk_list.h and writing it to a descriptor, against an ideal byte queue
#include "enumer.h"
#include "kanon/net/chunk_list.h"
#include "kanon/net/sock_api.h"
#include <sys/uio.h>
#include <errno.h>
#include <set>
using kanon::Chunk; using kanon::ChunkList; using kanon::StringView;
static size_t wr_max; static int wr_err; static std::string wr_got; static bool wr_bad; static int wr_calls;
extern "C" ssize_t __wrap_writev(int, const struct iovec *v, int n)
{
  ++wr_calls;
  if (n > 1024 || n < 0) { errno = EINVAL; wr_bad = true; return -1; }
  size_t tot = 0; for (int i = 0; i < n; ++i) tot += v[i].iov_len;
  if (wr_err) { errno = wr_err; return -1; }
  size_t left = tot < wr_max ? tot : wr_max; size_t r = left;
  for (int i = 0; i < n && left; ++i) { size_t k = v[i].iov_len < left ? v[i].iov_len : left; wr_got.append((char *)v[i].iov_base, k); left -= k; }
  wr_max -= r; if (wr_max == 0) wr_err = EAGAIN;
  return (ssize_t)r;
}
extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" ssize_t __wrap_write(int fd, const void *p, size_t n)
{
  if (fd != 1000) return __real_write(fd, p, n);
  struct iovec v = {(void *)p, n}; return __wrap_writev(fd, &v, 1);
}
static unsigned gen;
static std::string bytes(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(++gen * 2654435761u >> 13); return s; }
static std::string content(const ChunkList &c, const char *w)
{
  std::string s; std::set<const void *> seen;
  size_t k = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++k) {
    const Chunk &x = *it;
    EN_CHECK(seen.insert(&x).second, "a chunk of %s is in the list twice", w);
    const char *base = (const char *)&x + sizeof(Chunk);
    EN_CHECK(x.GetMaxSize() == 4096, "chunk size");
    EN_CHECK(x.GetReadBegin() >= base && x.GetReadableSize() <= 4096 && x.GetWritableSize() <= 4096 && x.GetReadBegin() + x.GetReadableSize() + x.GetWritableSize() == base + 4096, "a chunk of %s reaches outside its memory", w);
    s.append(x.GetReadBegin(), x.GetReadableSize());
  }
  EN_CHECK(k == c.GetChunkSize(), "chunk count of %s", w);
  return s;
}
static void same(const ChunkList &c, const std::string &m, const char *w)
{
  EN_CHECK(c.GetReadableSize() == m.size(), "chunk list %s reports another size | %zu, expected %zu", w, (size_t)c.GetReadableSize(), m.size());
  if (!m.empty()) EN_CHECK(c.GetFirstChunk()->GetReadableSize() > 0, "the first chunk of %s has nothing to read although later ones have", w);
  EN_CHECK(c.HasReadable() == !m.empty() && c.IsEmpty() == m.empty(), "chunk list %s: HasReadable/IsEmpty", w);
  std::string s = content(c, w);
  if (s != m) { size_t i = 0; while (i < s.size() && i < m.size() && s[i] == m[i]) ++i; en::fail("chunk list %s contains other bytes | first difference at %zu (sizes %zu, %zu)", w, i, s.size(), m.size()); }
}
struct St { ChunkList a, b; std::string ma, mb; };
template <class T> static T be(const std::string &m) { uint64_t r = 0; for (size_t i = 0; i < sizeof(T); ++i) r = r << 8 | (unsigned char)m[i]; return (T)r; }
template <class T> static std::string bs(T v) { std::string s; for (int i = (int)sizeof(T) - 1; i >= 0; --i) s += (char)(unsigned char)((uint64_t)v >> (8 * i)); return s; }
// room for a header in front of the first chunk's data
static bool headroom(ChunkList &c) { if (c.IsEmpty()) return true; return c.GetFirstChunk()->GetReadBegin() - ((const char *)c.GetFirstChunk() + sizeof(Chunk)) >= 8; }
static const uint64_t IV = 0x0182f3a4b5c6d7e8ull;
#define INT_OPS(N, T) \
  static void append_##N(St &s) { en::op("Append" #N); s.a.Append##N((T)IV); s.ma += bs<T>((T)IV); } \
  static void prepend_##N(St &s) { if (!headroom(s.a)) en::skip(); en::op("Prepend" #N); s.a.Prepend##N((T)IV); s.ma = bs<T>((T)IV) + s.ma; } \
  static void read_##N(St &s) { if (s.ma.size() < sizeof(T)) en::skip(); en::op("GetReadBegin" #N ", Read" #N); T w = be<T>(s.ma); T g = s.a.GetReadBegin##N(); EN_CHECK(g == w, "GetReadBegin" #N " gives another number | %llx, expected %llx", (unsigned long long)g, (unsigned long long)w); g = s.a.Read##N(); EN_CHECK(g == w, "Read" #N " gives another number | %llx, expected %llx", (unsigned long long)g, (unsigned long long)w); s.ma.erase(0, sizeof(T)); }
INT_OPS(8, uint8_t) INT_OPS(16, uint16_t) INT_OPS(32, uint32_t) INT_OPS(64, uint64_t)
static void wr(ChunkList &c, std::string &m, size_t max, int err)
{
  wr_max = max; wr_err = err; wr_got.clear(); wr_bad = false; wr_calls = 0;
  int e = 0;
  size_t n = kanon::ChunkListWriteFd(c, 1000, e);
  EN_CHECK(!wr_bad, "more parts handed to one writev() than the system takes");
  EN_CHECK(n == wr_got.size() && wr_got == m.substr(0, n), "bytes written are not the first bytes of the list | reports %zu, wrote %zu of %zu", n, wr_got.size(), m.size());
  if (err) EN_CHECK(e == err && n == 0, "a failed write must report the error and no bytes | errno %d, %zu bytes", e, n);
  else if (!m.empty() && max) EN_CHECK(n > 0, "nothing written although there was room");
  same(c, m, "after writing");
  c.AdvanceRead(n); m.erase(0, n);
}
static void step(St &s, int g)
{
  ChunkList &a = s.a; std::string &m = s.ma;
  switch (g) {
  case 0: { static const int N[] = {0, 1, 4087, 4088, 4089, 4096, 4097, 9000}; size_t n; int k = en::ch(10); if (k < 8) n = (size_t)N[k]; else { size_t w = a.IsEmpty() ? 4088 : a.GetLastChunk()->GetWritableSize(); n = k == 8 ? w : w + 1; } std::string d = bytes(n); en::op("Append(%zu bytes)", n); if (en::ch(2)) a.Append(StringView(d.data(), n)); else a.Append(d.data(), n); m += d; break; }
  case 1: { int w = en::ch(4); (w == 0 ? append_8 : w == 1 ? append_16 : w == 2 ? append_32 : append_64)(s); break; }
  case 2: { int w = en::ch(4); (w == 0 ? prepend_8 : w == 1 ? prepend_16 : w == 2 ? prepend_32 : prepend_64)(s); break; }
  case 3: { int w = en::ch(4); (w == 0 ? read_8 : w == 1 ? read_16 : w == 2 ? read_32 : read_64)(s); break; }
  case 4: { if (m.empty()) en::skip(); size_t f = a.GetFirstChunk()->GetReadableSize(); size_t n; switch (en::ch(7)) { case 0: n = 1; break; case 1: n = f; break; case 2: n = f + 1; break; case 3: n = f - 1; break; case 4: n = m.size(); break; case 5: n = m.size() - 1; break; default: n = 0; } if (n > m.size()) en::skip(); en::op("AdvanceRead(%zu of %zu)", n, m.size()); a.AdvanceRead(n); m.erase(0, n); break; }
  case 5: { en::op("AdvanceReadAll"); a.AdvanceReadAll(); m.clear(); break; }
  case 6: { int n = en::ch(3); size_t f0 = a.GetFreeChunkSize(); en::op("Shrink(%d) with %zu free chunks", n, f0); a.Shrink((size_t)n); EN_CHECK(a.GetFreeChunkSize() == (f0 < (size_t)n ? f0 : (size_t)n), "Shrink(%d) leaves %zu free chunks of %zu", n, (size_t)a.GetFreeChunkSize(), f0); break; }
  case 7: { int n = en::ch(3); size_t f0 = a.GetFreeChunkSize(); en::op("ReserveFreeChunk(%d)", n); a.ReserveFreeChunk((size_t)n); EN_CHECK(a.GetFreeChunkSize() == (f0 > (size_t)n ? f0 : (size_t)n), "ReserveFreeChunk(%d) gives %zu", n, (size_t)a.GetFreeChunkSize()); break; }
  case 8: { static const int N[] = {0, 1, 4096, 4097, 10000}; int n = en::pick(N); en::op("ReserveWriteSpace(%d)", n); a.ReserveWriteSpace((size_t)n); break; }
  case 9: { en::op("AppendChunkList(b)"); a.AppendChunkList(&s.b); m += s.mb; s.mb.clear(); break; }
  case 10: { en::op("swap"); if (en::ch(2)) a.swap(s.b); else kanon::swap(a, s.b); m.swap(s.mb); break; }
  case 11: { en::op("move to a new list and to b"); ChunkList c(std::move(a)); same(a, "", "moved-from"); same(c, m, "moved-to"); s.b = std::move(c); s.mb.swap(m); m.clear(); same(s.b, s.mb, "move-assigned"); break; }
  case 12: { en::op("Clone"); ChunkList c = a.Clone(); same(c, m, "clone"); c.Append("zz", 2); same(c, m + "zz", "clone"); break; }
  case 13: { en::op("CopyAssign(b)"); if (en::ch(2)) { a.CopyAssign(s.b); m = s.mb; } else { a.CopyAssign(a); } break; }
  case 14: { size_t n; int err = 0; switch (en::ch(7)) { case 0: n = 1; break; case 1: n = m.size() / 2; break; case 2: n = 1u << 30; break; case 3: n = 4088; break; case 4: n = 0; err = EAGAIN; break; case 5: n = 0; err = EPIPE; break; default: n = 4089; } en::op("write to the descriptor: room for %zu, errno %d", n, err); if (!err && !n) en::skip(); wr(a, m, n, err); break; }
  case 15: { if (m.empty()) en::skip(); int n = 1 + en::ch(2); size_t k = a.GetChunkSize(); en::op("ReserveChunk(%d)", n); a.ReserveChunk((size_t)n); EN_CHECK(a.GetChunkSize() == k + n, "ReserveChunk adds another number of chunks"); break; }
  }
}
static const int NG = 16;
EN_CASE("P25", chunk_ops, 3, 4)
{
  gen = 0;
  St s;
  static const int I[] = {0, 1, 2, 3};
  int k = en::pick(I);
  en::op("start %d", k);
  if (k >= 1) { std::string d = bytes(4080); s.a.Append(d.data(), d.size()); s.ma = d; d = bytes(3); s.b.Append(d.data(), 3); s.mb = d; }
  if (k >= 2) { std::string d = bytes(5000); s.a.Append(d.data(), d.size()); s.ma += d; d = bytes(9000); s.b.Append(d.data(), 9000); s.mb += d; }
  if (k == 3) { s.a.AppendChunkList(&s.b); s.ma += s.mb; s.mb.clear(); s.a.Append("tail", 4); s.ma += "tail"; }
  same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
  for (int d = 0; d < en::depth(); ++d) {
    step(s, en::ch(NG));
    same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
  }
}
// short steps around one chunk boundary, longer histories
EN_CASE("P25", chunk_long, 5, 7)
{
  gen = 0;
  St s;
  en::op("4080 bytes queued");
  { std::string d = bytes(4080); s.a.Append(d.data(), d.size()); s.ma = d; }
  ChunkList &a = s.a; std::string &m = s.ma;
  for (int d = 0; d < en::depth(); ++d) {
    switch (en::ch(6)) {
    case 5: { if (m.empty()) en::skip(); en::op("ReserveChunk(1)"); a.ReserveChunk(1); break; }
    case 0: { static const int N[] = {1, 8, 9, 4096}; size_t n = (size_t)en::pick(N); std::string x = bytes(n); en::op("Append(%zu)", n); a.Append(x.data(), n); m += x; break; }
    case 1: { static const int N[] = {1, 4080, 4088}; size_t n = (size_t)en::pick(N); if (n > m.size()) en::skip(); en::op("AdvanceRead(%zu)", n); a.AdvanceRead(n); m.erase(0, n); break; }
    case 2: { if (!headroom(a)) en::skip(); en::op("Prepend32"); a.Prepend32(0x01020304); m = std::string("\1\2\3\4", 4) + m; break; }
    case 3: { en::op("b takes a, a appends b"); ChunkList b; b.Append("b", 1); b.AppendChunkList(&a); same(b, "b" + m, "b"); a.Append("a", 1); a.AppendChunkList(&b); m = "ab" + m; break; }
    case 4: { size_t n = en::ch(2) ? 4096 : 5000; en::op("write, room for %zu", n); wr(a, m, n, 0); break; }
    }
    same(a, m, "a");
  }
}
// more chunks than one writev() takes
EN_CASE("P25", chunk_many, 0, 0)
{
  gen = 7;
  static const int N[] = {1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3000};
  int n = en::pick(N), room = en::ch(4), part = en::ch(2);
  en::op("%d chunks, room class %d", n, room);
  ChunkList a; std::string m;
  if (part) { // every chunk only partly filled
    for (int i = 0; i < n; ++i) { ChunkList b; std::string d = bytes(3); b.Append(d.data(), 3); m += d; a.AppendChunkList(&b); }
  } else { m = bytes(4088 + 4096 * (size_t)(n - 1)); a.Append(m.data(), m.size()); }
  EN_CHECK(a.GetChunkSize() == (size_t)n, "chunk count");
  size_t rm = room == 0 ? 1u << 30 : room == 1 ? 1 : room == 2 ? m.size() - 1 : m.size() / 2;
  if (!rm) rm = 1;
  for (int i = 0; i < 8 && !m.empty(); ++i) { wr(a, m, rm, 0); en::step(); rm = 1u << 30; }
  EN_CHECK(m.empty(), "the list is not written out");
}
// the memory of a chunk is that of its bytes and a small head
extern "C" size_t __sanitizer_get_current_allocated_bytes();
EN_CASE("P25", chunk_memory, 3, 5)
{
  gen = 7;
  static std::string filling;
  if (filling.empty()) filling = bytes(6 * 4096);
  en::op("memory of a list");
  size_t used = __sanitizer_get_current_allocated_bytes();
  {
    ChunkList a;
    for (int d = 0; d < en::depth(); ++d) {
      switch (en::ch(5)) {
      case 0: a.Append(filling.data(), 1); break;
      case 1: a.Append(filling.data(), 5 * 4096); break;
      case 2: a.ReserveFreeChunk(3); break;
      case 3: a.ReserveWriteSpace(9000); break;
      case 4: a.AdvanceReadAll(); break;
      }
      en::step();
      size_t chunks = a.GetChunkSize() + a.GetFreeChunkSize(), now = __sanitizer_get_current_allocated_bytes() - used;
      EN_CHECK(now >= chunks * 4096 && now <= chunks * (4096 + 256), "a chunk takes another amount of memory than its size | %zu bytes for %zu chunks", now, chunks);
    }
    a.AdvanceReadAll(); a.Shrink(0);
    EN_CHECK(__sanitizer_get_current_allocated_bytes() == used, "memory of spare chunks is kept after a shrink to none |");
  }
  EN_CHECK(__sanitizer_get_current_allocated_bytes() == used, "memory of a list is never released |");
}
