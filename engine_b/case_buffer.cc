// P24: kanon/buffer/buffer.h (and reading from a descriptor) against an ideal
// byte queue; P25's chunked buffer is in case_chunk.cc.
#include "enumer.h"
#include "kanon/buffer/buffer.h"
#include "kanon/net/buffer.h"
#include <sys/uio.h>
#include <errno.h>
using kanon::Buffer; using kanon::StringView;
// the descriptor: what readv() returns next
static ssize_t rd_n; static int rd_err; static unsigned char rd_next; static size_t rd_space;
extern "C" ssize_t __wrap_readv(int, const struct iovec *v, int n)
{
  rd_space = 0;
  for (int i = 0; i < n; ++i) { rd_space += v[i].iov_len; if (v[i].iov_len) { ((volatile char *)v[i].iov_base)[v[i].iov_len - 1] = 0; } }
  if (rd_err) { errno = rd_err; return -1; }
  size_t want = (size_t)rd_n < rd_space ? (size_t)rd_n : rd_space, left = want;
  for (int i = 0; i < n && left; ++i) for (size_t j = 0; j < v[i].iov_len && left; ++j, --left) ((unsigned char *)v[i].iov_base)[j] = rd_next++ | 1;
  rd_n = (ssize_t)want;
  return rd_n;
}
static unsigned char gen;
static std::string bytes(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { gen = gen >= 250 ? 33 : gen + 1; s += (char)gen; } return s; }
static void same(Buffer &b, const std::string &m, const char *w)
{
  const Buffer &c = b;
  EN_CHECK(b.GetReadableSize() == m.size(), "buffer %s holds %zu bytes, expected %zu", w, (size_t)b.GetReadableSize(), m.size());
  EN_CHECK(b.HasReadable() == !m.empty(), "HasReadable of %s", w);
  EN_CHECK(b.GetPrependableSize() + b.GetReadableSize() + b.GetWritableSize() == b.GetCapacity(), "regions of %s do not add up | %zu+%zu+%zu!=%zu", w, b.GetPrependableSize(), b.GetReadableSize(), b.GetWritableSize(), b.GetCapacity());
  StringView v = b.ToStringView();
  EN_CHECK(v.size() == m.size() && (m.empty() || memcmp(v.data(), m.data(), m.size()) == 0), "buffer %s contains other bytes | \"%s\", expected \"%s\"", w, en::esc(std::string(v.data(), v.size())).c_str(), en::esc(m).c_str());
  EN_CHECK(b.GetReadBegin() == v.data() && c.GetReadBegin() == v.data() && b.GetWriteBegin() == v.data() + m.size(), "begin pointers of %s", w);
}
template <class T> static T be(const std::string &m) { T r = 0; for (size_t i = 0; i < sizeof(T); ++i) r = (T)(r << 8 | (unsigned char)m[i]); if (sizeof(T) == 1) r = (T)(unsigned char)m[0]; return r; }
template <class T> static std::string bs(T v) { std::string s; for (int i = (int)sizeof(T) - 1; i >= 0; --i) s += (char)(unsigned char)(v >> (8 * i)); return s; }
struct St { Buffer a, b; std::string ma, mb; St(size_t x, size_t y) : a(x), b(y) {} };
static size_t sizes(Buffer &b, int k)
{
  size_t w = b.GetWritableSize(), p = b.GetPrependableSize(), slack = p > 8 ? p - 8 : 0;
  switch (k) { case 0: return 0; case 1: return 1; case 2: return w; case 3: return w + 1; case 4: return w + slack; case 5: return w + slack + 1; case 6: return w ? w - 1 : 3; default: return 2 * b.GetCapacity() + 5; }
}
static const uint64_t IV[] = {0x0102030405060708ull, 0xfffefdfcfbfaf9f8ull};
#define INT_OPS(N, T) \
  static void append_##N(St &s) { T v = (T)en::pick(IV); en::op("Append" #N "(%llx)", (unsigned long long)v); s.a.Append##N(v); s.ma += bs<T>(v); } \
  static void prepend_##N(St &s) { T v = (T)en::pick(IV); if (s.a.GetPrependableSize() < 8) en::skip(); en::op("Prepend" #N "(%llx)", (unsigned long long)v); s.a.Prepend##N(v); s.ma = bs<T>(v) + s.ma; } \
  static void read_##N(St &s) { if (s.ma.size() < sizeof(T)) en::skip(); en::op("GetReadBegin" #N ", Read" #N); T want = be<T>(s.ma); T g = s.a.GetReadBegin##N(); EN_CHECK(g == want, "GetReadBegin" #N " gives another number | %llx, expected %llx", (unsigned long long)g, (unsigned long long)want); g = s.a.Read##N(); EN_CHECK(g == want, "Read" #N " gives another number | %llx, expected %llx", (unsigned long long)g, (unsigned long long)want); s.ma.erase(0, sizeof(T)); }
INT_OPS(8, uint8_t) INT_OPS(16, uint16_t) INT_OPS(32, uint32_t) INT_OPS(64, uint64_t)
static void step(St &s, int g)
{
  Buffer &a = s.a; std::string &m = s.ma;
  size_t pre = a.GetPrependableSize(); bool prepended = false;
  switch (g) {
  case 0: { size_t n = sizes(a, en::ch(8)); std::string d = bytes(n); int how = en::ch(2); en::op("Append(%zu bytes)", n); if (how) a.Append(StringView(d.data(), d.size())); else a.Append((void const *)d.data(), d.size()); m += d; break; }
  case 1: { static const int N[] = {1, 3, 8}; size_t n = (size_t)en::pick(N); int all = en::ch(2); if (pre < 8) en::skip(); if (all) n = pre; std::string d = bytes(n); en::op("Prepend(%zu bytes)", n); a.Prepend(StringView(d.data(), d.size())); m = d + m; prepended = true; break; }
  case 2: { int w = en::ch(4); (w == 0 ? append_8 : w == 1 ? append_16 : w == 2 ? append_32 : append_64)(s); break; }
  case 3: { int w = en::ch(4); (w == 0 ? prepend_8 : w == 1 ? prepend_16 : w == 2 ? prepend_32 : prepend_64)(s); prepended = true; break; }
  case 4: { int w = en::ch(4); (w == 0 ? read_8 : w == 1 ? read_16 : w == 2 ? read_32 : read_64)(s); break; }
  case 5: { int k = en::ch(4); size_t n = k == 0 ? 1 : k == 1 ? m.size() / 2 : k == 2 ? m.size() : (m.size() ? m.size() - 1 : 0); if (n > m.size()) en::skip(); en::op("AdvanceRead(%zu)", n); a.AdvanceRead(n); m.erase(0, n); break; }
  case 6: { en::op("AdvanceAll"); a.AdvanceAll(); m.clear(); break; }
  case 7: { size_t n = en::ch(2) ? m.size() : (m.size() + 1) / 2; int how = en::ch(2); en::op("Retrieve %zu as %s", n, how ? "vector" : "string"); std::string got; if (how) { std::vector<char> v = n == m.size() ? a.RetrieveAllAsVector() : a.RetrieveAsVector(n); got.assign(v.begin(), v.end()); } else got = n == m.size() ? a.RetrieveAllAsString() : a.RetrieveAsString(n); EN_CHECK(got == m.substr(0, n), "retrieved other bytes | \"%s\"", en::esc(got).c_str()); m.erase(0, n); break; }
  case 8: { static const char *const D[] = {"\r\n", "\r", "\n", "x\r\ny\n"}; const char *d = en::pick(D); en::op("Append(\"%s\")", en::esc(d).c_str()); a.Append(StringView(d, strlen(d))); m += d; break; }
  case 9: { int how = en::ch(4); const char *d = how & 1 ? "\r\n" : "\n"; en::op("%s(%s)", how & 1 ? "FindCrLf" : "FindLf", how & 2 ? "string" : "view"); size_t p = m.find(d); bool r; std::string got;
      if (how & 2) { got = "untouched"; r = how & 1 ? a.FindCrLf(got) : a.FindLf(got); }
      else { StringView v; r = how & 1 ? a.FindCrLf(v) : a.FindLf(v); got.assign(v.data() ? v.data() : "", v.size()); }
      EN_CHECK(r == (p != std::string::npos), "line search finds %s", r ? "a line that is not there" : "nothing");
      if (r) { EN_CHECK(got == m.substr(0, p), "line search gives \"%s\"", en::esc(got).c_str()); if (how & 2) m.erase(0, p); }
      break; }
  case 10: { int n = en::ch(3) * 5; en::op("Shrink(%d)", n); size_t cap = a.GetCapacity(); a.Shrink((size_t)n); EN_CHECK(a.GetCapacity() <= cap, "Shrink grows the buffer"); EN_CHECK(a.GetCapacity() <= 8 + m.size() + n, "Shrink leaves more room than asked for | capacity %zu", a.GetCapacity()); break; }
  case 11: { en::op("swap"); a.swap(s.b); m.swap(s.mb); pre = 0; break; }
  case 12: { int how = en::ch(3); pre = 0; if (how == 0) { en::op("b = a"); s.b = a; s.mb = m; } else if (how == 1) { en::op("copy-construct"); Buffer c(a); same(c, m, "copy"); c.Append(StringView("zz", 2)); same(c, m + "zz", "copy"); } else { en::op("std::swap with a moved copy"); Buffer c(std::move(a)); a = s.b; s.b = std::move(c); m.swap(s.mb); s.b.AdvanceAll(); s.mb.clear(); } break; }
  case 13: { size_t n = sizes(a, en::ch(8)); size_t used = en::ch(2) ? n : n / 2; en::op("ReserveWriteSpace(%zu), fill %zu, AdvanceWrite", n, used); a.ReserveWriteSpace(n); EN_CHECK(a.GetWritableSize() >= n, "ReserveWriteSpace(%zu) gives %zu", n, (size_t)a.GetWritableSize()); std::string d = bytes(used); if (used) memcpy(a.GetWriteBegin(), d.data(), used); a.AdvanceWrite(used); m += d; break; }
  case 14: { int k = en::ch(9); size_t w = a.GetWritableSize(); int err = 0; rd_err = 0;
      if (k == 7) rd_err = EAGAIN; else if (k == 8) rd_err = ECONNRESET;
      size_t n = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? w : k == 3 ? w + 1 : k == 4 ? (w ? w - 1 : 2) : k == 5 ? w + 65536 : k == 6 ? 200000 : 0;
      rd_n = (ssize_t)n; unsigned char first = rd_next;
      en::op("read %zu bytes from the descriptor (errno %d)", n, rd_err);
      auto r = kanon::BufferReadFromFd(a, 5, err);
      if (rd_err) { EN_CHECK(err == rd_err, "a failed read reports errno %d", err); }
      else { EN_CHECK(err == 0 && r == (size_t)rd_n, "read %zu bytes, reports %zu (errno %d)", (size_t)rd_n, (size_t)r, err); for (ssize_t i = 0; i < rd_n; ++i) m += (char)(first++ | 1); }
      break; }
  }
  if (!prepended && pre >= 8) EN_CHECK(a.GetPrependableSize() >= 8, "the room for a prepended header is lost | %zu left", (size_t)a.GetPrependableSize());
}
static const int NG = 15;
EN_CASE("P24", buffer_ops, 3, 4)
{
  static const int I[] = {0, 1, 16};
  int n = en::pick(I);
  en::op("Buffer(%d)", n);
  gen = 32; rd_next = 1;
  St s((size_t)n, 4);
  s.b.Append(StringView("bb", 2)); s.mb = "bb";
  for (int d = 0; d < en::depth(); ++d) {
    step(s, en::ch(NG));
    same(s.a, s.ma, "a"); same(s.b, s.mb, "b");
  }
}
// the default-sized buffer, fewer kinds of step but longer histories
EN_CASE("P24", buffer_long, 6, 8)
{
  gen = 32;
  St s(12, 4);
  en::op("Buffer(12)");
  for (int d = 0; d < en::depth(); ++d) {
    Buffer &a = s.a; std::string &m = s.ma;
    switch (en::ch(5)) {
    case 0: { static const int N[] = {1, 5, 13}; size_t n = (size_t)en::pick(N); std::string x = bytes(n); en::op("Append(%zu)", n); a.Append(StringView(x.data(), n)); m += x; break; }
    case 1: { static const int N[] = {1, 4, 11}; size_t n = (size_t)en::pick(N); if (n > m.size()) en::skip(); en::op("AdvanceRead(%zu)", n); a.AdvanceRead(n); m.erase(0, n); break; }
    case 2: { if (a.GetPrependableSize() < 8) en::skip(); static const int N[] = {2, 8}; size_t n = (size_t)en::pick(N); std::string x = bytes(n); en::op("Prepend(%zu)", n); a.Prepend(StringView(x.data(), n)); m = x + m; break; }
    case 3: en::op("Shrink(0)"); a.Shrink(0); break;
    case 4: en::op("AdvanceAll"); a.AdvanceAll(); m.clear(); break;
    }
    same(a, m, "a");
  }
}
