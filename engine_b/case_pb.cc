// P35: the stream of chunks protobuf writes into, and the decoder of frames.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/net/buffer.h"
#include "kanon/net/connection/tcp_connection.h"
#include "kanon/protobuf/protobuf_codec.h"
#include "kanon/protobuf/chunk_stream.h"
#include "kanon/protobuf/protobuf_codec2.h"
#include "kanon/protobuf/logger.h"
#include "pbt.pb.h"
#include "xxh.h"
using namespace kanon;
using namespace kanon::protobuf;
static const char TAG[] = "tag!";
// the decoder is reached through the codec users have; the tag needs linkage
extern char const pbt_tag[];
char const pbt_tag[] = "tag!";
typedef ProtobufCodec<pbt::Msg, pbt_tag> Codec;
static void quiet() { static bool once = [] { SetProtobufLog(false); kanon::EnableAllLog(false); Logger::SetLogLevel(Logger::KANON_LL_FATAL); return true; }(); (void)once; }
// ---- ChunkStream against a string
EN_CASE("P35", chunk_stream, 5, 6)
{
  quiet();
  en::no_leak_check();
  ChunkStream s;
  std::string want, last; // last: what the last Next() handed out
  unsigned char next = 1;
  auto bytes = [&](size_t n) { std::string r; for (size_t i = 0; i < n; ++i) { r += (char)next; next = next % 250 + 1; } return r; };
  if (en::flip()) { std::string t = bytes(4); en::op("append tag"); s.chunk_list.Append(t.data(), t.size()); want += t; }
  for (int k = 0; k < en::depth(); ++k) {
    bool had = !last.empty();
    switch (en::ch(5)) {
    case 0: case 1: {
      void *d = nullptr; int n = -1;
      en::op("Next");
      EN_CHECK(s.Next(&d, &n), "Next() fails |");
      EN_CHECK(d && n > 0, "Next() gives no room | %d", n);
      last = bytes((size_t)n);
      memcpy(d, last.data(), last.size());
      want += last;
      break; }
    case 2: { // only after Next()
      if (!had) en::skip();
      static const int N[] = {0, 1, 100, -1, -2};
      int n = en::pick(N);
      if (n < 0) n = (int)last.size() + (n + 1) ; // all, or all but one
      if (n > (int)last.size()) en::skip();
      en::op("BackUp(%d)", n);
      s.BackUp(n);
      want.resize(want.size() - (size_t)n);
      last.clear();
      break; }
    case 3: {
      static const size_t N[] = {0, 1, 5000};
      std::string t = bytes(en::pick(N));
      en::op("WriteAliasedRaw(%zu)", t.size());
      EN_CHECK(s.AllowsAliasing() && s.WriteAliasedRaw(t.data(), (int)t.size()), "WriteAliasedRaw() fails |");
      want += t; last.clear();
      break; }
    case 4: en::op("append"); { std::string t = bytes(7); s.chunk_list.Append(t.data(), t.size()); want += t; } last.clear(); break;
    }
    en::step();
    EN_CHECK(s.ByteCount() == (int64_t)want.size(), "ByteCount() is wrong | %lld, expected %zu", (long long)s.ByteCount(), want.size());
    std::string got;
    for (auto const &c : s.chunk_list) got.append(c.GetReadBegin(), c.GetReadableSize());
    EN_CHECK(got == want, "the bytes of the stream are wrong | %zu bytes, expected %zu", got.size(), want.size());
  }
}
// ---- frames
static std::string be32(uint32_t v) { std::string s; for (int i = 24; i >= 0; i -= 8) s += (char)(v >> i); return s; }
static std::string frame(std::string const &payload, std::string const &tag = TAG)
{
  std::string b = tag + payload;
  return be32((uint32_t)b.size() + 4) + b + be32(xxh::h32(b.data(), b.size()));
}
static pbt::Msg message(int k)
{
  pbt::Msg m;
  m.set_num(k * 1000 - 1);
  if (k & 1) m.set_text(std::string((size_t)k * 3, (char)('a' + k)));
  if (k & 2) { m.add_part(std::string("\0\1\2", 3)); m.add_part(""); }
  if (k & 4) m.mutable_sub()->set_num(-k);
  return m;
}
struct Sink {
  Codec codec;
  std::vector<std::string> got;
  int errors = 0;
  explicit Sink(bool own_error = true)
  {
    quiet();
    codec.SetMessageCallback([this](TcpConnectionPtr const &, pbt::Msg *m, TimeStamp) { EN_CHECK(!errors, "a message is delivered after an error |"); got.push_back(m->SerializeAsString()); });
    if (own_error) codec.SetErrorCallback([this](TcpConnectionPtr const &, int) { ++errors; });
  }
  void feed(Buffer &b) { codec.OnMessage(TcpConnectionPtr(), b, TimeStamp::Now()); en::step(); }
};
// every segmentation of two or three messages into up to four reads
EN_CASE("P35", frames_segmented, 3, 4)
{
  en::no_leak_check();
  int n = 2 + en::ch(2), first = en::ch(8);
  std::string wire; std::vector<std::string> want; std::vector<size_t> ends;
  for (int i = 0; i < n; ++i) { want.push_back(message((first + i) % 8).SerializeAsString()); wire += frame(want.back()); ends.push_back(wire.size()); }
  if (wire.size() > 120) wire.size();
  Sink s; Buffer b;
  size_t at = 0;
  for (int k = 0; k + 1 < en::depth() && at < wire.size(); ++k) {
    size_t m = 1 + (size_t)en::ch((int)(wire.size() - at));
    b.Append(wire.data() + at, m); at += m;
    s.feed(b);
    size_t whole = 0; while (whole < ends.size() && ends[whole] <= at) ++whole;
    EN_CHECK(s.got.size() == whole, "a message isn't delivered when it is complete | %zu of %zu after %zu bytes", s.got.size(), whole, at);
  }
  if (at < wire.size()) { b.Append(wire.data() + at, wire.size() - at); s.feed(b); }
  EN_CHECK(s.errors == 0, "an error is reported for good messages |");
  EN_CHECK(s.got == want, "the messages delivered are wrong | %zu of %zu", s.got.size(), want.size());
  EN_CHECK(b.GetReadableSize() == 0, "bytes are left over | %zu", b.GetReadableSize());
}
// every single wrong byte: never delivered as something else
EN_CASE("P35", frames_damaged, 1, 1)
{
  en::no_leak_check();
  int k = en::ch(8);
  std::string good = message(1).SerializeAsString(), p = message(k).SerializeAsString(), f = frame(p);
  size_t i = (size_t)en::ch((int)f.size());
  static const int X[] = {1, 2, 4, 8, 16, 32, 64, 128, 255};
  int x = en::pick(X);
  f[i] = (char)(f[i] ^ x);
  int cut = en::ch(3);
  std::string wire = frame(good) + f + (cut == 2 ? frame(good) : "");
  en::op("byte %zu ^ %d, then %s", i, x, cut == 2 ? "another message" : "nothing");
  Sink s; Buffer b;
  if (cut == 1) { b.Append(wire.data(), wire.size() - 1); s.feed(b); b.Append(wire.data() + wire.size() - 1, 1); } else b.Append(wire.data(), wire.size());
  s.feed(b);
  EN_CHECK(s.got.size() == 1 && s.got[0] == good, "a damaged message is delivered, or a good one isn't | %zu", s.got.size());
  if (i >= 4) EN_CHECK(s.errors >= 1, "a damaged message isn't reported |");
}
// well-framed nonsense
EN_CASE("P35", frames_wrong, 1, 1)
{
  en::no_leak_check();
  std::string good = message(1).SerializeAsString(), wire;
  bool own = en::flip(); // or the default handler of errors, without a connection
  int what = en::ch(9), err = 1;
  size_t n = 0;
  switch (what) {
  case 0: wire = frame(good, "tag?"); break;
  case 1: wire = frame(good, "TAG!"); break;
  case 2: wire = frame(good.substr(0, good.size() - 1)); break; // the payload is cut
  case 3: wire = frame(pbt::Any().SerializeAsString()); break;  // a required field is missing
  case 4: n = (size_t)en::ch(9); wire = be32((uint32_t)n) + std::string(40, 'x'); if (n == 8) { wire = be32(8) + TAG + be32(xxh::h32(TAG, 4)); } break; // too small for a frame
  case 5: wire = be32(1u << 26) + std::string(40, 'x'); break;  // too large
  case 6: wire = be32(0xffffffff) + std::string(40, 'x'); break;
  case 7: wire = be32(0x80000000u) + std::string(40, 'x'); break;
  case 8: n = (size_t)en::ch(12); wire = std::string("\0\0\0\100", 4) + std::string(n, 'x'); err = 0; break; // incomplete
  }
  int pre = en::ch(3);
  for (int i = 0; i < pre; ++i) wire = frame(good) + wire;
  en::op("wrong %d after %d messages", what, pre);
  Sink s(own); Buffer b;
  b.Append(wire.data(), wire.size());
  s.feed(b);
  EN_CHECK((int)s.got.size() == pre, "messages delivered: %zu, expected %d |", s.got.size(), pre);
  if (own) EN_CHECK((s.errors > 0) == (err > 0), "errors reported: %d |", s.errors);
}
// messages of nearly the largest size, with others in the same read
EN_CASE("P35", frames_large, 1, 1)
{
  en::no_leak_check();
  static const int OFF[] = {-5, -4, -1, 0, 1};
  int off = en::pick(OFF), pre = en::ch(2), post = en::ch(2);
  size_t size = (1u << 26) + (size_t)(long)off; // what the header will say
  pbt::Msg m; m.set_num(1);
  size_t head = m.SerializeAsString().size() + 1 + 4; // ... tag and length of a field of that size
  std::string good = message(1).SerializeAsString(), wire;
  m.set_text(std::string(size - 4 - 4 - head, 'x'));
  std::string p = m.SerializeAsString();
  EN_CHECK(p.size() + 8 == size, "HARNESS | %zu", p.size() + 8);
  for (int i = 0; i < pre; ++i) wire += frame(good);
  wire += frame(p);
  for (int i = 0; i < post; ++i) wire += frame(good);
  en::op("size 2^26%+d, %d before, %d after", off, pre, post);
  Sink s; Buffer b;
  b.Append(wire.data(), wire.size());
  s.feed(b);
  bool ok = off < 0;
  EN_CHECK((s.errors > 0) == !ok, "errors reported: %d |", s.errors);
  EN_CHECK((int)s.got.size() == pre + (ok ? 1 + post : 0), "messages delivered: %zu |", s.got.size());
  if (ok) EN_CHECK(s.got[(size_t)pre] == p, "a large message is delivered with a different content |");
}
// the conversions between messages and buffers
EN_CASE("P35", codec_functions, 1, 1)
{
  en::no_leak_check(); quiet();
  internal::GenericPbCodec g(&pbt::Msg::default_instance(), "tag!");
  static const size_t PRE[] = {0, 1, 8, 1000, 1023, 1024, 5000};
  size_t pre = en::pick(PRE), used = en::ch(2) ? pre : pre / 2;
  int k = en::ch(8), tail = en::ch(3), form = en::ch(4);
  pbt::Msg m = message(k);
  if (en::flip()) m.set_text(std::string(3000, 'z'));
  std::string p = m.SerializeAsString(), pad(pre, 'P');
  en::op("form %d, %zu bytes before, message %d", form, pre, k);
  if (form == 0) {
    Buffer b; b.Append(pad.data(), pad.size()); b.AdvanceRead(used);
    EN_CHECK(g.SerializeToBuffer(m, b) == p.size(), "SerializeToBuffer() says a wrong size |");
    EN_CHECK(b.ToStringView().ToString() == pad.substr(used) + p, "SerializeToBuffer() leaves a wrong buffer |");
  } else if (form == 1) {
    ChunkList b; uint32_t sum = 0; b.Append(pad.data(), pad.size());
    EN_CHECK(g.SerializeToBuffer(m, b, sum) == p.size(), "SerializeToBuffer() says a wrong size |");
    std::string got; for (auto const &c : b) got.append(c.GetReadBegin(), c.GetReadableSize());
    EN_CHECK(got == pad + p, "SerializeToBuffer() leaves a wrong list |");
    EN_CHECK(sum == xxh::h32(p.data(), p.size()), "the checksum is wrong |");
  } else {
    bool partial = form == 3;
    std::string rest((size_t)tail * 7, 'R'), q = p;
    int harm = en::ch(3);
    if (harm == 1) q = pbt::Any().SerializeAsString(); // lacks a required field
    if (harm == 2) q = "\x0a\x7f"; // cut
    Buffer b; b.Append(pad.data(), pad.size()); b.AdvanceRead(pre);
    b.Append(q.data(), q.size()); b.Append(rest.data(), rest.size());
    pbt::Msg r;
    bool ok = partial ? ParsePartialFromBuffer(&r, q.size(), &b) : ParseFromBuffer(&r, q.size(), &b);
    bool want = harm == 0 || (harm == 1 && partial);
    EN_CHECK(ok == want, "parsing from a buffer returns %d |", ok);
    EN_CHECK(b.ToStringView().ToString() == (want ? "" : q) + rest, "parsing from a buffer consumes something else |");
    if (harm == 0) EN_CHECK(r.SerializeAsString() == p, "the message parsed is wrong |");
  }
}
