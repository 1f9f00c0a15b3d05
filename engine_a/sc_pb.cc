// Scenarios for the protobuf codecs: P35
#include "conn.h"
#include "pbutil.h"
#include "kanon/util/macro.h"
#include "kanon/log/logger.h"
#include "kanon/protobuf/protobuf_codec.h"
#include "kanon/protobuf/protobuf_codec2.h"
#include "kanon/protobuf/logger.h"
#include "pbt.pb.h"
#include <vector>
using namespace kanon::protobuf;
extern char const pbt_tag[];
char const pbt_tag[] = "tag!";
typedef ProtobufCodec<pbt::Msg, pbt_tag> Codec1;
// descriptors and default objects are made once, outside of every run
static void warm() __attribute__((constructor(65000)));
static void warm()
{
  SetProtobufLog(false);
  kanon::EnableAllLog(false);
}
static pbt::Msg message(int k, size_t n)
{
  pbt::Msg m;
  m.set_num(k);
  if (n) m.add_part(std::string(n, (char)('a' + k)));
  return m;
}
// either codec behind one face
struct Codec {
  int kind;
  Codec1 one;
  ProtobufCodec2 two;
  int me = kmc::self(), errors = 0;
  std::vector<std::string> got;
  explicit Codec(int k, size_t max = 1 << 26) : kind(k), two(StringView("tag!", 4), max) {}
  void send(TcpConnectionPtr const &c, pbt::Msg const *m) { if (kind) two.Send(c, m); else one.Send(c, m); }
  // the messages arriving at k go to got; echo: and are sent back
  void install(Conn &k, bool own_error, bool echo = false)
  {
    TcpConnection *raw = k.c.get();
    auto deliver = [this, raw, &k, echo](TcpConnectionPtr const &c, pbt::Msg const &m) {
      kmc::check(kmc::self() == me, "message callback on a foreign thread");
      kmc::check(c.get() == raw, "message callback with a wrong connection");
      kmc::check(k.up == 1 && k.down == 0, "message outside of the connection's life");
      got.push_back(m.SerializeAsString());
      if (echo) { pbt::Msg r(m); r.set_num(m.num() + 100); send(c, &r); k.want += frame(kind, "tag!", r.SerializeAsString()); }
    };
    one.SetMessageCallback([deliver](TcpConnectionPtr const &c, pbt::Msg *m, TimeStamp) { deliver(c, *m); });
    two.SetMessageCallback([deliver](TcpConnectionPtr const &c, Buffer &b, size_t n, TimeStamp) {
      pbt::Msg m;
      kmc::check(b.GetReadableSize() >= n, "a message of %zu bytes is reported, %zu are there", n, b.GetReadableSize());
      kmc::check(ParseFromBuffer(&m, n, &b), "what is delivered is no message");
      deliver(c, m);
    });
    if (own_error) {
      one.SetErrorCallback([this](TcpConnectionPtr const &, int) { ++errors; });
      two.SetErrorCallback([this](TcpConnectionPtr const &, int) { ++errors; });
    }
    if (kind) two.SetUpConnection(k.c);
    else k.c->SetMessageCallback([this](TcpConnectionPtr const &c, Buffer &b, TimeStamp t) { one.OnMessage(c, b, t); });
  }
};
// sizes around the ends of the pieces of an output buffer
static const size_t N[] = {0, 1, 100, 4060, 4085, 8150, 20000};

// what is sent is the encoding of the message, whole and in order
KMC_SCENARIO("P35", codec_send, (0, 0, 0))
{
  kmc::explore(true);
  Codec x(kmc::choose(2, 0, "codec"));
  Conn k(kmc::choose(3, 0, "back end"));
  size_t base = N[kmc::choose(7, 0, "size")], d = (size_t)kmc::choose(48, 0, "offset");
  k.on_up = [&] {
    for (int i = 0; i < 2; ++i) {
      pbt::Msg m = message(i, base + (i ? 0 : d));
      x.send(k.c, &m);
      k.want += frame(x.kind, "tag!", m.SerializeAsString());
    }
  };
  finish_when_idle(k, [&] { same(kmc::peer_received(k.p), k.want, "the peer received"); });
  k.l->StartLoop();
  kmc::join_all();
}
// messages from several threads: each whole, those of a thread in order
KMC_SCENARIO("P35", codec_send_threads, (kmc::F_SHORT_WRITE | kmc::F_EAGAIN_WRITE, 1, 3))
{
  Codec x(kmc::choose(2, 0, "codec"));
  Conn k(kmc::choose(3, 0, "back end"));
  size_t n = kmc::choose(2, 0, "size") ? 4085 : 3;
  kmc::Counter is_up;
  k.on_up = [&] { is_up.set(1); };
  TcpConnectionPtr c = k.c;
  for (int t = 0; t < 2; ++t)
    kmc::spawn([&x, c, t, n, is_up] {
      kmc::wait_until([is_up] { return is_up.get() != 0; });
      for (int i = 0; i < 2; ++i) { pbt::Msg m = message(2 * t + i, n); x.send(c, &m); }
    });
  c.reset();
  EventLoop *l = k.l.get();
  kmc::spawn([&, l, n] {
    kmc::wait_idle();
    std::string got = kmc::peer_received(k.p);
    int next[2] = {0, 0};
    size_t at = 0, left = 4;
    while (left) {
      bool found = false;
      for (int t = 0; t < 2 && !found; ++t) {
        if (next[t] == 2) continue;
        std::string f = frame(x.kind, "tag!", message(2 * t + next[t], n).SerializeAsString());
        if (got.compare(at, f.size(), f) == 0) { ++next[t]; --left; at += f.size(); found = true; }
      }
      kmc::check(found, "at %zu of %zu received bytes there is none of the next messages", at, got.size());
    }
    kmc::check(at == got.size(), "%zu bytes received, %zu expected", got.size(), at);
    l->QueueToLoop([&] { k.c->ForceClose(); k.drop(); });
    kmc::wait_idle();
    l->Quit();
  });
  k.l->StartLoop();
  kmc::join_all();
}
// received in two or three segments, read in any pieces; echoed
static void codec_receive(int segments, bool echo)
{
  Codec x(kmc::choose(2, 0, "codec"), 200);
  Conn k(kmc::choose(3, 0, "back end"));
  x.install(k, true, echo);
  std::string wire;
  std::vector<std::string> want;
  for (int i = 0; i < 3; ++i) { want.push_back(message(i, i == 1 ? 4 : 0).SerializeAsString()); wire += frame(x.kind, "tag!", want.back()); }
  std::vector<size_t> cut;
  for (int i = 1; i < segments; ++i) cut.push_back((cut.empty() ? 1 : cut.back()) + (size_t)kmc::choose((int)(wire.size() - 1 - (cut.empty() ? 0 : cut.back() - 1)), 0, "cut"));
  cut.push_back(wire.size());
  kmc::spawn([&, cut, wire] {
    size_t at = 0;
    for (size_t c : cut) { if (c > at) kmc::peer_send(k.p, wire.substr(at, c - at)); at = c; kmc::wait_idle(); }
  });
  finish_when_idle(k, [&] {
    kmc::check(x.errors == 0, "an error is reported for good messages");
    kmc::check(x.got == want, "%zu messages are delivered, %zu expected, or they differ", x.got.size(), want.size());
    if (echo) same(kmc::peer_received(k.p), k.want, "the peer received");
  });
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P35", codec_receive2, (kmc::F_SHORT_READ, 1, 2)) { codec_receive(2, false); }
KMC_SCENARIO("P35", codec_receive3, (0, 0, 1)) { codec_receive(3, false); }
KMC_SCENARIO("P35", codec_echo, (kmc::F_SHORT_READ | kmc::F_SHORT_WRITE, 1, 2)) { codec_receive(2, true); }
// any number of messages below the maximum may wait in the buffer
KMC_SCENARIO("P35", codec_coalesced, (0, 0, 1))
{
  static const size_t MAX = 100;
  Codec x(kmc::choose(2, 0, "codec"), MAX);
  Conn k(kmc::choose(3, 0, "back end"));
  x.install(k, true);
  int n = 1 + kmc::choose(5, 0, "messages"), bad = kmc::choose(n + 1, 0, "too large");
  size_t size = 60 + (size_t)kmc::choose(40, 0, "size");
  std::string wire;
  std::vector<std::string> want;
  bool over = false;
  for (int i = 0; i < n; ++i) {
    std::string p = message(i, bad - 1 == i ? size + 50 : 20 + size % 3).SerializeAsString(), f;
    if (i == 0 && bad != 1) { p = message(i, size).SerializeAsString(); }
    f = frame(x.kind, "tag!", p);
    if (x.kind && f.size() >= MAX) over = true;
    if (!over) want.push_back(p);
    wire += f;
  }
  kmc::spawn([&, wire] { kmc::peer_send(k.p, wire); });
  finish_when_idle(k, [&] {
    kmc::check((x.errors > 0) == over, "%d errors are reported", x.errors);
    kmc::check(x.got == want, "%zu messages are delivered, %zu expected, or they differ", x.got.size(), want.size());
  });
  k.l->StartLoop();
  kmc::join_all();
}
// a wrong byte, and what the codec does about it by itself
static void codec_damaged(bool own)
{
  Codec x(kmc::choose(2, 0, "codec"));
  Conn k(kmc::choose(own ? 1 : 3, 0, "back end"));
  x.install(k, own);
  std::string good = message(1, 0).SerializeAsString(), f = frame(x.kind, "tag!", message(2, 2).SerializeAsString()), wire, more;
  // the damaged message contains a good one
  if (kmc::choose(2, 0, "nested")) f = frame(x.kind, "tag!", std::string("\x12\x10", 2) + frame(x.kind, "tag!", good));
  size_t i = (size_t)kmc::choose((int)f.size(), 0, "byte");
  static const int X[] = {1, 2, 8, 64, 128, 255};
  f[i] = (char)(f[i] ^ X[kmc::choose(6, 0, "damage")]);
  wire = frame(x.kind, "tag!", good) + f;
  int after = kmc::choose(3, 0, "then");
  if (after == 1) wire += frame(x.kind, "tag!", good); else if (after == 2) more = frame(x.kind, "tag!", good);
  // a smaller size is another message's end: then what follows starts anywhere
  kmc::spawn([&, wire, more] {
    kmc::peer_send(k.p, wire);
    kmc::wait_idle();
    if (more.size() && !kmc::peer_eof(k.p)) kmc::peer_send(k.p, more);
  });
  size_t head = x.kind ? 1 : 4;
  finish_when_idle(k, [&, i, head, own] {
    kmc::check(x.got.size() == 1 && x.got[0] == good, "%zu messages are delivered after a damaged one", x.got.size());
    if (i >= head) {
      if (own) kmc::check(x.errors >= 1, "a damaged message is not reported");
      else kmc::check(kmc::peer_eof(k.p), "after a damaged message the connection is not shut down");
    }
    kmc::check(kmc::peer_received(k.p).empty(), "the peer received something");
  });
  k.l->StartLoop();
  kmc::join_all();
}
KMC_SCENARIO("P35", codec_damaged_own, (0, 0, 0)) { codec_damaged(true); }
KMC_SCENARIO("P35", codec_damaged_default, (0, 0, 0)) { codec_damaged(false); }
