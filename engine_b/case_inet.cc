// P31: internet addresses.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/sock_api.h"
#include "kanon/log/logger.h"
#include <memory>
#include <netdb.h>
#include <new>
using namespace kanon;
static std::string E(const std::string &s) { return "\"" + en::esc(s) + "\""; }
struct Own { // exactly sized, not terminated
  std::unique_ptr<char[]> p; size_t n;
  explicit Own(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  StringView v() const { return StringView(p.get(), n); }
};
// ---- the resolver is ours
static std::string res_host, res_service; static int res_calls, res_error, res_freed, res_flags, res_family;
static struct addrinfo *res_list;
static const void *res_hint;
extern "C" int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **out)
{
  ++res_calls; res_host = h ? h : "(null)"; res_service = s ? s : "(null)";
  res_hint = hint; res_flags = hint ? hint->ai_flags : 0; res_family = hint ? hint->ai_family : -1;
  if (res_error) return res_error;
  *out = res_list;
  return 0;
}
extern "C" void __wrap_freeaddrinfo(struct addrinfo *l) { EN_CHECK(l == res_list, "the resolved list isn't released as a whole |"); ++res_freed; }
static void quiet()
{
  static bool done;
  if (done) return;
  done = true;
  Logger::SetOutputCallback([](char const *, size_t) {});
  res_error = EAI_NONAME;
}
// An address is built in memory that isn't zero.
struct Mem {
  alignas(16) unsigned char raw[sizeof(InetAddr)];
  InetAddr *a;
  Mem() : a(nullptr) { memset(raw, 0xA5, sizeof raw); }
  template <class... T> InetAddr &make(T &&... t) { a = new (raw) InetAddr(std::forward<T>(t)...); return *a; }
};
static void check4(const InetAddr &a, uint32_t ip, int port, const char *how, const std::string &text)
{
  en::step();
  EN_CHECK(a.IsIpv4() && a.GetFamily() == AF_INET, "%s: the family isn't IPv4 | %s", how, text.c_str());
  EN_CHECK(a.GetPort() == port, "%s: the port is wrong | %s: %d", how, text.c_str(), a.GetPort());
  const struct sockaddr_in *s = a.ToIpv4();
  EN_CHECK(s->sin_family == AF_INET && s->sin_port == htons((uint16_t)port) && s->sin_addr.s_addr == htonl(ip), "%s: the socket address is wrong | %s", how, text.c_str());
  EN_CHECK((const void *)a.ToSockaddr() == (const void *)s && a.ToSockaddr()->sa_family == AF_INET, "%s: the generic socket address is wrong | %s", how, text.c_str());
  char b[64];
  int n = snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
  EN_CHECK(a.ToIp() == b, "%s: the text is wrong | %s: %s", how, text.c_str(), a.ToIp().c_str());
  snprintf(b + n, sizeof b - (size_t)n, ":%d", port);
  EN_CHECK(a.ToIpPort() == b, "%s: the text with port is wrong | %s: %s", how, text.c_str(), a.ToIpPort().c_str());
}
static void check6(const InetAddr &a, const unsigned char *ip, int port, const char *how, const std::string &text)
{
  en::step();
  EN_CHECK(!a.IsIpv4() && a.GetFamily() == AF_INET6, "%s: the family isn't IPv6 | %s", how, text.c_str());
  EN_CHECK(a.GetPort() == port, "%s: the port is wrong | %s: %d", how, text.c_str(), a.GetPort());
  const struct sockaddr_in6 *s = a.ToIpv6();
  EN_CHECK(s->sin6_family == AF_INET6 && s->sin6_port == htons((uint16_t)port) && !memcmp(&s->sin6_addr, ip, 16), "%s: the socket address is wrong | %s", how, text.c_str());
  EN_CHECK(s->sin6_flowinfo == 0 && s->sin6_scope_id == 0, "%s: the flow info or scope isn't zero | %s", how, text.c_str());
  EN_CHECK((const void *)a.ToSockaddr() == (const void *)s && a.ToSockaddr()->sa_family == AF_INET6, "%s: the generic socket address is wrong | %s", how, text.c_str());
  unsigned char back[16];
  std::string t = a.ToIp();
  EN_CHECK(inet_pton(AF_INET6, t.c_str(), back) == 1 && !memcmp(back, ip, 16), "%s: the text is wrong | %s: %s", how, text.c_str(), t.c_str());
  std::string want = "[" + t + "]:" + std::to_string(port);
  EN_CHECK(a.ToIpPort() == want, "%s: the text with port is wrong | %s: %s", how, text.c_str(), a.ToIpPort().c_str());
}
static const int PORT[] = {0, 1, 9, 10, 80, 255, 256, 257, 9999, 10000, 32767, 32768, 65534, 65535};
static void v4(uint32_t ip, int port)
{
  std::string t = std::to_string(ip >> 24) + "." + std::to_string(ip >> 16 & 255) + "." + std::to_string(ip >> 8 & 255) + "." + std::to_string(ip & 255), tp = t + ":" + std::to_string(port);
  en::op("%s", tp.c_str());
  Own o(t), op(tp);
  Mem m1, m2, m3;
  try {
    check4(m1.make(o.v(), (uint16_t)port), ip, port, "address from ip and port", tp);
    check4(m2.make(op.v()), ip, port, "address from text", tp);
    struct sockaddr_in s; memset(&s, 0, sizeof s);
    s.sin_family = AF_INET; s.sin_port = htons((uint16_t)port); s.sin_addr.s_addr = htonl(ip);
    check4(m3.make(s), ip, port, "address from sockaddr_in", tp);
    InetAddr c(*m2.a); c = *m1.a; check4(c, ip, port, "copied address", tp);
    check4(InetAddr(StringView(m2.a->ToIpPort())), ip, port, "address from its own text", tp);
    check4(InetAddr(StringView(m2.a->ToIp()), m2.a->GetPort()), ip, port, "address from its own ip and port", tp);
    // as accept(), getsockname() and getpeername() give it
    struct sockaddr_in6 w; memset(&w, 0, sizeof w); memcpy(&w, &s, sizeof s);
    check4(InetAddr(w), ip, port, "IPv4 address in a larger socket address", tp);
  } catch (InetAddrException &) { en::fail("a right IPv4 address is rejected | %s", tp.c_str()); }
}
EN_CASE("P31", inet_v4, 0, 1)
{
  quiet();
  static const int OCT[] = {0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 255};
  static const int FEW[] = {0, 7, 42, 100, 255};
  uint32_t ip = 0;
  for (int i = 0; i < 4; ++i) ip = ip << 8 | (uint32_t)(en::depth() ? en::pick(OCT) : en::pick(FEW));
  v4(ip, en::pick(PORT));
}
EN_CASE("P31", inet_octets, 0, 0) // every value of every octet
{
  quiet();
  int at = en::ch(4);
  uint32_t v = (uint32_t)en::ch(256);
  v4((0x01020304u & ~(255u << 8 * at)) | v << 8 * at, 80);
}
EN_CASE("P31", inet_ports, 0, 0) // every port
{
  quiet();
  int port = en::ch(256) * 256 + en::ch(256);
  en::op("port %d", port);
  static const unsigned char any[16] = {0}, loop[16] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
  std::string p = std::to_string(port);
  Mem m[6];
  try {
    check4(m[0].make((uint16_t)port), 0, port, "address from a port", p);
    check4(m[1].make((uint16_t)port, true), 0x7f000001, port, "loopback address from a port", p);
    check6(m[2].make((uint16_t)port, false, true), any, port, "IPv6 address from a port", p);
    check6(m[3].make((uint16_t)port, true, true), loop, port, "IPv6 loopback address from a port", p);
    check4(m[4].make(StringView("*:" + p)), 0, port, "any address from text", p);
    check6(m[5].make(StringView("[::1]:" + p)), loop, port, "IPv6 address from text", p);
  } catch (InetAddrException &) { en::fail("a right address is rejected | port %d", port); }
}
static void v6(const unsigned char *ip, int port, const std::string &t)
{
  std::string tp = "[" + t + "]:" + std::to_string(port);
  en::op("%s", tp.c_str());
  Own o(t), op(tp);
  Mem m1, m2, m3;
  try {
    check6(m1.make(o.v(), (uint16_t)port), ip, port, "IPv6 address from ip and port", tp);
    check6(m2.make(op.v()), ip, port, "IPv6 address from text", tp);
    struct sockaddr_in6 s; memset(&s, 0, sizeof s);
    s.sin6_family = AF_INET6; s.sin6_port = htons((uint16_t)port); memcpy(&s.sin6_addr, ip, 16);
    check6(m3.make(s), ip, port, "address from sockaddr_in6", tp);
    InetAddr c((uint16_t)1); c = *m1.a; check6(c, ip, port, "copied IPv6 address", tp);
    check6(InetAddr(StringView(m2.a->ToIpPort())), ip, port, "IPv6 address from its own text", tp);
    check6(InetAddr(StringView(m2.a->ToIp()), m2.a->GetPort()), ip, port, "IPv6 address from its own ip and port", tp);
  } catch (InetAddrException &) { en::fail("a right IPv6 address is rejected | %s", tp.c_str()); }
}
EN_CASE("P31", inet_v6, 0, 1)
{
  quiet();
  static const int G3[] = {0, 1, 0xabcd}, G4[] = {0, 0x10, 0xffff, 0xabc};
  unsigned char ip[16]; std::string t;
  for (int i = 0; i < 8; ++i) {
    int g = en::depth() ? en::pick(G4) : en::pick(G3);
    ip[2 * i] = (unsigned char)(g >> 8); ip[2 * i + 1] = (unsigned char)g;
    char b[16]; snprintf(b, sizeof b, i ? ":%x" : "%x", g); t += b;
  }
  v6(ip, en::depth() ? 8080 : en::flip() ? 8080 : 65535, t);
}
EN_CASE("P31", inet_v6_short, 0, 0) // with ::, and with an IPv4 tail
{
  quiet();
  int head = en::ch(7), tail = en::ch(7), port = en::pick(PORT);
  bool four = en::flip();
  if (head + tail + (four ? 2 : 0) > 7) en::skip();
  unsigned char ip[16] = {0}; std::string t;
  for (int i = 0; i < head; ++i) { ip[2 * i] = 0x2; ip[2 * i + 1] = (unsigned char)(i + 1); char b[16]; snprintf(b, sizeof b, i ? ":%x" : "%x", 0x200 + i + 1); t += b; }
  t += "::";
  int at = 8 - tail - (four ? 2 : 0);
  for (int i = 0; i < tail; ++i) { ip[2 * (at + i)] = 0xfe; ip[2 * (at + i) + 1] = (unsigned char)i; char b[16]; snprintf(b, sizeof b, i ? ":%X" : "%X", 0xfe00 + i); t += b; }
  if (four) { t += tail ? ":1.2.3.255" : "1.2.3.255"; ip[12] = 1; ip[13] = 2; ip[14] = 3; ip[15] = 255; }
  v6(ip, port, t);
}
EN_CASE("P31", inet_v6_mapped, 0, 0)
{
  quiet();
  static const int OCT[] = {0, 1, 128, 255};
  unsigned char ip[16] = {0}; ip[10] = ip[11] = 255;
  std::string t = "::ffff:";
  for (int i = 0; i < 4; ++i) { ip[12 + i] = (unsigned char)en::pick(OCT); t += (i ? "." : "") + std::to_string(ip[12 + i]); }
  v6(ip, 443, t);
}
// ---- malformed text
static bool port_ok(const std::string &s, int *port)
{
  if (s.empty() || s.size() > 60) return false;
  long v = 0;
  for (char c : s) { if (c < '0' || c > '9') return false; if (v < 100000) v = v * 10 + (c - '0'); }
  *port = (int)v;
  return v <= 65535;
}
static bool ip4_ok(const std::string &s, uint32_t *ip)
{
  *ip = 0; size_t i = 0;
  for (int k = 0; k < 4; ++k) {
    if (k && (i >= s.size() || s[i++] != '.')) return false;
    size_t d = i; int v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i - d < 4) v = v * 10 + (s[i++] - '0');
    if (i == d || v > 255 || i - d > 3 || (i - d > 1 && s[d] == '0')) return false;
    *ip = *ip << 8 | (uint32_t)v;
  }
  return i == s.size();
}
static bool ip6_ok(const std::string &s, unsigned char *ip) { return s.find('\0') == std::string::npos && inet_pton(AF_INET6, s.c_str(), ip) == 1; }
static void parse(const std::string &t)
{
  en::op("the text %s", E(t).c_str());
  Own o(t);
  res_calls = 0;
  uint32_t ip4; unsigned char ip6[16]; int port;
  // 0 is rejected, 4 or 6, 7 is given to the resolver (which knows nobody)
  int want = 0;
  size_t c = t.find(':'), r = t.find(']');
  if (!t.empty() && isalpha((unsigned char)t[0])) want = c == std::string::npos ? 0 : 7;
  else if (!t.empty() && t[0] == '[') { if (r != std::string::npos && ip6_ok(t.substr(1, r - 1), ip6) && r + 1 < t.size() && t[r + 1] == ':' && port_ok(t.substr(r + 2), &port)) want = 6; }
  else if (c != std::string::npos && (ip4_ok(t.substr(0, c), &ip4) || (t.substr(0, c) == "*" && (ip4 = 0, true))) && port_ok(t.substr(c + 1), &port)) want = 4;
  en::step();
  Mem m;
  bool thrown = false;
  try { m.make(o.v()); } catch (InetAddrException &e) { thrown = true; }
  if (want == 0 || want == 7) {
    EN_CHECK(thrown, "malformed text becomes an address | %s becomes %s", E(t).c_str(), m.a->ToIpPort().c_str());
    EN_CHECK(want == 7 ? res_calls == 1 : res_calls == 0, "the resolver is asked wrongly | %s", E(t).c_str());
    if (want == 7) EN_CHECK(res_host == std::string(t.c_str()).substr(0, c) && res_service == std::string(t.substr(c + 1).c_str()), "the resolver is asked for another name | %s: %s %s", E(t).c_str(), res_host.c_str(), res_service.c_str());
  } else {
    EN_CHECK(!thrown, "a right address is rejected | %s", E(t).c_str());
    if (want == 4) check4(*m.a, ip4, port, "address from text", E(t)); else check6(*m.a, ip6, port, "address from text", E(t));
  }
  // the same text as an ip
  bool k4 = ip4_ok(t, &ip4), k6 = ip6_ok(t, ip6);
  Mem m2;
  thrown = false;
  en::step();
  try { m2.make(o.v(), (uint16_t)77); } catch (InetAddrException &e) { thrown = true; }
  if (!k4 && !k6) EN_CHECK(thrown, "malformed ip becomes an address | %s becomes %s", E(t).c_str(), m2.a->ToIpPort().c_str());
  else {
    EN_CHECK(!thrown, "a right ip is rejected | %s", E(t).c_str());
    if (k4) check4(*m2.a, ip4, 77, "address from ip", E(t)); else check6(*m2.a, ip6, 77, "address from ip", E(t));
  }
}
EN_CASE("P31", inet_text, 5, 6) // every sequence of tokens
{
  quiet();
  static const char *const TOK[] = {"1", "0", "256", "1.2.3.4", ".", ":", "::", "[", "]", "*", "-", "x", " ", "\0", "\xe9", "65535", "65536", "99999999999999999999999"};
  int n = en::ch(en::depth() + 1);
  std::string t;
  for (int i = 0; i < n; ++i) { const char *k = en::pick(TOK); if (*k) t += k; else t.push_back(0); }
  parse(t);
}
EN_CASE("P31", inet_near, 1, 2) // right texts with one or two characters changed, inserted or deleted
{
  quiet();
  static const char *const BASE[] = {"127.0.0.1:9999", "*:80", "[::1]:80", "[fe80::1:2]:65535", "255.255.255.255:65535", "[::ffff:1.2.3.4]:8"};
  static const char AL[] = {'0', '9', '.', ':', '[', ']', '*', ' ', '-', '+', 'a', 0, '\xff'};
  std::string t = en::pick(BASE);
  for (int k = 0; k < 1 + en::depth(); ++k) {
    int at = en::ch((int)t.size() + 1);
    switch (en::ch(3)) {
    case 0: t.insert((size_t)at, 1, en::pick(AL)); break;
    case 1: if (at == (int)t.size()) en::skip(); t[(size_t)at] = en::pick(AL); break;
    case 2: if (at == (int)t.size()) en::skip(); t.erase((size_t)at, 1); break;
    }
  }
  parse(t);
}
// ---- names
EN_CASE("P31", inet_resolve, 0, 0)
{
  quiet();
  int n = en::ch(4), how = en::ch(4);
  std::vector<struct addrinfo> ai((size_t)n);
  std::vector<struct sockaddr_in> a4((size_t)n); std::vector<struct sockaddr_in6> a6((size_t)n);
  std::vector<int> fam((size_t)n);
  for (int i = 0; i < n; ++i) {
    struct addrinfo &x = ai[(size_t)i]; memset(&x, 0, sizeof x);
    fam[(size_t)i] = en::ch(3);
    if (fam[(size_t)i] == 0) { auto &s = a4[(size_t)i]; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons((uint16_t)(100 + i)); s.sin_addr.s_addr = htonl(0x0a000000u + (unsigned)i); x.ai_family = AF_INET; x.ai_addr = (struct sockaddr *)&s; x.ai_addrlen = sizeof s; }
    else if (fam[(size_t)i] == 1) { auto &s = a6[(size_t)i]; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons((uint16_t)(100 + i)); s.sin6_addr.s6_addr[15] = (unsigned char)(i + 9); x.ai_family = AF_INET6; x.ai_addr = (struct sockaddr *)&s; x.ai_addrlen = sizeof s; }
    else { x.ai_family = AF_UNIX; x.ai_addr = (struct sockaddr *)&a4[(size_t)i]; x.ai_addrlen = sizeof(struct sockaddr); }
    x.ai_next = i + 1 < n ? &ai[(size_t)i + 1] : nullptr;
  }
  std::vector<int> want;
  for (int i = 0; i < n; ++i) if (fam[(size_t)i] < 2) want.push_back(i);
  res_list = n ? &ai[0] : nullptr; res_error = n ? 0 : EAI_NONAME; res_calls = res_freed = 0;
  auto same = [&](const InetAddr &a, int i) {
    if (fam[(size_t)i] == 0) check4(a, 0x0a000000u + (unsigned)i, 100 + i, "resolved address", "name");
    else { unsigned char ip[16] = {0}; ip[15] = (unsigned char)(i + 9); check6(a, ip, 100 + i, "resolved address", "name"); }
  };
  en::op("a name with %d addresses (%zu of them internet addresses)", n, want.size());
  en::step();
  bool thrown = false; Mem m;
  std::vector<InetAddr> got; struct addrinfo hint; memset(&hint, 0, sizeof hint);
  try {
    switch (how) {
    case 0: m.make("name.test:svc"); break;
    case 1: m.make(StringArg("name.test"), StringArg("svc")); break;
    case 2: got = InetAddr::Resolve("name.test", "svc", en::flip()); break;
    case 3: got = InetAddr::Resolve("name.test", "svc", &hint); EN_CHECK(res_hint == &hint, "the hint isn't used |"); break;
    }
  } catch (InetAddrException &) { thrown = true; }
  res_error = EAI_NONAME; res_list = nullptr;
  EN_CHECK(res_calls == 1 && res_host == "name.test" && res_service == "svc", "the resolver is asked wrongly | %d times, %s %s", res_calls, res_host.c_str(), res_service.c_str());
  EN_CHECK(res_freed == (n ? 1 : 0), "the resolved list is released %d times | %d addresses", res_freed, n);
  if (how < 2) {
    EN_CHECK(thrown == want.empty(), want.empty() ? "a name without address becomes one |" : "a name with address is rejected |");
    if (!thrown) same(*m.a, want[0]);
  } else {
    EN_CHECK(got.size() == want.size(), "Resolve() gives %zu addresses, expected %zu |", got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) same(got[i], want[i]);
  }
}
