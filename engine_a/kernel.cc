// Virtual kernel: descriptors, sockets, epoll/poll, eventfd, timerfd.
#include "kmc_int.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <algorithm>
#include <map>
#include <set>

namespace kmc {
static const int VB = 600, VN = 2400;
enum Type { EVENTFD, TIMERFD, EPOLL, SOCK, NULLF, PIPE };
struct File;
struct EpItem { int fd; File *f; uint32_t events; epoll_data_t data; bool inlist; };
struct File {
  Type type;
  int fd = -1;
  bool nonblock = false, cloexec = false;
  bool closed = false;
  // eventfd
  uint64_t count = 0; bool semaphore = false; bool forced_ready = false;
  // timerfd
  int64_t expiry = -1, interval = 0; uint64_t pending_ticks = 0; int clock = 1;
  // epoll
  std::vector<EpItem *> items; std::deque<EpItem *> rd;
  // socket
  enum SS { FRESH, BOUND, LISTEN, CONNECTING, CONN, DEAD } ss = FRESH;
  bool env = false;                  // owned by the environment (a Peer)
  File *peer = nullptr;
  std::string rx; size_t cap = 1u << 20; // receive queue
  bool rcv_shut = false, snd_shut = false, rst = false, got_rst = false;
  int so_err = 0;
  bool nospace = false, forced_full = false;
  bool paused = false; std::string received; int fins = 0;
  std::deque<File *> backlog; int listens = 0;
  bool accepted = false;
  sockaddr_storage local, remote; socklen_t local_len = 0, remote_len = 0;
  int outcome = 0;
  // who waits for us in epoll sets
  std::vector<std::pair<File *, EpItem *>> watchers;
  int id = 0;
  int domain = 0, proto = 0, stype = 0;
  std::map<std::pair<int, int>, int> opt, opt_at_bind; // socket options set so far, and before bind()
};
struct Peer : File {};
static std::vector<File *> *fds;      // index fd-VB
static std::vector<File *> *all;
struct Ev { int kind; File *f; };
static std::deque<Ev> *evs;
enum { EV_DRAIN, EV_UNFULL, EV_CONNECT };
static int fd_limit = VN, allowed_open = 0;
static std::map<int, int> *listen_counts;
static std::vector<int> *acc_errs; static int acc_cost = 1;
static std::vector<int> *conn_outs; static int conn_cost = 1;
static std::vector<ConnRec> *conn_log;
static std::vector<Peer *> *conn_peers;
static bool holding = false;
static int next_port = 40000;
static int opt_err = 0;
static void kinit()
{
  if (fds) return;
  fds = new std::vector<File *>; all = new std::vector<File *>; evs = new std::deque<Ev>;
  listen_counts = new std::map<int, int>; acc_errs = new std::vector<int>; conn_outs = new std::vector<int>;
  conn_log = new std::vector<ConnRec>; conn_peers = new std::vector<Peer *>;
}
static File *mk(Type t) { kinit(); File *f = new Peer(); f->type = t; f->id = (int)all->size(); memset(&f->local, 0, sizeof f->local); memset(&f->remote, 0, sizeof f->remote); all->push_back(f); return f; }
static int used() { kinit(); int n = 0; for (auto f : *fds) if (f) ++n; return n; }
static int install(File *f)
{
  kinit();
  if (used() >= fd_limit) { errno = EMFILE; return -1; }
  size_t i = 0;
  while (i < fds->size() && (*fds)[i]) ++i;
  if (i == fds->size()) fds->push_back(nullptr);
  (*fds)[i] = f;
  f->fd = VB + (int)i;
  trace("opens fd %d", f->fd);
  return f->fd;
}
static bool isv(int fd) { return active && cur && !in_rt && fd >= VB && fd < VB + VN; }
static bool isv_rt(int fd) { return fd >= VB && fd < VB + VN; }
static File *get(int fd) { if (!fds || fd < VB || fd >= VB + (int)fds->size()) return nullptr; return (*fds)[fd - VB]; }
static File *must(int fd, const char *op)
{
  File *f = get(fd);
  if (!f) violation("bad-fd", "%s on descriptor %d, which is not open", op, fd);
  return f;
}
bool is_virtual_fd(int fd) { return isv_rt(fd); }
void set_fd_limit(int n) { Rt g; fd_limit = n; }
int open_fds() { Rt g; return used(); }
static int n_closed_reg;
int closed_registered() { return n_closed_reg; }
bool fd_is_open(int fd) { Rt g; return get(fd) != nullptr; }
void allow_open_fds(int n) { allowed_open = n; }
std::string fd_table()
{
  Rt g;
  static const char *tn[] = {"eventfd", "timerfd", "epoll", "socket", "null", "pipe"};
  std::string s;
  if (fds) for (auto f : *fds) if (f) s += std::to_string(f->fd) + ":" + tn[f->type] + (f->type == SOCK && f->ss == File::LISTEN ? "(listen) " : " ");
  return s;
}
std::vector<FdInfo> fd_infos()
{
  Rt g;
  std::vector<FdInfo> r;
  if (fds) for (auto f : *fds) if (f) r.push_back({f->fd, "etpsnx"[f->type], f->nonblock, f->cloexec});
  return r;
}
std::string sock_opts(int fd, bool at_bind)
{
  Rt g;
  std::string s;
  for (auto &o : at_bind ? must(fd, "sock_opts")->opt_at_bind : must(fd, "sock_opts")->opt) s += std::to_string(o.first.first) + "/" + std::to_string(o.first.second) + "=" + std::to_string(o.second) + " ";
  return s;
}
void setsockopt_error(int err) { Rt g; opt_err = err; }
void kernel_end_checks()
{
  if (!cfg.fd_check) return;
  if (used() > allowed_open) violation("fd-leak", "descriptors left open: %s", fd_table().c_str());
}

// ---- readiness
static void timer_update(File *f)
{
  if (f->expiry < 0 || now_ns < f->expiry) return;
  if (f->interval > 0) {
    uint64_t n = 1 + (now_ns - f->expiry) / f->interval;
    f->pending_ticks += n; f->expiry += n * f->interval;
  } else { f->pending_ticks += 1; f->expiry = -1; }
}
static void wake(File *f);
static uint32_t revents(File *f)
{
  uint32_t r = 0;
  switch (f->type) {
    case EVENTFD: if (f->count > 0) r |= EPOLLIN; if (f->count < UINT64_MAX - 1) r |= EPOLLOUT; break;
    case TIMERFD: timer_update(f); if (f->pending_ticks) r |= EPOLLIN; break;
    case EPOLL: for (auto i : f->rd) if (revents(i->f) & (i->events | EPOLLERR | EPOLLHUP)) r |= EPOLLIN; break;
    case NULLF: r = EPOLLIN | EPOLLOUT; break;
    case PIPE: case SOCK:
      if (f->ss == File::LISTEN) { if (!f->backlog.empty()) r |= EPOLLIN | EPOLLRDNORM; break; }
      if (f->so_err) r |= EPOLLERR;
      if (f->ss == File::CONNECTING) break;
      if ((f->rcv_shut && f->snd_shut) || f->ss == File::DEAD || f->ss == File::FRESH || f->ss == File::BOUND) r |= EPOLLHUP;
      if (f->ss == File::FRESH || f->ss == File::BOUND) { r |= EPOLLOUT; break; }
      if (f->rcv_shut) r |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
      if (!f->rx.empty()) r |= EPOLLIN | EPOLLRDNORM;
      if (f->snd_shut) r |= EPOLLOUT | EPOLLWRNORM;
      else if (!f->forced_full && f->peer && f->peer->rx.size() < f->peer->cap) r |= EPOLLOUT | EPOLLWRNORM;
      else f->nospace = true;
      break;
  }
  return r;
}
static void wake(File *f)
{
  uint32_t r = revents(f);
  for (auto &w : f->watchers) {
    EpItem *it = w.second;
    if (!(r & (it->events | EPOLLERR | EPOLLHUP))) continue;
    if (!it->inlist) { it->inlist = true; w.first->rd.push_back(it); }
  }
}
int64_t next_timer_deadline()
{
  int64_t d = INT64_MAX;
  if (fds) for (auto f : *fds) if (f && f->type == TIMERFD && f->expiry >= 0 && f->expiry < d && f->expiry > now_ns) d = f->expiry;
  return d;
}
static void timers_tick() { if (fds) for (auto f : *fds) if (f && f->type == TIMERFD && f->expiry >= 0 && f->expiry <= now_ns) { uint64_t o = f->pending_ticks; timer_update(f); if (f->pending_ticks != o) wake(f); } }

// ---- environment
static bool ev_queued(int k, File *f) { for (auto &e : *evs) if (e.kind == k && e.f == f) return true; return false; }
static void ev_push(int k, File *f) { if (!ev_queued(k, f)) evs->push_back({k, f}); }
static void ev_drop(File *f) { for (size_t i = 0; i < evs->size();) if ((*evs)[i].f == f) evs->erase(evs->begin() + i); else ++i; }
bool env_pending() { return evs && !evs->empty() && !holding; }
void env_hold(bool h) { Rt g; holding = h; }
static void drained(File *code_end)
{
  // room has appeared for the writer
  if (code_end && code_end->nospace && !code_end->forced_full) { code_end->nospace = false; wake(code_end); }
}
static void absorb(File *p)
{
  // environment end takes everything it has
  if (p->rx.empty()) return;
  p->received += p->rx; p->rx.clear();
  drained(p->peer);
}
static void do_fin(File *to)
{
  if (!to || to->rcv_shut) { return; }
  to->rcv_shut = true; ++to->fins;
  wake(to);
}
static void do_rst(File *to)
{
  if (!to || to->ss == File::DEAD) return;
  to->got_rst = true;
  to->so_err = to->rcv_shut ? EPIPE : ECONNRESET;
  to->ss = File::DEAD; to->rcv_shut = to->snd_shut = true;
  to->rst = true;
  wake(to);
}
static void set_addr(sockaddr_storage *s, socklen_t *l, bool v6, int port, int host)
{
  memset(s, 0, sizeof *s);
  if (v6) { sockaddr_in6 *a = (sockaddr_in6 *)s; a->sin6_family = AF_INET6; a->sin6_port = htons(port); a->sin6_addr = in6addr_loopback; if (host != 1) a->sin6_addr.s6_addr[0] = host; *l = sizeof *a; }
  else { sockaddr_in *a = (sockaddr_in *)s; a->sin_family = AF_INET; a->sin_port = htons(port); a->sin_addr.s_addr = htonl(0x7f000000 + host); *l = sizeof *a; }
}
static int port_of(const sockaddr_storage &s) { return ntohs(s.ss_family == AF_INET6 ? ((sockaddr_in6 *)&s)->sin6_port : ((sockaddr_in *)&s)->sin_port); }
static File *listener(int port)
{
  if (fds) for (auto f : *fds) if (f && f->type == SOCK && f->ss == File::LISTEN && port_of(f->local) == port) return f;
  return nullptr;
}
static void link(File *a, File *b) { a->peer = b; b->peer = a; a->ss = b->ss = File::CONN; }
static void connect_done(File *f)
{
  if (f->closed) return;
  switch (f->outcome) {
    case C_INPROGRESS_OK: case C_EINTR_OK: case C_SAMEPORT_OK: case C_SAMEHOST_OK: {
      File *l = listener(port_of(f->remote));
      File *p = mk(SOCK);
      if (l) { p->local = f->remote; p->local_len = f->remote_len; p->remote = f->local; p->remote_len = f->local_len; link(f, p); l->backlog.push_back(p); wake(l); }
      else { p->env = true; p->local = f->remote; p->local_len = f->remote_len; p->remote = f->local; p->remote_len = f->local_len; p->accepted = true; link(f, p); conn_peers->push_back((Peer *)p); }
      wake(f);
      trace("connection of fd %d established", f->fd);
      break;
    }
    case C_SELF: { File *p = mk(SOCK); p->env = true; f->remote = f->local; f->remote_len = f->local_len; p->local = f->local; p->local_len = f->local_len; link(f, p); wake(f); break; }
    case C_REFUSED_LATER: f->so_err = ECONNREFUSED; f->ss = File::DEAD; f->rcv_shut = f->snd_shut = true; wake(f); break;
    case C_TIMEDOUT_LATER: f->so_err = ETIMEDOUT; f->ss = File::DEAD; f->rcv_shut = f->snd_shut = true; wake(f); break;
    case C_UNREACH_LATER: f->so_err = EHOSTUNREACH; f->ss = File::DEAD; f->rcv_shut = f->snd_shut = true; wake(f); break;
    case C_NEVER: break;
    default: if (f->outcome >= C_ERROR_LATER) { f->so_err = f->outcome - C_ERROR_LATER; f->ss = File::DEAD; f->rcv_shut = f->snd_shut = true; wake(f); }
  }
}
void env_step()
{
  Ev e = evs->front();
  evs->pop_front();
  switch (e.kind) {
    case EV_DRAIN: absorb(e.f); break;
    case EV_UNFULL: e.f->forced_full = false; if (e.f->nospace) { e.f->nospace = false; wake(e.f); } break;
    case EV_CONNECT: connect_done(e.f); break;
  }
}

// ---- peers (environment ends); each operation is a scheduling point
static void pp(const char *w) { point(w, nullptr); }
Peer *peer_connect(int port, bool v6)
{
  Rt g; kinit();
  pp("peer connect");
  File *l = listener(port);
  if (!l) return nullptr;
  File *p = mk(SOCK), *c = mk(SOCK);
  p->env = true;
  set_addr(&p->local, &p->local_len, v6, next_port++, 1);
  p->remote = l->local; p->remote_len = l->local_len;
  c->local = l->local; c->local_len = l->local_len; c->remote = p->local; c->remote_len = p->local_len;
  if (v6) { sockaddr_in6 *a = (sockaddr_in6 *)&c->local; a->sin6_addr = in6addr_loopback; } else if (c->local.ss_family == AF_INET) ((sockaddr_in *)&c->local)->sin_addr.s_addr = htonl(0x7f000001);
  link(p, c);
  l->backlog.push_back(c);
  wake(l);
  return (Peer *)p;
}
Peer *peer_of_fd(int fd) { Rt g; File *f = get(fd); return f ? (Peer *)f->peer : nullptr; }
void peer_send(Peer *p, const std::string &s)
{
  Rt g;
  pp("peer send");
  File *c = p->peer;
  if (!c || p->rst) return;
  if (c->closed || c->ss == File::DEAD) { do_rst(p); return; }
  if (c->rcv_shut && c->type == SOCK && p->snd_shut) return;
  c->rx += s;
  wake(c);
}
void peer_shutdown(Peer *p) { Rt g; pp("peer shutdown"); if (p->snd_shut) return; p->snd_shut = true; if (p->peer && !p->peer->closed) do_fin(p->peer); }
void peer_close(Peer *p)
{
  Rt g;
  pp("peer close");
  p->closed = true;
  if (!p->snd_shut) { p->snd_shut = true; if (p->peer && !p->peer->closed) do_fin(p->peer); }
}
void peer_reset(Peer *p) { Rt g; pp("peer reset"); p->closed = true; p->rst = true; p->ss = File::DEAD; if (p->peer && !p->peer->closed) do_rst(p->peer); }
void peer_pause(Peer *p, bool b) { Rt g; p->paused = b; if (!b && !p->rx.empty()) absorb(p); }
size_t peer_drain(Peer *p, size_t n)
{
  Rt g;
  pp("peer drain");
  if (n > p->rx.size()) n = p->rx.size();
  p->received.append(p->rx, 0, n); p->rx.erase(0, n);
  if (n) drained(p->peer);
  return n;
}
std::string peer_received(Peer *p) { Rt g; return p->received + p->rx; }
bool peer_eof(Peer *p) { return p->rcv_shut && !p->got_rst; }
bool peer_got_rst(Peer *p) { return p->got_rst; }
int peer_fin_count(Peer *p) { return p->fins; }
bool peer_fd_closed(Peer *p) { return p->peer && p->peer->closed; }
bool peer_accepted(Peer *p) { return p->accepted || (p->peer && p->peer->fd >= 0) || (p->peer && p->peer->closed); }
void peer_window(Peer *p, size_t c) { p->cap = c; }
int peer_port(Peer *p) { return port_of(p->local); }
int listener_fd(int port) { Rt g; File *f = listener(port); return f ? f->fd : -1; }
bool port_listening(int port) { Rt g; return listener(port) != nullptr; }
int listen_count(int port) { Rt g; kinit(); return (*listen_counts)[port]; }
void accept_errors(std::initializer_list<int> e, int cost) { Rt g; kinit(); *acc_errs = e; acc_cost = cost; }
void connect_outcomes(std::initializer_list<int> e, int cost) { Rt g; kinit(); *conn_outs = e; conn_cost = cost; }
std::vector<ConnRec> connect_log() { Rt g; kinit(); return *conn_log; }
std::vector<Peer *> connected_peers() { Rt g; kinit(); return *conn_peers; }
int make_stream(Peer **peer)
{
  Rt g;
  File *p = mk(SOCK), *c = mk(SOCK);
  p->env = true; p->accepted = true;
  set_addr(&p->local, &p->local_len, false, next_port++, 1); set_addr(&c->local, &c->local_len, false, next_port++, 1);
  p->remote = c->local; p->remote_len = c->local_len; c->remote = p->local; c->remote_len = p->local_len;
  link(p, c);
  c->nonblock = true;
  int fd = install(c);
  if (peer) *peer = (Peer *)p;
  return fd;
}
int make_event(bool readable) { Rt g; File *f = mk(EVENTFD); f->nonblock = true; f->count = readable ? 1 : 0; return install(f); }
void event_set(int fd, bool r) { Rt g; File *f = must(fd, "event_set"); f->count = r ? 1 : 0; if (r) wake(f); }

// ---- data transfer
static ssize_t do_read(File *f, const struct iovec *iov, int n, int flags, void *pc)
{
  size_t want = 0;
  for (int i = 0; i < n; ++i) want += iov[i].iov_len;
  if (f->type == EVENTFD || f->type == TIMERFD) {
    if (want < 8) { errno = EINVAL; return -1; }
    uint64_t v;
    for (;;) {
      if (f->type == EVENTFD) {
        if (f->count) { acquire(f); if (f->semaphore) { v = 1; --f->count; } else { v = f->count; f->count = 0; } break; }
      } else { timer_update(f); if (f->pending_ticks) { v = f->pending_ticks; f->pending_ticks = 0; break; } }
      if (f->nonblock) { errno = EAGAIN; return -1; }
      block_on("read of eventfd/timerfd", f, [f] { return (revents(f) & EPOLLIN) != 0; });
    }
    mem_range(iov[0].iov_base, 8, true, pc);
    memcpy(iov[0].iov_base, &v, 8);
    return 8;
  }
  if (f->type == NULLF) return 0;
  if (f->type == EPOLL) { errno = EINVAL; return -1; }
  if (f->ss == File::FRESH || f->ss == File::BOUND || f->ss == File::LISTEN || f->ss == File::CONNECTING) { errno = f->ss == File::CONNECTING ? EAGAIN : ENOTCONN; return -1; }
  for (;;) {
    if (!f->rx.empty()) {
      size_t k = std::min(want, f->rx.size());
      int opts[4], m = 0;
      opts[m++] = 0;
      if (k > 1 && (cfg.faults & F_SHORT_READ)) opts[m++] = 1;
      if (cfg.faults & F_EINTR_READ) opts[m++] = 2;
      if (cfg.faults & F_EAGAIN_READ) opts[m++] = 3;
      int a = opts[choice(m, 0, "read result")];
      if (a == 2) { trace("read: EINTR"); errno = EINTR; return -1; }
      if (a == 3) { trace("read: EAGAIN"); wake(f); errno = EAGAIN; return -1; }
      if (a == 1) { k = 1; }
      size_t off = 0;
      for (int i = 0; i < n && off < k; ++i) {
        size_t c = std::min(k - off, iov[i].iov_len);
        if (c) { mem_range(iov[i].iov_base, c, true, pc); memcpy(iov[i].iov_base, f->rx.data() + off, c); }
        off += c;
      }
      if (!(flags & MSG_PEEK)) { f->rx.erase(0, k); if (f->peer && !f->peer->closed && f->peer->nospace) drained(f->peer); }
      trace("read %zu bytes", k);
      return (ssize_t)k;
    }
    if (f->so_err) { errno = f->so_err; f->so_err = 0; return -1; }
    if (f->rcv_shut) { trace("read: end of stream"); return 0; }
    if (f->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    block_on("socket read", f, [f] { return (revents(f) & (EPOLLIN | EPOLLHUP | EPOLLERR)) != 0; });
  }
}
static void sigpipe(int flags)
{
  if (flags & MSG_NOSIGNAL) return;
  struct sigaction sa;
  sigaction(SIGPIPE, nullptr, &sa);
  if (sa.sa_handler == SIG_DFL) violation("sigpipe", "write to a closed connection kills the process (SIGPIPE)");
}
static ssize_t do_write(File *f, const struct iovec *iov, int n, int flags, void *pc)
{
  size_t want = 0;
  for (int i = 0; i < n; ++i) { if (iov[i].iov_len) mem_range(iov[i].iov_base, iov[i].iov_len, false, pc); want += iov[i].iov_len; }
  if (f->type == EVENTFD) {
    if (want < 8) { errno = EINVAL; return -1; }
    uint64_t v;
    memcpy(&v, iov[0].iov_base, 8);
    if (UINT64_MAX - 1 - f->count < v) { errno = EAGAIN; return -1; }
    release(f);
    f->count += v;
    wake(f);
    return 8;
  }
  if (f->type == NULLF) return (ssize_t)want;
  if (f->type != SOCK && f->type != PIPE) { errno = EINVAL; return -1; }
  if (f->so_err) { errno = f->so_err; f->so_err = 0; return -1; }
  if (f->ss == File::CONNECTING) { errno = EAGAIN; return -1; }
  if (f->ss == File::DEAD || f->snd_shut) { sigpipe(flags); errno = EPIPE; return -1; }
  if (f->ss != File::CONN) { sigpipe(flags); errno = ENOTCONN; return -1; }
  File *p = f->peer;
  if (p->closed) { trace("write to a closed peer"); if (!p->env || p->closed) do_rst(f); return (ssize_t)want; }
  if (want == 0) return 0;
  size_t room = f->forced_full ? 0 : p->cap - std::min(p->cap, p->rx.size());
  if (room == 0) {
    f->nospace = true;
    if (!(f->nonblock || (flags & MSG_DONTWAIT))) { block_on("socket write", f, [f] { return (revents(f) & (EPOLLOUT | EPOLLHUP | EPOLLERR)) != 0; }); return do_write(f, iov, n, flags, pc); }
    trace("write: EAGAIN (full)");
    errno = EAGAIN;
    return -1;
  }
  size_t k = std::min(want, room);
  int opts[5], m = 0;
  opts[m++] = 0;
  if (cfg.faults & F_EAGAIN_WRITE) opts[m++] = 1;
  if (k > 1 && (cfg.faults & F_SHORT_WRITE)) { opts[m++] = 2; if (k > 2) opts[m++] = 3; }
  if (cfg.faults & F_EINTR_WRITE) opts[m++] = 4;
  int a = opts[choice(m, 0, "write result")];
  if (a == 4) { errno = EINTR; return -1; }
  if (a == 1) { f->forced_full = f->nospace = true; ev_push(EV_UNFULL, f); trace("write: EAGAIN"); errno = EAGAIN; return -1; }
  if (a == 2) k = 1;
  if (a == 3) k = k - 1;
  if (a == 2 || a == 3) { f->forced_full = true; f->nospace = true; ev_push(EV_UNFULL, f); }
  size_t left = k;
  for (int i = 0; i < n && left; ++i) { size_t c = std::min(left, iov[i].iov_len); p->rx.append((const char *)iov[i].iov_base, c); left -= c; }
  if (k < want) f->nospace = true;
  trace("write %zu of %zu bytes", k, want);
  if (p->env && !p->paused) { if (p->cap >= (1u << 20)) absorb(p); else if (p->rx.size()) ev_push(EV_DRAIN, p); }
  else if (!p->env) wake(p);
  return (ssize_t)k;
}
static int do_close(int fd)
{
  File *f = must(fd, "close");
  trace("close fd %d", fd);
  (*fds)[fd - VB] = nullptr;
  f->closed = true;
  if (f->type == SOCK && !f->watchers.empty()) ++n_closed_reg;
  for (auto &w : f->watchers) {
    File *ep = w.first;
    ep->items.erase(std::remove(ep->items.begin(), ep->items.end(), w.second), ep->items.end());
    ep->rd.erase(std::remove(ep->rd.begin(), ep->rd.end(), w.second), ep->rd.end());
  }
  f->watchers.clear();
  if (f->type == EPOLL) for (auto i : f->items) { auto &w = i->f->watchers; for (size_t k = 0; k < w.size();) if (w[k].second == i) w.erase(w.begin() + k); else ++k; }
  if (f->type == SOCK || f->type == PIPE) {
    ev_drop(f);
    if (f->ss == File::LISTEN) { for (auto c : f->backlog) { c->closed = true; do_rst(c->peer); } f->backlog.clear(); }
    else if (f->peer) {
      bool dirty = !f->rx.empty();
      if (!f->peer->closed) { if (dirty && f->ss != File::DEAD) do_rst(f->peer); else if (!f->snd_shut) do_fin(f->peer); else if (f->ss != File::DEAD) wake(f->peer); }
    }
    f->ss = File::DEAD;
  }
  return 0;
}
} // namespace kmc
using namespace kmc;

static long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0)
{
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
#define PC __builtin_return_address(0)
#define ON (active && cur && !in_rt)
// a plausible small descriptor that is not virtual: stdio and files
#define STALE(fd) (fd >= VB && fd < VB + VN)

extern "C" {
ssize_t read(int fd, void *b, size_t n)
{
  if (!isv(fd)) { if (ON && fd < 0) { errno = EBADF; return -1; } return rsys(SYS_read, fd, (long)b, n); }
  Rt g; point("read", (void *)(long)fd);
  struct iovec v = {b, n};
  return do_read(must(fd, "read"), &v, 1, 0, PC);
}
ssize_t write(int fd, const void *b, size_t n)
{
  if (!isv(fd)) { if (ON && fd < 0) { errno = EBADF; return -1; } return rsys(SYS_write, fd, (long)b, n); }
  Rt g; point("write", (void *)(long)fd);
  struct iovec v = {(void *)b, n};
  return do_write(must(fd, "write"), &v, 1, 0, PC);
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
  if (!isv(fd)) return rsys(SYS_readv, fd, (long)v, n);
  Rt g; point("readv", (void *)(long)fd);
  if (n < 0 || n > 1024) { errno = EINVAL; return -1; }
  if (n == 0) return 0;
  mem_range(v, n * sizeof *v, false, PC);
  return do_read(must(fd, "readv"), v, n, 0, PC);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
  if (!isv(fd)) return rsys(SYS_writev, fd, (long)v, n);
  Rt g; point("writev", (void *)(long)fd);
  if (n < 0 || n > 1024) { errno = EINVAL; return -1; }
  if (n == 0) return 0;
  mem_range(v, n * sizeof *v, false, PC);
  return do_write(must(fd, "writev"), v, n, 0, PC);
}
ssize_t recv(int fd, void *b, size_t n, int fl) { if (!isv(fd)) return rsys(SYS_recvfrom, fd, (long)b, n, fl); Rt g; point("recv", (void *)(long)fd); struct iovec v = {b, n}; return do_read(must(fd, "recv"), &v, 1, fl, PC); }
ssize_t send(int fd, const void *b, size_t n, int fl) { if (!isv(fd)) return rsys(SYS_sendto, fd, (long)b, n, fl); Rt g; point("send", (void *)(long)fd); struct iovec v = {(void *)b, n}; return do_write(must(fd, "send"), &v, 1, fl, PC); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return recv(fd, b, n, fl); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return send(fd, b, n, fl); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) { if (!isv(fd)) return rsys(SYS_recvmsg, fd, (long)m, fl); Rt g; point("recvmsg", (void *)(long)fd); return do_read(must(fd, "recvmsg"), m->msg_iov, (int)m->msg_iovlen, fl, PC); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!isv(fd)) return rsys(SYS_sendmsg, fd, (long)m, fl); Rt g; point("sendmsg", (void *)(long)fd); return do_write(must(fd, "sendmsg"), m->msg_iov, (int)m->msg_iovlen, fl, PC); }
int close(int fd)
{
  if (!isv(fd)) { if (ON && fd < 0) { errno = EBADF; return -1; } return (int)rsys(SYS_close, fd); }
  Rt g; point("close", (void *)(long)fd);
  must(fd, "close");
  return do_close(fd);
}
int shutdown(int fd, int how)
{
  if (!isv(fd)) return (int)rsys(SYS_shutdown, fd, how);
  Rt g; point("shutdown", (void *)(long)fd);
  File *f = must(fd, "shutdown");
  if (f->type != SOCK) { errno = ENOTSOCK; return -1; }
  if (f->ss != File::CONN) { errno = ENOTCONN; return -1; }
  trace("shutdown fd %d how %d", fd, how);
  if (how == SHUT_RD || how == SHUT_RDWR) { f->rcv_shut = true; }
  if ((how == SHUT_WR || how == SHUT_RDWR) && !f->snd_shut) {
    f->snd_shut = true;
    if (f->peer && !f->peer->closed) do_fin(f->peer);
  }
  wake(f);
  return 0;
}
int socket(int d, int t, int p)
{
  if (!ON) return (int)rsys(SYS_socket, d, t, p);
  Rt g; kinit();
  File *f = mk(SOCK);
  f->domain = d; f->proto = p; f->stype = t & 0xf;
  f->nonblock = (t & SOCK_NONBLOCK) != 0; f->cloexec = (t & SOCK_CLOEXEC) != 0;
  int fd = install(f);
  if (fd >= 0) set_addr(&f->local, &f->local_len, d == AF_INET6, 0, 0);
  return fd;
}
int socketpair(int d, int t, int, int sv[2])
{
  if (!ON) return (int)rsys(SYS_socketpair, d, t, 0, (long)sv);
  Rt g;
  File *a = mk(SOCK), *b = mk(SOCK);
  kmc::link(a, b);
  a->nonblock = b->nonblock = (t & SOCK_NONBLOCK) != 0;
  if ((sv[0] = install(a)) < 0) return -1;
  if ((sv[1] = install(b)) < 0) { do_close(sv[0]); return -1; }
  return 0;
}
int pipe2(int fdv[2], int fl)
{
  if (!ON) return (int)rsys(SYS_pipe2, (long)fdv, fl);
  Rt g;
  File *a = mk(PIPE), *b = mk(PIPE);
  kmc::link(a, b);
  a->snd_shut = true; b->rcv_shut = false;
  a->nonblock = b->nonblock = (fl & O_NONBLOCK) != 0;
  if ((fdv[0] = install(a)) < 0) return -1;
  if ((fdv[1] = install(b)) < 0) { do_close(fdv[0]); return -1; }
  return 0;
}
int pipe(int fdv[2]) { return pipe2(fdv, 0); }
int bind(int fd, const struct sockaddr *a, socklen_t l)
{
  if (!isv(fd)) return (int)rsys(SYS_bind, fd, (long)a, l);
  Rt g;
  File *f = must(fd, "bind");
  mem_range(a, l, false, PC);
  if (l > sizeof f->local || l < 16 || a->sa_family != f->domain) { errno = EINVAL; return -1; }
  memcpy(&f->local, a, l); f->local_len = l; f->ss = File::BOUND; f->opt_at_bind = f->opt;
  if (listener(port_of(f->local))) { errno = EADDRINUSE; return -1; }
  if (!port_of(f->local)) { int p = next_port++; if (f->domain == AF_INET6) ((sockaddr_in6 *)&f->local)->sin6_port = htons(p); else ((sockaddr_in *)&f->local)->sin_port = htons(p); }
  return 0;
}
int listen(int fd, int n)
{
  if (!isv(fd)) return (int)rsys(SYS_listen, fd, n);
  Rt g; point("listen", (void *)(long)fd);
  File *f = must(fd, "listen");
  f->ss = File::LISTEN; ++f->listens; ++(*listen_counts)[port_of(f->local)];
  return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
  if (!isv(fd)) return (int)rsys(SYS_accept4, fd, (long)a, (long)l, fl);
  Rt g; point("accept", (void *)(long)fd);
  File *f = must(fd, "accept");
  if (f->ss != File::LISTEN) { errno = EINVAL; return -1; }
  if (used() >= fd_limit) { errno = EMFILE; return -1; } // before the queue is looked at
  if (!acc_errs->empty() && !f->backlog.empty()) {
    int c = choice((int)acc_errs->size() + 1, acc_cost ? 0 : ~0u, "accept result");
    if (c) {
      int e = (*acc_errs)[c - 1];
      trace("accept: error %d", e);
      if (e == ECONNABORTED || e == EPROTO || e == EPERM) { File *x = f->backlog.front(); f->backlog.pop_front(); x->closed = true; do_rst(x->peer); }
      // memory comes back some time later; the other errors are the last word
      // of an edge-triggered poller
      if (e == ENOBUFS || e == ENOMEM) wake(f);
      errno = e;
      return -1;
    }
  }
  while (f->backlog.empty()) {
    if (f->nonblock) { errno = EAGAIN; return -1; }
    block_on("accept", f, [f] { return !f->backlog.empty(); });
  }
  File *c = f->backlog.front();
  f->backlog.pop_front();
  int nf = install(c);
  c->accepted = true;
  if (c->peer) c->peer->accepted = true;
  c->nonblock = (fl & SOCK_NONBLOCK) != 0; c->cloexec = (fl & SOCK_CLOEXEC) != 0;
  if (a && l) { socklen_t k = std::min(*l, c->remote_len); mem_range(a, k, true, PC); memcpy(a, &c->remote, k); *l = c->remote_len; }
  return nf;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
  if (!isv(fd)) return (int)rsys(SYS_connect, fd, (long)a, l);
  Rt g; point("connect", (void *)(long)fd);
  File *f = must(fd, "connect");
  mem_range(a, l, false, PC);
  if (f->ss == File::CONN) { errno = EISCONN; return -1; }
  if (f->ss == File::CONNECTING) { errno = EALREADY; return -1; }
  memcpy(&f->remote, a, std::min<size_t>(l, sizeof f->remote)); f->remote_len = l;
  set_addr(&f->local, &f->local_len, f->domain == AF_INET6, next_port++, 1);
  int o = C_INPROGRESS_OK;
  if (!conn_outs->empty()) o = (*conn_outs)[choice((int)conn_outs->size(), conn_cost ? 0 : ~0u, "connect outcome")];
  else if (!listener(port_of(f->remote))) o = C_INPROGRESS_OK;
  // a source that differs from the destination in the address or port only
  if (o == C_SAMEPORT_OK) set_addr(&f->local, &f->local_len, f->domain == AF_INET6, port_of(f->remote), 2);
  if (o == C_SAMEHOST_OK) { int port = port_of(f->local); f->local = f->remote; if (f->domain == AF_INET6) ((sockaddr_in6 *)&f->local)->sin6_port = htons(port); else ((sockaddr_in *)&f->local)->sin_port = htons(port); }
  f->outcome = o;
  conn_log->push_back({now_us(), o, fd});
  trace("connect outcome %d", o);
  if (o >= C_ERROR_NOW && o < C_ERROR_LATER) { errno = o - C_ERROR_NOW; return -1; }
  switch (o) {
    case C_IMMEDIATE_OK: f->outcome = C_INPROGRESS_OK; connect_done(f); return 0;
    case C_REFUSED_NOW: errno = ECONNREFUSED; return -1;
    case C_UNREACH_NOW: errno = ENETUNREACH; return -1;
    case C_EADDRNOTAVAIL: errno = EADDRNOTAVAIL; return -1;
    case C_EACCES: errno = EACCES; return -1;
    case C_EINTR_OK: f->ss = File::CONNECTING; ev_push(EV_CONNECT, f); errno = EINTR; return -1;
    default: f->ss = File::CONNECTING; if (o != C_NEVER) ev_push(EV_CONNECT, f); errno = EINPROGRESS; return -1;
  }
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l)
{
  if (!isv(fd)) return (int)rsys(SYS_getsockopt, fd, lv, o, (long)v, (long)l);
  Rt g;
  File *f = must(fd, "getsockopt");
  memset(v, 0, *l);
  auto it = f->opt.find({lv, o});
  if (it != f->opt.end()) { if (*l >= sizeof(int)) *(int *)v = it->second; }
  else if (lv == SOL_SOCKET && o == SO_ERROR) { *(int *)v = f->so_err; f->so_err = 0; }
  else if (lv == SOL_SOCKET && o == SO_TYPE) *(int *)v = SOCK_STREAM;
  return 0;
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l)
{
  if (!isv(fd)) return (int)rsys(SYS_setsockopt, fd, lv, o, (long)v, l);
  Rt g; File *f = must(fd, "setsockopt"); mem_range(v, l, false, PC);
  if (opt_err) { errno = opt_err; return -1; }
  if (l < (socklen_t)sizeof(int)) { errno = EINVAL; return -1; }
  f->opt[{lv, o}] = *(const int *)v;
  return 0;
}
static int sockname(int fd, struct sockaddr *a, socklen_t *l, bool peer, void *pc)
{
  Rt g;
  File *f = must(fd, peer ? "getpeername" : "getsockname");
  if (peer && f->ss != File::CONN) { errno = ENOTCONN; return -1; }
  socklen_t n = peer ? f->remote_len : f->local_len;
  mem_range(a, std::min(n, *l), true, pc);
  memcpy(a, peer ? &f->remote : &f->local, std::min(n, *l));
  *l = n;
  return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (!isv(fd)) return (int)rsys(SYS_getsockname, fd, (long)a, (long)l); return sockname(fd, a, l, false, PC); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) { if (!isv(fd)) return (int)rsys(SYS_getpeername, fd, (long)a, (long)l); return sockname(fd, a, l, true, PC); }
static int do_fcntl(int fd, int cmd, long arg)
{
  if (!isv(fd)) return (int)rsys(SYS_fcntl, fd, cmd, arg);
  Rt g;
  File *f = must(fd, "fcntl");
  switch (cmd) {
    case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: f->nonblock = (arg & O_NONBLOCK) != 0; return 0;
    case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: f->cloexec = (arg & FD_CLOEXEC) != 0; return 0;
  }
  errno = EINVAL;
  return -1;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long r, ...)
{
  va_list ap; va_start(ap, r); long a = va_arg(ap, long); va_end(ap);
  if (!isv(fd)) return (int)rsys(SYS_ioctl, fd, r, a);
  Rt g;
  File *f = must(fd, "ioctl");
  if (r == FIONBIO) { f->nonblock = *(int *)a != 0; return 0; }
  if (r == FIONREAD) { *(int *)a = (int)f->rx.size(); return 0; }
  errno = EINVAL;
  return -1;
}
int eventfd(unsigned v, int fl)
{
  if (!ON) return (int)rsys(SYS_eventfd2, v, fl);
  Rt g; File *f = mk(EVENTFD); f->count = v; f->nonblock = (fl & EFD_NONBLOCK) != 0; f->cloexec = (fl & EFD_CLOEXEC) != 0; f->semaphore = (fl & EFD_SEMAPHORE) != 0;
  return install(f);
}
int eventfd_read(int fd, eventfd_t *v) { return read(fd, v, sizeof *v) == sizeof *v ? 0 : -1; }
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, sizeof v) == sizeof v ? 0 : -1; }
int timerfd_create(int c, int fl) { if (!ON) return (int)rsys(SYS_timerfd_create, c, fl); Rt g; File *f = mk(TIMERFD); f->nonblock = (fl & TFD_NONBLOCK) != 0; f->cloexec = (fl & TFD_CLOEXEC) != 0; f->clock = c; return install(f); }
int timerfd_settime(int fd, int fl, const struct itimerspec *nv, struct itimerspec *ov)
{
  if (!isv(fd)) return (int)rsys(SYS_timerfd_settime, fd, fl, (long)nv, (long)ov);
  Rt g; point("timerfd_settime", (void *)(long)fd);
  File *f = must(fd, "timerfd_settime");
  if (f->type != TIMERFD) { errno = EINVAL; return -1; }
  mem_range(nv, sizeof *nv, false, PC);
  if (nv->it_value.tv_nsec < 0 || nv->it_value.tv_nsec > 999999999 || nv->it_value.tv_sec < 0 || nv->it_interval.tv_nsec < 0 || nv->it_interval.tv_nsec > 999999999 || nv->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
  if (ov) { memset(ov, 0, sizeof *ov); if (f->expiry >= 0) { int64_t d = f->expiry - now_ns; if (d < 0) d = 0; ov->it_value.tv_sec = d / 1000000000; ov->it_value.tv_nsec = d % 1000000000; } }
  int64_t v = nv->it_value.tv_sec > 8000000000ll ? 8000000000ll * 1000000000ll : nv->it_value.tv_sec * 1000000000ll + nv->it_value.tv_nsec; // centuries
  f->pending_ticks = 0;
  if (v == 0) f->expiry = -1;
  else {
    if (fl & TFD_TIMER_ABSTIME) { v -= (f->clock == CLOCK_REALTIME ? 1700000000ll : 5000ll) * 1000000000ll; if (v < 0) v = 0; f->expiry = v; }
    else f->expiry = now_ns + v;
  }
  f->interval = nv->it_interval.tv_sec > 8000000000ll ? 8000000000ll * 1000000000ll : nv->it_interval.tv_sec * 1000000000ll + nv->it_interval.tv_nsec;
  trace("timerfd %d expires at +%lld us", fd, (long long)((f->expiry - now_ns) / 1000));
  if (f->expiry >= 0 && f->expiry <= now_ns) wake(f);
  return 0;
}
int timerfd_gettime(int fd, struct itimerspec *v)
{
  if (!isv(fd)) return (int)rsys(SYS_timerfd_gettime, fd, (long)v);
  Rt g; File *f = must(fd, "timerfd_gettime"); memset(v, 0, sizeof *v);
  if (f->expiry >= 0) { int64_t d = f->expiry - now_ns; if (d < 0) d = 0; v->it_value.tv_sec = d / 1000000000; v->it_value.tv_nsec = d % 1000000000; }
  return 0;
}
int epoll_create1(int fl) { if (!ON) return (int)rsys(SYS_epoll_create1, fl); Rt g; File *f = mk(EPOLL); f->cloexec = (fl & EPOLL_CLOEXEC) != 0; return install(f); }
int epoll_create(int n) { if (!ON) return (int)rsys(SYS_epoll_create, n); Rt g; if (n <= 0) { errno = EINVAL; return -1; } return install(mk(EPOLL)); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
  if (!isv(ep)) return (int)rsys(SYS_epoll_ctl, ep, op, fd, (long)ev);
  Rt g; point("epoll_ctl", (void *)(long)ep);
  File *e = must(ep, "epoll_ctl");
  if (e->type != EPOLL) { errno = EINVAL; return -1; }
  File *f = get(fd);
  if (!f) violation("bad-fd", "epoll_ctl for descriptor %d, which is not open", fd);
  EpItem *it = nullptr;
  for (auto i : e->items) if (i->f == f && i->fd == fd) it = i;
  if (op != EPOLL_CTL_DEL) mem_range(ev, sizeof *ev, false, PC);
  release(e);
  trace("epoll_ctl op %d fd %d events 0x%x", op, fd, op == EPOLL_CTL_DEL ? 0 : ev->events);
  switch (op) {
    case EPOLL_CTL_ADD:
      if (it) { errno = EEXIST; return -1; }
      it = new EpItem{fd, f, ev->events, ev->data, false};
      e->items.push_back(it);
      f->watchers.push_back({e, it});
      if (f->type == TIMERFD) timer_update(f);
      if (revents(f) & (it->events | EPOLLERR | EPOLLHUP)) { it->inlist = true; e->rd.push_back(it); }
      return 0;
    case EPOLL_CTL_MOD:
      if (!it) { errno = ENOENT; return -1; }
      it->events = ev->events; it->data = ev->data;
      if (revents(f) & (it->events | EPOLLERR | EPOLLHUP)) { if (!it->inlist) { it->inlist = true; e->rd.push_back(it); } }
      return 0;
    case EPOLL_CTL_DEL: {
      if (!it) { errno = ENOENT; return -1; }
      e->items.erase(std::remove(e->items.begin(), e->items.end(), it), e->items.end());
      e->rd.erase(std::remove(e->rd.begin(), e->rd.end(), it), e->rd.end());
      auto &w = f->watchers;
      for (size_t k = 0; k < w.size();) if (w[k].second == it) w.erase(w.begin() + k); else ++k;
      return 0;
    }
  }
  errno = EINVAL;
  return -1;
}
static bool ep_ready(File *e)
{
  timers_tick();
  for (auto i : e->rd) if (revents(i->f) & (i->events | EPOLLERR | EPOLLHUP)) return true;
  return false;
}
int epoll_pwait(int ep, struct epoll_event *out, int max, int to, const sigset_t *)
{
  if (!isv(ep)) return (int)rsys(SYS_epoll_pwait, ep, (long)out, max, to, 0);
  Rt g; point("epoll_wait", (void *)(long)ep);
  File *e = must(ep, "epoll_wait");
  if (e->type != EPOLL || max <= 0) { errno = EINVAL; return -1; }
  if ((cfg.faults & F_EINTR_POLL) && choice(2, 0, "epoll_wait EINTR")) { errno = EINTR; return -1; }
  if (to != 0 || ep_ready(e)) {
    if (to == 0) { }
    else block_on("epoll_wait", e, [e] { return ep_ready(e); }, to < 0 ? -1 : now_ns + (int64_t)to * 1000000);
  }
  timers_tick();
  acquire(e);
  int n = 0;
  std::deque<EpItem *> q;
  q.swap(e->rd);
  std::vector<EpItem *> again;
  int lim = max;
  if ((cfg.faults & F_POLL_PARTIAL) && q.size() > 1 && choice(2, 0, "epoll_wait partial")) lim = 1;
  while (!q.empty()) {
    EpItem *it = q.front();
    if (n == lim) break;
    q.pop_front();
    uint32_t r = revents(it->f) & (it->events | EPOLLERR | EPOLLHUP);
    it->inlist = false;
    if (!r) continue;
    mem_range(&out[n], sizeof out[n], true, PC);
    out[n].events = r & ~(EPOLLET | EPOLLONESHOT); out[n].data = it->data;
    trace("epoll_wait: fd %d events 0x%x", it->fd, r);
    ++n;
    if (it->events & EPOLLONESHOT) it->events &= EPOLLET | EPOLLONESHOT;
    else if (!(it->events & EPOLLET)) again.push_back(it);
  }
  // what was not looked at stays first
  for (auto i : again) { i->inlist = true; q.push_back(i); }
  for (auto i : e->rd) q.push_back(i);
  e->rd = q;
  return n;
}
int epoll_wait(int ep, struct epoll_event *out, int max, int to) { return epoll_pwait(ep, out, max, to, nullptr); }
int poll(struct pollfd *p, nfds_t n, int to)
{
  if (!ON) return (int)rsys(SYS_poll, (long)p, n, to);
  Rt g; point("poll", p);
  mem_range(p, n * sizeof *p, true, PC);
  if ((cfg.faults & F_EINTR_POLL) && choice(2, 0, "poll EINTR")) { errno = EINTR; return -1; }
  auto scan = [&]() {
    timers_tick();
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      File *f = get(p[i].fd);
      if (!f) violation("bad-fd", "poll of descriptor %d, which is not open", p[i].fd);
      uint32_t r = revents(f) & ((uint32_t)(unsigned short)p[i].events | EPOLLERR | EPOLLHUP);
      p[i].revents = (short)r;
      if (r) ++k;
    }
    return k;
  };
  int k = scan();
  if (!k && to != 0) { block_on("poll", p, [&] { return scan() > 0; }, to < 0 ? -1 : now_ns + (int64_t)to * 1000000); k = scan(); }
  for (nfds_t i = 0; i < n; ++i) if (p[i].revents) { acquire(get(p[i].fd)); trace("poll: fd %d events 0x%x", p[i].fd, p[i].revents); }
  return k;
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
static int do_open(const char *path, int fl, int mode)
{
  if (ON && !strcmp(path, "/dev/null")) { Rt g; File *f = mk(NULLF); f->cloexec = (fl & O_CLOEXEC) != 0; return install(f); }
  return (int)rsys(SYS_open, (long)path, fl, mode);
}
int open(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(path, fl, m); }
int open64(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(path, fl, m); }
int dup(int fd) { if (!isv(fd)) return (int)rsys(SYS_dup, fd); violation("unsupported", "dup"); }
}
