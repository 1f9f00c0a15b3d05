// kmc: stateless, deviation-bounded exploration of real code under a
// controlled scheduler, a virtual clock and a virtual kernel.
#ifndef KMC_H
#define KMC_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace kmc {

enum Fault : unsigned {
  F_SHORT_WRITE = 1u << 0,  // a write may accept only a part (buffer full after)
  F_EAGAIN_WRITE = 1u << 1, // a write may find the buffer full
  F_SHORT_READ = 1u << 2,   // a read may return a part of what is there
  F_EINTR_READ = 1u << 3,
  F_EAGAIN_READ = 1u << 4,  // readable reported, read finds nothing
  F_EINTR_POLL = 1u << 5,
  F_SPURIOUS = 1u << 6,     // spurious wake-ups of condition waits
  F_TIME = 1u << 7,         // time may jump to the next deadline at any point
  F_ENV = 1u << 8,          // pending kernel events may complete early
  F_EINTR_WRITE = 1u << 9,
  F_SIGNAL_PICK = 1u << 10, // pthread_cond_signal may pick any waiter
  F_FREE_SWITCH = 1u << 11, // choice of next thread at a blocking point is free
  F_POLL_PARTIAL = 1u << 12,// epoll_wait may return only the first ready item
};

struct Cfg {
  unsigned faults = 0;
  int quick = 2;      // deviation bound of the quick tier
  int thorough = 3;   // and of the thorough tier
  long max_steps = 20000;
  bool leak_check = true;
  bool fd_check = true;
  bool race_check = true;
  long tick_us = 0;   // virtual microseconds per clock reading
  Cfg(unsigned f = 0, int q = 2, int t = 3) : faults(f), quick(q), thorough(t) {}
  Cfg &steps(long n) { max_steps = n; return *this; }
  Cfg &noleak() { leak_check = false; return *this; }
  Cfg &norace() { race_check = false; return *this; }
  Cfg &tick(long us) { tick_us = us; return *this; }
};

typedef void (*ScenFn)();
struct Reg {
  Reg(const char *prop, const char *name, ScenFn fn, Cfg cfg, const char *file);
};
#define KMC_SCENARIO(prop, name, ...)                                          \
  static void kmc_scen_##name();                                               \
  static ::kmc::Reg kmc_reg_##name(prop, #name, &kmc_scen_##name,              \
                                   ::kmc::Cfg __VA_ARGS__, __FILE__);          \
  static void kmc_scen_##name()

// ---- choices -------------------------------------------------------------
int choose(int n, int cost = 0, const char *what = "choose");
inline bool maybe(int cost = 1) { return choose(2, cost, "maybe") == 1; }
void faults(unsigned mask);
unsigned faults();
void explore(bool on); // while off, no choices are offered (defaults are taken)

// ---- verdicts ------------------------------------------------------------
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- time ----------------------------------------------------------------
int64_t now_us();
int64_t realtime_us();         // what gettimeofday would say
void sleep_us(int64_t us);     // virtual sleep
void advance_us(int64_t us);   // moves the clock, wakes nobody by itself
void wait_idle();              // until every other thread is blocked
bool wait_until(const std::function<bool()> &pred, int64_t timeout_us = -1);

// ---- threads -------------------------------------------------------------
int spawn(std::function<void()> fn);      // harness thread
void join(int tid);
void join_all();                          // all harness threads
int self();
void yield_point();                       // a plain scheduling point
bool thread_finished(int tid);
int live_threads();                       // not counting the caller
void hb_release(const void *key);         // harness-made ordering
void hb_acquire(const void *key);

// Harness variables: accesses through these are invisible to the monitors.
template <class T> struct Cell;
long cell_get(int id);
void cell_set(int id, long v);
long cell_add(int id, long v);
int cell_new();
struct Counter {
  int id;
  Counter() : id(cell_new()) {}
  long get() const { return cell_get(id); }
  void set(long v) const { cell_set(id, v); }
  long add(long v = 1) const { return cell_add(id, v); }
};
void logs(const std::string &s);              // append to the observation log
std::string log_take();                       // whole log, ';'-separated
void rec(int chan, const char *p, size_t n);  // append bytes to a byte channel
std::string rec_get(int chan);

// ---- virtual kernel ------------------------------------------------------
void set_fd_limit(int n);
int open_fds();                 // number of open virtual descriptors
int closed_registered();        // sockets closed while a poller still watched them
bool fd_is_open(int fd);
std::string fd_table();
bool is_virtual_fd(int fd);
struct FdInfo { int fd; char type; bool nonblock, cloexec; }; // type: (e)vent, (t)imer, (p)oller, (s)ocket, (n)ull
std::vector<FdInfo> fd_infos(); // the open descriptors
int listener_fd(int port);
// the socket options set so far, or before bind(), as "level/option=value " in order
std::string sock_opts(int fd, bool at_bind = false);
void setsockopt_error(int err);             // every setsockopt() fails with it
void allow_open_fds(int n);     // descriptors tolerated at the end

struct Peer; // the other end of a connection, owned by the environment
Peer *peer_connect(int port, bool ipv6 = false); // to a listening port (or null)
Peer *peer_of_fd(int fd);                   // the environment end of a socket
void peer_send(Peer *, const std::string &);
void peer_shutdown(Peer *);                 // FIN
void peer_close(Peer *);                    // FIN, later data gets RST
void peer_reset(Peer *);                    // RST
void peer_pause(Peer *, bool);              // stop draining
size_t peer_drain(Peer *, size_t n);        // read up to n (paused peers)
std::string peer_received(Peer *);
bool peer_eof(Peer *);
bool peer_got_rst(Peer *);
int peer_fin_count(Peer *);
bool peer_fd_closed(Peer *);                // the code's end was closed
bool peer_accepted(Peer *);
void peer_window(Peer *, size_t cap);       // capacity towards the peer
int peer_port(Peer *);                      // local port of the peer end
bool port_listening(int port);
int listen_count(int port);                 // calls of listen() for that port
void accept_errors(std::initializer_list<int> errs, int cost = 1); // offered at accept

// A socketpair whose other end is the environment; returns the code's fd.
int make_stream(Peer **peer);
// eventfd-like descriptor for poller tests
int make_event(bool readable);
void event_set(int fd, bool readable);      // raise/clear readability

// connect() outcomes offered, first one is the default
enum ConnOutcome { C_INPROGRESS_OK, C_IMMEDIATE_OK, C_REFUSED_NOW, C_REFUSED_LATER,
                   C_TIMEDOUT_LATER, C_SELF, C_UNREACH_NOW, C_EACCES, C_EINTR_OK, C_UNREACH_LATER,
                   C_EADDRNOTAVAIL, C_NEVER, C_SAMEPORT_OK, C_SAMEHOST_OK,
                   C_ERROR_NOW = 1000, C_ERROR_LATER = 2000 }; // these + errno
void connect_outcomes(std::initializer_list<int> outs, int cost = 1);
struct ConnRec { int64_t t; int outcome; int fd; };
std::vector<ConnRec> connect_log();
std::vector<Peer *> connected_peers();      // environment ends of connect()s
// the kernel never serves the next step of C_INPROGRESS before idle
void env_hold(bool hold);

// memory
size_t live_bytes();
size_t live_blocks();
bool ptr_live(const void *p);
}
#endif
