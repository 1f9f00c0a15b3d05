// Exhaustive enumeration of operation sequences against the real code.
//
// A case draws its decisions with ch(n); the engine runs the case for every
// combination of decisions (a depth-first walk of the whole decision tree,
// shared by worker processes).  Crashes, sanitizer reports, hangs, leaks and
// failed CHECKs are violations, named by the decisions that lead to them.
#ifndef ENUMER_H
#define ENUMER_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace en {
int ch(int n);                   // 0..n-1, all are explored
template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[ch((int)N)]; }
inline bool flip() { return ch(2) == 1; }
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // names the step being done
void step();                     // counts one checked transition
bool tracing();
int depth();                     // bound of the running case
// Live heap blocks (malloc minus free), for exact leak accounting inside a case.
long live_blocks();
// Call before the first decision when process-wide state may stay allocated.
void no_leak_check();
[[noreturn]] void skip();        // abandons a case that is outside the property's domain
typedef void (*Fn)();
struct Reg { Reg(const char *prop, const char *name, Fn fn, int quick, int thorough); };
std::string esc(const std::string &s);
}
#define EN_CASE(prop, name, quick, thorough)                                   \
  static void en_case_##name();                                                \
  static ::en::Reg en_reg_##name(prop, #name, &en_case_##name, quick, thorough); \
  static void en_case_##name()
#define EN_CHECK(c, ...) do { if (!(c)) ::en::fail(__VA_ARGS__); } while (0)
#endif
