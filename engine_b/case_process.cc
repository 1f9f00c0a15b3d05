// P22: what the names of log files are made of.
#include "enumer.h"
#include "kanon/util/macro.h"
#include "kanon/process/process_info.h"
#include <errno.h>
#include <stdio.h>
#include <string>
#include <string.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace kanon;
static std::string *name;
extern "C" int __wrap_gethostname(char *buf, size_t len)
{ // as the system's: a name that doesn't fit isn't terminated
  size_t n = name->size() + 1;
  memcpy(buf, name->c_str(), n < len ? n : len);
  if (n > len) { errno = ENAMETOOLONG; return -1; }
  return 0;
}
extern "C" int __wrap_uname(struct utsname *u)
{
  memset(u, 0, sizeof *u);
  memcpy(u->nodename, name->c_str(), name->size() + 1);
  return 0;
}
// Each name in a process of its own: names may be kept.
EN_CASE("P22", host_names, 0, 0)
{
  if (!name) name = new std::string;
  int n = en::ch(65);
  name->clear();
  for (int k = 0; k < n; ++k) *name += char('a' + (k * 7 + n) % 26);
  en::op("Hostname() and PidString() with a host name of %d bytes, twice", n);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    for (int i = 0; i < 2; ++i) {
      StringView h = process::Hostname();
      if (h.size() != name->size() || memcmp(h.data(), name->data(), h.size()) != 0) _exit(2);
      if (h.data()[h.size()] != 0) _exit(3);
      if (process::PidString() != StringView(std::to_string((long)getpid())) || process::Pid() != getpid()) _exit(4);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  EN_CHECK(rc != 2, "another host name is reported");
  EN_CHECK(rc != 3, "the host name isn't terminated");
  EN_CHECK(rc != 4, "another process id is reported");
  EN_CHECK(rc == 0, "asking for the host name of maximal length fails | host name of %d bytes, status %d", n, st);
}
