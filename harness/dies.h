#ifndef VH_DIES_H_
#define VH_DIES_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <exception>
#include <functional>

#include "vh/tr.h"
namespace vh {
// Runs f in a child; true when the child was ended by a signal.
inline bool Dies(const std::function<void()>& f) {
  T().Flush();
  pid_t pid = fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTERM, SIGTRAP}) signal(s, SIG_DFL);
    std::set_terminate(nullptr);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFSIGNALED(st);
}
}  // namespace vh
#endif
