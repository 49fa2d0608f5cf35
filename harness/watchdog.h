// Reports a call of the code under test that does not return: no progress during a whole interval of
// CPU time (not wall-clock time, so a loaded machine does not matter).
#ifndef VERIF_WATCHDOG_H_
#define VERIF_WATCHDOG_H_
#include <signal.h>
#include <string.h>
#include <sys/time.h>
namespace vwd {
inline volatile unsigned long& Progress() { static volatile unsigned long p = 0; return p; }
inline void (*&Report())(int) { static void (*r)(int) = nullptr; return r; }
inline void Tick(int) {
  static unsigned long last = ~0ul;
  if (Progress() == last) Report()(SIGPROF);
  last = Progress();
}
inline void Start(int seconds, void (*report)(int)) {
  Report() = report; Progress() = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = Tick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_interval.tv_sec = it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}
}  // namespace vwd
#endif
