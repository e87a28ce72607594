// Controlled scheduler: inside vsched::run every thread created through std::thread / pthreads is run
// one at a time, and which one continues at each scheduling point is a choice of the explorer.
// Schedules are explored up to a bound on preemptions (switches away from a thread that could go on).
#ifndef VSCHED_HH
#define VSCHED_HH
#include "mc.hh"
#include <functional>
namespace vsched {
struct Options {
  int preemptions = 2;          // switches away from a thread that could continue; includes timeouts firing early
  bool races = true;            // report data races
  long maxSteps = 20000;        // scheduling points before the execution counts as hanging
  std::vector<int> cpus;        // what sched_getcpu may answer (empty: always 0); there are 2 cpus
  bool orders = true;           // false: of several threads that could run once one blocks, always the first
  bool timers = true;           // false: timed waits never time out, so somebody has to wake them
  bool early = true;            // false: no preemptions are spent on timeouts firing before time has to pass
  bool atomics = true;          // false: no thread is preempted at an atomic operation
  int spin = 60;                // points a thread may go through while others wait before it has to yield
};
void run(mc::Ctx &x, const Options &o, const std::function<void()> &body);
void point(const char *what = "");   // an explicit scheduling point
void settle();                       // continue only once every other thread is blocked (timeouts do not fire)
uint64_t now();                      // virtual nanoseconds
void advance(uint64_t ns);           // let virtual time pass: timeouts that become due fire when their thread is scheduled
bool active();
int self();                          // index of the calling thread, 0 is the body
struct Quiet { Quiet(); ~Quiet(); }; // no scheduling points and no race reports in this scope
struct Calm { Calm(); ~Calm(); };    // while one exists nothing is explored: no preemptions, a fixed order (for setting up and tearing down)
}
#endif
