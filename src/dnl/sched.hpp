// Controlled scheduler and happens-before race detector for code compiled with -fsanitize=thread
// (only the instrumentation of the compiler is used; the run time behind it is this one).
#pragma once
#include "mc/explore.hpp"
namespace sched {
struct Report { // shared with the process that explores
  char     key[128], msg[8192];
  int      infeasible;
  uint64_t points, preemptions, races_checked, switches;
  int      budget_left[4];
};
extern Report* rep;
extern bool     no_race_check;
extern uint64_t max_points;
// runs f() as the first controlled thread of this process
void start(mc::Ctx& c, Report* r);
void stop(); // the rest runs uncontrolled
[[noreturn]] void abort_run(const std::string& key, const std::string& msg);
[[noreturn]] void infeasible();
// the current thread waits for something outside (the network): the others go first, or it goes on at once
// (a deviation of class 3). Preemptions are deviations of class 0, spurious wake-ups of class 2.
void external_wait();
void io_point(); // an ordinary scheduling point
int  self();
bool active();
} // namespace sched
