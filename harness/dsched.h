// A deterministic scheduler for real threads: exactly one managed thread runs at a time,
// and who runs next is drawn from the case, so that a schedule is a generated, shrinkable
// and replayable input.  Threads can be preempted at every load, store and branch of the
// instrumented code (library and templates), at lock operations and at wrapped system calls.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <functional>
#include <string>
#include "pbt.h"

#define NOYIELD __attribute__((no_sanitize("coverage")))

namespace sched {
struct Options {
  bool fine = true;          // allow preemption at memory accesses, not only at locks and calls
  bool spurious = false;     // condition waits may return without a signal
};
void begin(pbt::Ctx& c, const Options& o = Options());
void spawn(std::function<void()> f);   // before run()
void run();                            // until the spawned threads ended and no other can run; throws CaseFail
void end();
void settle();                         // main: let every other thread run until none can
void point();                          // a place where a switch may happen
uint64_t now();                        // logical time, strictly increasing
void flag(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // record a failure from any thread
bool flagged();
bool managed();
uint64_t switches();                   // preemptions taken in this case
struct Quiet {                         // no preemption inside
  Quiet();
  ~Quiet();
};
}  // namespace sched

// What every library that uses it must wrap at link time.
#endif
