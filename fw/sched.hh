// Controlled scheduler: threads of the code under test run one at a time and
// every scheduling decision goes through mc::choose().
#ifndef VERIF_SCHED_HH
#define VERIF_SCHED_HH
#include <functional>
#include <stdint.h>
namespace sched {
// A scheduling point with no side effect (for harness code).
void point();
int self();
int64_t now_ns();
// Advance virtual time without yielding.
void advance_ns(int64_t ns);
// Sleep that ends only when no thread can run before (the harness waiting for
// quiescence; never cut short).
void settle(int64_t ns);
// Virtual time that passed because no thread could run (excludes timers that
// fired early), since the start of the execution.
int64_t idle_ns();
// Run f atomically (no scheduling points, no race tracking).
struct Atomic { Atomic(); ~Atomic(); };
// number of threads that have not ended
int live_threads();
}
void sched_body();
#endif
