// Bounded exhaustive explorer for deterministic programs with explicit choices.
//
// A harness defines `void mc_body()`.  Every nondeterministic decision of the
// body goes through mc::choose(); the engine runs the body once for every
// sequence of choices (depth-first, work shared between processes), so the
// set of executions it covers is exactly the product of the choice menus.
#ifndef VERIF_MC_HH
#define VERIF_MC_HH
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace mc {

// Decide between n alternatives (0..n-1).  n==1 costs nothing.
int choose(int n);
// Like choose, but does not show up as an operation; same thing, other name for readers.
inline bool flip() { return choose(2) != 0; }

// Record one executed operation of the implementation under test (a transition).
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Free-form note in the trace (not counted).
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Record an abstract state (hash of the reference model + observation).
void state(uint64_t h);
// Record the outcome of this execution (distinct ones are counted).
void outcome(uint64_t h);
// Report a violation; does not return.  `key` identifies the kind of failure
// (used to match known findings).
void fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
// true when this failure is a listed finding (counted); the execution may go on
bool known(const char *key);
// Abandon this execution silently (redundant or outside the environment assumptions).
void prune() __attribute__((noreturn));
// Harness error: not a violation.
void harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

// Integer / string parameter of the run: --p name=value
long param(const char *name, long dflt);
std::string sparam(const char *name, const char *dflt);
// true when a single recorded execution is replayed
bool replaying();
// worker index (for scratch directory names)
int worker();
// number of this execution within the worker
uint64_t execution();
// scratch directory private to this worker (created on demand)
const std::string &scratch();

struct Hash {
    uint64_t h;
    Hash() : h(1469598103934665603ull) {}
    Hash &add(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8*i)) & 0xff; h *= 1099511628211ull; } return *this; }
    Hash &add(const void *p, size_t n) { const unsigned char *c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return *this; }
    Hash &add(const std::string &s) { add((uint64_t)s.size()); return add(s.data(), s.size()); }
};

// For runtimes layered above the engine (the scheduler).
void internal_set_abort_hook(void (*hook)());   // called instead of unwinding, must not return
bool internal_in_body();
void internal_new_point_hook(void (*pre)(), void (*post)()); // before/after each execution

// virtual clock, nanoseconds; advanced by harnesses
extern int64_t vclock_ns;
}

#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc::fail(key, __VA_ARGS__); } while (0)

// like MC_CHECK, but continues after a listed finding
#define MC_CHECK_GO(cond, key, ...) do { if (!(cond) && !mc::known(key)) mc::fail(key, __VA_ARGS__); } while (0)

void mc_body();
// Optional per-process set-up, run once in each worker before any execution.
void mc_setup();
#endif
