// Virtual time for sequential harnesses: every clock read is decided by the harness.
#include "mc.hh"
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" {
int clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = mc::vclock_ns / 1000000000; ts->tv_nsec = mc::vclock_ns % 1000000000; return 0; }
int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = mc::vclock_ns / 1000000000; tv->tv_usec = mc::vclock_ns % 1000000000 / 1000; return 0; }
time_t time(time_t *t) { time_t v = mc::vclock_ns / 1000000000; if (t) *t = v; return v; }
int nanosleep(const struct timespec *r, struct timespec *) { mc::vclock_ns += r->tv_sec * 1000000000ll + r->tv_nsec; return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *) { mc::vclock_ns += r->tv_sec * 1000000000ll + r->tv_nsec; return 0; }
int usleep(useconds_t u) { mc::vclock_ns += u * 1000ll; return 0; }
}
