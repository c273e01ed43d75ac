/* LD_PRELOAD seam: wall clock, monotonic clock and kernel entropy of the simulated process.
 * Off (pass-through) until simshim_on(1) is called inside a simulated process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>

static volatile int on = 0;
static volatile int64_t wall_ns = 0, mono_ns = 0;
static volatile int64_t reads = 0, entropy = 0;
static uint64_t rng = 88172645463325252ULL;

void simshim_on(int v) { on = v; }
void simshim_set(int64_t w, int64_t m) { wall_ns = w; mono_ns = m; }
void simshim_seed(uint64_t s) { rng = s ? s : 1; }
int64_t simshim_reads(void) { return reads; }
int64_t simshim_entropy(void) { return entropy; }

static int real_gettime(clockid_t c, struct timespec *ts) { return (int)syscall(SYS_clock_gettime, c, ts); }

int clock_gettime(clockid_t c, struct timespec *ts) {
  static int (*fn)(clockid_t, struct timespec *) = 0;
  if (on && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE ||
             c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_ns : mono_ns;
    reads++;
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
  }
  if (!fn) fn = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  return fn ? fn(c, ts) : real_gettime(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static uint64_t nx(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
ssize_t getrandom(void *buf, size_t n, unsigned int fl) {
  if (on) {
    entropy++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(nx() >> 24);
    return (ssize_t)n;
  }
  return syscall(SYS_getrandom, buf, n, fl);
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
