/* Preloaded into a server: every clock runs ahead of the real one by the
 * nanoseconds in the file RV_CLOCK, which the check increases at will, and
 * the wall clock by its second number more. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile unsigned long long *ahead;

__attribute__((constructor)) static void start(void) {
  const char *f = getenv("RV_CLOCK");
  int fd = f ? open(f, O_RDONLY | O_CLOEXEC) : -1;
  if (fd < 0)
    return;
  void *p = mmap(0, 4096, PROT_READ, MAP_SHARED, fd, 0);
  close(fd);
  if (p != MAP_FAILED)
    ahead = p;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  long r = syscall(SYS_clock_gettime, id, ts);
  if (r == 0 && ahead)
    switch (id) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
    case CLOCK_MONOTONIC:
    case CLOCK_MONOTONIC_COARSE:
    case CLOCK_MONOTONIC_RAW:
    case CLOCK_BOOTTIME: {
      unsigned long long n = __atomic_load_n(ahead, __ATOMIC_SEQ_CST);
      if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
        ts->tv_sec += (long long)__atomic_load_n(ahead + 1, __ATOMIC_SEQ_CST);
      ts->tv_sec += n / 1000000000;
      ts->tv_nsec += n % 1000000000;
      if (ts->tv_nsec >= 1000000000) {
        ts->tv_nsec -= 1000000000;
        ts->tv_sec++;
      }
    }
    }
  return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  (void)tz;
  if (clock_gettime(CLOCK_REALTIME, &ts))
    return -1;
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
