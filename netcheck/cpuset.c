/* Preloaded into a server: it is confined to the processors in RV_CPUSET (a
 * list of numbers), as by a cpuset: other ones can't be chosen. */
#define _GNU_SOURCE
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static cpu_set_t ours;
static int confined;

__attribute__((constructor)) static void start(void) {
  char *s = getenv("RV_CPUSET");
  CPU_ZERO(&ours);
  while (s && *s) {
    char *end;
    long n = strtol(s, &end, 10);
    if (end == s)
      break;
    if (n >= 0 && n < CPU_SETSIZE)
      CPU_SET(n, &ours);
    confined = 1;
    s = *end ? end + 1 : end;
  }
}

int sched_setaffinity(pid_t pid, size_t size, const cpu_set_t *set) {
  cpu_set_t all;
  if (confined && size >= 8) {
    CPU_ZERO(&all);
    memcpy(&all, set, size < sizeof all ? size : sizeof all);
    CPU_AND(&all, &all, &ours);
    if (!CPU_COUNT(&all)) {
      errno = EINVAL;
      return -1;
    }
    set = &all;
    size = sizeof all;
  }
  return syscall(SYS_sched_setaffinity, pid, size, set);
}
