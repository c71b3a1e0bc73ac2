/* Preloaded into a server: the first word of the file RV_HEAP is the number
 * of bytes which are allocated, the second one the number of allocations. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long long early[2];
static long long *live = early;

__attribute__((constructor)) static void start(void) {
  const char *f = getenv("RV_HEAP");
  int fd = f ? open(f, O_RDWR | O_CLOEXEC) : -1;
  if (fd < 0)
    return;
  long long *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p != MAP_FAILED) {
    p[0] = early[0];
    p[1] = early[1];
    live = p;
  }
}

static void *count(void *p) {
  if (p) {
    __atomic_fetch_add(&live[0], (long long)malloc_usable_size(p),
                       __ATOMIC_RELAXED);
    __atomic_fetch_add(&live[1], 1, __ATOMIC_RELAXED);
  }
  return p;
}

static void uncount(size_t n) {
  __atomic_fetch_sub(&live[0], (long long)n, __ATOMIC_RELAXED);
  __atomic_fetch_sub(&live[1], 1, __ATOMIC_RELAXED);
}

void *malloc(size_t n) { return count(__libc_malloc(n)); }

void *calloc(size_t n, size_t m) { return count(__libc_calloc(n, m)); }

void *realloc(void *p, size_t n) {
  size_t old = p ? malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (p && (q || n == 0))
    uncount(old);
  return count(q);
}

void free(void *p) {
  if (p)
    uncount(malloc_usable_size(p));
  __libc_free(p);
}

void *memalign(size_t a, size_t n) { return count(__libc_memalign(a, n)); }

void *aligned_alloc(size_t a, size_t n) {
  return count(__libc_memalign(a, n));
}

int posix_memalign(void **p, size_t a, size_t n) {
  void *q = __libc_memalign(a, n);
  if (!q)
    return ENOMEM;
  *p = count(q);
  return 0;
}
