/* LD_PRELOAD: keeps the number of blocks and bytes allocated by the first process started with it in the file VT_COUNT */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);
static long early[8];
static volatile long *c = early;
static void add(void *p) { if (p) { __sync_fetch_and_add(&c[1], 1); __sync_fetch_and_add(&c[2], (long)malloc_usable_size(p)); __sync_fetch_and_add(&c[3], 1); } }
static void sub(void *p) { if (p) { __sync_fetch_and_sub(&c[1], 1); __sync_fetch_and_sub(&c[2], (long)malloc_usable_size(p)); } }
void *malloc(size_t n) { void *p = __libc_malloc(n); add(p); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); add(p); return p; }
void free(void *p) { sub(p); __libc_free(p); }
void *realloc(void *q, size_t n) {
    sub(q);
    void *p = __libc_realloc(q, n);
    add(p ? p : n ? q : 0);
    return p;
}
int posix_memalign(void **r, size_t a, size_t n) { *r = __libc_memalign(a, n); add(*r); return *r ? 0 : 12; }
static void child(void) { c = early; }
__attribute__((constructor)) static void init(void) {
    const char *f = getenv("VT_COUNT");
    int fd = f ? open(f, O_RDWR | O_CLOEXEC) : -1;
    long *m;
    if (fd < 0) return;
    m = mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED || m[0]) return;
    m[0] = getpid();
    m[1] = early[1]; m[2] = early[2];
    c = m;
    pthread_atfork(0, 0, child);
}
