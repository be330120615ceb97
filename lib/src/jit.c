/* LD_PRELOAD shim: random short delays around the calls where threads and processes meet.
   JIT=<seed>,<per mille>,<max microseconds>; with F in JITOPT: read/write are cut short as well. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <stdatomic.h>
#include <sys/syscall.h>

static atomic_uint state;
static int ready, pm, us, chop;
static pid_t owner;

__attribute__((constructor)) static void init(void)
{
    unsigned s = 1;
    const char *e = getenv("JIT");
    if (e && sscanf(e, "%u,%d,%d", &s, &pm, &us) == 3) {
        state = s * 2654435761u + getpid();
        ready = 1;
    }
    e = getenv("JITOPT");
    chop = e && strchr(e, 'F');
    owner = getpid();
}

static unsigned rnd(void)
{
    unsigned x = atomic_fetch_add(&state, 0x9e3779b9u);
    x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16;
    return x;
}

static void jit(void)
{
    if (!ready)
        return;
    unsigned x = rnd();
    if ((int)(x % 1000) < pm) {
        struct timespec t = {0, (long)(1 + (x >> 10) % us) * 1000};
        syscall(SYS_nanosleep, &t, NULL);
    }
}

#define REAL(r, n, ...) static r (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, n)

int pthread_mutex_lock(pthread_mutex_t *m) { REAL(int, "pthread_mutex_lock", pthread_mutex_t *); jit(); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { REAL(int, "pthread_mutex_unlock", pthread_mutex_t *); int r = real(m); jit(); return r; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{ REAL(int, "pthread_create", pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); jit(); int r = real(t, a, f, x); jit(); return r; }
int pthread_join(pthread_t t, void **v) { REAL(int, "pthread_join", pthread_t, void **); jit(); return real(t, v); }
int dup(int a) { REAL(int, "dup", int); jit(); int r = real(a); jit(); return r; }
int dup2(int a, int b) { REAL(int, "dup2", int, int); jit(); int r = real(a, b); jit(); return r; }
int close(int a) { REAL(int, "close", int); jit(); return real(a); }
int pipe(int p[2]) { REAL(int, "pipe", int *); jit(); int r = real(p); jit(); return r; }
pid_t fork(void) { REAL(pid_t, "fork", void); jit(); pid_t r = real(); if (r) jit(); return r; }
pid_t waitpid(pid_t p, int *s, int o) { REAL(pid_t, "waitpid", pid_t, int *, int); jit(); pid_t r = real(p, s, o); jit(); return r; }
int chdir(const char *d) { REAL(int, "chdir", const char *); jit(); int r = real(d); jit(); return r; }
int fflush(FILE *f) { REAL(int, "fflush", FILE *); jit(); int r = real(f); jit(); return r; }
int fclose(FILE *f) { REAL(int, "fclose", FILE *); jit(); int r = real(f); jit(); return r; }
