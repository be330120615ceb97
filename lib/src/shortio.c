/* LD_PRELOAD: makes read() and write() on regular files transfer less than asked for.
   VT_SHORT=<seed>: transfer a random part; VT_FULL=<n>: after n bytes written to regular files, ENOSPC. */
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <stdlib.h>
#include <errno.h>

static unsigned long long x; static long room = -2;
static unsigned rnd(void) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)(x >> 11); }
static void init(void) {
    const char *s;
    if (room != -2) return;
    s = getenv("VT_FULL"); room = s ? atol(s) : -1;
    s = getenv("VT_SHORT"); x = s ? 88172645463325252ull * (2 * strtoull(s, 0, 10) + 1) : 0;
}
static int regular(int fd) { struct stat st; return fd > 2 && !fstat(fd, &st) && S_ISREG(st.st_mode); }
static size_t part(size_t n) { return x && n > 1 ? 1 + rnd() % n : n; }
ssize_t read(int fd, void *b, size_t n) {
    init();
    if (x && regular(fd)) n = part(n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    init();
    if (regular(fd)) {
        n = part(n);
        if (room >= 0) {
            if (n && !room) { errno = ENOSPC; return -1; }
            if (n > (size_t)room) n = room;
            room -= n;
        }
    }
    return syscall(SYS_write, fd, b, n);
}
