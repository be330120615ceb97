/* meter TAG FILE: appends what the program that started it holds: blocks, bytes, descriptors, threads, processes, pages, stack.
   Threads and processes may still be ending: the least of what is seen in a while. */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int count(const char *fmt, int pid) {
    char b[64]; DIR *d; int n = -2;
    snprintf(b, sizeof b, fmt, pid);
    if (!(d = opendir(b))) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
/* the processes, dead ones among them, of which it is the parent */
static int children(int pid) {
    char b[300], *p; int n = 0, fd, up; ssize_t k; DIR *d; struct dirent *e;
    if (!(d = opendir("/proc"))) return -1;
    while ((e = readdir(d))) {
        if (*e->d_name < '0' || *e->d_name > '9') continue;
        snprintf(b, sizeof b, "/proc/%.20s/stat", e->d_name);
        if ((fd = open(b, O_RDONLY)) < 0) continue;
        k = read(fd, b, sizeof b - 1);
        close(fd);
        if (k <= 0) continue;
        b[k] = 0;
        if ((p = strrchr(b, ')')) && sscanf(p + 1, " %*c %d", &up) == 1 && up == pid) n++;
    }
    closedir(d);
    return n;
}
static long vsz(int pid) { char b[64]; long v = -1; FILE *f; snprintf(b, sizeof b, "/proc/%d/statm", pid); if ((f = fopen(b, "r"))) { if (fscanf(f, "%ld", &v) != 1) v = -1; fclose(f); } return v; }
/* the size of its first stack, in kB */
static long stk(int pid) {
    char b[300]; long v = -1; FILE *f;
    snprintf(b, sizeof b, "/proc/%d/status", pid);
    if (!(f = fopen(b, "r"))) return -1;
    while (fgets(b, sizeof b, f)) if (sscanf(b, "VmStk: %ld", &v) == 1) break;
    fclose(f);
    return v;
}
int main(int n, char **a) {
    int pid = getppid(), i; long m[4] = {0}, v[7]; char o[300];
    for (i = 0; i < 7; i++) v[i] = 1L << 60;
    for (i = 0; i < 40; i++) {
        int fd = open(getenv("VT_COUNT"), O_RDONLY); long w[7]; int k, better = 0;
        if (fd >= 0) { if (pread(fd, m, 32, 0) < 0) m[1] = 0; close(fd); }
        w[0] = m[1]; w[1] = m[2]; w[2] = count("/proc/%d/fd", pid); w[3] = count("/proc/%d/task", pid); w[4] = children(pid); w[5] = vsz(pid); w[6] = stk(pid);
        for (k = 0; k < 7; k++) if (w[k] < v[k]) { v[k] = w[k]; better = 1; }
        if (!better && v[3] == 1 && v[4] == 1) break;
        if (!better && i > 3 && v[4] == 1) break;
        usleep(v[3] == 1 && v[4] == 1 ? 200 : 5000);
    }
    snprintf(o, sizeof o, "%s %ld %ld %ld %ld %ld %ld %ld %d\n", a[1], v[0], v[1], v[2], v[3], v[4], v[5], v[6], m[0] == pid);
    i = open(a[2], O_WRONLY | O_APPEND | O_CREAT, 0666);
    return write(i, o, strlen(o)) < 0;
}
