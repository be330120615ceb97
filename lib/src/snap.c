/* snap LOG TAG DIR... : append the complete state of the directory trees to LOG
   record: TAG \0 n \0 then n times: type \0 path \0 mode \0 len \0 content */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

static char *buf; static size_t len, cap; static int n;
static void put(const void *p, size_t k) {
    if (len + k > cap) { cap = (len + k) * 2; buf = realloc(buf, cap); }
    memcpy(buf + len, p, k); len += k;
}
static void puts0(const char *s) { put(s, strlen(s) + 1); }
static void walk(const char *path) {
    struct stat st; char t[2] = "?", num[32], data[1 << 16];
    if (lstat(path, &st)) return;
    size_t dl = 0; char *big = data;
    t[0] = S_ISREG(st.st_mode) ? 'f' : S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'o';
    if (t[0] == 'f') {
        int fd = open(path, O_RDONLY);
        if (fd < 0) t[0] = 'u';
        else {
            big = malloc(st.st_size + 1); ssize_t r;
            while (dl < (size_t)st.st_size && (r = read(fd, big + dl, st.st_size - dl)) > 0) dl += r;
            close(fd);
        }
    } else if (t[0] == 'l') { ssize_t r = readlink(path, data, sizeof data); dl = r > 0 ? r : 0; }
    n++; puts0(t); puts0(path);
    snprintf(num, sizeof num, "%o", (unsigned)(st.st_mode & 07777)); puts0(num);
    snprintf(num, sizeof num, "%zu", dl); puts0(num); put(big, dl);
    if (big != data) free(big);
    if (t[0] == 'd') {
        struct dirent **e; int i, c = scandir(path, &e, NULL, NULL);
        for (i = 0; i < c; i++) {
            if (strcmp(e[i]->d_name, ".") && strcmp(e[i]->d_name, "..")) {
                char *q; if (asprintf(&q, "%s/%s", path, e[i]->d_name) > 0) { walk(q); free(q); }
            }
        }
    }
}
int main(int argc, char **argv) {
    char num[32];
    for (int i = 3; i < argc; i++) walk(argv[i]);
    char *all = buf; size_t al = len; buf = NULL; len = cap = 0;
    puts0(argv[2]); snprintf(num, sizeof num, "%d", n); puts0(num); put(all, al);
    int fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0644);
    size_t o = 0; while (o < len) { ssize_t r = write(fd, buf + o, len - o); if (r <= 0) return 1; o += r; }
    return 0;
}
