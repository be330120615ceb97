/* Writes and reads as told by its arguments, without any buffering: o:TEXT writes a line to the standard output,
   e:TEXT to the standard error, l copies one line of the standard input to the standard output, c copies all of it,
   x:N exits with N, s:N sleeps N milliseconds,
   g:N:L:T writes N numbered lines of at least L bytes marked T, h:N copies N lines, # tells how many bytes and lines
   there are to read and their hash, t:MS waits MS milliseconds before every write from now on. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>

static int delay;

static void put(int fd, const char *s, size_t n)
{
    if (delay)
        usleep(1000 * delay);
    while (n) {
        ssize_t k = write(fd, s, n);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            exit(90);
        s += k;
        n -= k;
    }
}

int main(int argc, char **argv)
{
    static char buf[65536];
    static unsigned crc[256];
    ssize_t k;

    for (unsigned i = 0; i < 256; i++) {
        crc[i] = i;
        for (int j = 0; j < 8; j++)
            crc[i] = crc[i] & 1 ? (crc[i] >> 1) ^ 0xedb88320u : crc[i] >> 1;
    }

    for (int i = 1; i < argc; i++) {
        char *a = argv[i];
        if (!strncmp(a, "o:", 2) || !strncmp(a, "e:", 2)) {
            snprintf(buf, sizeof buf, "%s\n", a + 2);
            put(a[0] == 'o' ? 1 : 2, buf, strlen(buf));
        } else if (!strcmp(a, "l")) {
            char c = 0;
            size_t m = 0;
            while (c != '\n' && m < sizeof buf && read(0, &c, 1) == 1)
                buf[m++] = c;
            put(1, buf, m);
        } else if (!strcmp(a, "c")) {
            while ((k = read(0, buf, sizeof buf)) > 0)
                put(1, buf, k);
        } else if (!strncmp(a, "g:", 2)) {
            int n = 0, l = 0;
            char t[64] = "", *o = buf;
            sscanf(a, "g:%d:%d:%63s", &n, &l, t);
            for (int j = 0; j < n; j++) {
                if (o + l + 100 > buf + sizeof buf) {
                    put(1, buf, o - buf);
                    o = buf;
                }
                char *b = o;
                o += sprintf(o, "%s%d:", t, j);
                while (o - b < l) {
                    *o = 'a' + (j + (o - b)) % 26;
                    o++;
                }
                *o++ = '\n';
            }
            put(1, buf, o - buf);
        } else if (!strncmp(a, "h:", 2)) {
            for (int n = atoi(a + 2); n > 0; n--) {
                char c = 0;
                size_t m = 0;
                while (c != '\n' && m < sizeof buf && read(0, &c, 1) == 1)
                    buf[m++] = c;
                put(1, buf, m);
            }
        } else if (!strcmp(a, "#")) {
            unsigned long long n = 0, l = 0;
            unsigned h = ~0u;
            while ((k = read(0, buf, sizeof buf)) > 0) {
                for (ssize_t j = 0; j < k; j++) {
                    h = (h >> 8) ^ crc[(h ^ buf[j]) & 255];
                    l += buf[j] == '\n';
                }
                n += k;
            }
            printf("sum %llu %llu %08x\n", n, l, ~h);
            fflush(stdout);
        } else if (!strncmp(a, "t:", 2)) {
            delay = atoi(a + 2);
        } else if (!strncmp(a, "x:", 2))
            return atoi(a + 2);
        else if (!strncmp(a, "s:", 2))
            usleep(1000 * atoi(a + 2));
    }
    return 0;
}
