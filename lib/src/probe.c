/* Prints what a started program can observe of itself. Usage: probe [-o options] args...
   options: a arguments, e<NAME>, environment is printed with 'E', c current directory, f open descriptors,
   i standard input, x<code> exit code */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <signal.h>

extern char **environ;

static void hex(const char *tag, const char *s, size_t n)
{
    printf("%s ", tag);
    for (size_t i = 0; i < n; i++)
        printf("%02x", (unsigned char)s[i]);
    putchar('\n');
}

int main(int argc, char **argv)
{
    const char *o = getenv("PROBE");
    int code = 0;

    if (!o)
        o = "a";
    for (; *o; o++)
        switch (*o) {
        case 'a':
            for (int i = 1; i < argc; i++)
                hex("arg", argv[i], strlen(argv[i]));
            break;
        case 'E':
            for (char **e = environ; *e; e++)
                if (strncmp(*e, "PROBE=", 6))
                    hex("env", *e, strlen(*e));
            break;
        case 'c': {
            char buf[8192];
            if (getcwd(buf, sizeof buf))
                hex("cwd", buf, strlen(buf));
            break;
        }
        case 'f': {
            struct stat st;
            for (int i = 0; i < 1024; i++)
                if (!fstat(i, &st))
                    printf("fd %d %d\n", i, (int)(st.st_mode & S_IFMT));
            break;
        }
        case 'i': {
            char buf[4096];
            size_t n;
            while ((n = fread(buf, 1, sizeof buf, stdin)) > 0)
                hex("in", buf, n);
            break;
        }
        case 'z': { /* children of our parent nobody waited for */
            DIR *d = opendir("/proc");
            struct dirent *e;
            int n = 0, pp;
            char nm[300], st, b[600];
            while (d && (e = readdir(d))) {
                FILE *fh;
                snprintf(nm, sizeof nm, "/proc/%s/stat", e->d_name);
                if (e->d_name[0] < '0' || e->d_name[0] > '9' || !(fh = fopen(nm, "r")))
                    continue;
                if (fgets(b, sizeof b, fh) && strrchr(b, ')') && sscanf(strrchr(b, ')') + 1, " %c %d", &st, &pp) == 2
                    && pp == getppid() && st == 'Z')
                    n++;
                fclose(fh);
            }
            if (d)
                closedir(d);
            printf("zombies %d\n", n);
            break;
        }
        case 's': { /* ignored signals */
            char b[600];
            FILE *fh = fopen("/proc/self/status", "r");
            while (fh && fgets(b, sizeof b, fh))
                if (!strncmp(b, "SigIgn:", 7))
                    fputs(b, stdout);
            if (fh)
                fclose(fh);
            break;
        }
        case 't': { /* arguments to stderr */
            for (int i = 1; i < argc; i++)
                fprintf(stderr, "%s%c", argv[i], i + 1 < argc ? ' ' : '\n');
            break;
        }
        case 'k': /* end by the signal given as argument */
            fflush(stdout);
            if (argc > 1) {
                signal(atoi(argv[1]), SIG_DFL);
                raise(atoi(argv[1]));
            }
            break;
        case 'q': /* silently exit with the code given as argument */
            return argc > 1 ? atoi(argv[1]) : 0;
        case 'x':
            /* the exit code is the last argument */
            if (argc > 1)
                code = atoi(argv[argc - 1]);
            break;
        }
    return code;
}
