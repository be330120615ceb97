/* Linked into the instrumented variants: between fork() and exec(), a child of a process with several threads must not
   ask the sanitizer's allocator for memory, it may have been locked by another thread (glibc's own is prepared for
   that, the sanitizer's is not). setvbuf() is the one call there that would. */
#include <stdio.h>
#include <unistd.h>

static pid_t owner;

__attribute__((constructor)) static void init(void) { owner = getpid(); }

int __real_setvbuf(FILE *f, char *b, int m, size_t n);

int __wrap_setvbuf(FILE *f, char *b, int m, size_t n)
{
    return getpid() == owner ? __real_setvbuf(f, b, m, n) : 0;
}
