#include "common.h"
#include <primitives.h>
#include <sys/wait.h>
static struct { char *p; size_t n; } last; static int failing, freed; static size_t fsize; static char *fptr;
void *__real_malloc(size_t n); void __real_free(void *p);
static char *sys(size_t n, size_t al, size_t skew) {
    if (failing) { last.p = NULL; return NULL; }
    static char *buf[64]; static int k; static size_t cap[64]; k = (k + 1) % 64; __real_free(buf[k]);
    buf[k] = __real_malloc(n + 2 * 65536); char *p = (char *)(((uintptr_t)buf[k] + 65535) & ~(uintptr_t)65535) + skew;
    last.p = p; last.n = n; return p;
}
static size_t page = 4096;
void *__wrap_numa_alloc_local(size_t n) { return sys(n, 4096, below(15) * 4096); }
void *__wrap_numa_alloc_onnode(size_t n, int k) { return sys(n, 4096, below(15) * 4096); }
void *__wrap_malloc(size_t n); void *__real_malloc(size_t n);
static int armed;
void *__wrap_malloc(size_t n) { return armed ? sys(n, 16, below(4095) * 16) : __real_malloc(n); }
void *__wrap_memalign(size_t al, size_t n) { return sys(n, al, al < 65536 ? (below(65536 / al)) * al : 0); }
int __wrap_posix_memalign(void **q, size_t al, size_t n) { *q = __wrap_memalign(al, n); return *q ? 0 : 12; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return __wrap_memalign(al, n); }
void __real_free(void *p);
void __wrap_free(void *p) { if (armed) { freed++; fptr = p; } else __real_free(p); }
void __wrap_numa_free(void *p, size_t n) { freed++; fptr = p; fsize = n; }
static void one(void) {
    int a = below(17); size_t al = 1UL << a, n = below(4) == 0 ? 1 + below(10) : 1 + below(1UL << (1 + below(17))); int al2 = below(2); char *p;
    DESC(al2 ? "synchGetAlignedMemory(align=%zu, size=%zu)" : "synchGetMemory(%3$zu)", al, n, n);
    if (al2 && al < 8) al = 8;
    if (below(40) == 0) { /* no memory left */
        DESC(al2 ? "synchGetAlignedMemory(align=%zu, size=%zu) when the system has no memory" : "synchGetMemory(%3$zu) when the system has no memory", al, n, n);
        pid_t c = fork(); if (c == 0) { failing = 1; freopen("/dev/null", "w", stderr); armed = 1; p = al2 ? synchGetAlignedMemory(al, n) : synchGetMemory(n); armed = 0; _exit(7); }
        int st; waitpid(c, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 7) fail("a pointer is returned although the allocation failed"); if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) fail("the program does not stop with an error (status %x)", st); covered(al * 131 + n); return;
    }
    last.p = NULL; armed = 1; p = al2 ? synchGetAlignedMemory(al, n) : synchGetMemory(n); armed = 0;
    if (!last.p) fail("no memory was requested from the system");
    if (p < last.p || p + n > last.p + last.n) fail("the system allocated [%p,%p), returned is [%p,%p)", last.p, last.p + last.n, p, p + n);
    if (al2 && ((uintptr_t)p & (al - 1))) fail("%p is not aligned to %zu", p, al);
    if (al2 == 0 && p != last.p) fail("%p is returned, the system allocated %p", p, last.p);
    freed = 0; fptr = NULL; fsize = n; armed = 1; synchFreeMemory(p, n); armed = 0;
    if (freed != 1) fail("%d addresses are freed", freed);
    if (fptr != p || fsize != n) fail("%p is freed (%zu bytes) instead of %p (%zu bytes)", fptr, fsize, p, n);
    if (al <= page && fptr != last.p) fail("%p is freed, the system allocated %p", fptr, last.p);
    covered(al * 1000003 + n + al2);
}
