#include "common.h"
#include <uthreads.h>
#include <pthread.h>
/* trees of fibers: started with their argument exactly once, refused only when full, stacks freed once, waits complete */
static int max, started[4000], ended[4000], spawned, refused, running, nst; static long args[4000]; static struct { char *p; int freed; } stk[8000];
static __thread int dummy; static int budget, depth0, inmain; static char ops[600]; static int h;
void *__real_synchGetMemory(size_t n); void __real_synchFreeMemory(void *p, size_t n);
void *__wrap_synchGetMemory(size_t n) { char *p = malloc(n + 64); if (nst < 8000) { stk[nst].p = p; stk[nst].freed = 0; nst++; } memset(p, 0x5A, n); return p; }
void __wrap_synchFreeMemory(void *p, size_t n) {
    volatile char here; for (int i = nst - 1; i >= 0; i--) if (stk[i].p == p) { if (stk[i].freed++) fail("the stack of a fiber is freed twice"); if ((char *)&here > (char *)p && (char *)&here < (char *)p + n) fail("the stack of the running fiber is freed"); memset(p, 0xDD, n); return; }
    fail("memory that is no stack is freed");
}
static void step(void);
static void *body(void *a) {
    long id = ((long)a - 17) / 5; volatile long mark[8]; for (int i = 0; i < 8; i++) mark[i] = id * 100 + i;
    if (id < 0 || id >= spawned + 1 || (long)a != id * 5 + 17) fail("a fiber was started with argument %ld that was never given", (long)a);
    if (started[id]++) fail("fiber %ld was started twice", id);
    int k = below(6); while (k--) { step(); for (int i = 0; i < 8; i++) if (mark[i] != id * 100 + i) fail("the stack of fiber %ld was overwritten", id); }
    if (ended[id]++) fail("fiber %ld ended twice", id);
    running--; return NULL;
}
static void step(void) {
    int c = below(3);
    if (budget-- <= 0) return;
    if (c == 0 && spawned < 3900) {
        int id = spawned++; running++; args[id] = id * 5 + 17;
        if (h < 500) h += sprintf(ops + h, "spawn ");
        DESC("synchInitFibers(%d); %s", max, ops);
        int before = running - 1; int r = synchSpawnFiber(body, args[id]);
        if (r == -1) { if (started[id]) fail("a refused fiber ran"); spawned--; running--; if (before + 1 < max) fail("a spawn is refused with %d of %d places taken", before + 1, max); }
        else { if (before + 1 >= max) fail("a spawn is accepted although all %d places are taken", max); }
    } else { if (h < 500) h += sprintf(ops + h, "yield "); DESC("synchInitFibers(%d); %s", max, ops); int f = synchCurrentFiberIndex(); synchFiberYield(); if (f != synchCurrentFiberIndex()) fail("a fiber continues as fiber %d instead of %d", synchCurrentFiberIndex(), f); if (f < 0 || f >= max) fail("fiber index %d of %d", f, max); }
}
static void *thread(void *x) {
    synchInitFibers(max);
    int k = 1 + below(12); while (k--) step();
    synchWaitForAllFibers();
    if (running) fail("synchWaitForAllFibers returned while %d fibers have not finished", running);
    for (int i = 0; i < spawned; i++) if (started[i] != 1 || ended[i] != 1) fail("fiber %d started %d times, ended %d times", i, started[i], ended[i]);
    if (below(2)) { int k = 1 + below(6); while (k--) step(); synchWaitForAllFibers(); if (running) fail("a later synchWaitForAllFibers returned while %d fibers have not finished", running); for (int i = 0; i < spawned; i++) if (started[i] != 1 || ended[i] != 1) fail("fiber %d started %d times, ended %d times", i, started[i], ended[i]); }
    return NULL;
}
static void one(void) {
    for (int i = 0; i < nst; i++) free(stk[i].p);
    max = 1 + below(below(2) ? 4 : 12); spawned = refused = running = nst = h = 0; ops[0] = 0; budget = 150; memset(started, 0, sizeof started); memset(ended, 0, sizeof ended);
    DESC("synchInitFibers(%d)", max);
    pthread_t t; pthread_create(&t, NULL, thread, NULL); pthread_join(t, NULL); covered(max * 1000003 + spawned * 31 + h64(h));
}
