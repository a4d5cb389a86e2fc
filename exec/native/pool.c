#include "common.h"
#include <pool.h>
#include <sys/mman.h>
static struct { char *p; size_t n; int freed; } blk[4000]; static int nb;
void *__wrap_synchGetAlignedMemory(size_t al, size_t n) {
    if (nb >= 4000) fail("the pool keeps allocating blocks");
    char *p = aligned_alloc(al, (n + al - 1) / al * al); memset(p, 0xA5, n < 65536 ? n : 4096); blk[nb].p = p; blk[nb].n = n; blk[nb].freed = 0; nb++; return p;
}
void *__wrap_synchGetMemory(size_t n) { return __wrap_synchGetAlignedMemory(64, n); }
void __wrap_synchFreeMemory(void *p, size_t n) {
    for (int i = 0; i < nb; i++) if (blk[i].p == p) { if (blk[i].freed++) fail("block %d is freed twice", i); if (n != blk[i].n) fail("block of %zu bytes freed as %zu bytes", blk[i].n, n); return; }
    fail("an address that is no block is freed");
}
typedef struct { char *p; int bump; u64 tag; } O;
static O live[70000], rec[70000]; static int nl, nr;
static size_t hdr = sizeof(SynchPoolBlockMetadata);
static void one(void) {
    static const uint32_t sz[] = { 0, 1, 4, 7, 8, 9, 12, 16, 24, 32, 48, 64, 100, 128, 255, 256, 511, 640, 1000, 1500, 2016 };
    uint32_t size = below(2) ? sz[below(21)] : 1 + below(2016), eff; SynchPoolStruct pool; int n = 1 + below(400), h = 0, bumps = 0; u64 tag = 1;
    for (int i = 0; i < nb; i++) free(blk[i].p);
    nb = nl = nr = 0;
    memset(&pool, 0xA5, sizeof pool);
    DESC("synchInitPool(%u)", size);
    int r = synchInitPool(&pool, size);
    if (r == SYNCH_POOL_INIT_ERROR) { if (nb) fail("a refused pool keeps memory"); if (size <= 2016) fail("object size refused"); return; }
    if (r != SYNCH_POOL_INIT_SUCC) fail("synchInitPool returned %d", r);
    eff = size < sizeof(void *) ? sizeof(void *) : size;
    int mode = below(4); char ops[1200]; ops[0] = 0;
    for (int k = 0; k < n; k++) {
        int c = below(10), cnt = 1;
        if (mode == 0) c = c < 9 ? 0 : 9; else if (mode == 1) c = c < 5 ? 0 : 5;
        if (c < 5) cnt = below(3) ? 1 : 1 + below(60);
        if (h < 1000) h += sprintf(ops + h, c < 5 ? "alloc*%d " : c < 8 ? "recycle " : "rollback ", cnt);
        DESC("synchInitPool(%u), then %s", size, ops);
        if (c < 5) while (cnt--) {
            char *p = synchAllocObj(&pool); int in = 0, re = 0;
            if (!p) fail("synchAllocObj returned NULL");
            for (int i = 0; i < nb; i++) if (!blk[i].freed && p >= blk[i].p && p + eff <= blk[i].p + blk[i].n) { in = 1; if (p < blk[i].p + hdr) fail("object overlaps the metadata of its block"); }
            if (!in) fail("object of %u bytes lies outside every block (%d blocks)", eff, nb);
            for (int i = 0; i < nl; i++) if (p < live[i].p + eff && live[i].p < p + eff) fail("object handed out while an overlapping object is in use (allocation %lu)", tag);
            for (int i = 0; i < nr; i++) if (rec[i].p == p) { rec[i] = rec[--nr]; re = 1; break; } 
            if (nr && !re) for (int i = 0; i < nr; i++) if (p < rec[i].p + eff && rec[i].p < p + eff) fail("object overlaps a recycled object that can still be handed out");
            live[nl].p = p; live[nl].tag = tag++; live[nl].bump = !re; nl++;
            for (uint32_t i = 0; i < eff; i++) p[i] = (char)(tag + i);
            covered(size * 1000003ULL + tag * 31 + k);
            if (nl > 60000) break;
        } else if (c < 8) {
            if (!nl) { if (below(4) == 0) synchRecycleObj(&pool, NULL); continue; }
            int i = below(nl); char *p = live[i].p;
            for (uint32_t j = 0; j < eff; j++) if (p[j] != (char)(live[i].tag + 1 + j)) fail("the contents of an object in use changed (byte %u)", j);
            synchRecycleObj(&pool, p); rec[nr++] = live[i];
            for (int j = i; j < nl - 1; j++) live[j] = live[j + 1];
            nl--; 
        } else {
            /* the newest allocations, all taken from a block (none recycled) and all still in use */
            int m = 0; while (m < nl && live[nl - 1 - m].bump && (m == 0 || live[nl - 1 - m].tag + 1 == live[nl - m].tag)) m++;
            if (!m || live[nl - 1].tag + 1 != tag) continue;
            int kk = below(3) ? 1 + below(m) : m;
            synchRollback(&pool, kk); nl -= kk; for (int j = 0; j < kk; j++) tag--;
            if (h < 1000) h += sprintf(ops + h, "of %d ", kk);
        }
        for (int t = 0; t < 3 && nl; t++) { int i = below(nl); for (uint32_t j = 0; j < eff; j++) if (live[i].p[j] != (char)(live[i].tag + 1 + j)) fail("the contents of an object in use changed (byte %u)", j); }
    }
    DESC("synchInitPool(%u), then %s, then synchDestroyPool", size, ops);
    synchDestroyPool(&pool);
    for (int i = 0; i < nb; i++) if (blk[i].freed != 1) fail("block %d of %d is not freed", i, nb);
}
