#include "common.h"
#include <backoff.h>
static bool over;
bool synchIsSystemOversubscribed(void) { return over; }
static u64 edges;
void __sanitizer_cov_trace_pc(void) { edges++; }
static unsigned pb, pc, ps;
static void ok(SynchBackoffStruct *b, const char *w) {
    unsigned lo = (1u << pb) - 1, hi = (1u << pc) - 1;
    if (b->backoff < lo || b->backoff > hi) fail("after %s the bound is %u, outside [%u,%u]", w, b->backoff, lo, hi);
    if (b->backoff_base != lo || b->backoff_cap != hi) fail("after %s the configured bounds are [%u,%u], expected [%u,%u]", w, b->backoff_base, b->backoff_cap, lo, hi);
}
static void one(void) {
    SynchBackoffStruct b; char hist[300]; int k, n = 1 + below(60), h = 0;
    pc = below(14) ? below(13) : 13 + below(18); pb = below(pc + 1); ps = below(5) ? below(4) : below(31);
    if (below(6) == 0) pb = pc;
    memset(&b, 0xA5, sizeof b);
    hist[0] = 0;
    synchInitBackoff(&b, pb, pc, ps); DESC("synchInitBackoff(base_bits=%u, cap_bits=%u, shift_bits=%u)", pb, pc, ps); ok(&b, "init");
    if (b.backoff != (1u << pb) - 1) fail("the first bound is %u, not the lower bound", b.backoff);
    for (k = 0; k < n; k++) {
        unsigned before = b.backoff; int c = below(8);
        DESC("synchInitBackoff(base_bits=%u, cap_bits=%u, shift_bits=%u), then %s and operation %s", pb, pc, ps, hist, c == 0 ? "reset" : c == 1 ? "reduce" : c == 2 ? "increase" : "delay");
        if (h < 250) h += sprintf(hist + h, "%c", "rdIDDDDD"[c]);
        if (c == 0) { synchResetBackoff(&b); ok(&b, "reset"); if (b.backoff != (1u << pb) - 1) fail("reset leaves the bound at %u", b.backoff); }
        else if (c == 1) { synchBackoffReduce(&b); ok(&b, "reduce"); if (b.backoff > before) fail("reduce raises the bound"); }
        else if (c == 2) { synchBackoffIncrease(&b); ok(&b, "increase"); if (b.backoff < before) fail("increase lowers the bound"); }
        else {
            if (before > 300000 && below(20)) continue;
            over = below(5) == 0; edges = 0; synchBackoffDelay(&b); ok(&b, "delay");
            if (edges > 4ULL * before + 64) fail("a delay with bound %u ran more than %lu steps", before, edges);
        }
    }
    covered(((u64)pb << 40) ^ ((u64)pc << 20) ^ ps ^ ((u64)h64((u64)strlen(hist) * 31 + hist[0]) << 48));
}
