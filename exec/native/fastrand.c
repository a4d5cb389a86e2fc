#include "common.h"
#include <fastrand.h>
static void one(void) {
    u64 k = below(4); uint32_t s;
    static const uint32_t sp[] = { 0, 1, 2, 3, 0x9068ffff, 0x90690000, 0x9068fffe, 0x464fffff, 0x46500000, 0x464ffffe, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x8c9fffff, 0x8c9ffffe, 0x8ca00000, 0x8c9ffffd, 65535, 65536 };
    s = k == 0 ? sp[below(20)] : k == 1 ? below(100000) : (uint32_t)rnd();
    int unseeded = runs == 0;
    if (!unseeded) synchFastRandomSetSeed(s);
    DESC(unseeded ? "no seed set" : "seed %u", s);
    int n = below(50) ? 40 : 5000;
    uint32_t prev = 0, same = 0, samelo = 0, zero = 0, bad = 0;
    for (int i = 0; i < n; i++) {
        uint32_t r = synchFastRandom32();
        if (i && r == prev) same++;
        /* the low half comes from the w generator alone, the high half (minus its carry) from z */
        if (i && (r & 0xffff) == (prev & 0xffff)) samelo++;
        if ((r & 0xffff) == 0) zero++;
        prev = r;
        if (i >= 30 && n == 40 && same >= (uint32_t)i) fail("the 32-bit generator repeats %u for ever", r);
        if (i >= 30 && n == 40 && samelo >= (uint32_t)i) fail("one of the two multiply-with-carry words is stuck (low half %u)", r & 0xffff);
    }
    long lp = -1; int ls = 0;
    for (int i = 0; i < 40; i++) { long r = synchFastRandom(); if (r < 0 || r >= SYNCH_RAND_MAX) fail("synchFastRandom returned %ld", r); if (r == lp) ls++; lp = r; }
    if (ls >= 38) fail("synchFastRandom repeats %ld for ever", lp);
    for (int i = 0; i < 200; i++) {
        uint32_t a = below(3) ? (uint32_t)rnd() >> below(32) : sp[below(20)], b = below(3) ? (uint32_t)rnd() >> below(32) : sp[below(20)];
        if (below(4) == 0) b = a + below(5);
        if (a > b) { uint32_t t = a; a = b; b = t; }
        uint32_t r = synchFastRandomRange32(a, b);
        if (r < a || r > b) fail("synchFastRandomRange32(%u,%u) returned %u", a, b, r);
        long x = (long)(rnd() >> (12 + below(50))), y = (long)(rnd() >> (12 + below(50)));
        if (below(2)) x = -x; if (below(2)) y = -y;
        if (below(4) == 0) y = x + below(5);
        if (x > y) { long t = x; x = y; y = t; }
        long q = synchFastRandomRange(x, y);
        if (q < x || q > y) fail("synchFastRandomRange(%ld,%ld) returned %ld", x, y, q);
        if (i < 12) covered(a * 31 + b * 7 + x + 3 * y + s);
    }
    /* ranges reach more than one of their values */
    uint32_t lo = below(1000), hi = lo + 20 + below(50), first = synchFastRandomRange32(lo, hi); int d = 0;
    for (int i = 0; i < 400; i++) if (synchFastRandomRange32(lo, hi) != first) d++;
    if (!d) fail("400 draws of synchFastRandomRange32(%u,%u) all return %u", lo, hi, first);
}
