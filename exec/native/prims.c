#include "common.h"
#include <primitives.h>
/* every primitive: result, new value of the location, neighbours untouched; then threads that use only one primitive of a kind */
#include <pthread.h>
static u64 w64(void) { switch (below(6)) { case 0: return 0; case 1: return ~0ULL; case 2: return 1ULL << below(64); case 3: return rnd() & 0xffffffff; case 4: return below(4); default: return rnd(); } }
#define G 0x1122334455667788ULL
static struct { u64 a; u64 v[2] __attribute__((aligned(16))); u64 b; } __attribute__((aligned(16))) m;
#define NEIGH(what) if (m.a != G || m.b != G) fail(what " writes beyond its location")
static volatile i64 c64; static volatile int32_t c32; static void *volatile cp; static u64 got[4][20000]; static volatile u64 bits;
static int kind, per = 3000;
static void *worker(void *x) {
    long t = (long)x;
    for (int k = 0; k < per; k++) switch (kind) {
        case 0: got[t][k] = synchFAA64(&c64, 3); break;
        case 1: got[t][k] = (u64)(uint32_t)synchFAA32(&c32, 3); break;
        case 2: got[t][k] = (u64)synchSWAP(&cp, (void *)(1 + t * per + k)); break;
        case 3: for (;;) { i64 o = c64; if (synchCAS64(&c64, o, o + 3)) { got[t][k] = o; break; } } break;
        case 4: for (;;) { int32_t o = c32; if (synchCAS32(&c32, o, o + 3)) { got[t][k] = (uint32_t)o; break; } } break;
        case 5: for (;;) { void *o = (void *)cp; if (synchCASPTR(&cp, o, (void *)(1 + t * per + k))) { got[t][k] = (u64)o; break; } } break;
        case 6: for (;;) { u64 o0 = m.v[0], o1 = m.v[1]; if (synchCAS128(m.v, o0, o1, o0 + 3, o1 + 5)) { got[t][k] = o0; break; } } break;
    }
    return NULL;
}
static int cmp(const void *a, const void *b) { u64 x = *(u64 *)a, y = *(u64 *)b; return x < y ? -1 : x > y; }
static void threads(void) {
    static u64 all[80000]; pthread_t t[4]; static int nth = 0; kind = nth++ % 7; c64 = 0; c32 = 0; cp = 0; m.v[0] = m.v[1] = 0;
    DESC("4 threads, %d times each, primitive kind %d", per, kind);
    for (long i = 0; i < 4; i++) pthread_create(&t[i], NULL, worker, (void *)i);
    for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
    int n = 0; for (int i = 0; i < 4; i++) for (int k = 0; k < per; k++) all[n++] = got[i][k];
    u64 fin = kind == 2 || kind == 5 ? (u64)cp : kind == 0 || kind == 3 ? c64 : kind == 6 ? m.v[0] : (uint32_t)c32;
    qsort(all, n, 8, cmp);
    if (kind == 6 && m.v[1] != 5ULL * n) fail("the second word of the 128-bit CAS is %lu, expected %lu", m.v[1], 5ULL * n);
    if (kind != 2 && kind != 5) { if (fin != 3ULL * n) fail("%d additions of 3 leave %lu", n, fin); for (int i = 0; i < n; i++) if (all[i] != 3ULL * i) fail("the returned old values are not those of a sequence of additions (%lu instead of %lu)", all[i], 3ULL * i); }
    else { all[n] = fin; qsort(all, n + 1, 8, cmp); for (int i = 0; i <= n; i++) if (all[i] != i) fail("a value is returned twice or lost (%lu instead of %d)", all[i], i); }
}
static void one(void) {
    m.a = m.b = G; u64 x = w64(), y = below(2) ? x : w64(), z = w64(), o; int op = below(9); bool r;
    if (runs % 20000 == 7) { threads(); return; }
    m.v[0] = x; m.v[1] = ~x;
    DESC("operation %d, location %lx, arguments %lx %lx", op, x, y, z);
    switch (op) {
    case 0: r = synchCAS64(&m.v[0], y, z); if (r != (x == y) || m.v[0] != (x == y ? z : x)) fail("CAS64 returns %d and leaves %lx", r, m.v[0]); break;
    case 1: r = synchCASPTR(&m.v[0], y, z); if (r != (x == y) || m.v[0] != (x == y ? z : x)) fail("CASPTR returns %d and leaves %lx", r, m.v[0]); break;
    case 2: { uint32_t a = x, b = y, c = z; uint32_t *p = (uint32_t *)&m.v[0]; r = synchCAS32(p, b, c); if (r != (a == b) || p[0] != (a == b ? c : a) || p[1] != x >> 32) fail("CAS32 returns %d and leaves %x %x", r, p[0], p[1]); break; }
    case 3: { u64 b1 = below(3) ? ~x : w64(), c1 = w64(); r = synchCAS128(m.v, y, b1, z, c1); bool e = x == y && b1 == ~x; if (r != e || m.v[0] != (e ? z : x) || m.v[1] != (e ? c1 : ~x)) fail("CAS128 (second words %lx %lx) returns %d and leaves %lx %lx", b1, c1, r, m.v[0], m.v[1]); m.v[1] = ~x; break; }
    case 4: o = (u64)synchSWAP(&m.v[0], z); if (o != x || m.v[0] != z) fail("SWAP returns %lx and leaves %lx", o, m.v[0]); break;
    case 5: { uint32_t *p = (uint32_t *)&m.v[0]; int32_t q = synchFAA32(p, (int32_t)y); if ((uint32_t)q != (uint32_t)x || p[0] != (uint32_t)x + (uint32_t)y || p[1] != x >> 32) fail("FAA32 returns %x and leaves %x %x", q, p[0], p[1]); break; }
    case 6: o = synchFAA64((i64 *)&m.v[0], (i64)y); if (o != x || m.v[0] != x + y) fail("FAA64 returns %lx and leaves %lx", o, m.v[0]); break;
    case 7: { int b = y & 63; DESC("BitTAS64, location %lx, bit %d", x, b); o = synchBitTAS64(&m.v[0], b); u64 k = 1ULL << b; if (m.v[0] != (x | k)) fail("BitTAS64 leaves %lx", m.v[0]); if (o != x && o != (x & k) && o != !!(x & k)) fail("BitTAS64 returns %lx", o); if (((o & k) != 0 || o == 1) != ((x & k) != 0) && o != x) fail("BitTAS64 returns %lx", o); break; }
    case 8: if (x && synchBitSearchFirst(x) != __builtin_ctzll(x)) fail("BitSearchFirst %d", (int)synchBitSearchFirst(x)); if (synchNonZeroBits(x) != __builtin_popcountll(x)) fail("NonZeroBits"); break;
    }
    if (m.v[1] != ~x) fail("the neighbouring word changed"); NEIGH("the operation"); covered(x * 31 + y * 7 + z + op);
}
