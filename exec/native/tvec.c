#include "common.h"
#include <tvec.h>
static u64 pool[4][70]; static int cells; static u64 ref[3][70];
#define G 0xC0FFEE1234567890ULL
static void chkall(ToggleVector *v, int n, const char *w) {
    for (int k = 0; k < 3; k++) {
        if (pool[k][1] != G || pool[k][cells + 2] != G) fail("%s writes outside its vector", w);
        if (v[k].nthreads != n || v[k].cell != &pool[k][2] || v[k].tvec_cells != cells) fail("%s changes the header of a vector", w);
        for (int i = 0; i < cells; i++) if (v[k].cell[i] != ref[k][i]) fail("after %s word %d of operand %d is %lx, expected %lx", w, i, k, v[k].cell[i], ref[k][i]);
    }
}
void *__wrap_synchGetMemory(size_t n) { if (n < (size_t)cells * 8) fail("TVEC_INIT allocates %zu bytes for %d words", n, cells); return &pool[0][2]; }
static u64 rw(void) { switch (below(5)) { case 0: return 0; case 1: return ~0ULL; case 2: return 1ULL << below(64); case 3: return -(1ULL << below(64)); default: return rnd(); } }
static void one(void) {
    ToggleVector v[3]; static const int ns[] = { 1, 2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257 };
    int n = below(2) ? ns[below(18)] : 1 + below(4000); int big = n > 4000;
    cells = n / 64 + 1; (void)big;
    char w[100]; DESC("vectors of %d threads", n);
    for (int k = 0; k < 3; k++) { for (int i = 0; i < 70; i++) pool[k][i] = rnd(); }
    memset(v, 0xA5, sizeof v);
    for (int k = 0; k < 3; k++) {
        if (k == 0 && below(2)) TVEC_INIT(&v[k], n); else TVEC_INIT_AT(&v[k], n, &pool[k][2]);
        if (v[k].tvec_cells * 64 < n) fail("only %u words for %d threads", v[k].tvec_cells, n);
        if (v[k].tvec_cells != (uint32_t)cells) cells = v[k].tvec_cells;
        for (int i = 0; i < cells; i++) if (v[k].cell[i]) fail("a new vector is not empty (word %d is %lx)", i, v[k].cell[i]);
    }
    for (int k = 0; k < 3; k++) { pool[k][1] = G; pool[k][cells + 2] = G; for (int i = 0; i < cells; i++) v[k].cell[i] = ref[k][i] = rw(); }
    for (int step = 0; step < 40; step++) {
        int a = below(3), b = below(3), c = below(3), bit = below(n), bank = below(cells); int op = below(17); u64 m = 1ULL << (bit & 63);
        sprintf(w, "operation %d on vectors %d,%d,%d bit %d bank %d", op, a, b, c, bit, bank); DESC("vectors of %d threads, %s", n, w);
        switch (op) {
        case 0: TVEC_SET_ZERO(&v[a]); memset(ref[a], 0, cells * 8); break;
        case 1: if (a == b) break; TVEC_COPY(&v[a], &v[b]); memcpy(ref[a], ref[b], cells * 8); break;
        case 2: TVEC_NEGATIVE(&v[a], &v[b]); for (int i = 0; i < cells; i++) ref[a][i] = -ref[b][i]; break;
        case 3: TVEC_REVERSE_BIT(&v[a], bit); ref[a][bit / 64] ^= m; break;
        case 4: TVEC_SET_BIT(&v[a], bit); ref[a][bit / 64] |= m; break;
        case 5: if (TVEC_IS_SET(&v[a], bit) != ((ref[a][bit / 64] & m) != 0)) fail("TVEC_IS_SET(%d) is wrong for word %lx", bit, ref[a][bit / 64]); break;
        case 6: TVEC_OR(&v[a], &v[b], &v[c]); for (int i = 0; i < cells; i++) ref[a][i] = ref[b][i] | ref[c][i]; break;
        case 7: TVEC_AND(&v[a], &v[b], &v[c]); for (int i = 0; i < cells; i++) ref[a][i] = ref[b][i] & ref[c][i]; break;
        case 8: TVEC_XOR(&v[a], &v[b], &v[c]); for (int i = 0; i < cells; i++) ref[a][i] = ref[b][i] ^ ref[c][i]; break;
        case 9: TVEC_XOR_BANKS(&v[a], &v[b], &v[c], bank); ref[a][bank] = ref[b][bank] ^ ref[c][bank]; break;
        case 10: TVEC_AND_BANKS(&v[a], &v[b], &v[c], bank); ref[a][bank] = ref[b][bank] & ref[c][bank]; break;
        case 11: TVEC_NEGATIVE_BANK(&v[a], &v[b], bank); ref[a][bank] = -ref[b][bank]; break;
        case 12: TVEC_ATOMIC_COPY_BANKS(&v[a], &v[b], bank); ref[a][bank] = ref[b][bank]; break;
        case 13: TVEC_ATOMIC_ADD_BANK(&v[a], &v[b], bank); ref[a][bank] += ref[b][bank]; break;
        case 14: { u64 s = 0; for (int i = 0; i < cells; i++) s += __builtin_popcountll(ref[a][i]); int r = TVEC_COUNT_BITS(&v[a]); if (r != s) fail("TVEC_COUNT_BITS is %d, expected %lu", r, s); break; }
        case 15: if (TVEC_GET_BANK_OF_BIT(bit, n) != bit / 64) fail("TVEC_GET_BANK_OF_BIT(%d,%d) is %d", bit, n, TVEC_GET_BANK_OF_BIT(bit, n)); break;
        case 16: { /* a toggle as Sim does it */ ToggleVector *t = &v[b]; if (a == b) break; TVEC_SET_ZERO(t); TVEC_REVERSE_BIT(t, bit); if (ref[a][bit / 64] & m) TVEC_NEGATIVE(t, t);
            memset(ref[b], 0, cells * 8); ref[b][bit / 64] = ref[a][bit / 64] & m ? -m : m; TVEC_ATOMIC_ADD_BANK(&v[a], t, TVEC_GET_BANK_OF_BIT(bit, n)); ref[a][bit / 64] ^= m; break; }
        }
        chkall(v, n, w); covered(op * 1000003ULL + n * 7919ULL + a + 3 * b + 9 * c);
    }
}
