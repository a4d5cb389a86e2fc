#define _GNU_SOURCE
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <link.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <errno.h>
#include <time.h>

#define MAXT 160
#define STK (128 * 1024)
#define ARENA_SZ (768UL << 20)
#define MAXOPS 512

int rt_n, rt_fibers = 1, rt_cur; u64 rt_step; volatile int rt_active;
static u64 rng[2];
u64 rt_rand(void) { u64 a = rng[0], b = rng[1]; rng[0] = b; a ^= a << 23; rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rng[1] + b; }
static void seed(u64 s) { for (int i = 0; i < 2; i++) { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; rng[i] = z ^ (z >> 31); } }

/* ---------------------------------------------------------------- coroutines */
typedef struct { void *sp; char *stack; int done; u64 frozen_until; char *tls; } Co;
static Co co[MAXT]; static Co mainco;
static char *tls_base; static size_t tls_sz; static char *tls_init;
extern void rt_switch(void **from, void *to);
__asm__(".text\n.globl rt_switch\nrt_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static int phdr(struct dl_phdr_info *i, size_t sz, void *d) {
    if (tls_base) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_base = i->dlpi_tls_data; tls_sz = i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static char *arena, *shadow; static size_t arena_top, arena_hi;
static char *stacks;
static struct { int status; char msg[4000]; char trace[60000]; u64 runs; u64 steps; u64 ops; u64 inconclusive, distinct; char sample[3000]; u64 seen[1 << 18]; } *shm;
static int run_over;
static char curdesc[512];
static int verbose_trace;

static void tswitch(int to) {
    int from = rt_cur;
    if (from == to) return;
    if (tls_sz) {
        memcpy(co[from].tls, tls_base, tls_sz);
        memcpy(tls_base, co[to].tls, tls_sz);
    }
    rt_cur = to;
    rt_switch(&co[from].sp, co[to].sp);
}
static u64 countdown, pmean; static int freeze_p; static u64 last_progress, hang_limit;
static int live; static int groups_cur[MAXT];
static int group_of(int t) { return t / rt_fibers; }

/* operations log */
typedef struct { int pid, op; i64 a, b, ret; u64 inv, res; int state; int applied; i64 sres; } Op;
static Op ops[MAXOPS * 4]; static int nops;

static void dump_hist(char *buf, size_t n) {
    size_t k = 0;
    static const char *nm[7][3] = { {"apply"}, {"apply"}, {"section"}, {"push", "pop"}, {"enqueue", "dequeue"}, {"insert", "search", "delete"}, {"wait", "leave", "lastleave"} };
    for (int i = 0; i < nops && k + 200 < n; i++) {
        Op *o = &ops[i];
        k += snprintf(buf + k, n - k, "  thread %d %s(", o->pid, nm[OBJ.kind][o->op]);
        if (OBJ.kind == K_MAP) k += snprintf(buf + k, n - k, "key=%ld,value=%ld", o->a, o->b); else if (o->op == 0 && OBJ.kind != K_LOCK) k += snprintf(buf + k, n - k, "%ld", o->a);
        k += snprintf(buf + k, n - k, ") invoked@%lu ", o->inv);
        if (o->res) k += snprintf(buf + k, n - k, "returned@%lu value=%ld\n", o->res, o->ret); else k += snprintf(buf + k, n - k, "pending\n");
    }
}
void rt_fail(const char *fmt, ...) {
    if (shm->status == 0) {
        va_list ap; va_start(ap, fmt);
        char b[1500]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        snprintf(shm->msg, sizeof shm->msg, "%s [thread %d, step %lu; %s]", b, rt_cur, rt_step, curdesc);
        dump_hist(shm->trace, sizeof shm->trace);
        shm->status = 1;
    }
    _exit(3);
}
static void pick_countdown(void) { countdown = 1 + (pmean > 1 ? rt_below(2 * pmean - 1) : 0); }
static int runnable(int t) { return !co[t].done && groups_cur[group_of(t)] == t; }
static void schedule(int must) {
    /* choose another thread */
    int cand[MAXT], n = 0;
    for (int t = 0; t < rt_n; t++) if (runnable(t) && t != rt_cur && co[t].frozen_until <= rt_step) cand[n++] = t;
    if (n == 0) {
        if (!co[rt_cur].done && runnable(rt_cur) && (!must)) { pick_countdown(); return; }
        for (int t = 0; t < rt_n; t++) if (runnable(t) && t != rt_cur) { cand[n++] = t; }
        if (n == 0) { pick_countdown(); return; }
    }
    int t = cand[rt_below(n)];
    co[t].frozen_until = 0;
    if (freeze_p && !co[rt_cur].done && rt_below(freeze_p) == 0) co[rt_cur].frozen_until = rt_step + (1ULL << rt_below(14));
    pick_countdown();
    tswitch(t);
}
void rt_yield(void) {
    if (!rt_active) return;
    rt_step++;
    if (rt_step - last_progress > hang_limit) rt_fail("no operation completes: %lu steps without progress (a hand-over was lost or a structure is cyclic)", hang_limit);
    if (--countdown == 0) schedule(0);
}
void synchResched(void) {
    if (!rt_active) return;
    rt_step++;
    if (rt_step - last_progress > hang_limit) rt_fail("no operation completes: %lu steps without progress (a hand-over was lost or a structure is cyclic)", hang_limit);
    if (rt_fibers > 1) {
        int g = group_of(rt_cur), t = rt_cur;
        for (int k = 1; k <= rt_fibers; k++) { int c = g * rt_fibers + (rt_cur - g * rt_fibers + k) % rt_fibers; if (c < rt_n && !co[c].done) { t = c; break; } }
        groups_cur[g] = t;
        if (t != rt_cur) { if (rt_below(2)) { tswitch(t); return; } }
    }
    schedule(1);
}
/* thread-placement stand-ins */
int32_t synchGetThreadId(void) { return rt_cur; }
int32_t synchGetPosixThreadId(void) { return rt_cur / rt_fibers; }
static int fake_cores, fake_oversub, fake_cpn;
int32_t synchGetPreferredCore(void) { return rt_cur % (fake_cores ? fake_cores : 1); }
int32_t synchGetPreferredNumaNode(void) { return (rt_cur % (fake_cores ? fake_cores : 1)) / (fake_cpn ? fake_cpn : 1); }
uint32_t synchPreferredCoreOfThread(uint32_t pid) { return pid % fake_cores; }
uint32_t synchPreferredNumaNodeOfThread(uint32_t pid) { return (pid % fake_cores) / fake_cpn; }
uint32_t synchGetNCores(void) { return fake_cores; }
bool synchIsSystemOversubscribed(void) { return fake_oversub; }
int __wrap_numa_num_task_nodes(void) { return (fake_cores + fake_cpn - 1) / fake_cpn; }
int __wrap_numa_node_of_cpu(int c) { return c / fake_cpn; }

/* ---------------------------------------------------------------- checked heap */
static void *arena_alloc(size_t n, size_t align, int zero) {
    if (align < 16) align = 16;
    size_t p = (arena_top + 64 + align - 1) & ~(align - 1);
    if (p + n + 64 > ARENA_SZ) { shm->status = 2; snprintf(shm->msg, sizeof shm->msg, "arena exhausted"); _exit(4); }
    arena_top = p + n; if (arena_top > arena_hi) arena_hi = arena_top;
    memset(shadow + p, 1, n);
    memset(arena + p, zero ? 0 : 0xA5, n);
    return arena + p;
}
static size_t sizes_at(char *p) { size_t o = p - arena, n = 0; while (o + n < ARENA_SZ && shadow[o + n] == 1) n++; return n; }
static void arena_free(void *p) {
    char *c = p;
    if (c < arena || c >= arena + ARENA_SZ) return;
    size_t n = sizes_at(c);
    memset(shadow + (c - arena), 2, n);
}
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = arena_alloc(n, al, 0); return 0; }
void *__wrap_malloc(size_t n) { return arena_alloc(n, 16, 0); }
void *__wrap_calloc(size_t a, size_t b) { return arena_alloc(a * b, 16, 1); }
void *__wrap_aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al, 0); }
void __wrap_free(void *p) { arena_free(p); }
void *__wrap_numa_alloc_local(size_t n) { return arena_alloc(n, 4096, 1); }
void *__wrap_numa_alloc_onnode(size_t n, int k) { return arena_alloc(n, 4096, 1); }
void __wrap_numa_free(void *p, size_t n) { arena_free(p); }
static inline void chk(void *a, size_t n, int w) {
    char *c = a;
    if (c >= arena && c < arena + ARENA_SZ) {
        size_t o = c - arena;
        if (shadow[o] != 1 || shadow[o + n - 1] != 1) rt_fail("%s of %zu bytes %s", w ? "write" : "read", n, shadow[o] == 2 ? "in freed memory" : "outside every allocated block");
    }
}
static inline int is_private(void *a) { char *c = a; return (c >= stacks && c < stacks + (size_t)MAXT * STK) || (c >= tls_base && c < tls_base + tls_sz); }
#define ACC(a, n, w) do { if (!is_private(a)) { chk(a, n, w); rt_yield(); } } while (0)
#define RW(N) \
 void __tsan_read##N(void *a) { ACC(a, N, 0); } void __tsan_write##N(void *a) { ACC(a, N, 1); } \
 void __tsan_unaligned_read##N(void *a) { ACC(a, N, 0); } void __tsan_unaligned_write##N(void *a) { ACC(a, N, 1); } \
 void __tsan_read_write##N(void *a) { ACC(a, N, 1); } void __tsan_unaligned_read_write##N(void *a) { ACC(a, N, 1); } \
 void __tsan_volatile_read##N(void *a) { ACC(a, N, 0); } void __tsan_volatile_write##N(void *a) { ACC(a, N, 1); } \
 void __tsan_unaligned_volatile_read##N(void *a) { ACC(a, N, 0); } void __tsan_unaligned_volatile_write##N(void *a) { ACC(a, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) ACC(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { if (n) ACC(a, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { rt_yield(); }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { ACC((void *)s, n, 0); ACC(d, n, 1); size_t h = rt_active ? n / 2 : 0; memmove(d, s, h); if (h) rt_yield(); memmove((char *)d + h, (char *)s + h, n - h); } return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { ACC((void *)s, n, 0); ACC(d, n, 1); memmove(d, s, n); } return d; }
void *__tsan_memset(void *d, int v, size_t n) { if (n) { ACC(d, n, 1); memset(d, v, n); } return d; }
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *a, int m) { ACC((void *)a, B / 8, 0); return *a; } \
 void __tsan_atomic##B##_store(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int m) { ACC((void *)a, B / 8, 1); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int n) { ACC((void *)a, B / 8, 1); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int n) { ACC((void *)a, B / 8, 1); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int m, int n) { ACC((void *)a, B / 8, 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int m) { rt_yield(); }
void __tsan_atomic_signal_fence(int m) {}

/* ---------------------------------------------------------------- client functions and oracles */
int rt_state_is_object; i64 rt_state[16]; i64 *rt_state_loc;
static volatile int in_cs = -1; static i64 seqno;
static i64 mix(i64 s, i64 a) { u64 z = (u64)s * 6364136223846793005ULL + (u64)a * 2862933555777941757ULL + 1442695040888963407ULL; z ^= z >> 29; return (i64)z; }
i64 rt_spec_init(void) { return 0; }
int rt_specmode;
static i64 specf(i64 s, i64 a) { return rt_specmode == 0 ? mix(s, a) : rt_specmode == 1 ? s + a : rt_specmode == 2 ? a : (i64)(int32_t)((uint32_t)s + (uint32_t)a); }
static int entered[MAXT], left_[MAXT];
static i64 apply_once(i64 arg, int pid) {
    if (in_cs != -1) rt_fail("two threads execute client functions at the same time (%d and %d)", in_cs, rt_cur);
    in_cs = rt_cur;
    int k = -1;
    for (int i = 0; i < nops; i++) if (ops[i].state == 1 && ops[i].a == arg) { k = i; break; }
    if (k < 0) {
        for (int i = 0; i < nops; i++) if (ops[i].a == arg) rt_fail("request with argument %ld executed after its operation returned", arg);
        rt_fail("client function called with argument %ld that nobody announced", arg);
    }
    if (ops[k].applied) rt_fail("request (thread %d, argument %ld) executed twice", ops[k].pid, arg);
    if (ops[k].pid != pid) rt_fail("request of thread %d executed with pid %d", ops[k].pid, pid);
    ops[k].applied = 1;
    for (int i = 0; i < 3; i++) rt_yield();
    i64 s = rt_state[0]; rt_yield(); rt_state[0] = mix(s, arg); rt_yield();
    ops[k].sres = s;
    in_cs = -1;
    return s;
}
i64 rt_sfunc(void *state, i64 arg, int pid) {
    if (OBJ.kind == K_SPEC) { /* may be executed speculatively on private copies */
        i64 *p = state; i64 s = *p; rt_yield(); *p = mix(s, arg); return s;
    }
    if (state != (void *)rt_state) rt_fail("client function called with a wrong state pointer");
    return apply_once(arg, pid);
}
i64 rt_sfunc2(i64 arg, int pid) { return apply_once(arg, pid); }

/* value pool */
static i64 special(void) {
    static const i64 sp[] = { 0, 1, -1, -2, 2, INT_MAX, INT_MIN, (i64)INT_MAX + 1, (i64)INT_MIN - 1, UINT_MAX, LONG_MAX, LONG_MIN + 2, LONG_MAX - 1, 1L << 31, 1L << 32, 63, 64, 65, 0x5A5A5A5A5A5A5A5AL };
    return sp[rt_below(sizeof sp / sizeof *sp)];
}
static int per_thread_ops, valmode, opmode, keyrange;
static i64 newval(int id) { return valmode == 0 ? 1000 + id : valmode == 1 ? special() : (i64)(rt_rand() % 5) - 2; }

static int begin(int pid, int op, i64 a, i64 b) {
    Op *o = &ops[nops]; memset(o, 0, sizeof *o);
    o->pid = pid; o->op = op; o->a = a; o->b = b; o->inv = ++rt_step; o->state = 1;
    return nops++;
}
static void end(int i, i64 ret) {
    ops[i].ret = ret; ops[i].res = ++rt_step; ops[i].state = 2; last_progress = rt_step; shm->ops++;
}
static void body(int pid) {
    OBJ.tinit(pid);
    for (int k = 0; k < per_thread_ops; k++) {
        int id = nops;
        switch (OBJ.kind) {
        case K_COMB: case K_SPEC: {
            i64 arg = OBJ.kind == K_SPEC && rt_specmode && valmode == 1 ? special() : OBJ.kind == K_COMB || valmode == 0 ? (i64)(pid * 1000 + k + 1) * (valmode == 1 ? -77777777777L : 1) : 7000 + id * 31;
            int i = begin(pid, 0, arg, 0);
            i64 r = OBJ.op(pid, 0, arg, 0);
            if (OBJ.kind == K_COMB) {
                if (!ops[i].applied) rt_fail("operation of thread %d returned before its request was executed", pid);
                if (r != ops[i].sres) rt_fail("operation of thread %d (argument %ld) returned %ld, its request's result is %ld", pid, arg, r, ops[i].sres);
            }
            end(i, r);
            break; }
        case K_LOCK: {
            int i = begin(pid, 0, 0, 0);
            OBJ.op(pid, 0, 0, 0);
            if (in_cs != -1) rt_fail("lock acquired by thread %d while thread %d holds it", pid, in_cs);
            in_cs = pid;
            for (int j = rt_below(6); j >= 0; j--) rt_yield();
            if (in_cs != pid) rt_fail("mutual exclusion violated");
            in_cs = -1;
            OBJ.op(pid, 1, 0, 0);
            end(i, 0);
            break; }
        case K_STACK: case K_QUEUE: {
            int op = opmode == 0 ? (k & 1) : opmode == 1 ? rt_below(2) : opmode == 2 ? rt_below(4) == 0 : opmode == 3 ? (k >= per_thread_ops / 2) : (int)((pid + k) & 1);
            i64 v = op == 0 ? newval(id) : 0;
            int i = begin(pid, op, v, 0);
            i64 r = OBJ.op(pid, op, v, 0);
            end(i, r);
            break; }
        case K_BARRIER: {
            int i = begin(pid, 0, 0, 0);
            entered[pid] = k + 1;
            OBJ.op(pid, 0, 0, 0);
            for (int j = 0; j < rt_n; j++) if (entered[j] < k + 1) rt_fail("thread %d is released from round %d although thread %d has not entered it", pid, k + 1, j);
            end(i, 0);
            break; }
        case K_MAP: {
            int op = opmode == 0 ? rt_below(3) : opmode == 1 ? (rt_below(2) ? 0 : (int)rt_below(3)) : k < per_thread_ops / 2 ? 0 : 1 + rt_below(2);
            i64 key = valmode == 1 ? special() : valmode == 0 ? (i64)rt_below(keyrange) : (i64)rt_below(keyrange) - keyrange / 2;
            i64 v = 1 + id;
            int i = begin(pid, op, key, v);
            i64 r = OBJ.op(pid, op, key, v);
            end(i, r);
            break; }
        }
    }
}
static void entry(void) {
    body(rt_cur);
    if (OBJ.kind == K_BARRIER && opmode == 0) {   /* the final leave, as synchJoinThreadsN does it */
        if (rt_cur) { left_[rt_cur] = 1; OBJ.op(rt_cur, 1, 0, 0); }
        else { OBJ.op(0, 2, 0, 0); for (int j = 1; j < rt_n; j++) if (!left_[j]) rt_fail("synchBarrierLastLeave returned before thread %d left", j); }
    }
    co[rt_cur].done = 1; live--; last_progress = rt_step;
    if (rt_fibers > 1) {
        int g = group_of(rt_cur);
        for (int k = 1; k <= rt_fibers; k++) { int c = g * rt_fibers + (rt_cur - g * rt_fibers + k) % rt_fibers; if (c < rt_n && !co[c].done) { groups_cur[g] = c; break; } }
    }
    if (live == 0) { void *d; rt_active = 0; rt_switch(&d, mainco.sp); }
    for (;;) schedule(1);
}

/* linearizability (Wing-Gong search with memo) */
static u64 *memo; static size_t memo_n; static u64 lin_budget;
#define MEMO_CAP (1u << 17)
static int memo_add(u64 h) { if (!h) h = 1; size_t i = h & (MEMO_CAP - 1); while (memo[i]) { if (memo[i] == h) return 0; i = (i + 1) & (MEMO_CAP - 1); } if (memo_n < MEMO_CAP / 2) { memo[i] = h; memo_n++; } return 1; }
static int lin_done; static char taken[MAXOPS * 4];
typedef struct { i64 k, v; } KV;
static i64 sbuf[2 * MAXOPS * 4]; static int shead, stail; static KV mp[MAXOPS]; static int nmp;
static u64 h64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static u64 zob[MAXOPS * 4];
static u64 sthash(void) {
    u64 h = 0x1234;
    if (OBJ.kind == K_MAP) { for (int i = 0; i < nmp; i++) h += h64((u64)mp[i].k * 0x9E3779B97F4A7C15ULL + h64(mp[i].v)); return h; }
    for (int i = shead; i < stail; i++) h = h64(h ^ (u64)sbuf[i]) + i - shead;
    return h;
}
static int best;
static int lin(int cnt, u64 th) {
    if (cnt == nops) return 1;
    if (cnt > best) best = cnt;
    if (lin_budget-- == 0) return -1;
    if (!memo_add(th ^ h64(sthash()))) return 0;
    u64 minres = ~0ULL;
    for (int i = 0; i < nops; i++) if (!taken[i] && ops[i].res && ops[i].res < minres) minres = ops[i].res;
    int unk = 0;
    int cand[MAXOPS], nc = 0;
    for (int i = 0; i < nops && nc < MAXOPS; i++) if (!taken[i] && ops[i].inv <= minres) cand[nc++] = i;
    if (OBJ.kind == K_QUEUE) { /* gets first; puts by the time their value is taken out (heuristic order only) */
        u64 key[MAXOPS];
        for (int c = 0; c < nc; c++) {
            Op *o = &ops[cand[c]]; u64 k = ~0ULL;
            if (o->op == 1) k = 0; else for (int j = 0; j < nops; j++) if (!taken[j] && ops[j].op == 1 && ops[j].ret == o->a && ops[j].res < k) k = ops[j].res;
            key[c] = k;
        }
        for (int c = 1; c < nc; c++) { int x = cand[c]; u64 kx = key[c]; int d = c - 1; while (d >= 0 && key[d] > kx) { cand[d + 1] = cand[d]; key[d + 1] = key[d]; d--; } cand[d + 1] = x; key[d + 1] = kx; }
    }
    for (int ci = 0; ci < nc; ci++) {
        int i = cand[ci];
        Op *o = &ops[i];
        int ok = 1, undo = 0; i64 sv = 0; int sk = -1; KV old;
        if (OBJ.kind == K_STACK) {
            if (o->op == 0) { sbuf[stail++] = o->a; undo = 1; }
            else if (shead == stail) ok = o->ret == EMPTY;
            else if (sbuf[stail - 1] == o->ret) { sv = sbuf[--stail]; undo = 2; }
            else ok = 0;
        } else if (OBJ.kind == K_QUEUE) {
            if (o->op == 0) { sbuf[stail++] = o->a; undo = 1; }
            else if (shead == stail) ok = o->ret == EMPTY;
            else if (sbuf[shead] == o->ret) { shead++; undo = 3; }
            else ok = 0;
        } else if (OBJ.kind == K_MAP) {
            for (int j = 0; j < nmp; j++) if (mp[j].k == o->a) sk = j;
            if (o->op == 0) { ok = o->ret == 1; if (ok) { if (sk >= 0) { old = mp[sk]; mp[sk].v = o->b; undo = 4; } else { mp[nmp].k = o->a; mp[nmp].v = o->b; nmp++; undo = 5; } } }
            else if (o->op == 1) ok = o->ret == (sk >= 0);
            else if (sk >= 0) { old = mp[sk]; mp[sk] = mp[nmp - 1]; nmp--; undo = 6; }
        } else { /* fetch-and-mix object */
            if (o->ret != rt_state[8]) ok = 0; else { sv = rt_state[8]; rt_state[8] = specf(sv, o->a); undo = 7; }
        }
        if (ok) {
            taken[i] = 1;
            int r = lin(cnt + 1, th ^ zob[i]);
            if (r == 1) return 1;
            if (r < 0) unk = 1;
            taken[i] = 0;
        }
        switch (undo) { case 1: stail--; break; case 2: sbuf[stail++] = sv; break; case 3: shead--; break; case 4: mp[sk] = old; break; case 5: nmp--; break;
            case 6: mp[nmp] = mp[sk]; mp[sk] = old; nmp++; break; case 7: rt_state[8] = sv; break; }
        if (unk) return -1;
    }
    return 0;
}
static int cmpres(const void *a, const void *b) { const Op *x = a, *y = b; return x->res < y->res ? -1 : x->res > y->res; }
static void check_history(void) {
    if (OBJ.kind == K_LOCK || OBJ.kind == K_BARRIER) return;
    if (OBJ.kind == K_COMB) {
        i64 s = rt_spec_init(); int n = 0;
        for (;;) { int f = 0; for (int i = 0; i < nops; i++) if (ops[i].sres == s && ops[i].applied == 1) { ops[i].applied = 2; s = mix(s, ops[i].a); f = 1; n++; break; } if (!f) break; }
        if (n != nops) rt_fail("results are not those of any sequential execution");
        return;
    }
    qsort(ops, nops, sizeof *ops, cmpres);
    memset(memo, 0, MEMO_CAP * 8); memo_n = 0; memset(taken, 0, sizeof taken); shead = stail = 0; nmp = 0; lin_budget = 20000; best = 0;
    rt_state[8] = rt_spec_init();
    int r = lin(0, 0);
    if (r < 0) shm->inconclusive++;
    if (r == 0) rt_fail("history is not linearizable (no sequential order of the %s's operations explains the returned values; longest explained prefix %d of %d operations)", OBJ.kind == K_STACK ? "stack" : OBJ.kind == K_QUEUE ? "queue" : OBJ.kind == K_MAP ? "map" : "object", best, nops);
}
extern char __data_start, _end;
static char *data_save;
static void one(u64 sd, u64 idx) {
    seed(sd * 1000003ULL + idx);
    int n;
    u64 m = rt_below(20);
    n = m == 0 ? 1 : 2 + rt_below(m < 14 ? 3 : 6);
    if (OBJ.kind == K_BARRIER && rt_below(2)) per_thread_ops = 1 + rt_below(10);
    if (OBJ.maxthreads && n > OBJ.maxthreads) n = OBJ.maxthreads;
    per_thread_ops = m < 6 ? 1 + rt_below(3) : m < 16 ? 1 + rt_below(12) : 20 + rt_below(50);
    if (OBJ.kind == K_MAP || OBJ.kind == K_STACK || OBJ.kind == K_QUEUE || OBJ.kind == K_SPEC) while (n * per_thread_ops > 70) per_thread_ops = per_thread_ops * 2 / 3;
    if (OBJ.many && rt_below(30) == 0) { n = 60 + rt_below(80); per_thread_ops = 1 + rt_below(3); }
    rt_fibers = 1;
    if (OBJ.fibers && rt_below(2)) { rt_fibers = 2 + rt_below(3); n = rt_fibers * (1 + rt_below(3)) - (rt_below(3) == 0); if (n < 1) n = 1; if (n < rt_fibers) n = rt_fibers; }
    rt_n = n;
    static const int pm[] = { 1, 2, 4, 8, 16, 48, 200, 1000 };
    pmean = pm[rt_below(8)]; freeze_p = rt_below(3) == 0 ? 0 : 1 << rt_below(8);
    valmode = rt_below(3); opmode = rt_below(5); keyrange = 1 + rt_below(12);
    fake_oversub = rt_below(6) == 0; fake_cpn = 1 + rt_below(4); fake_cores = fake_cpn * (1 + rt_below(3));
    hang_limit = 400000 + 4000ULL * n * (pmean > 100 ? pmean : 100);
    snprintf(curdesc, sizeof curdesc, "seed %lu run %lu: %d threads x %d operations, fibers/thread %d, switch mean %lu, values %d, mix %d, cores %d", sd, idx, n, per_thread_ops, rt_fibers, pmean, valmode, opmode, fake_cores);
    snprintf(shm->msg, sizeof shm->msg, "%s", curdesc);
    /* reset memory */
    if (arena_hi) memset(shadow, 0, arena_hi + 64);
    arena_top = 0; arena_hi = 0;
    nops = 0; in_cs = -1; memset(entered, 0, sizeof entered); memset(left_, 0, sizeof left_); rt_step = 0; last_progress = 0; rt_active = 0; rt_cur = 0;
    memset(rt_state, 0, sizeof rt_state); rt_state[0] = rt_spec_init();
    memcpy(tls_base, tls_init, tls_sz);
    OBJ.init(n);
    live = n;
    for (int t = 0; t < n; t++) {
        co[t].done = 0; co[t].frozen_until = 0;
        void **sp = (void **)(stacks + (size_t)(t + 1) * STK - 64);
        *--sp = 0; *--sp = (void *)entry; for (int k = 0; k < 6; k++) *--sp = 0;
        co[t].sp = sp; memcpy(co[t].tls, tls_init, tls_sz);
    }
    for (int g = 0; g * rt_fibers < n; g++) groups_cur[g] = g * rt_fibers;
    do { rt_cur = rt_below(n); } while (!runnable(rt_cur));
    pick_countdown();
    memcpy(tls_base, co[rt_cur].tls, tls_sz);
    rt_active = 1;
    rt_switch(&mainco.sp, co[rt_cur].sp);
    rt_active = 0;
    memcpy(tls_base, tls_init, tls_sz);
    check_history();
    shm->runs++; shm->steps += rt_step;
    /* non-trivial: operations of different threads overlapped; distinct: the histories (with their step numbers) differ */
    u64 h = 0; int ov = 0; u64 maxres = 0; int mp = -1;
    for (int k = 0; k < nops; k++) {
        Op *o = &ops[k];
        h = h64(h ^ o->inv) + h64(o->res + 31 * o->pid + 7 * o->op) + o->a * 3 + o->ret;
        if (mp >= 0 && maxres > o->inv && mp != o->pid) ov = 1;
        if (o->res > maxres) { maxres = o->res; mp = o->pid; }
    }
    if (ov) {
        u64 s = h & ((1 << 18) - 1);
        for (int k = 0; k < 64; k++, s = (s + 1) & ((1 << 18) - 1)) { if (shm->seen[s] == h) break; if (shm->seen[s] == 0) { shm->seen[s] = h; shm->distinct++; break; } }
        if (!shm->sample[0] && nops <= 16) { int k = snprintf(shm->sample, sizeof shm->sample, "%s\n", curdesc); dump_hist(shm->sample + k, sizeof shm->sample - k); }
    }
}
static void onsig(int s) {
    if (shm->status == 0) { char b[512]; snprintf(b, sizeof b, "%s", curdesc); snprintf(shm->msg, sizeof shm->msg, "the code crashed with signal %d (%s) [thread %d, step %lu; %s]", s, strsignal(s), rt_cur, rt_step, b); dump_hist(shm->trace, sizeof shm->trace); shm->status = 1; }
    _exit(3);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char **argv) {
    u64 sd = argc > 1 ? strtoull(argv[1], 0, 10) : 1, from = argc > 2 ? strtoull(argv[2], 0, 10) : 0, to = argc > 3 ? strtoull(argv[3], 0, 10) : 1000;
    double tl = argc > 4 ? atof(argv[4]) : 20;
    shm = mmap(0, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    u64 i = from;
    u64 batch = 200;
    while (i < to && now() - t0 < tl) {
        u64 e = i + batch < to ? i + batch : to;
        pid_t p = fork();
        if (p == 0) {
            arena = mmap(0, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            shadow = mmap(0, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            stacks = mmap(0, (size_t)MAXT * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            memo = mmap(0, MEMO_CAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            dl_iterate_phdr(phdr, 0);
            tls_init = mmap(0, (tls_sz + 4096) * (MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            memcpy(tls_init, tls_base, tls_sz);
            for (int t = 0; t < MAXT; t++) co[t].tls = tls_init + (t + 1) * (tls_sz + 64);
            for (int k = 0; k < MAXOPS * 4; k++) zob[k] = h64(k + 77);
            stack_t ss; ss.ss_sp = mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
            struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
            int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; for (int k = 0; k < 5; k++) sigaction(sg[k], &sa, 0);
            freopen("/dev/null", "w", stdout); 
            for (u64 r = i; r < e; r++) { alarm(120); one(sd, r); if (now() - t0 > tl) break; }
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (shm->status == 1) break;
        if (shm->status == 2) { printf("ERROR %s\n", shm->msg); return 2; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("ERROR the executor was killed (memory?)\n"); return 2; }
        if (WIFSIGNALED(st)) {
            shm->status = 1; char b[600]; snprintf(b, sizeof b, "%s", shm->msg);
            snprintf(shm->msg, sizeof shm->msg, "run killed by signal %d (%s) [%s]", WTERMSIG(st), strsignal(WTERMSIG(st)), b); break;
        }
        i = e;
    }
    printf("RUNS %lu STEPS %lu OPS %lu INCONCLUSIVE %lu TIME %.1f\n", shm->runs, shm->steps, shm->ops, shm->inconclusive, now() - t0);
    if (shm->status == 1) { printf("FAIL %s\nhistory:\n%s", shm->msg, shm->trace); return 1; }
    printf("DISTINCT %lu\nSAMPLE %s\n", shm->distinct, shm->sample);
    printf("OK\n");
    return 0;
}
