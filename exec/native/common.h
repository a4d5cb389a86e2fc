/* seeded tests of the real code against an independent oracle; every failure prints the failing input */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
typedef uint64_t u64; typedef int64_t i64;
static u64 rng[2];
static u64 rnd(void) { u64 a = rng[0], b = rng[1]; rng[0] = b; a ^= a << 23; rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rng[1] + b; }
static u64 below(u64 n) { return n ? rnd() % n : 0; }
static u64 h64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static void seedr(u64 s) { rng[0] = h64(s + 1); rng[1] = h64(s + 0x9E3779B97F4A7C15ULL); if (!rng[0] && !rng[1]) rng[0] = 1; }
static char cur[4000]; static u64 runs, distinct; static u64 *seen; static char sample[1500];
#define DESC(...) snprintf(cur, sizeof cur, __VA_ARGS__)
static void out(const char *s) { size_t n = strlen(s); while (n) { ssize_t k = write(1, s, n); if (k <= 0) break; s += k; n -= k; } }
static void fail(const char *fmt, ...) {
    char b[2000], c[7000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(c, sizeof c, "FAIL %s\ninput: %s\n", b, cur); out(c); _exit(1);
}
/* a non-trivial case was evaluated; key identifies it */
static void covered(u64 key) {
    if (!seen) seen = calloc(1 << 18, 8);
    u64 h = h64(key) | 1, i = h >> 46;
    for (int k = 0; k < 64; k++, i = (i + 1) & ((1 << 18) - 1)) { if (seen[i] == h) return; if (!seen[i]) { seen[i] = h; distinct++; break; } }
    if (!sample[0]) snprintf(sample, sizeof sample, "%s", cur);
}
static void onsig(int s) { char c[5000]; snprintf(c, sizeof c, "FAIL %s\ninput: %s\n", s == SIGALRM ? "the call does not return" : strsignal(s), cur); out(c); _exit(1); }
static void one(void);
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#ifndef BATCH
#define BATCH 100
#endif
int main(int argc, char **argv) {
    u64 sd = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double tl = argc > 2 ? atof(argv[2]) : 2, t0 = now();
    stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 }; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }; for (int k = 0; k < 6; k++) sigaction(sg[k], &sa, 0);
    freopen("/dev/null", "w", stderr);
    do { alarm(20); for (int k = 0; k < BATCH; k++) { seedr(sd * 1000003 + runs); DESC("case %lu of seed %lu", runs, sd); one(); runs++; } } while (now() - t0 < tl);
    printf("RUNS %lu\nDISTINCT %lu\nSAMPLE %s\n\nOK\n", runs, distinct, sample);
    return 0;
}
