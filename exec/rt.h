/* Deterministic executor of the real code: cooperative threads, a scheduling point at every shared access
   (clang's thread-sanitizer instrumentation calls into rt.c), checked heap. Used to replay / search for a concrete
   failing execution once an obligation is not discharged, and for parts labelled bounded. */
#ifndef RT_H
#define RT_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <limits.h>
typedef int64_t i64;
typedef uint64_t u64;
extern int rt_n;                 /* threads of this run */
extern int rt_fibers;            /* fibers per posix thread (Osci) */
extern int rt_cur;               /* running thread */
extern u64 rt_step;
extern volatile int rt_active;
void rt_yield(void);             /* a scheduling point */
void rt_fail(const char *fmt, ...);
u64 rt_rand(void);
static inline u64 rt_below(u64 n) { return n ? rt_rand() % n : 0; }
enum { K_COMB, K_SPEC, K_LOCK, K_STACK, K_QUEUE, K_MAP, K_BARRIER };
extern int rt_specmode;          /* K_SPEC: 0 fetch-and-mix, 1 fetch-and-add (64 bits), 2 swap, 3 fetch-and-add (32 bits) */
typedef struct {
    const char *name; int kind;
    void (*init)(int n);
    void (*tinit)(int pid);
    i64 (*op)(int pid, int op, i64 a, i64 b);   /* stack/queue: 0 put 1 get ; map: 0 insert 1 search 2 delete; lock: 0 lock 1 unlock */
    int maxthreads; int fibers; int many;       /* many: sometimes use > 64 threads */
} Obj;
extern Obj OBJ;
/* client function for combining objects: to be passed as sfunc */
i64 rt_sfunc(void *state, i64 arg, int pid);
i64 rt_sfunc2(i64 arg, int pid);
extern int rt_state_is_object; extern i64 rt_state[16];
i64 rt_spec_init(void);
extern i64 *rt_state_loc;
#define EMPTY (LONG_MIN + 1)
#endif
