#define _GNU_SOURCE
#include "common.h"
#include <threadtools.h>
#include <sched.h>
#include <sys/wait.h>
#include <pthread.h>
static int ncpus, nodes, smt, regular, setcpu;
long __wrap_sysconf(int x) { return ncpus; }
int __wrap_numa_num_task_nodes(void) { return nodes; }
int __wrap_numa_num_configured_nodes(void) { return nodes; }
int __wrap_numa_max_node(void) { return nodes - 1; }
static int node_of(int c) { int ns = ncpus / nodes; if (c < 0 || c >= ncpus) return -1; if (ns == 0) return c % nodes; if (smt) { int h = ns / 2 ? ns / 2 : 1; int x = (c % (ncpus / 2 ? ncpus / 2 : 1)) / h; return x < nodes ? x : nodes - 1; } int x = c / ns; return x < nodes ? x : nodes - 1; }
int __wrap_numa_node_of_cpu(int c) { return node_of(c); }
int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *m) { setcpu = -1; for (int i = 0; i < 1024; i++) if (CPU_ISSET(i, m)) { if (setcpu >= 0) fail("a thread is pinned to two cores (%d and %d)", setcpu, i); setcpu = i; } return 0; }
int __wrap_pthread_setconcurrency(int n) { return 0; }
void synchStartCPUCounters(int p) {} void synchStopCPUCounters(int p) {} void synchInitCPUCounters(void) {}
#define BARRIER
static void *nop(void *a) { return NULL; }
static int inchild;
static void one(void) {
    static const uint32_t pol[] = { SYNCH_THREAD_PLACEMENT_FLAT, SYNCH_THREAD_PLACEMENT_NUMA_SPARSE, SYNCH_THREAD_PLACEMENT_NUMA_SPARSE_SMT_PREFER, SYNCH_THREAD_PLACEMENT_NUMA_DENSE, SYNCH_THREAD_PLACEMENT_NUMA_DENSE_SMT_PREFER };
    /* the number of cores is read once per process: one process for each topology */
    int r = below(3);
    if (r) { nodes = 1 + below(r == 1 ? 4 : 17); int per = 1 + below(below(2) ? 6 : 33); smt = below(2); if (smt) per *= 2; while (nodes * per > 1000) nodes--; ncpus = nodes * per; if (!smt && ncpus > 1 && nodes == 1) smt = 1; regular = 1; }
    else { nodes = 1 + below(9); ncpus = 1 + below(70); smt = below(2); regular = 0; }
    if (regular && nodes == 1 && ncpus % 2) regular = smt = 0;
    if (!smt && regular && node_of(0) == node_of(ncpus / 2)) { regular = 0; }
    int fd[2]; pipe(fd); pid_t p = fork();
    if (p == 0) {
        for (int k = 0; k < 5; k++) {
            synchSetThreadPlacementPolicy(pol[k]); char used[4096]; memset(used, 0, sizeof used);
            int nt = ncpus + below(3 * ncpus);
            DESC("policy %u, %d cores, %d nodes, %s%s", pol[k], ncpus, nodes, smt ? "SMT" : "no SMT", regular ? "" : ", irregular");
            if (synchGetThreadPlacementPolicy() != pol[k]) fail("the policy is not the one that was set");
            if (synchGetNCores() != ncpus) fail("synchGetNCores is %u", synchGetNCores());
            for (int t = 0; t < nt; t++) {
                uint32_t c = synchPreferredCoreOfThread(t), n = synchPreferredNumaNodeOfThread(t);
                if (c >= (uint32_t)ncpus) fail("thread %d is placed on core %u of %d", t, c, ncpus);
                if (n >= (uint32_t)nodes) fail("thread %d is placed on node %u of %d", t, n, nodes);
                if (regular && t < ncpus) { if (used[c]) fail("threads %d and %d share core %u although there are %d cores", used[c] - 1 & 255, t, c, ncpus); used[c] = t + 1 ? (char)(t + 1) ? (char)(t + 1) : 1 : 1; }
                if (regular && nodes <= ncpus && n != (uint32_t)node_of(c)) fail("thread %d is on core %u of node %d but its preferred node is %u", t, c, node_of(c), n);
                if (t < 8 || below(8) == 0) { synchThreadPin(t); if ((uint32_t)setcpu != c || synchGetPreferredCore() != c || synchGetPreferredNumaNode() != n) fail("thread %d is pinned to core %d, preferred core %d node %d, chosen core %u node %u", t, setcpu, synchGetPreferredCore(), synchGetPreferredNumaNode(), c, n); }
            }
        }
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0) ;
    close(fd[0]); close(fd[1]);
    if (st) { if (WIFSIGNALED(st)) { DESC("%d cores, %d nodes, %s", ncpus, nodes, smt ? "SMT" : "no SMT"); fail("killed by signal %d", WTERMSIG(st)); } _exit(1); }
    DESC("%d cores, %d nodes, %s%s", ncpus, nodes, smt ? "SMT" : "no SMT", regular ? "" : ", irregular"); covered(ncpus * 1000 + nodes * 4 + smt * 2 + regular);
}
