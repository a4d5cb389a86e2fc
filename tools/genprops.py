import json
S="schedules"
def comb(id, title, what, files, mech, extra="", state=None, why=None):
    return dict(id=id,title=title,statement=what,quantifier=dict(over=["schedules","inputs","histories"],text="every number of threads, every interleaving of their shared-memory accesses, every sequence of operations and every argument"),
      why_tests_cant=why or "The tests run a handful of timings of a benchmark and only compare operation counters; a lost or duplicated request, a wrong argument or a wrong return value in one interleaving is invisible to them.",
      anchors=dict(files=files,mechanism=mech,**(dict(state=state) if state else {})))
def m(n,w): return dict(name=n,where=w)
C="libconcurrent/concurrent/"; I="libconcurrent/includes/"; P="libconcurrent/primitives/"
L=[]
EO="every operation a thread announces is executed exactly once on the shared object, with the argument and the thread id it was announced with, never two operations at the same time, and the call returns only after that and returns exactly the result of its own operation; operations can therefore be ordered consistently with real time."
L.append(comb("C01","CC-Synch executes every announced operation exactly once, one at a time","With the CC-Synch combining object, "+EO,[C+"ccsynch.c",I+"ccsynch.h"],[m("announce, wait, combine, hand over",C+"ccsynch.c CCSynchApplyOp"),m("initial state",C+"ccsynch.c CCSynchStructInit, CCSynchThreadStateInit")]))
L.append(comb("C02","DSM-Synch executes every announced operation exactly once, one at a time","With the DSM-Synch combining object, "+EO,[C+"dsmsynch.c",I+"dsmsynch.h"],[m("announce, wait, combine, hand over, reuse of the two nodes",C+"dsmsynch.c DSMSynchApplyOp")]))
L.append(comb("C03","H-Synch executes every announced operation exactly once, one at a time","With the hierarchical H-Synch combining object, for every assignment of threads to NUMA regions, "+EO,[C+"hsynch.c",I+"hsynch.h",C+"clh.c"],[m("per-region list, central lock, combining",C+"hsynch.c HSynchApplyOp"),m("assignment of request nodes",C+"hsynch.c HSynchThreadStateInit, HSynchStructInit")]))
L.append(comb("C04","Oyama's combining executes every announced operation exactly once, one at a time","With Oyama's combining object, "+EO,[C+"oyama.c",I+"oyama.h"],[m("announce list, lock and drain",C+"oyama.c OyamaApplyOp")]))
L.append(comb("C05","Flat combining executes every announced operation exactly once, one at a time","With the flat-combining object, "+EO,[C+"fc.c",I+"fc.h"],[m("publication list, combining scan, ageing",C+"fc.c FCApplyOp")]))
L.append(comb("C06","Osci executes every announced operation exactly once, one at a time","With the Osci (lock oscillation) object, for every number of fibers per thread, "+EO,[C+"osci.c",I+"osci.h"],[m("door protocol, list of nodes, combining, hand over",C+"osci.c OsciApplyOp"),m("initial state",C+"osci.c OsciInit, OsciThreadStateInit")]))
L.append(comb("C07","Sim applies every announced operation exactly once, atomically","With the wait-free Sim universal object, every announced operation takes effect exactly once in one total order consistent with real time, with its own argument and thread id, and each call returns the result its operation has in that order; this holds for every number of threads, including more than fit one machine word.",[C+"sim.c",I+"sim.h",I+"tvec.h"],[m("toggle, copy, apply, publish",C+"sim.c SimApplyOp"),m("initial state",C+"sim.c synchSimStructInit, SimThreadStateInit")]))
L.append(comb("C08","The lock-free object applies every operation exactly once, atomically","With the lock-free universal object, every operation reads the current value and replaces it in one atomic step, exactly once, and returns the value the client function computed from the value it replaced.",[C+"lfuobject.c",I+"lfuobject.h"],[m("read, compute, compare and swap",C+"lfuobject.c LFUObjectApplyOp")]))
L.append(comb("C09","CLH and MCS locks: mutual exclusion and orderly hand-over","Between the return of a lock operation and the matching unlock no other thread holds the same CLH or MCS lock, an unlock passes the lock only to the longest-waiting thread, and an unlocked lock can be acquired again.",[C+"clh.c",C+"mcs.c",I+"clh.h",I+"mcs.h"],[m("queue lock and unlock",C+"clh.c CLHLock, CLHUnlock"),m("queue lock and unlock",C+"mcs.c MCSLock, MCSUnlock")],why="Mutual exclusion must hold in every interleaving; the tests only count operations of a benchmark under one timing."))
L.append(comb("S01","Combining stacks are linearizable LIFO stacks","The CC, DSM, H, FC and Osci stacks behave as one LIFO stack: a push adds its value, for every value but the reserved ones, a pop removes and returns the most recently pushed value still in the stack, or reports an empty stack exactly when it is empty, in an order consistent with real time.",[C+x+".c" for x in ("ccstack","dsmstack","hstack","fcstack","oscistack")]+[I+"queue-stack.h"],[m("sequential push/pop executed by the combiner",C+x+".c serialPushPop") for x in ("ccstack","dsmstack","hstack","fcstack","oscistack")]))
L.append(comb("S02","The lock-free stack is a linearizable LIFO stack","The lock-free (Treiber) stack behaves as one LIFO stack in every interleaving: no pushed value is lost, duplicated or invented, a pop returns the top value or reports empty exactly when the stack is empty at some point during the call.",[C+"lfstack.c",I+"lfstack.h"],[m("push and pop by compare and swap on top",C+"lfstack.c LFStackPush, LFStackPop")]))
L.append(comb("S03","SimStack is a linearizable LIFO stack","The wait-free SimStack behaves as one LIFO stack in every interleaving and for every number of threads: each push and pop takes effect exactly once, a pop returns the most recently pushed value still present, or reports empty exactly when the stack is empty.",[C+"simstack.c",I+"simstack.h",I+"tvec.h"],[m("announce, copy, apply, publish",C+"simstack.c SimStackApplyOp"),m("sequential push/pop on the copy",C+"simstack.c serialPush, serialPop")]))
L.append(comb("Q01","Combining queues are linearizable FIFO queues","The CC, DSM, H, FC and Osci queues behave as one FIFO queue even when an enqueue combiner and a dequeue combiner run at the same time: a dequeue returns the oldest enqueued value not yet dequeued or reports empty exactly when the queue is empty, and no value is lost, duplicated or read from a recycled node.",[C+x+".c" for x in ("ccqueue","dsmqueue","hqueue","fcqueue","osciqueue")]+[I+"queue-stack.h"],[m("enqueue and dequeue executed by two combiners",C+x+".c serialEnqueue, serialDequeue") for x in ("ccqueue","dsmqueue","hqueue","fcqueue","osciqueue")]))
L.append(comb("Q02","The lock-free queue is a linearizable FIFO queue","The lock-free (Michael-Scott) queue behaves as one FIFO queue in every interleaving: no value is lost, duplicated or reordered, a dequeue reports empty only if the queue is empty at some point during the call.",[C+"msqueue.c",I+"msqueue.h"],[m("enqueue, dequeue with helping of the tail",C+"msqueue.c MSQueueEnqueue, MSQueueDequeue")]))
L.append(comb("Q03","SimQueue is a linearizable FIFO queue","The wait-free SimQueue behaves as one FIFO queue in every interleaving and for every number of threads: every enqueue and dequeue takes effect exactly once, values leave in the order they entered, and empty is reported only if the queue is empty at some point during the call.",[C+"simqueue.c",I+"simqueue.h",I+"tvec.h"],[m("batch enqueue and linking of batches",C+"simqueue.c SimQueueEnqueue, EnqLinkQueue"),m("batch dequeue",C+"simqueue.c SimQueueDequeue, DeqLinkQueue")]))
L.append(comb("Q04","LCRQ is a linearizable FIFO queue","The LCRQ queue behaves as one FIFO queue in every interleaving, for every value but the reserved ones, also when its rings wrap around, are closed and are replaced: no value is lost, duplicated or reordered and empty is reported only if the queue is empty at some point during the call.",[C+"lcrq.c",I+"lcrq.h"],[m("ring enqueue, closing of rings",C+"lcrq.c LCRQEnqueue"),m("ring dequeue, unsafe cells, tail repair",C+"lcrq.c LCRQDequeue, fix_state")]))
L.append(comb("H01","Hash tables behave as one map from keys to values","The CLH and DSM hash tables behave as one map in every interleaving and for every key and number of cells: a search succeeds exactly when its key was inserted and not deleted since, an insert of an existing key replaces its value, a delete removes that key and no other.",[C+"clhhash.c",C+"dsmhash.c",I+"clhhash.h",I+"dsmhash.h"],[m("sequential operation on one cell",C+"clhhash.c serialOperations"),m("sequential operation on one cell",C+"dsmhash.c serialOperations"),m("choice of the cell",C+"clhhash.c hash_func")]))
def seq(id,title,what,files,mech,why,over=("inputs","histories"),text="every argument and every sequence of calls"):
    L.append(dict(id=id,title=title,statement=what,quantifier=dict(over=list(over),text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=mech)))
seq("M01","The object pool never hands out memory that is in use","For every object size and every sequence of allocations, recyclings and rollbacks within their documented preconditions, each allocated object lies inside a block of the pool, overlaps no other live object, a recycled or rolled-back object is reused only once, and destroying the pool frees every block exactly once.",[P+"pool.c",I+"pool.h"],[m("block creation, allocation, recycling, rollback, destruction",P+"pool.c synchInitPool, synchAllocObj, synchRecycleObj, synchRollback, synchDestroyPool")],"The benchmarks never fill a block, never check overlaps and never destroy a pool; the property speaks about every size and every history of calls.")
seq("P01","Atomic primitives return the old value and change memory exactly once","Compare-and-swap writes the new value and reports success exactly if the location held the expected value and otherwise changes nothing; fetch-and-add, swap and bit-test-and-set change the location once and return the value it had just before, also when emulated by compare-and-swap under any interference of other threads.",[P+"primitives.c",I+"primitives.h"],[m("wrappers and emulations",P+"primitives.c _CASPTR, _CAS64, _CAS32, _CAS128, _SWAP, _FAA32, _FAA64, _BitTAS64")],"The emulated variants are not built by the tests at all, and a wrong width, operand order or return value shows only for particular values or interleavings.",("inputs","schedules","configurations"),"every operand, every memory content, every interference and both the native and the emulated configuration")
seq("T01","Toggle vectors are exact sets of thread ids for any number of threads","For every number of threads, each toggle-vector operation computes exactly the documented bitwise function of its operands on every bit, touches no other bit and no memory outside the vector, and adding a thread's toggle changes only that thread's bit.",[I+"tvec.h",I+"sim.h"],[m("bank and whole-vector operations",I+"tvec.h TVEC_*")],"The tests use at most a few dozen threads, so vectors never exceed one word and most operations are never compared with a reference.",("inputs",),"every number of threads, every bit position and every content of the vectors")
seq("R01","Backoff bounds are respected","Every delay a thread chooses while backing off, and the bound it keeps for the next one, stays between the configured lower and upper bounds for every configuration and every number of consecutive failures, and resetting restores the lower bound.",[P+"backoff.c",I+"backoff.h"],[m("initialisation, delay, reset",P+"backoff.c synchInitBackoff, synchBackoffDelay, synchResetBackoff, synchBackoffIncrease, synchBackoffReduce")],"The bound is an invariant over arbitrarily long sequences of failures and all configurations, and no test reads it.")
seq("R02","Random ranges stay in range and generators never get stuck","For every state of the generator and every low <= high of a magnitude a double represents exactly, a value drawn from a range lies between low and high, and for every seed and any number of draws the generators never enter a state that they cannot leave.",[P+"fastrand.c",I+"fastrand.h"],[m("multiply-with-carry generator and range",P+"fastrand.c synchFastRandom, synchFastRandom32, synchFastRandomRange, synchFastRandomRange32, synchFastRandomSetSeed")],"The generator has 2^64 states; tests draw a few numbers and check none.",("inputs",),"every seed, every state and every range")
seq("T02","Thread placement names existing cores and nodes and spreads threads","For every policy, number of cores and NUMA topology the core chosen for a thread is an existing core and the node chosen is an existing node, and on a regular topology no two threads are placed on the same core as long as there are no more threads than cores.",[P+"threadtools.c",I+"threadtools.h"],[m("placement functions",P+"threadtools.c synchPreferredCoreOfThread, synchPreferredNumaNodeOfThread")],"The tests run on the one topology of the machine they run on.",("configurations","inputs"),"every placement policy, every thread id and every regular topology")
seq("B01","The barrier releases nobody before everybody has arrived, in every round","For every number of threads and every number of rounds, no thread returns from a wait before all the threads of that round have entered it, and the barrier serves the next round without being set again, even if threads enter it while others have not yet left the previous round.",[P+"barrier.c",I+"barrier.h"],[m("two-phase wait",P+"barrier.c synchBarrierSet, synchBarrierWait, synchBarrierLeave, synchBarrierLastLeave")],"An early release needs a slow thread of the previous round, which the tests' few rounds of similar threads do not produce.",("schedules","histories"),"every number of threads and rounds and every interleaving")
seq("F01","Fibers run exactly once, with their argument, and are never overwritten","Every spawned fiber runs its function exactly once with the argument it was given, a spawn is refused only when all places are taken and never disturbs a running fiber, a yield switches to the next active fiber and passes over none, the stack of a finished fiber is given back exactly once and never while it is in use, and waiting for all fibers returns only after all have finished.",[P+"uthreads.c",I+"uthreads.h"],[m("spawn, yield, completion",P+"uthreads.c synchInitFibers, synchSpawnFiber, synchFiberYield, fiber_start_func, synchWaitForAllFibers")],"The tests spawn all fibers at once and let them end in order; spawning after some have ended is never exercised.",("histories","schedules"),"every sequence of spawns, yields and completions")
seq("M02","Allocation helpers return aligned memory or stop the program","Every aligned allocation returns memory aligned as requested and wholly inside what the system allocated, for every size and power-of-two alignment, a failed allocation never yields a pointer, and what is freed is the address the system allocated.",[P+"primitives.c",I+"primitives.h"],[m("allocation helpers",P+"primitives.c synchGetMemory, synchGetAlignedMemory, synchFreeMemory")],"Allocation failure and every size/alignment pair cannot be sampled by the benchmarks.",("inputs","configurations","fault_sequences"),"every size, every power-of-two alignment, every address the system may return and every failure, with and without NUMA support")
L.append(dict(id="W01",title="Wait-free and starvation-free progress of the universal constructions",statement="In Sim, SimStack and SimQueue every operation finishes within a bounded number of its own steps whatever the other threads do, and in the lock-based and combining objects every announced operation finishes if the scheduler is fair.",quantifier=dict(over=["schedules"],text="every fair schedule"),why_tests_cant="Progress speaks about infinite schedules.",anchors=dict(files=[C+"sim.c",C+"simstack.c",C+"simqueue.c"],mechanism=[m("two rounds of helping",C+"sim.c SimApplyOp")])))
L.append(dict(id="W02",title="Correctness under weak memory orderings",statement="All objects keep their guarantees on machines with weaker orderings than sequential consistency (store buffering on x86, ARM and RISC-V), because the fences placed in the code are sufficient.",quantifier=dict(over=["schedules","configurations"],text="every weak-memory execution of every supported machine"),why_tests_cant="Reorderings depend on the machine and are rare.",anchors=dict(files=[I+"primitives.h",C+"ccsynch.c"],mechanism=[m("fence macros",I+"primitives.h synchFullFence, synchNonTSOFence")])))
for x in L:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
print(len(L))
