"""which contract modules and which bounded executions decide which property"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/exec")
import native
LIB = "libconcurrent/"
P = {}
def prop(id, specs=(), objs=(), level="proof", technique=None, note="", funcs=(), finder_secs=10, extra=()):
    P[id] = dict(specs=list(specs), objs=list(objs), level=level, technique=technique or "contracts on the real code (LLVM IR of /repo), rely/guarantee VCs discharged by z3", note=note, finder_secs=finder_secs, extra=list(extra))

prop("C01", [("ccsynch", "CC"), ("inits", "CC")], ["ccsynch"])
prop("C02", [("dsmsynch", "DSM"), ("inits", "DSM")], ["dsmsynch"])
prop("C03", [("ccsynch", "HS"), ("locks", "CLH"), ("inits", "CLH"), ("inits", "HSStruct"), ("inits", "HSStructNoNuma"), ("inits", "HSThread"), ("inits", "HSThreadNoNuma")], ["hsynch"])
prop("C08", [("lockfree", "LFU"), ("inits", "LFU")], ["lfuobject"])
prop("S02", [("lockfree", "LFStack"), ("inits", "LFStack")], ["lfstack"])
prop("Q02", [("lockfree", "MSQueue"), ("inits", "MSQueue")], ["msqueue"])
prop("C05", [("fc", "FC"), ("inits", "FC")], ["fc"])
prop("C04", [("oyama", "Oyama"), ("inits", "Oyama")], ["oyama"])
prop("C09", [("locks", "CLH"), ("locks", "MCS"), ("inits", "CLH"), ("inits", "MCS")], ["clh", "mcs"])

BT = "bounded stand-in (labelled bounded, not proved): seeded systematic executions of the real code against the property's oracle"
BN = "Bounded: no contract of this property is discharged; seeded executions of the real code (3 to 8 threads, up to about 70 operations, random schedules and stalls) are compared with the sequential specification. "
def bounded(id, objs, note="", **kw): prop(id, [], objs, level="exploration", technique=BT, note=BN + note, finder_secs=25, **kw)
prop("C06", [("osci", "Osci"), ("inits", "Osci")], ["osci"])
prop("C07", [("sim", "Sim")], ["sim"], finder_secs=25)
prop("S01", [("objects", x + "Stack") for x in ("CC", "DSM", "H", "FC", "Osci")], ["ccstack", "dsmstack", "hstack", "fcstack", "oscistack"])
bounded("S03", ["simstack"])
prop("Q01", [("objects", x + "Queue") for x in ("CC", "DSM", "H", "FC", "Osci")], ["ccqueue", "dsmqueue", "hqueue", "fcqueue", "osciqueue"])
bounded("Q03", ["simqueue"])
bounded("Q04", ["lcrq"])
prop("H01", [("hash", "CLHHash"), ("hash", "DSMHash")], ["clhhash", "dsmhash"])

nat = lambda *n: [native.check(x) for x in n]
prop("T01", [("seq", "TVec")], extra=nat("tvec"))
prop("R01", [("seq", "Backoff")], extra=nat("backoff"))
prop("R02", [("seq", "Random"), ("seq", "RandomRange")], extra=nat("fastrand"))
prop("M01", [("pool", "Pool")], extra=nat("pool"))
prop("T02", [("seq", "Placement"), ("seq", "PlacementNoNuma")], extra=nat("placement"))
prop("P01", [("prims", "Prims"), ("prims", "PrimsEmulated"), ("prims", "PrimsDebug")], ["faa64", "faa32", "swap", "faa64emu", "faa32emu", "swapemu"], extra=nat("prims"))
prop("M02", [("seq", "Memory"), ("seq", "MemoryNoNuma")], extra=nat("memory"))
prop("F01", [("fibers", "Fibers")], extra=nat("fibers"))
prop("B01", [("barrier", "Barrier"), ("barrier", "BarrierLeave")], ["barrier"])

COMMON = ["sequentially consistent interleaving semantics of volatile/atomic accesses (x86-TSO store buffering and weaker memory models are not modelled; fence instructions are no-ops)",
          "field-based memory model: an object is identified by its base address and accessed through (offset,size) pairs; distinct live objects do not overlap",
          "atomic primitives (CAS/SWAP/FAA/BitTAS) behave as their contracts (their bodies are the compiler's __sync builtins or inline assembly)",
          "machine integers: values are mathematical integers with explicit wrap-around at truncations and unsigned operations; additions of ghost indices do not overflow",
          "client function (sfunc) touches only the simulated object and returns"]
EXTRA = {"C07": ["the Init functions of Sim establish the layout the contract starts from (pool, announce, ret, applied, a_toggles allocated at distinct places, sp refers to a block of its own); bounded executions only",
                 "the TVEC_* functions obey their contracts, which are property T01; adding 2^k to a bank whose bit k is clear, or subtracting it when it is set, changes that bit only (binary arithmetic)",
                 "the 40-bit sequence number of sp does not wrap around while an operation is in progress; nthreads <= 2^20",
                 "memcpy/SimStateCopy reads each word of the source at one moment during the call and writes it to the destination",
                 "the sequential object's state is one word of the block (any value); sfunc reads and writes only it",
                 "the choice of the back-off (synchFastRandomRange, synchIsSystemOversubscribed) is arbitrary"],
 "F01": ["_setjmp, _longjmp, getcontext, makecontext and swapcontext do what the C library documents (a saved context resumes where it was saved, with the registers it had)", "the functions run by fibers return, use this thread's fibers only through spawn, yield and wait, and fit their stacks", "termination of the search for the next active fiber is not part of the contract (that the main fiber is always active is)"]}
def assumptions(pid): return COMMON + EXTRA.get(pid, [])
