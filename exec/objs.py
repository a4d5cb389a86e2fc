"""generates the per-object harness sources (API calls only)"""
T = '#include <primitives.h>\n#include <%(hdr)s.h>\n#include "rt.h"\n%(body)s\nObj OBJ = { "%(name)s", %(kind)s, o_init, o_tinit, o_op, %(maxt)d, %(fib)d, %(many)d };\n'
O = {}
def obj(name, hdr, kind, body, maxt=0, fib=0, many=0): O[name] = T % dict(hdr=hdr, body=body, name=name, kind=kind, maxt=maxt, fib=fib, many=many)
AL = "synchGetAlignedMemory(S_CACHE_LINE_SIZE, sizeof(%s))"
for n, extra in (("CCSynch", ""), ("DSMSynch", ""), ("HSynch", ", rt_below(3) ? 0 : 1 + rt_below(n)"), ("FC", "")):
    obj(n.lower(), n.lower(), "K_COMB", """static %(n)sStruct *s; static %(n)sThreadState *ts[256];
static void o_init(int n) { s = %(al)s; %(n)sStructInit(s, n%(x)s); }
static void o_tinit(int p) { ts[p] = %(alt)s; %(n)sThreadStateInit(s, ts[p], p); }
static i64 o_op(int p, int op, i64 a, i64 b) { return %(n)sApplyOp(s, ts[p], rt_sfunc, (void *)rt_state, a, p); }""" % dict(n=n, al=AL % (n + "Struct"), alt=AL % (n + "ThreadState"), x=extra))
obj("osci", "osci", "K_COMB", """static OsciStruct *s; static OsciThreadState *ts[256];
static void o_init(int n) { s = %s; OsciInit(s, n, rt_fibers); }
static void o_tinit(int p) { ts[p] = %s; OsciThreadStateInit(ts[p], s, p); }
static i64 o_op(int p, int op, i64 a, i64 b) { return OsciApplyOp(s, ts[p], rt_sfunc, (void *)rt_state, a, p); }""" % (AL % "OsciStruct", AL % "OsciThreadState"), fib=1)
obj("oyama", "oyama", "K_COMB", """static OyamaStruct *s; static OyamaThreadState *ts[256];
static void o_init(int n) { s = %s; OyamaInit(s, n); }
static void o_tinit(int p) { ts[p] = %s; OyamaThreadStateInit(ts[p]); }
static i64 o_op(int p, int op, i64 a, i64 b) { return OyamaApplyOp(s, ts[p], rt_sfunc2, a, p); }""" % (AL % "OyamaStruct", AL % "OyamaThreadState"))
obj("sim", "sim", "K_SPEC", """static SimStruct *s; static SimThreadState *ts[256]; static int nn;
static void o_init(int n) { nn = n; s = %s; synchSimStructInit(s, n, rt_below(4)); }
static void o_tinit(int p) { ts[p] = %s; SimThreadStateInit(ts[p], nn, p); }
static i64 o_op(int p, int op, i64 a, i64 b) { return SimApplyOp(s, ts[p], rt_sfunc, a, p); }""" % (AL % "SimStruct", AL % "SimThreadState"), many=1)
obj("lfuobject", "lfuobject", "K_SPEC", """static LFUObjectStruct *s; static LFUObjectThreadState *ts[256];
static void o_init(int n) { s = %s; LFUObjectInit(s, rt_spec_init()); }
static void o_tinit(int p) { ts[p] = %s; LFUObjectThreadStateInit(ts[p], 0, rt_below(6)); }
static i64 o_op(int p, int op, i64 a, i64 b) { return LFUObjectApplyOp(s, ts[p], rt_sfunc, a, p); }""" % (AL % "LFUObjectStruct", AL % "LFUObjectThreadState"))
obj("clh", "clh", "K_LOCK", """static CLHLockStruct *s;
static void o_init(int n) { s = CLHLockInit(n); }
static void o_tinit(int p) { }
static i64 o_op(int p, int op, i64 a, i64 b) { if (op == 0) CLHLock(s, p); else CLHUnlock(s, p); return 0; }""")
obj("mcs", "mcs", "K_LOCK", """static MCSLockStruct *s; static MCSThreadState *ts[256];
static void o_init(int n) { s = MCSLockInit(); }
static void o_tinit(int p) { ts[p] = %s; MCSThreadStateInit(ts[p], p); }
static i64 o_op(int p, int op, i64 a, i64 b) { if (op == 0) MCSLock(s, ts[p], p); else MCSUnlock(s, ts[p], p); return 0; }""" % (AL % "MCSThreadState"))
def stack(name, P, init, tinit="%(P)sThreadStateInit(s, ts[p], p)", push="%(P)sPush", pop="%(P)sPop", pid=", p", fib=0, kind="K_STACK", extra="", **kw):
    d = dict(P=P)
    obj(name, name, kind, ("""static %(P)sStruct *s; static %(P)sThreadState *ts[256]; static int nn;
static void o_init(int n) { nn = n; s = """ + AL % "%(P)sStruct" + "; " + init + """; }
static void o_tinit(int p) { ts[p] = """ + AL % "%(P)sThreadState" + "; " + tinit + """; }
static i64 o_op(int p, int op, i64 a, i64 b) { if (op == 0) { """ + push + "(s, ts[p], a" + pid + "); return 0; } return " + pop + "(s, ts[p]" + pid + "); }") % d, fib=fib, **kw)
stack("ccstack", "CCStack", "CCStackInit(s, n)")
stack("dsmstack", "DSMStack", "DSMSStackInit(s, n)")
stack("hstack", "HStack", "HStackInit(s, n, rt_below(3) ? 0 : 1 + rt_below(n))")
stack("fcstack", "FCStack", "FCStackInit(s, n)")
stack("oscistack", "OsciStack", "OsciStackInit(s, n, rt_fibers)", push="OsciStackApplyPush", pop="OsciStackApplyPop", fib=1)
stack("lfstack", "LFStack", "LFStackInit(s)", tinit="LFStackThreadStateInit(ts[p], 0, rt_below(6))", pid="")
stack("simstack", "SimStack", "SimStackStructInit(s, n, rt_below(4))", tinit="SimStackThreadStateInit(ts[p], nn, p)", many=1)
Q = dict(push="%(P)sApplyEnqueue", pop="%(P)sApplyDequeue", kind="K_QUEUE")
stack("ccqueue", "CCQueue", "CCQueueStructInit(s, n)", **Q)
stack("dsmqueue", "DSMQueue", "DSMQueueStructInit(s, n)", **Q)
stack("hqueue", "HQueue", "HQueueInit(s, n, rt_below(3) ? 0 : 1 + rt_below(n))", **Q)
stack("fcqueue", "FCQueue", "FCQueueStructInit(s, n)", **Q)
stack("osciqueue", "OsciQueue", "OsciQueueInit(s, n, rt_fibers)", fib=1, **Q)
stack("msqueue", "MSQueue", "MSQueueInit(s)", tinit="MSQueueThreadStateInit(ts[p], 0, rt_below(6))", push="MSQueueEnqueue", pop="MSQueueDequeue", pid="", kind="K_QUEUE")
stack("simqueue", "SimQueue", "SimQueueStructInit(s, n, rt_below(4))", push="SimQueueEnqueue", pop="SimQueueDequeue", kind="K_QUEUE", many=1)
stack("lcrq", "LCRQ", "LCRQInit(s, n)", tinit="LCRQThreadStateInit(ts[p], p)", push="LCRQEnqueue", pop="LCRQDequeue", kind="K_QUEUE")
for P, I in (("CLHHash", "CLHHashStructInit"), ("DSMHash", "DSMHashInit")):
    obj(P.lower(), P.lower(), "K_MAP", """static %(P)s *s; static %(P)sThreadState *ts[256]; static int nc;
static void o_init(int n) { nc = 1 + rt_below(5); s = %(a)s; %(I)s(s, nc, n); }
static void o_tinit(int p) { ts[p] = %(b)s; %(P)sThreadStateInit(s, ts[p], nc, p); }
static i64 o_op(int p, int op, i64 a, i64 b) { if (op == 0) return %(P)sInsert(s, ts[p], a, b, p); if (op == 1) return %(P)sSearch(s, ts[p], a, p); %(P)sDelete(s, ts[p], a, p); return 0; }""" % dict(P=P, I=I, a=AL % P, b=AL % (P + "ThreadState")))
obj("barrier", "barrier", "K_BARRIER", """static SynchBarrier bar __attribute__((aligned(128))); 
static void o_init(int n) { synchBarrierSet(&bar, n); }
static void o_tinit(int p) { }
static i64 o_op(int p, int op, i64 a, i64 b) { if (op == 0) synchBarrierWait(&bar); else if (op == 1) synchBarrierLeave(&bar); else synchBarrierLastLeave(&bar); return 0; }""")
# the emulated primitives are compiled into the harness itself, with scheduling points
REN = "_CAS128 _CASPTR _CAS64 _CAS32 _SWAP _FAA32 _FAA64 _BitTAS64 synchGetMemory synchGetAlignedMemory synchFreeMemory synchGetTimeMillis synchGetMachineModel".split()
INSTRUMENTED = {"faa64emu", "faa32emu", "swapemu", "faa64", "faa32", "swap"}
for nm, mode, ty, call in (("faa64", 1, "i64", "synchFAA64(&x, a)"), ("faa32", 3, "int32_t", "synchFAA32(&x, (int32_t)a)"), ("swap", 2, "i64", "(i64)synchSWAP(&x, (void *)a)")):
    for emu in (0, 1):
        O[nm + ("emu" if emu else "")] = ("#define SYNCH_EMULATE_FAA\n#define SYNCH_EMULATE_SWAP\n" if emu else "") + "".join("#define %s emu_%s\n" % (r, r) for r in REN) + """#include "primitives/primitives.c"
#include "rt.h"
static volatile %s x __attribute__((aligned(64)));
static void o_init(int n) { x = 0; rt_specmode = %d; }
static void o_tinit(int p) { }
static i64 o_op(int p, int op, i64 a, i64 b) { return %s; }
Obj OBJ = { "%s", K_SPEC, o_init, o_tinit, o_op, 0, 0, 0 };
""" % (ty, mode, call, nm)
