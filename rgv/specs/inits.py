"""Contracts of the initialisation functions: what they leave behind establishes the invariant and the preconditions of the operation contracts, for every number of threads, every machine model and
every answer of the allocator; every access of theirs lies inside the structure given or the memory allocated; different threads are given disjoint nodes."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
from specs import ccsynch, dsmsynch, oyama, lockfree, locks, osci, fc
import layout

I, Bo = z3.IntSort(), z3.BoolSort()
AT = z3.Function("element_at", I, I, I)              # address of byte x of the block b
BLK, BYTE, SIZE = [z3.Function(n, I, I) for n in ("block_of_address", "byte_of_address", "size_of_block")]


class Init:
    sequential = True
    intmode = True
    simple_solver = True
    sname = ts = None           # structures of the object and of a thread
    forget = parallel = False; dry_rlimit = None
    max_threads = 2 ** 20
    def setup(s, e, n_states=2):
        s.n = z3.Int("nthreads"); s.model = z3.Int("machine_model"); s.l = s.tl = z3.Int("l"); s.sts = [z3.Int("st%d" % i) for i in range(n_states)]
        s.pids = [z3.Int("pid%d" % i) for i in range(n_states)]; s.bases = []
        s.fresh = []; S = State(s, None, "env")
        P = [(s.l, s.size_of(s.sname))] + [(x, s.size_of(s.ts)) for x in s.sts if s.ts]
        for p, sz in P: s.block(e, p, z3.IntVal(sz)); e.add(S["alloc"][p])
        e.add(z3.Distinct(*[p for p, _ in P])) if len(P) > 1 else None
        e.add(And(s.n >= 1, s.n <= s.max_threads)); e.add(And(s.model >= 0, s.model < 2 ** 31))
        e.add_schema(Clause("bytes", [OBJ], lambda o: And(AT(o, 0) == o)))
        for p in s.pids: e.add(And(p >= 0, p < s.n)); e.add_term(IDX, p)
        if n_states > 1: e.add(s.pids[0] != s.pids[1])
        e.add_term(IDX, s.n); e.add_term(IDX, z3.IntVal(0)); s.params = [p for p, _ in P]
        return S
    def size_of(s, t): return layout.offsets([s.header], [(t, None)])[t, None][1]
    def block(s, e, b, sz): e.add(And(b != 0, BLK(b) == b, BYTE(b) == 0, SIZE(b) == sz)); e.add_term(OBJ, b)
    def elem(s, e, base, off, i, sz):
        i = z3.simplify(i); x = z3.simplify(off + i * sz)
        if z3.is_app(base) and base.decl().eq(AT): base, x = base.arg(0), z3.simplify(base.arg(1) + x)
        a = AT(base, x)
        e.add(And(BLK(a) == BLK(base), BYTE(a) == BYTE(base) + x, Implies(x == 0, a == base), Implies(BLK(a) != 0, a != 0)))
        if not any(b.eq(base) and z == sz for b, z in s.bases):
            s.bases.append((base, sz))
        e.add_schema(Clause("element", [IDX], lambda i, base=base, sz=sz: And(BLK(AT(base, sz * i)) == BLK(base), BYTE(AT(base, sz * i)) == BYTE(base) + sz * i, Implies(i == 0, AT(base, sz * i) == base), Implies(BLK(base) != 0, AT(base, sz * i) != 0))))
        e.add_term(IDX, i); e.add_term(OBJ, a)
        return a
    def extern(s, e, S, name, args, rty, k):
        if name in ("synchGetAlignedMemory", "synchGetMemory"):
            v = fresh("block", I); sz = args[-1]
            if name == "synchGetAlignedMemory": e.prove([("alignment-is-a-cache-line", args[0] == s.line())])
            e.prove([("allocation-size-is-sensible", And(sz > 0, sz < 2 ** 40))])
            e.add(Not(S["alloc"][v])); s.block(e, v, sz); s.allocated(e, S, v)
            S2 = S.child(); S2.gh["alloc"] = S["alloc"].store(v, True); k(S2, Ptr(v)); return True
        if name == "synchGetMachineModel": k(S, s.model); return True
        if name == "synchInitPool": k(s.called(e, S, name, args), e.freshw("made", 32)); return True
        if name == "synchInitBackoff": k(s.called(e, S, name, args), None); return True
        return False
    def called(s, e, S, name, args):
        S2 = S.child(); S2.loc["calls"] = S.loc.get("calls", ()) + ((name, tuple(a.addr() if isinstance(a, Ptr) else a for a in args)),); return S2
    def allocated(s, e, S, v):
        if len(s.fresh) < 8 and not any(v.eq(x) for x in s.fresh): s.fresh.append(v)
    def line(s): return layout.consts(["primitives.h"], ["CACHE_LINE_SIZE"])[0]
    def inb(s, S, o, n): return And(S["alloc"][BLK(o)], BYTE(o) >= 0, BYTE(o) + n <= SIZE(BLK(o)))
    def disjoint(s, a, b, n): return Or(BLK(a) != BLK(b), BYTE(a) + n <= BYTE(b), BYTE(b) + n <= BYTE(a))
    def access_check(s, e, S, base, key, rw):
        if not e.dry: e.prove([("access-inside-the-allocated-memory", s.inb(S, base, key[0] + key[1]))])
    def is_mover(s, e, S, base, key, rw): return True
    def private(s, S, o, u): return z3.BoolVal(False)
    def on_write(s, e, S, S2, writes, rmw): return None
    def on_read(s, e, S, base, key, v): return None
    def typed_read(s, S, base, key, v): return v
    def place(s, e, p): return p
    def on_term(s, e, so, t): pass
    def arith(s, e, op, w, a, b): return None
    def contract(s, name): return None
    def named_objs(s, S): return [("p%d" % i, p) for i, p in enumerate(s.params + s.fresh)]
    def ghost_objs(s): return []
    def obj_preds(s): return []
    def preds(s, e, S): return []
    def loop_cands(s, e, S, fr, phis):
        return [("%s<=nthreads" % n, lambda p, X, n=n: p[n] <= s.n) for n, ty, v in phis if z3.is_expr(v) and z3.is_int(v)] + [("allocated%d" % i, lambda p, X, b=b: X["alloc"][b]) for i, b in enumerate(s.params + s.fresh)]
    def loop_terms(s, e, S, heads): pass
    def establishes(s, e, T, facts, gh, prefix="initially."):
        """the invariant of the operations holds with these initial ghost values"""
        with e.scope():
            X = T.child(); X.gh.update(gh)
            for f in facts(X): e.add(f) if z3.is_expr(f) else e.add_schema(f)
            for so, t in OPTERMS(s, X): e.add_term(so, t)
            e.prove_clauses(s.inv(X), X, prefix)


def OPTERMS(s, X): return [(so, t) for so, t in s.terms(X)]
def gh(C): return dict(C.ghosts, alloc=ArrSort(I, Bo)), dict(C.ghost_dom, alloc=OBJ)


def fresh_ghosts(C, *names):
    """unconstrained initial ghost values"""
    g = {}
    for n in names or C.ghosts:
        so = C.ghosts[n]; g[n] = Arr.new("g_" + n, so.d, so.r) if isinstance(so, ArrSort) else fresh("g_" + n, so)
    return g


def then(s, e, name, args, T, k):
    """the next initialisation call of the same client"""
    fn = e.mod.func(name)
    if fn is None: raise Unsupported("function %s not found" % name)
    def back(T2, r): e.reached.add(name); k(T2, r)
    e.call(fn, args, T, back, 0)


def keep(s, S, T, os, fs): return And(*[T.f(f, o) == S.f(f, o) for o in os for f in fs])


class CC(Init, ccsynch.CC):
    ghosts, ghost_dom = gh(ccsynch.CC); header, sname, ts = "ccsynch.h", "CCSynchStruct", "CCSynchThreadState"
    def run(s, e):
        S = s.setup(e); N = s.size_of("CCSynchNode"); k = ccsynch
        def post(T, r):
            t = T.f("tail", s.l)
            e.add_term(OBJ, t)
            e.prove([("init.node-of-the-tail-inside-its-memory", And(t != 0, s.inb(T, t, N), BLK(t) != s.l)), ("init.tail-is-free", And(T.f("next", t) == 0, T.f("locked", t) == 0, T.f("comp", t) == 0)), ("init.number-of-threads", T.f("nthreads", s.l) == s.n)])
            e.add(And(k.KIND(t) == k.NODE))
            s.establishes(e, T, lambda X: [Clause("g", [OBJ], lambda o: And(X["pos"][o] == If(o == t, 0, -1), If(o == t, X["own"][o] == 0, X["own"][o] > 0))), X["H"] == 0, X["T"] == 0, X["comb"] == 0, Not(X["srv"]), X["at"][z3.IntVal(0)] == t, Clause("q", [TID], lambda u: Not(X["inq"][u]))],
                          fresh_ghosts(ccsynch.CC))
            def one(T2, r):
                a = T2.f("tsnext", s.sts[0])
                def two(T3, r):
                    b = T3.f("tsnext", s.sts[1])
                    e.prove([("thread.two-threads-share-no-node", s.disjoint(a, b, N)), ("thread.keeps-the-nodes-of-others", keep(s, T, T3, [t], ["next", "locked", "comp"])), ("thread.keeps-the-state-of-others", And(T3.f("tsnext", s.sts[0]) == a, T3.f("tail", s.l) == t))])
                e.prove([("thread.node-inside-its-memory", And(a != 0, s.inb(T2, a, N))), ("thread.node-is-not-the-tail", s.disjoint(a, t, N)), ("thread.node-is-no-part-of-a-structure", And([BLK(a) != p for p in s.params]))])
                then(s, e, "CCSynchThreadStateInit", [Ptr(s.l), Ptr(s.sts[1]), s.pids[1]], T2, two)
            then(s, e, "CCSynchThreadStateInit", [Ptr(s.l), Ptr(s.sts[0]), s.pids[0]], T, one)
        e.verify("CCSynchStructInit", [Ptr(s.l), s.n], S, post)


class DSM(Init, dsmsynch.DSM):
    ghosts, ghost_dom = gh(dsmsynch.DSM); header, sname, ts = "dsmsynch.h", "DSMSynchStruct", "DSMSynchThreadState"
    def run(s, e):
        S = s.setup(e); N = s.size_of("DSMSynchNode")
        def nodes(T, i): return [T.f(x, s.sts[i]) for x in ("n0", "n1")]
        def post(T, r):
            e.prove([("init.queue-is-empty", T.f("tail", s.l) == 0), ("init.number-of-threads", T.f("nthreads", s.l) == s.n)])
            s.establishes(e, T, lambda X: [X[g] == 0 for g in ("T", "F", "h", "ph", "comb")] + [Clause("g", [OBJ], lambda o: X["pos"][o] <= 0), Clause("q", [TID], lambda u: And(Not(X["inq"][u]), Not(X["lnk"][u])))], fresh_ghosts(dsmsynch.DSM))
            def one(T2, r):
                a = nodes(T2, 0)
                def two(T3, r):
                    b = nodes(T3, 1)
                    e.prove([("thread.two-threads-share-no-node", And([s.disjoint(x, y, N) for x in a for y in b])), ("thread.keeps-the-state-of-others", And(*[T3.f(x, s.sts[0]) == T2.f(x, s.sts[0]) for x in ("n0", "n1", "toggle")], T3.f("tail", s.l) == 0))])
                e.prove([("thread.nodes-inside-their-memory", And([And(x != 0, s.inb(T2, x, N)) for x in a])), ("thread.two-different-nodes", s.disjoint(a[0], a[1], N)), ("thread.toggle-selects-a-node", Or(T2.f("toggle", s.sts[0]) == 0, T2.f("toggle", s.sts[0]) == 1)), ("thread.node-is-no-part-of-a-structure", And([BLK(x) != p for p in s.params for x in a]))])
                then(s, e, "DSMSynchThreadStateInit", [Ptr(s.l), Ptr(s.sts[1]), s.pids[1]], T2, two)
            then(s, e, "DSMSynchThreadStateInit", [Ptr(s.l), Ptr(s.sts[0]), s.pids[0]], T, one)
        e.verify("DSMSynchStructInit", [Ptr(s.l), s.n], S, post)


class Oyama(Init, oyama.Oyama):
    ghosts, ghost_dom = gh(oyama.Oyama); header, sname, ts = "oyama.h", "OyamaStruct", "OyamaThreadState"
    def run(s, e):
        S = s.setup(e)
        def post(T, r):
            e.prove([("init.lock-is-free", T.f("lock", s.l) == 0), ("init.list-is-empty", T.f("tail", s.l) == 0), ("init.number-of-threads", T.f("nthreads", s.l) == s.n)])
            s.establishes(e, T, lambda X: [X[g] == 0 for g in ("T", "G", "lo", "c", "comb")] + [Not(X["srv"]), Clause("q", [TID], lambda u: Not(X["inq"][u]))], fresh_ghosts(oyama.Oyama))
            then(s, e, "OyamaThreadStateInit", [Ptr(s.sts[0])], T, lambda T2, r: e.prove([("thread.keeps-the-object", keep(s, T, T2, [s.l], ["lock", "tail", "nthreads"]))]))
        e.verify("OyamaInit", [Ptr(s.l), s.n], S, post)


class FC(Init, fc.FC):
    ghosts, ghost_dom = gh(fc.FC); header, sname, ts = "fc.h", "FCStruct", "FCThreadState"
    def run(s, e):
        S = s.setup(e); N = s.size
        def post(T, r):
            b = T.f("nodes", s.l)
            e.prove([("init.lock-is-free", T.f("lock", s.l) == 0), ("init.list-is-empty", T.f("head", s.l) == 0), ("init.a-record-per-thread", And(b != 0, T["alloc"][b], BLK(b) == b, SIZE(b) >= N * s.n))])
            def one(T2, r):
                a = T2.f("tsnode", s.sts[0])
                def two(T3, r):
                    b = T3.f("tsnode", s.sts[1])
                    e.prove([("thread.two-threads-share-no-record", s.disjoint(a, b, N)), ("thread.keeps-the-state-of-others", And(T3.f("tsnode", s.sts[0]) == a, T3.f("active", a) == 0, keep(s, T, T3, [s.l], ["lock", "head", "nodes"])))])
                e.prove([("thread.record-inside-its-memory", And(a != 0, s.inb(T2, a, N), BLK(a) == b, BYTE(a) == N * s.pids[0])), ("thread.record-is-inactive", T2.f("active", a) == 0)])
                then(s, e, "FCThreadStateInit", [Ptr(s.l), Ptr(s.sts[1]), s.pids[1]], T2, two)
            then(s, e, "FCThreadStateInit", [Ptr(s.l), Ptr(s.sts[0]), s.pids[0]], T, one)
        e.verify("FCStructInit", [Ptr(s.l), s.n], S, post)


class LFU(Init, lockfree.LFU):
    ghosts, ghost_dom = gh(lockfree.LFU); header, sname, ts = "lfuobject.h", "LFUObjectStruct", "LFUObjectThreadState"
    def run(s, e):
        S = s.setup(e, 1); v, lo, hi = z3.Ints("value min_back max_back")
        e.add(And(v >= -2 ** 63, v < 2 ** 63))
        def post(T, r):
            e.prove([("init.state-is-the-initial-value", T.f("state", s.l) == v)])
            then(s, e, "LFUObjectThreadStateInit", [Ptr(s.sts[0]), lo, hi], T, lambda T2, r: e.prove([("thread.backoff-as-configured", backoff(s, T2, [(lo, hi)])), ("thread.keeps-the-object", T2.f("state", s.l) == v)]))
        e.verify("LFUObjectInit", [Ptr(s.l), v], S, post)


def backoff(s, T, bounds):
    """one call of synchInitBackoff per pair of bounds, on the thread's own structure"""
    L = layout.offsets([s.header], [(s.ts, "backoff")])[s.ts, "backoff"][0] if len(bounds) == 1 else None
    c = [a for n, a in T.loc.get("calls", ()) if n == "synchInitBackoff"]
    if len(c) != len(bounds): return z3.BoolVal(False)
    return And([And(a[0] == s.sts[0] + L, a[1] == lo, a[2] == hi, a[3] >= 0, a[3] <= 30) for a, (lo, hi) in zip(c, bounds)])
def pool(s, T, size):
    L = layout.offsets([s.header], [(s.ts, "pool")])[s.ts, "pool"][0]
    c = [a for n, a in T.loc.get("calls", ()) if n == "synchInitPool"]
    return And(c[0][0] == s.sts[0] + L, c[0][1] == size) if len(c) == 1 else z3.BoolVal(False)


class LFStack(Init, lockfree.LFStack):
    ghosts, ghost_dom = gh(lockfree.LFStack); header, sname, ts = "lfstack.h", "LFStackStruct", "LFStackThreadState"
    def run(s, e):
        S = s.setup(e, 1); lo, hi = z3.Ints("min_back max_back")
        def post(T, r):
            s.establishes(e, T, lambda X: [X["n"] == 0], fresh_ghosts(lockfree.LFStack))
            then(s, e, "LFStackThreadStateInit", [Ptr(s.sts[0]), lo, hi], T, lambda T2, r: e.prove([("thread.backoff-as-configured", backoff(s, T2, [(lo, hi)])), ("thread.pool-of-nodes", pool(s, T2, s.size_of("Node"))), ("thread.keeps-the-object", keep(s, T, T2, [s.l], ["top"]))]))
        e.verify("LFStackInit", [Ptr(s.l)], S, post)


class MSQueue(Init, lockfree.MSQueue):
    ghosts, ghost_dom = gh(lockfree.MSQueue); header, sname, ts = "msqueue.h", "MSQueueStruct", "MSQueueThreadState"
    def run(s, e):
        S = s.setup(e, 1); lo, hi = z3.Ints("min_back max_back"); k = lockfree
        def post(T, r):
            d = T.f("head", s.l); e.add_term(OBJ, d)
            e.prove([("init.dummy-node-inside-its-memory", And(d != 0, s.inb(T, d, s.size_of("Node")), BLK(d) != s.l)), ("init.one-node", And(T.f("tail", s.l) == d, T.f("next", d) == 0))])
            e.add(k.KIND(d) == k.NODE)
            s.establishes(e, T, lambda X: [X[g] == 0 for g in "HLT"] + [X["at"][z3.IntVal(0)] == d, Clause("g", [OBJ], lambda o: If(o == d, And(X["own"][o] == 0, X["pos"][o] == 0), X["own"][o] > 0))], fresh_ghosts(lockfree.MSQueue))
            then(s, e, "MSQueueThreadStateInit", [Ptr(s.sts[0]), lo, hi], T, lambda T2, r: e.prove([("thread.backoff-as-configured", backoff(s, T2, [(lo, hi)])), ("thread.pool-of-nodes", pool(s, T2, s.size_of("Node"))), ("thread.keeps-the-object", And(keep(s, T, T2, [s.l], ["head", "tail"]), T2.f("next", d) == 0))]))
        e.verify("MSQueueInit", [Ptr(s.l)], S, post)


class MCS(Init, locks.MCS):
    ghosts, ghost_dom = gh(locks.MCS); header, sname, ts = "mcs.h", "MCSLockStruct", "MCSThreadState"
    def run(s, e):
        S = s.setup(e); N = s.size_of("MCSLockNode")
        def post(T, r):
            l = r.addr()
            e.prove([("init.lock-inside-its-memory", And(l != 0, s.inb(T, l, s.size_of(s.sname)))), ("init.queue-is-empty", T.f("tail", l) == 0)])
            def one(T2, r):
                a = T2.f("mynode", s.sts[0])
                def two(T3, r):
                    b = T3.f("mynode", s.sts[1])
                    e.prove([("thread.two-threads-share-no-node", s.disjoint(a, b, N)), ("thread.keeps-the-state-of-others", And(T3.f("mynode", s.sts[0]) == a, T3.f("locked", a) == 0, T3.f("tail", l) == 0))])
                e.prove([("thread.node-inside-its-memory", And(a != 0, s.inb(T2, a, N), BLK(a) != l)), ("thread.node-is-idle", T2.f("locked", a) == 0)])
                then(s, e, "MCSThreadStateInit", [Ptr(s.sts[1]), s.pids[1]], T2, two)
            then(s, e, "MCSThreadStateInit", [Ptr(s.sts[0]), s.pids[0]], T, one)
        e.verify("MCSLockInit", [], S, post)


class CLH(Init, locks.CLH):
    ghosts, ghost_dom = gh(locks.CLH); header, sname, ts = "clh.h", "CLHLockStruct", None
    def slot(s, b, i): return AT(b, 8 * i)
    def filled(s, X, l, upto, N):
        """every slot below `upto` holds a node of its own"""
        node = lambda i: X.f("slot", s.slot(X.f("mynode", l), i)); t = X.f("tail", l)
        return [Clause("own-node", [IDX], lambda i: Implies(And(0 <= i, i < upto), And(node(i) != 0, s.inb(X, node(i), N), BLK(node(i)) == node(i), node(i) != t, node(i) != l, node(i) != X.f("mynode", l), node(i) != X.f("mypred", l)))),
                Clause("no-shared-node", [IDX, IDX], lambda i, j: Implies(And(0 <= i, i < j, j < upto), node(i) != node(j)))]
    def loop_clauses(s, e, S, fr, phis):
        out = []
        if not s.fresh: return out
        l = s.fresh[0]
        for n, ty, v in phis:
            if isinstance(v, Ptr) or z3.is_bool(v): continue
            for i in range(2): out.append(("%s up to %s" % (("own-node", "no-shared-node")[i], n), lambda ph, X, n=n, i=i: s.filled(X, l, ph[n], s.N)[i]))
        return out
    def run(s, e):
        S = s.setup(e, 1); s.N = N = s.size_of("CLHLockNode")
        def post(T, r):
            l = r.addr(); t = T.f("tail", l); mn, mp = T.f("mynode", l), T.f("mypred", l)
            e.prove([("init.lock-inside-its-memory", And(l != 0, s.inb(T, l, s.size_of(s.sname)))), ("init.lock-is-free", And(t != 0, s.inb(T, t, N), T.f("locked", t) == 0)),
                     ("init.a-slot-per-thread", And([And(T["alloc"][b], BLK(b) == b, BYTE(b) == 0, SIZE(b) >= 8 * s.n) for b in (mn, mp)])), ("init.blocks-differ", z3.Distinct(l, t, mn, mp))])
            e.prove_clauses(s.filled(T, l, s.n, N), T, "init.")
            s.l = l; k = locks
            e.add(k.KIND(t) == k.NODE)
            s.establishes(e, T, lambda X: [X[g] == 0 for g in ("G", "T", "holder")] + [X["at"][z3.IntVal(0)] == t, Clause("g", [OBJ], lambda o: If(o == t, And(X["own"][o] == 0, X["pos"][o] == 0), X["own"][o] > 0)), Clause("q", [TID], lambda u: Not(X["inq"][u]))], fresh_ghosts(locks.CLH))
        e.verify("CLHLockInit", [s.n], S, post)


class Osci(Init, osci.Osci):
    ghosts, ghost_dom = gh(osci.Osci); header, sname, ts = "osci.h", "OsciStruct", "OsciThreadState"
    place = osci.Osci.place
    DIV = z3.Function("fiber_div", I, I); TIMES = z3.Function("times_fibers", I, I)
    def setup(s, e):
        S = Init.setup(s, e, 1); s.st = s.sts[0]; L = layout.offsets(["osci.h"], [("OsciFiberRec", "pid"), ("OsciStruct", "current_node")]); s.rsize = L["OsciFiberRec", None][1]; s.csize = layout.consts(["osci.h"], ["sizeof(ptr_aligned_t)"])[0]
        for i, n in enumerate((s.n0, s.n1)): e.add(And(BLK(n) == s.st, BYTE(n) == s.nn[0] + i * s.nsize, n != 0, n != s.l)); e.add_term(OBJ, n)
        e.add(And(s.n0 != s.n1, s.n0 != s.st, s.n1 != s.st))
        s.conc = None
        return S
    def arith(s, e, op, w, a, b):
        """quotient and remainder by the number of fibers per thread; products with it are opaque and monotone"""
        if op in ("udiv", "urem") and not z3.is_int_value(z3.simplify(b)):
            F = s.F; b = z3.simplify(b)
            e.prove([("division-by-zero", b != 0)])
            if e.check(b != F) != z3.unsat: return None
            s.divisor(e); q = s.DIV(a); e.add_term(IDX, a); e.add_term(IDX, q)
            return q if op == "udiv" else a - s.TIMES(q)
    def divisor(s, e):
        if s.conc is not None: return
        s.conc = True
    def lems(s, e):
        D, M, F = s.DIV, s.TIMES, s.F
        e.add_schema(Clause("quotient", [IDX], lambda a: Implies(a >= 0, And(D(a) >= 0, D(a) <= a, M(D(a)) <= a, a < M(D(a)) + F))))
        e.add_schema(Clause("times", [IDX, IDX], lambda i, j: Implies(i < j, M(i) + F <= M(j)))); e.add(M(0) == 0)
    def slots(s, X, upto, frm=0):
        b = X.f("current", s.l)
        return Clause("no-node-announced", [IDX], lambda i: Implies(And(0 <= i, frm <= i, i < upto, s.csize * i + 8 <= SIZE(b)), X.f("ptr", AT(b, s.csize * i)) == 0))
    def idle_recs(s, X, n, upto):
        r = X.f("rec", n)
        return Clause("records-idle", [IDX], lambda j: Implies(And(0 <= j, j < upto), And(X.f("comp", AT(r, s.rsize * j)) != 0, X.f("locked", AT(r, s.rsize * j)) != 0)))
    def own_recs(s, X, n): r = X.f("rec", n); return And(Not(s.S0["alloc"][r]), r != 0, X["alloc"][r], BLK(r) == r, BYTE(r) == 0, SIZE(r) >= s.rsize * s.F)
    def loop_clauses(s, e, S, fr, phis):
        out = []
        for n, ty, v in phis:
            if isinstance(v, Ptr) or z3.is_bool(v): continue
            if s.mode == "struct":
                out.append(("slots up to " + n, lambda ph, X, n=n: s.slots(X, ph[n])))
                out.append(("slots from %s on" % n, lambda ph, X, n=n: s.slots(X, s.DIV(s.n) + 1, ph[n]))); out.append(("slots after " + n, lambda ph, X, n=n: s.slots(X, s.DIV(s.n) + 1, ph[n] + 1)))
            else:
                if not any(n == "still-allocated" for n, c in out): out.append(("still-allocated", lambda ph, X: Clause("still-allocated", [OBJ], lambda o: Implies(s.S0["alloc"][o], X["alloc"][o]))))
                for k, o in enumerate((s.n0, s.n1)):
                    out.append(("records of %d up to %s" % (k, n), lambda ph, X, n=n, o=o: s.idle_recs(X, o, ph[n])))
                    out.append(("records of %d once %s" % (k, n), lambda ph, X, n=n, o=o, k=k: Clause("done", [IDX], lambda j: Implies(ph[n] > k, s.idle_recs(X, o, s.F).fn(j)))))
        if s.mode != "struct":
            for k, o in enumerate((s.n0, s.n1)): out.append(("records of %d" % k, lambda ph, X, o=o: s.idle_recs(X, o, s.F)))
        return out
    def node_ok(s, X, o): return And(s.own_recs(X, o), X.f("door", o) == 0, X.f("next", o) == 0)
    def loop_cands(s, e, S, fr, phis):
        out = Init.loop_cands(s, e, S, fr, phis)
        if s.mode == "struct": return out
        pair = lambda X: And(s.own_recs(X, s.n0), s.own_recs(X, s.n1), X.f("rec", s.n0) != X.f("rec", s.n1))
        for k, o in enumerate((s.n0, s.n1)):
            out.append(("rec%d" % k, lambda p, X, o=o: s.own_recs(X, o))); out.append(("node%d" % k, lambda p, X, o=o: s.node_ok(X, o)))
            for n, ty, v in phis:
                if z3.is_expr(v) and z3.is_int(v): out.append(("node%d once %s" % (k, n), lambda p, X, o=o, n=n, k=k: Implies(p[n] > k, s.node_ok(X, o))))
        out.append(("pair", lambda p, X: pair(X)))
        for n, ty, v in phis:
            if z3.is_expr(v) and z3.is_int(v): out.append(("pair once " + n, lambda p, X, n=n: Implies(p[n] > 1, pair(X)))); out.append(("%s<=2" % n, lambda p, X, n=n: p[n] <= 2))
        return out
    def elem(s, e, base, off, i, sz):
        if e.check(base != s.st) == z3.unsat: return None
        return Init.elem(s, e, base, off, i, sz)
    def named_objs(s, S): return Init.named_objs(s, S) + [("n0", s.n0), ("n1", s.n1)]
    def run(s, e):
        g = z3.Int("fibers_asked")
        s.mode = "struct"
        with e.scope():
            S = s.setup(e); s.lems(e); e.add(And(g >= 1, g < 2 ** 32)); F = If(g <= s.n, g, 1); e.add(s.F == F)
            def post(T, r):
                q = s.DIV(s.pids[0]); b = T.f("current", s.l); e.add_term(IDX, q); e.add_term(IDX, s.DIV(s.n))
                a = AT(b, s.csize * q); e.add_term(OBJ, a)
                e.prove([("init.queue-is-empty", T.f("tail", s.l) == 0), ("init.number-of-threads", T.f("nthreads", s.l) == s.n), ("init.fibers-per-thread", T.f("fpt", s.l) == F), ("init.a-slot-for-every-group", And(b != 0, T["alloc"][b], BLK(b) == b, s.csize * q + 8 <= SIZE(b))),
                         ("init.no-node-announced-in-any-group", T.f("ptr", a) == 0)])
            e.verify("OsciInit", [Ptr(s.l), s.n, g], S, post)
        s.mode = "thread"
        with e.scope():
            s.S0 = S = s.setup(e); e.add(And(s.F >= 1, s.F <= s.n, S.f("fpt", s.l) == s.F))
            def post(T, r):
                e.prove([("thread.nodes-are-free", And(s.node_ok(T, s.n0), s.node_ok(T, s.n1))), ("thread.nodes-share-no-records", T.f("rec", s.n0) != T.f("rec", s.n1)), ("thread.records-not-shared-with-others", And(Not(S["alloc"][T.f("rec", s.n0)]), Not(S["alloc"][T.f("rec", s.n1)]))),
                         ("thread.toggle-selects-a-node", Or(T.f("toggle", s.st) == 0, T.f("toggle", s.st) == 1)), ("thread.keeps-the-object", keep(s, S, T, [s.l], ["tail", "nthreads", "fpt", "current"]))])
                for o in (s.n0, s.n1): e.prove_clauses([s.idle_recs(T, o, s.F)], T, "thread.")
            e.verify("OsciThreadStateInit", [Ptr(s.st), Ptr(s.l), s.pids[0]], S, post)


def hs_fields(s):
    N, O = "HSynchNode", "HSynchStruct"
    L = layout.offsets(["hsynch.h"], [(O, x) for x in "Tail nthreads central_lock nodes node_indexes numa_node_size numa_nodes numa_policy".split()] + [(N, "next"), (N, "locked"), (N, "completed"), ("HSynchThreadState", "next_node"), ("HSynchThreadState", "numa_node"), ("HSynchNodePtr", "ptr")])
    s.fields = dict(tails=L[O, "Tail"], nthreads=L[O, "nthreads"], clock=L[O, "central_lock"], nodes=L[O, "nodes"], indexes=L[O, "node_indexes"], nsize=L[O, "numa_node_size"], regions=L[O, "numa_nodes"], policy=L[O, "numa_policy"],
                    next=L[N, "next"], locked=L[N, "locked"], comp=L[N, "completed"], tsnext=L["HSynchThreadState", "next_node"], numa=L["HSynchThreadState", "numa_node"], ptr=(0, 8), word=(0, 4))
    s.N, s.tsz = L[N, None][1], L["HSynchNodePtr", None][1]
    if L["HSynchNodePtr", "ptr"] != (0, 8): raise Unsupported("layout of HSynchNodePtr")
    s.keys = set(s.fields.values())


class HSBase(Init, Spec):
    src = "libconcurrent/concurrent/hsynch.c"; header, sname, ts = "hsynch.h", "HSynchStruct", "HSynchThreadState"
    ghosts, ghost_dom = ghosts(alloc="o:b", bown="o:i")
    def __init__(s):
        Spec.__init__(s); hs_fields(s); s.tid = z3.Int("me"); s.numa_answers = {}
    def const(s, e, name, lo, hi):
        """an answer of the system that does not change"""
        c = z3.Int(name); e.add(And(c >= lo, c <= hi)); return c
    def arith(s, e, op, w, a, b):
        if op in ("udiv", "urem", "sdiv", "srem"):
            e.prove([("division-by-zero", b != 0)])
            if z3.is_int_value(z3.simplify(b)) or op[0] == "s": return None
            U = lambda x: x if e.check(x < 0) == z3.unsat else e.uns(x, w)
            a, b = z3.simplify(U(a)), z3.simplify(U(b)); k = (a.sexpr(), b.sexpr())
            if k not in s.numa_answers: s.numa_answers[k] = fresh("quotient", I), fresh("remainder", I)
            q, r = s.numa_answers[k]
            e.add(And(q >= 0, q <= a, r >= 0, r < b, r <= a, Implies(a < b, And(q == 0, r == a)), Implies(a >= b, q >= 1)))
            return q if op == "udiv" else r
    def extern(s, e, S, name, args, rty, k):
        if name == "synchGetPreferredCore": k(S, s.const(e, "preferred_core", -1, 2 ** 20)); return True
        if name == "synchGetPreferredNumaNode": k(S, s.const(e, "preferred_node", -1, 2 ** 20)); return True
        if name == "synchGetNCores": k(S, s.const(e, "cores", 1, 2 ** 20)); return True
        if name in ("numa_num_task_nodes", "numa_num_configured_nodes"): k(S, s.const(e, "system_nodes", 1, 2 ** 20)); return True
        if name == "numa_node_of_cpu": r = fresh("node_of_cpu", I); e.add(And(r >= -1, r < 2 ** 20)); k(S, r); return True
        if name == "synchGetPreferedCore": return False
        return Init.extern(s, e, S, name, args, rty, k)
    # addresses of the entries of region k
    def blk(s, X, k): return X.f("ptr", AT(X.f("nodes", s.l), 8 * k))
    def tail(s, X, k): return X.f("ptr", AT(X.f("tails", s.l), s.tsz * k))
    def idx(s, X, k): return X.f("word", AT(X.f("indexes", s.l), 4 * k))
    def arrays(s, X):
        """the arrays of the object: one entry per region"""
        bs = [X.f(f, s.l) for f in ("nodes", "indexes", "tails")]; m = X.f("regions", s.l)
        return And(*[And(b != 0, X["alloc"][b], BLK(b) == b, BYTE(b) == 0, SIZE(b) >= z * m) for b, z in zip(bs, (8, 4, s.tsz))], z3.Distinct(s.l, *bs), m >= 1, m < 2 ** 22, X.f("nsize", s.l) >= 1, X.f("nsize", s.l) < 2 ** 31, X.f("nthreads", s.l) == s.n, Implies(X.f("policy", s.l) == 0, m <= s.n), Or(X.f("policy", s.l) == 0, X.f("policy", s.l) == 1))


class HSStruct(HSBase):
    def untouched(s, X, upto, frm=0):
        return [Clause("region-empty", [IDX], lambda k, g=g: Implies(And(0 <= k, frm <= k, k < upto), g(X, k) == 0)) for g in (s.blk, s.tail, s.idx)]
    def loop_clauses(s, e, S, fr, phis):
        out = []
        for i in range(3):
            out.append(("all of %d" % i, lambda ph, X, i=i: s.untouched(X, X.f("regions", s.l))[i]))
            for n, ty, v in phis:
                if not z3.is_expr(v) or not z3.is_int(v): continue
                out.append(("%d up to %s" % (i, n), lambda ph, X, n=n, i=i: s.untouched(X, ph[n])[i])); out.append(("%d from %s on" % (i, n), lambda ph, X, n=n, i=i: s.untouched(X, X.f("regions", s.l), ph[n])[i]))
                out.append(("%d after %s" % (i, n), lambda ph, X, n=n, i=i: s.untouched(X, X.f("regions", s.l), ph[n] + 1)[i]))
        return out
    def loop_cands(s, e, S, fr, phis): return Init.loop_cands(s, e, S, fr, phis) + [("arrays", lambda p, X: s.arrays(X))] + [("%s<regions+%d" % (n, d), lambda p, X, n=n, d=d: p[n] < X.f("regions", s.l) + d) for n, ty, v in phis if z3.is_expr(v) and z3.is_int(v) for d in (0, 1)]
    def extern(s, e, S, name, args, rty, k):
        if name == "CLHLockInit":
            e.prove([("central-lock-for-all-threads", args[0] == s.n)]); v = fresh("lock", I); s.clh = v; e.add(And(v != 0, Not(S["alloc"][v]), BLK(v) == v)); k(S, Ptr(v)); return True
        return HSBase.extern(s, e, S, name, args, rty, k)
    def run(s, e):
        S = s.setup(e, 1); g = z3.Int("regions_asked"); e.add(And(g >= 0, g < 2 ** 31))
        def post(T, r):
            e.prove([("init.arrays-with-an-entry-per-region", s.arrays(T)), ("init.as-many-regions-as-asked", Implies(g > 0, T.f("regions", s.l) == If(g <= s.n, g, s.n))), ("init.central-lock", T.f("clock", s.l) == s.clh)])
            e.prove_clauses(s.untouched(T, T.f("regions", s.l)), T, "init.")
        e.verify("HSynchStructInit", [Ptr(s.l), s.n, g], S, post)


class HSStructNoNuma(HSStruct):
    text = "#include <config.h>\n#undef SYNCH_NUMA_SUPPORT\n#include \"@REPO@/libconcurrent/concurrent/hsynch.c\"\n"


class HSThread(HSBase):
    """the threads of a region install its block of nodes, its first tail node and take nodes of it concurrently"""
    sequential = False
    NODES, INDEXES, TAILS = z3.Ints("nodes_array indexes_array tails_array")
    def blk(s, X, k): return X.f("ptr", AT(s.NODES, 8 * k))
    def tail(s, X, k): return X.f("ptr", AT(s.TAILS, s.tsz * k))
    def idx(s, X, k): return X.f("word", AT(s.INDEXES, 4 * k))
    def inv(s, X):
        m = X.f("regions", s.l); n2 = s.N * (s.n + 2)
        def reg(k):
            B, t = s.blk(X, k), s.tail(X, k); L = AT(B, s.N * (s.n + 1))
            return Implies(And(0 <= k, k < m), And(Implies(B != 0, And(X["alloc"][B], BLK(B) == B, BYTE(B) == 0, SIZE(B) >= n2, X["bown"][B] == 0, s.notarray(X, B))), s.idx(X, k) >= 0, Implies(B == 0, And(s.idx(X, k) == 0, t == 0)),
                           Implies(And(B != 0, t == 0), And(X.f("next", L) == 0, X.f("locked", L) == 0, X.f("comp", L) == 0))))
        return [Clause("arrays", [], lambda: And(X.f("nodes", s.l) == s.NODES, X.f("indexes", s.l) == s.INDEXES, X.f("tails", s.l) == s.TAILS, s.arrays(X), X["alloc"][s.l], X["bown"][s.l] == 0, *[X["bown"][b] == 0 for b in (s.NODES, s.INDEXES, s.TAILS)])), Clause("region", [IDX], reg),
                Clause("region-blocks-differ", [IDX, IDX], lambda k, j: Implies(And(0 <= k, k < j, j < m, s.blk(X, k) != 0), s.blk(X, k) != s.blk(X, j))),
                Clause("owner", [OBJ], lambda o: X["bown"][o] >= 0)]
    def lemmas(s, X):
        L = s.N * (s.n + 1)
        return [Clause("element", [IDX], lambda i, b=b, z=z: And(BLK(AT(b, z * i)) == b, BYTE(AT(b, z * i)) == z * i, AT(b, z * i) != 0)) for b, z in ((s.NODES, 8), (s.TAILS, s.tsz), (s.INDEXES, 4))] + [
                Clause("last", [OBJ], lambda b: And(BLK(AT(b, L)) == BLK(b), BYTE(AT(b, L)) == BYTE(b) + L))]
    def notarray(s, X, b): return And([b != x for x in (s.l, s.NODES, s.INDEXES, s.TAILS)])
    def terms(s, X): return []
    def skolem_terms(s, S, S2, sk, u):
        out = []
        for k in sk[IDX]: out += [(OBJ, s.blk(S, k)), (OBJ, AT(s.NODES, 8 * k)), (OBJ, AT(s.TAILS, s.tsz * k)), (OBJ, AT(s.INDEXES, 4 * k)), (OBJ, AT(s.blk(S, k), s.N * (s.n + 1))), (OBJ, AT(s.blk(S2, k), s.N * (s.n + 1)))]
        return out
    def rely(s, A, B, u):
        m = A.f("regions", s.l)
        def reg(k): return Implies(And(0 <= k, k < m), And(Implies(s.blk(A, k) != 0, s.blk(B, k) == s.blk(A, k)), Implies(s.tail(A, k) != 0, s.tail(B, k) != 0), s.idx(B, k) >= s.idx(A, k)))
        def mine(o): return And(Implies(And(A["alloc"][o], Or(A["bown"][o] == 0, A["bown"][o] == u)), And(B["alloc"][o], B["bown"][o] == A["bown"][o])), (A["bown"][o] == u) == (B["bown"][o] == u), Implies(And(A["bown"][BLK(o)] == u, A["alloc"][BLK(o)]), And(B["bown"][BLK(o)] == u, B["alloc"][BLK(o)], *[B.f(f, o) == A.f(f, o) for f in ("next", "locked", "comp", "ptr", "word", "tsnext", "numa")])))
        return [Clause("regions", [IDX], reg), Clause("mine", [OBJ], mine), Clause("const", [], lambda: And([B.f(f, s.l) == A.f(f, s.l) for f in ("nodes", "indexes", "tails", "regions", "nsize", "policy", "nthreads", "clock")]))]
    def is_mover(s, e, S, base, key, rw): return base.eq(s.sts[0]) or (base.eq(s.l) and rw == "r")
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        e.add_term(OBJ, BLK(base))
        if key == s.fields["ptr"]: e.prove([("a-tail-is-set-only-once", Implies(BLK(base) == s.TAILS, old == 0))])     # the other threads may be operating on it already
        if rmw and key == s.fields["ptr"]:      # a block of nodes is installed, or the first tail node of a region
            inst = And(BLK(base) == s.NODES, v != 0)
            first = BLK(base) == s.TAILS
            r = z3.simplify(BYTE(base) / s.tsz); e.add_term(IDX, r)
            e.prove([("first-tail-is-the-last-node-of-the-region's-block", Implies(first, And(base == AT(s.TAILS, s.tsz * r), s.blk(S, r) != 0, v == AT(s.blk(S, r), s.N * (s.n + 1)))))])
            S2.loc["tail_tried"] = True
            return dict(bown=Store(S["bown"], v, If(inst, z3.IntVal(0), S["bown"][v])))
        if rmw and key == s.fields["word"]:
            r = z3.simplify(BYTE(base) / 4); e.add_term(IDX, r)
            e.prove([("takes-an-index-of-a-region", base == AT(s.INDEXES, 4 * r)), ("takes-one-index", And(v == old + 1, z3.BoolVal("taken" not in S.loc)))])
            e.add(old < s.n)        # every thread takes one index: at most nthreads - 1 were taken before
            S2.loc["taken"] = (old, r)
    def region(s, e, S):
        r = S.f("numa", s.sts[0]); e.add_term(IDX, r); return r
    def allocated(s, e, S, v): Init.allocated(s, e, S, v)
    def extern(s, e, S, name, args, rty, k):
        if name == "synchGetAlignedMemory":
            def k2(S2, p):
                v = p.addr(); S2.gh["bown"] = S["bown"].store(v, s.tid); e.add(And(s.notarray(S, v), S["bown"][v] == 0))
                k(S2, p)
            return HSBase.extern(s, e, S, name, args, rty, k2)
        if name == "synchFreeMemory":
            b = args[0].addr(); e.prove([("frees-only-a-block-of-its-own", And(S["alloc"][b], S["bown"][b] == s.tid, args[1] == SIZE(b)))])
            S2 = S.child(); S2.gh["alloc"] = S["alloc"].store(b, False); S2.gh["bown"] = S["bown"].store(b, z3.IntVal(0)); k(S2, None); return True
        return HSBase.extern(s, e, S, name, args, rty, k)
    def run(s, e):
        S = s.setup(e, 1); st = s.sts[0]
        e.add_term(TID, s.tid); e.add(And(s.tid > 0, S["bown"][st] == s.tid, S["alloc"][st]))
        e.assume_inv(S)
        e.add(And(st != s.l, s.notarray(S, st)))
        def post(T, r):
            T = e.env(T); g = s.region(e, T); B = s.blk(T, g); m = T.f("regions", s.l); o = T.f("tsnext", st)
            tk = T.loc.get("taken")
            e.prove([("thread.region-exists", And(0 <= g, g < m)), ("thread.region-has-its-nodes-and-a-tail", And(B != 0, s.tail(T, g) != 0)), ("thread.took-one-index", z3.BoolVal(tk is not None))])
            if tk: e.prove([("thread.node-of-the-index-taken", And(o != 0, BLK(o) == B, BYTE(o) == s.N * tk[0], tk[1] == g)), ("thread.node-inside-the-block-and-not-the-tail", And(tk[0] >= 0, s.N * tk[0] + s.N <= s.N * (s.n + 1)))])
        e.verify("HSynchThreadStateInit", [Ptr(s.l), Ptr(st), s.pids[0]], S, post)


class HSThreadNoNuma(HSThread):
    text = HSStructNoNuma.text
