"""Contracts of the hash tables: one list for each cell, each protected by its own lock (CLH) or combining object (DSM); for an
arbitrary key the operations on its cell behave as operations on a map, and touch nothing but that cell's list."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

HASH, NODE, TS, AREA, LOCK = 1, 2, 3, 4, 5
I = z3.IntSort(); B = z3.BoolSort()
KIND = z3.Function("kind", I, I)
ELEMENT = z3.Function("element", I, I, I)
BASE_OF, INDEX_OF, BYTES, LOCKOF, LOCKIDX = [z3.Function(n, *a) for n, a in (("array_of", (I, I)), ("index_of", (I, I)), ("bytes_of", (I, I)), ("lock_of_cell", (I, I)), ("cell_of_lock", (I, I)))]
CELLOF = z3.Function("cell_of_key", I, I)
REM = z3.Function("rem_number_of_cells", I, I)
PRIVATE, FREE, GONE = -1, -2, -3


class Hash(Spec):
    """ghost: has/mval the map; node[k]: the node of key k; cellof[o]: the cell whose list holds o (-1: held by the operation, -2: free, -3: removed);
    rank[o]: number of nodes from o to the end of its list; n: length of the list of the cell considered"""
    sequential = True
    byte_offsets = True
    ghosts, ghost_dom = ghosts(has="x:b", mval="x:w", node="x:o", cellof="o:i", rank="o:i", n="i", inited="o:b", tinit="o:b")
    def __init__(s):
        super().__init__()
        L = s.L = layout.offsets([s.hdr], [(s.st, x) for x in ("announce", "synch", "cells", "size")] + [("HashNode", x) for x in ("next", "key", "value")] + [("HashOperations", x) for x in ("key", "value", "node", "cell", "op")] + [(s.ts, x) for x in s.tsf])
        s.fields = {x: L[s.st, x] for x in ("announce", "synch", "cells", "size")}
        for x in ("next", "key", "value"): s.fields[x + "_"] = L["HashNode", x]
        for x in ("key", "value", "node", "cell", "op"): s.fields["a." + x] = L["HashOperations", x]
        if "th_state" in s.tsf: s.fields["th_state"] = L[s.ts, "th_state"]
        s.fields["ptr"] = (0, 8)
        s.keys = set(s.fields.values())
        s.sz = dict(zip(("cells", "synch", "announce", "th_state"), layout.consts([s.hdr], ["sizeof(ptr_aligned_t)", s.synch_el, "sizeof(HashOperations)", s.ts_el])))
        s.nodesize = L["HashNode", None][1]
        s.l, s.t, s.key, s.value, s.pid, s.ncells, s.nthreads = z3.Ints("hash threadstate key value pid number_of_cells nthreads")
        s.conf = {x: z3.Int("array_" + x) for x in ("announce", "synch", "cells")}; s.ths = z3.Int("array_th_state")
        s.c = None; s.mode = ""; s.inside = False
    def named_objs(s, S): return [("hash", s.l)]
    def private(s, S, o, u): return z3.BoolVal(False)

    # ------------------------------------------------------------------ addresses and arithmetic
    def elem(s, e, base, off, i, sz):
        if off: return None
        a = ELEMENT(base, i); e.add(And(BASE_OF(a) == base, INDEX_OF(a) == i, KIND(a) == AREA, a != 0)); e.add_term(OBJ, a); e.add_term(IDX, i)
        e.prove([("array-index-in-bounds", And(i >= 0, (i + 1) * sz <= BYTES(base)))])
        return a
    def arith(s, e, op, w, a, b):
        if op == "srem" and s.mode == "op" and e.check(b != s.ncells) == z3.unsat:
            r = REM(a); n = s.ncells
            e.add(And(Implies(a >= 0, And(r >= 0, r < n, r <= a)), Implies(a <= 0, And(r <= 0, r > -n, r >= a)), Implies(And(a > -n, a < n), r == a), Implies(And(a >= n, a < 2 * n), r == a - n)))
            return r
    def typed_read(s, S, base, key, v):
        if s.mode == "tinit" and base.eq(s.l) and key == s.fields["synch"]: return s.conf["synch"]
        if s.mode != "op": return v
        if base.eq(s.l):
            if key == s.fields["size"]: return s.ncells
            for x in s.conf:
                if key == s.fields[x]: return s.conf[x]
        if base.eq(s.t) and "th_state" in s.fields and key == s.fields["th_state"]: return s.ths
        if z3.is_app(base) and base.decl().eq(ELEMENT) and base.arg(0).eq(s.conf["synch"]): return LOCKOF(base.arg(1))
        return v

    # ------------------------------------------------------------------ the list of the cell considered, and the map
    def inv(s, S):
        if s.c is None: return []
        c = s.c; has, mval, node, cellof, rank, n = [S[x] for x in "has mval node cellof rank n".split()]
        f = lambda x, o: S.f(x + "_", o); head = S.f("ptr", ELEMENT(s.conf["cells"], c))
        def nd(o):
            k, nx = f("key", o), f("next", o)
            return Implies(cellof[o] == c, And(o != 0, KIND(o) == NODE, 1 <= rank[o], rank[o] <= n, has[k], node[k] == o, mval[k] == f("value", o), CELLOF(k) == c, If(nx == 0, rank[o] == 1, And(cellof[nx] == c, rank[nx] == rank[o] - 1))))
        return [Clause("head", [], lambda: And(n >= 0, If(head == 0, n == 0, And(cellof[head] == c, rank[head] == n)))), Clause("nodes", [OBJ], nd),
                Clause("one-node-per-place", [OBJ, OBJ], lambda o, q: Implies(And(cellof[o] == c, cellof[q] == c, rank[o] == rank[q]), o == q)),
                Clause("map", [IDX], lambda k: Implies(And(has[k], CELLOF(k) == c), And(cellof[node[k]] == c, f("key", node[k]) == k)))]
    def terms(s, S):
        if s.c is None: return []
        h = S.f("ptr", ELEMENT(s.conf["cells"], s.c)); d = S["node"][s.key]
        return [(OBJ, h), (OBJ, S.f("next_", h)), (OBJ, d), (OBJ, S.f("next_", d)), (IDX, s.key), (IDX, S.f("key_", h))]
    def sktem(s, e, S):
        for i in (0, 1):
            o = e.skolem(OBJ, i); k = S.f("key_", o)
            e.add_term(OBJ, S.f("next_", o)); e.add_term(IDX, k); e.add_term(OBJ, S["node"][k])
        k = e.skolem(IDX, 0); e.add_term(OBJ, S["node"][k])
        for so, t in s.terms(S): e.add_term(so, t)

    # ------------------------------------------------------------------ critical section of a cell
    def enter(s, e, S, i):
        e.prove([("one-operation-per-call", z3.BoolVal("applied" not in S.loc))])
        s.c = i; e.prove([("cell-exists", And(i >= 0, i < s.ncells))])
        e.prove([("every-operation-on-a-key-uses-the-same-cell", Implies(And(*pc), i == t)) for pc, t in s.cellterms])
        if s.op == s.ops[0][0]: s.cellterms.append((list(e.facts), i))
        e.add(CELLOF(s.key) == i)
        S1 = State(s, S, "env")
        an = ELEMENT(s.conf["announce"], s.pid)
        for x in ("a.key", "a.value", "a.node", "a.cell", "a.op"): e.add(S1.f(x, an) == S.f(x, an))
        for v in S.loc.get("mine", ()): e.add(S1["cellof"][v] == PRIVATE)
        e.add_term(OBJ, ELEMENT(s.conf["cells"], i)); e.assume_inv(S1); S1.loc["entry"] = S1
        for so, v in s.terms(S1): e.add_term(so, v)
        S1.loc["applied"] = True
        s.inside = True
        return S1
    def exit(s, e, S1, T):
        """what happened to the list is exactly the operation on the map"""
        k, c = s.key, s.c; has = S1["has"][k]; d = S1["node"][k]; h = T.f("ptr", ELEMENT(s.conf["cells"], c))
        for cond, there in ((has, True), (Not(has), False)):
            e.push(); e.add(cond)
            if e.quick_sat():
                G = T.child()
                if s.op == "insert" and there: G.gh.update(mval=T["mval"].store(k, s.value))
                elif s.op == "insert":
                    G.gh.update(has=T["has"].store(k, True), mval=T["mval"].store(k, s.value), node=T["node"].store(k, h), cellof=T["cellof"].store(h, c), rank=T["rank"].store(h, T["n"] + 1), n=T["n"] + 1)
                    e.prove([("insert.uses-a-node-of-its-own", T["cellof"][h] == PRIVATE)])
                elif s.op == "delete" and there:
                    rk = Arr.new("rank", I, I); e.add_schema(Clause("shift", [OBJ], lambda o: rk[o] == If(And(T["cellof"][o] == c, T["rank"][o] > T["rank"][d]), T["rank"][o] - 1, T["rank"][o])))
                    G.gh.update(has=T["has"].store(k, False), cellof=T["cellof"].store(d, GONE), n=T["n"] - 1, rank=rk)
                s.sktem(e, S1); s.sktem(e, G)
                e.prove_clauses(s.inv(G), G, "%s.%s." % (s.op, "present" if there else "absent"))
            e.pop()
        e.push(); s.sktem(e, S1); e.prove_clauses([Clause("other-cells-untouched", [OBJ], lambda o: Implies(And(KIND(o) == NODE, S1["cellof"][o] >= 0, S1["cellof"][o] != c), And(*[T.f(x, o) == S1.f(x, o) for x in ("next_", "key_", "value_")])))], T, s.op + "."); e.pop()
        s.inside = False
        S3 = State(s, T, "env"); S3.loc["has"] = has; return S3
    def access_check(s, e, S, base, key, rw):
        if e.dry or str(base).startswith("@"): return
        if s.mode != "op": return
        if base.eq(s.l) or base.eq(s.t): e.prove([("configuration-is-only-read", z3.BoolVal(rw == "r"))]); return
        an = And(BASE_OF(base) == s.conf["announce"], INDEX_OF(base) == s.pid, KIND(base) == AREA)
        sy = And(BASE_OF(base) == s.conf["synch"], KIND(base) == AREA, z3.BoolVal(rw == "r"))
        ce = And(BASE_OF(base) == s.conf["cells"], INDEX_OF(base) == s.c, KIND(base) == AREA) if s.inside else z3.BoolVal(False)
        nd = And(KIND(base) == NODE, Or(S["cellof"][base] == PRIVATE, S["cellof"][base] == s.c if s.inside else z3.BoolVal(False)))
        e.prove([("touches-only-its-own-cell", Or(an, sy, ce, nd))])

    # ------------------------------------------------------------------ contracts of callees
    def extern(s, e, S, name, args, rty, k):
        if name in ("synchGetAlignedMemory", "synchGetMemory"):
            n = args[1] if name == "synchGetAlignedMemory" else args[0]
            v = fresh("area", I); e.add_term(OBJ, v); e.add(And(v != 0, KIND(v) == AREA, BYTES(v) == n, BASE_OF(v) == 0, v != s.l, v != s.t))
            S2 = S.child(); S2.loc["areas"] = S.loc.get("areas", ()) + (v,)
            for o in S.loc.get("areas", ()): e.add(v != o)
            e.add_schema(Clause("elements", [IDX], lambda j: And(BASE_OF(ELEMENT(v, j)) == v, INDEX_OF(ELEMENT(v, j)) == j, KIND(ELEMENT(v, j)) == AREA)))
            k(S2, Ptr(v)); return True
        return False
    def contract(s, name):
        def index(S, a):
            if z3.is_app(a) and a.decl().eq(LOCKOF): return a.arg(0)
            if z3.is_app(a) and a.decl().eq(ELEMENT) and a.arg(0).eq(s.conf["synch"]): return a.arg(1)
            if a.eq(s.conf["synch"]): return z3.IntVal(0)
            return None
        def lock(e, S, a, k):
            i = index(S, a[0].addr())
            e.prove([("locks-a-cell", z3.BoolVal(i is not None)), ("locks-under-its-own-pid", a[1] == s.pid)])
            if i is None: return
            k(s.enter(e, S, i), None)
            s.inside = False
        def unlock(e, S, a, k):
            i = index(S, a[0].addr())
            e.prove([("unlocks-the-cell-it-locked", i == s.c if i is not None and s.inside else z3.BoolVal(False)), ("unlocks-under-its-own-pid", a[1] == s.pid)])
            if not s.inside or "entry" not in S.loc: return
            k(s.exit(e, S.loc["entry"], S), None); s.inside = True
        def apply(e, S, a, k):
            i = index(S, a[0].addr()); ts = a[1].addr()
            e.prove([("applies-to-a-cell", z3.BoolVal(i is not None)), ("under-its-own-pid", a[5] == s.pid)])
            if i is None: return
            e.prove([("with-the-thread-state-of-that-cell", Or(ts == ELEMENT(s.ths, i), And(i == 0, ts == s.ths)))])
            fn = e.mod.func(str(a[2].base).lstrip("@"))
            if fn is None: raise Unsupported("the operation is not a function of this file")
            e.inlined.add(fn.name); S1 = s.enter(e, S, i)
            def done(S2, r):
                S3 = s.exit(e, S1, S2); k(S3, r); s.inside = True
            e.call(fn, [a[3], a[4], a[5]], S1, done, 1); s.inside = False
        def alloc(e, S, a, k):
            e.prove([("allocates-from-the-callers-own-pool", a[0].addr() == s.t + s.L[s.ts, "pool"][0])])
            v = fresh("node", I); e.add_term(OBJ, v); e.add(And(v != 0, KIND(v) == NODE, S["cellof"][v] == FREE))
            S2 = S.child(); S2.gh["cellof"] = S["cellof"].store(v, PRIVATE); S2.loc["mine"] = S.loc.get("mine", ()) + (v,); k(S2, Ptr(v))
        def recycle(e, S, a, k):
            o = a[1].addr()
            e.prove([("recycles-to-the-callers-own-pool", a[0].addr() == s.t + s.L[s.ts, "pool"][0]), ("recycles-only-its-own-nodes", Or(o == 0, S["cellof"][o] == PRIVATE))])
            S2 = S.child(); S2.gh["cellof"] = S["cellof"].store(o, FREE); k(S2, None)
        def init_pool(e, S, a, k):
            e.prove([("thread-init.own-pool", a[0].addr() == s.t + s.L[s.ts, "pool"][0]), ("thread-init.pool-objects-hold-a-node", a[1] >= s.nodesize)])
            S2 = S.child(); S2.loc["pool"] = True; k(S2, z3.IntVal(0))
        def lockinit(e, S, a, k):
            v = fresh("lock", I); e.add_term(OBJ, v); e.add(And(v != 0, KIND(v) == LOCK, Not(S["inited"][v])))
            e.prove([("init.for-all-the-threads", a[0] == s.nthreads)])
            S2 = S.child(); S2.gh["inited"] = S["inited"].store(v, True); k(S2, Ptr(v))
        def dsminit(e, S, a, k):
            o = a[0].addr(); e.prove([("init.for-all-the-threads", a[1] == s.nthreads), ("init.initialises-a-combining-object-once", Not(S["inited"][o]))])
            S2 = S.child(); S2.gh["inited"] = S["inited"].store(o, True); k(S2, None)
        def dsmts(e, S, a, k):
            i = index(S, a[0].addr()); o = a[1].addr(); e.add_term(OBJ, o)
            e.prove([("thread-init.of-an-existing-cell", z3.BoolVal(i is not None)), ("thread-init.under-its-own-pid", a[2] == s.pid)])
            if i is None: return
            e.prove([("thread-init.the-state-of-that-cell", Or(And(BASE_OF(o) == S.f("th_state", s.t), INDEX_OF(o) == i), And(o == S.f("th_state", s.t), i == 0)))])
            S2 = S.child(); S2.gh["tinit"] = S["tinit"].store(o, True); k(S2, None)
        return dict(CLHLock=lock, CLHUnlock=unlock, DSMSynchApplyOp=apply, synchAllocObj=alloc, synchRecycleObj=recycle, synchInitPool=init_pool, CLHLockInit=lockinit, DSMSynchStructInit=dsminit, DSMSynchThreadStateInit=dsmts).get(name)

    # ------------------------------------------------------------------ loops
    def u(s, p): return p
    def loop_clauses(s, e, S, fr, phis):
        out = []
        if s.mode in ("init", "tinit"):
            for x in ("announce", "synch", "cells", "size"): out.append(("same-" + x, lambda ph, X, x=x: Clause("same", [], lambda: X.f(x, s.l) == S.f(x, s.l))))
            for n, ty, v in phis:
                if isinstance(v, Ptr) or z3.is_bool(v): continue
                def upto(mk): return lambda ph, X, n=n: Clause("upto", [IDX], lambda j: Implies(And(0 <= j, j < ph[n]), mk(X, j)))
                def el(X, x, j): a = ELEMENT(X.f(x, s.t if x == "th_state" else s.l), j); return If(j == 0, X.f(x, s.t if x == "th_state" else s.l), a) if False else a
                if s.mode == "init":
                    out.append(("cells-empty-up-to-%s" % n, upto(lambda X, j: X.f("ptr", el(X, "cells", j)) == 0)))
                    out.append(("synch-initialised-up-to-%s" % n, upto(lambda X, j: X["inited"][X.f("ptr", el(X, "synch", j)) if s.pointers else el(X, "synch", j)])))
                    out.append(("synch-not-initialised-from-%s" % n, lambda ph, X, n=n: Clause("from", [OBJ], lambda o: Implies(Or(KIND(o) == LOCK if False else z3.BoolVal(False), And(KIND(o) == AREA, BASE_OF(o) == X.f("synch", s.l), INDEX_OF(o) >= ph[n])), Not(X["inited"][o])))))
                    if s.pointers:
                        out.append(("locks-distinct-up-to-%s" % n, lambda ph, X, n=n: Clause("distinct", [IDX, IDX], lambda i, j: Implies(And(0 <= i, i < j, j < ph[n]), X.f("ptr", el(X, "synch", i)) != X.f("ptr", el(X, "synch", j))))))
                else: out.append(("thread-states-initialised-up-to-%s" % n, upto(lambda X, j: X["tinit"][el(X, "th_state", j)])))
            return out
        if not s.inside: return out
        E = S.loc.get("entry")
        if E is None: return out
        c = s.c; top = E.f("ptr", ELEMENT(s.conf["cells"], c)); key = s.key
        unseen = lambda X, p, o: And(X["cellof"][o] == c, Or(p == 0, X["rank"][o] > X["rank"][p]))
        ptrs = [n for n, ty, v in phis if isinstance(v, Ptr)]; flags = [(n, v) for n, ty, v in phis if not isinstance(v, Ptr)]
        def true(x): return x if z3.is_bool(x) else x != 0
        for n in ptrs:
            seen = lambda X, p: Clause("seen", [OBJ], lambda o: Implies(unseen(X, p, o), X.f("key_", o) != key))
            out.append(("not-before(%s)" % n, lambda ph, X, n=n: Clause("seen", [OBJ], lambda o: Implies(unseen(X, ph[n].base, o), X.f("key_", o) != key))))
            out.append(("in-list(%s)" % n, lambda ph, X, n=n: Clause("in", [], lambda: Or(ph[n].base == 0, X["cellof"][ph[n].base] == c))))
            for fl, _ in flags:
                out.append(("%s|not-before(%s)" % (fl, n), lambda ph, X, n=n, fl=fl: Clause("seen", [OBJ], lambda o: Implies(And(Not(true(ph[fl])), unseen(X, ph[n].base, o)), X.f("key_", o) != key))))
                out.append(("%s->found(%s)" % (fl, n), lambda ph, X, n=n, fl=fl: Clause("found", [], lambda: Implies(true(ph[fl]), And(ph[n].base != 0, X["cellof"][ph[n].base] == c, X.f("key_", ph[n].base) == key)))))
                out.append(("%s->has" % fl, lambda ph, X, fl=fl: Clause("found", [], lambda: Implies(true(ph[fl]), E["has"][key]))))
            for m in ptrs:
                if m != n:
                    out.append(("%s-before-%s" % (n, m), lambda ph, X, n=n, m=m: Clause("pred", [], lambda: Or(And(ph[n].base == ph[m].base, ph[n].base == top), And(ph[n].base != 0, X["cellof"][ph[n].base] == c, X.f("next_", ph[n].base) == ph[m].base)))))
                    out.append(("%s-null-or-before-%s" % (n, m), lambda ph, X, n=n, m=m: Clause("pred", [], lambda: Or(And(ph[n].base == 0, ph[m].base == top), And(ph[n].base != 0, X["cellof"][ph[n].base] == c, X.f("next_", ph[n].base) == ph[m].base)))))
        for g in ("has", "mval", "node", "cellof", "rank"):
            out.append(("same-" + g, lambda ph, X, g=g: Clause("same", [IDX if g in ("has", "mval", "node") else OBJ], lambda o: X[g][o] == E[g][o])))
        out.append(("same-n", lambda ph, X: Clause("same", [], lambda: X["n"] == E["n"])))
        for x in ("next_", "key_", "value_"):
            out.append(("same-" + x, lambda ph, X, x=x: Clause("same", [OBJ], lambda o: X.f(x, o) == E.f(x, o))))
        out.append(("same-ptr", lambda ph, X: Clause("same", [], lambda: X.f("ptr", ELEMENT(s.conf["cells"], c)) == E.f("ptr", ELEMENT(s.conf["cells"], c)))))
        return out
    def loop_terms(s, e, S, heads):
        if s.inside:
            for n, p in heads.items():
                if isinstance(p, Ptr): e.add_term(OBJ, p.base); e.add_term(OBJ, S.f("next_", p.base)); e.add_term(IDX, S.f("key_", p.base))
        else:
            for n, p in heads.items():
                if not isinstance(p, Ptr) and z3.is_int(p): e.add_term(IDX, p)

    # ------------------------------------------------------------------ functions
    def facts(s, e, op):
        e.add(And(KIND(s.l) == HASH, KIND(s.t) == TS, s.l != 0, s.t != 0, s.ncells > 0, s.ncells < 2 ** 31, s.pid >= 0, s.pid < s.nthreads, s.nthreads < 2 ** 31))
        for x in (s.l, s.t): e.add_term(OBJ, x)
        for v in (s.key, s.value): e.add(And(v >= -2 ** 63, v < 2 ** 63))
        if op:
            for x, n in (("announce", s.nthreads), ("synch", s.ncells), ("cells", s.ncells)): e.add(And(BYTES(s.conf[x]) >= n * s.sz[x], s.conf[x] != 0, KIND(s.conf[x]) == AREA))
            if "th_state" in s.tsf: e.add(And(BYTES(s.ths) >= s.ncells * s.sz["th_state"], s.ths != 0))
            e.add(z3.Distinct(*(list(s.conf.values()) + [s.l, s.t] + ([s.ths] if "th_state" in s.tsf else []))))
            e.add_schema(Clause("locks-of-different-cells-differ", [IDX], lambda i: LOCKIDX(LOCKOF(i)) == i))
    def start(s, e, mode, op=None):
        s.mode, s.op, s.c, s.inside = mode, op, None, False
        S = State(s, None, "env"); s.facts(e, mode == "op"); return S
    def run(s, e):
        P, T = Ptr(s.l), Ptr(s.t); s.cellterms = []
        with e.scope():
            S = s.start(e, "init")
            e.add_schema(Clause("nothing-initialised", [OBJ], lambda o: Not(S["inited"][o]))); e.add_term(OBJ, e.skolem(OBJ, 0))
            def post(X, r):
                for x, n in (("announce", s.nthreads), ("synch", s.ncells), ("cells", s.ncells)): e.prove([("init.%s-for-every-index" % x, BYTES(X.f(x, s.l)) >= n * s.sz[x])])
                e.prove([("init.different-arrays", z3.Distinct(*[X.f(x, s.l) for x in s.conf])), ("init.number-of-cells", X.f("size", s.l) == s.ncells)])
                j = e.skolem(IDX, 0); rng = And(0 <= j, j < s.ncells); e.add(KIND(ELEMENT(X.f("cells", s.l), j)) == AREA)
                sy = ELEMENT(X.f("synch", s.l), j)
                e.prove([("init.every-cell-empty", Implies(rng, X.f("ptr", ELEMENT(X.f("cells", s.l), j)) == 0)), ("init.every-cell-protected", Implies(rng, X["inited"][X.f("ptr", sy) if s.pointers else sy]))])
                if s.pointers:
                    i = e.skolem(IDX, 1); e.prove([("init.a-lock-of-its-own-for-each-cell", Implies(And(0 <= i, i < j, j < s.ncells), X.f("ptr", ELEMENT(X.f("synch", s.l), i)) != X.f("ptr", sy)))])
            e.verify(s.init, [P, s.ncells, s.nthreads], S, post)
        with e.scope():
            S = s.start(e, "tinit")
            def post(X, r):
                e.prove([("thread-init.pool", z3.BoolVal("pool" in X.loc))])
                if "th_state" in s.tsf:
                    j = e.skolem(IDX, 0)
                    e.prove([("thread-init.a-state-for-every-cell", And(BYTES(X.f("th_state", s.t)) >= s.ncells * s.sz["th_state"], Implies(And(0 <= j, j < s.ncells), X["tinit"][ELEMENT(X.f("th_state", s.t), j)])))])
            e.add(And(S.f("synch", s.l) == s.conf["synch"], BYTES(s.conf["synch"]) >= s.ncells * s.sz["synch"]))
            s.mode = "tinit"
            e.verify(s.tinit, [P, T, s.ncells, s.pid], S, post)
        for op, name in s.ops:
            with e.scope():
                S = s.start(e, "op", op)
                args = [P, T, s.key] + ([s.value] if op == "insert" else []) + [s.pid]
                def post(X, r):
                    e.prove([("%s.executed-exactly-once" % op, z3.BoolVal("has" in X.loc))])
                    if "has" not in X.loc: return
                    if op == "search": e.prove([("search.succeeds-exactly-if-the-key-is-present", (r != 0) == X.loc["has"])])
                    if op == "insert": e.prove([("insert.reports-success", r if z3.is_bool(r) else r != 0)])
                e.verify(name, args, S, post)


class CLHHash(Hash):
    src = "libconcurrent/concurrent/clhhash.c"
    hdr, st, ts, tsf = "clhhash.h", "CLHHash", "CLHHashThreadState", ("pool",)
    synch_el, ts_el, pointers = "sizeof(CLHLockStruct *)", "0", True
    init, tinit, ops = "CLHHashStructInit", "CLHHashThreadStateInit", (("insert", "CLHHashInsert"), ("search", "CLHHashSearch"), ("delete", "CLHHashDelete"))


class DSMHash(Hash):
    src = "libconcurrent/concurrent/dsmhash.c"
    hdr, st, ts, tsf = "dsmhash.h", "DSMHash", "DSMHashThreadState", ("th_state", "pool")
    synch_el, ts_el, pointers = "sizeof(DSMSynchStruct)", "sizeof(DSMSynchThreadState)", False
    init, tinit, ops = "DSMHashInit", "DSMHashThreadStateInit", (("insert", "DSMHashInsert"), ("search", "DSMHashSearch"), ("delete", "DSMHashDelete"))
