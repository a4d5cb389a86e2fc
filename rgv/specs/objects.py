"""Contracts of the objects built on the combining objects: stacks (one combining object) and queues (one for each end).
XApplyOp is used through its own contract (properties C01..C06): it runs the given function once, with the given arguments,
in a state reached by other operations, under mutual exclusion with the other operations of the same combining object, and
returns its result.  The function that is passed is then run here, in place of the call, whatever its name is."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

OBJECT, NODE, TS, AREA = 1, 2, 3, 4
I = z3.IntSort()
KIND = z3.Function("kind", I, I)
POOL_AT = z3.Function("pool_of_thread", I, I, I)


class Combined(Spec):
    """common part: the contracts of the combining object, of the pool and of the allocator"""
    syn = ""; hdr = ""; st = ""; ts = ""          # prefix of the combining object, header, struct of the object and of the thread state
    combs = ()                                    # fields of the object that are combining objects, with the field of the thread state that goes with each
    extra_fields = ()
    guard_node = z3.Int("guard_node")
    pool_field = None                             # field that holds an array of pools, one for each thread (None: a thread-local pool)
    by_pointer = False
    def __init__(s):
        super().__init__()
        fs = [(s.st, f) for f in s.extra_fields] + [(s.st, c) for c, _ in s.combs] + [(s.ts, t) for _, t in s.combs] + [("Node", "val"), ("Node", "next")]
        if s.pool_field: fs.append((s.st, s.pool_field))
        L = layout.offsets([s.hdr, "pool.h"], fs + [("SynchPoolStruct", None), (s.synstruct(), None)])
        s.L = L
        s.fields = {f: L[s.st, f] for f in s.extra_fields}
        s.fields["nval"] = L["Node", "val"]; s.fields["next"] = L["Node", "next"]
        if s.pool_field: s.fields["pools"] = L[s.st, s.pool_field]
        if s.by_pointer:
            for c, _ in s.combs: s.fields[c] = L[s.st, c]
        s.keys = set(s.fields.values())
        s.poolsize = L["SynchPoolStruct", None][1]; s.synsize = L[s.synstruct(), None][1]; s.nodesize = layout.consts([s.hdr], ["sizeof(Node)"])[0]
        s.guard, s.empty_s, s.empty_q = layout.consts([s.hdr], ["GUARD_VALUE", "EMPTY_STACK", "EMPTY_QUEUE"])
        s.l, s.tsp, s.pid, s.arg, s.me = z3.Ints("object threadstate pid arg my_thread_id")
        s.nthreads = z3.Int("nthreads")
        s.role = None; s.check_conf = True
    def synstruct(s): return {"Osci": "OsciStruct", "FC": "FCStruct"}.get(s.syn, s.syn + "Struct")
    def named_objs(s, S): return [("l", s.l)]
    def private(s, S, o, u): return z3.BoolVal(False)
    def applyname(s): return s.syn + "ApplyOp"
    def comb_addr(s, S, c):
        if s.by_pointer: return S.f(c, s.l)
        return s.l + s.L[s.st, c][0]
    def ts_addr(s, c): return s.tsp + s.L[s.ts, dict(s.combs)[c]][0]
    def which(s, e, S, a):
        for c, _ in s.combs:
            if e.check(a != s.comb_addr(S, c)) == z3.unsat: return c
        return None
    # ------------------------------------------------------------------ pool and allocation
    def own_pool(s, e, S, p):
        if p.priv is not None: return z3.BoolVal(p.priv.startswith("tls.") and p.off == 0 and not s.pool_field)
        if not s.pool_field: return z3.BoolVal(False)
        return p.addr() == POOL_AT(S.f("pools", s.l), s.me)
    def elem(s, e, base, off, i, sz):
        if s.pool_field and sz == s.poolsize and off == 0: return POOL_AT(base, i)
    def extern(s, e, S, name, args, rty, k):
        if name == "synchGetThreadId": k(S, s.me); return True
        if name in ("synchGetAlignedMemory", "synchGetMemory"):
            v = fresh("area", I); e.add_term(OBJ, v); e.add(And(v != 0, KIND(v) == AREA))
            for o in S.loc.get("areas", {}): e.add(v != o)
            S2 = S.child(); S2.loc["areas"] = dict(S.loc.get("areas", {})); S2.loc["areas"][v] = args[1] if name == "synchGetAlignedMemory" else args[0]
            k(S2, Ptr(v)); return True
        return False
    def contract(s, name):
        X = s.syn
        def init_comb(e, S, a, k):
            c = s.which(e, S, a[0].addr())
            e.prove([("init.initialises-its-own-combining-object", z3.BoolVal(c is not None and c not in S.loc.get("combs", ()))), ("init.for-all-the-threads", a[1] == s.nthreads)] + s.init_args(a))
            if s.by_pointer:
                sz = [z for o, z in S.loc.get("areas", {}).items() if e.check(o != a[0].addr()) == z3.unsat]
                e.prove([("init.combining-object-fits-its-memory", And(z3.BoolVal(len(sz) == 1), sz[0] >= s.synsize if sz else z3.BoolVal(False)))])
            S2 = S.child(); S2.loc["combs"] = S.loc.get("combs", ()) + (c,); k(S2, None)
        def init_ts(e, S, a, k):
            cs, ts = (a[1], a[0]) if X == "Osci" else (a[0], a[1])
            c = s.which(e, S, cs.addr())
            e.prove([("thread-init.own-thread-state", And(z3.BoolVal(c is not None and c not in S.loc.get("tss", ())), ts.addr() == s.ts_addr(c) if c else z3.BoolVal(False))), ("thread-init.own-pid", a[2] == s.pid)])
            S2 = S.child(); S2.loc["tss"] = S.loc.get("tss", ()) + (c,); k(S2, None)
        def init_pool(e, S, a, k):
            e.prove([("thread-init.own-pool", s.own_pool(e, S, a[0])), ("thread-init.pool-objects-hold-a-node", a[1] >= s.nodesize)])
            S2 = S.child(); S2.loc["pool"] = True; k(S2, z3.IntVal(0))
        def alloc(e, S, a, k):
            e.prove([("allocates-from-the-executing-threads-pool", s.own_pool(e, S, a[0]))])
            S = e.env(S); v = fresh("node", I); e.add_term(OBJ, v); e.add(And(v != 0, KIND(v) == NODE, S["own"][v] == -1))
            k(e.event(S, dict(own=S["own"].store(v, s.role_id())), "alloc"), Ptr(v))
        def recycle(e, S, a, k):
            o = a[1].addr()
            S = e.env(S)
            e.prove([("recycles-to-the-executing-threads-pool", s.own_pool(e, S, a[0])), ("recycles-only-removed-nodes", And(KIND(o) == NODE, s.removed(S, o)))])
            k(e.event(S, dict(own=S["own"].store(o, -1)), "recycle"), None)
        def apply(e, S, a, k):
            c = s.which(e, S, a[0].addr())
            e.prove([("applies-to-its-own-combining-object", z3.BoolVal(c is not None)), ("with-its-thread-state", a[1].addr() == s.ts_addr(c) if c else z3.BoolVal(False)), ("under-its-own-pid", a[5] == s.pid), ("one-operation-per-call", z3.BoolVal("applied" not in S.loc))])
            f = str(a[2].base).lstrip("@"); fn = e.mod.func(f) if a[2].off == 0 else None
            if fn is None or c is None: raise Unsupported("the operation is not a function of this file")
            S1 = s.enter(e, S, c)
            old = s.role, s.tid
            s.role = c; s.tid = s.role_tid(c); e.inlined.add(f); e.trace.append("op " + f)
            def done(S2, r):
                s.serial_post(e, S1, S2, r)
                me = s.role, s.tid; s.role, s.tid = old
                S3 = s.leave(e, S2); S3.loc["applied"] = r
                e.trace.append("applied"); k(S3, r); e.trace.pop()
                s.role, s.tid = me
            try: e.call(fn, [a[3], a[4], a[5]], S1, done, 1)
            finally: s.role, s.tid = old; e.trace.pop()
        return {X + "ApplyOp": apply, X + "StructInit": init_comb, X + "Init": init_comb, X + "ThreadStateInit": init_ts, "synchInitPool": init_pool, "synchAllocObj": alloc, "synchRecycleObj": recycle}.get(name)
    def init_args(s, a): return [("init.as-configured", a[2] == s.conf)] if len(a) > 2 else []
    def removed(s, S, o): return S["own"][o] == s.role_id()
    def role_id(s): return s.role_tid(s.role)
    def role_tid(s, c): return z3.IntVal(1 + [x for x, _ in s.combs].index(c))
    def access_check(s, e, S, base, key, rw):
        if e.dry or base.eq(s.l) or base.eq(s.tsp) or str(base).startswith("@") or (s.role is None and base.eq(s.guard_node)): return
        e.prove([("touches-only-nodes-in-use", Or(base == s.l, base == s.tsp, And(KIND(base) == NODE, Or(S["own"][base] == 0, S["own"][base] == s.role_id() if s.role else z3.BoolVal(False)))))])
    def base_facts(s, e):
        e.add(And(KIND(s.l) == OBJECT, KIND(s.tsp) == TS, s.l != 0, s.tsp != 0)); e.add_term(OBJ, s.l)
    def verify_init(s, e, name, nargs):
        with e.scope():
            s.sequential, s.tid, s.role = True, z3.IntVal(3), None
            S = State(s, None, "env"); s.base_facts(e)
            e.add_schema(Clause("no-nodes-yet", [OBJ], lambda o: S["own"][o] == -1))
            s.conf = z3.Int("configuration"); e.add(And(s.nthreads > 0, s.nthreads < 2 ** 31))
            def post(T, r):
                e.prove([("init.combining-objects-initialised", z3.BoolVal(set(T.loc.get("combs", ())) == {c for c, _ in s.combs}))])
                if s.by_pointer: e.prove([("init.distinct-combining-objects", And([s.comb_addr(T, a) != s.comb_addr(T, b) for a, _ in s.combs for b, _ in s.combs if a < b]))])
                if s.pool_field:
                    sz = [z for o, z in T.loc.get("areas", {}).items() if e.check(o != T.f("pools", s.l)) == z3.unsat]
                    e.prove([("init.a-pool-for-each-thread", sz[0] >= s.nthreads * s.poolsize if len(sz) == 1 else z3.BoolVal(False))])
                G = s.init_ghost(e, T); s.sktem(e, G); e.prove_clauses(s.inv(G) + s.quiet(G), G, "init.")
            e.verify(name, [Ptr(s.l), s.nthreads, s.conf][:nargs], S, post)
            s.sequential = type(s).sequential
    def sktem(s, e, S):
        """the goals' arbitrary constants and the terms they need"""
        sk = {OBJ: [e.skolem(OBJ, 0), e.skolem(OBJ, 1)], IDX: [e.skolem(IDX, 0)], TID: []}
        for so, t in s.skolem_terms(S, S, sk, None): e.add_term(so, t)
        for so, t in s.terms(S): e.add_term(so, t)
    def verify_thread_init(s, e, name):
        with e.scope():
            s.sequential, s.tid, s.role = True, z3.IntVal(3), None
            S = State(s, None, "env"); s.base_facts(e); e.assume_inv(S)
            e.verify(name, [Ptr(s.l), Ptr(s.tsp), s.pid], S, lambda T, r: e.prove([("thread-init.every-thread-state", z3.BoolVal(set(T.loc.get("tss", ())) == {c for c, _ in s.combs})), ("thread-init.pool", z3.BoolVal("pool" in T.loc))]))
            s.sequential = type(s).sequential
    def verify_op(s, e, name, args, op):
        with e.scope():
            s.tid, s.role, s.op = z3.IntVal(3), None, op
            S = State(s, None, "env"); s.base_facts(e); e.assume_inv(S)
            e.add(And(s.arg != s.guard, s.arg >= -2 ** 63, s.arg < 2 ** 63))
            def post(T, r):
                e.prove([("%s.operation-executed-exactly-once" % op, z3.BoolVal("applied" in T.loc))])
                if op in ("pop", "dequeue") and "applied" in T.loc: e.prove([("%s.returns-its-own-result" % op, r == T.loc["applied"])])
            e.verify(name, args, S, post)


class Stack(Combined):
    """abstract stack val[1..n]; at[i]: the node of position i; own: 0 in the stack, -1 free, 1 held by the running operation"""
    sequential = True        # the operation runs under mutual exclusion: no other thread touches the stack or its nodes in between
    ghosts, ghost_dom = ghosts(n="i", at="x:o", val="x:w", own="o:i")
    extra_fields = ("top",)
    combs = (("object_struct", "th_state"),)
    init = tinit = push = pop = ""; ninit = 2
    def inv(s, S):
        n, at = S["n"], S["at"]
        def chain(i):
            o = at[i]
            return Implies(And(1 <= i, i <= n), And(KIND(o) == NODE, o != 0, S["own"][o] == 0, S.f("nval", o) == S["val"][i], S.f("next", o) == If(i > 1, at[i - 1], z3.IntVal(0))))
        return [Clause("top", [], lambda: And(n >= 0, S.f("top", s.l) == If(n > 0, at[n], z3.IntVal(0)))), Clause("chain", [IDX], chain),
                Clause("distinct", [IDX, IDX], lambda i, j: Implies(And(1 <= i, i <= n, 1 <= j, j <= n, at[i] == at[j]), i == j))]
    def quiet(s, S): return []
    def removed(s, S, o): return Or(S["own"][o] == 0, S["own"][o] == 1)       # it must not be in the stack any more when the operation ends: the invariant says so
    def terms(s, S):
        n = S["n"]
        return [(IDX, n), (IDX, n - 1), (IDX, n + 1), (OBJ, S["at"][n])]
    def skolem_terms(s, S, S2, sk, u): return [(OBJ, S["at"][i]) for i in sk[IDX]]
    def init_ghost(s, e, T):
        G = T.child(); G.gh.update(n=z3.IntVal(0)); return G
    def enter(s, e, S, c):
        S1 = State(s, S, "env"); e.assume_inv(S1); return S1
    def leave(s, e, S):
        S1 = State(s, S, "env"); e.assume_inv(S1); return S1
    def serial_post(s, e, S, T, r):
        n = S["n"]; G = T.child(); top = T.f("top", s.l)
        if s.op == "push":
            G.gh.update(n=n + 1, at=T["at"].store(n + 1, top), val=T["val"].store(n + 1, s.arg), own=T["own"].store(top, 0))
        else:
            G.gh.update(n=If(n > 0, n - 1, 0))
            e.prove([("pop.returns-the-top-value-or-empty", r == If(n > 0, S["val"][n], z3.IntVal(s.empty_s)))])
        e.push(); s.sktem(e, S); s.sktem(e, G); e.prove_clauses(s.inv(G), G, s.op + "."); e.pop()
    def run(s, e):
        s.verify_init(e, s.init, s.ninit)
        s.verify_thread_init(e, s.tinit)
        s.verify_op(e, s.push, [Ptr(s.l), Ptr(s.tsp), s.arg, s.pid], "push")
        s.verify_op(e, s.pop, [Ptr(s.l), Ptr(s.tsp), s.pid], "pop")


class Queue(Combined):
    """abstract queue val[H+1..T]; at[i]: the node of position i, at[H] the dummy; own: 0 in the queue, -1 free, 1 held by the running
    enqueue, 2 held by the running dequeue; the two run concurrently, each in mutual exclusion with the operations of its own end"""
    ghosts, ghost_dom = ghosts(H="i", T="i", at="x:o", val="x:w", pos="o:i", own="o:i", sawempty="b")
    local_ghosts = ("sawempty",)
    rely_tids = [z3.IntVal(x) for x in (1, 2, 3)]
    extra_fields = ("first", "last", "guard")
    combs = (("enqueue_struct", "enqueue_thread_state"), ("dequeue_struct", "dequeue_thread_state"))
    init = tinit = enq = deq = ""; ninit = 2
    allow_interior = True
    def place(s, e, p):
        g = s.L[s.st, "guard"]
        if p.priv is None and p.base.eq(s.l) and g[0] <= p.off < g[0] + g[1]: return Ptr(s.guard_node, p.off - g[0])
        return p
    def __init__(s):
        super().__init__(); s.keys.discard(s.fields.pop("guard"))
    def base_facts(s, e):
        super().base_facts(e); e.add(And(KIND(s.guard_node) == NODE, s.guard_node != 0)); e.add_term(OBJ, s.guard_node)
    def private(s, S, o, u): return Or(And(KIND(o) == NODE, Or(*[And(u == x, S["own"][o] == x) for x in (1, 2)])))
    def inv(s, S):
        H, T, at, pos, own = [S[x] for x in "H T at pos own".split()]
        def chain(i):
            o = at[i]
            return Implies(And(H <= i, i <= T), And(KIND(o) == NODE, o != 0, own[o] == 0, pos[o] == i, S.f("next", o) == If(i < T, at[i + 1], z3.IntVal(0)), Implies(i > 0, And(S.f("nval", o) == S["val"][i], S["val"][i] != s.guard))))
        return [Clause("ends", [], lambda: And(0 <= H, H <= T)), Clause("chain", [IDX], chain),
                Clause("nodes", [OBJ], lambda o: And(Implies(own[o] == 0, And(KIND(o) == NODE, H <= pos[o], pos[o] <= T, at[pos[o]] == o)), own[o] >= -1, own[o] <= 2))]
    def quiet(s, S):
        """no operation of this end is running"""
        out = []
        if s.role in (None, "enqueue_struct"): out.append(Clause("last", [], lambda: S.f("last", s.l) == S["at"][S["T"]]))
        if s.role in (None, "dequeue_struct"): out.append(Clause("first", [], lambda: S.f("first", s.l) == S["at"][S["H"]]))
        return out
    def terms(s, S):
        H, T, at = [S[x] for x in "H T at".split()]
        return [(IDX, H), (IDX, H + 1), (IDX, T), (IDX, T + 1), (OBJ, at[H]), (OBJ, at[H + 1]), (OBJ, at[T])]
    def skolem_terms(s, S, S2, sk, u): return [(OBJ, S["at"][i]) for i in sk[IDX]] + [(IDX, S["pos"][o]) for o in sk[OBJ]] + [(IDX, i + 1) for i in sk[IDX]]
    def rely(s, A, B, u):
        en, de = u == 1, u == 2
        conf = [A.f(x, s.l) == B.f(x, s.l) for x in ([c for c, _ in s.combs] if s.by_pointer else []) + (["pools"] if s.pool_field else [])]
        return [Clause("configuration", [], lambda: And(conf) if conf else z3.BoolVal(True)),
                Clause("my-end", [], lambda: And(Implies(en, And(B.f("last", s.l) == A.f("last", s.l), B["T"] == A["T"])), Implies(de, And(B.f("first", s.l) == A.f("first", s.l), B["H"] == A["H"])), B["H"] >= A["H"], B["T"] >= A["T"])),
                Clause("fifo", [IDX], lambda i: Implies(And(0 <= i, i <= A["T"]), And(B["at"][i] == A["at"][i], B["val"][i] == A["val"][i]))),
                Clause("my-nodes", [OBJ], lambda o: And(*[Implies(And(u == x, A["own"][o] == x), B["own"][o] == x) for x in (1, 2)])),
                Clause("dummy-and-queued-nodes-stay", [OBJ], lambda o: Implies(And(de, A["own"][o] == 0), And(B["own"][o] == 0, B["pos"][o] == A["pos"][o])))]
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]; H, T, at = S["H"], S["T"], S["at"]
        if e.dry and s.role is None: return None
        if key == s.fields["next"] and s.role == "enqueue_struct" and e.check(base != at[T]) == z3.unsat:
            e.add_term(IDX, T + 1)
            return dict(T=T + 1, at=at.store(T + 1, v), pos=S["pos"].store(v, T + 1), own=S["own"].store(v, 0), val=S["val"].store(T + 1, S.f("nval", v)))
        if key == s.fields["first"] and s.role == "dequeue_struct" and base.eq(s.l):
            adv = And(H < T, v == at[H + 1]); e.add_term(IDX, H + 1)
            return dict(H=If(adv, H + 1, H), own=S["own"].store(at[H], If(adv, z3.IntVal(2), S["own"][at[H]])))
    def on_read(s, e, S, base, key, v):
        if key == s.fields["next"] and s.role == "dequeue_struct": return dict(sawempty=Or(S["sawempty"], S["H"] == S["T"]))
    def init_ghost(s, e, T):
        G = T.child(); g = s.guard_node
        G.gh.update(H=z3.IntVal(0), T=z3.IntVal(0), at=T["at"].store(0, g), pos=T["pos"].store(g, 0), own=T["own"].store(g, 0)); e.add_term(IDX, z3.IntVal(0)); return G
    def enter(s, e, S, c):
        S1 = State(s, S, "env")
        for cl in e.rely(S, S1, s.tid): e.add_schema(cl, (S.id, S1.id))
        e.assume_inv(S1)
        old, s.role = s.role, c
        for cl in s.quiet(S1): e.add_schema(cl, (S1.id,))
        s.role = old
        S1.gh["sawempty"] = z3.BoolVal(False); return S1
    def leave(s, e, S): return e.env(S)
    def serial_post(s, e, S, T, r):
        e.push(); s.sktem(e, S); s.sktem(e, T)
        e.prove_clauses(s.quiet(T), T, s.op + ".quiet.")
        if s.op == "enqueue": e.prove([("enqueue.appends-its-value-exactly-once", And(T["T"] == S["T"] + 1, T["val"][S["T"] + 1] == s.arg)), ("enqueue.at-its-own-end", z3.BoolVal(s.role == "enqueue_struct"))])
        else:
            H = S["H"]; e.add_term(IDX, H + 1)
            e.prove([("dequeue.removes-the-oldest-value-or-reports-empty", Or(And(T["H"] == H + 1, r == S_val(T, H + 1)), And(T["H"] == H, T["sawempty"], r == s.empty_q))), ("dequeue.at-its-own-end", z3.BoolVal(s.role == "dequeue_struct"))])
        e.pop()
    def run(s, e):
        s.verify_init(e, s.init, s.ninit)
        s.verify_thread_init(e, s.tinit)
        s.verify_op(e, s.enq, [Ptr(s.l), Ptr(s.tsp), s.arg, s.pid], "enqueue")
        s.verify_op(e, s.deq, [Ptr(s.l), Ptr(s.tsp), s.pid], "dequeue")


def S_val(S, i): return S["val"][i]


def _mk(base, nm, **kw):
    c = type(nm, (base,), dict(kw, __module__=__name__, src="libconcurrent/concurrent/%s.c" % nm.lower(), hdr=nm.lower() + ".h")); globals()[nm] = c


for p, syn, st, init, n, push, pop in (("CC", "CCSynch", "CCStack", "CCStackInit", 2, "CCStackPush", "CCStackPop"), ("DSM", "DSMSynch", "DSMStack", "DSMSStackInit", 2, "DSMStackPush", "DSMStackPop"),
        ("H", "HSynch", "HStack", "HStackInit", 3, "HStackPush", "HStackPop"), ("FC", "FC", "FCStack", "FCStackInit", 2, "FCStackPush", "FCStackPop"), ("Osci", "Osci", "OsciStack", "OsciStackInit", 3, "OsciStackApplyPush", "OsciStackApplyPop")):
    _mk(Stack, p + "Stack", syn=syn, st=st + "Struct", ts=st + "ThreadState", init=init, ninit=n, tinit=st + "ThreadStateInit", push=push, pop=pop, pool_field="pool_node" if p == "Osci" else None)
for p, syn, init, n in (("CC", "CCSynch", "CCQueueStructInit", 2), ("DSM", "DSMSynch", "DSMQueueStructInit", 2), ("H", "HSynch", "HQueueInit", 3), ("FC", "FC", "FCQueueStructInit", 2), ("Osci", "Osci", "OsciQueueInit", 3)):
    q = p + "Queue"
    _mk(Queue, q, syn=syn, st=q + "Struct", ts=q + "ThreadState", init=init, ninit=n, tinit=q + "ThreadStateInit", enq=q + "ApplyEnqueue", deq=q + "ApplyDequeue", pool_field="pool_node" if p == "Osci" else None, by_pointer=p == "H")
