"""Contract of CC-Synch (ccsynch.c): every announced request is executed exactly once, by one combiner at a time,
with the announced argument and pid, and its issuer returns exactly its result."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

LOCK, NODE, TS = 1, 2, 3
KIND = z3.Function("kind", z3.IntSort(), z3.IntSort())
TSOWN = z3.Function("tsown", z3.IntSort(), z3.IntSort())
A = ArrSort
I, Bo, W = z3.IntSort(), z3.BoolSort(), z3.IntSort()


class CC(Spec):
    src = "libconcurrent/concurrent/ccsynch.c"
    ghosts, ghost_dom = ghosts(H="i", T="i", srv="b", comb="i", at="x:o", pos="o:i", own="o:i", inq="t:b", cur="t:o", garg="t:w", gpid="t:w", app="t:b", res="t:w")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["ccsynch.h"], [("CCSynchStruct", "Tail"), ("CCSynchStruct", "nthreads"), ("CCSynchNode", "next"), ("CCSynchNode", "arg_ret"),
                                           ("CCSynchNode", "pid"), ("CCSynchNode", "locked"), ("CCSynchNode", "completed"), ("CCSynchThreadState", "next")])
        s.fields = dict(tail=L["CCSynchStruct", "Tail"], nthreads=L["CCSynchStruct", "nthreads"], next=L["CCSynchNode", "next"], arg=L["CCSynchNode", "arg_ret"],
                        pid=L["CCSynchNode", "pid"], locked=L["CCSynchNode", "locked"], comp=L["CCSynchNode", "completed"], tsnext=L["CCSynchThreadState", "next"])
        s.keys = set(s.fields.values())
        s.l = s.tl = z3.Int("l"); s.tid = z3.Int("me"); s.st = z3.Int("st")
        s.state = z3.Int("STATE"); s.arg = z3.Int("arg"); s.pid = z3.Int("pid"); s.sfunc = z3.Int("SFUNC")

    def inchain(s, S, o): return And(KIND(o) == NODE, S["H"] <= S["pos"][o], S["pos"][o] <= S["T"])
    def private(s, S, o, u):
        return Or(And(KIND(o) == NODE, S["own"][o] == u, Not(s.inchain(S, o))), And(KIND(o) == TS, TSOWN(o) == u))

    def inv(s, S):
        H, T, at, pos, own, comb = S["H"], S["T"], S["at"], S["pos"], S["own"], S["comb"]
        app, res, inq, cur = S["app"], S["res"], S["inq"], S["cur"]
        f = S.f
        def chain(i):
            o = at[i]; u = own[o]
            return Implies(And(H <= i, i <= T), And(
                KIND(o) == NODE, pos[o] == i, o != 0,
                (own[o] == 0) == (i == T), own[o] >= 0,
                Implies(i < T, And(inq[u], cur[u] == o))))
        def link(i):
            o = at[i]; u = own[o]
            return Implies(And(H <= i, i <= T), Or(And(f("next", o) == 0, Implies(i < T, Not(app[u]))), And(i < T, f("next", o) == at[i + 1],
                           Implies(Not(app[u]), And(f("arg", o) == S["garg"][u], f("pid", o) == S["gpid"][u])))))
        def lock(i):
            o = at[i]
            return Implies(And(H <= i, i <= T, f("locked", o) == 0), And(i == H, comb == own[o]))
        def comp(i):
            o = at[i]; u = own[o]
            return Implies(And(H <= i, i <= T, f("comp", o) != 0), And(i == H, H < T, app[u], comb > 0, f("arg", o) == res[u]))
        def thr(t):
            o = cur[t]
            return Implies(And(t > 0, inq[t]), And(KIND(o) == NODE, own[o] == t, pos[o] <= T, pos[o] >= 0,
                           Implies(pos[o] < H, And(app[t], f("locked", o) == 0, f("comp", o) != 0, f("arg", o) == res[t])),
                           Implies(And(pos[o] >= H, app[t]), And(pos[o] == H, S["srv"]))))
        return [Clause("bounds", [], lambda: And(0 <= H, H <= T, f("tail", s.tl) == at[T], comb >= 0)),
                Clause("token", [], lambda: (comb == 0) == And(H == T, f("locked", at[T]) == 0)),
                Clause("serving", [], lambda: Implies(S["srv"], And(H < T, comb > 0, app[own[at[H]]]))),
                Clause("tailcomp", [], lambda: f("comp", at[T]) == 0),
                Clause("chain", [IDX], chain), Clause("link", [IDX], link), Clause("lock", [IDX], lock), Clause("completed", [IDX], comp),
                Clause("thread", [TID], thr),
                Clause("chainpos", [OBJ], lambda o: Implies(KIND(o) == NODE, And(pos[o] <= T, own[o] >= 0, Implies(pos[o] >= H, at[pos[o]] == o), Implies(pos[o] < H, own[o] > 0)))),
                ]

    def terms(s, S):
        H, T, at = S["H"], S["T"], S["at"]
        return [(IDX, H), (IDX, T), (IDX, T + 1), (OBJ, at[H]), (OBJ, at[T]), (TID, S["own"][at[H]]), (TID, S["comb"]), (OBJ, S["cur"][s.tid])]

    def skolem_terms(s, S, S2, sk, u):
        out = [(OBJ, S["cur"][u])]
        for t in sk[TID]: out += [(OBJ, S["cur"][t]), (IDX, S["pos"][S["cur"][t]])]
        for o in sk[OBJ]: out += [(IDX, S["pos"][o]), (TID, S["own"][o])]
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (TID, S["own"][S["at"][i]])]
        return out

    def rely(s, A, B, u):
        own, pos, H, T, at = A["own"], A["pos"], A["H"], A["T"], A["at"]
        fa, fb = A.f, B.f
        def mine(o):
            return Implies(And(KIND(o) == NODE, own[o] == u), And(B["own"][o] == u, B["pos"][o] == pos[o], fb("next", o) == fa("next", o),
                           Implies(And(fa("next", o) == 0, pos[o] >= H), And(B["app"][u] == A["app"][u], fb("arg", o) == fa("arg", o), fb("pid", o) == fa("pid", o)))))
        def batch(i):
            o = at[i]
            return Implies(And(A["comb"] == u, H <= i, i < T), And(B["own"][o] == own[o], B["app"][own[o]] == A["app"][own[o]], B["res"][own[o]] == A["res"][own[o]],
                           B["garg"][own[o]] == A["garg"][own[o]], B["gpid"][own[o]] == A["gpid"][own[o]],
                           Implies(fa("next", o) != 0, And(fb("next", o) == fa("next", o), fb("arg", o) == fa("arg", o), fb("pid", o) == fa("pid", o)))))
        def combn(i):
            o = at[i]
            return Implies(And(A["comb"] == u, H <= i, i <= T), And(fb("locked", o) == fa("locked", o), fb("comp", o) == fa("comp", o)))
        return [Clause("mine", [OBJ], mine), Clause("batch", [IDX], batch), Clause("combnode", [IDX], combn),
                Clause("thr", [], lambda: And(B["inq"][u] == A["inq"][u], B["cur"][u] == A["cur"][u], B["garg"][u] == A["garg"][u], B["gpid"][u] == A["gpid"][u],
                                              Implies(A["app"][u], And(B["app"][u], B["res"][u] == A["res"][u])))),
                Clause("grant", [], lambda: And(Implies(And(A["inq"][u], A["app"][u], A["comb"] != u), B["comb"] != u), Implies(And(A["inq"][u], B["comb"] == u), B["app"][u] == A["app"][u]),
                                                Implies(Not(A["inq"][u]), Implies(A["comb"] != u, B["comb"] != u)))),
                Clause("mono", [], lambda: And(B["H"] >= H, B["T"] >= T, Implies(A["comb"] == u, And(B["comb"] == u, B["H"] == H, B["srv"] == A["srv"])))),
                Clause("atmono", [IDX], lambda i: Implies(And(0 <= i, i <= T), B["at"][i] == at[i])),
                Clause("const", [], lambda: fb("nthreads", s.l) == fa("nthreads", s.l)),
                ]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; gu = {}
        if base.eq(s.tl) and key == s.fields["tail"]:
            n = v; T1 = S["T"] + 1
            gu = dict(T=T1, at=Store(S["at"], T1, n), pos=Store(S["pos"], n, T1), own=Store(Store(S["own"], old, t), n, z3.IntVal(0)),
                      inq=Store(S["inq"], t, True), cur=Store(S["cur"], t, old), garg=Store(S["garg"], t, s.arg), gpid=Store(S["gpid"], t, s.pid),
                      app=Store(S["app"], t, False), comb=If(S["comb"] == 0, t, S["comb"]))
            e.add_term(IDX, T1); e.add_term(IDX, S["T"])
        elif key == s.fields["locked"]:
            H, T, at = S["H"], S["T"], S["at"]
            u = S["own"][at[H]]
            rel = And(v == 0, base == at[H], S["comb"] == t)
            served = And(H < T, S["app"][u])
            gu = dict(H=If(And(rel, served), H + 1, H), srv=And(S["srv"], Not(And(rel, served))), comb=If(And(rel, Not(served)), u, S["comb"]))
            sc = e.invstate(S); e.add_term(IDX, H + 1, sc); e.add_term(OBJ, at[H + 1], sc)
        return gu

    def on_icall(s, e, S, f, args, k):
        S = e.env(S)
        H, at = S["H"], S["at"]; o = at[H]; u = S["own"][o]
        e.add_term(TID, u, e.invstate(S))
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.called-only-by-the-combiner", S["comb"] == s.tid), ("sfunc.request-pending", And(H < S["T"], S["inq"][u])),
                 ("sfunc.not-applied-before", Not(S["app"][u])), ("sfunc.state", args[0].addr() == s.state),
                 ("sfunc.announced-argument", args[1] == S["garg"][u]), ("sfunc.announced-pid", args[2] == S["gpid"][u])])
        r = fresh("sfunc_ret", W)
        S2 = e.event(S, dict(srv=z3.BoolVal(True), app=Store(S["app"], u, True), res=Store(S["res"], u, r)), "sfunc")
        k(S2, r)

    def ghost_objs(s): return [("at[H]", lambda S: S["at"][S["H"]]), ("cur[me]", lambda S: S["cur"][s.tid])]
    def named_objs(s, S): return [("cur[me]", S["cur"][s.tid])]
    def preds(s, e, S):
        t = s.tid
        c = S["cur"][t]
        return [("app[me]", lambda X: X["app"][t]), ("!app[me]", lambda X: Not(X["app"][t])), ("comb=me", lambda X: X["comb"] == t),
                ("cur served", lambda X: X["pos"][X["cur"][t]] < X["H"]), ("cur.ret", lambda X: X.f("arg", X["cur"][t]) == X["res"][t]),
                ("cur=at[H]", lambda X: X["cur"][t] == X["at"][X["H"]]), ("H<T", lambda X: X["H"] < X["T"]), ("cur next", lambda X: X.f("next", X["cur"][t]) != 0),
                ("not serving", lambda X: Not(X["srv"]))]

    def run(s, e):
        S = State(s, None, "env")
        for o in (s.l, s.st): e.add_term(OBJ, o)
        e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == LOCK, KIND(s.st) == TS, TSOWN(s.st) == s.tid))
        e.assume_inv(S)
        n = S.f("tsnext", s.st); e.add_term(OBJ, n)
        e.add(And(Not(S["inq"][s.tid]), S["comb"] != s.tid, KIND(n) == NODE, S["own"][n] == s.tid, Not(s.inchain(S, n)), n != 0))
        nt = S.f("nthreads", s.l)
        e.add(And(nt >= 1, nt <= 2 ** 31 // 10 - 1))
        def post(S2, ret):
            t = s.tid
            e.prove([("ret.applied-exactly-once-before-return", And(S2["inq"][t], S2["app"][t])), ("ret.own-result", ret == S2["res"][t]),
                     ("ret.not-combiner", S2["comb"] != t)])
            S3 = e.event(S2, dict(inq=Store(S2["inq"], t, False)), "return")
            n = S3.f("tsnext", s.st); e.add_term(OBJ, n)
            e.prove([("ret.private-spare-node", And(KIND(n) == NODE, S3["own"][n] == t, Not(s.inchain(S3, n)), n != 0))])
        e.verify("CCSynchApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), Ptr(s.state), s.arg, s.pid], S, post)


TAIL = 4
REG = z3.Function("region_of", I, I)     # static region of nodes, tail slots and threads


class HS(CC):
    """H-Synch: one combining list per region (the contract is stated for an arbitrary region R, the one of the calling thread; threads of other regions
    touch no object of R, which is an obligation on every write), the clients' function is applied under the central CLH lock (contract: locks.CLH)"""
    src = "libconcurrent/concurrent/hsynch.c"
    ghosts, ghost_dom = ghosts(H="i", T="i", srv="b", comb="i", at="x:o", pos="o:i", own="o:i", inq="t:b", cur="t:o", garg="t:w", gpid="t:w", app="t:b", res="t:w", lockh="i")

    def __init__(s):
        Spec.__init__(s)
        N = "HSynchNode"
        L = layout.offsets(["hsynch.h"], [("HSynchStruct", "Tail"), ("HSynchStruct", "nthreads"), ("HSynchStruct", "central_lock"), (N, "next"), (N, "arg_ret"), (N, "pid"), (N, "locked"), (N, "completed"), ("HSynchThreadState", "next_node"),
                                          ("HSynchThreadState", "numa_node"), ("HSynchNodePtr", "ptr")])
        s.fields = dict(tails=L["HSynchStruct", "Tail"], tail=L["HSynchNodePtr", "ptr"], nthreads=L["HSynchStruct", "nthreads"], clock=L["HSynchStruct", "central_lock"], next=L[N, "next"], arg=L[N, "arg_ret"], pid=L[N, "pid"], locked=L[N, "locked"],
                        comp=L[N, "completed"], tsnext=L["HSynchThreadState", "next_node"], numa=L["HSynchThreadState", "numa_node"])
        s.slotsize = L["HSynchNodePtr", None][1]
        s.keys = set(s.fields.values())
        s.l, s.tl, s.tid, s.st, s.state, s.arg, s.pid, s.sfunc, s.R = z3.Ints("l tl me st STATE arg pid SFUNC region")

    def inv(s, S):
        r = CC.inv(s, S)
        r.append(Clause("region", [IDX], lambda i: Implies(And(S["H"] <= i, i <= S["T"]), REG(S["at"][i]) == s.R)))
        r.append(Clause("lockholder", [], lambda: S["lockh"] >= 0))
        return r
    def rely(s, A, B, u):
        c = [x for x in CC.rely(s, A, B, u) if x.name != "const"]
        return c + [Clause("central-lock", [], lambda: (A["lockh"] == u) == (B["lockh"] == u)),
                    Clause("const", [], lambda: And(*[B.f(x, s.l) == A.f(x, s.l) for x in ("nthreads", "tails", "clock")]))]
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        e.prove([("write.own-region-only", Or(And(Or(KIND(base) == NODE, KIND(base) == TAIL), REG(base) == s.R), And(KIND(base) == TS, TSOWN(base) == s.tid)))])
        return CC.on_write(s, e, S, S2, writes, rmw)
    def on_icall(s, e, S, f, args, k):
        e.prove([("sfunc.called-only-under-the-central-lock", S["lockh"] == s.tid)])
        CC.on_icall(s, e, S, f, args, k)
    def contract(s, name):
        if name == "CLHLock":
            def lock(e, S, a, k):
                S = e.env(S)
                e.prove([("CLHLock.the-central-lock", a[0].addr() == s.clock), ("CLHLock.own-pid", a[1] == s.pid), ("CLHLock.not-held", S["lockh"] != s.tid)])
                S = e.env(S); e.add(S["lockh"] == 0)
                k(e.event(S, dict(lockh=s.tid), "CLHLock"), None)
            return lock
        if name == "CLHUnlock":
            def unlock(e, S, a, k):
                S = e.env(S)
                e.prove([("CLHUnlock.the-central-lock", a[0].addr() == s.clock), ("CLHUnlock.own-pid", a[1] == s.pid), ("CLHUnlock.held", S["lockh"] == s.tid)])
                k(e.event(S, dict(lockh=z3.IntVal(0)), "CLHUnlock"), None)
            return unlock
    def preds(s, e, S): return CC.preds(s, e, S) + [("lock held", lambda X: X["lockh"] == s.tid), ("lock not held", lambda X: X["lockh"] != s.tid)]
    def canon_objs(s): return [s.tl]
    def run(s, e):
        S = State(s, None, "env")
        for o in (s.l, s.st, s.tl): e.add_term(OBJ, o)
        e.add_term(TID, s.tid)
        s.clock = S.f("clock", s.l)
        nn = S.f("numa", s.st)
        e.add(And(s.tid > 0, KIND(s.l) == LOCK, KIND(s.st) == TS, TSOWN(s.st) == s.tid, KIND(s.tl) == TAIL, REG(s.tl) == s.R, s.tl == S.f("tails", s.l) + s.slotsize * nn, nn >= 0))
        e.assume_inv(S)
        n = S.f("tsnext", s.st); e.add_term(OBJ, n)
        e.add(And(Not(S["inq"][s.tid]), S["comb"] != s.tid, S["lockh"] != s.tid, KIND(n) == NODE, REG(n) == s.R, S["own"][n] == s.tid, Not(s.inchain(S, n)), n != 0))
        nt = S.f("nthreads", s.l)
        e.add(And(nt >= 1, nt <= 2 ** 31 // 10 - 1))
        def post(S2, ret):
            t = s.tid
            e.prove([("ret.applied-exactly-once-before-return", And(S2["inq"][t], S2["app"][t])), ("ret.own-result", ret == S2["res"][t]),
                     ("ret.not-combiner", S2["comb"] != t), ("ret.central-lock-released", S2["lockh"] != t)])
            S3 = e.event(S2, dict(inq=Store(S2["inq"], t, False)), "return")
            n = S3.f("tsnext", s.st); e.add_term(OBJ, n)
            e.prove([("ret.private-spare-node", And(KIND(n) == NODE, REG(n) == s.R, S3["own"][n] == t, Not(s.inchain(S3, n)), n != 0))])
        e.verify("HSynchApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), Ptr(s.state), s.arg, s.pid], S, post)
