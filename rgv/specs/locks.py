"""Contracts of the CLH and MCS queue locks: mutual exclusion; FIFO hand-over follows from the ghost queue."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

LOCK, NODE, SLOT, TS = 1, 2, 3, 4
KIND = z3.Function("kind", z3.IntSort(), z3.IntSort())
OWNS = z3.Function("static_owner", z3.IntSort(), z3.IntSort())     # SLOT / TS / static nodes: owner thread


class CLH(Spec):
    """ghost queue at[G..T]: at[G] is the last node released, at[i], i>G belong to the waiting (or holding) thread who[i]; holder = thread in the
    critical section or 0."""
    src = "libconcurrent/concurrent/clh.c"
    ghosts, ghost_dom = ghosts(G="i", T="i", holder="i", at="x:o", pos="o:i", own="o:i", who="x:t", inq="t:b", idx="t:i")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["clh.h"], [("CLHLockStruct", "Tail"), ("CLHLockStruct", "MyNode"), ("CLHLockStruct", "MyPred"), ("CLHLockNode", "locked")])
        s.fields = dict(tail=L["CLHLockStruct", "Tail"], mynode=L["CLHLockStruct", "MyNode"], mypred=L["CLHLockStruct", "MyPred"], locked=L["CLHLockNode", "locked"], slot=(0, 8))
        s.keys = set(s.fields.values())
        s.l = z3.Int("l"); s.tid = z3.Int("me")

    def private(s, S, o, u): return Or(And(KIND(o) == NODE, S["own"][o] == u), And(KIND(o) == SLOT, OWNS(o) == u))

    def inv(s, S):
        G, T, at, pos, own, who, inq, idx, hold = [S[x] for x in "G T at pos own who inq idx holder".split()]
        f = S.f
        def chain(i):
            o = at[i]
            return Implies(And(G <= i, i <= T), And(KIND(o) == NODE, o != 0, pos[o] == i, own[o] == 0, (f("locked", o) == 0) == (i == G), Or(f("locked", o) == 0, f("locked", o) == 1),
                           Implies(i > G, And(who[i] > 0, inq[who[i]], idx[who[i]] == i))))
        return [Clause("bounds", [], lambda: And(0 <= G, G <= T, f("tail", s.l) == at[T], hold >= 0)),
                Clause("holder-is-first-in-queue", [], lambda: Implies(hold != 0, And(G < T, hold == who[G + 1]))),
                Clause("chain", [IDX], chain),
                Clause("thread", [TID], lambda t: Implies(And(t > 0, inq[t]), And(G < idx[t], idx[t] <= T, who[idx[t]] == t))),
                Clause("nodes", [OBJ], lambda o: Implies(KIND(o) == NODE, And(own[o] >= 0, Implies(own[o] == 0, And(G <= pos[o], pos[o] <= T, at[pos[o]] == o)))))]

    def terms(s, S):
        G, T, at = S["G"], S["T"], S["at"]
        i = S["idx"][s.tid]
        return [(IDX, G), (IDX, G + 1), (IDX, T), (IDX, T + 1), (OBJ, at[G]), (OBJ, at[T]), (OBJ, at[G + 1]), (IDX, i), (IDX, i - 1), (OBJ, at[i]), (OBJ, at[i - 1]), (TID, S["holder"])]

    def skolem_terms(s, S, S2, sk, u):
        out = [(IDX, S["idx"][u])]
        for t in sk[TID]: out.append((IDX, S["idx"][t]))
        for o in sk[OBJ]: out.append((IDX, S["pos"][o]))
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (TID, S["who"][i])]
        return out

    def rely(s, A, B, u):
        return [Clause("mine", [OBJ], lambda o: Implies(And(KIND(o) == NODE, A["own"][o] == u), B["own"][o] == u)),
                Clause("thr", [], lambda: And(B["inq"][u] == A["inq"][u], B["idx"][u] == A["idx"][u])),
                Clause("mutual-exclusion", [], lambda: And((A["holder"] == u) == (B["holder"] == u), Implies(A["holder"] == u, B["G"] == A["G"]))),
                Clause("mono", [], lambda: And(B["T"] >= A["T"], B["G"] >= A["G"])),
                Clause("fifo", [IDX], lambda i: Implies(And(0 <= i, i <= A["T"]), And(B["at"][i] == A["at"][i], B["who"][i] == A["who"][i]))),
                Clause("const", [], lambda: And(B.f("mynode", s.l) == A.f("mynode", s.l), B.f("mypred", s.l) == A.f("mypred", s.l)))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid
        if base.eq(s.l) and key == s.fields["tail"]:
            T1 = S["T"] + 1; e.add_term(IDX, T1)
            return dict(T=T1, at=Store(S["at"], T1, v), pos=Store(S["pos"], v, T1), own=Store(S["own"], v, z3.IntVal(0)), who=Store(S["who"], T1, t), inq=Store(S["inq"], t, True), idx=Store(S["idx"], t, T1))
        if key == s.fields["locked"]:
            at, G = S["at"], S["G"]
            rel = And(S["inq"][t], base == at[S["idx"][t]], v == 0, S["holder"] == t)
            sc = e.invstate(S); e.add_term(IDX, G + 2, sc)
            o = at[G]
            return dict(G=If(rel, G + 1, G), holder=If(rel, z3.IntVal(0), S["holder"]), inq=Store(S["inq"], t, And(S["inq"][t], Not(rel))), own=Store(S["own"], o, If(rel, t, S["own"][o])))

    def on_read(s, e, S, base, key, v):
        if key != s.fields["locked"]: return None
        t = s.tid
        acq = And(S["inq"][t], base == S["at"][S["idx"][t] - 1], v == 0, S["holder"] != t)
        e.prove([("mutual-exclusion", Implies(acq, S["holder"] == 0))])
        return dict(holder=If(acq, t, S["holder"]))

    def ghost_objs(s): return [("at[idx-1]", lambda S: S["at"][S["idx"][s.tid] - 1]), ("at[idx]", lambda S: S["at"][S["idx"][s.tid]])]
    def named_objs(s, S): return [("slot", s.slot), ("pslot", s.pslot)]
    def preds(s, e, S):
        t = s.tid
        return [("holder=me", lambda X: X["holder"] == t), ("holder!=me", lambda X: X["holder"] != t), ("inq", lambda X: X["inq"][t]),
                ("pslot", lambda X: X.f("slot", s.pslot) == X["at"][X["idx"][t] - 1]), ("slot", lambda X: X.f("slot", s.slot) == X["at"][X["idx"][t]])]

    def start(s, e):
        S = State(s, None, "env")
        pid = z3.Int("pid")
        e.add_term(OBJ, s.l); e.add_term(TID, s.tid)
        e.add(And(pid >= 0, pid < 2 ** 31, s.tid == pid + 1, KIND(s.l) == LOCK))
        e.assume_inv(S)
        s.slot = z3.simplify(S.f("mynode", s.l) + 8 * pid); s.pslot = z3.simplify(S.f("mypred", s.l) + 8 * pid)
        for x in (s.slot, s.pslot): e.add_term(OBJ, x); e.add(And(KIND(x) == SLOT, OWNS(x) == s.tid, x != 0))
        e.add(s.slot != s.pslot)
        return S, pid
    def idle(s, S):
        n = S.f("slot", s.slot)
        return And(Not(S["inq"][s.tid]), S["holder"] != s.tid, KIND(n) == NODE, S["own"][n] == s.tid, n != 0)
    def holds(s, S):
        i = S["idx"][s.tid]
        return And(S["inq"][s.tid], S["holder"] == s.tid, S.f("slot", s.slot) == S["at"][i], S.f("slot", s.pslot) == S["at"][i - 1])
    def run(s, e):
        with e.scope():
            S, pid = s.start(e); e.add_term(OBJ, S.f("slot", s.slot)); e.add(s.idle(S))
            def post(S2, r):
                e.prove([("lock-held-on-return", s.holds(S2))])
            e.verify("CLHLock", [Ptr(s.l), pid], S, post)
        with e.scope():
            S, pid = s.start(e); e.add(s.holds(S))
            def post(S2, r):
                e.add_term(OBJ, S2.f("slot", s.slot))
                e.prove([("lock-released-and-spare-node", s.idle(S2))])
            e.verify("CLHUnlock", [Ptr(s.l), pid], S, post)


class MCS(Spec):
    """ghost queue (G,T]: at[i] is the node of who[i]; lnk[t]: t has linked its node behind its predecessor (or had none); unlinked: the holder has cleared its next pointer already"""
    src = "libconcurrent/concurrent/mcs.c"
    ghosts, ghost_dom = ghosts(G="i", T="i", holder="i", at="x:o", who="x:t", inq="t:b", idx="t:i", lnk="t:b", unlinked="b")
    NODEOF = z3.Function("nodeof", z3.IntSort(), z3.IntSort())

    def __init__(s):
        super().__init__()
        L = layout.offsets(["mcs.h"], [("MCSLockStruct", "Tail"), ("MCSThreadState", "MyNode"), ("MCSLockNode", "locked"), ("MCSLockNode", "next")])
        s.fields = dict(tail=L["MCSLockStruct", "Tail"], mynode=L["MCSThreadState", "MyNode"], locked=L["MCSLockNode", "locked"], next=L["MCSLockNode", "next"])
        s.keys = set(s.fields.values())
        s.l = z3.Int("l"); s.st = z3.Int("st"); s.tid = z3.Int("me")

    def private(s, S, o, u): return Or(And(KIND(o) == NODE, OWNS(o) == u, Not(S["inq"][u])), And(KIND(o) == TS, OWNS(o) == u))

    def inv(s, S):
        G, T, at, who, inq, idx, hold, lnk = [S[x] for x in "G T at who inq idx holder lnk".split()]
        f = S.f
        def chain(i):
            o = at[i]
            return Implies(And(G < i, i <= T), And(KIND(o) == NODE, o != 0, who[i] > 0, inq[who[i]], idx[who[i]] == i, o == s.NODEOF(who[i]), OWNS(o) == who[i]))
        def link(i):
            return Implies(And(G < i, i <= T), f("next", at[i]) == If(And(i < T, lnk[who[i + 1]], Not(And(i == G + 1, S["unlinked"]))), at[i + 1], z3.IntVal(0)))
        def lock(i):
            l = f("locked", at[i])
            return Implies(And(G < i, i <= T), And(Or(l == 0, l == 1), Implies(And(lnk[who[i]], i > G + 1), l == 1), Implies(And(i == G + 1, hold == 0), l == 0), Implies(i == G + 1, lnk[who[i]])))
        def thr(t):
            o = s.NODEOF(t)
            return Implies(t > 0, And(KIND(o) == NODE, o != 0, OWNS(o) == t, Implies(inq[t], And(G < idx[t], idx[t] <= T, who[idx[t]] == t, at[idx[t]] == o)),
                                      Or(f("locked", o) == 0, f("locked", o) == 1), Implies(Not(inq[t]), Not(lnk[t]))))
        return [Clause("bounds", [], lambda: And(0 <= G, G <= T, f("tail", s.l) == If(T > G, at[T], z3.IntVal(0)), hold >= 0)),
                Clause("holder-is-first-in-queue", [], lambda: Implies(hold != 0, And(G < T, hold == who[G + 1]))),
                Clause("unlinked-by-holder", [], lambda: Implies(S["unlinked"], And(hold != 0, G + 2 <= T, lnk[who[G + 2]]))),
                Clause("chain", [IDX], chain), Clause("link", [IDX], link), Clause("lock", [IDX], lock), Clause("thread", [TID], thr)]

    def terms(s, S):
        G, T, at = S["G"], S["T"], S["at"]
        i = S["idx"][s.tid]
        return [(IDX, G), (IDX, G + 1), (IDX, G + 2), (IDX, T), (IDX, T + 1), (OBJ, at[T]), (OBJ, at[G + 1]), (OBJ, at[G + 2]), (IDX, i), (IDX, i - 1), (IDX, i + 1), (OBJ, at[i]), (OBJ, at[i - 1]), (TID, S["holder"]),
                (TID, S["who"][i - 1]), (TID, S["who"][i + 1]), (TID, S["who"][T]), (TID, S["who"][G + 1]), (TID, S["who"][G + 2])]

    def skolem_terms(s, S, S2, sk, u):
        out = [(IDX, S["idx"][u]), (OBJ, s.NODEOF(u)), (IDX, S["idx"][u] + 1)]
        for t in sk[TID]: out += [(IDX, S["idx"][t]), (OBJ, s.NODEOF(t))]
        for o in sk[OBJ]: out += [(TID, OWNS(o))]
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (TID, S["who"][i]), (IDX, i + 1), (TID, S["who"][i + 1]), (OBJ, S["at"][i + 1])]
        return out

    def rely(s, A, B, u):
        n = s.NODEOF(u)
        return [Clause("thr", [], lambda: And(B["inq"][u] == A["inq"][u], B["idx"][u] == A["idx"][u], B["lnk"][u] == A["lnk"][u])),
                Clause("mutual-exclusion", [], lambda: And((A["holder"] == u) == (B["holder"] == u), Implies(A["holder"] == u, And(B["G"] == A["G"], B["unlinked"] == A["unlinked"])))),
                Clause("mono", [], lambda: And(B["T"] >= A["T"], B["G"] >= A["G"])),
                Clause("node", [], lambda: Implies(A["inq"][u], And(Implies(A.f("next", n) != 0, B.f("next", n) == A.f("next", n)), Implies(And(Not(A["lnk"][u]), A.f("locked", n) == 1), B.f("locked", n) == 1)))),
                Clause("fifo", [IDX], lambda i: Implies(And(0 < i, i <= A["T"]), And(B["at"][i] == A["at"][i], B["who"][i] == A["who"][i])))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; G, T, at = S["G"], S["T"], S["at"]
        inqf = Store(S["inq"], t, False); lnkf = Store(S["lnk"], t, False)
        if base.eq(s.l) and key == s.fields["tail"]:
            T1 = T + 1; e.add_term(IDX, T1); e.add_term(IDX, T)
            rel = v == 0
            return dict(T=If(rel, T, T1), G=If(rel, T, G), at=Store(at, T1, v), who=Store(S["who"], T1, t), idx=Store(S["idx"], t, If(rel, S["idx"][t], T1)), inq=Store(S["inq"], t, Not(rel)),
                        lnk=Store(S["lnk"], t, And(Not(rel), old == 0)), holder=If(rel, z3.IntVal(0), If(old == 0, t, S["holder"])))
        if key == s.fields["locked"]:
            rel = And(S["inq"][t], S["holder"] == t, v == 0, G + 2 <= T, base == at[G + 2])
            return dict(unlinked=And(S["unlinked"], Not(rel)), G=If(rel, G + 1, G), holder=If(rel, z3.IntVal(0), S["holder"]), inq=Store(S["inq"], t, And(S["inq"][t], Not(rel))), lnk=Store(S["lnk"], t, And(S["lnk"][t], Not(rel))))
        if key == s.fields["next"]:
            ln = And(S["inq"][t], Not(S["lnk"][t]), base == at[S["idx"][t] - 1], v == s.NODEOF(t))
            un = And(S["inq"][t], S["holder"] == t, base == s.NODEOF(t), v == 0, G + 2 <= T, S["lnk"][S["who"][G + 2]])
            return dict(lnk=Store(S["lnk"], t, Or(S["lnk"][t], ln)), unlinked=Or(S["unlinked"], un))

    def on_read(s, e, S, base, key, v):
        t = s.tid
        if base.eq(s.l) and key == s.fields["tail"]:
            e.add_term(IDX, S["T"]); e.add_term(TID, S["who"][S["T"]])
        if key != s.fields["locked"]: return None
        acq = And(S["inq"][t], S["lnk"][t], base == s.NODEOF(t), v == 0, S["holder"] != t)
        e.prove([("mutual-exclusion", Implies(acq, S["holder"] == 0))])
        return dict(holder=If(acq, t, S["holder"]))

    def ghost_objs(s): return [("at[idx-1]", lambda S: S["at"][S["idx"][s.tid] - 1])]
    def named_objs(s, S): return [("node", s.n)]
    def preds(s, e, S):
        t = s.tid
        return [("holder=me", lambda X: X["holder"] == t), ("holder!=me", lambda X: X["holder"] != t), ("inq", lambda X: X["inq"][t]), ("lnk", lambda X: X["lnk"][t]),
                ("next", lambda X: X.f("next", s.n) != 0), ("locked", lambda X: X.f("locked", s.n) != 0)]

    def start(s, e):
        S = State(s, None, "env")
        for o in (s.l, s.st, s.NODEOF(s.tid)): e.add_term(OBJ, o)
        e.add_term(TID, s.tid)
        s.n = s.NODEOF(s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == LOCK, KIND(s.st) == TS, OWNS(s.st) == s.tid, S.f("mynode", s.st) == s.n))
        e.assume_inv(S)
        return S
    def run(s, e):
        pid = z3.Int("pid")
        with e.scope():
            S = s.start(e); e.add(And(Not(S["inq"][s.tid]), S["holder"] != s.tid))
            e.verify("MCSLock", [Ptr(s.l), Ptr(s.st), pid], S, lambda S2, r: e.prove([("lock-held-on-return", And(S2["inq"][s.tid], S2["holder"] == s.tid, Not(S2["unlinked"]), S2.f("mynode", s.st) == s.n))]))
        with e.scope():
            S = s.start(e); e.add(And(S["inq"][s.tid], S["holder"] == s.tid))
            e.add(Not(S["unlinked"])); e.verify("MCSUnlock", [Ptr(s.l), Ptr(s.st), pid], S, lambda S2, r: e.prove([("lock-released-and-node-idle", And(Not(S2["inq"][s.tid]), S2["holder"] != s.tid, S2.f("mynode", s.st) == s.n))]))
