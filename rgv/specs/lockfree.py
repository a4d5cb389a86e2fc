"""Contracts of the CAS based objects: LFUObject (lock-free universal object), Treiber stack, Michael-Scott queue."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

OBJECT, NODE, TS = 1, 2, 3
I = z3.IntSort()
KIND = z3.Function("kind", I, I)
F_ST = z3.Function("sfunc_state", I, I, I, I)
F_RET = z3.Function("sfunc_result", I, I, I, I)


def noop(e, S, a, k): k(S, None)
BACKOFF = ("synchResetBackoff", "synchBackoffDelay", "synchBackoffReduce", "synchBackoffIncrease")


class LFU(Spec):
    """every change of the object's word is exactly one application of one pending operation to the current state, and the operation returns that application's result"""
    src = "libconcurrent/concurrent/lfuobject.c"
    ghosts, ghost_dom = ghosts(app="t:b", res="t:w")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["lfuobject.h"], [("LFUObjectStruct", "state")])
        s.fields = dict(state=L["LFUObjectStruct", "state"])
        s.keys = set(s.fields.values())
        s.l, s.st, s.tid, s.arg, s.pid, s.sfunc = z3.Ints("l st me arg pid SFUNC")

    def private(s, S, o, u): return z3.BoolVal(False)
    def rely(s, A, B, u): return [Clause("thr", [], lambda: And(B["app"][u] == A["app"][u], B["res"][u] == A["res"][u]))]
    def contract(s, name): return noop if name in BACKOFF else None
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid
        e.prove([("write.object-state-only", And(base == s.l)), ("write.is-one-application-of-the-operation", v == F_ST(old, s.arg, s.pid)), ("write.not-applied-before", Not(S["app"][t]))])
        return dict(app=Store(S["app"], t, True), res=Store(S["res"], t, F_RET(old, s.arg, s.pid)))
    def on_icall(s, e, S, f, args, k):
        p = args[0]
        if p.priv is None:
            e.prove([("sfunc.applied-to-a-private-copy", z3.BoolVal(False))]); return
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.own-argument", args[1] == s.arg), ("sfunc.own-pid", args[2] == s.pid)])
        v = e.privload(S, p, 8)
        S = e.privstore(S, p, 8, F_ST(v, args[1], args[2]))
        k(S, F_RET(v, args[1], args[2]))
    def preds(s, e, S): return [("!app", lambda X: Not(X["app"][s.tid])), ("app", lambda X: X["app"][s.tid])]
    def run(s, e):
        S = State(s, None, "env")
        e.add_term(OBJ, s.l); e.add_term(OBJ, s.st); e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == OBJECT, KIND(s.st) == TS, Not(S["app"][s.tid]), s.l != s.st))
        def post(S2, r):
            e.prove([("ret.applied-exactly-once", S2["app"][s.tid]), ("ret.own-result", r == S2["res"][s.tid])])
        e.verify("LFUObjectApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), s.arg, s.pid], S, post)


class LFStack(Spec):
    """abstract stack val[1..n]; at[i] is the node of position i; nodes are immutable once they are published"""
    src = "libconcurrent/concurrent/lfstack.c"
    ghosts, ghost_dom = ghosts(n="i", at="x:o", val="x:w", own="o:i", done="t:b", sawempty="t:b", res="t:w")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["lfstack.h"], [("LFStackStruct", "top"), ("Node", "val"), ("Node", "next")])
        s.fields = dict(top=L["LFStackStruct", "top"], nval=L["Node", "val"], next=L["Node", "next"])
        s.keys = set(s.fields.values())
        s.empty = layout.consts(["lfstack.h"], ["EMPTY_STACK"])[0]
        s.l, s.st, s.tid, s.arg = z3.Ints("l st me arg")
        s.op = None

    def private(s, S, o, u): return And(KIND(o) == NODE, S["own"][o] == u)
    def inv(s, S):
        n, at = S["n"], S["at"]
        def chain(i):
            o = at[i]
            return Implies(And(1 <= i, i <= n), And(KIND(o) == NODE, o != 0, S["own"][o] == 0, S.f("nval", o) == S["val"][i], S.f("next", o) == If(i > 1, at[i - 1], z3.IntVal(0))))
        return [Clause("top", [], lambda: And(n >= 0, S.f("top", s.l) == If(n > 0, at[n], z3.IntVal(0)))), Clause("chain", [IDX], chain)]
    def terms(s, S):
        n = S["n"]
        return [(IDX, n), (IDX, n - 1), (IDX, n + 1), (OBJ, S["at"][n])]
    def skolem_terms(s, S, S2, sk, u): return [(OBJ, S["at"][i]) for i in sk[IDX]]
    def rely(s, A, B, u):
        return [Clause("thr", [], lambda: And(*[B[g][u] == A[g][u] for g in ("done", "res", "sawempty")])),
                Clause("mine", [OBJ], lambda o: Implies(A["own"][o] == u, B["own"][o] == u)),
                Clause("published-nodes-are-immutable", [OBJ], lambda o: Implies(And(KIND(o) == NODE, A["own"][o] == 0), And(B["own"][o] == 0, B.f("nval", o) == A.f("nval", o), B.f("next", o) == A.f("next", o))))]
    def contract(s, name):
        if name in BACKOFF: return noop
        if name == "synchAllocObj":
            def alloc(e, S, a, k):
                o = e.freshw("newnode", 64); e.add_term(OBJ, o)
                e.add(And(o != 0, KIND(o) == NODE, S["own"][o] == s.tid))
                k(S, Ptr(o))
            return alloc
        if name == "synchRecycleObj":
            def rec(e, S, a, k):
                e.prove([("recycled-node-is-private", Or(a[1].addr() == 0, S["own"][a[1].addr()] == s.tid))]); k(S, None)
            return rec
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; n = S["n"]
        if base.eq(s.l) and key == s.fields["top"]:
            e.prove([("linearized-at-most-once", Not(S["done"][t]))])
            if s.op == "push":
                e.add_term(IDX, n + 1)
                return dict(n=n + 1, at=Store(S["at"], n + 1, v), val=Store(S["val"], n + 1, s.arg), own=Store(S["own"], v, z3.IntVal(0)), done=Store(S["done"], t, True))
            e.prove([("pop.non-empty", n > 0)])
            return dict(n=n - 1, done=Store(S["done"], t, True), res=Store(S["res"], t, S["val"][n]))
    def on_read(s, e, S, base, key, v):
        if base.eq(s.l) and key == s.fields["top"]: return dict(sawempty=Store(S["sawempty"], s.tid, Or(S["sawempty"][s.tid], S["n"] == 0)))
    def preds(s, e, S): return [("!done", lambda X: Not(X["done"][s.tid])), ("done", lambda X: X["done"][s.tid])]
    def start(s, e, op):
        s.op = op
        S = State(s, None, "env")
        e.add_term(OBJ, s.l); e.add_term(OBJ, s.st); e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == OBJECT, KIND(s.st) == TS, Not(S["done"][s.tid]), Not(S["sawempty"][s.tid])))
        e.assume_inv(S)
        return S
    def run(s, e):
        with e.scope():
            S = s.start(e, "push")
            e.verify("LFStackPush", [Ptr(s.l), Ptr(s.st), s.arg], S, lambda S2, r: e.prove([("push.linearized-exactly-once", S2["done"][s.tid])]))
        with e.scope():
            S = s.start(e, "pop")
            e.verify("LFStackPop", [Ptr(s.l), Ptr(s.st)], S, lambda S2, r: e.prove([("pop.linearized-exactly-once-with-the-value-at-the-top", Or(And(S2["done"][s.tid], r == S2["res"][s.tid]), And(Not(S2["done"][s.tid]), S2["sawempty"][s.tid], r == s.empty)))]))


class MSQueue(Spec):
    """abstract queue val[H+1..T]; at[i] is the node that carries val[i]; at[H] = dummy (head), at[L] = tail; nodes are immutable once published"""
    src = "libconcurrent/concurrent/msqueue.c"
    ghosts, ghost_dom = ghosts(H="i", L="i", T="i", at="x:o", val="x:w", pos="o:i", own="o:i", done="t:b", sawempty="t:b", res="t:w")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["msqueue.h"], [("MSQueueStruct", "head"), ("MSQueueStruct", "tail"), ("Node", "val"), ("Node", "next")])
        s.fields = dict(head=L["MSQueueStruct", "head"], tail=L["MSQueueStruct", "tail"], nval=L["Node", "val"], next=L["Node", "next"])
        s.keys = set(s.fields.values())
        s.empty = layout.consts(["msqueue.h"], ["EMPTY_QUEUE"])[0]
        s.l, s.st, s.tid, s.arg = z3.Ints("l st me arg")
        s.op = None

    contract = LFStack.contract
    def private(s, S, o, u): return And(KIND(o) == NODE, S["own"][o] == u)
    def inv(s, S):
        H, L, T, at, pos, own = [S[x] for x in "H L T at pos own".split()]
        def chain(i):
            o = at[i]
            return Implies(And(0 <= i, i <= T), And(KIND(o) == NODE, o != 0, own[o] == 0, pos[o] == i, S.f("next", o) == If(i < T, at[i + 1], z3.IntVal(0)), Implies(i > 0, S.f("nval", o) == S["val"][i])))
        return [Clause("ends", [], lambda: And(0 <= H, H <= L, L <= T, T <= L + 1, S.f("head", s.l) == at[H], S.f("tail", s.l) == at[L])), Clause("chain", [IDX], chain),
                Clause("nodes", [OBJ], lambda o: Implies(And(KIND(o) == NODE, own[o] == 0), And(0 <= pos[o], pos[o] <= T, at[pos[o]] == o)))]
    def terms(s, S):
        H, L, T, at = [S[x] for x in "H L T at".split()]
        return [(IDX, H), (IDX, H + 1), (IDX, L), (IDX, L + 1), (IDX, T), (IDX, T + 1), (OBJ, at[H]), (OBJ, at[H + 1]), (OBJ, at[L]), (OBJ, at[L + 1]), (OBJ, at[T])]
    def skolem_terms(s, S, S2, sk, u): return [(OBJ, S["at"][i]) for i in sk[IDX]] + [(IDX, S["pos"][o]) for o in sk[OBJ]]
    def rely(s, A, B, u):
        pub = lambda o: And(KIND(o) == NODE, A["own"][o] == 0)
        return [Clause("thr", [], lambda: And(*[B[g][u] == A[g][u] for g in ("done", "res", "sawempty")])),
                Clause("mine", [OBJ], lambda o: Implies(A["own"][o] == u, B["own"][o] == u)),
                Clause("published-nodes-are-immutable", [OBJ], lambda o: Implies(pub(o), And(B["own"][o] == 0, B["pos"][o] == A["pos"][o], B.f("nval", o) == A.f("nval", o), Implies(A.f("next", o) != 0, B.f("next", o) == A.f("next", o))))),
                Clause("mono", [], lambda: And(B["H"] >= A["H"], B["L"] >= A["L"], B["T"] >= A["T"])),
                Clause("fifo", [IDX], lambda i: Implies(And(0 <= i, i <= A["T"]), And(B["at"][i] == A["at"][i], B["val"][i] == A["val"][i])))]
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; H, L, T = S["H"], S["L"], S["T"]
        if key == s.fields["next"] and rmw:
            e.add_term(IDX, S["pos"][base]); e.add_term(IDX, S["pos"][base] + 1); e.add_term(IDX, T); e.add_term(IDX, T + 1)
            e.prove([("linearized-at-most-once", Not(S["done"][t])), ("only-enqueue-appends", z3.BoolVal(s.op == "enq"))])
            return dict(T=T + 1, at=Store(S["at"], T + 1, v), pos=Store(S["pos"], v, T + 1), own=Store(S["own"], v, z3.IntVal(0)), val=Store(S["val"], T + 1, s.arg), done=Store(S["done"], t, True))
        if base.eq(s.l) and key == s.fields["tail"]:
            e.add_term(IDX, S["pos"][v])
            return dict(L=S["pos"][v])
        if base.eq(s.l) and key == s.fields["head"]:
            e.prove([("linearized-at-most-once", Not(S["done"][t])), ("only-dequeue-removes", z3.BoolVal(s.op == "deq")), ("deq.non-empty", H < T)])
            return dict(H=H + 1, done=Store(S["done"], t, True), res=Store(S["res"], t, S["val"][H + 1]))
    def on_read(s, e, S, base, key, v):
        if key == s.fields["next"]:
            i = S["pos"][base]
            e.add_term(IDX, i); e.add_term(IDX, i + 1)
            return dict(sawempty=Store(S["sawempty"], s.tid, Or(S["sawempty"][s.tid], S["H"] == S["T"])))
        if base.eq(s.l): e.add_term(IDX, S["H" if key == s.fields["head"] else "L"])
    def preds(s, e, S): return [("!done", lambda X: Not(X["done"][s.tid])), ("done", lambda X: X["done"][s.tid])]
    def start(s, e, op):
        s.op = op
        S = State(s, None, "env")
        e.add_term(OBJ, s.l); e.add_term(OBJ, s.st); e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == OBJECT, KIND(s.st) == TS, Not(S["done"][s.tid]), Not(S["sawempty"][s.tid])))
        e.assume_inv(S)
        return S
    def run(s, e):
        with e.scope():
            S = s.start(e, "enq")
            e.verify("MSQueueEnqueue", [Ptr(s.l), Ptr(s.st), s.arg], S, lambda S2, r: e.prove([("enqueue.linearized-exactly-once", S2["done"][s.tid])]))
        with e.scope():
            S = s.start(e, "deq")
            def post(S2, r):
                t = s.tid
                e.prove([("dequeue.linearized-exactly-once-with-the-oldest-value", Or(And(S2["done"][t], r == S2["res"][t]), And(Not(S2["done"][t]), S2["sawempty"][t], r == s.empty)))])
            e.verify("MSQueueDequeue", [Ptr(s.l), Ptr(s.st)], S, post)
