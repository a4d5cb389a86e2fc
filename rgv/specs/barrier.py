"""Contracts of the barrier, for every number of threads and rounds."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

PART = z3.Function("participant", z3.IntSort(), z3.BoolSort())
OUT, ARRIVED, LASTIN, PASSED, LEFT, LASTOUT = range(6)


class Barrier(Spec):
    """ghost: rnd[t] rounds thread t has entered, lv[t] rounds it has counted itself out of, st[t] where it is, R completed rounds,
    nA = |{participants with rnd > R}|, nL = |{participants with lv > R}|, stage 0 collecting arrivals, 1 last arrived thread resets,
    2 collecting leaves, 3 last leaving thread resets; a: the counter is reset, b: the other flag is up (either order)."""
    src = "libconcurrent/primitives/barrier.c"
    ghosts, ghost_dom = ghosts(R="i", stage="i", a="b", b="b", nA="i", nL="i", rnd="t:i", lv="t:i", st="t:i")

    def __init__(s):
        super().__init__()
        fs = ["arrive", "leave", "arrive_flag", "leave_flag", "val_at_set"]
        L = layout.offsets(["barrier.h"], [("SynchBarrier", f) for f in fs])
        s.fields = {f: L["SynchBarrier", f] for f in fs}
        s.keys = set(s.fields.values())
        s.b = z3.Int("bar"); s.tid = z3.Int("me"); s.n = z3.Int("n")

    def F(s, S, f): return S.f(f, s.b)
    def inv(s, S):
        R, g, nA, nL, rnd, lv, st, a, b = [S[x] for x in "R stage nA nL rnd lv st a b".split()]
        n = s.n; af, lf = s.F(S, "arrive_flag") != 0, s.F(S, "leave_flag") != 0
        def thr(t):
            x = st[t]
            return Implies(PART(t), And(t > 0, R <= rnd[t], rnd[t] <= R + 1, R <= lv[t], lv[t] <= rnd[t], x >= OUT, x <= LASTOUT,
                Implies(g == 0, And(Or(x == OUT, x == ARRIVED, x == LEFT), (rnd[t] == R + 1) == (x == ARRIVED), lv[t] == R, Implies(x == LEFT, Not(lf)))),
                Implies(g == 1, And(rnd[t] == R + 1, lv[t] == R, Or(x == ARRIVED, x == LASTIN))),
                Implies(g == 2, And(rnd[t] == R + 1, Or(x == ARRIVED, x == PASSED, x == LEFT), (lv[t] == R + 1) == (x == LEFT))),
                Implies(g == 3, And(rnd[t] == R + 1, lv[t] == R + 1, Or(x == LEFT, x == LASTOUT)))))
        return [Clause("counters", [], lambda: And(0 <= g, g <= 3, R >= 0, n >= 1, s.F(S, "val_at_set") == n,
                    s.F(S, "arrive") == If(g == 0, n - nA, If(And(g == 1, Not(a)), z3.IntVal(0), n)),
                    s.F(S, "leave") == If(g == 2, n - nL, If(And(g == 3, Not(a)), z3.IntVal(0), n)),
                    Implies(g <= 1, nL == 0), Implies(g >= 1, nA == n), Implies(g == 3, nL == n))),
                Clause("flags", [], lambda: And(Implies(g <= 1, af), Implies(g == 2, And(Not(af), lf)), Implies(g == 3, And(af == b, lf)), Implies(And(g == 1, b), lf),
                    *[And(s.F(S, x) >= 0, s.F(S, x) <= 1) for x in ("arrive_flag", "leave_flag")])),
                Clause("thread", [TID], thr),
                Clause("one-resets", [TID, TID], lambda t, u: Implies(And(PART(t), PART(u), t != u), And(Not(And(st[t] == LASTIN, st[u] == LASTIN)), Not(And(st[t] == LASTOUT, st[u] == LASTOUT)))))]

    def lemmas(s, S):
        """cardinality of a subset of the n participants"""
        R, nA, nL, rnd, lv = [S[x] for x in "R nA nL rnd lv".split()]
        return [Clause("card", [], lambda: And(0 <= nA, nA <= s.n, 0 <= nL, nL <= s.n)),
                Clause("pigeonhole-arrived", [TID], lambda t: Implies(And(PART(t), rnd[t] <= R), nA < s.n)),
                Clause("pigeonhole-left", [TID], lambda t: Implies(And(PART(t), lv[t] <= R), nL < s.n))]

    def rely(s, A, B, u):
        return [Clause("mine", [], lambda: And(B["st"][u] == A["st"][u], B["rnd"][u] == A["rnd"][u], B["lv"][u] == A["lv"][u])),
                Clause("only-the-resetting-thread-resets", [], lambda: Implies(And(PART(u), Or(A["st"][u] == LASTIN, A["st"][u] == LASTOUT)), And(B["stage"] == A["stage"], B["a"] == A["a"], B["b"] == A["b"]))),
                Clause("entered-stays-entered", [TID], lambda t: Implies(PART(t), B["rnd"][t] >= A["rnd"][t]))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; R, g, nA, nL, rnd, lv, st = [S[x] for x in "R stage nA nL rnd lv st".split()]
        f = s.fields
        if key == f["arrive"] and rmw:
            e.prove([("arrives-once-and-when-arrivals-are-collected", And(g == 0, st[t] == OUT, rnd[t] == R, v == old - 1))])
            last = nA + 1 == s.n
            return dict(nA=nA + 1, rnd=Store(rnd, t, rnd[t] + 1), st=Store(st, t, If(last, z3.IntVal(LASTIN), z3.IntVal(ARRIVED))), stage=If(last, z3.IntVal(1), g), a=If(last, z3.BoolVal(False), S["a"]), b=If(last, z3.BoolVal(False), S["b"]))
        if key == f["leave"] and rmw:
            e.prove([("leaves-once-and-when-leaves-are-collected", And(g == 2, st[t] == PASSED, lv[t] == R, v == old - 1))])
            last = nL + 1 == s.n
            return dict(nL=nL + 1, lv=Store(lv, t, lv[t] + 1), st=Store(st, t, If(last, z3.IntVal(LASTOUT), z3.IntVal(LEFT))), stage=If(last, z3.IntVal(3), g), a=If(last, z3.BoolVal(False), S["a"]), b=If(last, z3.BoolVal(False), S["b"]))
        cl = st[t] == LASTIN, st[t] == LASTOUT; A, B = S["a"], S["b"]; F, T = z3.BoolVal(False), z3.BoolVal(True)
        if key == f["arrive"]: return dict(a=If(cl[0], v == s.n, A))
        if key == f["leave"]: return dict(a=If(cl[1], v == s.n, A))
        if key == f["leave_flag"]:
            done = And(cl[1], A, B, v == 0)      # the next round begins
            z = z3.IntVal(0)
            return dict(b=If(cl[0], v != 0, B), stage=If(done, z, g), R=If(done, R + 1, R), nA=If(done, z, nA), nL=If(done, z, nL), st=Store(st, t, If(done, z3.IntVal(OUT), st[t])))
        if key == f["arrive_flag"]:
            opn = And(cl[0], A, B, v == 0)
            return dict(b=If(cl[1], v != 0, B), stage=If(opn, z3.IntVal(2), g), st=Store(st, t, If(opn, z3.IntVal(PASSED), st[t])))
        raise Unsupported("write of a barrier field without a contract")

    def on_read(s, e, S, base, key, v):
        t = s.tid; st = S["st"]; f = s.fields
        if key == f["arrive_flag"]: return dict(st=Store(st, t, If(And(st[t] == ARRIVED, v == 0), z3.IntVal(PASSED), st[t])))
        if key == f["leave_flag"]: return dict(st=Store(st, t, If(And(st[t] == LEFT, v == 0), z3.IntVal(OUT), st[t])))
    def access_check(s, e, S, base, key, rw): e.prove([("access-to-the-barrier-only", base == s.b)])
    def preds(s, e, S):
        t = s.tid
        return [("st=%d" % k, lambda X, k=k: X["st"][t] == k) for k in range(6)] + [("a", lambda X: X["a"]), ("b", lambda X: X["b"]), ("rnd", lambda X: X["rnd"][t] == s.r0 + 1), ("rnd0", lambda X: X["rnd"][t] == s.r0)]
    def named_objs(s, S): return [("bar", s.b)]

    def run(s, e):
        with e.scope():     # for every other participant k: it has entered this round when I return
            S = State(s, None, "env"); k = z3.Int("other")
            e.add_term(OBJ, s.b); e.add_term(TID, s.tid); e.add_term(TID, k)
            e.add(And(PART(s.tid), PART(k), s.tid > 0, s.n <= 2 ** 30)); e.assume_inv(S)
            s.r0 = fresh("round", z3.IntSort()); e.add(And(s.r0 == S["rnd"][s.tid], S["st"][s.tid] == OUT))
            e.verify("synchBarrierWait", [Ptr(s.b)], S, lambda T, r: e.prove([("every-participant-has-entered-the-round", T["rnd"][k] >= s.r0 + 1), ("ready-for-the-next-round", And(T["st"][s.tid] == OUT, T["rnd"][s.tid] == s.r0 + 1))]))
        with e.scope():     # set establishes the invariant
            e.spec = q = BarrierSet(); q.b, q.tid, q.n = s.b, s.tid, s.n
            S = State(q, None, "env"); e.add(And(s.n >= 1, s.n < 2 ** 31, s.tid > 0))
            def post(T, r):
                k, l = z3.Ints("k l")
                g0 = State(s, None, "env"); g0.mem = {x: T.M(x) for x in s.keys}
                z = z3.IntVal(0)
                for nm in ("R", "stage", "nA", "nL"): g0.gh[nm] = z
                g0.gh["a"] = g0.gh["b"] = z3.BoolVal(False)
                for nm in ("rnd", "lv", "st"): a = g0.g(nm); e.add(And(a[k] == 0, a[l] == 0))
                e.add(And(k > 0, l > 0))
                e.prove([("set-establishes." + c.name, c.fn(*[k, l][:len(c.sorts)])) for c in s.inv(g0)])
            e.verify("synchBarrierSet", [Ptr(s.b), s.n], S, post)
            e.spec = s


class BarrierSet(Barrier):
    sequential = True
    def on_write(s, e, S, S2, writes, rmw): return None
    def on_read(s, e, S, base, key, v): return None
    def preds(s, e, S): return []


class BarrierLeave(Barrier):
    """completion: no thread waits any more; la[t] / ll[t]: t has counted itself out of the arrivals / of the leaves"""
    src = "libconcurrent/primitives/barrier.c"
    ghosts, ghost_dom = ghosts(nA="i", nL="i", la="t:b", ll="t:b")
    def inv(s, S):
        return [Clause("counters", [], lambda: And(s.n >= 1, s.F(S, "arrive") == s.n - S["nA"], s.F(S, "leave") == s.n - S["nL"]))]
    def lemmas(s, S):
        nA, nL, la, ll = [S[x] for x in "nA nL la ll".split()]
        return [Clause("card", [], lambda: And(0 <= nA, nA <= s.n, 0 <= nL, nL <= s.n)),
                Clause("pigeonhole", [TID], lambda t: Implies(PART(t), And(Implies(Not(la[t]), nA < s.n), Implies(Not(ll[t]), nL < s.n))))]
    def rely(s, A, B, u):
        return [Clause("mine", [], lambda: And(B["la"][u] == A["la"][u], B["ll"][u] == A["ll"][u])),
                Clause("left-stays-left", [TID], lambda t: Implies(PART(t), And(Implies(A["la"][t], B["la"][t]), Implies(A["ll"][t], B["ll"][t]))))]
    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]; t = s.tid
        for fld, c, m in (("arrive", "nA", "la"), ("leave", "nL", "ll")):
            if key == s.fields[fld] and rmw:
                e.prove([("counted-out-once", And(Not(S[m][t]), v == old - 1))])
                return {c: S[c] + 1, m: Store(S[m], t, True)}
        raise Unsupported("write of a barrier field without a contract")
    def on_read(s, e, S, base, key, v): return None
    def preds(s, e, S): return [("gone", lambda X: And(X["la"][s.tid], X["ll"][s.tid])), ("nA=n", lambda X: X["nA"] == s.n), ("nL=n", lambda X: X["nL"] == s.n)]
    def named_objs(s, S): return [("bar", s.b)]
    def run(s, e):
        for name, post in (("synchBarrierLeave", None), ("synchBarrierLastLeave", True)):
            with e.scope():
                S = State(s, None, "env"); k = z3.Int("other")
                e.add_term(OBJ, s.b); e.add_term(TID, s.tid); e.add_term(TID, k)
                e.add(And(PART(s.tid), PART(k), s.tid > 0, s.n <= 2 ** 30)); e.assume_inv(S)
                e.add(And(Not(S["la"][s.tid]), Not(S["ll"][s.tid])))
                e.verify(name, [Ptr(s.b)], S, lambda T, r: e.prove([("counted-out", And(T["la"][s.tid], T["ll"][s.tid]))] + ([("every-participant-has-left", And(T["la"][k], T["ll"][k]))] if post else [])))
