"""Contract of DSM-Synch: every announced request is applied exactly once, in announcement order, by one combiner at a time, with its announced argument
and pid; its issuer returns exactly its result."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

LOCK, NODE, TS = 1, 2, 3
I = z3.IntSort()
KIND = z3.Function("kind", I, I)
OWN = z3.Function("static_owner", I, I)


class DSM(Spec):
    """requests 1..T in announcement order; 1..h are completely served; ph = phase of request h+1 (0 pending, 1 applied, 2 completed); comb = combiner or 0"""
    src = "libconcurrent/concurrent/dsmsynch.c"
    ghosts, ghost_dom = ghosts(T="i", F="i", h="i", ph="i", comb="i", at="x:o", who="x:t", pos="o:i", idx="t:i", inq="t:b", lnk="t:b", app="t:b", res="t:w", garg="t:w", gpid="t:w")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["dsmsynch.h"], [("DSMSynchStruct", "Tail"), ("DSMSynchStruct", "nthreads"), ("DSMSynchNode", "next"), ("DSMSynchNode", "arg_ret"), ("DSMSynchNode", "pid"), ("DSMSynchNode", "locked"),
                                            ("DSMSynchNode", "completed"), ("DSMSynchThreadState", "MyNodes"), ("DSMSynchThreadState", "toggle")])
        N = "DSMSynchNode"
        m = L["DSMSynchThreadState", "MyNodes"]
        s.fields = dict(tail=L["DSMSynchStruct", "Tail"], nthreads=L["DSMSynchStruct", "nthreads"], next=L[N, "next"], arg=L[N, "arg_ret"], pid=L[N, "pid"], locked=L[N, "locked"], comp=L[N, "completed"],
                        toggle=L["DSMSynchThreadState", "toggle"], n0=(m[0], 8), n1=(m[0] + 8, 8))
        s.keys = set(s.fields.values())
        s.l, s.st, s.tid, s.arg, s.pid, s.sfunc, s.state = z3.Ints("l st me arg pid SFUNC STATE")

    def private(s, S, o, u): return Or(And(KIND(o) == NODE, OWN(o) == u, S["pos"][o] < S["h"]), And(KIND(o) == TS, OWN(o) == u))

    def inv(s, S):
        T, F, h, ph, comb, at, who, pos, idx, inq, lnk, app, res = [S[x] for x in "T F h ph comb at who pos idx inq lnk app res".split()]
        f = S.f
        def chain(i):
            o = at[i]; w = who[i]
            return Implies(And(h <= i, 1 <= i, i <= T), And(KIND(o) == NODE, o != 0, OWN(o) == w, w > 0, pos[o] == i, Implies(i > h, And(inq[w], idx[w] == i)),
                           Implies(And(comb != 0, i >= F), f("next", o) == If(And(i < T, lnk[who[i + 1]]), at[i + 1], z3.IntVal(0)))))
        def pend(i):
            o = at[i]; w = who[i]; cur = i == h + 1
            return Implies(And(h < i, i <= T), And(Implies(f("locked", o) == 0, And(cur, comb == w)), (f("comp", o) != 0) == And(cur, ph == 2), app[w] == And(cur, ph > 0),
                           Implies(Not(app[w]), And(f("arg", o) == S["garg"][w], f("pid", o) == S["gpid"][w])), Implies(f("comp", o) != 0, f("arg", o) == res[w])))
        def thr(t):
            o = at[idx[t]]
            return Implies(And(t > 0, inq[t]), And(0 < idx[t], idx[t] <= T, who[idx[t]] == t, KIND(o) == NODE, OWN(o) == t, pos[o] == idx[t], Implies(Not(lnk[t]), And(idx[t] > h, idx[t] > F)), Implies(idx[t] > h, comb != 0), Implies(And(comb == t, idx[t] > h), idx[t] == h + 1),
                           Implies(idx[t] <= h, And(app[t], f("locked", o) == 0, f("comp", o) != 0, f("arg", o) == res[t]))))
        return [Clause("bounds", [], lambda: And(0 <= h, h <= T, comb >= 0, 0 <= ph, ph <= 2, f("tail", s.l) == If(comb != 0, at[T], z3.IntVal(0)), Implies(comb == 0, And(h == T, ph == 0)), Implies(comb != 0, And(1 <= F, F <= T, F <= h + 1)), Implies(ph > 0, h < T))),
                Clause("combiner", [], lambda: Implies(comb != 0, And(inq[comb], lnk[comb], idx[comb] <= h + 1))),
                Clause("linked", [], lambda: Implies(ph > 0, lnk[who[h + 1]])),
                Clause("chain", [IDX], chain), Clause("pending", [IDX], pend), Clause("thread", [TID], thr),
                Clause("positions", [OBJ], lambda o: Implies(KIND(o) == NODE, And(pos[o] <= T, Implies(And(pos[o] >= h, pos[o] >= 1), at[pos[o]] == o)))) ]

    def terms(s, S):
        T, h, at = S["T"], S["h"], S["at"]
        i = S["idx"][s.tid]
        return [(IDX, T), (IDX, T + 1), (IDX, h), (IDX, h + 1), (IDX, h + 2), (IDX, i), (IDX, i - 1), (OBJ, at[T]), (OBJ, at[h]), (OBJ, at[h + 1]), (OBJ, at[h + 2]), (OBJ, at[i]), (OBJ, at[i - 1]), (TID, S["who"][h + 1]), (TID, S["who"][h + 2]), (TID, S["comb"])]

    def skolem_terms(s, S, S2, sk, u):
        i = S["idx"][u]
        out = [(IDX, i), (OBJ, S["at"][i]), (IDX, i + 1)]
        for t in sk[TID]: i = S["idx"][t]; out += [(IDX, i), (OBJ, S["at"][i])]
        for o in sk[OBJ]: out += [(IDX, S["pos"][o]), (TID, OWN(o))]
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (TID, S["who"][i]), (IDX, i + 1), (TID, S["who"][i + 1])]
        return out

    def rely(s, A, B, u):
        n = A["at"][A["idx"][u]]
        def batch(i):
            o = A["at"][i]; w = A["who"][i]
            return Implies(And(A["comb"] == u, A["h"] <= i, A["F"] <= i, i <= A["T"]), And(Implies(A.f("next", o) != 0, And(B.f("next", o) == A.f("next", o), B["lnk"][A["who"][i + 1]] == A["lnk"][A["who"][i + 1]])),
                           Implies(i > A["h"], And(*[B.f(x, o) == A.f(x, o) for x in ("arg", "pid", "comp", "locked")], *[B[g][w] == A[g][w] for g in ("app", "res", "garg", "gpid", "idx")]))))
        return [Clause("thr", [], lambda: And(*[B[g][u] == A[g][u] for g in ("inq", "idx", "lnk", "garg", "gpid")], Implies(Or(A["app"][u], Not(A["inq"][u]), A["comb"] == u, Not(A["lnk"][u])), And(B["app"][u] == A["app"][u], B["res"][u] == A["res"][u])))),
                Clause("combiner", [], lambda: And(Implies(A["comb"] == u, And(B["comb"] == u, B["h"] == A["h"], B["ph"] == A["ph"], B["F"] == A["F"])), Implies(And(A["comb"] != u, B["comb"] == u), And(B["ph"] == 0, B["idx"][u] == B["h"] + 1)), Implies(And(A["comb"] != u, Or(Not(A["inq"][u]), A["idx"][u] <= A["h"])), B["comb"] != u))),
                Clause("mono", [], lambda: And(B["T"] >= A["T"], B["h"] >= A["h"])),
                Clause("result", [], lambda: Implies(And(A["inq"][u], A["idx"][u] <= A["h"]), And(*[B.f(x, n) == A.f(x, n) for x in ("arg", "comp", "locked")]))),
                Clause("batch", [IDX], batch),
                Clause("pos", [OBJ], lambda o: Implies(And(KIND(o) == NODE, OWN(o) == u), B["pos"][o] == A["pos"][o])),
                Clause("order", [IDX], lambda i: Implies(And(0 < i, i <= A["T"]), And(B["at"][i] == A["at"][i], B["who"][i] == A["who"][i]))),
                Clause("const", [], lambda: B.f("nthreads", s.l) == A.f("nthreads", s.l))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; T, h, ph, at, who, comb = [S[x] for x in "T h ph at who comb".split()]
        Z = z3.IntVal
        if base.eq(s.l) and key == s.fields["tail"]:
            ann = v != 0; T1 = T + 1
            e.add_term(IDX, T1); e.add_term(IDX, T)
            def up(n, i, x): return Store(S[n], i, If(ann, x, S[n][i]))
            B = z3.BoolVal
            return dict(T=If(ann, T1, T), at=up("at", T1, v), pos=up("pos", v, T1), who=up("who", T1, Z(0) + t), idx=up("idx", t, T1), inq=up("inq", t, B(True)), lnk=up("lnk", t, old == 0), app=up("app", t, B(False)),
                        garg=up("garg", t, s.arg), gpid=up("gpid", t, s.pid), comb=If(ann, If(old == 0, t, comb), Z(0)), F=If(And(ann, old == 0), T1, S["F"]))
        if key == s.fields["next"]:
            ln = And(S["inq"][t], Not(S["lnk"][t]), base == at[S["idx"][t] - 1], v == at[S["idx"][t]])
            return dict(lnk=Store(S["lnk"], t, Or(S["lnk"][t], ln)))
        if key == s.fields["comp"]:
            c = And(comb == t, ph == 1, base == at[h + 1], v != 0)
            return dict(ph=If(c, Z(2), ph))
        if key == s.fields["locked"]:
            own = And(comb == t, base == at[h + 1], h < T, v == 0)
            return dict(h=If(And(own, ph == 2), h + 1, h), ph=If(And(own, ph == 2), Z(0), ph), comb=If(And(own, ph == 0), who[h + 1], comb))

    def on_icall(s, e, S, f, args, k):
        S = e.env(S)
        h, at, who = S["h"], S["at"], S["who"]; u = who[h + 1]
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.called-only-by-the-combiner", S["comb"] == s.tid), ("sfunc.request-pending", And(h < S["T"], S["inq"][u])),
                 ("sfunc.not-applied-before", And(S["ph"] == 0, Not(S["app"][u]))), ("sfunc.request-linked", S["lnk"][u]), ("sfunc.state", args[0].addr() == s.state), ("sfunc.announced-argument", args[1] == S["garg"][u]), ("sfunc.announced-pid", args[2] == S["gpid"][u])])
        r = fresh("sfunc_ret", I)
        k(e.event(S, dict(ph=z3.IntVal(1), app=Store(S["app"], u, True), res=Store(S["res"], u, r)), "sfunc"), r)

    def ghost_objs(s): return [("at[h]", lambda S: S["at"][S["h"]]), ("at[h+1]", lambda S: S["at"][S["h"] + 1]), ("at[idx]", lambda S: S["at"][S["idx"][s.tid]])]
    def named_objs(s, S): return [("n0", s.n0), ("n1", s.n1)]
    def preds(s, e, S):
        t = s.tid
        return [("comb=me", lambda X: X["comb"] == t), ("comb!=me", lambda X: X["comb"] != t), ("served", lambda X: X["idx"][t] <= X["h"]), ("inq", lambda X: X["inq"][t]), ("h<T", lambda X: X["h"] < X["T"]), ("h>0", lambda X: X["h"] > 0),
                ("combiner->phase 0", lambda X: Implies(X["comb"] == t, And(X["ph"] == 0, X["idx"][t] == X["h"] + 1))), ("h>=F", lambda X: X["h"] >= X["F"]), ("h+1>F", lambda X: X["h"] + 1 >= X["F"]), ("phase 0", lambda X: X["ph"] == 0), ("app", lambda X: X["app"][t]), ("head", lambda X: X["idx"][t] == X["h"] + 1), ("linked", lambda X: X["lnk"][X["who"][X["h"] + 1]]), ("lnk me", lambda X: X["lnk"][t]),
                ("mynode", lambda X: Or(*[And(X["at"][X["idx"][t]] == a, X["pos"][b] < X["pos"][a]) for a, b in ((s.n0, s.n1), (s.n1, s.n0))]))]

    def idle(s, S):
        tg = S.f("toggle", s.st); p0, p1 = S["pos"][s.n0], S["pos"][s.n1]
        return And(Not(S["inq"][s.tid]), S["comb"] != s.tid, Or(tg == 0, tg == 1), Implies(tg == 0, And(p1 < p0, p0 <= S["h"])), Implies(tg == 1, And(p0 < p1, p1 <= S["h"])))

    def run(s, e):
        S = State(s, None, "env")
        for o in (s.l, s.st): e.add_term(OBJ, o)
        e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == LOCK, KIND(s.st) == TS, OWN(s.st) == s.tid))
        e.assume_inv(S)
        s.n0, s.n1 = S.f("n0", s.st), S.f("n1", s.st)
        for n in (s.n0, s.n1):
            e.add_term(OBJ, n); e.add(And(KIND(n) == NODE, OWN(n) == s.tid, n != 0))
        e.add(And(s.n0 != s.n1, s.idle(S)))
        nt = S.f("nthreads", s.l)
        e.add(And(nt >= 1, nt <= 2 ** 31 // 10 - 1))
        def post(S2, ret):
            t = s.tid
            e.prove([("ret.applied-exactly-once-before-return", And(S2["inq"][t], S2["app"][t], S2["idx"][t] <= S2["h"])), ("ret.own-result", ret == S2["res"][t]), ("ret.not-combiner", S2["comb"] != t)])
            S3 = e.event(S2, dict(inq=Store(S2["inq"], t, False)), "return")
            e.prove([("ret.spare-node-not-in-use", And(s.idle(S3), S3.f("n0", s.st) == s.n0, S3.f("n1", s.st) == s.n1))])
        e.verify("DSMSynchApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), Ptr(s.state), s.arg, s.pid], S, post)
