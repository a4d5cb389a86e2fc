"""Contract of the Oyama combining object: every announced request is applied exactly once by the lock holder, with its announced argument and pid; the issuer
returns exactly its result, and only after the request has been applied."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

LOCK, NODE = 1, 2
KIND = z3.Function("kind", z3.IntSort(), z3.IntSort())
OWN = z3.Function("static_owner", z3.IntSort(), z3.IntSort())
NODEOF = z3.Function("nodeof", z3.IntSort(), z3.IntSort())


class Oyama(Spec):
    """announced requests 1..T; (G,T] = shared list, (lo,c] = the part of the grabbed batch that is not served yet"""
    src = "libconcurrent/concurrent/oyama.c"
    ghosts, ghost_dom = ghosts(T="i", G="i", lo="i", c="i", comb="i", srv="b", at="x:o", pos="o:i", idx="t:i", inq="t:b", app="t:b", res="t:w", garg="t:w", gpid="t:w")

    def __init__(s):
        super().__init__()
        L = layout.offsets(["oyama.h"], [("OyamaStruct", "lock"), ("OyamaStruct", "tail"), ("OyamaStruct", "nthreads"), ("OyamaThreadState", "my_node"), ("OyamaAnnounceNode", "next"),
                                         ("OyamaAnnounceNode", "arg_ret"), ("OyamaAnnounceNode", "pid"), ("OyamaAnnounceNode", "completed")])
        s.nodeoff = L["OyamaThreadState", "my_node"][0]
        if s.nodeoff != 0: raise Unsupported("my_node is not the first field of OyamaThreadState")
        s.fields = dict(lock=L["OyamaStruct", "lock"], tail=L["OyamaStruct", "tail"], nthreads=L["OyamaStruct", "nthreads"], next=L["OyamaAnnounceNode", "next"], arg=L["OyamaAnnounceNode", "arg_ret"],
                        pid=L["OyamaAnnounceNode", "pid"], comp=L["OyamaAnnounceNode", "completed"])
        s.keys = set(s.fields.values())
        s.l, s.st, s.tid, s.arg, s.pid, s.sfunc = z3.Ints("l st me arg pid SFUNC")

    def private(s, S, o, u): return And(KIND(o) == NODE, OWN(o) == u, Not(S["inq"][u]))
    def pend(s, S, i): return Or(And(S["G"] < i, i <= S["T"]), And(S["lo"] < i, i <= S["c"]))

    def inv(s, S):
        T, G, lo, c, comb, srv, at, pos, idx, inq, app = [S[x] for x in "T G lo c comb srv at pos idx inq app".split()]
        f = S.f
        def chain(i):
            o = at[i]; u = OWN(o)
            return Implies(s.pend(S, i), And(KIND(o) == NODE, o != 0, pos[o] == i, u > 0, NODEOF(u) == o, inq[u], idx[u] == i, f("comp", o) == 0,
                           f("next", o) == If(Or(i - 1 > G, And(i <= c, i - 1 > lo)), at[i - 1], z3.IntVal(0)),
                           If(And(srv, i == c), app[u], And(Not(app[u]), f("arg", o) == S["garg"][u], f("pid", o) == S["gpid"][u]))))
        def thr(t):
            o = NODEOF(t)
            return Implies(And(t > 0, inq[t]), And(KIND(o) == NODE, OWN(o) == t, If(s.pend(S, idx[t]), at[idx[t]] == o, And(app[t], f("comp", o) != 0, f("arg", o) == S["res"][t])), idx[t] <= T, idx[t] > 0))
        return [Clause("bounds", [], lambda: And(0 <= lo, lo <= c, c <= G, G <= T, comb >= 0, f("tail", s.l) == If(T > G, at[T], z3.IntVal(0)))),
                Clause("lock", [], lambda: And(Or(f("lock", s.l) == 0, f("lock", s.l) == 1), (f("lock", s.l) == 0) == (comb == 0), Implies(comb == 0, c == lo), Implies(srv, lo < c))),
                Clause("chain", [IDX], chain), Clause("thread", [TID], thr)]

    def terms(s, S):
        T, at, c = S["T"], S["at"], S["c"]
        i = S["idx"][s.tid]
        return [(IDX, T), (IDX, T + 1), (IDX, c), (IDX, c - 1), (IDX, S["G"]), (IDX, i), (OBJ, at[T]), (OBJ, at[c]), (OBJ, at[c - 1]), (TID, OWN(at[T])), (TID, OWN(at[c])), (TID, S["comb"])]

    def skolem_terms(s, S, S2, sk, u):
        out = [(IDX, S["idx"][u]), (OBJ, NODEOF(u))]
        for t in sk[TID]: out += [(IDX, S["idx"][t]), (OBJ, NODEOF(t))]
        for o in sk[OBJ]: out += [(IDX, S["pos"][o]), (TID, OWN(o))]
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (TID, OWN(S["at"][i])), (IDX, i - 1)]
        return out

    def rely(s, A, B, u):
        n = NODEOF(u)
        def batch(i):
            o = A["at"][i]; w = OWN(o)
            return Implies(And(A["comb"] == u, A["lo"] < i, i <= A["c"]), And(*[B.f(x, o) == A.f(x, o) for x in ("next", "arg", "pid", "comp")], B["app"][w] == A["app"][w], B["res"][w] == A["res"][w],
                           B["garg"][w] == A["garg"][w], B["gpid"][w] == A["gpid"][w]))
        return [Clause("thr", [], lambda: And(*[B[g][u] == A[g][u] for g in ("inq", "idx", "garg", "gpid")], Implies(Or(A["app"][u], Not(A["inq"][u]), A["comb"] == u), And(B["app"][u] == A["app"][u], B["res"][u] == A["res"][u])))),
                Clause("comb", [], lambda: And((A["comb"] == u) == (B["comb"] == u), Implies(A["comb"] == u, And(*[B[g] == A[g] for g in ("lo", "c", "G", "srv")])))),
                Clause("mono", [], lambda: And(B["T"] >= A["T"], B["G"] >= A["G"])),
                Clause("result", [], lambda: Implies(And(A["inq"][u], A.f("comp", n) != 0, KIND(n) == NODE), And(B.f("comp", n) == A.f("comp", n), B.f("arg", n) == A.f("arg", n)))),
                Clause("batch", [IDX], batch),
                Clause("order", [IDX], lambda i: Implies(And(0 < i, i <= A["T"]), B["at"][i] == A["at"][i])),
                Clause("const", [], lambda: B.f("nthreads", s.l) == A.f("nthreads", s.l))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; T, at = S["T"], S["at"]
        if base.eq(s.l) and key == s.fields["tail"]:
            ann = v != 0; T1 = T + 1
            e.add_term(IDX, T1); e.add_term(IDX, T)
            def up(n, i, x): return Store(S[n], i, If(ann, x, S[n][i]))
            B = z3.BoolVal
            return dict(T=If(ann, T1, T), at=up("at", T1, v), pos=up("pos", v, T1), idx=up("idx", t, T1), inq=up("inq", t, B(True)), app=up("app", t, B(False)), garg=up("garg", t, s.arg), gpid=up("gpid", t, s.pid),
                        G=If(ann, S["G"], T), lo=If(ann, S["lo"], S["G"]), c=If(ann, S["c"], T))
        if base.eq(s.l) and key == s.fields["lock"]:
            return dict(comb=If(v == 0, If(S["comb"] == t, z3.IntVal(0), S["comb"]), If(old == 0, t, S["comb"])))
        if key == s.fields["comp"]:
            d = And(S["comb"] == t, S["srv"], base == at[S["c"]], v != 0)
            return dict(c=If(d, S["c"] - 1, S["c"]), srv=And(S["srv"], Not(d)))

    def on_icall(s, e, S, f, args, k):
        S = e.env(S)
        c = S["c"]; o = S["at"][c]; u = OWN(o)
        e.add_term(TID, u, e.invstate(S))
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.called-only-by-the-lock-holder", S["comb"] == s.tid), ("sfunc.request-pending", And(S["lo"] < c, S["inq"][u])),
                 ("sfunc.not-applied-before", Not(S["app"][u])), ("sfunc.announced-argument", args[0] == S["garg"][u]), ("sfunc.announced-pid", args[1] == S["gpid"][u])])
        r = fresh("sfunc_ret", z3.IntSort())
        k(e.event(S, dict(srv=z3.BoolVal(True), app=Store(S["app"], u, True), res=Store(S["res"], u, r)), "sfunc"), r)

    def done(s, X):
        t = s.tid
        return And(X["inq"][t], X["app"][t], X.f("comp", s.st) != 0)
    def ghost_objs(s): return [("at[c]", lambda S: S["at"][S["c"]]), ("head of batch", lambda S: If(S["c"] > S["lo"], S["at"][S["c"]], z3.IntVal(0))), ("next of served", lambda S: If(S["c"] - 1 > S["lo"], S["at"][S["c"] - 1], z3.IntVal(0)))]
    def named_objs(s, S): return [("node", s.st)]
    def preds(s, e, S):
        t = s.tid
        return [("comb=me", lambda X: X["comb"] == t), ("comb!=me", lambda X: X["comb"] != t), ("done", s.done), ("inq", lambda X: X["inq"][t]), ("mine grabbed", lambda X: X["idx"][t] <= X["G"]),
                ("batch empty", lambda X: X["c"] == X["lo"]), ("not serving", lambda X: Not(X["srv"])), ("not inq", lambda X: Not(X["inq"][t])), ("comp=0", lambda X: X.f("comp", s.st) == 0)]

    def run(s, e):
        S = State(s, None, "env")
        for o in (s.l, s.st): e.add_term(OBJ, o)
        e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == LOCK, KIND(s.st) == NODE, OWN(s.st) == s.tid, NODEOF(s.tid) == s.st, s.st != 0))
        e.assume_inv(S)
        nt = S.f("nthreads", s.l)
        e.add(And(Not(S["inq"][s.tid]), S["comb"] != s.tid, nt >= 1, nt <= 2 ** 31 // 10 - 1))
        def post(S2, ret):
            t = s.tid
            e.prove([("ret.applied-exactly-once-before-return", And(S2["inq"][t], S2["app"][t])), ("ret.own-result", ret == S2["res"][t]), ("ret.not-combiner", S2["comb"] != t),
                     ("ret.not-in-list", Not(s.pend(S2, S2["idx"][t])))])
            e.event(S2, dict(inq=Store(S2["inq"], t, False)), "return")
        e.verify("OyamaApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), s.arg, s.pid], S, post)
