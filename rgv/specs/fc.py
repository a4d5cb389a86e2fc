"""Contract of flat combining: every published request is applied exactly once by the lock holder, with its argument and its issuer's pid; the issuer returns
exactly its result. Includes the publication list: a combiner whose request is pending finds its own node in the list (reachability through ghost order numbers)."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

LOCK, NODE, TS = 1, 2, 3
I = z3.IntSort()
KIND = z3.Function("kind", I, I)
OWN = z3.Function("static_owner", I, I)
NODEOF = z3.Function("nodeof", I, I)


class FC(Spec):
    """inl[o]: o is in the publication list, with order number ord[o] (larger = closer to the head); srv = thread whose request was applied but is not marked
    yet; deact = node unlinked by the cleanup but not marked inactive yet; enq[t]: t is inserting its node"""
    src = "libconcurrent/concurrent/fc.c"
    ghosts, ghost_dom = ghosts(T="i", comb="i", srv="i", deact="i", at="x:o", ord="o:i", inl="o:b", enq="t:b", inq="t:b", app="t:b", res="t:w", garg="t:w")

    def __init__(s):
        super().__init__()
        R = "FCRequest"
        L = layout.offsets(["fc.h"], [("FCStruct", "head"), ("FCStruct", "lock"), ("FCStruct", "nodes"), (R, "next"), (R, "val"), (R, "active"), (R, "pending"), ("FCThreadState", "node")])
        s.fields = dict(head=L["FCStruct", "head"], lock=L["FCStruct", "lock"], nodes=L["FCStruct", "nodes"], next=L[R, "next"], val=L[R, "val"], active=L[R, "active"], pending=L[R, "pending"], tsnode=L["FCThreadState", "node"])
        s.size = L[R, None][1]
        s.keys = set(s.fields.values())
        s.l, s.st, s.tid, s.arg, s.pid, s.sfunc, s.state = z3.Ints("l st me arg pid SFUNC STATE")

    def private(s, S, o, u): return And(KIND(o) == TS, OWN(o) == u)
    def alive(s, S, i): return And(S["inl"][S["at"][i]], S["ord"][S["at"][i]] == i, KIND(S["at"][i]) == NODE)

    def inv(s, S):
        T, comb, srv, deact, at, ordn, inl, enq, inq, app = [S[x] for x in "T comb srv deact at ord inl enq inq app".split()]
        f = S.f
        def node(o):
            t = OWN(o); n = f("next", o)
            return Implies(KIND(o) == NODE, And(o != 0, Or(f("active", o) == 0, f("active", o) == 1), Or(f("pending", o) == 0, f("pending", o) == 1), t > 0, t < 2 ** 31, o == NODEOF(t), o == f("nodes", s.l) + s.size * (t - 1),
                           Implies(inl[o], And(0 < ordn[o], ordn[o] <= T, at[ordn[o]] == o, deact != o, Not(enq[t]), Or(n == 0, And(KIND(n) == NODE, inl[n], ordn[n] < ordn[o])), f("head", s.l) != 0, ordn[o] <= ordn[f("head", s.l)])),
                           (f("active", o) != 0) == Or(inl[o], enq[t], deact == o), Implies(enq[t], deact != o)))
        def link(i, j): return Implies(And(j < i, s.alive(S, i), s.alive(S, j)), And(f("next", at[i]) != 0, j <= ordn[f("next", at[i])]))
        def thr(t):
            o = NODEOF(t)
            return Implies(And(t > 0, KIND(o) == NODE, OWN(o) == t), And(
                Implies(f("pending", o) != 0, And(inq[t], app[t] == (srv == t), Implies(Not(app[t]), f("val", o) == S["garg"][t]))),
                Implies(And(f("pending", o) == 0, inq[t]), And(app[t], srv != t, f("val", o) == S["res"][t])), Implies(srv == t, And(inq[t], app[t], f("pending", o) != 0))))
        h = f("head", s.l)
        return [Clause("lock", [], lambda: And(T >= 0, comb >= 0, (f("lock", s.l) == 0) == (comb == 0), Implies(comb == 0, And(srv == 0, deact == 0)), Or(h == 0, And(KIND(h) == NODE, inl[h])))),
                Clause("node", [OBJ], node), Clause("list", [IDX, IDX], link), Clause("request", [TID], thr)]

    def terms(s, S):
        h = S.f("head", s.l); n = NODEOF(s.tid)
        return [(OBJ, h), (IDX, S["ord"][h]), (IDX, S["T"] + 1), (IDX, S["ord"][n]), (TID, S["srv"]), (OBJ, NODEOF(S["srv"])), (OBJ, S["deact"])]
    def skolem_terms(s, S, S2, sk, u):
        out = [(OBJ, NODEOF(u)), (IDX, S["ord"][NODEOF(u)])]
        for t in sk[TID]: out += [(OBJ, NODEOF(t))]
        for o in sk[OBJ]: out += [(TID, OWN(o)), (IDX, S["ord"][o]), (OBJ, S.f("next", o)), (IDX, S["ord"][S.f("next", o)])]
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (OBJ, S.f("next", S["at"][i]))]
        return out

    def rely(s, A, B, u):
        n = NODEOF(u)
        same = lambda x, o: B.f(x, o) == A.f(x, o)
        return [Clause("thr", [], lambda: And(*[B[g][u] == A[g][u] for g in ("inq", "enq", "garg")], Implies(Or(A["app"][u], Not(A["inq"][u]), A["comb"] == u), And(B["app"][u] == A["app"][u], B["res"][u] == A["res"][u])))),
                Clause("combiner", [], lambda: And((A["comb"] == u) == (B["comb"] == u), Implies(A["comb"] == u, And(B["srv"] == A["srv"], B["deact"] == A["deact"])))),
                Clause("request", [], lambda: Implies(And(KIND(n) == NODE, OWN(n) == u), And(Implies(Or(Not(A["inq"][u]), A.f("pending", n) == 0), And(same("pending", n), same("val", n))), Implies(And(Not(A["inl"][n]), A["deact"] != n), And(Not(B["inl"][n]), B["deact"] != n, same("active", n), same("next", n)))))),
                Clause("list", [OBJ], lambda o: Implies(KIND(o) == NODE, And(Implies(And(A["comb"] == u, A["inl"][o]), And(B["inl"][o], B["ord"][o] == A["ord"][o], same("next", o))),
                        Implies(And(A["comb"] == u, A["srv"] == OWN(o)), And(same("val", o), B["res"][OWN(o)] == A["res"][OWN(o)])),
                        Implies(And(A["comb"] == u, A.f("pending", o) != 0), And(same("pending", o), same("val", o), B["inq"][OWN(o)] == A["inq"][OWN(o)], B["app"][OWN(o)] == A["app"][OWN(o)], B["garg"][OWN(o)] == A["garg"][OWN(o)]))))),
                Clause("const", [], lambda: same("nodes", s.l))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; n = NODEOF(t); T = S["T"]; Z = z3.IntVal
        if key == s.fields["head"] and base.eq(s.l):
            e.add_term(IDX, T + 1)
            return dict(T=T + 1, at=Store(S["at"], T + 1, v), ord=Store(S["ord"], v, T + 1), inl=Store(S["inl"], v, True), enq=Store(S["enq"], t, False))
        if key == s.fields["lock"] and base.eq(s.l): return dict(comb=If(v == 0, If(S["comb"] == t, Z(0), S["comb"]), If(old == 0, t, S["comb"])))
        if key == s.fields["active"]:
            e.prove([("active.set-by-owner-or-cleared-by-combiner", Or(And(v != 0, base == n), And(v == 0, base == S["deact"], S["comb"] == t)))])
            return dict(enq=Store(S["enq"], t, Or(S["enq"][t], And(v != 0, base == n, old == 0))), deact=If(And(v == 0, base == S["deact"], S["comb"] == t), Z(0), S["deact"]))
        if key == s.fields["pending"]:
            pub = And(v != 0, base == n, Not(S["inq"][t]))
            done = And(v == 0, S["comb"] == t, S["srv"] != 0, base == NODEOF(S["srv"]))
            return dict(inq=Store(S["inq"], t, Or(S["inq"][t], pub)), app=Store(S["app"], t, And(S["app"][t], Not(pub))), garg=Store(S["garg"], t, If(pub, s.arg, S["garg"][t])), srv=If(done, Z(0), S["srv"]))
        if key == s.fields["next"]:
            e.add_term(OBJ, old); e.add_term(IDX, S["ord"][old]); e.add_term(IDX, S["ord"][base])
            unl = And(S["comb"] == t, S["inl"][base], old != 0, v == S.f("next", old), S["deact"] == 0)
            return dict(inl=Store(S["inl"], old, And(S["inl"][old], Not(unl))), deact=If(unl, old, S["deact"]))

    def on_icall(s, e, S, f, args, k):
        S = e.env(S)
        u = z3.simplify(args[2] + 1); e.add_term(TID, u); e.add_term(OBJ, NODEOF(u)); n = NODEOF(u)
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.called-only-by-the-lock-holder", S["comb"] == s.tid), ("sfunc.issuers-pid-and-request-pending", And(KIND(n) == NODE, OWN(n) == u, S["inq"][u], S.f("pending", n) != 0)),
                 ("sfunc.not-applied-before", And(S["srv"] == 0, Not(S["app"][u]))), ("sfunc.state", args[0].addr() == s.state), ("sfunc.announced-argument", args[1] == S["garg"][u])])
        r = fresh("sfunc_ret", I)
        k(e.event(S, dict(srv=u, app=Store(S["app"], u, True), res=Store(S["res"], u, r)), "sfunc"), r)

    def named_objs(s, S): return [("node", s.n)]
    def obj_preds(s): return [("in list", lambda X, o: Or(o == 0, And(KIND(o) == NODE, X["inl"][o]))), ("in list!=0", lambda X, o: And(o != 0, KIND(o) == NODE, X["inl"][o])),
                              ("my request is served or still ahead", lambda X, o: Or(X["app"][s.tid], And(o != 0, X["ord"][s.n] <= X["ord"][o])))]
    def loop_terms(s, e, S, heads):
        for h in heads.values():
            if isinstance(h, Ptr): e.add_term(IDX, S["ord"][h.addr()]); e.add_term(IDX, S["ord"][s.n]); e.add_term(TID, OWN(h.addr()))
    def preds(s, e, S):
        t = s.tid
        return [("comb=me", lambda X: X["comb"] == t), ("comb!=me", lambda X: X["comb"] != t), ("app", lambda X: X["app"][t]), ("inq", lambda X: X["inq"][t]), ("not serving", lambda X: X["srv"] == 0), ("combiner->not serving", lambda X: Implies(X["comb"] == t, And(X["srv"] == 0, X["deact"] == 0))),
                ("no cleanup", lambda X: X["deact"] == 0), ("enq", lambda X: X["enq"][t]), ("!enq", lambda X: Not(X["enq"][t])), ("linked", lambda X: And(X["inl"][s.n])), ("not linked", lambda X: And(Not(X["inl"][s.n]), X["deact"] != s.n))]

    def run(s, e):
        S = State(s, None, "env")
        s.n = NODEOF(s.tid)
        for o in (s.l, s.st, s.n): e.add_term(OBJ, o)
        e.add_term(TID, s.tid)
        e.add(And(s.tid > 0, KIND(s.l) == LOCK, KIND(s.st) == TS, OWN(s.st) == s.tid, KIND(s.n) == NODE, OWN(s.n) == s.tid, s.pid == s.tid - 1, S.f("tsnode", s.st) == s.n))
        e.assume_inv(S)
        e.add(And(Not(S["inq"][s.tid]), S["comb"] != s.tid, Not(S["enq"][s.tid])))
        def post(S2, ret):
            t = s.tid
            e.prove([("ret.applied-exactly-once-before-return", And(S2["inq"][t], S2["app"][t])), ("ret.own-result", ret == S2["res"][t]), ("ret.lock-released", S2["comb"] != t), ("ret.not-inserting", Not(S2["enq"][t])),
                     ("ret.request-slot-free", S2.f("pending", s.n) == 0)])
            e.event(S2, dict(inq=Store(S2["inq"], t, False)), "return")
        e.verify("FCApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), Ptr(s.state), s.arg, s.pid], S, post)
