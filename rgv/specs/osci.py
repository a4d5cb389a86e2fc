"""Contract of Osci (lock oscillation): every announced request is applied exactly once, by one combiner at a time, with its announced argument and pid; its
issuer returns exactly its result. The fibers of a group share combining nodes through a door; nodes queue up like the nodes of a queue lock."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

LOCK, NODE, TS, REC, SLOT = 1, 2, 3, 4, 5
I = z3.IntSort()
KIND = z3.Function("kind", I, I)
OWN = z3.Function("static_owner", I, I)          # fiber that owns a node or a thread state
GRP = z3.Function("group_of_node", I, I)
GROUP, OFF = z3.Function("group_of_fiber", I, I), z3.Function("offset_of_fiber", I, I)
FIB = z3.Function("fiber", I, I, I)
RECAT, RNODE, ROFF, RFIB = z3.Function("rec", I, I, I), z3.Function("rec_node", I, I), z3.Function("rec_offset", I, I), z3.Function("rec_fiber", I, I)
RECBASE = z3.Function("rec_array", I, I)
CUR, SLOTGRP = z3.Function("current_node_slot", I, I), z3.Function("slot_group", I, I)
OPEN, LOCKED = 1, 2


class Osci(Spec):
    """nodes 1..T in the order of the global queue; 1..h are completely served; comb = combiner fiber or 0, it serves node h+1; srv: request applied, not yet
    marked; rel: marked, not yet released. bs[n]: 0 not in use or queued, 1 offered by its group but not open, 2 open for the fibers of the group, 3 closed;
    dl[n]: fiber that locked the door of n; nod[t]: node that holds the request of t"""
    src = "libconcurrent/concurrent/osci.c"
    forget = True; parallel = True; dry_rlimit = 120000000
    ghosts, ghost_dom = ghosts(T="i", h="i", comb="i", srv="i", rel="i", at="x:o", pos="o:i", lnk="o:b", bs="o:i", dl="o:i", inq="t:b", nod="t:o", app="t:b", res="t:w", garg="t:w", gpid="t:w")

    def __init__(s):
        super().__init__()
        O, N, R, H = "OsciStruct", "OsciNode", "OsciFiberRec", "OsciThreadState"
        L = layout.offsets(["osci.h"], [(O, "Tail"), (O, "nthreads"), (O, "fibers_per_thread"), (O, "current_node"), (N, "next"), (N, "door"), (N, "rec"), (R, "arg_ret"), (R, "pid"), (R, "locked"), (R, "completed"), (H, "next_node"), (H, "toggle")])
        s.fields = dict(tail=L[O, "Tail"], nthreads=L[O, "nthreads"], fpt=L[O, "fibers_per_thread"], current=L[O, "current_node"], next=L[N, "next"], door=L[N, "door"], rec=L[N, "rec"], arg=L[R, "arg_ret"], pid=L[R, "pid"],
                        locked=L[R, "locked"], comp=L[R, "completed"], toggle=L[H, "toggle"], ptr=(0, 8))
        s.nn, s.nsize = L[H, "next_node"], L[N, None][1]
        s.door_consts = layout.consts(["osci.h"], ["_OSCI_DOOR_INIT", "_OSCI_DOOR_OPENED", "_OSCI_DOOR_LOCKED"])
        s.keys = set(s.fields.values())
        s.l, s.st, s.tid, s.arg, s.pid, s.sfunc, s.state, s.F, s.cn = z3.Ints("l st me arg pid SFUNC STATE fibers_per_thread current_node")
        s.n0, s.n1 = z3.Ints("node0 node1")

    # ------------------------------------------------------------------ addresses and arithmetic
    def place(s, e, p):
        if p.priv is None and p.base.eq(s.st) and s.nn[0] <= p.off < s.nn[0] + s.nn[1]:
            i, o = divmod(p.off - s.nn[0], s.nsize); return Ptr((s.n0, s.n1)[i], o)
        if p.priv is None and p.base.eq(s.n0) and s.nsize <= p.off < 2 * s.nsize: return Ptr(s.n1, p.off - s.nsize)
        return p
    def elem(s, e, base, off, i, sz):
        if z3.is_app(base) and base.decl().eq(RECBASE) and off == 0:
            n = base.arg(0); a = RECAT(n, i); e.prove([("rec-index-in-bounds", And(i >= 0, i < s.F))]); e.add_term(IDX, i); e.add_term(OBJ, n); e.add_term(OBJ, a); e.add_term(TID, RFIB(a)); return a
        if base.eq(s.cn) and off == 0:
            e.prove([("group-of-this-fiber", i == GROUP(s.tid))]); return CUR(GROUP(s.tid))
        return None
    def arith(s, e, op, w, a, b):
        if op in ("udiv", "sdiv", "urem", "srem") and e.check(Or(a != s.pid, b != s.F)) == z3.unsat: return (GROUP if "div" in op else OFF)(s.tid)
    def typed_read(s, S, base, key, v):
        if base.eq(s.l) and key == s.fields["fpt"]: return s.F
        if base.eq(s.l) and key == s.fields["current"]: return s.cn
        if key == s.fields["rec"]: return RECBASE(base)
        return v

    def is_mover(s, e, S, base, key, rw):
        """locations no other thread accesses now: constants, the thread state, the request of a fiber that is not announced, argument and pid of a request the combiner is
        about to serve or to mark, a node that is not open yet"""
        if base.eq(s.st) or key == s.fields["rec"] or (base.eq(s.l) and key in (s.fields["fpt"], s.fields["nthreads"], s.fields["current"])): return True
        if z3.is_app(base) and base.decl().eq(RECAT):
            pending = And(S["comb"] == s.tid, S.f("comp", base) == 0, S["pos"][RNODE(base)] > S["h"], S["bs"][RNODE(base)] == 0) if key in (s.fields["arg"], s.fields["pid"]) else z3.BoolVal(False)
            return e.check(Or(KIND(base) != REC, And(Or(RFIB(base) != s.tid, S["inq"][s.tid]), Not(pending)))) == z3.unsat
        if key == s.fields["next"] and not base.eq(s.l): return e.check(Or(OWN(base) != s.tid, S["bs"][base] != 1, KIND(base) != NODE)) == z3.unsat
        return False
    def private(s, S, o, u): return And(KIND(o) == TS, OWN(o) == u)
    def myrec(s, S, t): return RECAT(S["nod"][t], OFF(t))
    def lemmas(s, S):
        def rec(r): n, i, t = RNODE(r), ROFF(r), RFIB(r); return Implies(KIND(r) == REC, And(r == RECAT(n, i), KIND(n) == NODE, n != 0, r != 0, 0 <= i, i < s.F, t == FIB(GRP(n), i), t > 0, GROUP(t) == GRP(n), OFF(t) == i))
        return [Clause("records", [OBJ], rec), Clause("slots", [OBJ], lambda c: Implies(KIND(c) == SLOT, c == CUR(SLOTGRP(c)))),
                Clause("nodes", [OBJ], lambda o: Implies(KIND(o) == NODE, And(o != 0, OWN(o) > 0, GROUP(OWN(o)) == GRP(o)))),
                Clause("fibers", [TID], lambda t: Implies(t > 0, And(FIB(GROUP(t), OFF(t)) == t, 0 <= OFF(t), OFF(t) < s.F, KIND(CUR(GROUP(t))) == SLOT, SLOTGRP(CUR(GROUP(t))) == GROUP(t))))]

    def on_term(s, e, so, t):
        if so == OBJ and z3.is_app(t) and t.decl().eq(RECAT): n, i = t.arg(0), t.arg(1); e.add(Implies(And(KIND(n) == NODE, 0 <= i, i < s.F), And(KIND(t) == REC, RNODE(t) == n, ROFF(t) == i, RFIB(t) == FIB(GRP(n), i))))
    def inv(s, S):
        T, h, comb, srv, rel, at, pos, lnk, bs, dl, inq, nod, app, res, garg, gpid = [S[x] for x in "T h comb srv rel at pos lnk bs dl inq nod app res garg gpid".split()]
        f = S.f
        def chain(i):
            o = at[i]
            return Implies(And(h < i, i <= T), And(KIND(o) == NODE, o != 0, pos[o] == i, bs[o] == 0, f("next", o) == If(And(i < T, lnk[at[i + 1]]), at[i + 1], z3.IntVal(0))))
        def node(o):
            w = OWN(o)
            return Implies(KIND(o) == NODE, And(0 <= bs[o], bs[o] <= 3, pos[o] <= T, Implies(And(pos[o] >= 1, pos[o] >= h), at[pos[o]] == o), Implies(bs[o] != 0, pos[o] <= h), Implies(And(pos[o] >= 1, Not(lnk[o])), pos[o] > h + 1),
                           Implies(Or(bs[o] >= 2, pos[o] > h + 1), And(inq[w], nod[w] == o, Not(app[w]))), Implies(bs[o] >= 2, f("next", o) == 0), Implies(bs[o] == 1, dl[o] == 0),
                           f("door", o) == If(bs[o] == 2, If(dl[o] == 0, OPEN, LOCKED), 0), Implies(bs[o] != 2, dl[o] == 0), dl[o] >= 0))
        def rec(r):
            n, t = RNODE(r), RFIB(r); mine = And(inq[t], nod[t] == n); p = f("comp", r) == 0
            return Implies(KIND(r) == REC, And(Implies(p, And(mine, Or(bs[n] != 0, pos[n] > h), Implies(f("locked", r) == 0, And(comb == t, pos[n] == h + 1)), app[t] == (srv == t), Implies(Not(app[t]), And(f("arg", r) == garg[t], f("pid", r) == gpid[t])))),
                           Implies(And(Not(p), mine), And(app[t], f("arg", r) == res[t], If(rel == t, Or(f("locked", r) != 0, comb == t), f("locked", r) == 0)))))
        def thr(t):
            n = nod[t]
            return Implies(And(t > 0, inq[t]), And(KIND(n) == NODE, GRP(n) == GROUP(t), gpid[t] == t - 1, Implies(And(app[t], OWN(n) == t), And(bs[n] == 0, pos[n] <= h + 1))))
        def busy(t): return And(inq[t], app[t], pos[nod[t]] == h + 1, bs[nod[t]] == 0, KIND(nod[t]) == NODE)
        def slot(c):
            n = f("ptr", c); return Implies(And(KIND(c) == SLOT, n != 0), And(KIND(n) == NODE, GRP(n) == SLOTGRP(c), Or(bs[n] == 1, bs[n] == 2)))
        return [Clause("bounds", [], lambda: And(0 <= h, h <= T, comb >= 0, srv >= 0, rel >= 0, f("tail", s.l) == If(comb != 0, at[T], z3.IntVal(0)), (comb == 0) == (h == T), Implies(comb == 0, And(srv == 0, rel == 0)), Or(srv == 0, rel == 0))),
                Clause("combiner", [], lambda: And(Implies(comb != 0, And(inq[comb], KIND(nod[comb]) == NODE, Implies(Not(app[comb]), And(pos[nod[comb]] == h + 1, bs[nod[comb]] == 0)))), Implies(srv != 0, And(busy(srv), f("comp", s.myrec(S, srv)) == 0)), Implies(rel != 0, And(inq[rel], app[rel], f("comp", s.myrec(S, rel)) != 0, pos[nod[rel]] == h + 1)))),
                Clause("chain", [IDX], chain), Clause("node", [OBJ], node), Clause("rec", [OBJ], rec), Clause("thread", [TID], thr), Clause("slot", [OBJ], slot)]

    def terms(s, S):
        T, h, at = S["T"], S["h"], S["at"]; out = []
        for t in (S["srv"], S["rel"]): out += [(TID, t), (OBJ, S["nod"][t]), (IDX, OFF(t)), (OBJ, s.myrec(S, t))]
        out += [(TID, S["comb"]), (OBJ, S["nod"][S["comb"]]), (OBJ, S["nod"][s.tid]), (OBJ, s.myrec(S, s.tid)), (IDX, h + 1), (IDX, h + 2), (IDX, T), (IDX, T + 1), (OBJ, at[T]), (OBJ, at[h + 1]), (OBJ, at[h + 2]), (OBJ, S.f("ptr", CUR(GROUP(s.tid)))), (IDX, S["pos"][S["nod"][s.tid]]),
                (IDX, S["pos"][S["nod"][s.tid]] - 1), (OBJ, at[S["pos"][S["nod"][s.tid]] - 1])]
        for o in (at[h + 1], at[h + 2]): out += [(TID, OWN(o)), (IDX, OFF(OWN(o))), (OBJ, RECAT(o, OFF(OWN(o))))]
        return out
    def skolem_terms(s, S, S2, sk, u):
        out = [(OBJ, S["nod"][u]), (OBJ, s.myrec(S, u)), (IDX, OFF(u)), (OBJ, CUR(GROUP(u))), (OBJ, S.f("ptr", CUR(GROUP(u)))), (IDX, S["pos"][S["nod"][u]])]
        for t in sk[TID]: out += [(OBJ, S["nod"][t]), (IDX, OFF(t)), (OBJ, s.myrec(S, t)), (OBJ, CUR(GROUP(t)))]
        for o in sk[OBJ]: 
            out += [(IDX, S["pos"][o]), (IDX, S["pos"][o] + 1), (TID, OWN(o)), (OBJ, RNODE(o)), (TID, RFIB(o)), (IDX, ROFF(o)), (IDX, S["pos"][RNODE(o)]), (OBJ, S.f("ptr", o)), (TID, S["dl"][o]), (OBJ, S["nod"][RFIB(o)]), (IDX, OFF(RFIB(o))), (OBJ, RECAT(o, OFF(OWN(o)))), (IDX, OFF(OWN(o)))]
            for t in (OWN(o), RFIB(o)): out += [(OBJ, s.myrec(S, t)), (OBJ, S["nod"][t])]
        for i in sk[IDX]: out += [(OBJ, S["at"][i]), (IDX, i + 1), (OBJ, S["at"][i + 1])]
        return out

    def rely(s, A, B, u):
        same = lambda x, o: B.f(x, o) == A.f(x, o)
        g = lambda x, o: B[x][o] == A[x][o]
        comb = A["comb"] == u
        n = A["nod"][u]
        def rec(r):
            t, o = RFIB(r), RNODE(r); four = And(*[same(x, r) for x in ("arg", "pid", "locked", "comp")])
            return Implies(KIND(r) == REC, And(Implies(And(t == u, Or(Not(A["inq"][u]), A["nod"][u] != o, And(A.f("comp", r) != 0, A["rel"] != u))), four),
                           Implies(And(t == u, A["inq"][u], A["nod"][u] == o, A.f("comp", r) != 0), B.f("comp", r) != 0),
                           Implies(And(comb, A["pos"][o] > A["h"], A["bs"][o] == 0), If(A.f("comp", r) == 0, And(four, *[g(x, t) for x in ("inq", "nod", "app", "garg", "gpid", "res")]), B.f("comp", r) != 0))))
        def node(o):
            return Implies(KIND(o) == NODE, And(Implies(OWN(o) == u, And(g("pos", o), g("bs", o), g("lnk", o), Implies(Or(A["bs"][o] != 0, A["pos"][o] <= A["h"]), same("next", o)), Implies(A["bs"][o] != 2, And(same("door", o), g("dl", o))))),
                           (A["dl"][o] == u) == (B["dl"][o] == u), Implies(A["dl"][o] == u, And(g("bs", o), same("door", o))),
                           Implies(And(A["pos"][o] > A["h"], A["bs"][o] == 0, comb), And(g("pos", o), g("bs", o), Implies(A.f("next", o) != 0, And(same("next", o), B["lnk"][A.f("next", o)] == A["lnk"][A.f("next", o)]))))))
        c = CUR(GROUP(u)); cp = A.f("ptr", c)
        return [Clause("thr", [], lambda: And(*[g(x, u) for x in ("inq", "nod", "garg", "gpid")], Implies(Or(A["app"][u], Not(A["inq"][u]), comb, And(OWN(n) == u, A["bs"][n] != 0)), And(g("app", u), g("res", u))))),
                Clause("combiner", [], lambda: And(Implies(comb, And(B["comb"] == u, B["h"] == A["h"], B["srv"] == A["srv"], B["rel"] == A["rel"])), Implies(And(Not(comb), B["comb"] == u), And(B["srv"] == 0, B["rel"] == 0, B["inq"][u], Not(B["app"][u]))))),
                Clause("mono", [], lambda: And(B["T"] >= A["T"], B["h"] >= A["h"])),
                Clause("order", [IDX], lambda i: Implies(And(0 < i, i <= A["T"]), B["at"][i] == A["at"][i])),
                Clause("slot", [], lambda: And(Implies(And(cp != 0, OWN(cp) == u), same("ptr", c)), Implies(And(B.f("ptr", c) != 0, OWN(B.f("ptr", c)) == u), same("ptr", c)))),
                Clause("rec", [OBJ], rec), Clause("node", [OBJ], node),
                Clause("const", [], lambda: And(same("nthreads", s.l)))]

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]
        t = s.tid; T, h, comb, srv, rel, bs = [S[x] for x in "T h comb srv rel bs".split()]
        Z = z3.IntVal; B = z3.BoolVal; G = lambda n, i, x: S[n].store(i, x)
        if base.eq(s.l) and key == s.fields["tail"]:
            s.all_served(e, S, v == 0, "all-requests-served-before-closing")
            ann = v != 0; T1 = T + 1; e.add_term(IDX, T1)
            def up(n, i, x): return S[n].store(i, If(ann, x, S[n][i]))
            return dict(T=If(ann, T1, T), at=up("at", T1, v), pos=up("pos", v, T1), bs=up("bs", v, Z(0)), lnk=up("lnk", v, old == 0), comb=If(ann, If(old == 0, t, comb), Z(0)), h=If(ann, h, h + 1))
        if z3.is_app(base) and base.decl().eq(CUR): return dict(bs=G("bs", v, If(And(v != 0, bs[v] == 0), 1, bs[v])))
        if key == s.fields["next"]:
            return dict(lnk=G("lnk", v, Or(S["lnk"][v], And(v != 0, OWN(v) == t, base == S["at"][S["pos"][v] - 1], S["pos"][v] > h))))
        if key == s.fields["door"]:
            own, dl = OWN(base) == t, S["dl"][base]
            return dict(bs=G("bs", base, If(And(own, bs[base] == 1, v == OPEN), 2, If(And(own, bs[base] == 2, v == 0), 3, bs[base]))), dl=G("dl", base, If(v == LOCKED, If(old == OPEN, t, dl), If(dl == t, 0, dl))))
        if key == s.fields["comp"]:
            pub = And(v == 0, RFIB(base) == t, Not(S["inq"][t])); done = And(v != 0, comb == t, srv != 0, base == s.myrec(S, srv))
            up = lambda n, x: S[n].store(t, If(pub, x, S[n][t]))
            return dict(inq=up("inq", B(True)), nod=up("nod", RNODE(base)), app=up("app", B(False)), garg=up("garg", s.arg), gpid=up("gpid", s.pid), rel=If(done, srv, rel), srv=If(done, 0, srv))
        if key == s.fields["locked"]:
            r = And(v == 0, comb == t, rel != 0, base == s.myrec(S, rel)); ho = And(v == 0, comb == t, rel == 0, srv == 0, S.f("comp", base) == 0, RNODE(base) == S["at"][h + 2], h + 2 <= T)
            s.all_served(e, S, ho, "all-requests-served-before-handing-over")
            return dict(rel=If(r, 0, rel), comb=If(ho, RFIB(base), comb), h=If(ho, h + 1, h))

    def all_served(s, e, S, cond, name):
        """whenever cond holds, every request of the node being served has been served"""
        if e.dry: return
        h, at = S["h"], S["at"]; j = fresh("any_offset", I)
        goal = lambda j: Implies(And(cond, 0 <= j, j < s.F), S.f("comp", RECAT(at[h + 1], j)) != 0)
        e.push(); e.add_term(IDX, j); e.add_term(OBJ, RECAT(at[h + 1], j)); e.prove([(name, goal(j))]); e.pop()
        e.add_schema(Clause("all-served", [IDX], goal), (e.invstate(S),))

    def on_icall(s, e, S, f, args, k):
        u = z3.simplify(args[2] + 1); e.add_term(TID, u); h, at = S["h"], S["at"]; n = S["nod"][u]; r = s.myrec(S, u)
        for so, x in ((OBJ, n), (IDX, OFF(u)), (OBJ, r), (IDX, h + 2), (IDX, h + 3)): e.add_term(so, x)
        mv = And(n == at[h + 2], h + 2 <= S["T"])
        s.all_served(e, S, mv, "sfunc.earlier-requests-served")
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.called-only-by-the-combiner", S["comb"] == s.tid), ("sfunc.request-pending", And(u > 0, S["inq"][u], S.f("comp", r) == 0)), ("sfunc.in-order-of-announcement", Or(And(n == at[h + 1]), mv)),
                 ("sfunc.not-applied-before", And(S["srv"] == 0, S["rel"] == 0, Not(S["app"][u]))), ("sfunc.state", args[0].addr() == s.state), ("sfunc.announced-argument", args[1] == S["garg"][u]), ("sfunc.announced-pid", args[2] == S["gpid"][u])])
        r = fresh("sfunc_ret", I)
        k(e.event(S, dict(srv=u, h=If(mv, h + 1, h), app=S["app"].store(u, True), res=S["res"].store(u, r)), "sfunc"), r)

    # ------------------------------------------------------------------ loop invariants
    def named_objs(s, S): return [("n0", s.n0), ("n1", s.n1)]
    def ghost_objs(s): return [("at[h+1]", lambda S: S["at"][S["h"] + 1]), ("at[h+2]", lambda S: S["at"][S["h"] + 2]), ("nod[me]", lambda S: S["nod"][s.tid])]
    def preds(s, e, S):
        t = s.tid
        return [("comb=me", lambda X: X["comb"] == t), ("comb!=me", lambda X: X["comb"] != t), ("app", lambda X: X["app"][t]), ("not app", lambda X: Not(X["app"][t])), ("inq", lambda X: X["inq"][t]), ("serving nobody", lambda X: And(X["srv"] == 0, X["rel"] == 0)), ("not inq", lambda X: Not(X["inq"][t])),
                ("combiner->serving nobody", lambda X: Implies(X["comb"] == t, And(X["srv"] == 0, X["rel"] == 0, Not(X["app"][t])))), ("h+1<T", lambda X: X["h"] + 1 < X["T"]), ("h+2<T", lambda X: X["h"] + 2 < X["T"]), ("next is linked", lambda X: And(X["h"] + 2 <= X["T"], X["lnk"][X["at"][X["h"] + 2]])), ("idle", lambda X: s.idle(X)), ("toggled", s.toggled), ("own nodes not in use", lambda X: s.idle(X, True)),
                ("spare node free", lambda X: s.spare(X)),
                ("nod current", lambda X: X["nod"][t] == X["at"][X["h"] + 1])]
    def loop_clauses(s, e, S, fr, phis):
        out = []
        ptrs = [(n, v) for n, ty, v in phis if isinstance(v, Ptr)] ; nums = [n for n, ty, v in phis if not isinstance(v, Ptr) and not z3.is_bool(v)]
        objs = [(n, lambda ph, n=n: ph[n].base) for n, v in ptrs] + [(n, lambda ph, v=v: v.base) for n, v in fr.env.items() if isinstance(v, Ptr) and v.priv is None and v.off == 0 and n not in dict(ptrs) and not any(v.base.eq(x) for x in (s.l, s.st, s.sfunc, s.state, s.cn, s.n0, s.n1)) and not (z3.is_app(v.base) and v.base.decl().name() in ("rec", "rec_array", "current_node_slot"))]
        seen = set(); uniq = []
        for n, ob in objs:
            b = fr.env[n].base.get_id() if n not in dict(ptrs) else None
            if b is None or b not in seen: uniq.append((n, ob)); seen.add(b)
        objs = uniq
        alldone = lambda X, o, hi: Clause("done", [IDX], lambda j: Implies(And(0 <= j, j < hi), X.f("comp", RECAT(o, j)) != 0))
        cur = lambda X: X["at"][X["h"] + 1]
        nxt = lambda X: X["at"][X["h"] + 2]
        for nm, ob in objs:
            out.append(("%s is current or next, all of current served" % nm, lambda ph, X, ob=ob: Clause("cn", [IDX], lambda j: Or(ob(ph) == cur(X), And(ob(ph) == nxt(X), X["h"] + 2 <= X["T"], X["lnk"][nxt(X)], Implies(And(0 <= j, j < s.F), X.f("comp", RECAT(cur(X), j)) != 0))))))
            for n in nums: out.append(("%s served up to %s" % (nm, n), lambda ph, X, ob=ob, n=n: alldone(X, ob(ph), ph[n])))
        out.append(("current served", lambda ph, X: alldone(X, cur(X), s.F)))
        t = s.tid
        for nm, ob in objs + [("n0", lambda ph: s.n0), ("n1", lambda ph: s.n1)]:
            for q, fn in (("node", lambda X, o: And(KIND(o) == NODE, GRP(o) == GROUP(t))), ("mine", lambda X, o: OWN(o) == t), ("=nod[me]", lambda X, o: o == X["nod"][t]), ("free", lambda X, o: And(OWN(o) == t, X["bs"][o] == 0, X["pos"][o] <= X["h"])), ("offered", lambda X, o: And(OWN(o) == t, X["bs"][o] == 1)), ("open", lambda X, o: And(OWN(o) == t, X["bs"][o] == 2)),
                          ("queued", lambda X, o: And(X["bs"][o] == 0, X["pos"][o] > X["h"])), ("toggle", lambda X, o: s.turn(X, o)), ("not in slot", lambda X, o: X.f("ptr", CUR(GROUP(t))) != o), ("unlinked", lambda X, o: And(Not(X["lnk"][o]), X["pos"][o] > X["h"])), ("is current", lambda X, o: o == X["at"][X["h"] + 1]), ("served", lambda X, o: X["pos"][o] <= X["h"]), ("null or of my group", lambda X, o: Or(o == 0, And(KIND(o) == NODE, GRP(o) == GROUP(t)))), ("not mine", lambda X, o: OWN(o) != t),
                          ("pred linked", lambda X, o: X["lnk"][o]), ("has pred", lambda X, o: And(KIND(o) == NODE, o != 0))):
                out.append(("%s %s" % (nm, q), lambda ph, X, ob=ob, fn=fn: Clause("c", [], lambda: fn(X, ob(ph)))))
        out.append(("holds no door", lambda ph, X: Clause("nodoor", [OBJ], lambda o: Implies(KIND(o) == NODE, X["dl"][o] != t))))
        for n in nums: out.append(("next node served up to %s" % n, lambda ph, X, n=n: alldone(X, nxt(X), ph[n])))
        return out
    def loop_terms(s, e, S, heads):
        for n, p in heads.items():
            if isinstance(p, Ptr): e.add_term(TID, OWN(p.base)); e.add_term(IDX, OFF(OWN(p.base))); e.add_term(OBJ, RECAT(p.base, OFF(OWN(p.base)))); e.add_term(OBJ, RECAT(p.base, OFF(s.tid))); e.add_term(IDX, S["pos"][p.base])
            elif z3.is_int(p): e.add_term(IDX, p)
        j = e.skolem(IDX, 0)
        for o in (S["at"][S["h"] + 1], S["at"][S["h"] + 2], S["at"][S["h"] + 3]) + tuple(p.base for p in heads.values() if isinstance(p, Ptr)): e.add_term(OBJ, RECAT(o, j))

    def turn(s, S, o):
        """o is the node to be used next, or it was the last one used"""
        tg = S.f("toggle", s.st)
        return Or(And(tg == 0, o == s.n0), And(tg == 1, o == s.n1))
    def toggled(s, S):
        """the node used last is not the one to be used next, which is free"""
        tg = S.f("toggle", s.st); n = S["nod"][s.tid]
        return And(Or(tg == 0, tg == 1), Implies(OWN(n) == s.tid, n == If(tg == 0, s.n1, s.n0)))
    def spare(s, S):
        tg = S.f("toggle", s.st); a, b = If(tg == 0, s.n0, s.n1), If(tg == 0, s.n1, s.n0)
        return And(Or(tg == 0, tg == 1), S["bs"][a] == 0, S["pos"][a] <= S["h"] + 1, Or(S["bs"][b] != 0, And(S["pos"][a] < S["pos"][b])), Implies(S["app"][s.tid], S["pos"][a] < S["pos"][b]))
    def idle(s, S, any_role=False):
        tg = S.f("toggle", s.st); p0, p1 = S["pos"][s.n0], S["pos"][s.n1]; t = s.tid
        return And(any_role or S["comb"] != t, S["bs"][s.n0] == 0, S["bs"][s.n1] == 0, Or(tg == 0, tg == 1), Implies(tg == 0, And(p0 < p1, p1 <= S["h"] + 1)), Implies(tg == 1, And(p1 < p0, p0 <= S["h"] + 1)))

    def run(s, e):
        if s.door_consts != [0, 1, 2]: raise Unsupported("values of the door constants")
        S = State(s, None, "env"); t = s.tid
        for o in (s.l, s.st, s.n0, s.n1, CUR(GROUP(t))): e.add_term(OBJ, o)
        for x in (OFF(t),): e.add_term(IDX, x)
        e.add_term(TID, t)
        e.add(And(t > 0, KIND(s.l) == LOCK, KIND(s.st) == TS, OWN(s.st) == t, s.pid == t - 1, s.F >= 1, s.F < 2 ** 31, s.st != s.n0))
        for n in (s.n0, s.n1): e.add(And(KIND(n) == NODE, OWN(n) == t, GRP(n) == GROUP(t), n != 0))
        e.add(s.n0 != s.n1)
        e.assume_inv(S)
        o = z3.Int("any_node")
        e.add_schema(Clause("holds-no-door", [OBJ], lambda o: Implies(KIND(o) == NODE, S["dl"][o] != t)))
        e.add(And(Not(S["inq"][t]), s.idle(S)))
        nt = S.f("nthreads", s.l); e.add(And(nt >= 1, nt <= 2 ** 31 // 10 - 1, s.F <= nt))
        def post(S2, ret):
            e.prove([("ret.applied-exactly-once-before-return", And(S2["inq"][t], S2["app"][t])), ("ret.own-result", ret == S2["res"][t]), ("ret.not-combiner", S2["comb"] != t)])
            e.prove_clauses([Clause("ret.holds-no-door", [OBJ], lambda o: Implies(KIND(o) == NODE, S2["dl"][o] != t))], S2)
            S3 = e.event(S2, dict(inq=S2["inq"].store(t, False)), "return")
            e.prove([("ret.nodes-not-in-use", s.idle(S3))])
        e.verify("OsciApplyOp", [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), Ptr(s.state), s.arg, s.pid], S, post)
