"""Contracts of the fibers: cooperative rely/guarantee between the fibers of one thread.  Control passes only where the code switches (longjmp, swapcontext, the call of the fiber's function, return to the caller); there
the invariant is proved, and that the fiber left everything that belongs to the others alone; who is resumed assumes the invariant and that what belongs to it was left alone."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

I, Bo = z3.IntSort(), z3.BoolSort()
GC = ["-ffunction-sections", "-fdata-sections", "-Wl,--gc-sections"]
AT = z3.Function("fiber_at", I, I)              # address of place k
PLACE = z3.Function("place_of", I, I)
SIZE = z3.Function("size_of_memory", I, I)
TLS = {"N_FIBERS": 4, "FIBER_LIST": 8, "FIBER_RECYCLE": 8, "MAX_FIBERS": 4, "currentFiber": 4}


class Fibers(Spec):
    """ghost: own[k] the fiber at place k, saved[k] its context is in the buffer of place k, cnt[k] number of active places below k, alloc[o] o is allocated, stk[o] o is the stack of a fiber, made for place home[o], nextid number of fibers made so far"""
    src = "libconcurrent/primitives/uthreads.c"
    sequential = True
    intmode = True
    simple_solver = True
    ghosts, ghost_dom = ghosts(own="x:i", saved="x:b", cnt="x:i", alloc="o:b", stk="o:b", home="o:i", nextid="i")
    def __init__(s):
        super().__init__()
        F = {"active": "active", "jmp": "jmp", "context": "context", "sp": "context.uc_stack.ss_sp", "ssize": "context.uc_stack.ss_size"}
        L = layout.offsets(["primitives/uthreads.c"], [("Fiber", x) for x in F.values()] + [("FiberData", None)], GC)
        s.off = {n: L["Fiber", x] for n, x in F.items()}; s.fsize = L["Fiber", None][1]
        s.stack = layout.consts(["primitives/uthreads.c"], ["FIBER_STACK"], GC)[0]
        for n in ("active", "sp", "ssize"): s.fields[n] = s.off[n]
        for i, (n, z) in enumerate(TLS.items()): s.fields[n] = (100000 + 8 * i, z)
        s.keys = set(s.fields.values())
        s.g = z3.Int("thread_variables"); s.list = AT(0); s.tls = {n: s.fields[n][0] for n in TLS}
        s.finished = s.switched = False
    def tls_ptr(s, e, S, name):
        if name not in s.tls: raise Unsupported("thread variable " + name)
        return Ptr(s.g, s.tls[name])
    def named_objs(s, S): return [("thread", s.g)]
    # ------------------------------------------------------------------ vocabulary
    def v(s, S, n): return S.f(n, s.g)
    def a(s, S, k): return S.f("active", AT(k)) == 1
    def inr(s, S, k): return And(k >= 0, k < s.v(S, "MAX_FIBERS"))
    def cur(s, S): return s.v(S, "currentFiber")
    def terms_(s, S): return [s.cur(S), s.v(S, "MAX_FIBERS")]
    def counts(s, S):
        c = S["cnt"]; M = s.v(S, "MAX_FIBERS")
        return [Clause("count-step", [IDX], lambda k: Implies(s.inr(S, k), And(c[k + 1] == c[k] + If(s.a(S, k), 1, 0), Or(S.f("active", AT(k)) == 0, S.f("active", AT(k)) == 1)))),
                Clause("count-range", [IDX, IDX], lambda j, k: Implies(And(0 <= j, j <= k, k <= M), And(c[j] <= c[k], c[k] - c[j] <= k - j))),
                Clause("count-zero", [], lambda: And(c[z3.IntVal(0)] == 0, M >= 1, M < 2 ** 31, s.v(S, "FIBER_LIST") == s.list))]
    def inv(s, S):
        c = S["cnt"]; M = s.v(S, "MAX_FIBERS"); cu = s.cur(S); sp = lambda k: S.f("sp", AT(k)); act = lambda k: And(s.inr(S, k), s.a(S, k)); R = s.v(S, "FIBER_RECYCLE")
        return s.counts(S) + [
            Clause("number-of-fibers", [], lambda: s.v(S, "N_FIBERS") == c[M]),
            Clause("current-is-active", [], lambda: And(s.inr(S, cu), s.a(S, cu))),
            Clause("main-is-active", [], lambda: s.a(S, z3.IntVal(0))),
            Clause("suspended-fibers-are-saved", [IDX], lambda k: Implies(And(act(k), k != cu), S["saved"][k])),
            Clause("active-fibers-have-a-stack", [IDX], lambda k: Implies(And(act(k), k >= 1), And(sp(k) != 0, S["alloc"][sp(k)], SIZE(sp(k)) == s.stack))),
            Clause("stacks-are-distinct", [IDX, IDX], lambda j, k: Implies(And(act(j), act(k), j >= 1, k >= 1, j != k), sp(j) != sp(k))),
            Clause("stack-to-free", [IDX], lambda k: Implies(R != 0, And(S["alloc"][R], SIZE(R) == s.stack, Implies(And(act(k), k >= 1), sp(k) != R)))),
            Clause("no-stack-is-lost", [OBJ], lambda o: Implies(And(S["stk"][o], S["alloc"][o], o != 0), Or(o == R, And(S["home"][o] >= 1, act(S["home"][o]), sp(S["home"][o]) == o)))),
            Clause("fibers-have-numbers", [IDX], lambda k: Implies(act(k), And(S["own"][k] >= 0, S["own"][k] < S["nextid"]))),
            Clause("one-place-per-fiber", [IDX, IDX], lambda j, k: Implies(And(act(j), act(k), j != k), S["own"][j] != S["own"][k]))]
    def keeps(s, A, B, u):
        """what belongs to the fiber u is left alone, and nothing else becomes its place"""
        return [Clause("fiber-keeps-its-place", [IDX], lambda k: Implies(And(s.inr(A, k), s.a(A, k), A["own"][k] == u), And(s.a(B, k), B["own"][k] == u, Implies(k >= 1, B.f("sp", AT(k)) == A.f("sp", AT(k)))))),
                Clause("fiber-gets-no-other-place", [IDX], lambda k: Implies(And(s.inr(A, k), s.a(B, k), B["own"][k] == u), And(s.a(A, k), A["own"][k] == u))),
                Clause("same-table", [], lambda: And(s.v(B, "MAX_FIBERS") == s.v(A, "MAX_FIBERS"), s.v(B, "FIBER_LIST") == s.v(A, "FIBER_LIST"), B["nextid"] >= A["nextid"]))]
    # ------------------------------------------------------------------ proof steps
    def prove(s, e, cl, S, prefix):
        if e.dry: return
        e.push()
        try:
            g = [(prefix + c.name, c.fn(*[e.skolem(so, i) for so, i in numbered(c.sorts)])) for c in cl]
            for X in [S] + [S.loc[n] for n in ("since",) if n in S.loc]:
                for t in s.terms_(X): e.add_term(IDX, t)
            for i in (0, 1): e.add_term(IDX, e.skolem(IDX, i) + 1)
            for X in {S, S.loc.get("since", S)}: e.add_term(IDX, X["home"][e.skolem(OBJ, 0)])
            e.prove(g)
        finally: e.pop()
    def public(s, e, S, why):
        """control leaves: the invariant holds and the other fibers were left alone since control came"""
        me, since = S.loc["me"], S.loc["since"]
        s.prove(e, s.inv(S), S, why + ".inv.")
        u = z3.Int("another_fiber")
        for c in s.keeps(since, S, u):
            s.prove(e, [Clause("others." + c.name, c.sorts, lambda *k, c=c: Implies(And(u != me, u >= 0, u < since["nextid"]), c.fn(*k)))], S, why + ".")
    def resume(s, e, S, me, slot, keep_loc=True):
        """control comes back to the fiber `me` at place `slot`"""
        T = State(s, S, "env")
        for c in s.inv(T): e.add_schema(c, ())
        for c in s.keeps(S, T, me): e.add_schema(c, ())
        for t in s.terms_(T) + [slot, z3.simplify(slot + 1)]: e.add_term(IDX, t)
        e.add(And(s.cur(T) == slot, s.a(T, slot), T["own"][slot] == me))
        T.loc["since"] = T; T.loc["away"] = True
        return T
    def between(s, h, k, c):
        """k lies between h and c in cyclic order"""
        return And(k != h, k != c, If(c > h, And(k > h, k < c), Or(k > h, k < c)))
    def entry(s, e):
        S = State(s, None, "env")
        for n in s.ghosts: S.g(n)
        for k in s.keys: S.M(k)
        s.math(e); e.skolem(OBJ, 0)
        me = z3.Int("me")
        for c in s.inv(S): e.add_schema(c, ())
        for t in s.terms_(S): e.add_term(IDX, t)
        cu = s.cur(S); e.add_term(IDX, z3.simplify(cu + 1))
        e.add(And(S["own"][cu] == me, me >= 0))
        S.loc.update(me=me, since=S, slot=cu, stack=If(cu >= 1, S.f("sp", AT(cu)), z3.IntVal(0)))
        return S
    def math(s, e):
        e.add_schema(Clause("place", [IDX], lambda k: And(PLACE(AT(k)) == k, AT(k) != 0, AT(k) != s.g)))
        e.add(AT(0) != 0)
        for x in (0, 1): e.add_term(IDX, z3.IntVal(x))
    # ------------------------------------------------------------------ hooks of the generator
    def elem(s, e, base, off, i, sz):
        if sz != s.fsize or off != 0: return None
        i = z3.simplify(i)
        if e.check(base != s.list) != z3.unsat: raise Unsupported("index into something that is not the table of fibers")
        e.add_term(IDX, i); e.add_term(IDX, z3.simplify(i + 1))
        return AT(i)
    def known(s, S, base): return And(AT(PLACE(base)) == base, s.inr(S, PLACE(base)))
    def access_check(s, e, S, base, key, rw):
        if e.dry or base.eq(s.g) or str(base).startswith("@"): return
        lo, n = s.off["jmp"]
        e.prove([("access-inside-the-table", And(s.known(S, base), key[0] + key[1] <= s.fsize))] + ([("leaves-the-saved-context-alone", z3.BoolVal(not (key[0] + key[1] > lo and key[0] < lo + n)))] if rw != "r" else []))
    def is_mover(s, e, S, base, key, rw): return True
    def on_write(s, e, S, S2, writes, rmw):
        b, key, old, v = writes[0]
        if key != s.fields["active"]: return None
        k = PLACE(b); c = S["cnt"]; n = Arr.new("cnt", I, I)
        e.add_schema(Clause("count", [IDX], lambda j: n[j] == c[j] + If(And(j > k, k >= 0), If(v == 1, 1, 0) - If(old == 1, 1, 0), 0)))
        for t in (k, k + 1): e.add_term(IDX, z3.simplify(t))
        return dict(cnt=n)
    def arith(s, e, op, w, a, b):
        if op in ("srem", "urem"):
            e.prove([("remainder-of-a-positive-number", And(a >= 0, b > 0))])
            r = fresh("rem", I); e.add(And(r >= 0, r < b, Implies(a < b, r == a), Implies(And(a >= b, a < 2 * b), r == a - b))); e.add_term(IDX, r); return r
        return None
    def norm(s, p):
        """a pointer into a place that was kept in memory"""
        if not isinstance(p, Ptr) or p.priv is not None: return p
        b = z3.simplify(p.base)
        if z3.is_add(b) and b.num_args() == 2 and z3.is_int_value(b.arg(0)) and z3.is_app(b.arg(1)) and b.arg(1).decl().eq(AT): return Ptr(b.arg(1), p.off + b.arg(0).as_long())
        return p
    def place(s, e, p): return s.norm(p)
    def extern(s, e, S, name, args, rty, k):
        args = [s.norm(x) for x in args]
        h = getattr(s, "x_" + name.lstrip("_"), None)
        if h is None: return False
        h(e, S, args, k); return True
    def x_synchGetMemory(s, e, S, a, k):
        v = fresh("memory", I); e.add_term(OBJ, v)
        e.add(And(v != 0, Not(S["alloc"][v]), SIZE(v) == a[0]))
        if s.mode == "init": e.add(v == s.list); e.prove([("table-has-room-for-all", And(a[0] >= s.max * s.fsize))])
        T = S.child(); T.gh["alloc"] = S["alloc"].store(v, True); k(T, Ptr(v))
    def x_synchFreeMemory(s, e, S, a, k):
        o = a[0].addr(); j = e.skolem(IDX, 0); e.add_term(IDX, j)
        e.prove([("frees-only-allocated-memory", And(o != 0, S["alloc"][o], SIZE(o) == a[1])), ("frees-no-stack-in-use", And(o != S.loc["stack"], Implies(And(s.inr(S, j), j >= 1, s.a(S, j)), S.f("sp", AT(j)) != o)))])
        T = S.child(); T.gh["alloc"] = S["alloc"].store(o, False); k(T, None)
    def x_getcontext(s, e, S, a, k):
        p = a[0]
        if p.priv is not None: k(S, e.num(0, 32)); return
        s.access_check(e, S, p.base, (p.off, 1), "w")
        if p.off != s.off["context"][0]: raise Unsupported("getcontext of something else")
        T = S.child()
        for n in ("sp", "ssize"): T.mem[s.fields[n]] = S.M(s.fields[n]).store(p.base, fresh(n, I))
        k(T, e.num(0, 32))
    def x_makecontext(s, e, S, a, k):
        p = a[0]; fn = str(a[1].base)
        if p.priv is not None or p.off != s.off["context"][0] or not fn.startswith("@"): raise Unsupported("makecontext of something else")
        if z3.simplify(a[2]).as_long() != len(a) - 3: e.prove([("makecontext-number-of-arguments", z3.BoolVal(False))])
        st = S.f("sp", p.base)
        e.prove([("makecontext-has-a-stack", And(s.known(S, p.base), st != 0, S["alloc"][st], S.f("ssize", p.base) > 0, S.f("ssize", p.base) <= SIZE(st)))])
        T = S.child(); T.gh.update(stk=S["stk"].store(st, True), home=S["home"].store(st, PLACE(p.base))); e.add_term(OBJ, st); T.loc["made"] = (p.base, fn[1:], a[3:]); k(T, None)
    def x_swapcontext(s, e, S, a, k):
        save, to = a
        if "spawner" in S.loc:          # the new fiber gives control back to the one that made it
            ks, sv, me, stack, since = S.loc["spawner"]
            e.prove([("new-fiber-returns-control-to-its-maker", to.addr() == sv.addr())])
            if e.dry: return
            T = S.child(); T.loc.pop("spawner"); T.loc.update(me=me, stack=stack, since=since); ks(T, e.num(0, 32)); return
        if "made" not in S.loc or save.priv is None: raise Unsupported("swapcontext of something else")
        base, fn, args = S.loc["made"]
        if to.off != s.off["context"][0] or e.check(to.base != base) != z3.unsat: e.prove([("starts-the-fiber-that-was-made", And(to.base == base, z3.BoolVal(to.off == s.off["context"][0])))]); return
        t = PLACE(base); T = S.child(); new = S["nextid"]
        T.gh.update(own=S["own"].store(t, new), saved=S["saved"].store(t, False), nextid=new + 1)
        T.loc.update(spawner=(k, save, S.loc["me"], S.loc["stack"], S.loc["since"]), me=new, new=new, place=t, stack=S.f("sp", base)); T.loc.pop("made")
        f = e.mod.func(fn)
        if f is None: raise Unsupported("function %s not found" % fn)
        e.inlined.add(fn)
        def back(T2, r): e.prove([("a-fiber-never-returns-from-its-start", z3.BoolVal(False))])
        e.call(f, list(args), T, back, 8)
    def x_setjmp(s, e, S, a, k):
        p = a[0]; me = S.loc["me"]; t = PLACE(p.base)
        e.add_term(IDX, z3.simplify(t))
        e.prove([("saves-into-its-own-place", And(s.known(S, p.base), z3.BoolVal(p.off == s.off["jmp"][0]), S["own"][t] == me))])
        T = S.child(); T.gh["saved"] = S["saved"].store(t, True); T.loc["set"] = T
        def resumed():
            R = s.resume(e, T, me, t)
            R.loc.pop("spawner", None); R.loc.pop("set", None)
            if "spawner" in S.loc: R.priv = {}; R.loc.update(fiber=me, ran=0)      # the memory of the maker is gone
            k(R, e.num(1, 32))
        def first(): k(T, e.num(0, 32))
        c = fresh("resumed", Bo); e.fork([(Not(c), first), (c, resumed)])
    def x_longjmp(s, e, S, a, k):
        if e.dry: return
        p = a[0]; me = S.loc["me"]; t = PLACE(p.base); e.add_term(IDX, z3.simplify(t))
        if "spawner" in S.loc: raise Unsupported("longjmp while a fiber is being made")
        e.prove([("switches-to-an-active-fiber", And(s.known(S, p.base), z3.BoolVal(p.off == s.off["jmp"][0]), s.a(S, t), S["saved"][t], s.cur(S) == t)), ("resumes-with-a-nonzero-value", a[1] != 0)])
        s.public(e, S, "switch")
        h = S.loc["place"] if "fiber" in S.loc else S.loc["slot"]
        s.prove(e, [Clause("no-active-fiber-is-passed-over", [IDX], lambda k: Implies(And(s.inr(S, k), s.between(h, k, t)), Not(s.a(S, k))))], S, "switch.")
        if "fiber" in S.loc:
            e.prove([("function-was-run-exactly-once", z3.BoolVal(S.loc["ran"] == 1)), ("finished-fiber-leaves-its-place", Not(s.a(S, S.loc["place"])))])
            if e.check() == z3.sat: s.finished = True
        else:
            if "set" not in S.loc: e.prove([("switch-without-saving", z3.BoolVal(False))])
            else: s.prove(e, s.keeps(S.loc["set"], S, me), S, "switch.keeps.")
            if e.check() == z3.sat: s.switched = True
        e.paths += 1
    def on_icall(s, e, S, f, args, k):
        if "fiber" not in S.loc or S.loc.get("spawner"): raise Unsupported("indirect call")
        e.prove([("runs-its-function", f.addr() == s.func), ("with-its-argument", e.asbv(args[0]) == s.arg), ("only-once", z3.BoolVal(S.loc["ran"] == 0))])
        s.public(e, S, "run")
        R = s.resume(e, S, S.loc["me"], S.loc["place"]); R.loc["ran"] = S.loc["ran"] + 1
        k(R, Ptr(fresh("result", I)))
    def contract(s, name):
        if name == "synchFiberYield" and s.mode == "wait":
            def y(e, S, a, k):
                s.public(e, S, "yield")
                R = s.resume(e, S, S.loc["me"], s.cur(S)); k(R, None)
            return y
    # ------------------------------------------------------------------ loops
    def loop_clauses(s, e, S, fr, phis):
        out = [("frame.%s" % n, lambda ph, X, n=n: Clause("frame", [IDX], lambda k: X.f(n, AT(k)) == S.f(n, AT(k)))) for n in ("active", "sp", "ssize")]
        out += [("frame.%s" % n, lambda ph, X, n=n: Clause("frame", [IDX], lambda k: X[n][k] == S[n][k])) for n in ("own", "saved", "cnt")]
        out += [("frame.%s" % n, lambda ph, X, n=n: Clause("frame", [OBJ], lambda o: X[n][o] == S[n][o])) for n in ("alloc", "stk", "home")]
        for n, ty, v in phis:
            if z3.is_expr(v) and z3.is_int(v): out.append(("inactive-above-%s" % n, lambda ph, X, n=n: Clause("inactive", [IDX], lambda k: Implies(And(k > ph[n], k < s.v(X, "MAX_FIBERS")), X.f("active", AT(k)) == 0))))
            if z3.is_expr(v) and z3.is_int(v): out.append(("inactive-up-to-%s" % n, lambda ph, X, n=n: Clause("inactive", [IDX], lambda k: Implies(And(k >= 1, k < ph[n]), X.f("active", AT(k)) == 0))))
        h = S.loc["place"] if "fiber" in S.loc else S.loc.get("slot")
        if h is not None:
            passed = lambda X, k, c: Implies(And(s.inr(X, k), k != h, c != h, Or(k == c, s.between(h, k, c))), X.f("active", AT(k)) == 0)
            out.append(("passed-over-up-to-current", lambda ph, X: Clause("passed", [IDX], lambda k: passed(X, k, s.cur(X)))))
            for n, ty, v in phis:
                if z3.is_expr(v) and z3.is_int(v): out.append(("passed-over-up-to-%s" % n, lambda ph, X, n=n: Clause("passed", [IDX], lambda k: passed(X, k, ph[n]))))
            dist = lambda X, k: If(k > h, k - h, k - h + s.v(X, "MAX_FIBERS"))
            for n, ty, v in phis:
                if z3.is_expr(v) and z3.is_int(v): out.append(("passed-over-fewer-than-%s" % n, lambda ph, X, n=n: Clause("passed", [IDX], lambda k: Implies(And(s.inr(X, k), k != h, dist(X, k) < ph[n]), X.f("active", AT(k)) == 0))))
        return out
    def loop_cands(s, e, S, fr, phis):
        out = [("current-in-range", lambda p, X: s.inr(X, s.cur(X))), ("main-active", lambda p, X: s.a(X, z3.IntVal(0)))]
        if "slot" in S.loc: out += [("at-home", lambda p, X: s.cur(X) == S.loc["slot"]), ("mine", lambda p, X: And(X["own"][S.loc["slot"]] == S.loc["me"], s.a(X, S.loc["slot"])))]
        for n, ty, v in phis:
            if z3.is_expr(v) and z3.is_int(v): out += [("%s in range" % n, lambda p, X, n=n: s.inr(X, p[n])), ("%s<=max" % n, lambda p, X, n=n: p[n] <= s.v(X, "MAX_FIBERS")), ("all-active-below-%s" % n, lambda p, X, n=n: X["cnt"][p[n]] == p[n]), ("%s>=1" % n, lambda p, X, n=n: p[n] >= 1)]
        return out
    def loop_terms(s, e, S, heads):
        for t in s.terms_(S): e.add_term(IDX, t)
        for v in heads.values():
            if z3.is_expr(v) and z3.is_int(v): e.add_term(IDX, v); e.add_term(IDX, z3.simplify(v + 1))
        if "since" in S.loc: pass
    # ------------------------------------------------------------------ the functions
    def run(s, e):
        s.func, s.arg = z3.Int("function"), z3.Int("argument"); P = Ptr(s.func)
        with e.scope():
            s.mode = "init"; s.max = z3.Int("max"); s.math(e); S = State(s, None, "env")
            for n in s.ghosts: S.g(n)
            for n, x in s.static(e).items(): e.add(s.v(S, n) == x)
            e.add(And(s.max >= 1, s.max < 2 ** 31)); e.add_term(IDX, s.max)
            S.loc.update(me=z3.IntVal(0), since=S, stack=z3.IntVal(0))
            def post(T, r):
                G = T.child(); one = Arr.new("cnt", I, I); own = Arr.new("own", I, I); e.add_schema(Clause("c", [IDX], lambda k: one[k] == If(k > 0, 1, 0))); e.add_schema(Clause("o", [IDX], lambda k: own[k] == 0)); stk = Arr.new("stk", I, Bo); e.add_schema(Clause("s", [OBJ], lambda o: Not(stk[o])))
                G.gh.update(cnt=one, own=own, stk=stk, nextid=z3.IntVal(1)); s.prove(e, s.inv(G), G, "init.")
                e.prove([("init.places", s.v(T, "MAX_FIBERS") == s.max), ("init.main-fiber-runs", s.cur(T) == 0)])
            e.verify("synchInitFibers", [s.max], S, post)
        with e.scope():
            s.mode = "yield"; S0 = S = s.entry(e)
            def post(T, r):
                s.public(e, T, "yield"); s.prove(e, s.keeps(S0, T, S0.loc["me"]), T, "yield.keeps.")
                if "away" not in T.loc: e.prove([("yield.lets-another-fiber-run", s.v(S0, "N_FIBERS") == 1)])
                e.prove([("yield.returns-to-the-caller", And(s.cur(T) == s.cur(S0), T["own"][s.cur(T)] == S0.loc["me"]))])
            e.verify("synchFiberYield", [], S, post)
        with e.scope():
            s.mode = "spawn"; S1 = s.entry(e); new = S1["nextid"]
            def post2(T, r):
                s.public(e, T, "spawn"); s.prove(e, s.keeps(S1, T, S1.loc["me"]), T, "spawn.keeps.")
                full = s.v(S1, "N_FIBERS") == s.v(S1, "MAX_FIBERS")
                e.prove([("spawn.refused-only-when-all-places-are-taken", And(Or(r == -1, r == 1), (r == -1) == full)), ("spawn.caller-goes-on", And(s.cur(T) == s.cur(S1), T["own"][s.cur(T)] == S1.loc["me"]))])
                made = T.loc.get("place")
                if made is None: e.prove([("spawn.made-a-fiber", r == -1)]); s.prove(e, [Clause("nothing-changes", [IDX], lambda k: Implies(s.inr(T, k), s.a(T, k) == s.a(S1, k)))], T, "spawn.refused.")
                else:
                    e.prove([("spawn.made-a-fiber", And(r == 1, s.inr(T, made), s.a(T, made), Not(s.a(S1, made)), T["own"][made] == new, T["saved"][made], T["nextid"] == new + 1))])
                    s.prove(e, s.keeps(T.loc["set"], T, new), T, "spawn.new-fiber.")
            e.verify("synchSpawnFiber", [P, s.arg], S1, post2)
        with e.scope():
            s.mode = "wait"; S2 = s.entry(e)
            def post3(T, r):
                s.public(e, T, "wait"); s.prove(e, [Clause("all-fibers-have-finished", [IDX], lambda k: Implies(And(s.inr(T, k), k >= 1), Not(s.a(T, k))))], T, "wait.")
            e.verify("synchWaitForAllFibers", [], S2, post3)
        with e.scope():
            s.mode = "index"; S3 = s.entry(e)
            e.verify("synchCurrentFiberIndex", [], S3, lambda T, r: (s.public(e, T, "index"), e.prove([("index.of-the-current-fiber", r == s.cur(S3))])))
        if not e.failures and not (s.finished and s.switched): raise Unsupported("vacuous: no feasible switch")
    def static(s, e):
        """initial values of the thread's variables"""
        import re
        out = {}
        for n in ("N_FIBERS", "currentFiber", "FIBER_RECYCLE"):
            m = re.search(r"(?m)^@%s = .*thread_local global \S+ (-?\d+|null)" % n, e.mod.text)
            if m is None: raise Unsupported("initial value of " + n)
            out[n] = 0 if m.group(1) == "null" else int(m.group(1))
        return out
