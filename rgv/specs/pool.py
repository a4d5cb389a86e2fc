"""Contracts of the object pool: for every object size and every sequence of allocations, recyclings, rollbacks and destruction."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
from specs.seq import Seq

I = z3.IntSort()
SLOT = z3.Function("address_in_block", I, I, I)          # address of byte x of the storage of block b
BLK, OFF, SIDX = [z3.Function(n, I, I) for n in ("block_of", "offset_of", "slot_of")]
FOREIGN = z3.Function("object_of_another_pool", I, z3.BoolSort())   # an object of the same size outside all the blocks of this pool, which may be recycled here
MUL = z3.Function("times_object_size", I, I)             # i * object size


class Pool(Seq):
    """ghost: base[b] slots in the blocks before b (-1: b is no block of the pool), last: base of the last block, live[o] o is allocated,
    rpos[o] position of o in the recycle list (0: not in it), freed[b] b was given back"""
    src = "libconcurrent/primitives/pool.c"
    intmode = True
    simple_solver = True
    wrap = True
    structs = [("p.", "pool.h", "SynchPoolStruct", ["obj_size", "entries_per_block", "recycle_list", "head_block", "cur_block"]),
               ("b.", "pool.h", "SynchPoolBlock", ["metadata.object_size", "metadata.entries", "metadata.free_entries", "metadata.cur_entry", "metadata.next", "metadata.back"])]
    ghosts, ghost_dom = ghosts(base="o:i", last="i", live="o:b", rpos="o:i", freed="o:b")
    def __init__(s):
        super().__init__()
        s.fields = {k.replace("metadata.", ""): v for k, v in s.fields.items()}; s.fields["o.next"] = (0, 8); s.keys = set(s.fields.values())
        L = layout_heap(); s.heap = L
        s.p = z3.Int("pool"); s.size = z3.Int("object_size"); s.BS = None; s.mode = ""; s.newblocks = []
    def named_objs(s, S): return [("pool", s.p)]

    # ------------------------------------------------------------------ invariant
    def chain(s, S):
        base, f = S["base"], lambda x, b: S.f("b." + x, b)
        def blk(b):
            nx, bk = f("next", b), f("back", b)
            return Implies(base[b] >= 0, And(b != 0, b != s.p, f("entries", b) >= 1, f("entries", b) <= s.BS, MUL(f("entries", b)) + s.heap <= s.BS, base[b] <= S["last"], Not(S["freed"][b]),
                If(nx == 0, base[b] == S["last"], base[nx] == base[b] + f("entries", b)), If(bk == 0, base[b] == 0, And(base[bk] >= 0, base[b] == base[bk] + f("entries", bk)))))
        return [Clause("block", [OBJ], blk),
                Clause("order", [OBJ, OBJ], lambda b, c: Implies(And(base[b] >= 0, base[c] >= 0), And(Implies(base[b] == base[c], b == c), Implies(base[b] < base[c], base[b] + f("entries", b) <= base[c]))))]
    def inv(s, S): return []
    def ok(s, S):
        base, live, rpos, f = S["base"], S["live"], S["rpos"], lambda x, b: S.f("b." + x, b)
        cur, R = S.f("p.cur_block", s.p), S.f("p.recycle_list", s.p)
        nxt = lambda o: S.f("o.next", o)
        return s.chain(S) + [
            Clause("pool", [], lambda: And(S.f("p.obj_size", s.p) == s.size, base[S.f("p.head_block", s.p)] == 0, base[cur] >= 0, S["last"] >= 0, Implies(R != 0, rpos[R] > 0), s.p != 0)),
            Clause("fill", [OBJ], lambda b: Implies(base[b] >= 0, And(f("cur_entry", b) >= 0, f("free_entries", b) >= 0, f("cur_entry", b) + f("free_entries", b) == f("entries", b),
                Implies(base[b] < base[cur], f("free_entries", b) == 0), Implies(base[b] > base[cur], f("cur_entry", b) == 0)))),
            Clause("object", [OBJ], lambda o: Implies(Or(And(live[o], Or(FOREIGN(o), base[BLK(o)] + SIDX(o) < s.cursor(S))) if s.mode == "rollback" else live[o], rpos[o] > 0), And(o != 0, Or(FOREIGN(o), And(base[BLK(o)] >= 0, SLOT(BLK(o), OFF(o)) == o, OFF(o) == MUL(SIDX(o)), 0 <= SIDX(o), SIDX(o) < f("cur_entry", BLK(o))))))),
            Clause("recycled", [OBJ], lambda o: And(rpos[o] >= 0, Implies(rpos[o] > 0, And(Not(live[o]), R != 0, rpos[o] <= rpos[R], If(nxt(o) == 0, rpos[o] == 1, rpos[nxt(o)] == rpos[o] - 1), Implies(rpos[o] == 1, nxt(o) == 0))))),
            Clause("recycled-order", [OBJ, OBJ], lambda o, q: Implies(And(rpos[o] > 0, rpos[o] == rpos[q]), o == q))]
    def terms_of(s, e, S, objs):
        for o in objs: e.add_term(OBJ, o)
    def math(s, e):
        e.add(And(MUL(0) == 0, s.size >= 8, s.size < 2 ** 31))
        e.add_schema(Clause("mul", [IDX, IDX], lambda i, j: And(Implies(i < j, MUL(i) + s.size <= MUL(j)))))
        e.add_schema(Clause("mul+1", [IDX], lambda i: And(MUL(i + 1) == MUL(i) + s.size, Implies(i >= 0, MUL(i) >= 8 * i))))
        e.add_term(IDX, z3.IntVal(0))
    def arith(s, e, op, w, a, b):
        is_size = lambda x: not z3.is_int_value(z3.simplify(x)) and e.check(x != s.size) == z3.unsat
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if is_size(y):
                    e.add_term(IDX, x)
                    e.prove([("no-overflow", And(x >= 0, MUL(x) < 2 ** 31))])
                    return MUL(x)
        if op == "udiv" and is_size(b):
            q = fresh("quotient", I); e.add_term(IDX, q)
            e.add(And(q >= 0, Implies(a >= 0, And(MUL(q) <= a, a < MUL(q) + s.size, q <= a)))); return q
        return None
    def elem(s, e, base, off, i, sz):
        if off != s.heap or sz != 1: return None
        e.prove([("inside-the-block", And(0 <= i, i + s.size + s.heap <= s.BS))])
        a = SLOT(base, i); e.add(And(BLK(a) == base, OFF(a) == i, a != 0, Not(FOREIGN(a))))
        e.add_schema(Clause("index", [IDX], lambda j, a=a, i=i: Implies(MUL(j) == i, SIDX(a) == j)))
        return e.add_term(OBJ, a)

    # ------------------------------------------------------------------ events
    def extern(s, e, S, name, args, rty, k):
        if name == "synchGetAlignedMemory":
            sz = z3.simplify(args[1])
            if s.BS is None:
                if not z3.is_int_value(sz): raise Unsupported("block size is not a constant")
                s.BS = sz
            e.prove([("block-allocation-covers-the-block", sz >= s.BS)])
            v = fresh("block", I); e.add_term(OBJ, v)
            e.add(And(v != 0, v != s.p, S["base"][v] == -1, Not(S["freed"][v])))
            k(S, Ptr(v)); return True
        if name == "synchFreeMemory":
            b = args[0].addr(); e.prove([("frees-a-block-once", And(S["base"][b] >= 0, Not(S["freed"][b]), args[1] == s.BS))])
            S2 = S.child(); S2.gh["freed"] = S["freed"].store(b, True); k(S2, None); return True
        return False
    def access_check(s, e, S, base, key, rw):
        if e.dry: return
        if str(base).startswith("@"): return        # stderr
        if key == s.fields["o.next"] and s.mode == "recycle" and base.eq(s.o): return
        if key == s.fields["o.next"]: e.prove([("touches-no-live-object", Not(S["live"][base]) if rw != "r" else S["rpos"][base] > 0)])
        else: e.prove([("no-use-after-free", Or(base == s.p, Not(S["freed"][base])))])
    def on_write(s, e, S, S2, writes, rmw):
        b, key, old, v = writes[0]
        if key == s.fields["b.next"] and s.mode == "alloc":
            link = And(b != s.p, S["base"][b] >= 0, v != 0, S["base"][v] == -1)
            return dict(base=S["base"].store(v, If(link, S["base"][b] + S.f("b.entries", b), S["base"][v])), last=If(link, S["base"][b] + S.f("b.entries", b), S["last"]))
    def on_read(s, e, S, base, key, v): return None

    # ------------------------------------------------------------------ function contracts
    def cursor(s, S):
        c = S.f("p.cur_block", s.p); return S["base"][c] + S.f("b.cur_entry", c)
    def same_objects(s, A, B):
        return [Clause("objects-kept", [OBJ], lambda o: And(B["live"][o] == A["live"][o], B["rpos"][o] == A["rpos"][o], B.f("o.next", o) == A.f("o.next", o)))]
    def with_ghosts(s, S, **kw):
        T = S.child(); T.gh.update(kw); return T
    def alloc_post(s, S, T, r):
        """r was not in use; nothing else changed hands; a fresh object advances the cursor by one slot, a recycled one leaves the recycle list"""
        R = S.f("p.recycle_list", s.p)
        f = lambda X, x, b: X.f("b." + x, b)
        return s.ok(T) + [
            Clause("returns-an-object", [], lambda: And(r != 0, Not(S["live"][r]), Or(And(FOREIGN(r), S["rpos"][r] > 0), And(SLOT(BLK(r), OFF(r)) == r, OFF(r) >= 0, OFF(r) + s.size + s.heap <= s.BS, T["base"][BLK(r)] >= 0)))),
            Clause("overlaps-no-other-object", [OBJ], lambda o: Implies(And(o != r, Or(S["live"][o], T["rpos"][o] > 0), BLK(o) == BLK(r), Not(FOREIGN(o)), Not(FOREIGN(r))), Or(OFF(o) + s.size <= OFF(r), OFF(r) + s.size <= OFF(o)))),
            Clause("others-keep", [OBJ], lambda o: And(T["live"][o] == Or(S["live"][o], o == r), T["rpos"][o] == If(o == r, 0, S["rpos"][o]), T.f("o.next", o) == S.f("o.next", o), Implies(S["base"][o] >= 0, T["base"][o] == S["base"][o]))),
            Clause("recycled-first", [], lambda: If(R != 0, And(r == R, s.cursor(T) == s.cursor(S)), And(s.cursor(T) == s.cursor(S) + 1, T["base"][BLK(r)] + SIDX(r) == s.cursor(S))))]
    def loop_clauses(s, e, S, fr, phis):
        S0 = s.S0; out = []
        if s.mode == "destroy":
            def unfreed(ph, X):
                h = X.f("p.head_block", s.p)
                return Clause("freed-up-to-head", [OBJ], lambda b: Implies(X["base"][b] >= 0, X["freed"][b] == Or(h == 0, X["base"][b] < X["base"][h])))
            out.append(("freed-up-to-head", unfreed))
            for n, ty, v in phis:       # the loop may walk with a cursor of its own
                if not isinstance(v, Ptr) or v.off: continue
                at = lambda ph, n=n: ph[n].addr()
                out.append(("freed-up-to-" + n, lambda ph, X, at=at: Clause("freed-up-to", [OBJ], lambda b: Implies(X["base"][b] >= 0, X["freed"][b] == Or(at(ph) == 0, X["base"][b] < X["base"][at(ph)])))))
                out.append((n + "-in-pool", lambda ph, X, at=at: Clause("in-pool", [], lambda: Or(at(ph) == 0, X["base"][at(ph)] >= 0))))
            out.append(("head", lambda ph, X: Clause("head", [], lambda: (lambda h: And(Or(h == 0, X["base"][h] >= 0)))(X.f("p.head_block", s.p)))))
            out.append(("blocks-kept", lambda ph, X: Clause("blocks-kept", [OBJ], lambda b: And(X["base"][b] == S0["base"][b], Implies(S0["base"][b] < 0, X["freed"][b] == S0["freed"][b])))))
            for i, c in enumerate(s.chain_links(S)): out.append(("chain", lambda ph, X, i=i: s.chain_links(X)[i]))
            return out
        for i, c in enumerate(s.ok(S)): out.append(("ok." + c.name, lambda ph, X, i=i: s.ok(X)[i]))
        out.append(("objects-kept", lambda ph, X: s.same_objects(S0, X)[0]))
        out.append(("blocks-kept", lambda ph, X: Clause("blocks-kept", [OBJ], lambda b: Implies(S0["base"][b] >= 0, X["base"][b] == S0["base"][b]))))
        return out
    def chain_links(s, S):
        base, f = S["base"], lambda x, b: S.f("b." + x, b)
        return [Clause("links", [OBJ], lambda b: Implies(And(base[b] >= 0, Not(S["freed"][b])), And(b != 0, b != s.p, base[b] <= S["last"], f("entries", b) >= 1, If(f("next", b) == 0, base[b] == S["last"], base[f("next", b)] == base[b] + f("entries", b))))), s.chain(S)[1],
                Clause("last", [OBJ], lambda b: Implies(base[b] >= 0, base[b] <= S["last"]))]
    def loop_cands(s, e, S, fr, phis):
        u = lambda x: If(x < 0, x + 2 ** 32, x)
        out = [("recycle-list-kept", lambda p, X: X.f("p.recycle_list", s.p) == s.S0.f("p.recycle_list", s.p)), ("cursor-kept", lambda p, X: s.cursor(X) == s.cursor(s.S0))]
        for n, ty, v in phis:
            if not isinstance(v, Ptr) and not z3.is_bool(v):
                out.append(("cursor-%s" % n, lambda p, X, n=n: s.cursor(X) - u(p[n]) == s.cursor(s.S0) - u(s.k) if s.k is not None else z3.BoolVal(False)))
                out.append(("range-%s" % n, lambda p, X, n=n: And(p[n] >= -2 ** 31, p[n] < 2 ** 31)))
        for k in S.priv:
            if k[2] == 4: out.append(("cursor-%s" % k[0], lambda p, X, k=k: s.cursor(X) - u(X.priv[k][z3.Const("A_" + k[0], I)]) == s.cursor(s.S0) - u(s.k) if s.k is not None else z3.BoolVal(False)))
        return out
    def loop_terms(s, e, S, heads): s.state_terms(e, S)
    k = None
    def contract(s, name):
        if name == "synchAllocObj" and s.mode == "alloc":
            def rec(e, S, a, k):        # the recursive call is used through the contract that is being verified; it must be able to make progress
                e.prove_clauses(s.ok(S), S, "recursive-call.")
                e.prove([("recursive-call.makes-progress", And(a[0].addr() == s.p, Or(S.f("p.recycle_list", s.p) != 0, S.f("b.free_entries", S.f("p.cur_block", s.p)) > 0)))])
                T = State(s, S, "env"); r = fresh("object", I); e.add_term(OBJ, r)
                e.add_term(OBJ, BLK(r)); e.add_term(IDX, SIDX(r)); s.state_terms(e, T)
                e.assume_clauses(s.alloc_post(S, T, r), T)
                T.priv = dict(S.priv); s.called.append((S, T, r)); k(T, Ptr(r)); s.called.pop()
            return rec
    called = []
    def state_terms(s, e, S):
        for x in ("p.cur_block", "p.head_block", "p.recycle_list"): e.add_term(OBJ, S.f(x, s.p))
        c = S.f("p.cur_block", s.p)
        for x in ("b.next", "b.back"): e.add_term(OBJ, S.f(x, c))
        for x in ("b.cur_entry", "b.entries"): e.add_term(IDX, S.f(x, c))
    def sktem(s, e):
        """terms for the arbitrary objects of the goals"""
        for i in (0, 1):
            o = e.skolem(OBJ, i); e.add_term(OBJ, BLK(o)); e.add_term(IDX, SIDX(o))
    def start(s, e, name, pre=True):
        s.fname = name
        S = State(s, None, "env"); s.S0 = S
        for f in s.ghosts: S.g(f)
        for x in s.fields.values(): S.M(x)
        s.math(e); e.add_term(OBJ, s.p); e.add(s.p != 0)
        if pre:
            e.assume_clauses(s.ok(S), S); s.state_terms(e, S); s.sktem(e)
            for i in (0, 1):
                for x in ("b.next", "b.back"): e.add_term(OBJ, S.f(x, e.skolem(OBJ, i)))
                e.add_term(OBJ, S.f("o.next", e.skolem(OBJ, i)))
            e.add_term(OBJ, S.f("o.next", S.f("p.recycle_list", s.p)))
        return S
    def run(s, e):
        P = Ptr(s.p); u = lambda x: If(x < 0, x + 2 ** 32, x)
        n = z3.Int("requested_size")
        with e.scope():
            s.mode = "init"; S = s.start(e, "synchInitPool", False)
            e.add(And(n >= -2 ** 31, n < 2 ** 31, Implies(And(u(n) >= 8, u(n) < 2 ** 31), s.size == n), Implies(u(n) < 8, s.size == 8)))
            k0 = fresh("x", I)
            e.add_schema(Clause("no-blocks-yet", [OBJ], lambda b: And(S["base"][b] == -1, S["rpos"][b] == 0, Not(S["live"][b]), Not(S["freed"][b])))); s.sktem(e)
            def post(T, r):
                ok = e.check(r != 0) == z3.unsat
                h = T.f("p.head_block", s.p)
                if ok:
                    e.push(); e.add_term(OBJ, h)
                    G = s.with_ghosts(T, base=T["base"].store(h, 0), last=z3.IntVal(0)); s.state_terms(e, G)
                    e.prove_clauses(s.ok(G), G, "init."); e.prove([("init.object-size", u(n) <= s.size), ("init.nothing-allocated", s.cursor(G) == 0)]); e.pop()
                else: e.prove([("init.refuses-only-what-does-not-fit", And(r != 0, u(n) + s.heap > s.BSval))])
            s.BSval = s.blocksize(e)
            s.BS = s.BSval
            e.verify("synchInitPool", [P, n], S, post)
        with e.scope():
            s.mode = "alloc"; S = s.start(e, "synchAllocObj"); s.called = []
            def post(T, r):
                a = r.addr() if isinstance(r, Ptr) else r
                if s.called: G = T; e.add_term(OBJ, a)      # returned what the recursive call returned
                else: G = s.with_ghosts(T, live=T["live"].store(a, True), rpos=T["rpos"].store(a, 0))
                e.push(); e.add_term(OBJ, a); e.add_term(OBJ, BLK(a)); e.add_term(IDX, SIDX(a)); s.state_terms(e, G); e.add_term(OBJ, T.f("o.next", a)); e.add_term(IDX, T.f("b.entries", BLK(a)))
                e.prove_clauses(s.alloc_post(S, G, a), G, "alloc."); e.pop()
            e.verify("synchAllocObj", [P], S, post)
        with e.scope():
            s.mode = "recycle"; S = s.start(e, "synchRecycleObj"); o = s.o = z3.Int("obj"); e.add_term(OBJ, o); e.add_term(OBJ, BLK(o)); e.add(Or(o == 0, S["live"][o], And(FOREIGN(o), S["rpos"][o] == 0)))
            def post(T, r):
                R = S.f("p.recycle_list", s.p); was = o != 0
                G = s.with_ghosts(T, live=T["live"].store(o, False), rpos=T["rpos"].store(o, If(was, If(R == 0, 0, T["rpos"][R]) + 1, T["rpos"][o])))
                e.prove_clauses(s.ok(G), G, "recycle."); e.prove([("recycle.reused-next", Implies(was, T.f("p.recycle_list", s.p) == o)), ("recycle.nothing-for-null", Implies(Not(was), T.f("p.recycle_list", s.p) == R)), ("recycle.cursor-kept", s.cursor(T) == s.cursor(S))])
            e.verify("synchRecycleObj", [P, Ptr(o)], S, post)
        with e.scope():
            s.mode = "rollback"; S = s.start(e, "synchRollback"); k = z3.Int("num_objs"); s.k = k; e.add(And(k >= -2 ** 31, k < 2 ** 31))
            left = If(u(k) > s.cursor(S), z3.IntVal(0), s.cursor(S) - u(k))
            e.add_schema(Clause("documented-precondition", [OBJ], lambda o: Implies(And(S["rpos"][o] > 0, Not(FOREIGN(o))), S["base"][BLK(o)] + SIDX(o) < left)))
            def post(T, r):
                cut = s.cursor(T)
                live = Arr.new("live", I, z3.BoolSort()); e.add_schema(Clause("cancelled", [OBJ], lambda o: live[o] == And(T["live"][o], Or(FOREIGN(o), T["base"][BLK(o)] + SIDX(o) < cut))))
                G = s.with_ghosts(T, live=live); s.state_terms(e, G); s.mode = ""
                e.prove([("rollback.cancels-exactly-the-last-allocations", cut == left)])
                e.prove_clauses(s.ok(G), G, "rollback."); e.prove_clauses(s.same_objects(S, T), T, "rollback."); s.mode = "rollback"
            e.verify("synchRollback", [P, k], S, post)
            s.k = None
        with e.scope():
            s.mode = "destroy"; S = s.start(e, "synchDestroyPool")
            def post(T, r):
                e.prove_clauses([Clause("every-block-freed", [OBJ], lambda b: Implies(S["base"][b] >= 0, T["freed"][b])), Clause("nothing-else-freed", [OBJ], lambda b: Implies(S["base"][b] < 0, T["freed"][b] == S["freed"][b]))], T, "destroy.")
                e.prove([("destroy.pool-empty", And(T.f("p.head_block", s.p) == 0, T.f("p.cur_block", s.p) == 0))])
            e.verify("synchDestroyPool", [P], S, post)
    def blocksize(s, e):
        """the constant size every block is allocated with"""
        import re
        m = set(re.findall(r"@synchGetAlignedMemory\(i64[^,]*, i64[^)]*?(\d+)\)", e.mod.text))
        if len(m) != 1: raise Unsupported("block size is not one constant")
        return z3.IntVal(int(m.pop()))


def layout_heap():
    import layout
    return layout.consts(["pool.h"], ["__builtin_offsetof(SynchPoolBlock, heap)"])[0]
