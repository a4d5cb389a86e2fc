"""Contract of Sim (P-Sim wait-free universal construction): each operation is applied exactly once, between its announcement and its return, to the state published
before it; it returns its own result; an operation is applied at the latest by the second publication after it was announced, so two attempts are enough."""
import z3
from z3 import And, Or, Not, Implies, If
from engine import *
import layout

I = z3.IntSort(); Z = z3.IntVal
OBJECT, TS = 1, 2
KIND = z3.Function("kind", I, I)
BLK = z3.Function("block", I, I)              # address of block i of the pool
POOLA, ANNA, DCELL = z3.Ints("POOL_ARRAY ANNOUNCE_ARRAY DIFFS_CELLS")
RETP = z3.Function("ret_array", I, I)         # address of block i's array of results
E_POOL, E_ANN, E_DW, E_RET = [z3.Function("elem_" + x, *([I] * n)) for x, n in (("pool", 2), ("announce", 2), ("diffs", 2), ("ret", 3))]
BIT = z3.Function("bit", I, I, z3.BoolSort()) # bit k of a machine word
WRD, POS = z3.Function("word_of", I, I), z3.Function("pos_of", I, I)   # the word and the position of a thread's bit
SHL1 = z3.Function("one_shifted_by", I, I)
F_ST = z3.Function("sfunc_state", I, I, I, I)
F_RET = z3.Function("sfunc_result", I, I, I, I)
PAIR = z3.Function("pair", I, I, I); PFST, PSND = z3.Function("pair_first", I, I), z3.Function("pair_second", I, I)
M = 2 ** 21
LOWB = 2 ** 40
K_POOL, K_ANN, K_RET, K_ST = [(2 ** 21 + 64 * j, 8) for j in range(4)]


class Sim(Spec):
    """V: version (the 40-bit timestamp), CUR: index of the published block; A[t]: t's bit in a_toggles, tv[t]: version at its last change; bit[i,t]: t's bit of
    block i's applied vector; low[i]: version at which block i was published last; app(t): t's last announced operation is applied; av[t]: version that applied it,
    res[t]: its result; li[t]: number of the block t writes next. Local: proc[t]: this attempt has applied t's operation (with result attret[t]), exp: resulting state."""
    src = "libconcurrent/concurrent/sim.c"
    ghosts, ghost_dom = ghosts(V="i", CUR="i", A="t:b", tv="t:i", av="t:i", res="t:w", li="t:i", low="x:i", bit="x:b",
                               lt="t:b", pend="t:b", proc="t:b", attret="t:w", exp="w", mb="b", sg="b")
    local_ghosts = ("lt", "pend", "proc", "attret", "exp", "mb", "sg")
    struct, block, ts, half, fname, header = "SimStruct", "SimObjectState", "SimThreadState", "HalfSimObjectState", "SimApplyOp", "sim.h"
    own_candidates = True
    poolconst = "_SIM_LOCAL_POOL_SIZE_"

    def __init__(s):
        super().__init__()
        H = s.half
        L = layout.offsets([s.header], [(s.struct, f) for f in ("sp", "a_toggles", "pool", "announce", "nthreads", "MAX_BACK")] + [(H, f) for f in ("ret", "applied", "state", "__flex")] + [(s.block, "ret"), (s.block, "applied"), (s.block, "state"), (s.block, "__flex")]
                           + [(s.ts, f) for f in ("mask", "toggle", "my_bit", "diffs", "l_toggles", "local_index", "backoff")] + [("ToggleVector", f) for f in ("nthreads", "tvec_cells", "cell")])
        s.L = L
        s.fields = dict(sp=L[s.struct, "sp"], state=L[H, "state"], ret=L[H, "ret"], pool=L[s.struct, "pool"], announce=L[s.struct, "announce"])
        s.fields["state"] = (L[H, "state"][0], 8)
        s.fields["sp"] = (L[s.struct, "sp"][0], 8)
        if [L[H, f] for f in ("ret", "applied", "__flex")] != [L[s.block, f] for f in ("ret", "applied", "__flex")] or L[H, "state"][0] != L[s.block, "state"][0]: raise Unsupported("the two views of a block differ")
        s.keys = set(s.fields.values()) | {K_POOL, K_ANN, K_RET, K_ST}
        s.P, s.flexsize = layout.consts([s.header], [s.poolconst, "sizeof(%s)" % s.block])
        s.l, s.st, s.tid, s.arg, s.sfunc, s.N, s.CELLS = z3.Ints("l st me arg SFUNC N CELLS")
        s.pid = s.tid - 1
        s.memfree = False

    # ------------------------------------------------------------------------------------------- states
    def bit(s, X, i, t): return X["bit"][PAIR(i, t)]
    def ret(s, X, i, t): return X.M(K_RET)[PAIR(i, t)]
    def obj(s, X, i): return X.M(K_ST)[i]
    def ann(s, X, t): return X.M(K_ANN)[t]
    def app(s, X, t): return s.bit(X, X["CUR"], t) == X["A"][t]
    def isthr(s, t): return And(1 <= t, t <= s.N)
    def own(s, i, u): return And(s.P * (u - 1) <= i, i < s.P * u)
    def slot(s, X, t, k=0): return s.P * (t - 1) + If(X["li"][t] + k >= s.P, X["li"][t] + k - s.P, X["li"][t] + k)

    def inv(s, S):
        V, CUR, low, li = S["V"], S["CUR"], S["low"], S["li"]
        def thr(t):
            return And(Implies(s.isthr(t), And(0 <= li[t], li[t] < s.P, S["tv"][t] <= V, Implies(V >= S["tv"][t] + 2, s.app(S, t)), Implies(s.app(S, t), And(S["tv"][t] < S["av"][t], S["av"][t] <= V)))),
                       Implies(And(s.N < t, t < M), And(Not(S["A"][t]), Not(s.bit(S, CUR, t)))))
        def ring(t):
            b = [low[s.slot(S, t, k)] for k in range(s.P)]
            return Implies(s.isthr(t), And([x < y for x, y in zip(b, b[1:])] + [b[-1] <= V]))
        return [Clause("published", [], lambda: And(0 <= V, 0 <= CUR, CUR <= s.P * s.N, S.f("sp", s.l) == V + LOWB * CUR, low[CUR] == V)),
                Clause("next-block-is-not-the-published-one", [TID], lambda t: Implies(And(s.isthr(t), s.own(CUR, t)), CUR == s.slot(S, t, s.P - 1))),
                Clause("thread", [TID], thr), Clause("ring", [TID], ring), Clause("low", [IDX], lambda i: low[i] <= V),
                Clause("result-kept", [IDX, TID], lambda i, t: Implies(And(s.isthr(t), s.app(S, t), low[i] >= S["av"][t]), s.ret(S, i, t) == S["res"][t]))]
    def lemmas(s, S): return [Clause("timestamp-does-not-wrap", [], lambda: S["V"] < LOWB - 1), Clause("pairs", [IDX, TID], lambda i, q: And(PFST(PAIR(i, q)) == i, PSND(PAIR(i, q)) == q))]
    def terms(s, S): return [(IDX, S["CUR"]), (IDX, s.mine)]
    def skolem_terms(s, S, S2, sk, u):
        for t in sk[TID]: s.e.add_term(TID, t)
        for i in sk[IDX]: s.e.add_term(IDX, i)
        out = [(IDX, S2["CUR"])]
        for t in sk[TID]: out += [(IDX, s.slot(X, t, k)) for X in (S, S2) for k in range(s.P)]
        return out

    def rely(s, A, B, u, mem=True):
        V, W = A["V"], B["V"]
        same = lambda g, t: B[g][t] == A[g][t]
        keep = lambda t: And(same("A", t), same("tv", t))
        stable = lambda i: Or(s.own(i, u), W < A["low"][i] + s.P - 1)
        fix = (lambda i: stable(i)) if not s.memfree else (lambda i: And(stable(i), i != s.mine))
        out = [Clause("version", [], lambda: And(V <= W, Implies(V == W, A["CUR"] == B["CUR"]))),
               Clause("mine", [], lambda: And(same("A", u), same("tv", u), same("li", u), s.ann(A, u) == s.ann(B, u))),
               Clause("toggles", [TID], lambda t: Implies(s.isthr(t), And(Or(keep(t), B["tv"][t] >= V), Implies(And(V == W, Not(s.app(A, t))), And(keep(t), s.ann(A, t) == s.ann(B, t)))))),
               Clause("applied", [TID], lambda t: Implies(s.isthr(t), And(Implies(And(s.app(A, t), keep(t)), And(s.app(B, t), same("res", t), same("av", t))), Implies(And(Not(s.app(A, t)), s.app(B, t)), B["av"][t] > V), Or(same("av", t), B["av"][t] > V)))),
               Clause("low", [IDX], lambda i: And(A["low"][i] <= B["low"][i], Implies(stable(i), same("low", i)))),
               Clause("block.bits", [IDX, TID], lambda i, t: Implies(And(1 <= t, t < M, fix(i)), s.bit(A, i, t) == s.bit(B, i, t))),
               Clause("block.results", [IDX, TID], lambda i, t: Implies(And(s.isthr(t), fix(i)), s.ret(A, i, t) == s.ret(B, i, t))),
               Clause("block.state", [IDX], lambda i: Implies(fix(i), s.obj(A, i) == s.obj(B, i)))]
        return out
    private = None

    # ------------------------------------------------------------------------------------------- addresses
    def on_term(s, e, sort, t):
        if sort == TID: e.add(And(t - 1 == 64 * WRD(t) + POS(t), 0 <= POS(t), POS(t) < 64))
    def index(s, e, i, kind):
        i = z3.simplify(i)
        if z3.is_const(i) or (kind == TID and z3.is_add(i) and i.num_args() == 2 and all(z3.is_const(c) or z3.is_int_value(c) for c in i.children())): pass
        else:
            v = s.ixs.setdefault(i.get_id(), (fresh("ix", I), i))[0]; e.add(v == i); i = v
        e.add_term(kind, i)
        return i
    def elem(s, e, base, off, i, sz):
        if off != 0 or sz != 8: return None
        if base.eq(POOLA): return E_POOL(s.index(e, i, IDX))
        if base.eq(ANNA): return E_ANN(s.index(e, i + 1, TID))
        if base.eq(DCELL): return E_DW(z3.simplify(i))
        if z3.is_app(base) and base.decl().eq(RETP): return E_RET(base.arg(0), s.index(e, i + 1, TID))
        raise Unsupported("element of an unknown array")
    def place(s, e, p):
        b = p.base
        if z3.is_app(b):
            d = b.decl()
            if d.eq(E_POOL): return Ptr(b.arg(0), K_POOL[0])
            if d.eq(E_ANN): return Ptr(b.arg(0), K_ANN[0])
            if d.eq(E_DW): return Ptr(b.arg(0), 0, "DW")
            if d.eq(E_RET): return Ptr(PAIR(b.arg(0), b.arg(1)), K_RET[0])
        if b.eq(s.st) and p.off in (s.L[s.ts, "local_index"][0], s.L[s.ts, "backoff"][0]): return Ptr(b, p.off, "TS")
        return p
    def typed_read(s, S, base, key, v):
        L = s.L; tv = "ToggleVector"
        if base.eq(s.l):
            if key == s.fields["pool"]: return POOLA
            if key == s.fields["announce"]: return ANNA
            if key == L[s.struct, "nthreads"]: return s.N
        if key == K_POOL: return BLK(base)
        if z3.is_app(base) and base.decl().eq(BLK):
            if key == s.fields["ret"]: return RETP(base.arg(0))
            if key == (L[s.half, "applied"][0] + L[tv, "nthreads"][0], 4): return s.N
            if key == (L[s.half, "applied"][0] + L[tv, "tvec_cells"][0], 4): return s.CELLS
        if base.eq(s.st):
            for f in ("diffs", "l_toggles", "toggle", "my_bit"):
                if key == (L[s.ts, f][0] + L[tv, "nthreads"][0], 4): return s.N
                if key == (L[s.ts, f][0] + L[tv, "tvec_cells"][0], 4): return s.CELLS
            if key == (L[s.ts, "diffs"][0] + L[tv, "cell"][0], 8): return DCELL
        return v
    def is_mover(s, e, S, base, key, rw):
        return base.eq(s.st) or (rw == "r" and (key in (s.fields["pool"], s.fields["announce"], K_POOL, s.fields["ret"]) or key[1] == 4))
    def vec(s, p):
        """which toggle vector a pointer denotes"""
        if p.base.eq(s.st):
            for f in ("diffs", "l_toggles", "toggle", "my_bit", "mask"):
                if p.off == s.L[s.ts, f][0]: return f, None
        if p.base.eq(s.l) and p.off == s.L[s.struct, "a_toggles"][0]: return "A", None
        if z3.is_app(p.base) and p.base.decl().eq(BLK) and p.off == s.L[s.half, "applied"][0]: return "applied", p.base.arg(0)
        raise Unsupported("unknown toggle vector")

    # ------------------------------------------------------------------------------------------- toggle vectors (contracts: property T01)
    def words(s, e, S):
        if ("DW", 0, 8) not in S.priv: e.priv_init(S, ("DW", 0, 8))
        return S.priv["DW", 0, 8]
    def dbit(s, X, t): return BIT(X.priv["DW", 0, 8][WRD(t)], POS(t))
    def inrange(s, t): return And(1 <= t, WRD(t) < s.CELLS)
    def fact(s, e, S, c): e.add_schema(c, (e.invstate(S),))
    def xorword(s, e, w, pos):
        w2 = e.freshw("xor", 64)
        e.add_schema(Clause("xor", [TID], lambda t: BIT(w2, POS(t)) == z3.Xor(BIT(w, POS(t)), POS(t) == pos)))
        return w2
    def contract(s, name):
        def bank(e, S, a, k):
            t = s.index(e, a[0] + 1, TID); k(S, WRD(t))
        def reverse(e, S, a, k):
            v, _ = s.vec(a[0]); t = s.index(e, a[1] + 1, TID)
            if v == "my_bit":
                e.prove([("toggle.own-bit", t == s.tid)])
                S2 = S.child(); S2.gh["mb"] = Not(S["mb"]); k(S2, None)
            elif v == "diffs":
                w = s.words(e, S)
                k(e.privstore(S, Ptr(WRD(t), 0, "DW"), 8, s.xorword(e, w[WRD(t)], POS(t))), None)
            else: raise Unsupported("bit of %s reversed" % v)
        def negbank(e, S, a, k):
            if s.vec(a[0])[0] != "toggle" or s.vec(a[1])[0] != "toggle": raise Unsupported("negation of other vectors")
            e.prove([("toggle.own-bank", a[2] == WRD(s.tid))])
            S2 = S.child(); S2.gh["sg"] = Not(S["sg"]); k(S2, None)
        def addbank(e, S, a, k):
            if s.vec(a[0])[0] != "A" or s.vec(a[1])[0] != "toggle": raise Unsupported("addition of other vectors")
            S = e.env(S); t = s.tid
            e.prove([("toggle.own-bank", a[2] == WRD(t)), ("toggle.added-when-clear-subtracted-when-set", S["sg"] == Not(S["A"][t])), ("toggle.after-the-argument-is-announced", s.ann(S, t) == s.arg),
                     ("toggle.no-pending-operation", s.app(S, t))])
            k(e.event(S, dict(A=Store(S["A"], t, Not(S["A"][t])), tv=Store(S["tv"], t, S["V"])), "toggle"), None)
        def copybank(e, S, a, k):
            v, i = s.vec(a[1])
            if s.vec(a[0])[0] != "diffs" or v != "applied": raise Unsupported("copy of other vectors")
            S = e.env(S)
            w = e.freshw("bank", 64); b = a[2]
            s.fact(e, S, Clause("bank", [TID], lambda t: Implies(And(s.inrange(t), WRD(t) == b), BIT(w, POS(t)) == s.bit(S, i, t))))
            e.add_term(TID, s.tid); s.words(e, S)
            k(e.privstore(S, Ptr(b, 0, "DW"), 8, w), None)
        def xorbank(e, S, a, k):
            if [s.vec(x)[0] for x in a[:3]] != ["diffs", "diffs", "my_bit"]: raise Unsupported("xor of other banks")
            w = s.words(e, S)[a[3]]; w2 = e.freshw("xor", 64); b = a[3]
            e.add_schema(Clause("xor", [TID], lambda t: Implies(WRD(t) == b, BIT(w2, POS(t)) == z3.Xor(BIT(w, POS(t)), And(S["mb"], t == s.tid)))))
            k(e.privstore(S, Ptr(b, 0, "DW"), 8, w2), None)
        def isset(e, S, a, k):
            t = s.index(e, a[1] + 1, TID); v, i = s.vec(a[0])
            if v == "diffs": s.words(e, S); k(S, s.dbit(S, t))
            elif v == "applied": S = e.env(S); k(S, s.bit(S, i, t))
            else: raise Unsupported("test of " + v)
        def copy(e, S, a, k):
            d, i = s.vec(a[0]); v, _ = s.vec(a[1])
            if d == "l_toggles" and v == "A":
                T = e.env(S); F = e.env(T)      # T: the moment at which t's bit was read
                c = Clause("snapshot", [TID], lambda t: And(Implies(t == s.tid, F["lt"][t] == F["A"][t]), Implies(s.isthr(t), Or(F["lt"][t] == F["A"][t], F["tv"][t] >= S["V"])), Implies(And(s.isthr(t), S["V"] == F["V"], F["lt"][t] != s.bit(S, S["CUR"], t)), F["A"][t] == F["lt"][t]), Implies(And(s.N < t, t < M), Not(F["lt"][t]))))
                e.push()
                try:
                    t = fresh("t", I); e.add_term(TID, t); F.gh["lt"] = T["A"]
                    e.prove([("snapshot.of-the-toggles", c.fn(t))])
                finally: e.pop()
                F.gh["lt"] = Arr.new("lt", I, z3.BoolSort())
                s.fact(e, F, c); k(F, None)
            elif d == "applied" and v == "l_toggles":
                e.prove([("attempt.writes-its-own-block", i == s.mine)])
                S = e.env(S)
                nb = Arr.new("bit", I, z3.BoolSort())
                s.fact(e, S, Clause("copied", [IDX, TID], lambda j, t: Implies(And(1 <= t, t < M), nb[PAIR(j, t)] == If(And(j == s.mine, s.inrange(t)), S["lt"][t], s.bit(S, j, t)))))
                k(e.event(S, dict(bit=nb), "applied"), None)
            else: raise Unsupported("copy of other vectors")
        def xor(e, S, a, k):
            (d, _), (v, i), (w, _) = [s.vec(x) for x in a[:3]]
            if d != "diffs" or v != "applied" or w != "l_toggles": raise Unsupported("xor of other vectors")
            S = e.env(S)
            s.words(e, S); S2 = S.child()
            S2.priv["DW", 0, 8] = Arr.new("DW", I, I); S2.gh["pend"] = Arr.new("pend", I, z3.BoolSort())
            e.add_schema(Clause("xor", [TID], lambda t: And(S2["pend"][t] == And(s.inrange(t), s.bit(S, i, t) != S["lt"][t]), Implies(s.inrange(t), s.dbit(S2, t) == S2["pend"][t]))), (e.invstate(S),))
            k(S2, None)
        return {"TVEC_GET_BANK_OF_BIT": bank, "TVEC_REVERSE_BIT": reverse, "TVEC_NEGATIVE_BANK": negbank, "TVEC_ATOMIC_ADD_BANK": addbank, "TVEC_ATOMIC_COPY_BANKS": copybank, "TVEC_XOR_BANKS": xorbank,
                "TVEC_IS_SET": isset, "TVEC_COPY": copy, "TVEC_XOR": xor}.get(name)

    def arith(s, e, op, w, a, b):
        bs = z3.simplify(b)
        if op == "shl" and z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == 1 and not z3.is_int_value(bs): return SHL1(b)
        if op == "xor" and z3.is_app(b) and b.decl().eq(SHL1): return s.xorword(e, a, b.arg(0))
        if op == "and" and z3.is_int_value(bs) and bs.as_long() == -LOWB: return a - a % LOWB
        if op == "or":
            if w == 64 and e.check(Not(And(a % LOWB == 0, 0 <= b, b < LOWB))) == z3.unsat: return a + b
            if w == 64 and e.check(Not(And(b % LOWB == 0, 0 <= a, a < LOWB))) == z3.unsat: return a + b
            return e.freshw("or", w)
    def extern(s, e, S, name, args, rty, k):
        if name.startswith("llvm.cttz"):
            w = args[0]; p = fresh("pos", I)
            e.add(And(0 <= p, p < 64, BIT(w, p))); k(S, p); return True
        if name.startswith("llvm.memcpy"): s.blockcopy(e, S, args, k); return True
        if name == "synchIsSystemOversubscribed": k(S, e.fresh_bool(rty)); return True
        if name == "synchFastRandomRange": k(S, e.freshw("random", 64)); return True
        return False

    def blockcopy(s, e, S, a, k):
        """copies words of the block src into the block dst, one by one, while other threads run"""
        isb = lambda p: z3.is_app(p.base) and p.base.decl().eq(BLK) and p.off == s.fields["state"][0]
        if not isb(a[0]) or not isb(a[1]): raise Unsupported("copy of other memory")
        d, i = a[0].base.arg(0), a[1].base.arg(0)
        need = s.L[s.block, "__flex"][0] - s.fields["state"][0] + 8 * s.CELLS + 8 * s.N
        e.prove([("copy.into-the-own-block", d == s.mine), ("copy.whole-state-applied-vector-and-results", a[2] >= need), ("copy.within-the-block", a[2] <= s.flexsize - s.fields["state"][0] + 8 * s.CELLS + 8 * s.N)])
        e.push()
        try:        # one arbitrary word
            Y = e.env(S); t = fresh("t", I); e.add_term(TID, t); e.add(s.isthr(t))
            r, b, st = s.ret(Y, i, t), s.bit(Y, i, t), s.obj(Y, i)
            X = e.env(Y)
            for key, base, v in ((K_RET, PAIR(s.mine, t), r), (K_ST, s.mine, st)):
                X2 = X.child(); X2.mem[key] = Store(X.M(key), base, v)
                e.guarantee(X, X2, "copy.word")
            e.event(X, dict(bit=Store(X["bit"], PAIR(s.mine, t), b)), "copy.bit")
        finally: e.pop()
        s.memfree = True
        try: F = e.env(S)
        finally: s.memfree = False
        F.gh["proc"] = Arr.new("proc", I, z3.BoolSort()); F.gh["exp"] = s.obj(S, S["CUR"])
        exact = And(S["V"] == F["V"], i == S["CUR"])
        e.add_schema(Clause("copied", [TID], lambda t: And(Not(F["proc"][t]), Implies(exact, And(Implies(And(1 <= t, t < M), s.bit(F, s.mine, t) == s.bit(S, i, t)), Implies(s.isthr(t), s.ret(F, s.mine, t) == s.ret(S, i, t)), s.obj(F, s.mine) == s.obj(S, i))))), (S.id, F.id))
        k(F, None)

    # ------------------------------------------------------------------------------------------- steps
    def on_icall(s, e, S, f, args, k):
        S = e.env(S)
        t = s.index(e, args[2] + 1, TID); p = args[0]
        good = z3.is_app(p.base) and p.base.decl().eq(BLK) and p.off == s.fields["state"][0]
        e.prove([("sfunc.is-the-clients-function", f.addr() == s.sfunc), ("sfunc.on-the-own-copy-of-the-state", And(z3.BoolVal(good), p.base.arg(0) == s.mine) if good else z3.BoolVal(False))])
        if not good: return
        now = S["V"] == s.base(S)
        old = s.obj(S, s.mine)
        e.prove([("sfunc.not-applied-twice-in-an-attempt", Not(S["proc"][t])),
                 ("sfunc.only-pending-operations", Implies(now, And(s.isthr(t), Not(s.app(S, t)), S["A"][t] == S["lt"][t]))), ("sfunc.announced-argument", Implies(now, args[1] == s.ann(S, t))),
                 ("sfunc.applied-to-the-published-state-and-what-was-applied-to-it", Implies(now, old == S["exp"]))])
        S2 = S.child(); v = F_ST(old, args[1], args[2]); r = F_RET(old, args[1], args[2])
        S2.mem[K_ST] = Store(S.M(K_ST), s.mine, v)
        S2.gh.update(proc=Store(S["proc"], t, True), attret=Store(S["attret"], t, r), exp=v)
        e.guarantee(S, S2, "sfunc")
        k(S2, r)
    def base(s, S):
        """the version this attempt starts from: the one of the value that the CAS expects"""
        return s.oldv(S)

    def on_write(s, e, S, S2, writes, rmw):
        base, key, old, v = writes[0]; t = s.tid
        if key == K_ANN: e.prove([("announce.own-slot", base == t), ("announce.own-argument", v == s.arg)]); return
        if key == K_RET: return
        if base.eq(s.l) and key == s.fields["sp"]:
            q = fresh("q", I); e.add_term(TID, q)
            e.prove([("publish.by-compare-and-swap", z3.BoolVal(bool(rmw))), ("publish.next-version-of-the-own-block", v == S["V"] + 1 + LOWB * s.mine),
                     ("publish.every-operation-of-the-snapshot-applied-once", Implies(s.inrange(q), S["proc"][q] == (S["lt"][q] != s.bit(S, S["CUR"], q)))), ("publish.own-operation-applied", S["proc"][t]),
                     ("publish.results-stored", Implies(And(s.isthr(q), S["proc"][q]), s.ret(S, s.mine, q) == S["attret"][q])), ("publish.state-of-the-attempt", s.obj(S, s.mine) == S["exp"]),
                     ("publish.applied-vector-is-the-snapshot", Implies(s.inrange(q), s.bit(S, s.mine, q) == S["lt"][q])), ("publish.other-results-kept", Implies(And(s.isthr(q), Not(S["proc"][q]), s.app(S, q)), s.ret(S, s.mine, q) == S["res"][q]))])
            av, res = Arr.new("av", I, I), Arr.new("res", I, I)
            e.add_schema(Clause("published", [TID], lambda q: And(av[q] == If(S["proc"][q], S["V"] + 1, S["av"][q]), res[q] == If(S["proc"][q], S["attret"][q], S["res"][q]))), (e.invstate(S),))
            return dict(V=S["V"] + 1, CUR=s.mine, li=Store(S["li"], t, If(S["li"][t] + 1 >= s.P, Z(0), S["li"][t] + 1)), low=Store(S["low"], s.mine, S["V"] + 1), av=av, res=res)
        raise Unsupported("write to a field that the contract keeps constant")
    def on_read(s, e, S, base, key, v):
        if base.eq(s.l) and key == s.fields["sp"]: s.reads.append(v)

    # ------------------------------------------------------------------------------------------- loops
    def loop_clauses(s, e, S, fr, phis):
        out = []
        for kk in [k for k in S.priv if k[0] != "DW" and not k[0].startswith("#")]:
            a = s.st if kk[0] == "TS" else z3.Const("A_" + kk[0], I)
            out.append(("same.%s.%d" % (kk[0], kk[1]), lambda ph, X, kk=kk, a=a: Clause("p", [], lambda: X.priv[kk][a] == S.priv[kk][a])))
        if "DW" not in [k[0] for k in S.priv]: return out
        for j, c in enumerate(s.rely(S, S, s.tid)):
            out.append(("since-entry." + c.name, lambda ph, X, j=j: s.rely(S, X, s.tid)[j]))
        for k in ("bits", "results", "state"): pass
        out += [("own-block.bits", lambda ph, X: Clause("b", [TID], lambda t: s.bit(X, s.mine, t) == s.bit(S, s.mine, t))),
                ("own-block.other-results", lambda ph, X: Clause("b", [TID], lambda t: Implies(And(s.isthr(t), Not(X["proc"][t])), s.ret(X, s.mine, t) == s.ret(S, s.mine, t))))]
        def others(nm):
            def mk(ph, X):
                s.memfree = True
                try: return [c for c in s.rely(S, X, s.tid) if c.name == nm][0]
                finally: s.memfree = False
            return mk
        out += [("since-entry.other-" + nm, others(nm)) for nm in ("block.results", "block.state", "block.bits")]
        for g in ("lt", "pend", "proc", "attret"): out.append(("same." + g, lambda ph, X, g=g: Clause("s", [TID], lambda t: X[g][t] == S[g][t])))
        for g in ("exp", "mb", "sg"): out.append(("same." + g, lambda ph, X, g=g: Clause("s", [], lambda: X[g] == S[g])))
        out += [("diffs", lambda ph, X: Clause("d", [TID], lambda t: Implies(s.inrange(t), s.dbit(X, t) == And(X["pend"][t], Not(X["proc"][t]))))),
                ("processed-was-pending", lambda ph, X: Clause("d", [TID], lambda t: Implies(X["proc"][t], X["pend"][t]))),
                ("results-stored", lambda ph, X: Clause("d", [TID], lambda t: Implies(And(s.isthr(t), X["proc"][t]), s.ret(X, s.mine, t) == X["attret"][t]))),
                ("own-processed", lambda ph, X: Clause("d", [], lambda: X["proc"][s.tid])),
                ("state", lambda ph, X: Clause("d", [], lambda: s.obj(X, s.mine) == X["exp"]))]
        ints = [n for n, ty, v in phis if z3.is_expr(v) and not z3.is_bool(v)]
        for n in ints:
            out.append(("done<%s" % n, lambda ph, X, n=n: Clause("d", [TID], lambda t: Implies(And(1 <= t, WRD(t) < ph[n]), Implies(X["pend"][t], X["proc"][t])))))
        for f, d in s.outer: out.append(("outer.done", lambda ph, X, f=f: Clause("d", [TID], lambda t: Implies(And(1 <= t, WRD(t) < f), Implies(X["pend"][t], X["proc"][t])))))
        return out
    def loop_cands(s, e, S, fr, phis):
        ints = [n for n, ty, v in phis if z3.is_expr(v) and not z3.is_bool(v)]
        out = [("%s>=0" % n, lambda p, X, n=n: p[n] >= 0) for n in ints]
        for n in ints:
            for m in ints:
                if n != m: out.append(("%s==64*%s" % (n, m), lambda p, X, n=n, m=m: p[n] == 64 * p[m]))
        return out
    def loop_terms(s, e, S, heads):
        s.outer = [(h, 0) for h in heads.values() if z3.is_expr(h) and not z3.is_bool(h)] or s.outer

    def cut_facts(s, X, d):
        t = s.tid; S = s.S0; lk = ("TS",) + s.L[s.ts, "local_index"]
        return And(X["mb"] == Not(X["A"][t]), X["sg"] == X["A"][t], X["A"][t] == Not(S["A"][t]), X["tv"][t] >= S["V"], s.ann(X, t) == s.arg, X["li"][t] == S["li"][t], X.priv[lk][s.st] == X["li"][t], X["V"] >= X["tv"][t] + d)
    def cut(s, e, fr, S):
        for d in (2, 1, 0):
            f = s.cut_facts(S, d)
            if e.check(Not(f)) == z3.unsat: return d, f
    def cut_value(s, e, v):
        if isinstance(v, Ptr) and z3.is_app(v.base) and v.base.decl().eq(BLK) and e.check(v.base.arg(0) != s.mine) == z3.unsat: return Ptr(BLK(s.mine), v.off, v.priv)
        return v

    def run(s, e):
        s.e = e; s.ixs = {}; s.outer = []; s.reads = []
        S = State(s, None, "env"); t = s.tid
        s.S0 = S
        s.mine = z3.Int("MINE")
        s.oldv = lambda X: X.priv[s.oldkey(X)][z3.Const("A_" + s.oldkey(X)[0], I)] % LOWB
        for o in (s.l, s.st): e.add_term(OBJ, o)
        e.add_term(TID, t)
        e.add(And(t > 0, t <= s.N, s.N <= 2 ** 20, s.CELLS == s.N / 64 + 1, KIND(s.l) == OBJECT, KIND(s.st) == TS, s.l != s.st, s.mine == s.slot(S, t)))
        e.add_schema(Clause("zero", [TID], lambda q: Not(BIT(Z(0), POS(q)))))
        e.assume_inv(S)
        for k in range(1, s.P): e.add_term(IDX, s.slot(S, t, k))
        lk = ("TS",) + s.L[s.ts, "local_index"]; bk = ("TS",) + s.L[s.ts, "backoff"]
        for k in (lk, bk): e.priv_init(S, k)
        e.add(And(s.app(S, t), S["mb"] == Not(S["A"][t]), S["sg"] == S["A"][t], S.priv[lk][s.st] == S["li"][t]))
        def post(S2, r):
            e.prove([("ret.own-operation-announced", And(S2["A"][t] == Not(S["A"][t]), S2["tv"][t] >= S["V"])), ("ret.applied-exactly-once-before-return", s.app(S2, t)), ("ret.own-result", r == S2["res"][t]),
                     ("ret.toggles-consistent", And(S2["mb"] == Not(S2["A"][t]), S2["sg"] == S2["A"][t])), ("ret.next-block-known", S2.priv[lk][s.st] == S2["li"][t])])
        e.verify(s.fname, [Ptr(s.l), Ptr(s.st), Ptr(s.sfunc), s.arg, s.pid], S, post)
    def oldkey(s, X):
        for k in X.priv:
            if k[0] not in ("TS", "DW") and k[2] == 8 and "old" in k[0]: return k
        raise Unsupported("no saved value of the published pointer")
