"""Sequential contracts (bit-precise machine words): backoff, random numbers, toggle vectors, memory helpers."""
import z3
from z3 import And, Or, Not, Implies, If, ULE, ULT, UGE, UGT, LShR, ZeroExt, BitVecVal as BV_
from engine import *
import layout


class Seq(Spec):
    sequential = True
    intmode = False
    simple_solver = False
    structs = ()        # (header, struct, fields)
    def __init__(s):
        super().__init__()
        for pre, hdr, st, fs in s.structs:
            L = layout.offsets([hdr], [(st, f) for f in fs], getattr(s, "flags", ()))
            for f in fs: s.fields[pre + f] = L[st, f]
        s.keys = set(s.fields.values())
        s.named = []
    def named_objs(s, S): return [("v%d" % i, o) for i, o in enumerate(s.named)]
    def private(s, S, o, u): return z3.BoolVal(False)
    def preds(s, e, S): return getattr(s, "_preds", [])
    def fn(s, e, name, args, pre, post, S0=None, named=()):
        """one function contract: pre(S) is assumed, post(S0,S,ret) -> goals"""
        S = S0 or State(s, None, "env")
        s.named = list(named)
        with e.scope():
            e.add(pre(S))
            e.verify(name, args, S, lambda S2, r: e.prove(post(S, S2, r)))


class Backoff(Seq):
    """2^base_bits-1 <= backoff <= 2^cap_bits-1 and backoff = 2^k-1, established by init and kept by every operation; a delay spins at most `backoff` times"""
    src = "libconcurrent/primitives/backoff.c"
    structs = [("", "backoff.h", "SynchBackoffStruct", ["backoff", "backoff_base_bits", "backoff_cap_bits", "backoff_shift_bits", "backoff_base", "backoff_cap", "backoff_addend"])]
    def extern(s, e, S, name, args, rty, k):
        if name == "synchIsSystemOversubscribed": k(S, e.fresh_bool(rty)); return True
        if name in ("sched_yield",): k(S, e.freshw("r", 32)); return True
        return False
    count_iterations = True
    def ok(s, S):
        b, bb, cb, sb, base, cap, add = [S.f(x, s.b) for x in ("backoff", "backoff_base_bits", "backoff_cap_bits", "backoff_shift_bits", "backoff_base", "backoff_cap", "backoff_addend")]
        one = BV_(1, 32)
        return And(ULE(bb, cb), ULE(cb, 30), ULE(sb, 30), base == (one << bb) - 1, cap == (one << cb) - 1, add == (one << sb) - 1, ULE(base, b), ULE(b, cap), b & (b + 1) == 0)
    def same_config(s, A, B): return And(*[A.f(x, s.b) == B.f(x, s.b) for x in ("backoff_base_bits", "backoff_cap_bits", "backoff_shift_bits", "backoff_base", "backoff_cap", "backoff_addend")])
    def run(s, e):
        s.b = z3.BitVec("b", 64); p = Ptr(s.b)
        x, y, w = z3.BitVecs("base_bits cap_bits shift_bits", 32)
        one = BV_(1, 32)
        s.fn(e, "synchInitBackoff", [p, x, y, w], lambda S: And(ULE(x, y), ULE(y, 30), ULE(w, 30)),
             lambda S, T, r: [("init.bounds-hold", s.ok(T)), ("init.lower-bound-as-configured", And(T.f("backoff_base", s.b) == (one << x) - 1, T.f("backoff", s.b) == T.f("backoff_base", s.b))), ("init.upper-bound-as-configured", T.f("backoff_cap", s.b) == (one << y) - 1)], named=[s.b])
        keep = lambda n: lambda S, T, r: [(n + ".bounds-hold", s.ok(T)), (n + ".configuration-unchanged", s.same_config(S, T))]
        s.fn(e, "synchResetBackoff", [p], s.ok, lambda S, T, r: keep("reset")(S, T, r) + [("reset.restores-the-lower-bound", T.f("backoff", s.b) == T.f("backoff_base", s.b))], named=[s.b])
        s.fn(e, "synchBackoffDelay", [p], s.ok, lambda S, T, r: keep("delay")(S, T, r) + [("delay.spins-within-the-bound", And([ULE(i[BV_(0, 64)], ZeroExt(32, S.f("backoff", s.b))) for i in s.iterations(T)])), ("delay.never-shrinks-below", UGE(T.f("backoff", s.b), S.f("backoff", s.b)))], named=[s.b])
        s.fn(e, "synchBackoffReduce", [p], s.ok, lambda S, T, r: keep("reduce")(S, T, r) + [("reduce.not-larger", ULE(T.f("backoff", s.b), S.f("backoff", s.b)))], named=[s.b])
        s.fn(e, "synchBackoffIncrease", [p], s.ok, lambda S, T, r: keep("increase")(S, T, r) + [("increase.not-smaller", UGE(T.f("backoff", s.b), S.f("backoff", s.b)))], named=[s.b])
    def iter_cands(s, e, S):
        out = []
        for k in S.priv:
            if k[0].startswith("#iterations"): out.append(("iterations<=backoff", lambda p, X, k=k: ULE(X.priv[k][BV_(0, 64)], ZeroExt(32, X.f("backoff", s.b)))))
        for k in S.priv:
            if not k[0].startswith("#it") and k[2] == 4: out.append(("%s<=backoff" % k[0], lambda p, X, k=k: ULE(X.priv[k][z3.Const("A_" + k[0], z3.BitVecSort(64))], X.f("backoff", s.b))))
        return out


class Random(Seq):
    """the multiply-with-carry words stay within the cycle reached from the seeds (never at a fixed point), every draw changes the state, draws lie in their documented range"""
    src = "libconcurrent/primitives/fastrand.c"
    N, Z, W = [("tls.__fast_random_next" + x, 0, n) for x, n in (("", 8), ("_z", 4), ("_w", 4))]
    def addr(s, k): return z3.Const("TLS_" + k[0][4:], z3.BitVecSort(64))
    def v(s, e, S, k):
        if k not in S.priv: e.priv_init(S, k)
        return S.priv[k][s.addr(k)]
    def ok(s, e, S):
        z, w = s.v(e, S, s.Z), s.v(e, S, s.W)
        return And(z != 0, z != 0x9068ffff, w != 0, w != 0x464fffff, ULE(w, 0x80000000))
    def contract(s, name): return None
    def run(s, e):
        def start(): 
            S = State(s, None, "env")
            for k in (s.N, s.Z, s.W): s.v(e, S, k)
            return S
        seed = z3.BitVec("seed", 32)
        for k in (s.N, s.Z, s.W):
            if "i%d " % (8 * k[2]) not in e.mod.globals.get(k[0][4:], ""): raise Unsupported("the generator's state is not held in %s any more" % k[0][4:])
        S = start()
        s.fn(e, "synchFastRandomSetSeed", [seed], lambda S: z3.BoolVal(True), lambda S, T, r: [("seed.generator-not-stuck", s.ok(e, T))], S)
        S = start()
        s.fn(e, "synchFastRandom32", [], lambda S: s.ok(e, S), lambda S, T, r: [("draw32.generator-not-stuck", s.ok(e, T)), ("draw32.state-moves", And(s.v(e, S, s.Z) != s.v(e, T, s.Z), s.v(e, S, s.W) != s.v(e, T, s.W)))], S)
        S = start()
        s.fn(e, "synchFastRandom", [], lambda S: z3.BoolVal(True), lambda S, T, r: [("draw.range", And(r >= 0, r <= 32767)), ("draw.state-moves", s.v(e, S, s.N) != s.v(e, T, s.N))], S)
        # initial words of a thread (the C initialisers)
        e.fname = "initial-state"; e.trace = []
        x = {k: int(e.mod.globals[k[0][4:]].split("i32 ")[1].split(",")[0]) % 2 ** 32 for k in (s.Z, s.W)}
        e.prove([("generator-not-stuck", And(*[And(BV_(x[k], 32) != 0, BV_(x[k], 32) != bad) for k, bad in ((s.Z, 0x9068ffff), (s.W, 0x464fffff))], ULE(BV_(x[s.W], 32), 0x80000000)))])


class RandomRange(Seq):
    """results of the range functions lie between low and high (doubles as reals with monotone rounding); the draws are used through their contracts"""
    src = "libconcurrent/primitives/fastrand.c"
    intmode = True
    def contract(s, name):
        def d32(e, S, a, k):
            r = fresh("draw32", z3.IntSort()); e.add(And(r >= -2 ** 31, r < 2 ** 31)); k(S, r)
        def d(e, S, a, k):
            r = fresh("draw", z3.IntSort()); e.add(And(r >= 0, r <= 32767)); k(S, r)
        return {"synchFastRandom32": d32, "synchFastRandom": d}.get(name)
    def run(s, e):
        lo, hi = z3.Ints("low high"); s.witness = [lo == 0, hi == 0]
        u = lambda x: If(x < 0, x + 2 ** 32, x)
        s.fn(e, "synchFastRandomRange32", [lo, hi], lambda S: And(lo >= -2 ** 31, lo < 2 ** 31, hi >= -2 ** 31, hi < 2 ** 31, u(lo) <= u(hi)), lambda S, T, r: [("range32.at-least-low", u(lo) <= u(r)), ("range32.at-most-high", u(r) <= u(hi))])
        s.fn(e, "synchFastRandomRange", [lo, hi], lambda S: And(lo >= -2 ** 52, hi <= 2 ** 52, lo <= hi), lambda S, T, r: [("range.at-least-low", lo <= r), ("range.at-most-high", r <= hi)])


class TVec(Seq):
    """for an arbitrary word J of the vectors: each operation stores exactly the bitwise function of its operands, keeps every other word, and writes only inside its vector"""
    src = "libconcurrent/includes/tvec.h"
    FN = "TVEC_GET_BANK_OF_BIT TVEC_ATOMIC_COPY_BANKS TVEC_ATOMIC_ADD_BANK TVEC_NEGATIVE_BANK TVEC_XOR_BANKS TVEC_AND_BANKS TVEC_INIT TVEC_INIT_AT TVEC_SET_ZERO TVEC_COPY TVEC_NEGATIVE TVEC_REVERSE_BIT TVEC_SET_BIT TVEC_IS_SET TVEC_OR TVEC_AND TVEC_XOR TVEC_COUNT_BITS".split()
    text = "#include <tvec.h>\nvoid *tvec_functions[] = { %s };\n" % ", ".join("(void *)" + f for f in FN)
    structs = [("", "tvec.h", "ToggleVector", ["nthreads", "tvec_cells", "cell"])]
    W = (0, 8)
    def __init__(s):
        super().__init__()
        s.keys = set(s.fields.values()) | {s.W}
        s.v = [z3.BitVec("tv%d" % i, 64) for i in range(3)]; s.c = [z3.BitVec("cell%d" % i, 64) for i in range(3)]
        s.n = z3.BitVec("nthreads", 32); s.J = z3.BitVec("J", 64); s.N = z3.BitVec("cells", 64)
        s.done = None
    # words of the vectors: ELEM is injective, which is the assumption that two vectors share all or none of their words
    ELEM = z3.Function("word_address", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    VEC_OF = z3.Function("vector_of", z3.BitVecSort(64), z3.BitVecSort(64))
    IDX_OF = z3.Function("index_of", z3.BitVecSort(64), z3.BitVecSort(64))
    def word(s, e, c, i):
        a = s.ELEM(c, i); e.add(And(s.VEC_OF(a) == c, s.IDX_OF(a) == i)); return a
    def elem(s, e, base, off, i, sz):
        if sz != 8 or off: return None
        e.prove([("access-inside-the-vector", And(Or(*[base == c for c in s.c]), ULT(i, s.N)))])
        return s.word(e, base, i)
    def at(s, S, k): return S.M(s.W)[s.ELEM(s.c[k], s.J)]
    def pre(s, S, used):
        """vectors of the same length whose cell arrays are equal or disjoint, and which do not wrap around the address space"""
        f = [s.N == ZeroExt(32, LShR(s.n, 6)) + 1, ULT(s.J, s.N), ULE(s.n, 2 ** 30), ULE(1, s.n)]
        for k in used:
            f += [S.f("nthreads", s.v[k]) == s.n, ZeroExt(32, S.f("tvec_cells", s.v[k])) == s.N, S.f("cell", s.v[k]) == s.c[k]]
            for j in used:
                if j < k: f += [Or(s.v[j] != s.v[k], s.c[j] == s.c[k])]
        return And(*f)
    def access_check(s, e, S, base, key, rw):
        if key == s.W and base.get_id() not in [v.get_id() for v in s.v]:
            e.prove([("access-inside-the-vector", Or(*[base == s.ELEM(c, s.IDX_OF(base)) for c in s.c]))])
        elif rw != "r": e.prove([("header-written-only-by-init", z3.BoolVal(s.initialising))])
    initialising = False
    def loop_cands(s, e, S, fr, phis):
        if s.done is None and s.cnt is None: return []
        out = []
        U = lambda x: x if x.size() == 64 else z3.SignExt(64 - x.size(), x)
        for n, ty, v in phis:
            if isinstance(v, Ptr) or z3.is_bool(v): continue
            for nm, c in (("<", lambda i: s.J < U(i)), (">=", lambda i: s.J >= U(i)), ("<=", lambda i: s.J <= U(i)), (">", lambda i: s.J > U(i))):
                for k in range(3): out.append(("J%s%s->kept%d" % (nm, n, k), lambda p, X, c=c, k=k, n=n: Implies(c(p[n]), s.at(X, k) == s.at(s.S0, k))))
                if s.done: out.append(("J%s%s->done" % (nm, n), lambda p, X, c=c, n=n: Implies(c(p[n]), s.done(X))))
            out.append(("%s<=cells" % n, lambda p, X, n=n: And(p[n] >= 0, U(p[n]) <= s.N)))
            out.append(("%s<cells" % n, lambda p, X, n=n: And(p[n] >= -1, U(p[n]) < s.N)))
            if s.cnt is not None: out.append(("count(%s)" % n, lambda p, X, n=n: And([Or(*[p[m] == z3.Extract(v2.size() - 1, 0, s.CNT(U(p[n]))) for m, t2, v2 in phis if m != n and not isinstance(v2, Ptr)] + [z3.BoolVal(False)])])))
            if s.cnt is not None: out.append(("count-down(%s)" % n, lambda p, X, n=n: And([Or(*[p[m] == z3.Extract(v2.size() - 1, 0, s.CNT(s.N) - s.CNT(U(p[n]) + 1)) for m, t2, v2 in phis if m != n and not isinstance(v2, Ptr)] + [z3.BoolVal(False)])])))
        for k in range(3):
            for j in range(3):
                if j != k: out.append(("kept%d unless aliased %d" % (k, j), lambda p, X, k=k, j=j: Or(s.c[k] == s.c[j], s.at(X, k) == s.at(s.S0, k))))
        return out
    cnt = None
    CNT = z3.Function("bits_before", z3.BitVecSort(64), z3.BitVecSort(64))
    def loop_terms(s, e, S, heads):
        if s.cnt is None: return
        for h in heads.values():
            if z3.is_bv(h):
                i = z3.SignExt(64 - h.size(), h) if h.size() < 64 else h
                e.add(s.CNT(i + 1) == s.CNT(i) + s.popcount(s.S0.M(s.W)[s.ELEM(s.c[0], i)]))
    @staticmethod
    def popcount(x):
        return z3.Function("popcount", z3.BitVecSort(64), z3.BitVecSort(64))(x)
    def extern(s, e, S, name, args, rty, k):
        if name.startswith("llvm.memcpy") or name == "memcpy":
            d, sr, n = args[0].addr(), args[1].addr(), args[2]
            e.prove([("copy-destination-is-the-vector", Or(*[And(d == s.c[i], ULE(n, 8 * s.N)) for i in range(3)])), ("copy-source-is-a-vector", Or(*[And(sr == s.c[i], ULE(n, 8 * s.N)) for i in range(3)]))])
            m = S.M(s.W); S2 = S.child()
            S2.mem[s.W] = m.store(s.ELEM(d, s.J), If(ULE(8 * s.J + 8, n), m[s.ELEM(sr, s.J)], m[s.ELEM(d, s.J)])); k(S2, None); return True
        if name == "synchGetMemory": e.prove([("allocation-covers-the-vector", UGE(args[0], 8 * s.N))]); k(S, Ptr(s.c[0])); return True
        if name.startswith("llvm.ctpop"): k(S, s.popcount(args[0])); return True
        if name in ("synchNonZeroBits", "__builtin_popcountll"): k(S, s.popcount(args[0])); return True
        return False
    def op(s, e, name, args, used, done, post=None, extra=True, named=()):
        s.S0 = S = State(s, None, "env")
        s.done = (lambda X: done(s.S0, X)) if done else None
        pts = [s.ELEM(s.c[k], s.J) for k in range(3)]
        w = [k for k in used]
        def ens(S, T, r):
            g = []
            if done: g.append((name + ".result", done(S, T)))
            for k in used:
                if done and k == 0: continue
                g.append((name + ".operand%d-unchanged" % k, Or(s.at(T, k) == s.at(S, k), s.c[k] == s.c[0] if done else False)))
            return g + (post(S, T, r) if post else [])
        s.fn(e, name, args, lambda S: And(s.pre(S, used), extra) if extra is not True else s.pre(S, used), ens, S, named=[s.v[k] for k in used] + pts)
    def run(s, e):
        P = [Ptr(v) for v in s.v]
        A = s.at
        for c in s.c: s.word(e, c, s.J)
        z = BV_(0, 64)
        bit, bank = z3.BitVecs("bit bank", 32)
        n = s.n
        Bk = z3.SignExt(32, bank); inb = And(bank >= 0, Bk < s.N)
        b64 = z3.SignExt(32, bit); inbit = And(bit >= 0, ULT(bit, n)); mask = If(s.J == LShR(b64, 6), BV_(1, 64) << (b64 & 63), z)
        # initialisation
        s.initialising = True
        for name, args in (("TVEC_INIT", [P[0], n]), ("TVEC_INIT_AT", [P[0], n, Ptr(s.c[0])])):
            s.S0 = S = State(s, None, "env"); s.done = lambda X: A(X, 0) == 0
            s.fn(e, name, args, lambda S: And(ULE(n, 2 ** 30), ULE(1, n), s.N == ZeroExt(32, LShR(n, 6)) + 1, ULT(s.J, s.N)),
                 lambda S, T, r, name=name: [(name + ".all-bits-zero", A(T, 0) == 0), (name + ".length", And(T.f("nthreads", s.v[0]) == n, ZeroExt(32, T.f("tvec_cells", s.v[0])) == s.N, T.f("cell", s.v[0]) == s.c[0])), (name + ".a-bit-per-thread", UGE(s.N * 64, ZeroExt(32, n)))], S, named=[s.v[0], s.ELEM(s.c[0], s.J)])
        s.initialising = False
        s.op(e, "TVEC_SET_ZERO", [P[0]], [0], lambda S, T: A(T, 0) == 0)
        s.op(e, "TVEC_COPY", [P[0], P[1]], [0, 1], lambda S, T: A(T, 0) == A(S, 1))
        s.op(e, "TVEC_NEGATIVE", [P[0], P[1]], [0, 1], lambda S, T: A(T, 0) == -A(S, 1))
        for nm, f in (("OR", lambda a, b: a | b), ("AND", lambda a, b: a & b), ("XOR", lambda a, b: a ^ b)):
            s.op(e, "TVEC_" + nm, P, [0, 1, 2], lambda S, T, f=f: A(T, 0) == f(A(S, 1), A(S, 2)))
        for nm, f in (("XOR", lambda a, b: a ^ b), ("AND", lambda a, b: a & b)):
            s.op(e, "TVEC_%s_BANKS" % nm, P + [bank], [0, 1, 2], lambda S, T, f=f: A(T, 0) == If(s.J == Bk, f(A(S, 1), A(S, 2)), A(S, 0)), extra=inb)
        s.op(e, "TVEC_NEGATIVE_BANK", P[:2] + [bank], [0, 1], lambda S, T: A(T, 0) == If(s.J == Bk, -A(S, 1), A(S, 0)), extra=inb)
        s.op(e, "TVEC_ATOMIC_COPY_BANKS", P[:2] + [bank], [0, 1], lambda S, T: A(T, 0) == If(s.J == Bk, A(S, 1), A(S, 0)), extra=inb)
        k = z3.BitVec("toggle_bit", 64); one = BV_(1, 64)
        tog = lambda S: Or(And(A(S, 1) == one << k, LShR(A(S, 0), k) & 1 == 0), And(A(S, 1) == -(one << k), LShR(A(S, 0), k) & 1 == 1))
        s.op(e, "TVEC_ATOMIC_ADD_BANK", P[:2] + [bank], [0, 1], lambda S, T: A(T, 0) == If(s.J == Bk, A(S, 0) + A(S, 1), A(S, 0)),
             lambda S, T, r: [("TVEC_ATOMIC_ADD_BANK.a-toggle-changes-only-its-own-bit", Implies(And(ULT(k, 64), s.J == Bk, tog(S)), A(S, 0) ^ A(T, 0) == one << k))], extra=inb)
        s.op(e, "TVEC_REVERSE_BIT", [P[0], bit], [0], lambda S, T: A(T, 0) == A(S, 0) ^ mask, extra=inbit)
        s.op(e, "TVEC_SET_BIT", [P[0], bit], [0], lambda S, T: A(T, 0) == A(S, 0) | mask, extra=inbit)
        s.op(e, "TVEC_IS_SET", [P[0], bit], [0], None, lambda S, T, r: [("TVEC_IS_SET.result", Implies(s.J == LShR(b64, 6), s.truth(r) == (LShR(A(S, 0), b64 & 63) & 1 == 1)))], extra=inbit)
        s.fn(e, "TVEC_GET_BANK_OF_BIT", [bit, n], lambda S: And(inbit, ULE(n, 2 ** 30)), lambda S, T, r: [("TVEC_GET_BANK_OF_BIT.result", r == LShR(bit, 6))])
        s.cnt = True
        s.op(e, "TVEC_COUNT_BITS", [P[0]], [0], None, lambda S, T, r: [("TVEC_COUNT_BITS.result", r == z3.Extract(31, 0, s.CNT(s.N)))], extra=s.CNT(z) == 0)
    def truth(s, r): return r if z3.is_bool(r) else r & 1 == 1


class Raw(Clause):
    __slots__ = ()
    def inst(s, *t): return s.fn(*t)        # products are normalised when the instance is built


class Placement(Seq):
    """for every policy, number of cores and nodes: the core and the node exist; on a regular topology (cores = nodes * size, an even size with SMT siblings in the
    second half) the node is the core's own and two threads numbered below the number of cores never share a core"""
    src = "libconcurrent/primitives/threadtools.c"
    intmode = True
    wrap = True
    simple_solver = True
    numa = True
    def __init__(s):
        super().__init__()
        s.ncpus, s.nodes = z3.Ints("cores nodes"); s.globs = {}; s.divs = {}
    def global_ptr(s, e, name): return Ptr(z3.IntVal(4096 * (1 + s.globs.setdefault(name, len(s.globs)))))
    def glob(s, e, S, name, size=4):
        if name not in e.mod.globals: raise Unsupported("%s is gone" % name)
        k = (0, size); s.keys.add(k); return S.M(k)[s.global_ptr(e, name).base]
    PROD = z3.Function("product", z3.IntSort(), z3.IntSort(), z3.IntSort())
    def prod(s, a, b):
        """product as an opaque term (commutative, constants factored out): only the lemmas below are used about it"""
        a, b = z3.simplify(a), z3.simplify(b); c = 1; fs = []
        for x in (a, b):
            while z3.is_mul(x) and len(x.children()) == 2 and z3.is_int_value(x.children()[0]): c *= x.children()[0].as_long(); x = x.children()[1]
            if z3.is_int_value(x): c *= x.as_long()
            else: fs.append(x)
        if len(fs) == 2: return c * s.PROD(*sorted(fs, key=lambda t: t.sexpr()))
        return c * fs[0] if fs else z3.IntVal(c)
    def fact(s, e, x): e.add_term(IDX, x)      # terms that occur as factors
    def mult(s, e, m): e.add_term(TID, m)
    def lem(s, x, y, m):
        """ordered ring: multiplication is monotone"""
        xm, ym = s.prod(x, m), s.prod(y, m)
        return And(Implies(m >= 0, And(Implies(x <= y, xm <= ym), Implies(x < y, xm + m <= ym), Implies(x <= 2 * y, xm <= 2 * ym), Implies(2 * x <= y, 2 * xm <= ym))))
    def lem1(s, x, m): return And(Implies(x == 0, s.prod(x, m) == 0), Implies(x == 1, s.prod(x, m) == m))
    def resolved(s, e, x):
        """a conditional expression whose condition is settled on this path is the branch taken: the lemmas about products then speak about fewer terms"""
        x = z3.simplify(x)
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            if e.check(z3.Not(x.arg(0))) == z3.unsat: x = z3.simplify(x.arg(1))
            elif e.check(x.arg(0)) == z3.unsat: x = z3.simplify(x.arg(2))
            else: break
        return x
    def arith(s, e, op, w, a, b):
        con = lambda x: z3.is_int_value(z3.simplify(x))
        def U(x):
            """x read as unsigned: itself when it cannot be negative"""
            if con(x): return x
            r = e.check(x < 0)
            if r == z3.unknown: r = e.second_opinion(x < 0)
            if r == z3.unknown: e.gaveup.append("%s line %s: is an operand negative? (too slow)" % (e.fname, e.line))
            return s.resolved(e, x if r == z3.unsat else e.uns(x, w))
        if op == "mul" and not con(a) and not con(b):
            a, b = z3.simplify(U(a)), z3.simplify(U(b))
            for x, y in ((a, b), (b, a)): s.fact(e, x); s.mult(e, y)
            e.prove([("no-overflow", And(a >= 0, b >= 0, s.prod(a, b) < 2 ** 31))])
            return s.prod(a, b)
        if op in ("udiv", "urem") and not con(b):
            a, b = z3.simplify(U(a)), z3.simplify(U(b))
            e.prove([("division-by-zero", b != 0)])
            k = (a.get_id(), b.get_id())
            if k not in s.divs:
                q, r = fresh("quot", z3.IntSort()), fresh("rem", z3.IntSort()); s.divs[k] = (q, r, a, b)
            q, r = s.divs[k][:2]
            e.add(And(q >= 0, r >= 0, r < b, s.prod(q, b) + r == a, q <= a))
            s.fact(e, q); s.fact(e, r); s.fact(e, b); s.mult(e, b); s.mult(e, q)
            return q if op == "udiv" else r
    core = None
    def contract(s, name):
        if name == "synchPreferredCoreOfThread":
            def chosen(e, S, a, k):     # through its contract, which is verified on its own
                if s.core is None: s.core = fresh("core", z3.IntSort())      # (a function of the thread and the topology)
                e.prove([("asks-for-its-own-core", a[0] == s.pid)]); e.add(And(s.core >= 0, s.core < s.ncpus)); k(S, s.core)
            return chosen
    def extern(s, e, S, name, args, rty, k):
        if name == "sysconf": k(S, s.ncpus); return True
        if name in ("numa_num_task_nodes", "numa_num_configured_nodes"): k(S, s.nodes); return True
        if name == "numa_node_of_cpu": k(S, s.NODE(args[0])); return True
        return False
    NODE = z3.Function("node_of_cpu", z3.IntSort(), z3.IntSort())
    def start(s, e):
        e.add_schema(Raw("monotone", [IDX, IDX, TID], s.lem)); e.add_schema(Raw("unit", [IDX, TID], s.lem1))
        S = State(s, None, "env"); n, N = s.ncpus, s.nodes; s.core = None
        e.add(And(n >= 1, n <= 2 ** 20, N >= 1, N <= 2 ** 20))
        nc = s.glob(e, S, "__ncores"); e.add(Or(nc == 0, nc == n)); pol = s.glob(e, S, "__schedule_policy"); e.add(And(pol >= -2 ** 31, pol < 2 ** 31))
        for x in (z3.IntVal(1), N, n): s.fact(e, x)
        return S
    def regular(s, e):
        """cores = nodes * size; with SMT the size is even"""
        n, N = s.ncpus, s.nodes; h = z3.Int("half"); size = z3.Int("size"); smt = s.NODE(z3.IntVal(0)) == s.NODE(n / 2)
        e.add(And(size >= 1, n == s.prod(size, N))); s.fact(e, size); s.mult(e, N); s.mult(e, size); s.fact(e, h); s.mult(e, h); s.mult(e, 2 * N)
        return size, h, smt
    def run(s, e):
        p, q = z3.Ints("thread other_thread"); s.pid = p; pid = lambda x: And(x >= -2 ** 31, x < 2 ** 31)
        with e.scope():
            S = s.start(e); e.add(pid(p))
            e.verify("synchPreferredCoreOfThread", [p], S, lambda T, r: e.prove([("core-exists", And(r >= 0, r < s.ncpus))]))
        with e.scope():
            S = s.start(e); e.add(pid(p))
            e.verify("synchPreferredNumaNodeOfThread", [p], S, lambda T, r: e.prove([("node-exists", And(r >= 0, r < s.nodes))]))
        for isSmt in (False, True):
            with e.scope():
                S = s.start(e); size, h, smt = s.regular(e); e.add(And(p >= 0, q >= 0, p < s.ncpus, q < s.ncpus, p != q)); e.add(smt == isSmt)
                if isSmt: e.add(And(size == 2 * h, h >= 1))
                def post(T, r):
                    e.prove([("core-exists", And(r >= 0, r < s.ncpus))])
                    e.call(e.mod.func("synchPreferredCoreOfThread"), [q], T, lambda T2, r2: e.prove([("two-threads-share-no-core", r != r2)]), 0)
                e.verify("synchPreferredCoreOfThread", [p], S, post)
            with e.scope():
                S = s.start(e); size, h, smt = s.regular(e); e.add(And(p >= 0, p < s.ncpus, smt == isSmt))
                if isSmt: e.add(And(size == 2 * h, h >= 1))
                def post(T, node):
                    c, m = (If(s.core < s.ncpus / 2, s.core, s.core - s.ncpus / 2), h) if isSmt else (s.core, size)
                    node, c, m = [s.resolved(e, x) for x in (node, c, m)]
                    s.fact(e, node); s.mult(e, m)
                    e.prove([("node-is-the-core's-own", And(s.prod(node, m) <= c, c < s.prod(node, m) + m))])
                if s.numa: e.verify("synchPreferredNumaNodeOfThread", [p], S, post)


class PlacementNoNuma(Placement):
    text = "#include <config.h>\n#undef SYNCH_NUMA_SUPPORT\n#include \"@REPO@/libconcurrent/primitives/threadtools.c\"\n"
    numa = False


class Memory(Seq):
    """for every size, every power-of-two alignment and every answer of the system: aligned, wholly inside the allocation, never null, and the address to give back"""
    src = "libconcurrent/primitives/primitives.c"
    numa = True
    def extern(s, e, S, name, args, rty, k):
        if name in ("numa_alloc_local", "numa_alloc", "malloc", "memalign", "aligned_alloc"):
            p = z3.BitVec("allocated!%d" % len(s.calls), 64); al = name in ("memalign", "aligned_alloc"); n = args[1] if al else args[0]
            if al: e.prove([("alignment-is-a-power-of-two", And(args[0] != 0, args[0] & (args[0] - 1) == 0))]); e.add(p & (args[0] - 1) == 0)
            e.add(Implies(p != 0, ULE(p, p + n))); e.add(And(ULT(n, BV_(2 ** 62, 64)), ULT(p, BV_(2 ** 62, 64))))
            s.calls.append((name, p, n)); k(S, Ptr(p)); s.calls.pop(); return True
        if name in ("exit", "abort", "_exit"): 
            e.prove([("stops-with-an-error", args[0] != 0)] if args else [])
            s.stops = True; return True
        if name in ("numa_free", "free"):
            s.calls.append((name, args[0].addr(), args[1] if len(args) > 1 else None)); k(S, None); s.calls.pop(); return True
        return False
    def only(s, e):
        """exactly one system call on this path"""
        if len(s.calls) != 1: e.prove([("one-allocation", z3.BoolVal(False))]); return None
        e.prove([("released-by-the-matching-function", z3.BoolVal(s.calls[0][0].startswith("numa") == s.numa))])
        return s.calls[0]
    def run(s, e):
        size, al, ptr = z3.BitVecs("size align ptr", 64); s.calls = []
        small = And(ULT(size, BV_(2 ** 60, 64)), ULT(al, BV_(2 ** 60, 64)))
        with e.scope():
            e.add(small); S = State(s, None, "env")
            def post(T, r):
                c = s.only(e); r = r.addr()
                if c: e.prove([("never-null", r != 0), ("the-allocated-address", r == c[1]), ("allocation-covers-the-size", UGE(c[2], size))])
            e.verify("synchGetMemory", [size], S, post)
        with e.scope():
            e.add(And(small, al != 0, al & (al - 1) == 0)); S = State(s, None, "env")
            def post(T, r):
                c = s.only(e); r = r.addr()
                if c: e.prove([("never-null", r != 0), ("aligned", r & (al - 1) == 0), ("inside-the-allocation", And(ULE(c[1], r), ULE(r + size, c[1] + c[2]), ULE(r, r + size))),
                               ("gives-back-what-was-allocated", Implies(And(ULE(al, 4096), c[1] & 4095 == 0) if c[0].startswith("numa") else z3.BoolVal(True), r == c[1]))])
            e.verify("synchGetAlignedMemory", [al, size], S, post)
        with e.scope():
            S = State(s, None, "env")
            def post(T, r):
                if len(s.calls) != 1 or s.calls[0][0] != ("numa_free" if s.numa else "free"): e.prove([("frees-once-with-the-matching-function", z3.BoolVal(False))]); return
                e.prove([("frees-the-address", s.calls[0][1] == ptr)] + ([("frees-the-size", s.calls[0][2] == size)] if s.numa else []))
            e.verify("synchFreeMemory", [Ptr(ptr), size], S, post)


class MemoryNoNuma(Memory):
    text = "#include <config.h>\n#undef SYNCH_NUMA_SUPPORT\n#include \"@REPO@/libconcurrent/primitives/primitives.c\"\n"
    numa = False
