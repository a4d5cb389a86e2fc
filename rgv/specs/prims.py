"""Contracts of the atomic primitives (bit-precise), under arbitrary interference of other threads with the location."""
import z3
from z3 import And, Or, Not, Implies, If, BitVecVal as BV_
from engine import *
W = z3.BitVecSort(64)


class Prims(Spec):
    """ghost, per call: n changes made to the location, before/after: its value around my change, seen: a value it had during the call.
    Native configuration."""
    src = "libconcurrent/primitives/primitives.c"
    intmode = False
    inline_only = ("_CASPTR", "_CAS64", "_CAS32", "_CAS128", "_SWAP", "_FAA32", "_FAA64", "_BitTAS64", "__BitTAS64")
    ghosts, ghost_dom = ghosts(word=W, n="t:i", before="t:w", after="t:w", before1="t:w", after1="t:w", seen="t:w", seen1="t:w")
    names = "_CASPTR _CAS64 _CAS32 _CAS128 _SWAP _FAA32 _FAA64 _BitTAS64".split()
    def __init__(s):
        super().__init__()
        s.keys = {(0, 8), (8, 8), (0, 4)}; s.A = z3.BitVec("A", 64); s.tid = z3.Int("me"); s.k32 = False
    def named_objs(s, S): return [("A", s.A)]
    def rely(s, X, Y, u): return [Clause("ghosts", [], lambda: And(*[Y[g][u] == X[g][u] for g in s.ghosts]))]
    def w(s, v): return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
    def on_write(s, e, S, S2, writes, rmw):
        for base, key, old, v in writes: e.prove([("changes-only-the-location", base == s.A), ("whole-location-at-once", z3.BoolVal((key == (0, 4)) == s.k32)), ("atomically", z3.BoolVal(rmw))])
        g = dict(n=s.G(S, "n") + 1, before=s.w(writes[0][2]), after=s.w(writes[0][3]))
        if len(writes) > 1: g.update(before1=s.w(writes[1][2]), after1=s.w(writes[1][3]))
        return s.mine(S, **g)
    def G(s, S, g): return S[g][s.tid]
    def mine(s, S, **kw): return {g: S[g].store(s.tid, v) for g, v in kw.items()}
    def on_read(s, e, S, base, key, v): return s.mine(S, seen=s.w(v)) if base.eq(s.A) and z3.is_bv(v) else None
    def access_check(s, e, S, base, key, rw): e.prove([("access-to-the-location-only", base == s.A)])
    def preds(s, e, S): return [("no-change-yet", lambda X: s.G(X, "n") == 0)]
    def asm_k(s, e, S, txt, cons, args, k):
        """lock cmpxchg16b m: if rdx:rax = m then m := rcx:rbx, ZF := 1 else rdx:rax := m, ZF := 0; setz r stores ZF"""
        t = txt.strip('"').replace(" ", "").replace("\\09", "").replace("\\0A", ";").replace(";;", ";")
        if "cmpxchg16b" not in t: return False
        cs = cons.strip('"').split(","); outs = [c for c in cs if c.startswith("=")]; ins = [c for c in cs if not c.startswith(("=", "~"))]
        direct = [c for c in outs if not c.startswith("=*")]
        import re
        m = re.fullmatch(r"lock;cmpxchg16b\$(\d+);setz\$(\d+)", t)
        if not m or cs[int(m.group(1))] != "=*m": raise Unsupported("inline asm " + txt)
        # operands: indirect outputs take their pointer from the arguments, in order with the inputs
        ops = [c for c in outs if c.startswith("=*")] + ins
        if len(ops) != len(args): raise Unsupported("inline asm operands")
        reg = {c: a for c, a in zip(ops, args) if c.startswith("{")}; p = args[0]
        if not all("{%s}" % r in reg for r in ("ax", "bx", "cx", "dx")): raise Unsupported("inline asm operands")
        zf = int(m.group(2)); zr = cs[zf]
        for c in direct:
            if c not in ("={dx}", "={ax}"): raise Unsupported("inline asm outputs")
        def done(S2, ok):
            vals = []
            for j, c in enumerate(direct):
                wd = 8 if cs.index(c) == zf else 64
                vals.append(BV_(1 if ok else 0, 8) if cs.index(c) == zf else fresh("clobber", W))
            r = Agg(vals) if len(vals) > 1 else vals[0]
            S3 = S2
            if not ok:
                S3 = S2.child(); S3.gh.update(s.mine(S2, seen=S2.M((0, 8))[s.A], seen1=S2.M((8, 8))[s.A]))
            k(S3, r)
        e.cas128(S, p, reg["{ax}"], reg["{dx}"], reg["{bx}"], reg["{cx}"], done)
        return True
    def go(s, e, name, args, width, post):
        with e.scope():
            S = State(s, None, "env"); s.k32 = width == 4; e.add_term(OBJ, s.A)
            e.add_term(TID, s.tid); e.add(And(s.A != 0, s.tid > 0, s.G(S, "n") == 0))
            e.verify(name, args, S, lambda T, r: e.prove([(name + "." + n, g) for n, g in post(T, r.addr() if isinstance(r, Ptr) else r)]))
    def run(s, e):
        P = Ptr(s.A); b64, c64, d64, f64 = z3.BitVecs("B C B1 C1", 64); b32, c32 = z3.BitVecs("B C", 32); bit = z3.BitVec("bit", 8)
        tr = lambda r: r if z3.is_bool(r) else r != 0
        def casp(B, C, two=None):
            def post(T, r):
                hit = And(s.G(T, "before") == s.w(B), s.G(T, "after") == s.w(C)); miss = s.G(T, "seen") != s.w(B)
                if two: hit = And(hit, s.G(T, "before1") == two[0], s.G(T, "after1") == two[1]); miss = Or(miss, s.G(T, "seen1") != two[0])
                return [("success-means-one-change-from-expected-to-new", Implies(tr(r), And(s.G(T, "n") == 1, hit))), ("failure-means-no-change-and-another-value-seen", Implies(Not(tr(r)), And(s.G(T, "n") == 0, miss)))]
            return post
        def once(new):
            def post(T, r): return [("changes-the-location-once", s.G(T, "n") == 1), ("returns-the-value-just-before", s.w(r) == s.G(T, "before")), ("new-value", s.G(T, "after") == new(T))]
            return post
        lo = lambda x: z3.Extract(31, 0, x)
        s.go(e, "_CASPTR", [P, Ptr(b64), Ptr(c64)], 8, casp(b64, c64))
        s.go(e, "_CAS64", [P, b64, c64], 8, casp(b64, c64))
        s.go(e, "_CAS32", [P, b32, c32], 4, casp(b32, c32))
        s.go(e, "_CAS128", [P, b64, d64, c64, f64], 8, casp(b64, c64, (d64, f64)))
        s.go(e, "_SWAP", [P, Ptr(b64)], 8, once(lambda T: b64))
        s.go(e, "_FAA32", [P, b32], 4, once(lambda T: s.w(lo(s.G(T, "before")) + b32)))
        s.go(e, "_FAA64", [P, b64], 8, once(lambda T: s.G(T, "before") + b64))
        with e.scope():
            e.add(z3.ULT(bit, 64))
            s.go(e, "_BitTAS64", [P, bit], 8, once(lambda T: s.G(T, "before") | (BV_(1, 64) << z3.ZeroExt(56, bit))))


class PrimsEmulated(Prims):
    """fetch-and-add and swap emulated by compare-and-swap (-DSYNCH_EMULATE_FAA -DSYNCH_EMULATE_SWAP); the compare-and-swap is used through its contract"""
    flags = ("-DSYNCH_EMULATE_FAA", "-DSYNCH_EMULATE_SWAP")
    inline_only = ("_SWAP", "_FAA32", "_FAA64")


class PrimsDebug(Prims):
    """the build with operation counters (-DDEBUG)"""
    flags = ("-DDEBUG",)
    def global_ptr(s, e, name): return Ptr(z3.BitVec("@" + name, 64), 0, "global." + name) if name.startswith("__") else None
