"""rgv: a contract-based, thread-modular (rely/guarantee) verification-condition generator for the real code.

Input: the LLVM IR of /repo's current source (ir.py) and a contract module (specs/*.py) that gives
  * ghost state, a global invariant (quantified clauses over objects / threads / indices),
  * a rely relation R(S,S',u): what every other thread may do between two steps of thread u,
  * ghost updates attached to *events* (atomic accesses of a field, calls of the client's serial function),
  * pre- and postconditions of the API functions.
For every shared access the engine generates: one environment step (arbitrary number of steps of any number of other
threads, abstracted by the rely), the access itself, and the obligations "the invariant still holds for every object"
and "what this thread did is within the rely of every other thread".  Loops are cut at their headers; loop invariants
are inferred (Houdini) from generic templates over the SSA values, the ghost state and the contract's predicates, and
are then proved inductive by the same queries.  No bound on threads, operations, iterations or list lengths.
Every quantified clause is instantiated explicitly (finite pools of terms); goals are skolemised; all queries are
quantifier free (z3; cvc5 may be used as second opinion).
"""
import time, itertools, sys, os, contextlib, re, pickle, tempfile, ctypes, traceback
import z3
import ir
from ir import Unsupported, TInt, TPtr, TVoid, TArr, TStruct, TFloat

sys.setrecursionlimit(20000)
z3.set_param("smt.arith.solver", 2)
BV = z3.BitVecSort
OBJ, TID, IDX = "obj", "tid", "idx"


def _fast_z3():
    """skip the error check of accessors that cannot fail (python-side cost only)"""
    import z3.z3core as zc, z3.z3 as zz
    for n in ("Z3_inc_ref", "Z3_dec_ref", "Z3_get_ast_id", "Z3_get_sort", "Z3_get_ast_kind", "Z3_is_eq_ast", "Z3_get_sort_kind", "Z3_get_app_decl", "Z3_get_decl_kind", "Z3_is_app"):
        f = getattr(zc, n, None)
        if f is None or not f.__defaults__: continue
        raw = f.__defaults__[-1].f
        setattr(zz, n, (lambda raw: lambda *a: raw(*a))(raw))


_fast_z3()


def bv(n, w=64): return z3.BitVecVal(n, w)


_fresh = itertools.count()
STATE_SYM = re.compile(r"@\d+!")


def fresh(name, sort): return z3.Const("%s!%d" % (name, next(_fresh)), sort)


class Ptr:
    __slots__ = ("base", "off", "priv", "alts")
    def __init__(s, base, off=0, priv=None): s.base, s.off, s.priv, s.alts = base, off, priv, None
    def addr(s): return s.base if s.off == 0 else z3.simplify(s.base + s.off)
    def __repr__(s): return "Ptr(%s,%d)" % (s.base, s.off)


class Arr:
    """total map as uninterpreted function + list of point updates (read-over-write is expanded eagerly)"""
    __slots__ = ("decl", "ups", "rng")
    def __init__(s, decl, ups=()): s.decl, s.ups = decl, ups
    @staticmethod
    def new(name, dom, rng): return Arr(z3.Function("%s!%d" % (name, next(_fresh)), dom, rng))
    def dom(s): return s.decl.domain(0)
    def range(s): return s.decl.range()
    def coerce(s, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v) if s.range() == z3.IntSort() else z3.BitVecVal(v, s.range().size())
        return v
    def __getitem__(s, o):
        if isinstance(o, int): o = z3.IntVal(o) if s.dom() == z3.IntSort() else z3.BitVecVal(o, s.dom().size())
        ups = s.ups
        r = None
        out = []
        for i, v in reversed(ups):
            if i.eq(o): r = v; break
            if z3.is_int_value(i) and z3.is_int_value(o): continue
            if z3.is_bv_value(i) and z3.is_bv_value(o): continue
            out.append((i, v))
        if r is None: r = s.decl(o)
        for i, v in reversed(out): r = z3.If(o == i, v, r)
        return r
    def store(s, i, v):
        v = s.coerce(v)
        if isinstance(i, int): i = z3.IntVal(i) if s.dom() == z3.IntSort() else z3.BitVecVal(i, s.dom().size())
        return Arr(s.decl, tuple(u for u in s.ups if not u[0].eq(i)) + ((i, v),))
    def same(s, o): return s.decl.eq(o.decl) and len(s.ups) == len(o.ups) and all(a.eq(c) and b.eq(d) for (a, b), (c, d) in zip(s.ups, o.ups))


def numbered(sorts):
    n = {}
    for so in sorts: n[so] = n.get(so, -1) + 1; yield so, n[so]


def Select(a, i): return a[i]
def Store(a, i, v): return a.store(i, v)


class ArrSort:
    def __init__(s, d, r): s.d, s.r = d, r


def ghosts(word=z3.IntSort(), **kw):
    """ghost declarations: 'i' int scalar, 'b' bool, 'w' word; 'o:i' map from objects, 't:b' from threads, 'x:w' from indices.
    returns (sorts, domains)"""
    so = dict(i=z3.IntSort(), b=z3.BoolSort(), w=word, o=word, t=z3.IntSort(), x=z3.IntSort())
    dm = dict(o=OBJ, t=TID, x=IDX)
    S, D = {}, {}
    for n, d in kw.items():
        if ":" in d:
            a, r = d.split(":"); S[n] = ArrSort(so[a], so[r]); D[n] = dm[a]
        else: S[n] = so[d]
    return S, D


class Agg:
    def __init__(s, els): s.els = list(els)


class FloatV:
    """double: a real number t (n: the same as an integer term if it is known to be one), or opaque (t is None)"""
    def __init__(s, t, n=None): s.t, s.n = t, n


class State:
    """lazily created memory/ghost arrays. kind: 'own' (inherits) or 'env' (fresh)"""
    __slots__ = ("parent", "kind", "mem", "gh", "spec", "priv", "id", "loc")
    _ids = itertools.count()
    def __init__(s, spec, parent, kind):
        s.spec, s.parent, s.kind = spec, parent, kind
        s.mem, s.gh, s.id = {}, {}, next(State._ids)
        s.priv = dict(parent.priv) if parent is not None else {}
        s.loc = dict(parent.loc) if parent is not None else {}   # path-local ghost values of this thread (python dict)
    def M(s, key):
        if key in s.mem: return s.mem[key]
        if s.kind == "own" and s.parent is not None: v = s.parent.M(key)
        else: v = Arr.new("M%d_%d@%d" % (key[0], key[1], s.id), s.spec.sort(64), s.spec.sort(8 * key[1]))
        s.mem[key] = v
        return v
    def g(s, name):
        if name in s.gh: return s.gh[name]
        so = s.spec.ghosts[name]
        if s.parent is not None and (s.kind == "own" or name in s.spec.local_ghosts): v = s.parent.g(name)
        elif isinstance(so, ArrSort): v = Arr.new("%s@%d" % (name, s.id), so.d, so.r)
        else: v = fresh("%s@%d" % (name, s.id), so)
        s.gh[name] = v
        return v
    def f(s, field, o):
        off, size = s.spec.fields[field]
        return s.M((off, size))[o]
    def child(s): return State(s.spec, s, "own")
    def __getitem__(s, name): return s.g(name)


class Clause:
    __slots__ = ("name", "sorts", "fn", "vars", "tmpl")
    def __init__(s, name, sorts, fn): s.name, s.sorts, s.fn, s.tmpl = name, tuple(sorts), fn, None
    def inst(s, *tup):
        """instance for a tuple of terms (the clause is built once and instantiated by substitution)"""
        if s.tmpl is None:
            s.vars = [z3.Const("cv!%d!%s" % (i, x.sort()), x.sort()) for i, x in enumerate(tup)]
            s.tmpl = s.fn(*s.vars)
        if not z3.is_expr(s.tmpl): return s.fn(*tup)
        return z3.substitute(s.tmpl, *zip(s.vars, tup))


class Failure:
    def __init__(s, name, line, kind, detail): s.name, s.line, s.kind, s.detail = name, line, kind, detail


class Stop(Exception):
    pass


class LoopCtx:
    def __init__(s, header, body, dry): s.header, s.body, s.dry, s.dirty, s.onback, s.unrolled = header, body, dry, False, None, False


class Frame:
    def __init__(s, fn, env, k, depth, ret_inst=None):
        s.fn, s.env, s.k, s.depth, s.loops = fn, env, k, depth, []
    def copy(s):
        f = Frame(s.fn, dict(s.env), s.k, s.depth); f.loops = list(s.loops)
        return f


class Engine:
    def __init__(s, mod, spec, timeout_ms=30000, deadline=None, verbose=0):
        s.mod, s.spec, s.verbose = mod, spec, verbose
        s.timeout = timeout_ms
        s.deadline = deadline
        s.solver = z3.SimpleSolver() if spec.simple_solver else z3.Solver()
        s.solver.set("timeout", timeout_ms)
        s.pools = {}; s.poolkeys = {}; s.termlog = []
        s.pool(None)
        s.schemas = []
        s.marks = []
        s.obligations = []        # (name,line,status,secs)
        s.failures = []
        s.undecided = []
        s.gaveup = []
        s.dry = 0
        s.paths = 0
        s.nqueries = 0
        s.qtime = 0.0
        s.line = None
        s.fname = None
        s.reached = set(); s.inlined = set(); s.attempted = set(); s.covered = set()
        s.newkeys = set()
        s.assumed_calls = set()
        s.trivial = 0
        s.flpoints = []
        s.loopcache = {}
        s.max_fail = 4
        s.facts = []
        s.loop_invs = {}
        s.smtlog = None
        s.statecache = {}
        s.children = []; s.tokens = None

    # ---------------------------------------------------------------- solver scope
    # Terms are global (the whole path) or local to one state; a clause tagged with states {S..} is instantiated with
    # the global terms and the local terms of those states.
    def push(s):
        s.solver.push()
        s.marks.append((len(s.schemas), len(s.termlog), len(s.facts)))
    def pop(s):
        s.solver.pop()
        ns, nt, nf = s.marks.pop()
        del s.schemas[ns:]
        del s.facts[nf:]
        for scope, sort, i in reversed(s.termlog[nt:]):
            s.pools[scope][sort].pop(); s.poolkeys[scope][sort].discard(i)
        del s.termlog[nt:]
    def add(s, f):
        if z3.is_true(f): return
        s.solver.add(f); s.facts.append(f)
    def pool(s, scope):
        if scope not in s.pools:
            s.pools[scope] = {OBJ: [], TID: [], IDX: []}; s.poolkeys[scope] = {OBJ: set(), TID: set(), IDX: set()}
        return s.pools[scope]
    def combined(s, tags, sort):
        d = dict(s.pool(None)[sort])
        for t in tags:
            if t in s.pools:
                for i, x in s.pools[t][sort]: d.setdefault(i, x)
        return list(d.items())
    def add_schema(s, cl, tags=()):
        s.schemas.append((cl, tags))
        if not cl.sorts: s.add(cl.fn()); return
        for tup in itertools.product(*[s.combined(tags, x) for x in cl.sorts]):
            s.add(cl.inst(*[x for _, x in tup]))
    def add_term(s, sort, t, scope=None):
        if isinstance(t, Ptr): t = t.addr()
        t = z3.simplify(t)
        i = t.get_id()
        s.pool(scope)
        if i in s.poolkeys[None][sort] or i in s.poolkeys[scope][sort]: return t
        s.pools[scope][sort].append((i, t)); s.poolkeys[scope][sort].add(i); s.termlog.append((scope, sort, i))
        s.spec.on_term(s, sort, t)
        for cl, tags in list(s.schemas):
            if sort not in cl.sorts or (scope is not None and scope not in tags): continue
            if scope is None and any(i in s.poolkeys[g][sort] for g in tags if g in s.poolkeys): 
                if len(cl.sorts) == 1: continue
            poss = [p for p, x in enumerate(cl.sorts) if x == sort]
            pools = [s.combined(tags, x) for x in cl.sorts]
            for tup in itertools.product(*pools):
                if any(tup[p][0] == i for p in poss): s.add(cl.inst(*[x for _, x in tup]))
        return t

    # A loop head may start a context of its own: only facts that do not speak about earlier states are carried over (everything else has to be a loop invariant).
    def has_state(s, x):
        c = s.statecache
        st = [x]
        while st:
            y = st[-1]; i = y.get_id()
            if i in c: st.pop(); continue
            if z3.is_app(y) and STATE_SYM.search(y.decl().name()): c[i] = (y, True); st.pop(); continue
            ch = y.children(); todo = [z for z in ch if z.get_id() not in c]
            if todo: st.extend(todo); continue
            c[i] = (y, any(c[z.get_id()][1] for z in ch)); st.pop()
        return c[x.get_id()][1]
    def fresh_ctx(s, fr):
        if not s.spec.forget: return None
        saved = (s.solver, s.facts, s.schemas, s.pools, s.poolkeys, s.termlog, s.marks)
        facts, schemas, pools = s.facts, s.schemas, s.pools
        s.solver = z3.SimpleSolver() if s.spec.simple_solver else z3.Solver(); s.solver.set("timeout", s.timeout)
        s.facts, s.schemas, s.pools, s.poolkeys, s.termlog, s.marks = [], [], {}, {}, [], []
        s.pool(None)
        for f in facts:
            if not s.has_state(f): s.add(f)
        for cl, tags in schemas:
            if tags: continue
            if not s.has_state(cl.fn(*[z3.Const("dummy%d" % i, s.sort(64) if so == OBJ else z3.IntSort()) for i, so in enumerate(cl.sorts)])): s.add_schema(cl, tags)
        keep = [z3.simplify(v.base if isinstance(v, Ptr) else v) for v in fr.env.values() if isinstance(v, Ptr) or z3.is_expr(v)]      # (kept alive: identifiers are reused)
        live = {v.get_id() for v in keep}
        for so in (OBJ, TID, IDX):
            for i, x in pools[None][so]:
                if i in live or not s.has_state(x): s.add_term(so, x)
        return saved
    def leave_ctx(s, saved):
        if saved is not None: s.solver, s.facts, s.schemas, s.pools, s.poolkeys, s.termlog, s.marks = saved

    def check(s, *extra):
        if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exhausted")
        t0 = time.time(); s.nqueries += 1
        if s.spec.dry_rlimit: s.solver.set("rlimit", s.spec.dry_rlimit if s.dry else 0)
        r = s.solver.check(*extra)
        dt = time.time() - t0; s.qtime += dt; s.lastdt = dt
        if s.verbose > 3 and dt > 1: print("slow query %.1fs %s line %s dry %d schemas %d facts %d terms %s" % (dt, r, s.line, s.dry, len(s.schemas), len(s.facts), {k: len(v) for k, v in s.pools[None].items()}), {str(k): {q: len(w) for q, w in v.items()} for k, v in s.pools.items() if k is not None and any(v.values())}, flush=True)
        return r

    def feasible(s, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return s.check(c) != z3.unsat

    # ---------------------------------------------------------------- obligations
    def prove(s, goals, kind="", terms=()):
        """goals: list of (name, term). proves each; records obligation."""
        if s.dry: return
        gs = []
        for n, g in goals:
            g = z3.simplify(g) if not isinstance(g, bool) else z3.BoolVal(g)
            if z3.is_true(g):
                s.trivial += 1
                continue
            gs.append((n, g))
        if not gs: return
        t0 = time.time()
        r = s.check(z3.Not(z3.And([g for _, g in gs]))) if not z3.is_false(z3.And([g for _, g in gs])) else z3.sat
        if r == z3.unsat:
            dt = (time.time() - t0) / len(gs)
            for n, g in gs: s.obligations.append((s.oname(n), s.line, "ok", dt))
            return
        for n, g in gs:
            t0 = time.time()
            r = s.check(z3.Not(g))
            if r == z3.unknown: r = s.second_opinion(z3.Not(g))
            dt = time.time() - t0
            if r == z3.unsat:
                s.obligations.append((s.oname(n), s.line, "ok", dt))
            elif r == z3.sat:
                try: m = str(s.cex_summary())
                except Exception: m = ""
                s.obligations.append((s.oname(n), s.line, "FAILED", dt))
                s.failures.append(Failure(s.oname(n), s.line, "failed", "goal: %s\npath: %s\nmodel: %s" % (str(g)[:1500], s.trace_txt(), m)))
                if s.verbose: print("FAILED", s.oname(n), "line", s.line, s.trace_txt())
                if s.verbose > 1:
                    try: s.why_false(s.solver.model(), g, 0)
                    except Exception as x: print("  ?", x)
                if s.verbose > 4: print(m)
            else:
                s.obligations.append((s.oname(n), s.line, "unknown", dt))
                s.undecided.append(Failure(s.oname(n), s.line, "undecided", "solver: unknown"))
                if s.verbose: print("UNKNOWN", s.oname(n), "line", s.line)
            if r != z3.unsat and len(s.failures) + len(s.undecided) >= s.max_fail: raise Stop()

    def why_false(s, m, g, d):
        """the part of a goal that a model falsifies"""
        ev = lambda x: m.eval(x, model_completion=True)
        if z3.is_and(g): [s.why_false(m, x, d) for x in g.children() if z3.is_false(ev(x))]
        elif z3.is_or(g) and d < 12: print("  " * d + " no disjunct:"); [s.why_false(m, x, d + 1) for x in g.children()]
        elif z3.is_implies(g): s.why_false(m, g.arg(1), d)
        elif z3.is_not(g) and z3.is_or(g.arg(0)): [s.why_false(m, z3.Not(x), d) for x in g.arg(0).children() if z3.is_true(ev(x))]
        elif z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(g): s.why_false(m, g.arg(1) if z3.is_true(ev(g.arg(0))) else g.arg(2), d)
        else: print("  " * d + " false:", re.sub(r"\s+", " ", str(g))[:400], "|", [ev(x) for x in g.children()][:4])

    def second_opinion(s, neg):
        s2 = z3.Solver(); s2.set("timeout", s.timeout)
        for f in s.facts: s2.add(f)
        s2.add(neg)
        r = s2.check()
        return r

    def cex_summary(s):
        m = s.solver.model()
        out = []
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                t = str(v)
                if len(t) < 60: out.append("%s=%s" % (d.name(), t))
        return ", ".join(sorted(out)[:80])

    def oname(s, n): return "%s:%s" % (s.fname, n)
    def trace_txt(s): return " > ".join(s.trace[-40:])

    # ---------------------------------------------------------------- invariants & interference
    def assume_inv(s, S):
        for c in s.spec.inv(S) + s.spec.lemmas(S): s.add_schema(c, (S.id,))
        for so, t in s.spec.terms(S): s.add_term(so, t, S.id)

    def env(s, S):
        """arbitrary interference by other threads"""
        if s.spec.sequential: return S
        S2 = State(s.spec, S, "env")
        for c in s.rely(S, S2, s.spec.tid): s.add_schema(c, (S.id, S2.id))
        s.assume_inv(S2)
        return S2

    def rely(s, S1, S2, u):
        cl = list(s.spec.rely(S1, S2, u))
        priv = s.spec.private
        if priv is not None:
            for key in sorted(s.spec.keys):
                cl.append(Clause("frame.private.%d_%d" % key, [OBJ], (lambda k: lambda o: z3.Implies(priv(S1, o, u), Select(S2.M(k), o) == Select(S1.M(k), o)))(key)))
        return cl

    def guarantee(s, S, S2, why):
        """S -> S2 is one atomic step of the verified thread"""
        for fr in s.framestack_loops(): fr.dirty = True
        if s.dry: return
        if s.spec.sequential: return
        s.push()
        try:
            sk = {OBJ: [], TID: [], IDX: []}
            need = {OBJ: 0, TID: 0, IDX: 0}
            u = fresh("u", z3.IntSort())
            invs = s.spec.inv(S2); invs0 = {c.name: c for c in s.spec.inv(S)}
            rel = s.rely(S, S2, u)
            for c in invs + rel:
                for so in (OBJ, TID, IDX): need[so] = max(need[so], c.sorts.count(so))
            for so, n in need.items():
                sort = s.sort(64) if so == OBJ else z3.IntSort()
                for i in range(n): sk[so].append(fresh("sk_" + so, sort))
            goals = []
            def inst(c):
                cnt = {OBJ: 0, TID: 0, IDX: 0}; a = []
                for so in c.sorts: a.append(sk[so][cnt[so]]); cnt[so] += 1
                return c.fn(*a)
            for c in invs:
                g = inst(c)
                o = invs0.get(c.name)
                if o is not None and inst(o).eq(g):
                    s.trivial += 1; continue
                goals.append(("inv." + c.name + "@" + why, g))
            for c in rel:
                g = z3.simplify(inst(c))
                if z3.is_true(g): s.trivial += 1; continue
                goals.append(("guarantee." + c.name + "@" + why, g))
            if not goals: return
            s.add(u != s.spec.tid); s.add(u > 0)
            sc = s.invstate(S)
            for c in s.spec.lemmas(S2): s.add_schema(c, (sc,))
            s.add_term(TID, u, sc)
            for so in sk:
                for t in sk[so]: s.add_term(so, t, sc)
            for so, t in s.spec.terms(S2): s.add_term(so, t, sc)
            for so, t in s.spec.skolem_terms(S, S2, sk, u): s.add_term(so, t, sc)
            s.prove(goals)
        finally:
            s.pop()

    def invstate(s, S):
        """id of the most recent state on S's lineage whose invariant is assumed"""
        while S.kind == "own" and S.parent is not None: S = S.parent
        return S.id

    def framestack_loops(s):
        return s.activeloops

    # ---------------------------------------------------------------- values
    def sort(s, w): return s.spec.sort(w)
    def num(s, n, w):
        if s.spec.intmode:
            n &= (1 << w) - 1
            return z3.IntVal(n - (1 << w) if n >> (w - 1) else n)
        return z3.BitVecVal(n, w)
    def uns(s, x, w):
        if z3.is_int_value(x):
            v = x.as_long(); return z3.IntVal(v + (1 << w) if v < 0 else v)
        return z3.If(x < 0, x + (1 << w), x)
    def freshw(s, name, w):
        v = fresh(name, s.sort(w))
        if s.spec.intmode: s.add(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        return v

    def val(s, fr, v, ty):
        k = v[0]
        if k == "l":
            if v[1] not in fr.env: raise Unsupported("undefined value %" + v[1])
            return fr.env[v[1]]
        if k == "c":
            if isinstance(ty, TPtr): return Ptr(s.num(v[1], 64), 0)
            if isinstance(ty, TInt):
                if ty.n == 1: return z3.BoolVal(bool(v[1]))
                return s.num(v[1], ty.n)
            raise Unsupported("const type")
        if k in ("u", "z"):
            if isinstance(ty, TPtr): return Ptr(s.num(0, 64) if k == "z" else s.freshw("undef", 64), 0)
            if isinstance(ty, TInt):
                if ty.n == 1: return z3.BoolVal(False) if k == "z" else fresh("undef", z3.BoolSort())
                return s.num(0, ty.n) if k == "z" else s.freshw("undef", ty.n)
            if isinstance(ty, TStruct): return Agg([s.val(fr, (k, e), e) for e in ty.els])
            raise Unsupported("undef type %r" % ty)
        if k == "g": return s.global_ptr(v[1])
        if k == "gep":
            b = s.val(fr, v[2], TPtr())
            return s.gep(v[1], b, [(it, s.val(fr, x, it)) for it, x in v[3]])
        if k == "cast": return s.cast(v[1], v[2], s.val(fr, v[3], v[2]), v[4])
        if k == "cbin": return s.binop(v[1], v[2], s.val(fr, v[3], v[2]), s.val(fr, v[4], v[2]), [])
        if k == "f": return s.float_const(v[1], ty)
        raise Unsupported("value kind %s" % (v,))

    def global_ptr(s, name):
        p = s.spec.global_ptr(s, name)
        if p is not None: return p
        return Ptr(z3.Const("@" + name, s.sort(64)), 0)

    def gep(s, st, b, idx):
        base, off, priv = b.base, b.off, b.priv
        it, i0 = idx[0]
        i0s = z3.simplify(i0)
        sz = s.mod.size(st)
        isz = (z3.is_bv_value(i0s) or z3.is_int_value(i0s)) and i0s.as_long() == 0
        if not isz:
            if sz == 1 and s.spec.byte_offsets and (z3.is_bv_value(i0s) or z3.is_int_value(i0s)): off += i0s.as_long()
            else: base = s.elem(base, off, s.sx(i0s, it.n), sz); off = 0
        t = st
        for it, iv in idx[1:]:
            ivs = z3.simplify(iv)
            if isinstance(t, TStruct):
                n = ivs.as_long(); off += s.mod.fieldoff(t, n); t = t.els[n]
            elif isinstance(t, TArr):
                es = s.mod.size(t.el)
                if (z3.is_bv_value(ivs) or z3.is_int_value(ivs)) and 0 < t.n <= 4: off += ivs.as_long() * es
                else: base = s.elem(base, off, s.sx(ivs, it.n), es); off = 0
                t = t.el
            else: raise Unsupported("gep type")
        return s.spec.place(s, Ptr(base, off, priv))

    def small_array_index(s, st, ix):
        """(position, length) of a non-constant index into a fixed array of at most 4 elements (the generator then splits on its value)"""
        t = st
        for j, (it, v) in enumerate(ix):
            if j == 0: continue
            c = z3.simplify(v)
            if isinstance(t, TStruct): t = t.els[c.as_long()]
            elif isinstance(t, TArr):
                if not (z3.is_bv_value(c) or z3.is_int_value(c)) and 0 < t.n <= 4: return j, t.n
                t = t.el
            else: break
        return None, 0

    def elem(s, base, off, i, sz):
        """address of element i (size sz) of the array at base+off"""
        r = s.spec.elem(s, base, off, i, sz)
        if r is not None: return r
        a = z3.simplify(base + off + i * sz)
        for o in s.spec.canon_objs():
            if s.check(a != o) == z3.unsat: return o
        return a

    def sx(s, x, w):
        if s.spec.intmode: return x
        if w < 64: return z3.simplify(z3.SignExt(64 - w, x))
        return x

    def asbv(s, v, ty=None):
        """machine word of a value"""
        if isinstance(v, Ptr): return v.addr()
        if isinstance(v, FloatV): return s.freshw("float", 64)
        if isinstance(v, Agg): raise Unsupported("aggregate value stored")
        if z3.is_bool(v): return z3.If(v, s.num(1, 8), s.num(0, 8))
        return v

    def cast(s, op, t1, v, t2):
        im = s.spec.intmode
        if op == "ptrtoint":
            r = v.addr()
            if t2.n == 64: return r
            if im: raise Unsupported("ptrtoint narrow")
            return z3.Extract(t2.n - 1, 0, r)
        if op == "inttoptr":
            if not im and v.size() < 64: v = z3.ZeroExt(64 - v.size(), v)
            return Ptr(z3.simplify(v), 0)
        if op == "bitcast": return v
        if op == "zext":
            if t1.n == 1: return z3.If(v, s.num(1, t2.n), s.num(0, t2.n))
            return s.uns(v, t1.n) if im else z3.ZeroExt(t2.n - t1.n, v)
        if op == "sext":
            if t1.n == 1: return z3.If(v, s.num(-1, t2.n), s.num(0, t2.n))
            return v if im else z3.SignExt(t2.n - t1.n, v)
        if op == "trunc":
            if im:
                if t2.n == 1: return (v % 2) == 1
                r = v % (1 << t2.n)
                return z3.If(z3.And(v >= -(1 << (t2.n - 1)), v < (1 << (t2.n - 1))), v, z3.If(r >= (1 << (t2.n - 1)), r - (1 << t2.n), r))
            if t2.n == 1: return z3.Extract(0, 0, v) == bv(1, 1)
            return z3.Extract(t2.n - 1, 0, v)
        if op in ("sitofp", "uitofp"):
            if not im or t2.n != 64: return FloatV(None)
            if t1.n == 1: v = z3.If(v, 1, 0) if op == "uitofp" else z3.If(v, -1, 0)
            elif op == "uitofp": v = s.uns(v, t1.n)
            return s.float_int(v)
        if op in ("fpext", "fptrunc"): return FloatV(None)
        if op in ("fptosi", "fptoui"):
            if not im or v.t is None: return s.freshw("fpconv", t2.n)
            n = fresh("trunc", z3.IntSort())
            s.add(z3.If(v.t >= 0, z3.And(z3.ToReal(n) <= v.t, v.t < z3.ToReal(n) + 1), z3.And(z3.ToReal(n) - 1 < v.t, v.t <= z3.ToReal(n))))
            lo, hi = (-(1 << (t2.n - 1)), 1 << (t2.n - 1)) if op == "fptosi" else (0, 1 << t2.n)
            s.prove([("float-to-integer-in-range", z3.And(n >= lo, n < hi))])
            return n
        raise Unsupported("cast " + op)

    # doubles: IEEE rounding to nearest is monotone and exact on representable numbers; that is all that is used
    def float_const(s, txt, ty):
        if ty.n != 64: return FloatV(None)
        import struct
        x = struct.unpack(">d", bytes.fromhex(txt[2:].rjust(16, "0")))[0] if txt.startswith("0x") else float(txt)
        if x != x or x in (float("inf"), float("-inf")): return FloatV(None)
        from fractions import Fraction
        f = Fraction(x)
        r = z3.Q(f.numerator, f.denominator); s.flpoints.append(r)
        return FloatV(r, z3.IntVal(f.numerator) if f.denominator == 1 else None)
    def float_int(s, n):
        """the double nearest to the integer n"""
        e = z3.ToReal(n)
        if s.check(z3.Not(z3.And(n >= -(1 << 53), n <= (1 << 53)))) == z3.unsat:
            s.flpoints.append(e); return FloatV(e, n)
        return s.rounded(e)
    def rounded(s, e):
        r = fresh("fl", z3.RealSort())
        for c in [z3.RealVal(0), z3.RealVal(1), z3.RealVal(-1)] + s.flpoints[-12:]: s.add(z3.And(z3.Implies(e <= c, r <= c), z3.Implies(e >= c, r >= c)))
        return FloatV(r)
    def fbinop(s, op, ty, a, b):
        if ty.n != 64 or a.t is None or b.t is None: return FloatV(None)
        if op in ("fadd", "fsub", "fmul") and a.n is not None and b.n is not None and op != "fmul": return s.float_int(a.n + b.n if op == "fadd" else a.n - b.n)
        if op == "fdiv":
            s.prove([("division-by-zero", b.t != 0)])
            q = fresh("q", z3.RealSort()); s.add(q * b.t == a.t)
            s.add(z3.Implies(z3.And(b.t > 0, a.t >= 0), q >= 0)); s.add(z3.Implies(z3.And(b.t > 0, a.t <= b.t), q <= 1))
            return s.rounded(q)
        if op == "fmul":
            e = fresh("prod", z3.RealSort()); s.add(e == a.t * b.t)
            for x, y in ((a.t, b.t), (b.t, a.t)):
                s.add(z3.Implies(z3.And(x >= 0, y >= 0, y <= 1), z3.And(e >= 0, e <= x)))
            return s.rounded(e)
        if op in ("fadd", "fsub"): return s.rounded(a.t + b.t if op == "fadd" else a.t - b.t)
        return FloatV(None)

    def binop(s, op, ty, a, b, flags):
        if isinstance(ty, TFloat): return s.fbinop(op, ty, a, b)
        w = ty.n
        if w == 1:
            if op == "xor": return z3.Xor(a, b)
            if op == "and": return z3.And(a, b)
            if op == "or": return z3.Or(a, b)
            raise Unsupported("i1 op " + op)
        if s.spec.intmode:
            r = s.spec.arith(s, op, w, a, b)
            if r is not None: return r
            if op in ("add", "sub", "mul"):
                r = a + b if op == "add" else a - b if op == "sub" else a * b
                if s.spec.check_overflow: s.prove([("no-overflow", z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1))))])
                if s.spec.wrap and op != "mul": r = z3.If(r < -(1 << (w - 1)), r + (1 << w), z3.If(r >= (1 << (w - 1)), r - (1 << w), r))
                elif s.spec.wrap: s.prove([("no-overflow", z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1))))])
                return r
            bs = z3.simplify(b)
            if op == "shl" and z3.is_int_value(bs): return a * (1 << bs.as_long())
            if op == "lshr" and z3.is_int_value(bs): return s.uns(a, w) / (1 << bs.as_long())
            if op == "ashr" and z3.is_int_value(bs): return a / (1 << bs.as_long())
            if op in ("udiv", "urem"):
                s.prove([("division-by-zero", b != 0)])
                return s.uns(a, w) / s.uns(b, w) if op == "udiv" else s.uns(a, w) % s.uns(b, w)
            if op in ("sdiv", "srem"):
                s.prove([("division-by-zero", b != 0)])
                aa, ab = z3.If(a < 0, -a, a), z3.If(b < 0, -b, b)
                if op == "sdiv": return z3.If((a < 0) == (b < 0), aa / ab, -(aa / ab))
                return z3.If(a < 0, -(aa % ab), aa % ab)
            if op == "and" and z3.is_int_value(bs):
                m = bs.as_long()
                if m >= 0 and (m & (m + 1)) == 0: return s.uns(a, w) % (m + 1)
            raise Unsupported("bit operation %s in integer mode" % op)
        if "nsw" in flags and s.spec.check_overflow and not s.dry:
            if op == "add": s.prove([("no-signed-overflow", z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))])
            if op == "sub": s.prove([("no-signed-overflow", z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))])
            if op == "mul": s.prove([("no-signed-overflow", z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))])
        if op in ("udiv", "sdiv", "urem", "srem"): s.prove([("division-by-zero", b != bv(0, ty.n))])
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "sdiv": lambda: a / b,
                "urem": lambda: z3.URem(a, b), "srem": lambda: z3.SRem(a, b)}[op]()

    def icmp(s, pr, ty, a, b):
        w = 64
        if isinstance(ty, TInt): w = ty.n
        if isinstance(a, Ptr): a = a.addr()
        if isinstance(b, Ptr): b = b.addr()
        if z3.is_bool(a):
            if pr == "eq": return a == b
            if pr == "ne": return z3.Xor(a, b)
            raise Unsupported("icmp i1")
        if s.spec.intmode and pr[0] == "u":
            a, b = s.uns(a, w), s.uns(b, w)
            return {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pr]
        return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b,
                "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[pr]()

    # ---------------------------------------------------------------- memory events
    def keyof(s, p, size):
        key = (p.off, size)
        if key not in s.spec.keys and p.priv is None: s.newkeys.add(key); s.spec.keys.add(key)
        return key

    def fromval(s, v, ty):
        if isinstance(ty, TPtr): return Ptr(v, 0)
        if isinstance(ty, TInt) and ty.n == 1: return (v != 0)
        if isinstance(ty, TFloat): return FloatV(None)
        return v

    def load(s, S, p, ty, what="load"):
        """returns (S', value)"""
        size = s.mod.size(ty)
        if p.alts:      # element of a small array of a shared object, index not constant: the value is selected by the index
            S = s.step_env(S, p, s.keyof(p, size), "r")
            v = None
            for c, q in p.alts:
                x = s.spec.typed_read(S, q.base, s.keyof(q, size), Select(S.M(s.keyof(q, size)), q.base))
                if isinstance(ty, TPtr): s.add_term(OBJ, x)
                v = x if v is None else z3.If(c, x, v)
            if isinstance(ty, TPtr): v = s.add_term(OBJ, v)
            return S, s.fromval(v, ty)
        if p.priv is not None:
            return S, s.fromval(s.privload(S, p, size), ty)
        key = s.keyof(p, size)
        S = s.step_env(S, p, key, "r")
        v = Select(S.M(key), p.base)
        v = s.spec.typed_read(S, p.base, key, v)
        if isinstance(ty, TPtr): s.add_term(OBJ, v)
        gu = s.spec.on_read(s, S, p.base, key, v)
        if gu:
            S2 = S.child(); S2.gh.update(gu)
            s.guarantee(S, S2, "read+%d" % key[0])
            S = S2
        return S, s.fromval(v, ty)

    def step_env(s, S, p, key, rw):
        s.spec.access_check(s, S, p.base, key, rw)
        if s.spec.is_mover(s, S, p.base, key, rw): return S
        return s.env(S)

    def store(s, S, p, val, ty):
        size = s.mod.size(ty)
        v = s.asbv(val)
        if p.priv is not None:
            return s.privstore(S, p, size, v)
        if isinstance(val, Ptr) and val.off != 0 and not s.spec.allow_interior: raise Unsupported("interior pointer stored to memory")
        key = s.keyof(p, size)
        S = s.step_env(S, p, key, "w")
        old = Select(S.M(key), p.base)
        return s.do_write(S, [(p.base, key, old, v)], "write+%d" % key[0])

    def do_write(s, S, writes, why, rmw=False):
        S2 = S.child()
        for base, key, old, v in writes: S2.mem[key] = Store(S2.M(key), base, v)
        for base, key, old, v in writes:
            if key[1] == 8: s.add_term(OBJ, v)
        gu = s.spec.on_write(s, S, S2, writes, rmw)
        if gu: S2.gh.update(gu)
        s.guarantee(S, S2, why)
        return S2

    def event(s, S, gu, why):
        S2 = S.child(); S2.gh.update(gu)
        s.guarantee(S, S2, why)
        return S2

    def privload(s, S, p, size):
        key = (p.priv, p.off, size)
        arr = S.priv.get(key)
        if arr is None:
            arr = s.priv_init(S, key)
        return z3.simplify(Select(arr, p.base))

    def priv_init(s, S, key):
        name, off, size = key
        for k in S.priv:
            if k[0] == name and k != key and not (k[1] + k[2] <= off or off + size <= k[1]): raise Unsupported("overlapping private access %s %s" % (k, key))
        arr = Arr.new("P_%s_%d_%d" % (name, off, size), s.spec.sort(64), s.spec.sort(8 * size))
        S.priv[key] = arr
        return arr

    def privstore(s, S, p, size, v):
        key = (p.priv, p.off, size)
        if key not in S.priv: s.priv_init(S, key)
        S2 = S.child()
        S2.priv[key] = Store(S.priv[key], p.base, v)
        return S2

    # rmw primitives -----------------------------------------------------------------
    def rmw(s, S, p, size, fn, what):
        """unconditional rmw: fn(old)->new. returns S', old"""
        if p.priv is not None:
            old = s.privload(S, p, size)
            return s.privstore(S, p, size, fn(old)), old
        key = s.keyof(p, size)
        S = s.step_env(S, p, key, "rw")
        old = Select(S.M(key), p.base)
        if size == 8: s.add_term(OBJ, old)
        S2 = s.do_write(S, [(p.base, key, old, fn(old))], "%s+%d" % (what, key[0]), rmw=True)
        return S2, old

    def cas(s, S, p, size, exp, new, k, what="CAS"):
        """forks; k(S', success_bool_python)"""
        if p.priv is not None:
            old = s.privload(S, p, size)
            c = old == exp
            s.fork([(c, lambda: k(s.privstore(S, p, size, new), True)), (z3.Not(c), lambda: k(S, False))])
            return
        key = s.keyof(p, size)
        S = s.step_env(S, p, key, "rw")
        old = Select(S.M(key), p.base)
        if size == 8: s.add_term(OBJ, old); s.add_term(OBJ, exp)
        def ok():
            s.trace.append(what + "-ok")
            k(s.do_write(S, [(p.base, key, old, new)], "%s+%d" % (what, key[0]), rmw=True), True)
            s.trace.pop()
        def no():
            s.trace.append(what + "-fail")
            gu = s.spec.on_read(s, S, p.base, key, old)
            S2 = S
            if gu:
                S2 = S.child(); S2.gh.update(gu); s.guarantee(S, S2, "casfail")
            k(S2, False)
            s.trace.pop()
        s.fork([(old == exp, ok), (old != exp, no)])

    def cas128(s, S, p, b0, b1, c0, c1, k):
        key0, key1 = (p.off, 8), (p.off + 8, 8)
        for kk in (key0, key1):
            if kk not in s.spec.keys: s.newkeys.add(kk); s.spec.keys.add(kk)
        S = s.step_env(S, p, key0, "rw")
        o0, o1 = Select(S.M(key0), p.base), Select(S.M(key1), p.base)
        c = z3.And(o0 == b0, o1 == b1)
        def ok():
            s.trace.append("CAS128-ok")
            k(s.do_write(S, [(p.base, key0, o0, c0), (p.base, key1, o1, c1)], "CAS128+%d" % p.off, rmw=True), True)
            s.trace.pop()
        def no():
            s.trace.append("CAS128-fail"); k(S, False); s.trace.pop()
        s.fork([(c, ok), (z3.Not(c), no)])

    def quick_sat(s):
        """pruning only: a path that is not refuted quickly is explored"""
        s.solver.set("timeout", 150)
        try: return s.check() != z3.unsat
        finally: s.solver.set("timeout", s.timeout)

    def fresh_bool(s, ty):
        v = fresh("b", z3.BoolSort())
        return v if ty.n == 1 else z3.If(v, s.num(1, ty.n), s.num(0, ty.n))

    def fork(s, alts):
        """explores the alternatives one after the other, or (Spec.parallel) some of them in processes of their own"""
        alts = [(c, go) for c, go in ((z3.simplify(c), go) for c, go in alts) if not z3.is_false(c)]
        for n, (c, go) in enumerate(alts):
            s.push()
            try:
                s.add(c)
                if z3.is_true(c) or s.quick_sat():
                    if not (n + 1 < len(alts) and s.in_process(go)): go()
            finally:
                s.pop()

    def in_process(s, go):
        if not s.spec.parallel or s.dry: return False
        if s.tokens is None:
            s.tokens = os.pipe(); os.set_blocking(s.tokens[0], False); os.write(s.tokens[1], b"." * max(0, min(8, os.cpu_count() or 1) - 1))
        try: os.read(s.tokens[0], 1)
        except BlockingIOError: return False
        sys.stdout.flush(); sys.stderr.flush()
        fd, path = tempfile.mkstemp(prefix="rgv-"); os.close(fd)
        pid = os.fork()
        if pid: s.children.append((pid, path)); return True
        err = None
        try:
            ctypes.CDLL(None).prctl(1, 9)           # ends with its parent
            s.children = []; s.reset_results()
            try: go()
            except Stop: pass
            except Unsupported as x: err = str(x)
            except BaseException: err = "verifier error: " + traceback.format_exc()[-1500:]
            os.write(s.tokens[1], b".")
            try: s.join()
            except Unsupported as x: err = err or str(x)
            with open(path, "wb") as f: pickle.dump((err, {k: getattr(s, k) for k in s.RESULTS}), f)
            sys.stdout.flush()
        finally: os._exit(0)

    RESULTS = dict(obligations=list, failures=list, undecided=list, gaveup=list, reached=set, inlined=set, covered=set, newkeys=set, assumed_calls=set, loop_invs=dict, paths=int, trivial=int, nqueries=int, qtime=float)
    def reset_results(s):
        for k, t in s.RESULTS.items(): setattr(s, k, t())
    def join(s):
        """waits for the processes started and takes over what they found"""
        errs = []
        while s.children:
            pid, path = s.children.pop(); os.waitpid(pid, 0)
            try:
                with open(path, "rb") as f: err, d = pickle.load(f)
            except Exception: errs.append("a verifier process ended without a result"); continue
            finally:
                try: os.unlink(path)
                except OSError: pass
            if err: errs.append(err)
            for k, t in s.RESULTS.items():
                if t in (set, dict): getattr(s, k).update(d[k])
                else: setattr(s, k, getattr(s, k) + d[k])
        s.spec.keys |= s.newkeys
        if errs: raise Unsupported(errs[0])

    # ---------------------------------------------------------------- execution
    def verify(s, fname, args, S, post):
        """verify function fname: args list of values; post(S, ret) called at each return (records obligations)"""
        fn = s.mod.func(fname)
        if fn is None: raise Unsupported("function %s not found" % fname)
        if len(args) != len(fn.params): raise Unsupported("arity of %s changed" % fname)
        s.fname = fname; s.trace = []; s.activeloops = []; s.attempted.add(fname); s.loopcache = {}
        lvl = len(s.marks)
        s.push()
        try:
            if s.check() == z3.unsat: raise Unsupported("vacuous precondition for " + fname)
            def k(S2, v):
                if s.dry: return
                s.paths += 1
                s.reached.add(fname)
                if fname not in s.covered and s.check(*s.spec.witness) == z3.sat: s.covered.add(fname)
                s.trace.append("ret"); post(S2, v); s.trace.pop()
            s.cuts, s.pending = {}, []
            s.call(fn, args, S, k, 0)
            s.run_pending()
        except Stop: pass
        finally:
            while len(s.marks) > lvl: s.pop()
            s.join()

    @contextlib.contextmanager
    def scope(s):
        n = len(s.marks); s.push()
        try: yield
        finally:
            while len(s.marks) > n: s.pop()

    def uncovered(s): return sorted(s.attempted - s.covered)

    def rely_lemmas(s):
        """the rely is reflexive and transitive, so one environment step stands for any number of them"""
        for t in s.spec.rely_tids or [s.spec.tid]: s.rely_lemmas_of(t)

    def rely_lemmas_of(s, t):
        s.fname = "rely"; s.trace = []; s.activeloops = []; s.line = None
        sp = s.spec
        s.push()
        try:
            S1 = State(sp, None, "env"); S2 = State(sp, S1, "env"); S3 = State(sp, S2, "env")
            s.add(t > 0); s.add_term(TID, t)
            for S in (S1, S2, S3): s.assume_inv(S)
            for a, b in ((S1, S2), (S2, S3)):
                for c in s.rely(a, b, t): s.add_schema(c, (a.id, b.id))
            need = {OBJ: 0, TID: 0, IDX: 0}
            goals = s.rely(S1, S3, t)
            for c in goals:
                for so in need: need[so] = max(need[so], c.sorts.count(so))
            sk = {so: [fresh("sk_" + so, s.sort(64) if so == OBJ else z3.IntSort()) for _ in range(n)] for so, n in need.items()}
            for so in sk:
                for x in sk[so]: s.add_term(so, x)
            for S in (S1, S2, S3):
                for so, x in sp.terms(S): s.add_term(so, x)
                for so, x in sp.skolem_terms(S, S, sk, t): s.add_term(so, x)
            s.prove([("rely-transitive." + c.name, c.fn(*[sk[so][c.sorts[:i].count(so)] for i, so in enumerate(c.sorts)])) for c in goals])
        except Stop: pass
        finally: s.pop()
        s.push()
        try:
            S1 = State(sp, None, "env"); s.add(t > 0); s.assume_inv(S1); s.add_term(TID, t)
            goals = s.rely(S1, S1, t)
            sk = {so: [fresh("sk_" + so, s.sort(64) if so == OBJ else z3.IntSort()) for _ in range(3)] for so in (OBJ, TID, IDX)}
            for so in sk:
                for x in sk[so]: s.add_term(so, x)
            for so, x in sp.terms(S1): s.add_term(so, x)
            for so, x in sp.skolem_terms(S1, S1, sk, sp.tid): s.add_term(so, x)
            s.prove([("rely-reflexive." + c.name, c.fn(*[sk[so][c.sorts[:i].count(so)] for i, so in enumerate(c.sorts)])) for c in goals])
        except Stop: pass
        finally: s.pop()

    def call(s, fn, args, S, k, depth):
        if depth > 12: raise Unsupported("inlining depth")
        env = {}
        for (ty, n), a in zip(fn.params, args): env[n] = a
        fr = Frame(fn, env, k, depth)
        s.block(fr, fn.order[0], None, S)

    def goto(s, fr, src, dst, S):
        # phi evaluation
        phis = []
        for ins in fr.fn.blocks[dst]:
            if ins.op != "phi": break
            ty, inc = ins.a
            for v, b in inc:
                if b == src: phis.append((ins.res, ty, s.val(fr, v, ty))); break
            else: raise Unsupported("phi")
        # loop bookkeeping
        for n, lc in enumerate(fr.loops):
            if lc.header == dst:
                # back edge; inner dry loops left?
                for inner in fr.loops[n + 1:]:
                    if inner.dry: return
                if lc.unrolled:
                    fr.loops = fr.loops[:n + 1]
                    if s.cut(fr, src, dst, phis, S): return
                    for x, ty, v in phis: fr.env[x] = v
                    s.block(fr, dst, src, S)
                    return
                lc.onback(S, phis)
                return
        popped = []
        while fr.loops and dst not in fr.loops[-1].body:
            lc = fr.loops[-1]
            if lc.dry: return
            popped.append(lc); fr.loops.pop()
        saved = list(s.activeloops)
        s.activeloops = [l for l in s.activeloops if l not in popped]
        try:
            loops = fr.fn.loops()
            if dst in loops and s.trips(fr, dst, loops[dst], phis) <= getattr(s.spec, "unroll", 2):
                lc = LoopCtx(dst, loops[dst], False); lc.unrolled = True; fr.loops.append(lc)
                if s.cut(fr, src, dst, phis, S): return
                for n, ty, v in phis: fr.env[n] = v
                s.block(fr, dst, src, S)
            elif dst in loops: s.loop(fr, dst, loops[dst], phis, S)
            else:
                for n, ty, v in phis: fr.env[n] = v
                s.block(fr, dst, src, S)
        finally:
            s.activeloops = saved

    def cut(s, fr, src, dst, phis, S):
        """cut point at an iteration of a loop that is executed completely: the contract names facts (key, facts) that hold here on every path; what follows is verified
        once per key, later and from these facts alone (and the precondition), whatever path leads here"""
        if s.dry or fr.depth: return False
        r = s.spec.cut(s, fr, S)
        if r is None: return False
        key, facts = r
        vals = [z3.simplify(v) if z3.is_expr(v) else v for n, ty, v in phis]
        if not all(z3.is_expr(v) and (z3.is_int_value(v) or z3.is_bv_value(v)) for v in vals): return False
        dom = fr.fn.dominators(dst); env = {}
        for b in dom:
            for ins in fr.fn.blocks[b]:
                if ins.res is not None and ins.res in fr.env: env[ins.res] = fr.env[ins.res]
        for ty, n in fr.fn.params: env[n] = fr.env[n]
        env = {n: s.spec.cut_value(s, v) for n, v in env.items()}
        for (n, ty, _), v in zip(phis, vals): env[n] = v
        key = (fr.fn.name, dst, key, tuple(str(v) for v in vals))
        def same(a, b):
            if isinstance(a, Ptr): return isinstance(b, Ptr) and a.base.eq(b.base) and a.off == b.off and a.priv == b.priv and not a.alts and not b.alts
            return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
        s.obligations.append((s.oname("cut-facts[%s]@%s" % (",".join(key[3]), key[2])), s.line, "ok", 0.0))
        if key in s.cuts:
            e0 = s.cuts[key]
            return set(e0) == set(env) and all(same(e0[n], env[n]) for n in e0)
        s.cuts[key] = env
        f2 = Frame(fr.fn, env, fr.k, fr.depth); lc = LoopCtx(dst, fr.fn.loops()[dst], False); lc.unrolled = True; f2.loops = [lc]
        s.pending.append((key, f2, dst, src, list(S.priv)))
        return True

    def run_pending(s):
        while s.pending:
            key, f2, dst, src, priv = s.pending.pop(0)
            s.push()
            try:
                S = State(s.spec, None, "env")
                for k in priv: S.priv[k] = Arr.new("P", s.sort(64), s.sort(8 * k[2]))
                s.assume_inv(S)
                s.add(s.spec.cut_facts(S, key[2]))
                s.trace = ["from " + dst + " " + ",".join(key[3])]
                if s.check() == z3.unsat: raise Unsupported("vacuous cut point")
                s.block(f2, dst, src, S)
            finally: s.pop()

    def trips(s, fr, header, body, phis):
        """number of iterations of a loop that counts from a constant to a constant (the whole of it is executed, nothing is bounded by this), or infinity"""
        L = fr.fn.blocks[header]; br = L[-1]; inf = float("inf")
        if br.op != "br" or br.a[0] is None or (br.a[1] in body) == (br.a[2] in body): return inf
        cmp = next((x for x in L if x.res is not None and ("l", x.res) == br.a[0]), None)
        if cmp is None or cmp.op != "icmp": return inf
        pr, cty, a, b = cmp.a
        ph = next((x for x in L if x.op == "phi" and ("l", x.res) == a), None)
        v0 = next((v for n, ty, v in phis if ph is not None and n == ph.res), None)
        if ph is None or b[0] != "c" or not isinstance(b[1], int) or not z3.is_expr(v0) or not (z3.is_int_value(v0) or z3.is_bv_value(v0)): return inf
        back = [v for v, src in ph.a[1] if src in body]
        steps = [next((x for k in body for x in fr.fn.blocks[k] if x.res is not None and ("l", x.res) == v), None) for v in back]
        for x in steps:
            if x is None or x.op != "bin" or x.a[0] != "add" or x.a[2] != a or x.a[3][0] != "c" or not isinstance(x.a[3][1], int): return inf
        if not steps or len({x.a[3][1] for x in steps}) != 1: return inf
        w = cty.n; sg = lambda n: (n & ((1 << w) - 1)) - ((1 << w) if (n >> (w - 1)) & 1 else 0)
        d, lim, i = sg(steps[0].a[3][1]), sg(b[1]), sg(v0.as_long()); u = lambda n: n & ((1 << w) - 1)
        f = {"slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y, "ult": lambda x, y: u(x) < u(y), "ule": lambda x, y: u(x) <= u(y), "ugt": lambda x, y: u(x) > u(y), "uge": lambda x, y: u(x) >= u(y), "ne": lambda x, y: x != y, "eq": lambda x, y: x == y}[pr]
        for n in range(9):
            if f(i, lim) != (br.a[1] in body): return n
            i = sg(i + d)
        return inf

    def block(s, fr, blk, src, S):
        ins = fr.fn.blocks[blk]
        s.trace.append(blk)
        try:
            s.insts(fr, blk, 0, S)
        finally:
            s.trace.pop()

    def insts(s, fr, blk, i, S):
        L = fr.fn.blocks[blk]
        while i < len(L):
            ins = L[i]
            if ins.line: s.line = ins.line
            op = ins.op
            if op == "phi": i += 1; continue
            if op == "load":
                ty, pv, vol = ins.a
                p = s.val(fr, pv, TPtr())
                if isinstance(ty, (TStruct, TArr)): raise Unsupported("aggregate load")
                S, v = s.load(S, p, ty)
                fr.env[ins.res] = v
            elif op == "store":
                ty, v, pv, vol = ins.a
                p = s.val(fr, pv, TPtr())
                if isinstance(ty, (TStruct, TArr)): raise Unsupported("aggregate store")
                S = s.store(S, p, s.val(fr, v, ty), ty)
            elif op == "gep":
                st, b, idx = ins.a
                bp = s.val(fr, b, TPtr()); ix = [(it, s.val(fr, x, it)) for it, x in idx]
                j, n = s.small_array_index(st, ix)
                if j is not None:
                    s.prove([("index-in-bounds", z3.And(ix[j][1] >= 0, ix[j][1] < n))])
                    al = []
                    for v in range(n):
                        x2 = list(ix); x2[j] = (ix[j][0], s.num(v, ix[j][0].n)); al.append((ix[j][1] == v, s.gep(st, bp, x2)))
                    nx = L[i + 1]
                    if nx.op == "load" and nx.a[1] == ("l", ins.res) and bp.priv is None:
                        fr.env[ins.res] = Ptr(al[-1][1].base, al[-1][1].off); fr.env[ins.res].alts = al
                        i += 1; continue
                    def g(v, fr=fr, ins=ins, i=i):
                        def go():
                            f2 = fr.copy(); f2.env[ins.res] = v[1]; s.trace.append("element %d" % v[0])
                            s.insts(f2, blk, i + 1, S); s.trace.pop()
                        return go
                    s.fork([(c, g((m, v))) for m, (c, v) in enumerate(al)])
                    return
                fr.env[ins.res] = s.gep(st, bp, ix)
            elif op == "icmp":
                pr, ty, a, b = ins.a
                fr.env[ins.res] = s.icmp(pr, ty, s.val(fr, a, ty), s.val(fr, b, ty))
            elif op == "fcmp": fr.env[ins.res] = fresh("fcmp", z3.BoolSort())
            elif op == "fneg": fr.env[ins.res] = FloatV(None)
            elif op == "bin":
                o, ty, a, b, fl = ins.a
                r = s.binop(o, ty, s.val(fr, a, ty), s.val(fr, b, ty), fl)
                if z3.is_expr(r): r = z3.simplify(r)
                fr.env[ins.res] = r
            elif op == "cast":
                o, t1, v, t2 = ins.a
                r = s.cast(o, t1, s.val(fr, v, t1), t2)
                if z3.is_expr(r): r = z3.simplify(r)
                fr.env[ins.res] = r
            elif op == "select":
                c, ty, a, b = ins.a
                cv, av, bvv = s.val(fr, c, TInt(1)), s.val(fr, a, ty), s.val(fr, b, ty)
                if isinstance(av, Ptr):
                    if av.off == bvv.off and av.priv == bvv.priv: r = Ptr(z3.If(cv, av.base, bvv.base), av.off, av.priv)
                    elif av.priv is None and bvv.priv is None: r = Ptr(z3.If(cv, av.addr(), bvv.addr()), 0)
                    else: raise Unsupported("select of pointers")
                else: r = z3.simplify(z3.If(cv, av, bvv))
                fr.env[ins.res] = r
            elif op == "freeze": fr.env[ins.res] = s.val(fr, ins.a[1], ins.a[0])
            elif op == "alloca":
                ty, n = ins.a
                nm = "%s.%s.%d" % (fr.fn.name, ins.res, fr.depth)
                fr.env[ins.res] = Ptr(z3.Const("A_" + nm, s.sort(64)), 0, nm)
                s.spec.on_alloca(s, S, fr.env[ins.res], ty, n)
            elif op == "extractvalue":
                ty, v, ix = ins.a
                x = s.val(fr, v, ty)
                for j in ix: x = x.els[j]
                fr.env[ins.res] = x
            elif op == "insertvalue":
                ty, v, t2, v2, ix = ins.a
                x = s.val(fr, v, ty); nx = Agg(x.els)
                if len(ix) != 1: raise Unsupported("insertvalue")
                nx.els[ix[0]] = s.val(fr, v2, t2); fr.env[ins.res] = nx
            elif op == "fence": pass
            elif op == "asm":
                txt, cons, args, rty = ins.a
                av = [s.val(fr, v, ty) for ty, v in args]
                def ka(S2, r, fr=fr, ins=ins, i=i):
                    f2 = fr.copy()
                    if r is not None and ins.res: f2.env[ins.res] = r
                    s.insts(f2, blk, i + 1, S2)
                if s.spec.asm_k(s, S, txt, cons, av, ka): return
                r = s.spec.asm(s, S, txt, cons, av)
                if r is not None and ins.res: fr.env[ins.res] = r
            elif op == "cmpxchg":
                ty, pv, c, n = ins.a
                p = s.val(fr, pv, TPtr()); ce, ne = s.asbv(s.val(fr, c, ty)), s.asbv(s.val(fr, n, ty))
                size = s.mod.size(ty)
                def k(S2, okb, fr=fr, ins=ins, i=i, ty=ty, ce=ce):
                    f2 = fr.copy()
                    oldv = s.fromval(ce, ty) if okb else s.fromval(s.freshw("casold", size * 8), ty)
                    f2.env[ins.res] = Agg([oldv, z3.BoolVal(okb)])
                    s.insts(f2, blk, i + 1, S2)
                s.cas(S, p, size, ce, ne, k)
                return
            elif op == "rmw":
                o, ty, pv, v = ins.a
                p = s.val(fr, pv, TPtr()); x = s.asbv(s.val(fr, v, ty))
                f = {"xchg": lambda a: x, "add": lambda a: a + x, "sub": lambda a: a - x, "or": lambda a: a | x, "and": lambda a: a & x, "xor": lambda a: a ^ x}.get(o)
                if f is None: raise Unsupported("atomicrmw " + o)
                S, old = s.rmw(S, p, s.mod.size(ty), f, o)
                fr.env[ins.res] = s.fromval(old, ty)
            elif op == "call":
                if s.do_call(fr, blk, i, ins, S): return
                S = s._callS
            elif op == "br":
                c = ins.a[0]
                if c is None: s.goto(fr, blk, ins.a[1], S); return
                cv = s.val(fr, c, TInt(1))
                tl, fl = ins.a[1], ins.a[2]
                line = s.line
                def g(dst):
                    def go():
                        f2 = fr.copy(); s.line = line
                        s.goto(f2, blk, dst, S)
                    return go
                s.fork([(cv, g(tl)), (z3.Not(cv), g(fl))])
                return
            elif op == "switch":
                ty, v, d, cs = ins.a
                x = s.val(fr, v, ty); alts = []; neg = []
                def g(dst):
                    def go():
                        f2 = fr.copy(); s.goto(f2, blk, dst, S)
                    return go
                for c, b in cs:
                    e = x == s.val(fr, c, ty); alts.append((e, g(b))); neg.append(z3.Not(e))
                alts.append((z3.And(neg) if neg else z3.BoolVal(True), g(d)))
                s.fork(alts)
                return
            elif op == "ret":
                for lc in fr.loops:
                    if lc.dry: return
                saved = list(s.activeloops)
                s.activeloops = [l for l in s.activeloops if l not in fr.loops]
                v = None if ins.a is None else s.val(fr, ins.a[1], ins.a[0])
                fr.k(S, v)
                s.activeloops = saved
                return
            elif op == "unreachable":
                s.prove([("unreachable", z3.BoolVal(False))]) if s.spec.check_unreachable else None
                return
            else: raise Unsupported("op " + op)
            i += 1

    NOOPS = ("llvm.prefetch", "llvm.stacksave", "llvm.stackrestore", "llvm.assume")

    def do_call(s, fr, blk, i, ins, S):
        """returns True if the continuation was handled; else sets s._callS"""
        rty, callee, argv, byval = ins.a
        s._callS = S
        nm = callee[1] if callee[0] == "g" else None
        if nm and nm.startswith(s.NOOPS): 
            if ins.res: fr.env[ins.res] = Ptr(fresh("x", s.sort(64)))
            return False
        if nm and nm.startswith("llvm.expect"):
            fr.env[ins.res] = s.val(fr, argv[0][1], argv[0][0]); return False
        if nm and nm.startswith("llvm.threadlocal.address"):
            fr.env[ins.res] = s.spec.tls_ptr(s, S, argv[0][1][1]); return False
        args = [s.val(fr, v, ty) for ty, v in argv]
        line = s.line
        def cont(S2, v, fr=fr):
            f2 = fr.copy()
            if ins.res is not None:
                if v is None: raise Unsupported("void result used")
                f2.env[ins.res] = v
            s.line = line
            s.insts(f2, blk, i + 1, S2)
        if nm is None:
            s.spec.on_icall(s, S, s.val(fr, callee, TPtr()), args, cont)
            return True
        h = s.spec.contract(nm)
        if h is not None:
            s.assumed_calls.add(nm)
            h(s, S, args, cont)
            return True
        st = getattr(s, "stub_" + nm.replace(".", "_").lstrip("_"), None)
        if nm in s.spec.inline_only: st = None
        if st is not None:
            st(S, args, cont)
            return True
        fn = s.mod.func(nm)
        if fn is not None:
            if byval or fn.byval: raise Unsupported("byval call " + nm)
            s.trace.append("call " + nm); s.inlined.add(nm)
            s.call(fn, args, S, cont, fr.depth + 1)
            s.trace.pop()
            return True
        r = s.spec.extern(s, S, nm, args, rty, cont)
        if r: return True
        raise Unsupported("call of unknown function " + nm)

    # stubs: contracts of the primitives (discharged by property atomic-primitives)
    def stub_SWAP(s, S, a, k):
        S, old = s.rmw(S, a[0], 8, lambda o: s.asbv(a[1]), "SWAP"); k(S, Ptr(old))
    def _casb(s, S, a, size, k):
        s.cas(S, a[0], size, s.asbv(a[1]), s.asbv(a[2]), lambda S2, ok: k(S2, z3.BoolVal(ok)))
    def stub_CASPTR(s, S, a, k): s._casb(S, a, 8, k)
    def stub_CAS64(s, S, a, k): s._casb(S, a, 8, k)
    def stub_CAS32(s, S, a, k): s._casb(S, a, 4, k)
    def stub_CAS128(s, S, a, k):
        s.cas128(S, a[0], *[s.asbv(x) for x in a[1:]], k=lambda S2, ok: k(S2, z3.BoolVal(ok)))
    def stub_FAA32(s, S, a, k):
        S, old = s.rmw(S, a[0], 4, lambda o: o + a[1], "FAA"); k(S, old)
    def stub_FAA64(s, S, a, k):
        S, old = s.rmw(S, a[0], 8, lambda o: o + a[1], "FAA"); k(S, old)
    def stub_BitTAS64(s, S, a, k):
        if s.spec.intmode: raise Unsupported("BitTAS in int mode")
        m = bv(1) << z3.ZeroExt(56, a[1])
        S, old = s.rmw(S, a[0], 8, lambda o: o | m, "BitTAS"); k(S, old)
    def stub_synchResched(s, S, a, k): k(S, None)
    def stub_synchGetMachineModel(s, S, a, k): k(S, getattr(s.spec, "model", None) if getattr(s.spec, "model", None) is not None else s.freshw("machine", 64))
    def stub_printf(s, S, a, k): k(S, s.freshw("io", 32))
    def stub_fprintf(s, S, a, k): k(S, s.freshw("io", 32))
    def stub_perror(s, S, a, k): k(S, None)

    # ---------------------------------------------------------------- loops (Houdini)
    def loop(s, fr, header, body, phis, S):
        key = (fr.fn.name, header)
        entry = {n: v for n, ty, v in phis}
        line = s.line
        itk = ("#iterations." + header, 0, 8)       # ghost counter of this loop's iterations
        if s.spec.count_iterations:
            S = S.child(); S.priv[itk] = Arr.new("it", s.sort(64), s.sort(64)).store(s.num(0, 64), s.num(0, 64))
        cands = s.candidates(fr, phis, S)
        # the hypotheses of an enclosing loop only shrink while its invariant is being inferred, so what was refuted on this path before stays refuted
        ck = (tuple(s.trace), header)
        if ck in s.loopcache: cands = [c for c in cands if c.name in s.loopcache[ck]]
        # keep the ones that hold on entry
        c0 = cands
        cands = s.filter(cands, [(n, c.fn(entry, S)) for n, c in enumerate(cands)])
        if s.verbose > 2: print("loop", line, "dropped at entry:", [c.name for c in c0 if c not in cands])
        try_rely = not s.spec.forget        # as long as the loop is not known to write shared memory
        while True:
            s.push(); ctx = s.fresh_ctx(fr)
            try:
                f2, S2, heads = s.loop_head(fr, phis, entry, S, cands, try_rely)
                lc = LoopCtx(header, body, True)
                bad = set()
                back = []
                def onback(Sb, ph, heads=heads):
                    if s.spec.count_iterations:
                        Sb = Sb.child(); Sb.priv[itk] = Sb.priv[itk].store(s.num(0, 64), Sb.priv[itk][s.num(0, 64)] + 1)
                    cur = {n: v for n, ty, v in ph}
                    if try_rely and not lc.dirty and s.changed(Sb, S2): lc.dirty = True
                    if try_rely and lc.dirty: return
                    rest = [(j, c.fn(cur, Sb)) for j, c in enumerate(cands) if j not in bad]
                    bad.update(j for j in s.failing(rest))
                    back.append(1)
                lc.onback = onback
                f2.loops.append(lc)
                al = s.activeloops
                s.activeloops = al + [lc]
                s.dry += 1
                try: s.block(f2, header, None, S2)
                finally:
                    s.dry -= 1; s.activeloops = al
                if lc.dirty and try_rely:
                    try_rely = False; bad = set(); continue_ = True
                else: continue_ = bool(bad)
            finally:
                s.leave_ctx(ctx); s.pop()
            if not continue_: break
            if s.verbose > 2: print("loop", line, "dropped not inductive:", [c.name for j, c in enumerate(cands) if j in bad])
            cands = [c for j, c in enumerate(cands) if j not in bad]
        s.loopcache[ck] = {c.name for c in cands}
        if not s.dry:
            s.loop_invs[(fr.fn.name, line)] = [c.name for c in cands]
            for c in cands: s.obligations.append((s.oname("loop-invariant[%s]@%s" % (c.name, line)), line, "ok", 0.0))
        # final pass
        s.push(); ctx = s.fresh_ctx(fr)
        try:
            f2, S2, heads = s.loop_head(fr, phis, entry, S, cands, try_rely)
            lc = LoopCtx(header, body, False)
            lc.onback = lambda Sb, ph: None
            f2.loops.append(lc)
            al = s.activeloops
            s.activeloops = al + [lc]
            try: s.block(f2, header, None, S2)
            finally: s.activeloops = al
        finally:
            s.leave_ctx(ctx); s.pop()

    def loop_head(s, fr, phis, entry, S, cands, try_rely):
        f2 = fr.copy(); heads = {}
        for n, ty, v in phis:
            if isinstance(v, Ptr):
                nv = Ptr(fresh("phi_" + n, s.sort(64)), v.off, v.priv)
            elif z3.is_bool(v): nv = fresh("phi_" + n, z3.BoolSort())
            elif isinstance(v, FloatV): nv = FloatV(None)
            elif isinstance(v, Agg): raise Unsupported("agg phi")
            else: nv = fresh("phi_" + n, v.sort())
            f2.env[n] = nv; heads[n] = nv
        if try_rely:
            S2 = s.env(S)
            if s.spec.sequential: S2 = S2.child()
        else:
            S2 = State(s.spec, S, "env")
            if not s.spec.sequential: s.assume_inv(S2)
            else:       # an invariant of a sequential contract is a candidate like any other
                for c in s.spec.lemmas(S2): s.add_schema(c, (S2.id,))
                for so, t in s.spec.terms(S2): s.add_term(so, t, S2.id)
        for k in list(S2.priv): S2.priv[k] = Arr.new("P", S2.priv[k].dom(), S2.priv[k].range())
        for n, ty, v in phis:
            if isinstance(heads[n], Ptr): s.add_term(OBJ, heads[n])
        for c in cands:
            if c.clause is not None: s.add_schema(c.clause(heads, S2), (S2.id,))
            else: s.add(c.fn(heads, S2))
        s.spec.loop_terms(s, S2, heads)
        return f2, S2, heads

    @staticmethod
    def changed(Sb, S):
        """did this thread change memory or ghost state between the two states (calls of functions outside may do so)?"""
        while Sb is not None and Sb is not S:
            if Sb.kind == "own" and Sb.parent is not None:
                for tab, get in ((Sb.gh, Sb.parent.g), (Sb.mem, Sb.parent.M)):
                    for n, v in tab.items():
                        o = get(n)
                        if not (v is o or (isinstance(v, Arr) and v.same(o)) or (z3.is_expr(v) and v.eq(o))): return True
            Sb = Sb.parent
        return False

    def skolem(s, so, i):
        """the i-th arbitrary constant of a sort (used in the goals of quantified loop invariants; nothing is ever assumed about it)"""
        t = z3.Const("arbitrary_%s%d" % (so, i), s.sort(64) if so == OBJ else z3.IntSort())
        s.add_term(so, t); return t

    def prove_clauses(s, clauses, S, prefix=""):
        """each clause holds for every object/thread/index in state S"""
        s.push()
        try:
            g = []
            for c in clauses: g.append((prefix + c.name, c.fn(*[s.skolem(so, i) for so, i in numbered(c.sorts)])))
            s.prove(g)
        finally: s.pop()

    def assume_clauses(s, clauses, S):
        for c in clauses: s.add_schema(c, (S.id,))

    def undropped(s, j):
        """an invariant candidate was given up because the solver had no answer in time"""
        s.gaveup.append("%s line %s #%s%s" % (s.fname, s.line, j, " (too slow)" if s.lastdt * 1000 > 0.9 * s.timeout else ""))
        if s.verbose: print("gave up on candidate", s.gaveup[-1], s.candname(j), flush=True)
    candname = staticmethod(str)

    def failing(s, items):
        """items: (id, term). returns ids not implied"""
        out = []
        items = [(j, t) for j, t in items if not z3.is_true(z3.simplify(t))]
        while items:
            r = s.check(z3.Not(z3.And([t for _, t in items])))
            if r == z3.unsat: return out
            if r == z3.unknown:
                # drop one by one
                for j, t in items:
                    r = s.check(z3.Not(t))
                    if r == z3.unknown: s.undropped(j)
                    if r != z3.unsat: out.append(j)
                return out
            m = s.solver.model()
            keep = []
            for j, t in items:
                v = m.eval(t, model_completion=True)
                if z3.is_false(v): out.append(j)
                else: keep.append((j, t))
            if len(keep) == len(items):
                # model evaluation not conclusive
                keep = []
                for j, t in items:
                    r = s.check(z3.Not(t))
                    if r == z3.unknown: s.undropped(j)
                    if r != z3.unsat: out.append(j)
                return out
            items = keep
        return out

    def filter(s, cands, items):
        bad = set(s.failing(items))
        return [c for j, c in enumerate(cands) if j not in bad]

    def candidates(s, fr, phis, S):
        C = []
        class Cand:
            __slots__ = ("name", "fn", "clause")
            def __init__(c, name, fn, clause=None): c.name, c.fn, c.clause = name, fn, clause
        def a(name, fn): C.append(Cand(name, fn))
        mine = [("inv." + c.name, (lambda ph, X, n=n: s.spec.inv(X)[n])) for n, c in enumerate(s.spec.inv(S))] if s.spec.sequential else []
        for nm, mk in list(s.spec.loop_clauses(s, S, fr, phis)) + mine:     # quantified candidates: mk(phi values, state) -> Clause
            sks = [s.skolem(so, i) for so, i in numbered(mk({n: v for n, ty, v in phis}, S).sorts)]
            C.append(Cand(nm, lambda ph, X, mk=mk, sks=sks: mk(ph, X).fn(*sks), mk))
        if s.spec.own_candidates:
            for nm, fn in s.spec.loop_cands(s, S, fr, phis): a(nm, fn)
            return C
        base = []   # phi independent
        def b(name, fn): base.append((name, fn))
        live = {}
        for n, v in fr.env.items():
            if isinstance(v, Ptr) and v.priv is None: live.setdefault(z3.simplify(v.base).get_id(), (n, z3.simplify(v.base)))
        for n, t in s.spec.named_objs(S): live.setdefault(z3.simplify(t).get_id(), (n, z3.simplify(t)))
        live = [(n, t) for n, t in live.values() if not z3.is_bv_value(t) and not z3.is_int_value(t)]
        forget = s.spec.forget          # what relates to a value in an earlier state is not usable then
        for g, so in s.spec.ghosts.items():
            if g in s.spec.local_ghosts or forget: continue
            if not isinstance(so, ArrSort):
                b("same(%s)" % g, lambda ph, X, g=g, e=S.g(g): X.g(g) == e)
            else:
                if s.spec.ghost_dom.get(g, OBJ) == OBJ:
                    for n, t in live: b("same(%s[%s])" % (g, n), lambda ph, X, g=g, t=t, e=S.g(g): Select(X.g(g), t) == Select(e, t))
                elif s.spec.ghost_dom.get(g, TID) == TID:
                    t = s.spec.tid
                    if t is not None: b("same(%s[me])" % g, lambda ph, X, g=g, t=t, e=S.g(g): Select(X.g(g), t) == Select(e, t))
        for key in sorted(s.spec.keys if not forget else []):
            for n, t in live:
                b("same(+%d.%d[%s])" % (key[0], key[1], n), lambda ph, X, k=key, t=t, e=S.M(key): Select(X.M(k), t) == Select(e, t))
        for key, arr in S.priv.items():
            pts = [z3.Const("A_" + key[0], s.sort(64))] + [i for i, _ in arr.ups]
            for i in pts: b("same(priv %s)" % (key,), lambda ph, X, k=key, e=arr, i=i: X.priv[k][i] == e[i])
        for nm, fn in s.spec.preds(s, S): b(nm, lambda ph, X, fn=fn: fn(X))
        if forget:
            for n, t in live:
                if s.has_state(t):
                    for m, fn in s.spec.ghost_objs(): b("%s is %s" % (n, m), lambda ph, X, t=t, fn=fn: t == fn(X))
        for nm, fn in base: a(nm, fn)
        def eq(x, y): return s.asbv(x) == s.asbv(y) if not (z3.is_expr(x) and z3.is_bool(x)) else x == y
        ints = [(n, v) for n, v in fr.env.items() if z3.is_expr(v) and (z3.is_bv(v) or z3.is_int(v)) and not (forget and s.has_state(v))]
        if forget: live = [(n, t) for n, t in live if not s.has_state(t)]
        ph = [(n, ty, v) for n, ty, v in phis if not isinstance(v, (FloatV, Agg))]
        for n, ty, v in ph:
            if isinstance(v, Ptr):
                a("%s=entry" % n, lambda p, X, n=n, v=v: p[n].base == v.base)
                a("%s!=0" % n, lambda p, X, n=n: p[n].base != 0)
                for m, t in live: a("%s=%s" % (n, m), lambda p, X, n=n, t=t: p[n].base == t)
                for m, fn in s.spec.ghost_objs(): 
                    a("%s=%s" % (n, m), lambda p, X, n=n, fn=fn: p[n].base == fn(X))
                for n2, ty2, v2 in ph:
                    if n2 != n and isinstance(v2, Ptr): a("%s=%s" % (n, n2), lambda p, X, n=n, n2=n2: p[n].base == p[n2].base)
                for m, fn in s.spec.obj_preds(): a("%s(%s)" % (m, n), lambda p, X, n=n, fn=fn: fn(X, p[n].base))
            elif z3.is_bool(v):
                a("%s=entry" % n, lambda p, X, n=n, v=v: p[n] == v)
            else:
                a("%s=entry" % n, lambda p, X, n=n, v=v: p[n] == v)
                a("%s>=0" % n, lambda p, X, n=n: p[n] >= 0)
                a("%s>=entry" % n, lambda p, X, n=n, v=v: p[n] >= v)
                if z3.is_bv(v): a("%s>=u entry" % n, lambda p, X, n=n, v=v: z3.UGE(p[n], v))
                a("%s<=entry" % n, lambda p, X, n=n, v=v: p[n] <= v)
                for m, t in ints:
                    if t.sort() == v.sort():
                        a("%s<=%s" % (n, m), lambda p, X, n=n, t=t: p[n] <= t)
                        if z3.is_bv(v): a("%s<=u%s" % (n, m), lambda p, X, n=n, t=t: z3.ULE(p[n], t))
        for nm, fn in s.spec.loop_cands(s, S, fr, phis): a(nm, fn)
        if s.spec.count_iterations:
            z = s.num(0, 64)
            its = [k for k in S.priv if k[0].startswith("#iterations")]
            def w64(x): return x if x.sort() == s.sort(64) else z3.ZeroExt(64 - x.size(), x)
            for it in its:
                for n, ty, v in ph:
                    if isinstance(v, Ptr) or z3.is_bool(v): continue
                    a("%s=entry+iterations" % n, lambda p, X, n=n, v=v, it=it: w64(p[n]) == w64(v) + X.priv[it][z])
                    a("%s+iterations=entry" % n, lambda p, X, n=n, v=v, it=it: w64(p[n]) + X.priv[it][z] == w64(v))
                for key, arr in S.priv.items():
                    if key in its or key[2] > 8: continue
                    b0 = z3.Const("A_" + key[0], s.sort(64)); e0 = arr[b0]
                    a("%s=entry+iterations" % key[0], lambda p, X, key=key, e0=e0, b0=b0, it=it: w64(X.priv[key][b0]) == w64(e0) + X.priv[it][z])
                    a("%s+iterations=entry" % key[0], lambda p, X, key=key, e0=e0, b0=b0, it=it: w64(X.priv[key][b0]) + X.priv[it][z] == w64(e0))
                    a("%s<=u0" % key[0], lambda p, X, key=key, b0=b0: z3.ULE(X.priv[key][b0], e0))
            for nm, fn in s.spec.iter_cands(s, S): a(nm, fn)
        if ph:
            entryv = [(n, v) for n, ty, v in ph]
            def first(p): return z3.And([eq(p[n], v) for n, v in entryv])
            for nm, fn in base:
                if nm.startswith("same(priv"): continue
                a("first->" + nm, lambda p, X, fn=fn: z3.Implies(first(p), fn(p, X)))
                a("first|" + nm, lambda p, X, fn=fn: z3.Or(first(p), fn(p, X)))
            for n, ty, v in ph:
                if not isinstance(v, Ptr) and not z3.is_bool(v):
                    for nm, fn in s.spec.preds(s, S):
                        a("%s=entry|%s" % (n, nm), lambda p, X, n=n, v=v, fn=fn: z3.Or(p[n] == v, fn(X)))
        return C


class Spec:
    """base class of contract modules"""
    sequential = False
    intmode = True
    def sort(s, w): return z3.IntSort() if s.intmode else BV(w)
    simple_solver = True
    forget = False          # a loop head forgets everything about earlier states but its invariant
    parallel = False        # explore branches in several processes
    dry_rlimit = None       # solver resources per query while invariants are being inferred
    own_candidates = False  # loop invariants are looked for among the contract's own candidates only
    check_overflow = False
    check_unreachable = False
    allow_interior = False
    byte_offsets = False    # constant byte offsets denote fields (the optimiser splits structure copies that way)
    rely_tids = None        # representatives of the threads whose rely differs (default: the verified thread)
    private = None          # fn(S,o,u) -> Bool : o is private to thread u
    local_ghosts = ()
    ghosts = {}
    ghost_dom = {}
    inline_only = ()
    tid = None
    def __init__(s):
        s.fields = {}; s.keys = set()
    def inv(s, S): return []
    def lemmas(s, S): return []        # facts that follow from the definition of ghost values (assumed, not maintained by proof)
    def terms(s, S): return []
    def skolem_terms(s, S, S2, sk, u): return []
    def rely(s, S1, S2, u): return []
    def on_read(s, e, S, base, key, v): return None
    def on_write(s, e, S, S2, writes, rmw): return None
    def on_icall(s, e, S, f, args, k): raise Unsupported("indirect call")
    def on_alloca(s, e, S, p, ty, n): pass
    def contract(s, name): return None
    def extern(s, e, S, name, args, rty, k): return False
    def asm(s, e, S, txt, cons, args): 
        t = txt.strip('"')
        if t in ("sfence", "lfence", "mfence", "pause", ""): return None
        raise Unsupported("inline asm " + txt)
    def asm_k(s, e, S, txt, cons, args, k): return False
    def global_ptr(s, e, name): return None
    def tls_ptr(s, e, S, name): return Ptr(z3.Const("TLS_" + name, s.sort(64)), 0, "tls." + name)
    def access_check(s, e, S, base, key, rw): pass
    def is_mover(s, e, S, base, key, rw): return False
    def typed_read(s, S, base, key, v): return v
    def named_objs(s, S): return []
    def canon_objs(s): return []       # objects whose address the code computes by indexing
    def ghost_objs(s): return []
    def obj_preds(s): return []
    def preds(s, e, S): return []
    def loop_terms(s, e, S, heads): pass
    def cut(s, e, fr, S): return None       # (key, facts) if the path may be cut here
    def cut_value(s, e, v): return v
    def cut_facts(s, X, key): raise NotImplementedError
    def loop_cands(s, e, S, fr, phis): return []
    def loop_clauses(s, e, S, fr, phis): return []
    wrap = False            # integer mode: additions and subtractions of machine words wrap around
    def arith(s, e, op, w, a, b): return None
    def elem(s, e, base, off, i, sz): return None
    def on_term(s, e, sort, t): pass   # facts about a term that follow from its form
    def place(s, e, p): return p       # an object embedded in another one may be addressed as an object of its own
    count_iterations = False
    witness = ()
    def iter_cands(s, e, S): return []
    def iterations(s, S): return [S.priv[k] for k in S.priv if k[0].startswith("#iterations")]
