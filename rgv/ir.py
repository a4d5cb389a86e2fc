"""LLVM-IR front end of rgv.

Every run compiles /repo's current translation units with clang at -O0, promotes locals to SSA with
`opt -passes=sroa,simplifycfg,...` (semantics preserving LLVM passes; volatile and escaping accesses are kept), and
parses the textual IR.  Nothing of /repo's code is hand-copied.
"""
import os, re, subprocess, tempfile, shutil, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
BASEFLAGS = ["-std=gnu89", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w"]


class Unsupported(Exception):
    pass


def incs(repo=None):
    repo = repo or REPO
    return ["-I%s/libconcurrent/includes" % repo, "-I%s/libconcurrent" % repo]


def compile_ll(src, flags=(), passes="sroa,simplifycfg,loop-simplify", extra_text=None, linked=()):
    """compile the C file `src` (path) to optimised textual IR; returns text."""
    d = tempfile.mkdtemp(prefix="rgv_ir_")
    try:
        out = os.path.join(d, "a.ll")
        cmd = [CLANG] + BASEFLAGS + list(flags) + incs() + ["-S", "-emit-llvm", src, "-o", out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Unsupported("clang failed on %s: %s" % (src, r.stdout[-2000:]))
        out2 = os.path.join(d, "b.ll")
        r = subprocess.run([OPT, "-S", "-passes=" + passes, out, "-o", out2], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Unsupported("opt failed on %s: %s" % (src, r.stdout[-2000:]))
        return open(out2).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ types
class Ty:
    pass


class TInt(Ty):
    def __init__(s, n): s.n = n
    def __repr__(s): return "i%d" % s.n


class TPtr(Ty):
    def __repr__(s): return "ptr"


class TVoid(Ty):
    def __repr__(s): return "void"


class TFloat(Ty):
    def __init__(s, n): s.n = n
    def __repr__(s): return "f%d" % s.n


class TArr(Ty):
    def __init__(s, n, el): s.n, s.el = n, el
    def __repr__(s): return "[%d x %r]" % (s.n, s.el)


class TStruct(Ty):
    def __init__(s, name, els, packed=False): s.name, s.els, s.packed = name, els, packed
    def __repr__(s): return s.name or "{%s}" % s.els


class TOther(Ty):
    def __init__(s, txt): s.txt = txt
    def __repr__(s): return s.txt


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|[%@]"[^"]*"|[%@][-\w$.]+|![-\w.]*|\#\d+|"(?:[^"\\]|\\.)*"|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[\[\]{}()<>,=*:|])''')


def toks(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].strip().startswith(";"):
                break
            raise Unsupported("token: " + s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out


class P:
    """token cursor"""
    def __init__(s, mod, t): s.mod, s.t, s.i = mod, t, 0
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def expect(s, x):
        if not s.eat(x): raise Unsupported("expected %s got %s in %s" % (x, s.peek(), " ".join(s.t)))

    def type(s):
        t = s.next()
        if t == "ptr":
            if s.peek() == "addrspace":
                raise Unsupported("addrspace")
            return TPtr()
        if t == "void": return TVoid()
        if t == "double": return TFloat(64)
        if t == "float": return TFloat(32)
        if t == "x86_fp80": return TFloat(80)
        if t == "metadata": return TOther("metadata")
        if re.match(r"i\d+$", t): return TInt(int(t[1:]))
        if t == "[":
            n = int(s.next()); s.expect("x"); el = s.type(); s.expect("]"); return TArr(n, el)
        if t == "{":
            els = []
            if not s.eat("}"):
                while True:
                    els.append(s.type())
                    if s.eat("}"): break
                    s.expect(",")
            return TStruct(None, els)
        if t == "<":
            if s.peek() == "{":
                s.next(); els = []
                while True:
                    els.append(s.type())
                    if s.eat("}"): break
                    s.expect(",")
                s.expect(">")
                return TStruct(None, els, True)
            n = s.next(); s.expect("x"); el = s.type(); s.expect(">")
            return TOther("<%s x %r>" % (n, el))
        if t[0] == "%":
            n = t[1:].strip('"')
            return s.mod.named(n)
        raise Unsupported("type " + t + " in " + " ".join(s.t))

    ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "writeonly", "readnone", "immarg",
             "noalias", "returned", "inreg", "nofpclass", "noreturn", "nounwind", "tail", "notail", "musttail", "local_unnamed_addr",
             "unnamed_addr", "dso_local", "internal", "private", "external", "inbounds", "nuw", "nsw", "exact",
             "disjoint", "nneg", "fastcc", "ccc", "weak", "linkonce_odr", "hidden", "nest", "swiftself", "allocalign", "allocptr",
             "inrange", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}

    def attrs(s):
        while True:
            t = s.peek()
            if t in s.ATTRS: s.i += 1; continue
            if t in ("align",) and s.peek(1) is not None and (s.peek(1).isdigit()): s.i += 2; continue
            if t in ("dereferenceable", "dereferenceable_or_null", "align", "byval", "sret", "byref", "elementtype", "range", "captures") and s.peek(1) == "(":
                isbyval = t in ("byval", "sret")
                s.i += 1; d = 0
                while True:
                    x = s.next()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break
                if isbyval: s.mod.saw_byval = True
                continue
            break

    def value(s, ty):
        """returns a value tuple"""
        t = s.next()
        if t[0] == "%": return ("l", t[1:].strip('"'))
        if t[0] == "@": return ("g", t[1:].strip('"'))
        if re.match(r"-?\d+$", t): return ("c", int(t), ty)
        if re.match(r"-?\d+\.|0x", t): return ("f", t)
        if t == "true": return ("c", 1, ty)
        if t == "false": return ("c", 0, ty)
        if t == "null": return ("c", 0, ty)
        if t in ("undef", "poison"): return ("u", ty)
        if t == "zeroinitializer": return ("z", ty)
        if t == "getelementptr":
            s.attrs(); s.expect("(")
            st = s.type(); s.expect(",")
            pt = s.type(); s.attrs(); base = s.value(pt); idx = []
            while s.eat(","):
                s.attrs(); it = s.type(); idx.append((it, s.value(it)))
            s.expect(")")
            return ("gep", st, base, idx)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            s.expect("("); a = s.type(); v = s.value(a); s.expect("to"); b = s.type(); s.expect(")")
            return ("cast", t, a, v, b)
        if t in ("add", "sub", "mul", "and", "or", "xor", "shl"):
            s.attrs(); s.expect("("); a = s.type(); x = s.value(a); s.expect(","); b = s.type(); y = s.value(b); s.expect(")")
            return ("cbin", t, a, x, y)
        if t in ("{", "[", "<"):
            # aggregate constant
            close = {"{": "}", "[": "]", "<": ">"}[t]
            els = []
            if t == "<" and s.peek() == "{":
                s.next(); close = "}"
            if s.eat(close): return ("agg", ty, els)
            while True:
                et = s.type(); els.append((et, s.value(et)))
                if s.eat(close): break
                s.expect(",")
            if t == "<" and close == "}": s.expect(">")
            return ("agg", ty, els)
        if t.startswith('c"'): return ("str", t)
        if t.startswith("!"): return ("md", t)
        raise Unsupported("value " + t + " in " + " ".join(s.t))


class Inst:
    __slots__ = ("op", "res", "a", "line", "txt")
    def __init__(s, op, res, a, line, txt): s.op, s.res, s.a, s.line, s.txt = op, res, a, line, txt
    def __repr__(s): return s.txt


class Func:
    def __init__(s, name, rty, params):
        s.name, s.rty, s.params, s.blocks, s.order = name, rty, params, {}, []
    def loops(s):
        """header -> set(blocks)  natural loops by back edges (dominator based on DFS, reducible CFG assumed)"""
        if hasattr(s, "_loops"): return s._loops
        succ = {b: s.succ(b) for b in s.order}
        pred = {b: [] for b in s.order}
        for b in s.order:
            for c in succ[b]: pred[c].append(b)
        entry = s.order[0]
        # dominators
        dom = {b: set(s.order) for b in s.order}; dom[entry] = {entry}
        reach = set(); st = [entry]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st += succ[x]
        ch = True
        while ch:
            ch = False
            for b in s.order:
                if b == entry or b not in reach: continue
                ps = [dom[p] for p in pred[b] if p in reach]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]: dom[b] = n; ch = True
        s._dom = dom; loops = {}
        for b in reach:
            for c in succ[b]:
                if c in dom[b]:
                    body = loops.setdefault(c, {c})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += pred[x]
        # irreducible check
        color = {}
        def dfs(x):
            stack = [(x, iter(succ[x]))]; color[x] = 1
            while stack:
                n, it = stack[-1]
                for c in it:
                    if color.get(c) == 1:
                        if c not in dom[n]: raise Unsupported("irreducible loop in " + s.name)
                    elif c not in color:
                        color[c] = 1; stack.append((c, iter(succ[c]))); break
                else:
                    color[n] = 2; stack.pop()
        dfs(entry)
        s._loops = loops
        return loops
    def dominators(s, b):
        s.loops(); return s._dom[b] - {b}
    def succ(s, b):
        t = s.blocks[b][-1]
        if t.op == "br": return list(dict.fromkeys(t.a[1:])) if t.a[0] is not None else [t.a[1]]
        if t.op == "switch": return list(dict.fromkeys([t.a[2]] + [c[1] for c in t.a[3]]))
        return []


class Module:
    def __init__(s, text):
        s.text = text; s.types, s.funcs, s.decls, s.globals, s.raw = {}, {}, {}, {}, {}
        s.saw_byval = False
        s.dbg = {}
        s._defs = {}
        s.parse(text)

    def named(s, n):
        if n in s.types: return s.types[n]
        if n in s._defs:
            s.types[n] = st = TStruct(n, None)
            d = s._defs[n]
            if d.strip() == "opaque":
                st.els = []
                return st
            p = P(s, toks(d)); t = p.type()
            st.els, st.packed = t.els, t.packed
            return st
        raise Unsupported("type %" + n)

    def size(s, t):
        if isinstance(t, TInt): return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t.n]
        if isinstance(t, TPtr): return 8
        if isinstance(t, TFloat): return {32: 4, 64: 8, 80: 16}[t.n]
        if isinstance(t, TArr): return t.n * s.size(t.el)
        if isinstance(t, TStruct):
            off = 0
            for e in t.els:
                if not t.packed:
                    a = s.align(e); off = (off + a - 1) // a * a
                off += s.size(e)
            a = s.align(t)
            return (off + a - 1) // a * a
        raise Unsupported("size of %r" % t)

    def align(s, t):
        if isinstance(t, TArr): return s.align(t.el)
        if isinstance(t, TStruct): return 1 if t.packed else max([s.align(e) for e in t.els] + [1])
        return s.size(t)

    def fieldoff(s, t, i):
        off = 0
        for k, e in enumerate(t.els):
            if not t.packed:
                a = s.align(e); off = (off + a - 1) // a * a
            if k == i: return off
            off += s.size(e)
        raise Unsupported("field")

    def parse(s, text):
        lines = text.split("\n")
        for l in lines:
            m = re.match(r'%("?[-\w.$ ]+"?) = type (.*)$', l)
            if m: s._defs[m.group(1).strip('"')] = m.group(2)
            m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", l)
            if m: s.dbg[m.group(1)] = int(m.group(2))
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"):
                m = re.match(r'@("?[-\w.$]+"?) = (.*)$', l)
                s.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r'@("?[-\w.$]+"?)\(', l)
                s.decls[m.group(1).strip('"')] = l
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                m = re.search(r'@("?[-\w.$]+"?)\(', l)
                s.raw[m.group(1).strip('"')] = (l, lines[i + 1:j])
                i = j
            i += 1

    def func(s, name):
        if name in s.funcs: return s.funcs[name]
        if name not in s.raw: return None
        hdr, body = s.raw[name]
        f = s._func(name, hdr, body)
        s.funcs[name] = f
        return f

    def _func(s, name, hdr, body):
        h = hdr[len("define"):]
        h = re.sub(r"\s*(#\d+|!dbg !\d+)?\s*(#\d+|!dbg !\d+)?\s*\{\s*$", "", h)
        p = P(s, toks(h)); p.attrs(); rty = p.type()
        nm = p.next(); p.expect("(")
        params = []
        s.saw_byval = False
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    p.expect(")"); break
                ty = p.type(); p.attrs()
                params.append((ty, p.next()[1:].strip('"')))
                if p.eat(")"): break
                p.expect(",")
        f = Func(name, rty, params)
        f.byval = s.saw_byval
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            if l.strip() == "" or l.lstrip().startswith(";"):
                k += 1; continue
            m = re.match(r'("?[-\w.$]+"?):', l)
            if m:
                cur = m.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); k += 1; continue
            if cur is None:
                cur = "0"; f.blocks[cur] = []; f.order.append(cur)
            if l.strip().startswith("switch"):
                while "]" not in l:
                    k += 1; l += " " + body[k].strip()
            k += 1
            ins = s._inst(l)
            if ins is not None: f.blocks[cur].append(ins)
        return f

    def _inst(s, l):
        line = None
        m = re.search(r", !dbg !(\d+)", l)
        if m: line = s.dbg.get(m.group(1))
        txt = re.sub(r", ![\w.]+ ![\w.]+", "", l).strip()
        txt = re.sub(r"\s#\d+(?=\s*$|,)", "", txt)
        if "llvm.dbg." in txt or "llvm.lifetime" in txt: return None
        if " asm " in txt:
            m = re.match(r"(?:%([-\w.$]+) = )?(?:tail )?call (.*?) asm (?:sideeffect )?(?:alignstack )?(\"[^\"]*\"), (\"[^\"]*\")(\(.*\))", txt)
            if not m: raise Unsupported("asm: " + txt)
            # operands
            p = P(s, toks(m.group(5))); p.expect("("); args = []
            if not p.eat(")"):
                while True:
                    ty = p.type(); p.attrs(); args.append((ty, p.value(ty)))
                    if p.eat(")"): break
                    p.expect(",")
            pr = P(s, toks(m.group(2)));
            return Inst("asm", m.group(1), (m.group(3), m.group(4), args, pr.type()), line, txt)
        t = toks(txt)
        res = None
        if len(t) > 1 and t[1] == "=":
            res = t[0][1:].strip('"'); t = t[2:]
        p = P(s, t)
        op = p.next()
        I = lambda o, a: Inst(o, res, a, line, txt)
        if op in ("tail", "notail", "musttail"): op = p.next()
        if op == "ret":
            ty = p.type()
            return I("ret", None if isinstance(ty, TVoid) else (ty, p.value(ty)))
        if op == "br":
            if p.peek() == "label":
                p.next(); return I("br", (None, p.next()[1:].strip('"')))
            ty = p.type(); c = p.value(ty); p.expect(","); p.expect("label"); a = p.next()[1:].strip('"'); p.expect(","); p.expect("label"); b = p.next()[1:].strip('"')
            return I("br", (c, a, b))
        if op == "switch":
            ty = p.type(); v = p.value(ty); p.expect(","); p.expect("label"); d = p.next()[1:].strip('"'); p.expect("["); cs = []
            while not p.eat("]"):
                ct = p.type(); c = p.value(ct); p.expect(","); p.expect("label"); cs.append((c, p.next()[1:].strip('"')))
            return I("switch", (ty, v, d, cs))
        if op == "unreachable": return I("unreachable", ())
        if op == "phi":
            p.attrs(); ty = p.type(); inc = []
            while True:
                p.expect("["); v = p.value(ty); p.expect(","); b = p.next()[1:].strip('"'); p.expect("]"); inc.append((v, b))
                if not p.eat(","): break
            return I("phi", (ty, inc))
        if op == "load":
            vol = p.eat("atomic"); vol = p.eat("volatile") or vol
            ty = p.type(); p.expect(","); p.type(); return I("load", (ty, p.value(TPtr()), vol))
        if op == "store":
            vol = p.eat("atomic"); vol = p.eat("volatile") or vol
            ty = p.type(); v = p.value(ty); p.expect(","); p.type(); return I("store", (ty, v, p.value(TPtr()), vol))
        if op == "getelementptr":
            p.attrs(); st = p.type(); p.expect(","); p.type(); base = p.value(TPtr()); idx = []
            while p.eat(","):
                p.attrs(); it = p.type(); idx.append((it, p.value(it)))
            return I("gep", (st, base, idx))
        if op in ("icmp", "fcmp"):
            if op == "fcmp": p.attrs()
            if op == "icmp" and p.peek() == "samesign": p.next()
            pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
            return I(op, (pr, ty, a, b))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"):
            fl = []
            while p.peek() in P.ATTRS: fl.append(p.next())
            ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
            return I("bin", (op, ty, a, b, fl))
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            p.attrs(); ty = p.type(); v = p.value(ty); p.expect("to"); t2 = p.type()
            return I("cast", (op, ty, v, t2))
        if op == "select":
            p.attrs(); ct = p.type(); c = p.value(ct); p.expect(","); ty = p.type(); a = p.value(ty); p.expect(","); p.type(); b = p.value(ty)
            return I("select", (c, ty, a, b))
        if op == "freeze":
            ty = p.type(); return I("freeze", (ty, p.value(ty)))
        if op == "fneg":
            p.attrs(); ty = p.type(); return I("fneg", (ty, p.value(ty)))
        if op == "alloca":
            ty = p.type(); n = None
            if p.eat(","):
                if p.peek() != "align":
                    nt = p.type(); n = (nt, p.value(nt))
            return I("alloca", (ty, n))
        if op == "call":
            p.attrs(); rty = p.type()
            if p.peek() == "(":  # function type in varargs call
                d = 0
                while True:
                    x = p.next()
                    if x == "(": d += 1
                    if x == ")":
                        d -= 1
                        if d == 0: break
            callee = p.value(TPtr()); p.expect("("); args = []
            s.saw_byval = False
            if not p.eat(")"):
                while True:
                    ty = p.type(); p.attrs()
                    if isinstance(ty, TOther) and ty.txt == "metadata":
                        raise Unsupported("metadata arg")
                    args.append((ty, p.value(ty)))
                    if p.eat(")"): break
                    p.expect(",")
            return I("call", (rty, callee, args, s.saw_byval))
        if op == "cmpxchg":
            p.eat("weak"); p.eat("volatile"); p.type(); ptr = p.value(TPtr()); p.expect(","); ty = p.type(); c = p.value(ty); p.expect(","); p.type(); n = p.value(ty)
            return I("cmpxchg", (ty, ptr, c, n))
        if op == "atomicrmw":
            p.eat("volatile"); o = p.next(); p.type(); ptr = p.value(TPtr()); p.expect(","); ty = p.type(); v = p.value(ty)
            return I("rmw", (o, ty, ptr, v))
        if op == "extractvalue":
            ty = p.type(); v = p.value(ty); ix = []
            while p.eat(","): ix.append(int(p.next()))
            return I("extractvalue", (ty, v, ix))
        if op == "insertvalue":
            ty = p.type(); v = p.value(ty); p.expect(","); t2 = p.type(); v2 = p.value(t2); ix = []
            while p.eat(","): ix.append(int(p.next()))
            return I("insertvalue", (ty, v, t2, v2, ix))
        if op == "fence": return I("fence", ())
        raise Unsupported("instruction " + txt)
