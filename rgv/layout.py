"""field offsets of /repo's current structs (probe compiled on every run)"""
import os, subprocess, tempfile, shutil
import ir


def offsets(headers, fields, flags=()):
    """fields: list of (struct, field) -> dict (struct,field)->(off,size); also struct sizes under (struct,None)"""
    d = tempfile.mkdtemp(prefix="rgv_lay_")
    try:
        src = os.path.join(d, "p.c")
        structs = sorted(set(s for s, f in fields))
        with open(src, "w") as fh:
            fh.write("#include <stdio.h>\n#include <stddef.h>\n")
            for h in headers: fh.write("#include <%s>\n" % h)
            fh.write("int main(void){\n")
            for s, f in fields:
                if f is None: continue
                fh.write('printf("%s %s %%zu %%zu\\n", offsetof(%s,%s), sizeof(((%s*)0)->%s));\n' % (s.replace(" ", "~"), f, s, f, s, f))
            for s in structs: fh.write('printf("%s - 0 %%zu\\n", sizeof(%s));\n' % (s.replace(" ", "~"), s))
            fh.write("return 0;}\n")
        r = subprocess.run([ir.CLANG, "-std=gnu89", "-w"] + list(flags) + ir.incs() + [src, "-o", d + "/p"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise ir.Unsupported("layout probe: " + r.stdout[-1500:])
        out = {}
        for l in subprocess.run([d + "/p"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            s, f, o, n = l.split()
            out[(s.replace("~", " "), None if f == "-" else f)] = (int(o), int(n))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def consts(headers, exprs, flags=()):
    """values of integer constant expressions of /repo's current headers"""
    d = tempfile.mkdtemp(prefix="rgv_lay_")
    try:
        src = os.path.join(d, "p.c")
        with open(src, "w") as fh:
            fh.write("#include <stdio.h>\n#include <stddef.h>\n")
            for h in headers: fh.write("#include <%s>\n" % h)
            fh.write("int main(void){\n" + "".join('printf("%%lld\\n", (long long)(%s));\n' % x for x in exprs) + "return 0;}\n")
        r = subprocess.run([ir.CLANG, "-std=gnu89", "-w"] + list(flags) + ir.incs() + [src, "-o", d + "/p"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise ir.Unsupported("constant probe: " + r.stdout[-1500:])
        return [int(x) for x in subprocess.run([d + "/p"], stdout=subprocess.PIPE, text=True).stdout.split()]
    finally:
        shutil.rmtree(d, ignore_errors=True)
