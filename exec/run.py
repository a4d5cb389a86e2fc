"""build the real code with scheduling points and run the deterministic executor.
usage: run.py <object> <seed> <from> <to> <seconds> [-D...]"""
import os, sys, subprocess, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import objs
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
WRAPS = "posix_memalign malloc calloc free aligned_alloc numa_alloc_local numa_alloc_onnode numa_free numa_num_task_nodes numa_node_of_cpu".split()
class BuildError(Exception): pass
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stderr[-3000:])
def build(names, out, defs=()):
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "src"); 
    shutil.copytree(REPO + "/libconcurrent", src)
    p = src + "/includes/lcrq.h"   # small rings: 16 cells, so that runs wrap around and close rings
    if os.path.exists(p):
        t = open(p).read(); import re
        t = re.sub(r"#define\s+RING_POW\s+\(?\d+\)?", "#define RING_POW (3)", t); open(p, "w").write(t)
    p = src + "/primitives/pool.c"  # small pool blocks, so that runs need several of them
    if os.path.exists(p):
        t = open(p).read(); import re
        t = re.sub(r"(BLOCK_SIZE\s*=\s*)[^;]+;", r"\g<1>2048;", t, count=1); open(p, "w").write(t)
    inc = ["-I" + src + "/includes", "-I" + src, "-I" + HERE]
    fl = ["-std=gnu89", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-mcx16", "-march=native"] + list(defs)
    ts = ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile"]
    jobs = []; objf = []
    for c in sorted(glob.glob(src + "/concurrent/*.c") + glob.glob(src + "/primitives/*.c")):
        b = os.path.basename(c)
        if b in ("threadtools.c", "uthreads.c", "bench_args.c"): continue
        o = os.path.join(out, b[:-2] + ".o"); objf.append(o)
        jobs.append([CLANG] + fl + ts + inc + ["-c", c, "-o", o])
    jobs.append([CLANG, "-O2", "-g", "-w"] + inc + ["-c", HERE + "/rt.c", "-o", out + "/rt.o"])
    for n in names:
        f = os.path.join(out, "obj_%s.c" % n); open(f, "w").write(objs.O[n])
        jobs.append([CLANG] + fl + (ts if n in objs.INSTRUMENTED else []) + inc + ["-c", f, "-o", out + "/obj_%s.o" % n])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    lib = out + "/libx.a"
    sh(["ar", "rcs", lib] + objf)
    def link(n): sh([CLANG, "-no-pie", "-o", out + "/" + n, out + "/obj_%s.o" % n, out + "/rt.o", lib] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lnuma", "-lm", "-lpthread"])
    with ThreadPoolExecutor(8) as ex: list(ex.map(link, names))
def run(exe, seed, a, b, secs):
    p = subprocess.run([exe, str(seed), str(a), str(b), str(secs)], capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
if __name__ == "__main__":
    names = sys.argv[1].split(",") if sys.argv[1] != "all" else list(objs.O)
    d = tempfile.mkdtemp(prefix="vexec")
    try:
        build(names, d + "/b", sys.argv[6:])
        def go(n): return n, run(d + "/b/" + n, *sys.argv[2:6])
        with ThreadPoolExecutor(8) as ex:
            rc = 0
            for n, (c, o) in ex.map(go, names):
                print("==", n, "rc", c); print("\n".join(o.splitlines()[:40])); rc |= c
        sys.exit(1 if rc else 0)
    finally: shutil.rmtree(d)
