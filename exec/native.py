"""native tests of the sequential parts against an independent oracle (bounded; they give the failing input when a contract fails)"""
import os, re, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift-base,shift-exponent,signed-integer-overflow,alignment,pointer-overflow", "-fno-sanitize-recover=undefined"]
# name -> list of (variant, sources of /repo, extra flags, textual size reductions {file: [(regex, replacement)]})
N = {
 "backoff": [("", ["primitives/backoff.c"], [], {}, ["-fsanitize-coverage=trace-pc"])],
 "fastrand": [("", ["primitives/fastrand.c"], [], {}, [])],
 "tvec": [("", ["primitives/primitives.c"], SAN + ["-Wl,--wrap=synchGetMemory", "-lnuma"], {}, [])],
}
W = lambda *names: ["-Wl,--wrap=" + n for n in names]
N["pool"] = [("small_blocks", ["primitives/pool.c", "primitives/primitives.c"], SAN + W("synchGetAlignedMemory", "synchGetMemory", "synchFreeMemory") + ["-lnuma"], {"primitives/pool.c": [(r"(BLOCK_SIZE\s*=\s*)[^;]+;", r"\g<1>2048;")]}, [])]
N["placement"] = [("", ["primitives/threadtools.c", "primitives/primitives.c", "primitives/barrier.c", "primitives/uthreads.c"], W("sysconf", "numa_num_task_nodes", "numa_num_configured_nodes", "numa_max_node", "numa_node_of_cpu", "sched_setaffinity", "pthread_setconcurrency") + ["-lnuma"], {}, [])]
NONUMA = {"config.h": [(r"(?m)^#define SYNCH_NUMA_SUPPORT.*$", "")]}
MW = W("numa_alloc_local", "numa_alloc_onnode", "malloc", "memalign", "posix_memalign", "aligned_alloc", "free", "numa_free") + ["-lnuma"]
N["memory"] = [("numa", ["primitives/primitives.c"], MW, {}, []), ("plain", ["primitives/primitives.c"], MW, NONUMA, [])]
N["prims"] = [("", ["primitives/primitives.c"], ["-lnuma"], {}, []), ("emulated", ["primitives/primitives.c"], ["-DSYNCH_EMULATE_FAA", "-DSYNCH_EMULATE_SWAP", "-lnuma"], {}, [])]
N["fibers"] = [("", ["primitives/uthreads.c", "primitives/primitives.c"], W("synchGetMemory", "synchFreeMemory") + ["-lnuma"], {}, [])]
WR = lambda *names: ["-Wl,--wrap=" + n for n in names]
def job(name, var, seed, secs, tmp):
    v, srcs, flags, subst, cov = var
    d = os.path.join(tmp, "n_%s_%s" % (name, v)); os.makedirs(d, exist_ok=True)
    src = d + "/src"
    if not os.path.exists(src): shutil.copytree(REPO + "/libconcurrent", src)
    for f, subs in subst.items():
        p = src + "/" + f
        if os.path.exists(p):
            t = open(p).read()
            for a, b in subs: t = re.sub(a, b, t)
            open(p, "w").write(t)
    inc = ["-std=gnu89", "-O1", "-g", "-w", "-mcx16", "-I" + src + "/includes", "-I" + src, "-I" + src + "/primitives", "-I" + HERE + "/native"]
    cf = [x for x in flags if not x.startswith(("-Wl", "-l"))]; lf = [x for x in flags if x.startswith(("-Wl", "-l", "-fsan"))]
    o = []
    for s in srcs:
        x = d + "/" + os.path.basename(s) + ".o"; o.append(x)
        p = subprocess.run([CLANG] + inc + cf + cov + ["-c", src + "/" + s, "-o", x], capture_output=True, text=True)
        if p.returncode: return None, "build: " + p.stderr[-1500:]
    p = subprocess.run([CLANG] + inc + ["-std=gnu11"] + cf + ["-DVARIANT_" + (v or "default"), "-c", HERE + "/native/%s.c" % name, "-o", d + "/main.o"], capture_output=True, text=True)
    if p.returncode: return None, "build: " + p.stderr[-1500:]
    p = subprocess.run([CLANG, d + "/main.o"] + o + lf + ["-o", d + "/t", "-lm", "-lpthread"], capture_output=True, text=True)
    if p.returncode: return None, "link: " + p.stderr[-1500:]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:detect_stack_use_after_return=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    try: p = subprocess.run([d + "/t", str(seed), str(secs)], capture_output=True, text=True, errors="replace", timeout=secs + 120, env=env, cwd=d)
    except subprocess.TimeoutExpired as x: return 1, "FAIL the test does not finish\n" + str(x.stdout)[-500:]
    return p.returncode, p.stdout + p.stderr[-3000:]
def check(name):
    def f(tier, seed, tmp):
        import time
        t0 = time.time()
        R = dict(spec="native." + name, status="bounded", obligations=0, discharged=0, failures=[], undecided=[], functions=[], assumed=[], solver_s=0.0, wall_s=0.0, note="", evaluations=0, distinct_nontrivial=0, samples=[], rule="native test of /repo's %s code: each evaluation is one seeded random case compared with an independent oracle; distinct by the case's inputs" % name)
        vs = N[name]; per = max(1, 4 // len(vs)); secs = 3 if tier == "quick" else 60
        with ThreadPoolExecutor(8) as ex:
            built = []
            for v in vs: built.append(ex.submit(job, name, v, seed, secs, tmp))
            for v, b in zip(vs, built):
                rc, txt = b.result()
                if rc is None: R["note"] += " %s not run (%s)" % (v[0] or name, txt[:400]); continue
                m = re.search(r"RUNS (\d+)", txt)
                if m: R["evaluations"] += int(m.group(1))
                m = re.search(r"DISTINCT (\d+)", txt)
                if m: R["distinct_nontrivial"] += int(m.group(1))
                m = re.search(r"SAMPLE (.*?)\n\n", txt, re.S)
                if m and m.group(1).strip(): R["samples"].append("%s %s: %s" % (name, v[0], m.group(1).strip()))
                if rc != 0 and rc != -9: R["concrete"] = "native test %s %s, seed %s (exit %s)\n%s" % (name, v[0], seed, rc, txt[-6000:])
        R["wall_s"] = round(time.time() - t0, 2)
        return R
    return f
if __name__ == "__main__":
    import sys
    for n in (sys.argv[1:] or list(N)):
        d = tempfile.mkdtemp(prefix="vnat_")
        try: r = check(n)("quick", 1, d); print(n, {k: r[k] for k in ("evaluations", "distinct_nontrivial", "note", "wall_s", "samples")}); print(r.get("concrete", "")[:1500])
        finally: shutil.rmtree(d)
