#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import sys, os, json, time, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/exec")
sys.dont_write_bytecode = True
import props
PY = "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else shutil.which("python3-vt") or sys.executable
TRUST = ["clang 18 front end and the sroa/simplifycfg/loop-simplify passes of LLVM (C -> IR)", "the rgv verification-condition generator (/verif/rgv)", "z3 (the z3-solver module of python3-vt) as the discharging back end"]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = props.P[pid]
    t0 = time.time()
    budget = 540 if tier == "quick" else 780
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vchk_")
    rp = os.path.join(ev, "replay_%s.txt" % pid)
    if os.path.exists(rp): os.unlink(rp)
    try: rc = decide(pid, tier, seed, cfg, t0, budget, ev, tmp, rp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def spec_job(m, c, tmp, secs):
    out = os.path.join(tmp, "%s_%s.json" % (m, c))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([PY, HERE + "/rgv/runspec.py", m, c, out, str(secs)], capture_output=True, text=True, timeout=secs + 30, env=env)
        if os.path.exists(out): return json.load(open(out))
        note = "verifier ended with %d: %s" % (p.returncode, (p.stderr or p.stdout)[-600:])
    except subprocess.TimeoutExpired: note = "verifier timed out"
    return dict(spec=m + "." + c, status="undecided", obligations=0, discharged=0, failures=[], undecided=[], functions=[], assumed=[], solver_s=0.0, wall_s=float(secs), note=note)


def finder(names, seed, secs, tmp, tag, first):
    """run the executor on the objects; returns dict object -> (rc, text, runs)"""
    import run as X
    d = os.path.join(tmp, "b")
    if not os.path.exists(d):
        X.build(names, d)
    jobs = []
    w = max(1, 8 // len(names))
    res = {n: [] for n in names}
    with ThreadPoolExecutor(8) as ex:
        fs = {}
        for n in names:
            for k in range(w):
                a = first + k * 10000000
                fs[ex.submit(X.run, d + "/" + n, seed, a, a + 10000000, secs)] = (n, a)
        for f in as_completed(fs): res[fs[f][0]].append((fs[f][1],) + f.result())
    return res


def decide(pid, tier, seed, cfg, t0, budget, ev, tmp, rp):
    from run import BuildError
    specs = []
    fres = {}; ferr = None
    fsecs = cfg["finder_secs"] if tier == "quick" else 240
    nd = max(1, len(cfg["objs"]))
    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(spec_job, m, c, tmp, budget - 60) for m, c in cfg["specs"]]
        xf = [ex.submit(f, tier, seed, tmp) for f in cfg["extra"]]
        if cfg["objs"]:
            try: fres = finder(cfg["objs"], seed, fsecs, tmp, "a", 0)
            except BuildError as x: ferr = "the executor could not build the code: " + str(x)[-800:]
        specs = [f.result() for f in futs]
        extra = [f.result() for f in xf]
    specs += extra
    bad = [s for s in specs if s["status"] == "failed"]
    und = [s for s in specs if s["status"] == "undecided"]
    def concrete(fr):
        for n, l in fr.items():
            for a, rc, txt in l:
                if rc == 1: return n, a, txt
        return None
    cx = concrete(fres)
    extra_cx = next((s for s in specs if s.get("concrete")), None)
    if (bad or und) and not cx and not extra_cx and cfg["objs"] and not ferr:
        more = finder(cfg["objs"], seed + 1000, 60 if tier == "quick" else 200, tmp, "b", 500000000)
        cx = concrete(more)
        for n in more: fres[n] += more[n]
    execs = {}; samples = []
    for n, l in fres.items():
        e = execs.setdefault(n, dict(runs=0, steps=0, operations=0, inconclusive=0, distinct_nontrivial=0, errors=0))
        for a, rc, txt in l:
            m = re.search(r"RUNS (\d+) STEPS (\d+) OPS (\d+) INCONCLUSIVE (\d+)", txt)
            if m:
                for k, v in zip(("runs", "steps", "operations", "inconclusive"), m.groups()): e[k] += int(v)
            m = re.search(r"DISTINCT (\d+)", txt)
            if m: e["distinct_nontrivial"] += int(m.group(1))
            if rc not in (0, 1): e["errors"] += 1
            m = re.search(r"SAMPLE (.*?)\n\n", txt, re.S)
            if m and m.group(1).strip() and len(samples) < 3: samples.append("%s: %s" % (n, m.group(1).strip()))
    lines = []; violated = False
    if cx or bad or extra_cx:
        with open(rp, "w") as f:
            if cx:
                n, a, txt = cx
                m = re.search(r"seed (\d+) run (\d+)", txt)
                f.write("property %s: a concrete execution of /repo's code violates it\nreplay: cd /verif/exec && python3-vt run.py %s %s %s %d 60\n\n%s\n" % (pid, n, m.group(1) if m else seed, m.group(2) if m else a, int(m.group(2)) + 1 if m else a + 1, txt[:20000]))
            if extra_cx: f.write("property %s: concrete failure\n%s\n" % (pid, extra_cx["concrete"]))
            for s in bad:
                for x in s["failures"]: f.write("\nfailed obligation %s (contract %s, source line %s)\n%s\n" % (x["name"], s["spec"], x["line"], x["detail"]))
            for s in und: f.write("\nundecided: %s: %s\n" % (s["spec"], s["note"]))
        keys = []
        if cx: keys.append("exec:" + cx[0])
        keys += ["obl:" + x["name"] for s in bad for x in s["failures"]]
        kn = known(pid)
        unk = [k for k in keys if not any(re.fullmatch(p, k) for p, _ in kn)] or (["x"] if extra_cx else [])
        if not unk:
            for p, txt in kn: print("KNOWN-FINDING: property=%s %s" % (pid, txt))
        else:
            violated = True
            for s in bad:
                for x in s["failures"][:3]: print("failed obligation: %s (line %s of %s)" % (x["name"], x["line"], s.get("src")))
            if cx: print(cx[2].splitlines()[1] if len(cx[2].splitlines()) > 1 else cx[2])
            print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if (cx or extra_cx) else " no-failing-input-found"))
    no = sum(s["obligations"] for s in specs); nd = sum(s["discharged"] for s in specs)
    fn = sorted(set(x for s in specs for x in s.get("functions", [])))
    bounded = [s["spec"] for s in und]
    cov = dict(obligations=no, discharged=nd, checker_cmd="python3-vt /verif/rgv/runspec.py <module> <class>  (" + ", ".join("%s %s" % x for x in cfg["specs"]) + ")",
               trusted_base=TRUST, functions_under_contract=fn, inlined_functions=sorted(set(x for s in specs for x in s.get("inlined", []))),
               assumed_contracts=sorted(set(x for s in specs for x in s.get("assumed", []))), back_end="z3 (quantifier-free goals, explicit instantiation)", solver_s=round(sum(s["solver_s"] for s in specs), 2),
               contracts=[{k: s.get(k) for k in ("spec", "src", "scope", "status", "obligations", "discharged", "functions", "trivial", "paths", "loop_invariants", "solver_s", "wall_s", "note")} for s in specs],
               bounded_executions=execs, bounded_stand_ins=bounded + ([] if cfg["specs"] else ["all of it"]), obligation_names=sorted(set(n for s in specs for n in s.get("names", [])))[:400])
    if ferr: cov["executor_error"] = ferr
    level = cfg["level"]
    if execs:
        cov.update(evaluations=sum(e["runs"] for e in execs.values()), distinct_nontrivial=sum(e["distinct_nontrivial"] for e in execs.values()), samples=samples,
                   rule="each evaluation is one run of the real code (compiled from /repo) under a seeded scheduler that may switch threads at every shared access, with random numbers of threads, operations, arguments and stalls; distinct and non-trivial: operations of different threads overlap and the timed history differs from every other one counted (at most 2^18 per process)")
    for k in ("evaluations", "distinct_nontrivial"):
        v = sum(s.get(k, 0) for s in specs)
        if v: cov[k] = cov.get(k, 0) + v
    for s in specs:
        if s.get("samples"): cov["samples"] = (cov.get("samples") or []) + s["samples"]
        if s.get("rule"): cov["rule"] = (cov["rule"] + "; " if cov.get("rule") else "") + s["rule"]
    if und and level == "proof":
        level = "other"
        cov["explanation"] = "the contracts " + ", ".join(bounded) + " were not decided in this run (" + "; ".join(s["note"][:200] for s in und) + "); for them only the bounded executions count"
    E = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=props.assumptions(pid), wall_s=round(time.time() - t0, 2), violations=1 if violated else 0)
    json.dump(E, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for s in specs: print("%-28s %-9s obligations %d discharged %d solver %.1fs wall %.1fs %s" % (s["spec"], s["status"], s["obligations"], s["discharged"], s["solver_s"], s["wall_s"], s["note"][:300]))
    for n, e in execs.items(): print("bounded executions of %-12s runs %d steps %d operations %d" % (n, e["runs"], e["steps"], e["operations"]))
    if ferr: print("NOTE", ferr[:500])
    if und: print("NOTE: undecided contracts %s: decided by bounded executions only in this run" % bounded)
    print("RESULT property=%s %s (%.1fs)" % (pid, "VIOLATED" if violated else "held", time.time() - t0))
    return 1 if violated else 0


if __name__ == "__main__": main()
