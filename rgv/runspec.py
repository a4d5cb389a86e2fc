"""run one contract module against /repo's current source: python3-vt runspec.py <module> <class> <out.json> <seconds>"""
import sys, time, json, os, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/specs")
import importlib
import ir, engine


def module(sp):
    txt = getattr(sp, "text", None)          # a translation unit that only includes /repo's files and names the inline functions to verify
    if not txt: return ir.Module(ir.compile_ll(ir.REPO + "/" + sp.src, getattr(sp, "flags", ())))
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="rgv_tu_")
    try:
        open(d + "/tu.c", "w").write(txt.replace("@REPO@", ir.REPO))
        return ir.Module(ir.compile_ll(d + "/tu.c", getattr(sp, "flags", ())))
    finally: shutil.rmtree(d, ignore_errors=True)


def run(mod, cls, secs, verbose=0):
    t0 = time.time()
    R = dict(spec=mod + "." + cls, status="undecided", obligations=0, discharged=0, failures=[], undecided=[], functions=[], assumed=[], solver_s=0.0, wall_s=0.0, trivial=0, paths=0, loop_invariants=0, note="")
    try:
        m = importlib.import_module("specs." + mod)
        sp = getattr(m, cls)()
        R["src"] = sp.src; R["scope"] = getattr(sp, "scope", "")
        M = module(sp)
        for attempt in range(4):
            e = engine.Engine(M, sp, deadline=t0 + secs, verbose=verbose)
            try: sp.run(e)
            finally:
                R["solver_s"] = round(e.qtime, 2)
            if e.newkeys and (e.failures or e.undecided): continue     # fields met on the way: framed from the start in a second pass
            break
        if not sp.sequential and hasattr(sp, "rely_lemmas") is False and not e.failures: e.rely_lemmas()
        R["obligations"] = len(e.obligations); R["discharged"] = sum(1 for o in e.obligations if o[2] == "ok")
        R["failures"] = [dict(name=f.name, line=f.line, detail=f.detail) for f in e.failures]
        R["undecided"] = [dict(name=f.name, line=f.line, detail=f.detail) for f in e.undecided]
        R["functions"] = sorted(e.reached); R["inlined"] = sorted(e.inlined); R["assumed"] = sorted(e.assumed_calls - e.reached); R["trivial"] = e.trivial; R["paths"] = e.paths
        R["loop_invariants"] = sum(len(v) for v in e.loop_invs.values()); R["queries"] = e.nqueries
        R["names"] = sorted(set(o[0] for o in e.obligations))
        slow = [x for x in e.gaveup if x.endswith("(too slow)")]
        if e.failures and slow: R["status"] = "undecided"; R["note"] = "obligations failed, but loop invariants had been given up because the solver was too slow: " + slow[0]
        elif e.failures: R["status"] = "failed"
        elif not e.obligations or not e.paths: R["status"] = "undecided"; R["note"] = "vacuous: no obligations or no path reached a return"
        elif e.uncovered(): R["status"] = "undecided"; R["note"] = "vacuous: no feasible return of " + ", ".join(e.uncovered())
        elif e.undecided: R["status"] = "undecided"; R["note"] = "solver gave no answer"
        else: R["status"] = "proved"
    except ir.Unsupported as x:
        fl = e.failures if "e" in locals() else []
        R["failures"] = [dict(name=f.name, line=f.line, detail=f.detail) for f in fl]
        if fl and any(x.endswith("(too slow)") for x in e.gaveup): fl = []
        R["status"] = "failed" if fl else "undecided"; R["note"] = "outside the verifier's reach: " + str(x)[:1500]
    except Exception as x:
        R["status"] = "undecided"; R["note"] = "verifier error: " + traceback.format_exc()[-1500:]
    R["wall_s"] = round(time.time() - t0, 2)
    return R


if __name__ == "__main__":
    v = int(os.environ.get("RGV_VERBOSE", "0"))
    R = run(sys.argv[1], sys.argv[2], float(sys.argv[4]) if len(sys.argv) > 4 else 600, v)
    if len(sys.argv) > 3 and sys.argv[3] != "-":
        json.dump(R, open(sys.argv[3], "w"))
    if len(sys.argv) <= 3 or sys.argv[3] == "-":
        for k in ("spec", "status", "note", "obligations", "discharged", "functions", "inlined", "assumed", "paths", "loop_invariants", "solver_s", "wall_s"): print(k, ":", R.get(k))
        for f in R["failures"]: print("FAILED", f["name"], f["line"])
