#!/usr/bin/env python3
"""mkseed.py <id> <property> <objects,comma> <secs> <needs> <breaks>  < edit script (python: receives sub(file, old, new))
creates seeded/<id> from an edit applied to a scratch copy of /repo; verifies: applies, builds, tests pass (--test), demo 0/nonzero"""
import sys, os, subprocess, shutil, json, tempfile
ID, prop, objs, secs, needs, breaks = sys.argv[1:7]
test = "--notest" not in sys.argv
W = "/tmp/seedw_" + ID
if os.path.exists(W): shutil.rmtree(W)
subprocess.check_call(["cp", "-a", "/repo", W])
def sub(f, a, b, n=1):
    p = W + "/libconcurrent/" + f; t = open(p).read()
    assert t.count(a) == n, (f, t.count(a), a)
    open(p, "w").write(t.replace(a, b))
exec(sys.stdin.read())
D = "/verif/seeded/" + ID; os.makedirs(D, exist_ok=True)
diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
assert diff
open(D + "/patch.diff", "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
if objs.startswith("native:"):
    name = objs[7:]; os.makedirs(D + "/exec/native", exist_ok=True)
    shutil.copy("/verif/exec/native.py", D + "/exec/native.py")
    for x in ("common.h", name + ".c"): shutil.copy("/verif/exec/native/" + x, D + "/exec/native/" + x)
    open(D + "/demo.sh", "w").write("""#!/bin/bash
# compiles the real code of the current directory with a test against an independent oracle and runs it; exit 1 if the oracle disagrees
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=$PWD PYTHONDONTWRITEBYTECODE=1
timeout 250 python3 "$here/exec/native.py" %s > /tmp/demo_out.$$ 2>&1; r=$?; cat /tmp/demo_out.$$
! grep -q "native test .*seed" /tmp/demo_out.$$ && [ $r = 0 ]; r=$?; rm -f /tmp/demo_out.$$; exit $r
""" % name)
elif objs != "-":
    os.makedirs(D + "/exec", exist_ok=True)
    for x in ("rt.c", "rt.h", "objs.py", "run.py"): shutil.copy("/verif/exec/" + x, D + "/exec/" + x)
    open(D + "/demo.sh", "w").write("""#!/bin/bash
# runs the real code of the current directory under a deterministic scheduler and checks the recorded history; exit 1 if some history is wrong
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=$PWD PYTHONDONTWRITEBYTECODE=1
exec timeout 280 python3 "$here/exec/run.py" %s 7 0 100000000 %s
""" % (objs, secs))
def demo(cwd):
    p = subprocess.run(["bash", D + "/demo.sh"], cwd=cwd, capture_output=True, text=True); return p.returncode, p.stdout[-1500:] + p.stderr[-500:]
print("clean", demo("/repo")[0])
r = demo(W); print("patched", r[0], r[1][:700])
shutil.rmtree(W)
