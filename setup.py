"""nothing to build: the checks compile /repo's current tree on every run; this only verifies the tools are there"""
import subprocess, shutil, sys
ok = True
for c in (["/usr/lib/llvm-18/bin/clang", "--version"], ["/usr/lib/llvm-18/bin/opt", "--version"], ["python3-vt", "-c", "import z3; print(z3.get_version_string())"]):
    try: print(subprocess.check_output(c, text=True).splitlines()[0])
    except Exception as e: print("missing:", c, e); ok = False
sys.exit(0 if ok else 1)
