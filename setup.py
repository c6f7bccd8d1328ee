#!/usr/bin/env python3
"""Self-test of what every check needs: the compiler, the interpreter, the unprivileged user. Builds nothing that is kept."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
d = check.scratch_dir()
try:
    shim = check.build_shim(d)
    r = subprocess.run(["setpriv", "--reuid", "nobody", "--regid", "nogroup", "--clear-groups", "--no-new-privs", check.PY, "-c",
                        "import os; print(os.getuid())"], env={"LD_PRELOAD": shim, "PATH": os.environ.get("PATH", "")}, capture_output=True, text=True)
    print("monitor library built; interpreter runs as uid", r.stdout.strip(), r.stderr.strip())
    sys.exit(0 if r.returncode == 0 and r.stdout.strip() != "0" else 1)
finally:
    shutil.rmtree(d, ignore_errors=True)
