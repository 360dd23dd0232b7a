#!/usr/bin/env python3
"""Checks that the tools the framework needs are here and that the
specifications parse. Everything else is built by the checks themselves."""
import glob, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
for t in ("java", "g++", "clang++"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
bad = 0
for m in sorted(glob.glob(os.path.join(vf.SPEC, "Trace*.tla")) + glob.glob(os.path.join(vf.SPEC, "MC*.tla"))):
    r = subprocess.run(vf.JAVA + ["tla2sany.SANY", os.path.basename(m)], cwd=vf.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or "Fatal errors" in r.stdout or "*** Errors" in r.stdout:
        print(r.stdout[-1500:]); bad = 1
sys.exit(bad)
