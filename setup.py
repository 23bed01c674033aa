#!/usr/bin/env python3
"""Builds every harness once so that the checks find most objects in place (they rebuild what has changed)."""
import concurrent.futures, os, re, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
ids = sorted({re.match(r"(P\d+)", f).group(1) for f in os.listdir(os.path.join(V, "props")) if re.match(r"P\d+.*\.cpp$", f)})


def one(i):
    r = subprocess.run([sys.executable, os.path.join(V, "check.py"), i, "--build-only"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return i, r.returncode, r.stdout


with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for i, rc, out in ex.map(one, ids):
        if rc:
            print(i, "did not build:", out[-1500:])
sys.exit(0)
