#!/usr/bin/env python3
"""Runs checks against a list of planted one-edit mutants of a clone of /repo.

usage: mutate.py LIST.py [name...]   LIST.py defines M = [(name, check, file, old, new), ...]
The clone is /tmp/w/mut (created from VF_BASE or /repo); nothing in /repo is touched.
"""
import os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.environ.get("VF_MUT", "/tmp/w/mut")
BASE = os.environ.get("VF_BASE", "/repo")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.isdir(D):
        subprocess.check_call(["git", "clone", "-q", BASE, D])
    head = subprocess.check_output(["git", "-C", BASE, "rev-parse", "HEAD"], text=True).strip()
    subprocess.check_call(["git", "-C", D, "fetch", "-q", BASE, "HEAD"])
    subprocess.check_call(["git", "-C", D, "checkout", "-q", "-f", head])
    for name, check, file, old, new in ns["M"]:
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        p = os.path.join(D, file)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(f"{name:30} BADEDIT count={n}", flush=True)
            continue
        open(p, "w").write(s.replace(old, new))
        t = time.time()
        r = subprocess.run(["python3", os.path.join(V, "check.py"), check], env=dict(os.environ, VF_REPO=D, VF_BUILD=D + "-build"), capture_output=True, text=True, timeout=3000)
        open(p, "w").write(s)
        v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={check}")]
        first = next((l.strip() for l in r.stdout.splitlines() if l.startswith("  ")), "")
        print(f"{name:30} {check} {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s {first[:110]}", flush=True)


main()
