#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "stateless model checking of the implementation (controlled scheduler, visited-state pruning, bounded preemptions and memory-model deviations)"
SEQ = "bounded-exhaustive state/input enumeration of the implementation against a reference model"
MCNOTE = "All interleavings within the stated preemption/deviation bound of the listed scenarios on the real compiled code; trusts the explorer's model of the C++ memory model, futex, monitor instructions and CPUID."
SEQNOTE = "Complete enumeration of the stated finite input/operation space on the real code compiled for each target; trusts the reference model, compiler and CPU."
NA = {
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(V, "checks", p + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, "No check has been built for it yet.")))
        continue
    src = open(f).read()
    level = re.search(r'Check\("C\d+", "(\w+)"', src)
    level = level.group(1) if level else "model_checking"
    t = MC if level == "model_checking" else SEQ
    if "mc_run" in src and "run_units" in src:
        t = MC + "; " + SEQ
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}", technique=t, level=level,
                       level_note=MCNOTE if level == "model_checking" else SEQNOTE))
json.dump(dict(version=1, setup_cmd="python3 -c \"import vf\" && g++ --version >/dev/null", checks=checks, not_applicable=na,
               notes="thorough_cmd is the quick command with VERIF_TIER=thorough. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
