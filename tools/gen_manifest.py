#!/usr/bin/env python3
# writes MANIFEST.json: every property some harness declares (// PROPS: line) is claimed
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {}
for f in sorted(os.listdir(V + "/harness")):
    if f.endswith(".cpp"):
        for p in check.props_of(V + "/harness/" + f): have.setdefault(p, []).append(f[:-4])
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason="no harness built yet"))
        continue
    hs = have[i]
    conc = any(not h.startswith("seq_") for h in hs); seq = any(h.startswith("seq_") for h in hs)
    tech = []
    if conc: tech.append("stateless model checking of the implementation (controlled scheduler, source-set DPOR / preemption-bounded exploration with happens-before state caching)")
    if seq: tech.append("exhaustive bounded enumeration of operation sequences and inputs on the implementation against a reference model")
    note = []
    if conc: note.append("Every interleaving of the listed small scenarios (2-4 threads; unbounded or with a stated preemption bound) of the code compiled from /repo is executed under a scheduler that owns every lock, wait, atomic, thread and clock operation, with happens-before race, use-after-free, leak and deadlock detection in each. Assumes sequentially consistent interleavings, gcc and libstdc++.")
    if seq: note.append("Every sequence over a small alphabet of operations up to a stated depth is executed on the real code (ASan/UBSan) and compared with a reference model. Says nothing beyond the depth and value alphabet.")
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique="model checking: " + "; ".join(tech), level="model_checking", level_note=" ".join(note)))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Harness sources are in harness/, the exploration engines in engine/; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
