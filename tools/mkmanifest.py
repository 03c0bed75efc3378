"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the crate's LLVM IR with z3 deciding branches and assertions; counterexamples replayed natively",
        level="other",
        level_note=("Bounded: " + p["bounds"] + ". Within the bounds every value of the symbolic variables is covered, path by path, by the solver (paths not explored in the time limit are counted in the evidence). Trusted: rustc's IR, the executor in /verif/engine (cross-checked by native replays and z3 certificates), z3, the harness and its oracle. " + p.get("note", "")).strip()))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the harness crate uses the public API. Checks build everything they need themselves under /verif/.cache.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
