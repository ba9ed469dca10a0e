#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the META of the property modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vsym.props import meta

props = []
checks = []
for pid in sorted(meta.PROPS):
    m = meta.PROPS[pid]
    props.append(dict(
        id=pid, title=m["title"], statement=m["statement"],
        quantifier=dict(over=m["over"], text=m["quant"]),
        why_tests_cant=m["why"],
        anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]],
                     observe_at=m.get("observe", []), hook_needed=None)))
    if m.get("na"):
        continue
    mod = importlib.import_module("vsym.props." + pid)
    checks.append(dict(
        property=pid, quick_cmd="./check " + pid, thorough_cmd="./check %s --tier=thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=m.get("technique", "symbolic execution of the current Python source with z3 (all paths within bounds)"),
        level="model_checking",
        level_note="Bounds: " + mod.BOUNDS + ". " + m.get("note", "") +
        " Trusted: the numpy/MPI/HDF5/file stand-ins in vsym (validated each run by replaying solver-chosen "
        "inputs of sampled paths on the real code), z3."))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=checks,
           not_applicable=[dict(property=k, reason=v["na"]) for k, v in sorted(meta.PROPS.items()) if v.get("na")],
           notes="Every check re-reads /repo's current Python sources; see DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
