#!/opt/venv/bin/python
"""Rewrites the table of properties in DESIGN.md (between the markers)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vsym.props import meta

A, B = "<!-- properties -->\n", "<!-- end of properties -->\n"
out = []
for pid in sorted(meta.PROPS):
    m = meta.PROPS[pid]
    out.append("### %s %s\n" % (pid, m["title"]))
    if m.get("na"):
        out.append("Not applicable: %s\n" % m["na"])
        continue
    mod = importlib.import_module("vsym.props." + pid)
    out.append("*Code:* " + ", ".join("`%s`" % a for a, b in m["mech"]) + " (" + ", ".join(m["files"]) + ").\n")
    if m.get("how"):
        out.append("*How:* " + m["how"] + "\n")
    out.append("*Bounds:* " + mod.BOUNDS + ".\n")
    if mod.ASSUMPTIONS:
        out.append("*Assumed:* " + "; ".join(mod.ASSUMPTIONS) + ".\n")
    if m.get("note"):
        out.append("*Note:* " + m["note"] + "\n")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
if A not in s:
    s += A + B
i, j = s.index(A) + len(A), s.index(B)
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
