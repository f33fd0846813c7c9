"""Rewrites the per-property part of DESIGN.md from tools/meta.py and the harnesses."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import importlib

import meta

M1, M2 = "<!-- properties: begin -->\n", "<!-- properties: end -->\n"
out = ["## Properties\n\n"]
for p in sorted(meta.P, key=lambda p: p["id"]):
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n\n")
    if p.get("na"):
        out.append("Not applicable: %s\n\n" % p["na"])
        continue
    m = importlib.import_module("props." + p["id"])
    b = m.BOUNDS if callable(m.BOUNDS) else (lambda t: m.BOUNDS)
    out.append("* encoded: %s\n" % "; ".join("%s (`%s`)" % (a, c) for a, c in p["mech"]))
    out.append("* quick bounds: %s\n" % b("quick"))
    if b("thorough") != b("quick"):
        out.append("* thorough bounds: %s\n" % b("thorough"))
    else:
        out.append("* thorough: same bounds, more cases (%d instead of %d)\n" % (len(m.cases("thorough")), len(m.cases("quick"))))
    out.append("* outside: %s\n" % m.OUTSIDE)
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append("* assumed: %s\n" % a)
    out.append("* beyond the tests: %s\n\n" % p["tests"])
d = os.path.join(HERE, "DESIGN.md")
s = open(d).read()
if M1 in s:
    s = s[: s.index(M1)] + M1 + "".join(out) + s[s.index(M2):]
else:
    s += M1 + "".join(out) + M2
open(d, "w").write(s)
