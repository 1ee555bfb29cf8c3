#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json. MISSED: first missed, caught after the check was strengthened; a few words on how."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"p01-split-lock": "locks of both halves of a split node compared", "p04-page-unique": "frees that repeat pages",
          "p05-conv-reset": "slot contents from an earlier conversation", "p11-fortran-order": "arrays carry their memory layout",
          "p13-top-p-scatter": "scatter along any dimension in the tensor model", "p17-underflow-guard": "strong decay ranges on replay",
          "p25-stream-offset": "files of other writers"}
UNCAUGHT = {}
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    c = "**missed**: " + UNCAUGHT[i] if i in UNCAUGHT else "caught by " + d["property"] + (" (missed at first; now: " + MISSED[i] + ")" if i in MISSED else "")
    rows.append(f"| {i} | {d['needs']} | {c} |")
t = "<!-- seeds -->\n| planted bug | needs | verdict |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
