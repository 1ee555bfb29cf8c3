#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_table import PROPS, NOT_APPLICABLE

TECH = {
    "py": "symbolic execution of the real Python code, every branch and assertion decided by z3 (path-wise SMT)",
    "cpp": "symbolic execution of clang's LLVM IR of the real C++ sources, every branch and assertion decided by z3 (QF_BV)",
}
checks, lines = [], []
for p in PROPS:
    lines.append(json.dumps(dict(
        id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["quant"]),
        why_tests_cant=p["why"],
        anchors=dict(files=p["files"],
                     mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     observe_at=p["observe"], hook_needed=None))))
    if p.get("engine"):
        checks.append(dict(
            property=p["id"], quick_cmd=f"./check {p['id']} quick",
            thorough_cmd=f"./check {p['id']} thorough",
            technique=TECH[p["engine"]], level="model_checking",
            level_note=p["note"]))
open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
           hooks=dict(guard="none", enable="no hooks: the checks use the unmodified sources", source_commits=[]),
           checks=checks, not_applicable=NOT_APPLICABLE)
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "properties", len(checks), "checks")
