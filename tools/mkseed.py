#!/usr/bin/env python3
"""mkseed.py SPEC.py : make and try a planted bug in the scratch copy /tmp/sr.
SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (python or shell text), NEEDS, BREAKS"""
import json, os, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
R = os.environ.get("SR", "/tmp/sr")
run = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
run(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} checkout -q FETCH_HEAD")
d = f"/verif/seeded/{spec['ID']}"
os.makedirs(d, exist_ok=True)
for f, old, new in spec["EDITS"]:
    s = open(f"{R}/{f}").read()
    n = s.count(old)
    assert n == 1, (f, n, old)
    open(f"{R}/{f}", "w").write(s.replace(old, new))
open(f"{d}/patch.diff", "w").write(run(f"git -C {R} diff").stdout)
if "DEMO_PY" in spec:
    open(f"{d}/demo.py", "w").write(spec["DEMO_PY"].lstrip())
    open(f"{d}/demo.sh", "w").write('''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$PWD/mllm-kernel" PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1 CUDA_VISIBLE_DEVICES=
exec /opt/mllm-venv/bin/python "$D/demo.py"
''')
else:
    for n, t in spec["DEMO"].items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(t.lstrip())
json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(f"{d}/meta.json", "w"), indent=1)
os.chmod(f"{d}/demo.sh", 0o755)
ok = True
b = run(f"bash {d}/demo.sh", cwd=R); print("demo with patch rc", b.returncode, (b.stdout + b.stderr).strip()[-300:]); ok &= b.returncode != 0
if "--notest" not in sys.argv and any(f.endswith(".py") for f, _, _ in spec["EDITS"]):
    t = run(f"PYTHONPATH={R}:{R}/mllm-kernel PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=4 HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 timeout 600 /opt/mllm-venv/bin/python -m pytest -p no:cacheprovider --continue-on-collection-errors -q --tb=no pymllm/tests mllm-kernel/tests", cwd=R)
    print("tests:", t.stdout.strip().splitlines()[-1:])
if "--nocheck" not in sys.argv:
    c = run(f"VERIF_REPO={R} ./check {spec['PROP']} quick", cwd="/verif")
    print("check rc", c.returncode, "\n".join(c.stdout.strip().splitlines()[-6:])[-900:])
run(f"git -C {R} checkout -q -- .")
a = run(f"bash {d}/demo.sh", cwd=R); print("demo unchanged rc", a.returncode, (a.stdout + a.stderr).strip()[-300:] if a.returncode else ""); ok &= a.returncode == 0
print("OK" if ok else "NOT OK")
