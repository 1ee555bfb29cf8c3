#!/usr/bin/env python3
"""mut.py FILE.py [WORKERS]: try mutants M=[(PROP, file, old, new)], optionally with a 5th item n = which occurrence."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
spec = {}
exec(open(sys.argv[1]).read(), spec)
W = int(sys.argv[2]) if len(sys.argv) > 2 else 2
run = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
B = os.environ.get("BASE", "/repo")
free = []
for i in range(W):
    d = f"/tmp/mut{i}"
    run(f"rsync -a --delete --exclude _build --exclude .git --exclude mllm-chat --exclude assets {B}/ {d}/")
    free.append(d)
lock = threading.Lock()
def one(j):
    k, m = j
    prop, f, old, new, *n = m
    with lock: d = free.pop()
    try:
        src = open(f"{B}/{f}").read()
        c = src.count(old)
        if c == 0 or (c > 1 and not n): return print(f"#{k} {prop} {f}: {c} matches of {old!r}", flush=True)
        i = -1
        for _ in range((n[0] if n else 0) + 1): i = src.find(old, i + 1)
        if i < 0: return print(f'#{k} no such occurrence')
        open(f"{d}/{f}", "w").write(src[:i] + new + src[i + len(old):])
        run(f"mkdir -p /tmp/mutev{k}")
        r = run(f"VERIF_REPO={d} timeout 880 ./check {prop} quick", cwd="/verif")
        o = r.stdout + r.stderr
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        why = "" if v else o.strip()[-300:]
        t = [l for l in o.splitlines() if l.startswith("[") and "}: " in l][:1]
        print(f"#{k} {prop} rc={r.returncode} {'caught' if v and r.returncode == 1 else 'MISSED'} {os.path.basename(f)}: {old[:60]!r} -> {new[:60]!r} {t} {why}", flush=True)
        open(f"{d}/{f}", "w").write(src)
    finally:
        with lock: free.append(d)
with ThreadPoolExecutor(W) as ex: list(ex.map(one, enumerate(spec["M"])))
