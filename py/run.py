#!/usr/bin/env python3
"""Run the check of one property:  run.py <PID> [quick|thorough]
                                   run.py --replay <file>
See DESIGN.md.  Exit 0: held on everything explored; exit 1: VIOLATION line.
"""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO, os.path.join(REPO, "mllm-kernel")):
    if p not in sys.path:
        sys.path.insert(0, p)

import logging  # noqa

logging.disable(logging.CRITICAL)
import symx  # noqa


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == pid]


def match_known(f, hname, label, params, inputs):
    if f.get("harness") and f["harness"] != hname:
        return False
    if not re.search(f["label"], label):
        return False
    for k, v in f.get("params", {}).items():
        if params.get(k) != v:
            return False
    for k, v in f.get("inputs", {}).items():
        if inputs.get(k) != v:
            return False
    return True


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def do_replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    if hasattr(mod, "CPP"):
        import cxx
        return cxx.do_replay(mod, d, REPO)
    h = {x["name"]: x for x in mod.HARNESSES}[d["harness"]]
    ok, label, detail = symx.replay(h["fn"], d["params"], d["inputs"])
    print(("REPRODUCED: " if ok else "not reproduced: ") + label)
    if detail:
        print(detail)
    return 1 if ok else 0


def finish(pid, tier, seed, level_cov, assumptions, wall, violation, used_known, unrepro, errors, checks):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=level_cov, assumptions=assumptions,
              wall_s=round(wall, 2), violations=1 if violation else 0)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, (f, label) in sorted(used_known.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {label}")
    for u in unrepro[:3]:
        print(f"[{pid}] note: not reproduced: {u['label']} ({u['why']}) {u.get('detail', '')}")
    for he in errors[:3]:
        print(f"[{pid}] harness error: {he[0]}: {he[1]}\n{he[2]}")
    if violation:
        rp = os.path.join(VERIF, "evidence", f"replay-{pid}.json")
        json.dump(violation, open(rp, "w"), indent=1, default=str)
        print(f"[{pid}] {violation['harness']} {violation['params']}: {violation['label']}")
        print("inputs:", violation["inputs"])
        if violation["detail"]:
            print(violation["detail"])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if errors and checks == 0:
        sys.exit(2)


def main_cpp(mod, pid, tier, only, seed, t0):
    import cxx
    rows, agg, violation, used, unrepro, errors, functions = cxx.run(
        mod, pid, tier, only, seed, REPO, known_findings(pid), match_known)
    wall = time.time() - t0
    cov = dict(
        states=agg["paths"], transitions=agg["branches"],
        traces_validated_against_impl=agg["validated"],
        samples=agg["samples"] or ["no path completed"],
        meaning="states = symbolic paths completed; transitions = symbolic branch decisions; "
                "traces_validated_against_impl = path models re-run natively (clang, ASan) with the same outcome",
        functions_encoded=sorted(functions),
        bounds={h["name"]: h.get("bounds", "") for h in mod.CPP},
        queries_discharged=agg["queries"], assertion_checks=agg["checks"],
        assertion_queries=agg["check_queries"],
        assertions_folded_by_path_condition=agg["trivial"],
        ir_instructions=agg["instrs"],
        solver_s=round(agg["solver_s"], 2), solver="z3 4.8.12 (C API)",
        all_harnesses_exhausted_within_bounds=all(r["complete"] for r in rows),
        harness_runs=rows, unreproduced_counterexamples=unrepro,
        harness_errors=[list(x[:2]) for x in errors], known_findings=sorted(used))
    finish(pid, tier, seed, cov, list(getattr(mod, "ASSUMPTIONS", [])), wall, violation, used, unrepro, errors, agg["checks"])
    print(f"[{pid}] ok: {agg['paths']} paths, {agg['checks']} assertions, {agg['queries']} queries, {wall:.1f}s")
    sys.exit(0)


def main():
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(pid)
    if hasattr(mod, "CPP"):
        main_cpp(mod, pid, tier, only, seed, t0)
        return
    total = mod.BUDGET[tier] if hasattr(mod, "BUDGET") else {"quick": 70, "thorough": 700}[tier]
    jobs = []
    for h in mod.HARNESSES:
        if only and h["name"] != only:
            continue
        ps = h.get(tier) or h["quick"]
        for p in ps:
            jobs.append((h, p))
    finds = known_findings(pid)
    used_known = {}
    agg = symx.Stats()
    rows = []
    functions = set()
    violation = None
    unrepro = []
    harness_errors = []
    for i, (h, params) in enumerate(jobs):
        left = t0 + total - time.time()
        # a slow job may use what is left, but leave a floor for the others
        budget = max(3.0, left - 2.0 * (len(jobs) - i - 1)) if left > 0 else 3.0
        budget = min(budget, h.get("max_s", 1e9))
        isk = lambda v: any(match_known(f, h["name"], v[0], params, v[1]) for f in finds)
        res = symx.explore(h["fn"], params, budget_s=budget, is_known=isk,
                           root=REPO, qt=h.get("qt", 30000))
        agg.merge(res.stats)
        functions |= res.functions
        row = dict(
            harness=h["name"], params=params, complete=res.complete,
            paths=res.stats.paths, infeasible=res.stats.infeasible,
            branch_points=res.stats.branches, solver_queries=res.stats.queries,
            assertions=res.stats.checks, assertion_queries=res.stats.check_queries,
            solver_s=round(res.stats.solver_s, 3), wall_s=round(res.wall, 2),
            unexplored_prefixes=res.leftover,
            reached=res.stats.reach,
        )
        missing = [l for l in h.get("reach", []) if not res.stats.reach.get(l)]
        if missing:
            row["unreached_witnesses"] = missing
        rows.append(row)
        for label, inputs, why in res.unreproduced:
            unrepro.append(dict(harness=h["name"], params=params, label=label,
                                inputs=inputs, why=why))
        for v in res.violations:
            label, inputs, detail = v
            if label.startswith("HARNESS-ERROR"):
                harness_errors.append((h["name"], label, detail))
                continue
            ks = [f for f in finds if match_known(f, h["name"], label, params, inputs)]
            if ks:
                used_known.setdefault(ks[0]["id"], (ks[0], label))
            elif violation is None:
                violation = dict(property=pid, harness=h["name"], params=params,
                                 inputs=inputs, label=label, detail=detail)
        print(f"[{pid}] {h['name']} {params} paths={res.stats.paths} "
              f"checks={res.stats.checks} queries={res.stats.queries} "
              f"solver={res.stats.solver_s:.1f}s wall={res.wall:.1f}s "
              f"complete={res.complete}"
              + (f" UNREACHED={missing}" if missing and res.complete else ""), flush=True)
        if violation:
            break
    wall = time.time() - t0
    cov = dict(
        states=agg.paths,
        transitions=agg.branches,
        traces_validated_against_impl=agg.validated,
        samples=agg.samples[:6] or ["no path completed"],
        meaning="states = symbolic paths completed; transitions = symbolic branch "
                "decisions; traces_validated_against_impl = path models re-run "
                "concretely (plain ints) against the same real code with the same outcome",
        functions_encoded=sorted(functions),
        bounds={h["name"]: h.get("bounds", "") for h in mod.HARNESSES},
        queries_discharged=agg.queries,
        assertion_checks=agg.checks,
        assertion_queries=agg.check_queries,
        assertions_folded_by_path_condition=agg.trivial,
        solver_s=round(agg.solver_s, 2),
        solver="z3 " + symx.z3.get_version_string(),
        all_harnesses_exhausted_within_bounds=all(r["complete"] for r in rows),
        harness_runs=rows,
        unreproduced_counterexamples=unrepro,
        harness_errors=[list(x[:2]) for x in harness_errors],
        known_findings=sorted(used_known),
    )
    finish(pid, tier, seed, cov, list(getattr(mod, "ASSUMPTIONS", [])), wall, violation,
           used_known, unrepro, harness_errors, agg.checks)
    print(f"[{pid}] ok: {agg.paths} paths, {agg.checks} assertions, "
          f"{agg.queries} queries, {wall:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    main()
