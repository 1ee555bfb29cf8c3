"""C++ side of the runner: compile the harness and /repo's sources to LLVM IR,
execute them symbolically with kx, replay counterexamples natively (ASan)."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPP = os.path.join(VERIF, "cpp")
CLANGXX, CLANG, LINK = "clang++-18", "clang-18", "/usr/lib/llvm-18/bin/llvm-link"
SYM = ["-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
       "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", "-w"]
NAT = ["-O0", "-g1", "-fsanitize=address", "-c", "-w"]


def build_kx():
    out = os.path.join(VERIF, "build", "kx")
    src = os.path.join(CPP, "kx.cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + f".{os.getpid()}"
    subprocess.run(
        ["g++", "-O2", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
         src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"],
        check=True)
    os.rename(tmp, out)
    return out


class Builder:
    def __init__(self, repo):
        self.repo = repo
        self.dir = tempfile.mkdtemp(prefix="kx-")
        self.pool = cf.ThreadPoolExecutor(8)
        self.jobs = {}

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def incs(self):
        r = self.repo
        t = r + "/third_party"
        return (["-I" + CPP, "-I" + CPP + "/stubs", "-I" + CPP + "/h", "-I" + r, "-I" + t]
                + [f"-I{t}/{x}/include" for x in ("stb", "half", "dlpack", "xxHash", "utfcpp")]
                + [f"-I{t}/json", f"-I{t}/json/include"])

    def _run(self, cmd):
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        if p.returncode:
            raise RuntimeError("build failed: " + " ".join(cmd[:1] + cmd[-4:]) + "\n" + p.stderr[-4000:])

    def obj(self, src, flags, native):
        """future of the object/bitcode file"""
        key = (src, tuple(flags), native)
        if key not in self.jobs:
            o = os.path.join(self.dir, hashlib.md5(repr(key).encode()).hexdigest() + (".o" if native else ".bc"))
            c = src.endswith(".c")
            cmd = [CLANG if c else CLANGXX] + (NAT if native else SYM)
            if c:
                cmd += ["-fno-builtin"]
            else:
                cmd += ["-std=c++20"] + self.incs()
            cmd += list(flags) + [src, "-o", o]

            def go():
                self._run(cmd)
                return o
            self.jobs[key] = self.pool.submit(go)
        return self.jobs[key]

    def path(self, s):
        return os.path.join(CPP, s[4:]) if s.startswith("cpp:") else os.path.join(self.repo, s)

    def parts(self, h, params, native):
        fl = list(h.get("flags", []))
        if not native:   # stand-ins of the executor's side
            fl = [f.replace("@", CPP + "/") for f in h.get("symflags", [])] + fl
        else:
            fl = h.get("natflags", []) + fl
        d = [f"-D{k}={v}" for k, v in params.items()]
        if native:
            d.append("-DKX_NATIVE=1")
        fs = [self.obj(os.path.join(CPP, "h", h["src"]), fl + d, native)]
        for s in h.get("sources", []):
            fs.append(self.obj(self.path(s), fl, native))
        if native:
            fs.append(self.obj(os.path.join(CPP, "kx_native.cpp"), [], True))
            fs.append(self.obj(os.path.join(CPP, "hash1.cpp"), [], True))
            for s in h.get("native", []):
                fs.append(self.obj(self.path(s), fl, True))
        else:
            fs.append(self.obj(os.path.join(CPP, "runtime.c"), [], False))
            fs.append(self.obj(os.path.join(CPP, "runtime.cpp"), [], False))
            fs.append(self.obj(os.path.join(CPP, "hash1.cpp"), [], False))
            for s in h.get("symbolic", []):
                fs.append(self.obj(self.path(s), fl, False))
        return fs

    def module(self, h, params):
        fs = self.parts(h, params, False)
        o = os.path.join(self.dir, "m%d.bc" % len(os.listdir(self.dir)))
        self._run([LINK, "-o", o] + [f.result() for f in fs])
        return o

    def program(self, h, params):
        key = ("prog", h["name"], json.dumps(params, sort_keys=True))
        if key not in self.jobs:
            fs = self.parts(h, params, True)
            o = os.path.join(self.dir, hashlib.md5(repr(key).encode()).hexdigest() + ".exe")
            cmd = [CLANGXX, "-fsanitize=address", "-Wl,--no-demangle", "-o", o] + [f.result() for f in fs] + h.get("libs", []) + ["-lpthread"]
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
            if p.returncode:
                # functions outside the encoded units (never reached): trap if called
                und = sorted(set(re.findall(r"undefined reference to [`'](\w+)'", p.stderr)))
                if not und:
                    raise RuntimeError("link failed: " + p.stderr[-3000:])
                st = o + ".s"
                with open(st, "w") as f:
                    for u in und:
                        f.write(f".globl {u}\n{u}: ud2\n.zero 64\n")
                self._run(cmd + [st])
            self.jobs[key] = o
        return self.jobs[key]


def run_native(exe, inputs, workdir):
    f = os.path.join(workdir, f"in-{os.getpid()}-{time.monotonic_ns()}")
    with open(f, "w") as fh:
        for k, v in inputs.items():
            fh.write(f"{k} {v}\n")
    env = dict(os.environ, ASAN_OPTIONS="exitcode=79:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0")
    try:
        p = subprocess.run([exe, f], capture_output=True, text=True, errors="replace",
                           timeout=60, env=env, cwd=workdir)
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    return rc, out


def reproduced(rc):
    return rc in (77, 78, 79) or rc < 0


def read_lines(p):
    try:
        return [json.loads(l) for l in open(p)]
    except FileNotFoundError:
        return []


def kx_run(kx, mod, prefix, budget, reach, h):
    cmd = [kx, mod, prefix, f"{budget:.1f}", str(h.get("par", 8)), "_Z7harnessv", ",".join(reach)] + h.get("kxflags", [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=budget + 60)
    except subprocess.TimeoutExpired:
        return None, "kx timed out"
    try:
        return json.loads(p.stdout.strip().splitlines()[-1]), p.stderr
    except Exception:
        return None, f"kx failed rc={p.returncode}: {p.stderr[-2000:]}"


def sgn(v):
    return v if v < (1 << 63) else v - (1 << 64)


def _prefetch_all(b, jobs):
    for h, p in jobs:
        b.parts(h, p, False)


def do_replay(mod, d, repo):
    h = {x["name"]: x for x in mod.CPP}[d["harness"]]
    b = Builder(repo)
    try:
        exe = b.program(h, d["params"])
        rc, out = run_native(exe, d["inputs"], b.dir)
        print(out[-3000:])
        print(("REPRODUCED: " if reproduced(rc) else "not reproduced: ") + d["label"] + f" (exit {rc})")
        return 1 if reproduced(rc) else 0
    finally:
        b.close()


def run(mod, pid, tier, only, seed, repo, finds, match_known):
    """-> (rows, agg, violation, used_known, unrepro, errors, functions)"""
    t0 = time.time()
    total = getattr(mod, "BUDGET", {"quick": 60, "thorough": 700})[tier]
    jobs = [(h, p) for h in mod.CPP if not only or h["name"] == only for p in (h.get(tier) or h["quick"])]
    agg = dict(paths=0, branches=0, queries=0, checks=0, check_queries=0, trivial=0, solver_s=0.0,
               validated=0, instrs=0, samples=[])
    rows, unrepro, errors, functions, used = [], [], [], set(), {}
    violation = None
    b = Builder(repo)
    try:
        kxf = b.pool.submit(build_kx)
        _prefetch_all(b, jobs)
        kx = kxf.result()
        validated_h = set()
        tstart = time.time()
        for i, (h, params) in enumerate(jobs):
            left = tstart + total - time.time()
            rest = len(jobs) - i
            budget = max(4.0, left if rest == 1 else min(left - 3.0 * (rest - 1), 2.2 * left / rest))
            budget = min(budget, h.get("max_s", 1e9))
            reach = h.get("reach", [])
            try:
                m = b.module(h, params)
            except RuntimeError as e:
                errors.append((h["name"], "does not compile", str(e)))
                rows.append(dict(harness=h["name"], params=params, complete=False, error="does not compile"))
                continue
            pre = os.path.join(b.dir, f"r{i}")
            st, err = kx_run(kx, m, pre, budget, reach, h)
            os.unlink(m)
            if st is None:
                errors.append((h["name"], "engine error", err))
                rows.append(dict(harness=h["name"], params=params, complete=False, error=err[:300]))
                continue
            viols, samples, unsup = read_lines(pre + ".viol"), read_lines(pre + ".samples"), []
            try:
                unsup = sorted(set(open(pre + ".unsup").read().split("\n")) - {""})
            except FileNotFoundError:
                pass
            for k in ("paths", "branches", "queries", "checks", "check_queries", "trivial", "instrs"):
                agg[k] += st[k]
            agg["solver_s"] += st["solver_s"]
            functions |= set(st["functions"])
            complete = st["incomplete"] == 0 and not st["stopped"] and not unsup
            missing = [l for l, n in st["reach"].items() if not n]
            row = dict(harness=h["name"], params=params, complete=complete, paths=st["paths"],
                       infeasible=st["infeasible"], branch_points=st["branches"], solver_queries=st["queries"],
                       assertions=st["checks"], assertion_queries=st["check_queries"], ir_instructions=st["instrs"],
                       solver_s=round(st["solver_s"], 3), wall_s=round(st["wall"], 2),
                       incomplete_paths=st["incomplete"], refused_paths=st["rejected"], reached=st["reach"])
            if missing:
                row["unreached_witnesses"] = missing
            if unsup:
                row["unsupported"] = unsup[:5]
            rows.append(row)
            for v in viols:
                rc, out = run_native(b.program(h, params), v["inputs"], b.dir)
                if not reproduced(rc):
                    unrepro.append(dict(harness=h["name"], params=params, label=v["label"], inputs=v["inputs"],
                                        why=f"native run of the same inputs exits {rc}", detail=v["detail"]))
                    continue
                ks = [f for f in finds if match_known(f, h["name"], v["label"], params, v["inputs"])]
                if ks:
                    used.setdefault(ks[0]["id"], (ks[0], v["label"]))
                elif violation is None:
                    violation = dict(property=pid, harness=h["name"], params=params, inputs=v["inputs"],
                                     label=v["label"], detail=v["detail"] + "\nnative: " + out[-1500:])
            if not violation and samples and h["name"] not in validated_h and h.get("validate", True):
                validated_h.add(h["name"])
                try:
                    exe = b.program(h, params)
                    for s in samples[:4]:
                        rc, out = run_native(exe, s, b.dir)
                        if rc == 0:
                            agg["validated"] += 1
                        else:
                            unrepro.append(dict(harness=h["name"], params=params, label="sample path", inputs=s,
                                                why=f"native run exits {rc}", detail=out[-800:]))
                except RuntimeError as e:
                    errors.append((h["name"], "native build", str(e)))
            for s in samples[:2]:
                if len(agg["samples"]) < 6:
                    agg["samples"].append(f"{h['name']} {params} {s}")
            print(f"[{pid}] {h['name']} {params} paths={st['paths']} checks={st['checks']} queries={st['queries']} "
                  f"solver={st['solver_s']:.1f}s wall={st['wall']:.1f}s complete={complete}"
                  + (f" UNREACHED={missing}" if missing else "") + (f" UNSUPPORTED={unsup[:3]}" if unsup else ""), flush=True)
            if violation:
                break
    finally:
        b.close()
    return rows, agg, violation, used, unrepro, errors, functions
