"""P11: a converted model file holds exactly the tensors it was made from"""
import importlib
import io
import json
import struct
import sys
import types

import numpy as np
import torch

from .common import *
import symx

NS = types.SimpleNamespace


class MTensor:                                # stands for the C++ tensor handle
    def __init__(self, vals=(), shape=(), dt=0, name=""):
        self.vals, self.shape, self.dt, self.name = list(vals), tuple(shape), dt, name
        self.dtype = NS(to_pod=lambda: self.dt)

    def set_name(self, n):
        self.name = n

    def tobytes(self):
        return cells(self.vals, f"pod{self.dt}", POD[self.dt])


POD = {0: 4, 1: 2, 134: 1}
ROOT = "pymllm.mobile"


def _load():
    if ROOT in sys.modules:
        return
    import pymllm
    base = pymllm.__path__[0] + "/mobile"
    pk = types.ModuleType(ROOT)
    pk.__path__ = [base]
    sys.modules[ROOT] = pk
    f = types.ModuleType(ROOT + ".ffi")
    f.Tensor = MTensor
    f.MLLM_FIND_NUMPY_AVAILABLE = f.MLLM_FIND_TORCH_AVAILABLE = True
    f.from_torch = f.from_numpy = lambda t: MTensor([t], t.shape, 0)
    sys.modules[ROOT + ".ffi"] = f
    if "tvm_ffi" not in sys.modules:
        t = types.ModuleType("tvm_ffi")
        t.get_global_func = None
        sys.modules["tvm_ffi"] = t


_load()
conv = importlib.import_module(ROOT + ".convertor")
v2 = importlib.import_module(ROOT + ".convertor.model_file_v2")
solver = importlib.import_module(ROOT + ".quantize.solver")
kai = importlib.import_module(ROOT + ".quantize.kai.w4a32")

BUDGET = {"quick": 40, "thorough": 400}
ASSUMPTIONS = [
    "element values are arbitrary and travel as opaque bytes; the KAI packing kernel and the cast to float32 are uninterpreted",
    "the file is an in-memory stand-in with the seek/write semantics of a binary file",
    "a plan that does not replace its inputs renames the one layer it matches to a fresh name",
]

TORCH = {torch.float32: (4, 0), torch.float16: (2, 1), torch.bfloat16: (2, 128), torch.int8: (1, 16),
         torch.int64: (8, 132), torch.uint8: (1, 129), torch.bool: (1, 129), torch.int32: (4, 18), torch.int16: (2, 17)}
NUMPY = {"float32": (4, 0), "float16": (2, 1), "int8": (1, 16), "int64": (8, 132), "uint8": (1, 129), "int32": (4, 18),
         "int16": (2, 17)}


class Bytes(list):
    """bytes whose values may be symbolic"""


def cells(vals, dt, size):
    return Bytes((v, dt, j) for v in vals for j in range(size))


class TTensor:
    """a torch tensor: elements in memory order, dims possibly transposed"""

    def __init__(self, vals, shape, dtype, dense=True, size=None, tag=None):
        self.vals, self.shape, self.dtype, self.dense = vals, tuple(shape), dtype, dense
        self.size = size or TORCH[dtype][0]
        self.tag = tag or str(dtype)

    def logical(self):
        if self.dense:
            return list(self.vals)
        r, c = self.shape                     # stored column-major
        return [self.vals[j * r + i] for i in range(r) for j in range(c)]

    def detach(self):
        return self

    cpu = detach

    def dim(self):
        return len(self.shape)

    def numel(self):
        return len(self.vals)

    def contiguous(self):
        return TTensor(self.logical(), self.shape, self.dtype, True, self.size, self.tag)

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        n = len(self.vals)
        k = 1
        for d in s:
            k *= d if d != -1 else 1
        return TTensor(self.logical(), [n // k if d == -1 else d for d in s], self.dtype, True, self.size, self.tag)

    def flatten(self):
        return self.reshape(-1)

    def view(self, dt):
        if dt is not torch.uint8:
            return self.reshape(dt)
        if not self.shape:
            raise RuntimeError("self.dim() cannot be 0 to view as a different element size")
        if not self.dense and self.shape[1] > 1 and self.shape[0] > 1:
            raise RuntimeError("self.stride(-1) must be 1 to view as a different element size")
        return TTensor(cells(self.vals, self.tag, self.size), self.shape[:-1] + (self.shape[-1] * self.size,), torch.uint8, True, 1, "b")

    def numpy(self):
        if self.dtype is torch.bfloat16:
            raise TypeError("Got unsupported ScalarType BFloat16")
        return self

    def tobytes(self):
        return Bytes(self.vals) if self.tag == "b" else cells(self.logical(), self.tag, self.size)

    def to(self, dt):
        if dt is self.dtype:
            return self
        return TTensor([("cast", v, self.tag) for v in self.vals], self.shape, dt, self.dense)

    def float(self):
        return self.to(torch.float32)


class NArray:
    """a numpy array: any elements in C or Fortran order (a real object array carries the layout)"""

    def __init__(self, vals, shape, dt, fortran=False, a=None):
        if a is None:
            a = np.empty(len(vals), dtype=object)
            a[:] = vals
            a = a.reshape(tuple(shape))
            if fortran:
                a = np.asfortranarray(a)
        self.a, self.dt = a, dt
        self.shape, self.dtype, self.size, self.ndim, self.flags = a.shape, np.dtype(dt), NUMPY[dt][0], a.ndim, a.flags
        self.itemsize, self.nbytes = self.size, self.size * a.size

    def _new(self, a):
        return NArray(None, None, self.dt, a=a)

    @property
    def T(self):
        return self._new(self.a.T)

    def tobytes(self, order="C"):
        return cells(list(self.a.ravel(order if order is not None else "C")), str(self.dtype), self.size)

    def __getattr__(self, name):
        if name not in ("ravel", "reshape", "flatten", "copy", "transpose", "squeeze", "__getitem__"):
            raise AttributeError(name)
        return lambda *x, **k: self._new(getattr(self.a, name)(*x, **k))

    def astype(self, dt, **k):
        if np.dtype(dt) == self.dtype:
            return self
        a = np.empty(self.a.shape, dtype=object, order="F" if self.a.flags.f_contiguous and not self.a.flags.c_contiguous else "C")
        for i in np.ndindex(*a.shape):
            a[i] = ("cast", self.a[i], str(self.dtype))
        return NArray(None, None, np.dtype(dt).name, a=a)


class File:
    def __init__(self):
        self.d, self.p = [], 0

    def write(self, b):
        b = list(b)
        if self.p > len(self.d):
            self.d += [0] * (self.p - len(self.d))
        self.d[self.p:self.p + len(b)] = b
        self.p += len(b)

    def seek(self, o, w=0):
        self.p = o + (0, self.p, len(self.d))[w]

    def tell(self):
        return self.p

    def flush(self):
        pass

    close = flush


def env():
    fs = {}

    def op(path, mode="r", *a, **k):
        if "w" in mode:
            fs[path] = File()
            return fs[path]
        return io.StringIO(fs[path])

    T = NS(Tensor=TTensor, uint8=torch.uint8, float32=torch.float32)
    for m in (v2, solver, kai, conv):
        m.open = op
        m.torch = T
        if hasattr(m, "np"):
            m.np = NS(ndarray=NArray, ascontiguousarray=lambda x, dtype=None: x._new(np.ascontiguousarray(x.a)) if x.a.ndim else x, **{k: getattr(np, k) for k in ("float32", "float16", "uint8", "int8", "int32", "int64", "prod", "dtype")})
    kai.from_torch = lambda t: MTensor([t], t.shape, 0)
    kai.from_numpy = kai.from_torch
    return fs


def raw(b):
    """concrete bytes of a part that must not be tensor data"""
    return None if any(isinstance(x, tuple) for x in b) else bytes(b)


def read(ctx, f):
    """the layout of mllm/core/schema/ModelFileV2.hpp"""
    h = raw(f.d[:532])
    ctx.check(h is not None and len(h) == 532, "the file starts with a whole header")
    magic, ver, name, n, off = struct.unpack("<II512sIQ", h)
    ctx.check((magic, ver) == (0x519A, 2), "magic number and version")
    out = {}
    for i in range(n):
        b = raw(f.d[off + 352 * i:off + 352 * i + 352])
        ctx.check(b is not None and len(b) == 352, "no tensor data overlaps a parameter descriptor")
        pid, ty, sz, po, sl, *rest = struct.unpack("<IIQQQ16i256s", b)
        nm = rest[16].split(b"\0")[0].decode()
        ctx.check(nm not in out, f"parameter names are distinct in the file ({nm[:40]})")
        ctx.check(po >= off + 352 * n and po + sz <= len(f.d), "tensor data lies inside the data section")
        out[nm] = (ty, rest[:sl], f.d[po:po + sz])
    return name.split(b"\0")[0].decode(), out


def same_bytes(ctx, got, want, label):
    ok = len(got) == len(want)
    ctx.check(ok, f"{label}: {len(want)} bytes")
    for g, w in zip(got, want):
        if g is w:
            continue
        fits = isinstance(g, tuple) and g[1] == w[1] and g[2] == w[2]
        ctx.check(fits, f"{label}: element bytes in order")
        a, b = g[0], w[0]
        while isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "cast" and a[2] == b[2]:
            a, b = a[1], b[1]
        if a is b:
            continue
        ctx.check(not isinstance(a, tuple) and not isinstance(b, tuple) and not isinstance(a, Pack)
                  and not isinstance(b, Pack) and a == b, f"{label}: values unchanged")


class Pack:
    def __init__(self, cfg, w, b):
        self.k = (cfg, w, b)


NAMES = ["a.weight", "a.bias", "lm_head.weight", "模型.layers.0.weight"]


def make(ctx, i, kinds):
    if kinds == "plain":
        v = [ctx.int(f"v{i}", 0, 2**64 - 1)]
        t = TTensor(v, [1], torch.bfloat16)
        return t, 128, [1], cells(v, t.tag, t.size)
    kind = kinds[ctx.pick(f"kind{i}", 0, len(kinds) - 1)]
    rank = ctx.pick(f"rank{i}", 0, 2)
    shape = [ctx.pick(f"d{i}_{r}", 1, 2) for r in range(rank)]
    n = int(np.prod(shape)) if shape else 1
    vals = [ctx.int(f"v{i}_{k}", 0, 2**64 - 1) for k in range(n)]
    if kind == "torch":
        dts = list(TORCH)
        dt = dts[ctx.pick(f"dt{i}", 0, len(dts) - 1)]
        t = TTensor(vals, shape, dt, not (rank == 2 and ctx.flag(f"T{i}")))
        return t, TORCH[dt][1], shape, cells(t.logical(), t.tag, t.size)
    if kind == "numpy":
        dts = list(NUMPY)
        dt = dts[ctx.pick(f"dt{i}", 0, len(dts) - 1)]
        t = NArray(vals, shape, dt, rank == 2 and ctx.flag(f"F{i}"))
        return t, NUMPY[dt][1], shape, cells(vals, str(t.dtype), t.size)
    dt = (0, 1, 134)[ctx.pick(f"dt{i}", 0, 2)]
    t = MTensor(vals, shape, dt)
    return t, dt, shape, t.tobytes()


def writer(ctx, mode, n, kinds, long_names=False):
    fs = env()
    names = list(NAMES)
    if long_names:
        names = ["x" * 255, "x" * 256, "x" * 256 + ".weight"]
    names = names[:n]
    ts = [make(ctx, i, "plain" if long_names or i < n - 1 else kinds) for i in range(n)]
    room = n
    if mode == "Streaming":
        room = ctx.pick("room", 0, n + 1)
    w = v2.ModelFileV2("/m", "tiny", mode, max_params_descriptor_buffer_num=room)
    done = []
    try:
        if mode == "Static":
            w.static_write({nm: t[0] for nm, t in zip(names, ts)})
            done = list(range(n))
        else:
            for i in range(n):
                w.streaming_write(names[i], ts[i][0])
                done.append(i)
    except (AssertionError, ValueError, RuntimeError):
        # refusing is fine when the request cannot be met
        ctx.check(room < n or (long_names and len(names[-1].encode()) > 255),
                  "tensors that fit the file are accepted")
        ctx.reach("refused")
        if mode == "Static":
            return
    w.finalize()
    name, got = read(ctx, fs["/m"])
    ctx.check(name == "tiny", "the file carries the model's name")
    ctx.check(set(got) == {names[i] for i in done}, "the file holds exactly the tensors written to it")
    for i in done:
        ty, shape, data = got[names[i]]
        ctx.check(ty == ts[i][1], f"{names[i][:20]}: element type")
        ctx.check(list(shape) == ts[i][2], f"{names[i][:20]}: shape")
        same_bytes(ctx, data, ts[i][3], names[i][:20])
    ctx.reach("read back")


HINTS = dict(quant_method="kai", kai_matmul_triplet="f32_qai8dxp_qsi4c32p", kai_matmul_layout="mxk_nxk",
             kai_matmul_tile_cfg="t0", replace=True)


def quantize(ctx, layers, groups, wide=False):
    fs = env()
    packed = []

    def get(name):
        ctx.check(name == "mllm.quantize_pack.KaiLinear_f32_qai8dxp_qsi4c32p_mxk_nxk", "the KAI packing function")

        def f(cfg, w, b):
            p = Pack(cfg, w.vals[0], b.vals[0] if b.vals else None)
            packed.append(p)
            return MTensor([p], (3,), 134, w.name)
        return f

    kai.tvm_ffi = NS(get_global_func=get)
    params, orig = {}, {}
    for i in range(layers):
        params[f"l.{i}.q.weight"] = TTensor([ctx.int(f"w{i}_{k}", 0, 2**32) for k in range(2)], [1, 2],
                                            (torch.float32, torch.bfloat16)[ctx.pick(f"wd{i}", 0, 1)])
        if ctx.flag(f"hasb{i}"):
            params[f"l.{i}.q.bias"] = TTensor([ctx.int(f"b{i}", 0, 2**32)], [1], torch.float32)
    params["l.0.q.weight_scale"] = TTensor([ctx.int("ws", 0, 2**32)], [1], torch.float32)   # begins like a planned name
    params["norm.weight"] = TTensor([ctx.int("nw", 0, 2**32)], [1], torch.bfloat16)
    orig.update(params)
    cfg = {}
    kind = {}
    for g in range(groups):
        k = ctx.pick(f"g{g}", 0, 3)           # kai replace, kai rename, unknown method, kai other triplet
        h = dict(HINTS, kai_matmul_tile_cfg=f"t{g}")
        if k == 1:
            h.update(replace=False, rename=f"packed.{g}.weight")
        elif k == 2:
            h.update(quant_method="gguf")
        elif k == 3:
            h.update(kai_matmul_triplet="f16_other")
        if wide:                              # one pattern for all layers
            if k == 1:
                return
            cfg[r"l\.\d+\.q\.(weight|bias)"] = {"hints": h}
            kind.update({i: k for i in range(layers)})
            break
        cfg[rf"l\.{g}\.q\.(weight|bias)"] = {"hints": h}
        kind[g] = k
    cast = bool(ctx.flag("cast"))
    qs = solver.QuantizeSolver()
    qs.register_pass(kai.W4A32KAIQuantizePass())
    n = qs.stream_quantize_params_size(cfg or None, params)
    w = v2.ModelFileV2("/m", "tiny", "Streaming", max_params_descriptor_buffer_num=n)
    qs.stream_quantize(cfg or None, params, writer=w, cast_left_2_fp32=cast)
    name, got = read(ctx, fs["/m"])
    want = {}
    for nm, t in orig.items():
        g = int(nm.split(".")[1]) if nm.startswith("l.") and not nm.endswith("_scale") else None
        if kind.get(g) == 0:
            if nm.endswith("weight"):
                want[nm] = g
        else:
            want[nm] = t
            if kind.get(g) == 1 and nm.endswith("weight"):
                want[f"packed.{g}.weight"] = g
    ctx.check(set(got) == set(want), "every tensor is written once, under its own name, and nothing else")
    for nm, t in want.items():
        ty, shape, data = got[nm]
        if isinstance(t, int):
            ctx.check(len(data) == 1 and isinstance(data[0], tuple) and isinstance(data[0][0], Pack), f"{nm}: packed weight")
            tile, wv, bv = data[0][0].k
            ctx.check(tile == ("t0" if wide else f"t{t}") and ty == 134, f"{nm}: packed with its group's tile configuration")
            same_bytes(ctx, cells(wv.logical(), "x", 1), cells(orig[f"l.{t}.q.weight"].to(torch.float32).logical(), "x", 1), f"{nm}: weight packed")
            b = orig.get(f"l.{t}.q.bias")
            ctx.check((bv is None) == (b is None), f"{nm}: bias folded exactly when the layer has one")
            if b is not None:
                same_bytes(ctx, cells(bv.logical(), "x", 1), cells(b.logical(), "x", 1), f"{nm}: bias packed")
            ctx.reach("packed")
        else:
            e = t.to(torch.float32) if cast else t
            ctx.check(ty == TORCH[e.dtype][1] and list(shape) == list(e.shape), f"{nm}: type and shape")
            same_bytes(ctx, data, cells(e.logical(), e.tag, e.size), nm)
    ctx.reach("done")


def shards(ctx, n, files):
    fs = env()
    data = {f"s{k}.safetensors": {} for k in range(files)}
    wm, want = {}, {}
    for i in range(n):
        k = ctx.pick(f"file{i}", 0, files - 1)
        nm = f"p{i}.weight"
        for j in range(files):                # a stale copy may sit in another shard
            if j == k or ctx.flag(f"dup{i}_{j}"):
                data[f"s{j}.safetensors"][nm] = ctx.int(f"v{i}_{j}", 0, 2**32)
        wm[nm] = f"s{k}.safetensors"
        want[nm] = data[wm[nm]][nm]

    class SO:
        def __init__(self, path, framework=None, device=None):
            ctx.check(path.startswith("/dir/"), "shards are looked up beside the index")
            self.d = data[path[5:]]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def keys(self):
            return list(self.d)

        def get_tensor(self, k):
            return self.d[k]

    conv.safe_open = SO
    fs["/dir/model.safetensors.index.json"] = json.dumps({"weight_map": wm})
    got = conv.load_model("/dir/model.safetensors.index.json")
    ctx.check(set(got) == set(want), "every tensor of the index is loaded")
    for nm in want:
        ctx.check(got[nm] == want[nm], f"{nm} comes from the shard the index names")
    one = conv.load_model("/dir/s0.safetensors")
    ctx.check(set(one) == set(data["s0.safetensors"]), "a single file yields all its tensors")
    for nm in one:
        ctx.check(one[nm] == data["s0.safetensors"][nm], f"{nm} of a single file")
    ctx.reach("loaded")


K3 = ["torch", "numpy", "mllm"]
HARNESSES = [
    dict(name="writer", fn=writer, reach=["read back", "refused"],
         quick=[dict(mode="Streaming", n=1, kinds=K3), dict(mode="Static", n=1, kinds=K3),
                dict(mode="Streaming", n=3, kinds=["torch"]), dict(mode="Static", n=3, kinds=["torch"]),
                dict(mode="Streaming", n=3, kinds=[], long_names=True),
                dict(mode="Static", n=3, kinds=[], long_names=True)],
         thorough=[dict(mode="Streaming", n=4, kinds=K3), dict(mode="Static", n=4, kinds=K3)],
         bounds="up to 3 tensors of rank <= 2, extents 1..2, all element types and sources, any descriptor table size, any values"),
    dict(name="quantize", fn=quantize, reach=["done", "packed"],
         quick=[dict(layers=1, groups=0), dict(layers=2, groups=1), dict(layers=2, groups=2), dict(layers=2, groups=1, wide=True)],
         thorough=[dict(layers=3, groups=1, wide=True), dict(layers=3, groups=2), dict(layers=3, groups=3)],
         bounds="up to 3 layers (with or without bias) and 3 plan groups (replace, rename, no matching pass), cast or not"),
    dict(name="shards", fn=shards, reach=["loaded"],
         quick=[dict(n=2, files=2), dict(n=3, files=2)], thorough=[dict(n=3, files=3), dict(n=4, files=2)],
         bounds="up to 4 tensors in up to 3 shard files, stale copies in other shards, any values"),
]
