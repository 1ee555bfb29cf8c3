"""P12: a quantised layer computes with exactly the weights of its checkpoint"""
import types

import numpy as np
import torch
import z3

from .common import *
import symx
import symt
from symt import SymTensor, SymTorch, sym

import pymllm.layers.base as lb
import pymllm.layers.linear as ll
import pymllm.quantization.methods.awq_marlin as aw
import pymllm.quantization.methods.compressed_tensors as ct
import mllm_kernel.cuda.jit as kj  # noqa
import sys

BUDGET = {"quick": 60, "thorough": 500}
ASSUMPTIONS = [
    "the CUDA kernels are stubs with their documented contract: awq_marlin_repack takes [K, N/pack] words in AWQ nibble order, "
    "gptq_marlin_repack [K/pack, N] words, gptq_marlin_gemm reads scales and zero points in the Marlin permutation, "
    "int8_scaled_mm takes a column-major [K, N] weight; what they multiply is compared per element, the sum itself is not formed",
    "floating-point scales are opaque symbols that only move",
]
NS = types.SimpleNamespace
AWQ_ORDER = {4: [0, 2, 4, 6, 1, 3, 5, 7], 8: [0, 2, 1, 3]}


class W:
    """an int32 word: a 32-bit vector, or its value in a replay"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @staticmethod
    def _v(o):
        return o.v if isinstance(o, W) else int(o)

    def _op(self, o, f, g):
        a, b = self.v, self._v(o)
        if z3.is_expr(a) or z3.is_expr(b):
            a, b = [x if z3.is_expr(x) else z3.BitVecVal(x, 32) for x in (a, b)]
            return W(f(a, b))
        r = g(a, b) & 0xFFFFFFFF
        return W(r - (1 << 32) if r >> 31 else r)

    def __and__(self, o):
        return self._op(o, lambda a, b: a & b, lambda a, b: a & b)

    def __or__(self, o):
        return self._op(o, lambda a, b: a | b, lambda a, b: a | b)

    def __xor__(self, o):
        return self._op(o, lambda a, b: a ^ b, lambda a, b: a ^ b)

    def __lshift__(self, o):
        return self._op(o, lambda a, b: a << b, lambda a, b: a << b)

    def __rshift__(self, o):                       # int32: arithmetic
        return self._op(o, lambda a, b: a >> b, lambda a, b: a >> b)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b, lambda a, b: a + b)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b, lambda a, b: a - b)

    __rand__, __ror__, __rxor__, __radd__ = __and__, __or__, __xor__, __add__

    def bits(self, at, n):
        """field of n bits, at a concrete position"""
        if z3.is_expr(self.v):
            return z3.Extract(at + n - 1, at, self.v)
        return (self.v >> at) & ((1 << n) - 1)

    def __eq__(self, o):
        a, b = self.v, self._v(o)
        if z3.is_expr(a) or z3.is_expr(b):
            return symx.mkbool(a == b)
        return a == b

    __hash__ = None

    def __deepcopy__(self, memo):
        return self


def words(ctx, name, shape):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        x = ctx.int(name + "_" + "_".join(map(str, i)), -2**31, 2**31 - 1)
        a[i] = W(z3.Int2BV(symx.term(x), 32)) if isinstance(ctx, symx.Engine) else W(x)
    return SymTensor(a, torch.int32)


class Words:
    """bit-vector constants instead of bounded integers: no conversion for the solver"""

    def __init__(self, ctx):
        self.ctx = ctx

    def make(self, name, shape, live):
        """live: positions that are symbolic, the others distinct constants"""
        a = np.empty(shape, dtype=object)
        n = 0
        for i in np.ndindex(*shape):
            n += 1
            v = (n * 2654435761 + 97) & 0xFFFFFFFF
            a[i] = W(v - (1 << 32) if v >> 31 else v)
        r = SymTensor(a, torch.int32)
        for i in live:
            a[i] = words(self.ctx, name + "_" + "_".join(map(str, i)), (1,)).a[0]
        return r


class Stop(Exception):
    pass


class Kernels:
    def __init__(self, ctx):
        self.ctx, self.calls, self.alias = ctx, [], []

    def awq_repack(self, q, size_k, size_n, num_bits):
        need(tuple(q.shape) == (size_k, size_n * num_bits // 32), "awq_marlin_repack input shape")
        return self._packed("awq", q, size_k, size_n, num_bits)

    def gptq_repack(self, b_q_weight, perm, size_k, size_n, num_bits):
        q = b_q_weight
        need(tuple(q.shape) == (size_k * num_bits // 32, size_n), "gptq_marlin_repack input shape")
        need(q.is_contiguous(), "gptq_marlin_repack input is contiguous")
        need(perm.numel() == 0, "no activation order")
        return self._packed("gptq", q, size_k, size_n, num_bits)

    def _packed(self, kind, q, k, n, bits):
        t = symt.full((k // 16, n * 16 * bits // 32), symt.POISON, torch.int32)
        t.origin = (kind, q.clone(), k, n, bits)
        self.alias.append(t)
        return t

    def gemm(self, a, c, b_q_weight, b_scales, global_scale, b_zeros, g_idx, perm, workspace, b_q_type_id,
             size_m, size_n, size_k, is_k_full=True, use_atomic_add=False, use_fp32_reduce=False, is_zp_float=False):
        need(c is None and global_scale is None and is_k_full and not is_zp_float, "gemm flags")
        need(g_idx.numel() == 0 and perm.numel() == 0, "no activation order")
        need(tuple(a.shape) == (size_m, size_k), "activation shape")
        need(workspace.numel() >= 1 and all(v == 0 for v in workspace.a.reshape(-1)), "zeroed workspace")
        self.calls.append(NS(x=a, w=b_q_weight, s=b_scales, z=b_zeros, type=b_q_type_id, n=size_n, k=size_k))
        return product(self.ctx, a, size_n)

    def quant(self, x):
        need(len(x.shape) == 2 and x.is_contiguous(), "per_token_quant_int8 input")
        q, s = x.clone(), symt.full((x.shape[0], 1), 1, torch.float32)
        q.of = s.of = x
        return q, s

    def mm(self, x_q, w, x_scale, w_scale, out_dtype, bias=None):
        need(x_q.of is x_scale.of, "activation and its scales")
        need(len(w.shape) == 2 and x_q.shape[1] == w.shape[0], "weight is [K, N]")
        need(w.a.T.flags["C_CONTIGUOUS"], "weight is column-major")
        need(len(w_scale.shape) == 1 and w_scale.shape[0] == w.shape[1], "one scale per output channel")
        need(w.dtype == torch.int8 and w_scale.dtype == torch.float32, "weight and scale types")
        self.calls.append(NS(x=x_q.of, w=w, s=w_scale, z=None, dtype=out_dtype))
        r = product(self.ctx, x_q.of, w.shape[1])
        return r + bias if bias is not None else r


def need(c, what):
    if not c:
        raise symx.CodeError("kernel called outside its contract: " + what)


def product(ctx, x, n):
    """opaque: a function of the activation row and the output column"""
    a = np.empty((x.shape[0], n), dtype=object)
    for i in range(x.shape[0]):
        for j in range(n):
            a[i, j] = x.a[i, 0] * (3 * j + 1) + x.a[i, -1] * (5 * j + 2)
    return SymTensor(a, x.dtype)


K = [None]
SIG = {}


def install(ctx):
    K[0] = k = Kernels(ctx)
    cuda = NS(get_device_capability=lambda *a: (8, 0), is_available=lambda: True,
              get_device_properties=lambda d: NS(multi_processor_count=4))
    P = lambda t, requires_grad=True: t
    T = lambda: SymTorch(Tensor=(torch.Tensor, SymTensor), cuda=cuda, nn=NS(Parameter=P, Module=torch.nn.Module))
    for m in (aw, ct, ll):
        m.torch = T()
        m.Parameter = P
    lb.MllmBaseLayer.register_parameter = lambda self, n, p: object.__setattr__(self, n, p)
    a = types.ModuleType("mllm_kernel.cuda.jit.awq_marlin_repack")
    a.awq_marlin_repack = k.awq_repack
    g = types.ModuleType("mllm_kernel.cuda.jit.gptq_marlin")
    g.gptq_marlin_gemm = k.gemm
    sys.modules[a.__name__], sys.modules[g.__name__] = a, g
    ct.gptq_marlin_gemm, ct.gptq_marlin_repack = k.gemm, k.gptq_repack
    ct._triton_quant_fn, ct._cutlass_mm_fn = k.quant, k.mm
    return k


def scale_pos(n, single):
    """where the Marlin kernel reads the scale of output column n"""
    if single:
        b, r = n - n % 32, n % 32
        return b + (r % 8) // 2 * 8 + r // 8 * 2 + r % 2
    b, r = n - n % 64, n % 64
    return b + r % 8 * 8 + r // 8


def build(ctx, qm, parts, k, bias, merged):
    if merged:
        return ll.MergedLinear(k, list(parts), bias=bias, quant_method=qm)
    return ll.Linear(k, sum(parts), bias=bias, quant_method=qm)


def fill(ctx, layer, name, dim, parts, tensor, order, merged, ids):
    """load a checkpoint tensor, shard by shard when the layer is a merged one"""
    p = getattr(layer, name)
    if not merged:
        p.weight_loader(p, tensor)
        return
    n, f, o = sum(parts), tensor.shape[dim], 0
    cut = []
    for q in parts:
        cut.append(tensor.narrow(dim, o, q * f // n))
        o += q * f // n
    for i in order:
        p.weight_loader(p, cut[i], ids[i])


def activation(ctx, lead, k):
    a = np.empty(tuple(lead) + (k,), dtype=object)
    a.reshape(-1)[:] = symt._flatobj([7] * a.size)
    for i in np.ndindex(*lead):
        for j in (0, k - 1):
            a[i + (j,)] = ctx.int("x_" + "_".join(map(str, i)) + f"_{j}", -1000, 1000)
    return SymTensor(a, torch.float16)


def outcome(ctx, layer, lead, k, n, bias):
    x = activation(ctx, lead, k)
    y = layer(x)
    ctx.check(tuple(y.shape) == tuple(lead) + (n,), "output shape")
    want = product(ctx, SymTensor(x.a.reshape(-1, k), x.dtype), n)
    if bias is not None:
        want = want + bias
    ctx.check(symt.same(y.reshape(-1, n), want), "output row of every token, with the bias")
    return y


def ids_of(parts):
    return ["q", "k", "v"] if len(parts) == 3 else list(range(len(parts)))


def biased(ctx, layer, n, merged, parts):
    b = sym(ctx, "b", (n,), -1000, 1000, dtype=torch.float16)
    layer.bias.weight_loader(layer.bias, b)
    return b


def h_awq(ctx, k, parts, gs, bits, merged=False, lead=(2,)):
    kn = install(ctx)
    n, pf = sum(parts), 32 // bits
    cfg = aw.AWQMarlinConfig.from_config({("bits" if ctx.flag("key") else "w_bit"): bits, "group_size": gs, "zero_point": True})
    qm = cfg.get_quant_method(None, "layers.0.mlp")
    order = list(range(len(parts)))
    if merged and ctx.flag("reverse"):
        order.reverse()
    withb = ctx.flag("bias")
    layer = build(ctx, qm, parts, k, withb, merged)
    groups = 1 if gs == -1 else k // gs
    lives = [(0, 0), (groups - 1, n // pf - 1)]
    live = lives[ctx.pick("live", 0, 1)]
    ws = Words(ctx)
    qw = ws.make("w", (k, n // pf), [(0, 0), (k - 1, n // pf - 1)])
    qz = ws.make("z", (groups, n // pf), [live])
    sc = sym(ctx, "s", (groups, n), 0, 2**40, dtype=torch.float16)
    for nm, t in (("qweight", qw), ("qzeros", qz), ("scales", sc)):
        fill(ctx, layer, nm, 1, parts, t, order, merged, ids_of(parts))
    b = biased(ctx, layer, n, merged, parts) if withb else None
    qm.process_weights_after_loading(layer)
    outcome(ctx, layer, lead, k, n, b)
    c = kn.calls[-1]
    ctx.check(len(kn.calls) == 1 and (c.n, c.k) == (n, k), "one product of the layer's size")
    kind, w, wk, wn, wb = c.w.origin
    ctx.check(kind == "awq" and (wk, wn, wb) == (k, n, bits), "repacked weights")
    ctx.check(symt.same(w, qw), "weight words")
    ctx.check(c.type == TYPES[bits], "unsigned weights with zero points")
    scales(ctx, c.s, sc, groups, n, single=groups == 1)
    ctx.check(tuple(c.z.shape) == (groups, n // pf), "zero point shape")
    g = ctx.pick("zgroup", 0, groups - 1)
    want, got = [], []
    inv = [AWQ_ORDER[bits].index(i) for i in range(pf)]
    for j in range(n):
        want.append(field(qz.a[g, j // pf], inv[j % pf] * bits, bits))
        p = scale_pos(j, False)
        got.append(field(c.z.a[g, p // pf], inv[p % pf] * bits, bits))
    ctx.check(sym_and(*[a == b for a, b in zip(got, want)]), "zero point of every output column")
    ctx.reach("merged" if merged else "plain")


def field(w, a, n):
    w = w if isinstance(w, W) else W(int(w))
    v = w.bits(a, n)
    return symx.mkint(z3.BV2Int(v)) if z3.is_expr(v) else v


def tid(e, m, s, b):
    return e | m << 8 | s << 16 | b << 17 | 1 << 50


TYPES = {4: tid(0, 4, 0, 0), 8: tid(0, 8, 0, 0), "4b8": tid(0, 4, 0, 8)}


def scales(ctx, got, want, groups, n, single):
    ctx.check(tuple(got.shape) == (groups, n), "scale shape")
    g = ctx.pick("group", 0, groups - 1)
    pos = [scale_pos(j, single) for j in range(n)]
    ctx.check(symt.same(got.a[g][pos], want.a[g]), "scale of every output column")


def ctcfg(gs, sym_=True, ignore=(), fmt="pack-quantized"):
    if fmt == "pack-quantized":
        w = dict(num_bits=4, group_size=gs, strategy="channel" if gs == -1 else "group", type="int", symmetric=sym_, actorder=None)
        return {"format": fmt, "ignore": list(ignore), "config_groups": {"group_0": {"weights": w, "input_activations": None}}}
    w = dict(num_bits=8, group_size=None, strategy="channel", type="int", symmetric=True, dynamic=False)
    i = dict(num_bits=8, strategy="token", type="int", symmetric=True, dynamic=True)
    return {"format": fmt, "ignore": list(ignore), "config_groups": {"group_0": {"weights": w, "input_activations": i}}}


def h_w4a16(ctx, k, parts, gs, merged=False, lead=(2,)):
    kn = install(ctx)
    n = sum(parts)
    qm = ct.CompressedTensorsConfig.from_config(ctcfg(gs)).get_quant_method(None, "layers.0.mlp")
    order = list(range(len(parts)))
    if merged and ctx.flag("reverse"):
        order.reverse()
    withb = ctx.flag("bias")
    layer = build(ctx, qm, parts, k, withb, merged)
    groups = 1 if gs == -1 else k // gs
    qw = Words(ctx).make("w", (n, k // 8), [(0, 0), (n - 1, 0), (n - 1, k // 8 - 1)])
    sc = sym(ctx, "s", (n, groups), 0, 2**40, dtype=torch.float16)
    for nm, t in (("weight_packed", qw), ("weight_scale", sc)):
        fill(ctx, layer, nm, 0, parts, t, order, merged, ids_of(parts))
    shp = layer.weight_shape
    if merged:
        for i in order:
            shp.weight_loader(shp, SymTensor(symt._flatobj([parts[i], k]), torch.int64), ids_of(parts)[i])
    else:
        shp.weight_loader(shp, SymTensor(symt._flatobj([n, k]), torch.int64))
    ctx.check([int(v) for v in shp.a] == [n, k], "recorded shape")
    b = biased(ctx, layer, n, merged, parts) if withb else None
    qm.process_weights_after_loading(layer)
    outcome(ctx, layer, lead, k, n, b)
    c = kn.calls[-1]
    ctx.check(len(kn.calls) == 1 and (c.n, c.k) == (n, k), "one product of the layer's size")
    kind, w, wk, wn, wb = c.w.origin
    ctx.check(kind == "gptq" and (wk, wn, wb) == (k, n, 4), "repacked weights")
    ctx.check(symt.same(w, SymTensor(qw.a.T, torch.int32)), "weight words")
    ctx.check(c.type == TYPES["4b8"] and c.z.numel() == 0, "symmetric weights, no zero points")
    scales(ctx, c.s, SymTensor(sc.a.T, sc.dtype), groups, n, single=groups == 1)
    ctx.reach("merged" if merged else "plain")


def h_w8a8(ctx, k, parts, merged=False, lead=(2,)):
    kn = install(ctx)
    n = sum(parts)
    qm = ct.CompressedTensorsConfig.from_config(ctcfg(None, fmt="int-quantized")).get_quant_method(None, "layers.0.mlp")
    order = list(range(len(parts)))
    if merged and ctx.flag("reverse"):
        order.reverse()
    withb = ctx.flag("bias")
    layer = build(ctx, qm, parts, k, withb, merged)
    qw = sym(ctx, "w", (n, k), -128, 127, dtype=torch.int8)
    sc = sym(ctx, "s", (n, 1), 0, 2**40, dtype=torch.float32)
    fill(ctx, layer, "weight", 0, parts, qw, order, merged, ids_of(parts))
    fill(ctx, layer, "weight_scale", 0, parts, sc, order, merged, ids_of(parts))
    b = biased(ctx, layer, n, merged, parts) if withb else None
    qm.process_weights_after_loading(layer)
    outcome(ctx, layer, lead, k, n, b)
    c = kn.calls[-1]
    ctx.check(len(kn.calls) == 1, "one product")
    ctx.check(symt.same(c.w, SymTensor(qw.a.T, torch.int8)), "weights")
    ctx.check(symt.same(c.s, SymTensor(sc.a[:, 0], torch.float32)), "scales")
    ctx.check(c.dtype == torch.float16, "output type follows the activations")
    ctx.reach("merged" if merged else "plain")


LAYERS = [1, 2, 10, 12]
MODS = ["q_proj", "qkv_proj", "gate", "gate_proj", "linear_attn"]


def h_ignore(ctx, fmt, two=False, mods=4):
    """which layers keep their floating-point weights"""
    install(ctx)
    il = LAYERS[ctx.pick("entry_layer", 0, 3)]
    pl = LAYERS[ctx.pick("layer", 0, 3)]
    im, pm = MODS[ctx.pick("entry_module", 0, mods)], MODS[ctx.pick("module", 0, mods)]
    form = ctx.pick("form", 0, 4)
    prefix = f"layers.{pl}.mlp.{pm}"
    if form == 0:                       # the full name in the checkpoint
        e = [["", "model.", "model.language_model."][ctx.pick("outer", 0, 2)] + f"layers.{il}.mlp.{im}"]
        want = il == pl and im == pm
    elif form == 1:                     # a whole layer
        e = [f"model.layers.{il}"]
        want = il == pl
    elif form == 2:                     # a component anywhere
        e = [im]
        want = im == pm
    elif form == 3:                     # llm-compressor regex
        e = [f"re:.*layers\\.{il}\\..*{im}$"]
        want = il == pl and im == pm
    else:
        e, want = [], False
    if two:
        e.insert(ctx.pick("where", 0, len(e)), ["lm_head", "", "re:(", "visual"][ctx.pick("other", 0, 3)])
    cfg = ct.CompressedTensorsConfig.from_config(ctcfg(128, ignore=e, fmt=fmt))
    qm = cfg.get_quant_method(None, prefix)
    ctx.check((qm is None) == want, f"{prefix} with ignore list {e}")
    ctx.reach("ignored" if want else "quantised")
    ctx.check((cfg.get_quant_method(None, "lm_head") is None) == ("lm_head" in e), "lm_head")


Q = [dict(k=128, parts=[64], gs=128), dict(k=256, parts=[64], gs=128), dict(k=128, parts=[128], gs=32, lead=(1, 2)),
     dict(k=128, parts=[64], gs=-1, lead=()), dict(k=128, parts=[64, 64], gs=64, merged=True)]
T = Q + [dict(k=256, parts=[192, 64, 64], gs=32, merged=True, lead=(2, 1, 2)), dict(k=384, parts=[192], gs=64),
         dict(k=256, parts=[64], gs=-1), dict(k=256, parts=[128, 128], gs=256 // 2, merged=True)]
HARNESSES = [
    dict(name="awq", fn=h_awq, reach=["plain"],
         quick=[dict(bits=4, **q) for q in Q] + [dict(bits=8, **Q[1])],
         thorough=[dict(bits=b, **q) for q in T for b in (4, 8)],
         bounds="inputs up to 384, outputs up to 320, 1 to 8 groups, plain and merged layers, any scales, zero points and activations"),
    dict(name="w4a16", fn=h_w4a16, reach=["plain"], quick=Q, thorough=T,
         bounds="inputs up to 384, outputs up to 320, 1 to 8 groups or per channel, plain and merged layers"),
    dict(name="w8a8", fn=h_w8a8, reach=["plain"],
         quick=[dict(k=3, parts=[4]), dict(k=2, parts=[2, 3], merged=True, lead=(2, 2)), dict(k=2, parts=[6, 2, 2], merged=True, lead=())],
         thorough=[dict(k=5, parts=[7], lead=(2, 3)), dict(k=4, parts=[3, 2, 4, 1], merged=True), dict(k=3, parts=[9, 3, 3], merged=True, lead=(3,))],
         bounds="inputs up to 5, outputs up to 15, any weights, scales, biases and activations"),
    dict(name="ignore", fn=h_ignore, reach=["ignored", "quantised"],
         quick=[dict(fmt="pack-quantized"), dict(fmt="int-quantized", two=True, mods=2)],
         thorough=[dict(fmt="pack-quantized", two=True), dict(fmt="int-quantized", two=True)],
         bounds="one entry (and one unrelated one) in every documented form, layers 1, 2, 10 and 12, 5 module names"),
]
