"""P10: every parameter of the model holds exactly its checkpoint tensors"""
import re
import types

import numpy as np
import torch

from .common import *
import symx
import symt
from symt import SymTensor, same, sym

import pymllm.models.qwen3 as q3
import pymllm.models.qwen3_vl as vl
import pymllm.models.qwen3_5 as q5
import pymllm.quantization.methods.compressed_tensors as ct
import pymllm.quantization.methods.awq_marlin as awq

BUDGET = {"quick": 70, "thorough": 600}
ASSUMPTIONS = [
    "tiny configurations (2 decoder layers, 1 vision layer); element values are arbitrary",
    "the checkpoint uses the Hugging Face names and layouts of the architecture, optionally with the prefixes the loader accepts",
    "device transfer and dtype conversion of copy_ are outside; post-load repacking is a separate step",
]
NS = types.SimpleNamespace
torch.cuda.get_device_capability = lambda *a, **k: (9, 0)


def quant(kind):
    if kind is None:
        return None
    if kind == "awq":
        return awq.AWQMarlinConfig(weight_bits=4, group_size=32, zero_point=True)
    w4 = dict(num_bits=4, group_size=32, strategy="group", symmetric=True, dynamic=False, actorder=None, type="int")
    w8 = dict(num_bits=8, group_size=None, strategy="channel", symmetric=True, dynamic=False, actorder=None, type="int")
    a8 = dict(num_bits=8, strategy="token", symmetric=True, dynamic=True, type="int")
    g = dict(targets=["Linear"], weights=w4 if kind == "w4" else w8)
    if kind == "w8":
        g["input_activations"] = a8
    return ct.CompressedTensorsConfig.from_config(dict(
        quant_method="compressed-tensors", format="pack-quantized" if kind == "w4" else "int-quantized",
        ignore=["lm_head"], config_groups=dict(group_0=g)))


def text_config(q, tie, bias, heads=2, kv=1):
    big = q in ("awq", "w4")                  # the smallest sizes the Marlin kernels take
    d = dict(hidden_size=128 if big else 4, intermediate_size=128 if big else 3, num_hidden_layers=2,
             num_attention_heads=heads, num_key_value_heads=kv, head_dim=64 if big else 2, rope_theta=1e6,
             rms_norm_eps=1e-6, max_position_embeddings=16, attention_bias=bias, vocab_size=3,
             tie_word_embeddings=tie, hidden_act="silu", rope_scaling=None)
    return NS(**d)


VIS = dict(depth=1, hidden_size=2, hidden_act="gelu", intermediate_size=3, num_heads=1, in_channels=1, in_chans=1,
           patch_size=1, spatial_merge_size=1, temporal_patch_size=1, out_hidden_size=4, num_position_embeddings=4,
           deepstack_visual_indexes=[0], norm_eps=1e-6)


def build(model, q, tie, bias):
    t = text_config(q, tie, bias)
    qc = quant(q)
    if model == "qwen3":
        return q3.Qwen3ForCausalLM(t, quant_config=qc)
    v = NS(**dict(VIS, out_hidden_size=t.hidden_size))
    top = NS(text_config=t, vision_config=v, tie_word_embeddings=tie,
             image_token_id=1, video_token_id=2, vision_start_token_id=3)
    if model == "qwen3_vl":
        return vl.Qwen3VLForConditionalGeneration(top, quant_config=qc)
    for k, x in dict(layer_types=["linear_attention", "full_attention"], linear_num_key_heads=1, linear_num_value_heads=2,
                     linear_key_head_dim=64 if q in ("awq", "w4") else 2, linear_value_head_dim=64 if q in ("awq", "w4") else 2, linear_conv_kernel_dim=3,
                     full_attention_interval=2, attn_output_gate=True,
                     layers_block_type=["linear_attention", "attention"],
                     rope_parameters=dict(rope_theta=1e6, mrope_section=[1, 1, 0], partial_rotary_factor=.5)).items():
        setattr(t, k, x)
    if model == "qwen3_5_text":
        return q5.Qwen3_5ForCausalLM(t, quant_config=qc)
    return q5.Qwen3_5ForConditionalGeneration(top, quant_config=qc)


OUT_DIM = dict(weight=0, bias=0, weight_packed=0, weight_scale=0, qweight=1, qzeros=1, scales=1)


class Model:
    """the real model with symbolic parameters"""

    def __init__(self, model, q, tie, bias):
        self.kind = model
        m = self.m = build(model, q, tie, bias)
        self.params, byid = {}, {}
        real = dict(m.named_parameters())

        def wrap(p):
            if id(p) not in byid:
                s = symt.full(tuple(p.shape), symt.POISON, p.dtype)
                for k, v in p.__dict__.items():
                    setattr(s, k, v)
                byid[id(p)] = (s, p)
            return byid[id(p)][0]
        for n, p in real.items():
            self.params[n] = wrap(p)

        def serve(mod):
            names = [(n, wrap(p)) for n, p in mod.named_parameters()]
            object.__setattr__(mod, "named_parameters", lambda *a, **k: iter(names))
        for mod in [x for x in (m, getattr(m, "model", None), getattr(m, "visual", None)) if x is not None]:
            serve(mod)
        for mod in m.modules():               # direct access finds the symbolic parameter too
            for n, p in list(mod._parameters.items()):
                if p is not None:
                    del mod._parameters[n]
                    object.__setattr__(mod, n, wrap(p))
        t = text_config(q, tie, bias)
        self.qkv = [t.num_attention_heads * t.head_dim] + [t.num_key_value_heads * t.head_dim] * 2

    def sources(self, vis_split, prefix, variant=None):
        """parameter -> [(checkpoint name, shape, region of the parameter)]"""
        out = {}
        for n, p in self.params.items():
            suffix = n.rsplit(".", 1)[1]
            shape = tuple(p.shape)
            if ".self_attn.qkv_proj." in n:
                parts = list(zip(("q_proj", "k_proj", "v_proj"), self.qkv))
                base = "qkv_proj"
            elif ".mlp.gate_up_proj." in n and variant != "fused":
                h = 1
                parts = [("gate_proj", h), ("up_proj", h)]
                base = "gate_up_proj"
            elif ".attn.qkv_proj." in n and vis_split:
                parts = [("attn.q", 1), ("attn.k", 1), ("attn.v", 1)]
                base = "attn.qkv_proj"
            else:
                parts = None
            src = []
            if parts is None:
                hs = shape
                if n.endswith("conv1d.weight"):
                    hs = (shape[0], 1, shape[1])          # the checkpoint keeps the channel axis
                src.append((n, hs, ()))
            elif suffix == "weight_shape":
                src += [(n.replace(base, b), shape, None) for b, _ in parts]
            else:
                d = OUT_DIM[suffix]
                tot, off = sum(w for _, w in parts), 0
                for b, w in parts:
                    k = shape[d] * w // tot
                    hs = tuple(k if i == d else s for i, s in enumerate(shape))
                    src.append((n.replace(base, b), hs, (slice(None),) * d + (slice(off, off + k),)))
                    off += k
            if variant == "packed-as-weight":
                src = [(a.replace(".weight_packed", ".weight"), s, r) for a, s, r in src]
            out[n] = [(self.hf(a, prefix), s, r) for a, s, r in src]
        return out

    def hf(self, n, prefix):
        if n.startswith("visual."):
            if self.kind == "qwen3_vl":
                n = n.replace("attn.qkv_proj.", "attn.qkv.").replace("attn.out_proj.", "attn.proj.")
            return ("" if prefix == "old" else "model.") + n
        if n.startswith("lm_head"):
            return n
        if self.kind == "qwen3_5_text":
            n = "model." + n
        return {"model": n, "lm": n.replace("model.", "model.language_model.", 1),
                "lm0": n.replace("model.", "language_model.", 1), "bare": n.replace("model.", "", 1), "old": n}[prefix]


EXTRA = {"qwen3": ["model.layers.0.self_attn.rotary_emb.inv_freq"],
         "qwen3_vl": ["model.language_model.layers.0.self_attn.rotary_emb.inv_freq"],
         "qwen3_5": ["model.language_model.layers.0.self_attn.rotary_emb.inv_freq", "mtp.layers.0.self_attn.q_proj.weight", "mtp.norm.weight"],
         "qwen3_5_text": ["model.layers.0.self_attn.rotary_emb.inv_freq", "mtp.norm.weight", "model.visual.patch_embed.proj.weight"]}


def load(ctx, model, q, tie, bias, prefix, vis_split, what, variant=None):
    M = Model(model, q, tie, bias)
    src = M.sources(vis_split, prefix, variant)
    flat = [(n, i) for n in src for i in range(len(src[n]))]
    if what == "all":
        pick = list(range(len(flat)))
        order = ctx.pick("order", 0, 2)
        if order:
            pick = pick[::-1] if order == 1 else pick[1::2] + pick[0::2]
    else:                                     # two arbitrary tensors in either order, then nothing else
        a = ctx.pick("first", 0, len(flat) - 1)
        same_param = [k for k in range(len(flat)) if flat[k][0] == flat[a][0]]
        near = [k for k in same_param if k != a] or [(a + 1) % len(flat)]
        b = near[ctx.pick("second", 0, len(near) - 1)]
        pick = [a, b]
    want = {n: p.clone() for n, p in M.params.items()}
    ckpt = []
    for k in pick:
        n, i = flat[k]
        name, shape, region = src[n][i]
        p = M.params[n]
        if region is None:                    # [outputs, inputs] of one shard of a packed weight
            w = SymTensor(np.array([ctx.int(f"s{k}o"), ctx.int(f"s{k}i")], dtype=object), p.dtype)
        else:
            if np.prod(shape) > 300:          # Marlin-size tensors: distinct constants, symbolic corners
                a = np.arange(np.prod(shape)).astype(object) + (k + 1) * 10 ** 6
                for j in (0, shape[-1] - 1, a.size - shape[-1], a.size - 1):
                    a[j] = ctx.int(f"t{k}_{j}")
                w = SymTensor(a.reshape(shape), p.dtype)
            else:
                w = sym(ctx, f"t{k}", shape, dtype=p.dtype)
            want[n].a[region] = w.a.reshape(want[n].a[region].shape)
        ckpt.append((name, w))
    extra = [(e, sym(ctx, f"x{i}", (2, 2))) for i, e in enumerate(EXTRA[model])]
    if what == "all":
        ckpt[len(ckpt) // 2:len(ckpt) // 2] = extra
        if tie:
            ckpt.append(("lm_head.weight", sym(ctx, "head", (3, M.params[[k for k in M.params if "embed_tokens" in k][0]].shape[1]))))
    M.m.load_weights(iter(ckpt))
    for n, p in M.params.items():
        if n.endswith("weight_shape") and len(src[n]) > 1:
            packed = M.params[n.replace("weight_shape", "weight_packed")]
            if what == "all":                 # describes the fused weight: 8 int4 values per packed word
                ctx.check(list(p.a) == [packed.shape[0], packed.shape[1] * 8], "weight_shape describes the fused weight")
            continue
        ctx.check(tuple(p.shape) == tuple(want[n].shape), "parameter keeps its shape")
        ok = True
        for x, y in zip(p.a.reshape(-1), want[n].a.reshape(-1)):
            ok = ok and (x is y or (x is not symt.POISON and y is not symt.POISON and (x == y)))
            if ok is not True and not isinstance(ok, symx.SymBool):
                break
        ctx.check(ok, f"every parameter holds exactly its checkpoint tensors, in order")
    ctx.reach("tensors loaded")


def P(**k):
    out = [{}]
    for n in k:
        out = [dict(o, **{n: v}) for o in out for v in k[n]]
    return out


B = "every parameter of tiny models of each architecture; all tensors in three orders, or any tensor followed by any other shard of the same parameter"
N = [None]
HARNESSES = [
    dict(name="load", fn=load, reach=["tensors loaded"], bounds=B,
         quick=P(model=["qwen3"], q=N, tie=[False, True], bias=[True], prefix=["model", "bare", "lm", "lm0"], vis_split=[False], what=["all"])
         + P(model=["qwen3_vl"], q=N, tie=[False, True], bias=[True], prefix=["lm", "old"], vis_split=[False, True], what=["all"])
         + P(model=["qwen3_5", "qwen3_5_text"], q=N, tie=[False, True], bias=[False], prefix=["model", "lm"], vis_split=[False], what=["all"])
         + P(model=["qwen3", "qwen3_vl", "qwen3_5"], q=["awq", "w4", "w8"], tie=[False], bias=[False], prefix=["lm"], vis_split=[False], what=["all"])
         + P(model=["qwen3_5"], q=[None, "w4", "awq"], tie=[False], bias=[False], prefix=["lm"], vis_split=[False], what=["all"], variant=["fused"])
         + P(model=["qwen3_5"], q=["w4"], tie=[False], bias=[False], prefix=["lm"], vis_split=[False], what=["all"], variant=["packed-as-weight"])
         + P(model=["qwen3", "qwen3_vl", "qwen3_5"], q=N, tie=[False], bias=[False], prefix=["lm"], vis_split=[True], what=["pair"]),
         thorough=P(model=["qwen3", "qwen3_vl", "qwen3_5"], q=["awq", "w4", "w8"], tie=[False, True], bias=[False], prefix=["lm"], vis_split=[True], what=["pair", "all"])),
]
