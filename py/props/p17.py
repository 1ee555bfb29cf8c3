"""P17: GDN layers compute the sequential recurrence however the sequence is cut"""
import functools
import random
import types

import numpy as np

from .common import *
import poly
import symx
import symt
from symt import SymTensor

import pymllm.layers.attention.gdn_backend as gb
import pymllm.layers.attention.gdn_chunkwise as gc
import pymllm.layers.attention.hybrid_backend as hb
import pymllm.layers.attention.radix_linear_attention as rl
import pymllm.mem_cache.memory_pool as mp
from pymllm.engine.forward_batch import ForwardMode

BUDGET = {"quick": 80, "thorough": 500}
ASSUMPTIONS = [
    "arithmetic is exact real arithmetic (rounding outside); on replay the same code runs on floats with tolerance 1e-6",
    "the cumulative decay inside a chunk stays above 1e-10 and, unless a configuration says otherwise, a + dt_bias <= 20",
    "the fused mllm-kernel CUDA kernels are stubs that compute what their docstrings state; the FlashInfer GDN kernels (SM90) are outside",
    "a captured CUDA graph re-runs the layer on the index buffer of its capture",
    "the requests of a batch own distinct slots other than the padding slot 0 (P05)",
]
NS = types.SimpleNamespace
H, HV, DK, DV = 1, 2, 4, 2
LIVE = (0, 2)  # the key channels whose convolution weights are not zero (so that 1/sqrt(DK) stays exact)
KD, VD = H * DK, HV * DV
CD = 2 * KD + VD


def heads(h, hv):
    global H, HV, KD, VD, CD
    H, HV = h, hv
    KD, VD = H * DK, HV * DV
    CD = 2 * KD + VD


def tens(a, dtype=torch.float32):
    return SymTensor(a, dtype)


# generic replay values beside those of the model: gates (a, dt, A: decay; b: update) at different strengths
RANGES = {("s", "A"): (0, 1), ("s", "a"): (0, 1.5), ("s", "d"): (0, 1), ("w", "A"): (-4, -2), ("w", "a"): (-3, -1), ("o", "b"): (2, 5)}


class Vals:
    """names -> numbers: symbolic inputs, or (replay) the model's values / generic values"""

    def __init__(self, ctx, generic):
        self.ctx, self.generic = ctx, generic

    def __call__(self, name):
        v = poly.var(self.ctx, name)
        if self.generic is not None:
            return random.Random(f"{self.generic}/{name}").uniform(*RANGES.get((self.generic[0], name[0]), (-1, 1)))
        return v

    def arr(self, name, *shape):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self(name + "_" + "_".join(map(str, i)))
        return a


def scan(state, rows, A, dt):
    """sequential gated delta rule on raw q, k, v, a, b rows; state[hv][v][k] is updated"""
    outs = []
    for q, k, v, a, b in rows:
        o = np.empty((HV, DV), dtype=object)
        for h in range(HV):
            hk = h // (HV // H)
            qn, kn = unit(q[hk]), unit(k[hk])
            decay = poly.exp(-poly.exp(A[h]) * poly.softplus(a[h] + dt[h]))
            beta = poly.sigmoid(b[h])
            for i in range(DV):
                row = [state[h][i][j] * decay for j in range(DK)]
                old = 0
                for j in range(DK):
                    old = old + row[j] * kn[j]
                d = beta * (v[h][i] - old)
                row = [row[j] + d * kn[j] for j in range(DK)]
                r = 0
                for j in range(DK):
                    r = r + row[j] * qn[j]
                o[h, i] = r * 0.5
                for j in range(DK):
                    state[h, i, j] = row[j]
        outs.append(o)
    return outs


def unit(x):
    s = 0
    for e in x:
        s = s + e * e
    n = poly.sqrt(s if isinstance(s, poly.P) else float(s)) + 1e-6
    return [e / n for e in x]


class Model:
    """one request's reference: a state, advanced token by token"""

    def __init__(self, rec, conv):
        self.rec, self.conv = rec.copy(), conv.copy()

    def step(self, W, x, a, b, A, dt):
        K = W.shape[1]
        win = np.concatenate([self.conv, x[:, None]], axis=1)
        c = []
        for d in range(CD):
            s = 0
            for j in range(K):
                s = s + win[d, j] * W[d, j]
            c.append(poly.silu(s if isinstance(s, poly.P) else float(s)))
        self.conv = win[:, 1:]
        q = [[c[h * DK + j] for j in range(DK)] for h in range(H)]
        k = [[c[KD + h * DK + j] for j in range(DK)] for h in range(H)]
        v = [[c[2 * KD + h * DV + j] for j in range(DV)] for h in range(HV)]
        return scan(self.rec, [(q, k, v, a, b)], A, dt)[0]


def patch_all(ctx, path, chunk):
    for m in (gb, gc, rl, mp):
        symt.patch(m)
    gb.F = NS(silu=symt.f_silu, softplus=symt.f_softplus, pad=symt.f_pad)
    cuda = path != "seq"

    def kern(q, k, v, a, b, A_log, dt_bias, pool, idx, cu=None):
        n = q.shape[0]
        cu = [int(x) for x in cu.tolist()] if cu is not None else list(range(n + 1))
        need(tuple(q.shape[1:]) == (H, DK) and tuple(k.shape) == tuple(q.shape) and tuple(v.shape) == (n, HV, DV), "q, k, v shapes")
        need(tuple(a.shape) == (n, HV) and tuple(b.shape) == (n, HV), "gate shapes")
        need(idx.dtype == torch.int64 and tuple(pool.shape[1:]) == (HV, DV, DK), "pool and indices")
        out = symt.full((n, HV, DV), symt.POISON, v.dtype)
        for r, s in enumerate(int(x) for x in idx.tolist()):
            st = pool.a[s]
            for t in range(cu[r], cu[r + 1]):
                out.a[t] = scan(st, [(q.a[t], k.a[t], v.a[t], a.a[t], b.a[t])], A_log.a, dt_bias.a)[0]
        return out

    gb._get_flashinfer_gdn = lambda: (False, None, None)
    gb._get_mllm_gdn_decode = lambda: kern if path == "mllm" else None
    gb._get_mllm_gdn_extend = lambda: kern if path == "mllm" else None
    gb._get_mllm_gdn_extend_chunkwise = lambda: small(gc_real["cw"], chunk) if path == "cw" else None
    gb._get_gdn_decode_backend_override = lambda: "auto"
    gb._get_gdn_extend_backend_override = lambda: "cuda_chunkwise_kernel" if path == "cw" else "auto"
    gc.gdn_extend_chunkwise_torch = small(gc_real["torch"], chunk)
    return cuda


gc_real = {"torch": gc.gdn_extend_chunkwise_torch, "cw": gc.gdn_extend_chunkwise}


def small(f, chunk):
    @functools.wraps(f)
    def g(*a, **k):
        k["chunk_size"] = chunk
        return f(*a[:10], **k)

    return g


def need(c, msg):
    if not c:
        raise AssertionError("kernel called outside its contract: " + msg)


def plan_of(ctx, steps, reqs, maxlen, minlen):
    """structure of the run: slots, batch orders, lengths"""
    slots = []
    for r in range(reqs):
        s = ctx.pick(f"slot{r}", 1, reqs + 1)
        if s in slots:
            ctx.assume(False)
        slots.append(s)
    plan = []
    orders = [[0]] if reqs == 1 else [[0, 1], [1, 0], [0], [1]]
    for i, kind in enumerate(steps):
        who = orders[ctx.pick(f"order{i}", 0, len(orders) - 1)]
        lens = [ctx.pick(f"len{i}_{r}", minlen, maxlen) if kind == "E" else 1 for r in who]
        plan.append((kind, who, lens))
    return slots, plan


def gdn(ctx, steps="ED", path="seq", reqs=2, maxlen=2, minlen=1, kernel=2, chunk=2, fresh=False, big=False, maxtok=99, h=1):
    heads(h, 2 * h)
    slots, plan = plan_of(ctx, steps, reqs, maxlen, minlen)
    layer_idx = ctx.pick("layer", 0, 1)
    if sum(sum(l) for _, _, l in plan) > maxtok:
        ctx.assume(False)
    if ctx.symbolic:
        body(ctx, None, slots, plan, layer_idx, path, kernel, chunk, fresh, big)
    else:
        for g in (None, "plain 1", "plain 2", "strong 1", "strong 2", "weak", "open"):
            body(ctx, g, slots, plan, layer_idx, path, kernel, chunk, fresh, big)


def body(ctx, generic, slots, plan, layer_idx, path, kernel, chunk, fresh, big):
    poly.reset()
    cuda = patch_all(ctx, path, chunk)
    V = Vals(ctx, generic)
    reqs = len(slots)

    def T(a, dtype=torch.float32):
        t = tens(a, dtype)
        t.is_cuda = cuda
        return t

    pool = mp.GDNPool(max_reqs=reqs + 1, num_gdn_layers=2, num_v_heads=HV, head_k_dim=DK, head_v_dim=DV, conv_dim=CD,
                      conv_kernel_size=kernel, device="cpu", dtype=torch.float32)
    need(tuple(pool.recurrent_state.shape[2:]) == (HV, DV, DK), "state layout of the pool")
    for s in slots:
        for t, n in ((pool.recurrent_state, "S"), (pool.conv_state, "C")):
            t.a[layer_idx, s] = V.arr(f"{n}{s}", *t.a.shape[2:])
    if fresh:
        pool.reset_states(SymTensor(symt._flatobj(slots)))
    pool.recurrent_state.a[1 - layer_idx].reshape(-1)[:] = 7
    pool.conv_state.a[1 - layer_idx].reshape(-1)[:] = 7
    W = V.arr("w", CD, kernel)
    for d in range(2 * KD):
        if d % DK not in LIVE:
            W[d, :] = 0.0 if generic is not None or not ctx.symbolic else 0
    A, dt = V.arr("A", HV), V.arr("dt", HV)
    layer = rl.RadixLinearAttention(layer_id=3, gdn_layer_idx=layer_idx, num_k_heads=H, num_v_heads=HV, head_k_dim=DK, head_v_dim=DV,
                                    conv_weight=T(W), A_log=T(A), dt_bias=T(dt))
    back = gb.GDNAttnBackend(pool, torch.device("cpu"))
    full = NS(init_forward_metadata=lambda fb: None, init_cuda_graph_state=lambda a, b: None,
              init_forward_metadata_capture_cuda_graph=lambda **k: None, init_forward_metadata_replay_cuda_graph=lambda **k: None)
    hy = hb.HybridAttnBackend(full, back, {0})
    ref = [Model(*(np.zeros_like(t.a[layer_idx, s]) if fresh else t.a[layer_idx, s].copy()
                   for t in (pool.recurrent_state, pool.conv_state))) for s in slots]
    captured = {}

    def idx(l, dtype=torch.int64):
        return SymTensor(symt._flatobj(list(l)), dtype)

    if any(k == "G" for k, _, _ in plan):
        hy.init_cuda_graph_state(2, 2)
        for bs in (2, 1):
            hy.init_forward_metadata_capture_cuda_graph(bs=bs, num_tokens=bs, req_pool_indices=idx([0] * bs), seq_lens=idx([1] * bs),
                                                        forward_mode=ForwardMode.DECODE)
            captured[bs] = back.forward_metadata
    for i, (kind, who, lens) in enumerate(plan):
        n = sum(lens)
        pad = 1 if kind == "G" and len(who) == 1 and reqs == 2 and i % 2 else 0
        x, a, b = V.arr(f"x{i}", n, CD), V.arr(f"a{i}", n, HV), V.arr(f"b{i}", n, HV)
        for t in range(n):
            for h in range(HV):
                if not big:
                    ctx.assume(a[t, h] + dt[h] <= 20)
        idxs = [slots[r] for r in who]
        fb = NS(forward_mode=ForwardMode.EXTEND if kind == "E" else ForwardMode.DECODE, attn_backend=hy, batch_size=len(who),
                req_pool_indices=idx(idxs), extend_seq_lens=idx(lens, torch.int32) if kind == "E" else None,
                seq_lens=idx([9] * len(who)), seq_lens_cpu=None)
        if kind == "G":
            zero = lambda m: np.concatenate([m, np.full((pad,) + m.shape[1:], 0.25 if not ctx.symbolic else poly.P.of(0.25), dtype=object)]) if pad else m
            hy.init_forward_metadata_replay_cuda_graph(bs=len(who) + pad, req_pool_indices=idx(idxs + [0] * pad),
                                                       seq_lens=idx([9] * (len(who) + pad)), seq_lens_sum=9, forward_mode=ForwardMode.DECODE,
                                                       seq_lens_cpu=None)
            back.forward_metadata = captured[len(who) + pad]
            got = layer.forward(fb, T(zero(x)), T(zero(a)), T(zero(b)))
        else:
            hy.init_forward_metadata(fb)
            got = layer.forward(fb, T(x.copy()), T(a.copy()), T(b.copy()))
        ctx.check(tuple(got.shape) == (n + pad, VD), f"{path}: one output row per token")
        t = 0
        for r, l in zip(who, lens):
            for _ in range(l):
                o = ref[r].step(W, x[t], a[t], b[t], A, dt).reshape(-1)
                same(ctx, got.a[t], o, f"{path} {kind}: a token's output is that of the token-by-token recurrence")
                t += 1
        ctx.reach(f"{kind}{len(who)}")
        if max(lens) > chunk:
            ctx.reach("several chunks")
    for r, s in enumerate(slots):
        same(ctx, pool.recurrent_state.a[layer_idx, s], ref[r].rec, f"{path}: the stored recurrent state is that after the last token")
        same(ctx, pool.conv_state.a[layer_idx, s], ref[r].conv, f"{path}: the stored convolution state is the last tokens' input")
    for s in range(1, reqs + 2):
        if s not in slots:
            for t in (pool.recurrent_state, pool.conv_state):
                ctx.check(all(e is not symt.POISON and bool(e == 0) for e in t.a[layer_idx, s].reshape(-1)), f"{path}: other slots are untouched")
    for t in (pool.recurrent_state, pool.conv_state):
        ctx.check(all(not isinstance(e, poly.P) and e == 7 for e in t.a[1 - layer_idx].reshape(-1)), f"{path}: other layers' states are untouched")


def same(ctx, a, b, label):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    ctx.check(len(a) == len(b), label)
    cs = [x is not symt.POISON and poly.close(x, y) for x, y in zip(a, b)]
    ctx.check(symx.sym_and(*cs), label)


def C(**k):
    return k


HARNESSES = [
    dict(name="gdn", fn=gdn, reach=["E1", "E2", "D1", "D2", "G1", "G2", "several chunks"],
         quick=[C(steps="E", path="chunk", reqs=1, maxlen=1, big=True), C(steps="ED", path="seq", reqs=1, maxlen=2, kernel=3, h=2),
                C(steps="E", path="chunk", reqs=1, maxlen=2, minlen=2, h=2), C(steps="E", path="cw", reqs=1, maxlen=2, minlen=2, h=2),
                C(steps="EE", path="seq", reqs=1, maxlen=2, kernel=3), C(steps="E", path="chunk", reqs=2, maxlen=2),
                C(steps="E", path="chunk", reqs=1, maxlen=4), C(steps="ED", path="chunk", reqs=1, maxlen=3),
                C(steps="E", path="cw", reqs=1, maxlen=4), C(steps="E", path="cw", reqs=2, maxlen=2), C(steps="GG", path="seq", kernel=3),
                C(steps="ED", path="mllm", maxlen=2, minlen=2), C(steps="DE", path="seq", fresh=True, minlen=0, maxlen=1), C(steps="ED", path="seq", minlen=2)],
         thorough=[C(steps="EDG", path="seq", maxlen=2), C(steps="EED", path="chunk", maxlen=2), C(steps="E", path="chunk", reqs=1, maxlen=5, chunk=3),
                   C(steps="EE", path="cw", maxlen=2), C(steps="E", path="cw", reqs=1, maxlen=5, chunk=3), C(steps="EGD", path="mllm", maxlen=2),
                   C(steps="EE", path="seq", reqs=2, maxlen=2, kernel=4), C(steps="GGG", path="seq"), C(steps="DE", path="chunk", fresh=True, minlen=0, maxlen=3, maxtok=5)],
         bounds={"requests": 2, "heads": "1 (or 2) key, 2 (or 4) value heads; 4 key channels (2 active), 2 value channels", "tokens per request and step": "1..4 (quick), 1..5",
                 "steps": "1..3", "chunk": "2 or 3 tokens", "convolution width": "2..4"}),
]
