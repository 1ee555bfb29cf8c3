"""P06: token positions and batch metadata handed to the network"""
import types

from .common import *
import symt
from symt import SymTensor, same

import pymllm.executor.model_runner as mr
import pymllm.executor.cuda_graph_runner as cg
import pymllm.models.qwen3_vl as q3
import pymllm.models.qwen3_5 as q35
import pymllm.mem_cache.memory_pool as mp
from pymllm.engine.forward_batch import ForwardMode

BUDGET = {"quick": 60, "thorough": 600}
ASSUMPTIONS = [
    "the decoder network is a stub that records the positions it receives; vision tower and kernels are outside",
    "every image of a prompt is announced by one vision_start token and has exactly its grid's number of image tokens",
    "ForwardBatch tensors are symbolic tensors (torch creation functions of the module under test are replaced)",
]
IMG, VST = 900, 901
MERGE = 2


class Got(BaseException):
    pass


def patch_all():
    for m in (mr, cg, q3, q35):
        symt.patch(m)


def runner():
    s = Bare(mr.ModelRunner, device="cpu", req_to_token_pool=None, token_to_kv_pool=None,
                              attn_backend=None, vocab_size=5)
    return s


def T(v, dt=torch.int32):
    return SymTensor(list(v), dt)


def extend_batch(ctx, lens, ids=None):
    n = len(lens)
    pre = [ctx.int(f"pre{i}", 0, 2**20) for i in range(n)]
    tot = sum(lens)
    ids = ids or toks(ctx, "id", tot, 0, 800)
    fb = mr.ModelRunner.prepare_forward_batch_extend(
        runner(), input_ids=T(ids, torch.int64), req_pool_indices=T(toks(ctx, "slot", n)),
        seq_lens=T([p + l for p, l in zip(pre, lens)]), extend_seq_lens=T(lens),
        extend_prefix_lens=T(pre), out_cache_loc=T(toks(ctx, "loc", tot)))
    return pre, ids, fb


def h_meta(ctx, n, maxlen):
    """text models: positions continue after the cached prefix; last-token rows are picked right"""
    patch_all()
    lens = [ctx.pick(f"len{i}", 1, maxlen) for i in range(n)]
    pre, ids, fb = extend_batch(ctx, lens)
    want = [p + k for p, l in zip(pre, lens) for k in range(l)]
    ctx.check(seq_eq(fb.positions.tolist(), want), "a token's position is not its index in its sequence")
    starts = [sum(lens[:i]) for i in range(n)]
    ctx.check(seq_eq(fb.extend_start_loc.tolist(), starts), "extend_start_loc is not the exclusive prefix sum")
    ctx.check(fb.extend_num_tokens == sum(lens), "extend token count wrong")
    ctx.check(fb.seq_lens_sum == sum(lens) + sum(pre), "seq_lens_sum wrong")
    logits = symt.sym(ctx, "lg", (sum(lens), 2))
    out = mr.ModelRunner._process_logits(runner(), logits_out(logits), fb)
    got = out.next_token_logits
    ctx.check(same(got, SymTensor([logits.a[s + l - 1].tolist() for s, l in zip(starts, lens)])),
              "next-token logits are not those of each sequence's last token")
    # decode of the same sequences
    use_list = ctx.flag("cpu_list")
    sl = [p + l + 1 for p, l in zip(pre, lens)]
    fd = mr.ModelRunner.prepare_forward_batch_decode(
        runner(), input_ids=T(toks(ctx, "d", n)), req_pool_indices=T(range(n)), seq_lens=T(sl),
        out_cache_loc=T(toks(ctx, "dl", n)), seq_lens_cpu_list=sl if use_list else None)
    ctx.check(seq_eq(fd.positions.tolist(), [x - 1 for x in sl]), "decode position is not the sequence's last index")
    ctx.check(seq_eq(fd.seq_lens_cpu.tolist(), sl), "decode seq_lens_cpu wrong")
    ctx.check(fd.seq_lens_sum == sum(sl), "decode seq_lens_sum wrong")
    ctx.reach("meta")


def logits_out(t):
    return types.SimpleNamespace(logits=t)


def mrope(ctx, model, fb):
    box = {}

    def net(*a, **k):
        box["pos"] = k.get("positions", a[1] if len(a) > 1 else None)
        raise Got()

    s = Bare(model, model=net, visual=None, image_token_id=IMG, vision_start_token_id=VST,
                              spatial_merge_size=MERGE, num_deepstack_embeddings=0, _hidden_size=4)
    try:
        model.forward(s, fb.input_ids, fb.positions, fb)
    except Got:
        pass
    return box["pos"]


def h_mrope(ctx, which, shapes, gmax):
    """3-D positions of a batch of prompts with pictures, and of the following decode step"""
    patch_all()
    model = q3.Qwen3VLForConditionalGeneration if which == "vl" else q35.Qwen3_5ForConditionalGeneration
    lens, ids, grids, want, nxt = [], [], [], [], []
    for i, shape in enumerate(shapes):
        seq, pos, cur = [], [], 0
        for j, seg in enumerate(shape):
            if seg == "t":
                L = ctx.pick(f"t{i}_{j}", 0, 2)
                for k in range(L):
                    seq.append(ctx.int(f"x{i}_{j}_{k}", 0, 800))
                    pos.append((cur, cur, cur))
                    cur += 1
            else:
                t = 1 if which == "35" else ctx.pick(f"gt{i}_{j}", 1, 2)
                h = ctx.pick(f"gh{i}_{j}", 1, gmax)
                w = ctx.pick(f"gw{i}_{j}", 1, gmax)
                grids.append([t, h * MERGE, w * MERGE])
                seq.append(VST)
                pos.append((cur,) * 3)
                cur += 1
                for a in range(t):
                    for b in range(h):
                        for c in range(w):
                            seq.append(IMG)
                            pos.append((cur + (a if which == "vl" else 0), cur + b, cur + c))
                cur += max(t, h, w) if which == "vl" else max(h, w)
        if not seq:
            seq, pos, cur = [ctx.int(f"x{i}", 0, 800)], [(0, 0, 0)], 1
        lens.append(len(seq))
        ids += seq
        want.append(pos)
        nxt.append(cur)
    pre, ids, fb = extend_batch(ctx, lens, ids)
    fb.image_grid_thw = SymTensor(grids) if grids else None
    if not grids:
        ctx.assume(sum(lens) > 0)
    pos = mrope(ctx, model, fb)
    flat = [[p[d] + pr for pr, ps in zip(pre, want) for p in ps] for d in range(3)]
    ctx.check(same(pos, SymTensor(flat)), "3-D positions differ from the picture/text layout of the whole sequence")
    # decode: the next tokens continue right after everything seen so far
    k = ctx.int("later", 0, 1000)
    sl = [p + l + 1 + k for p, l in zip(pre, lens)]
    fd = mr.ModelRunner.prepare_forward_batch_decode(
        runner(), input_ids=T(toks(ctx, "d", len(lens))), req_pool_indices=T(range(len(lens))), seq_lens=T(sl),
        out_cache_loc=T(toks(ctx, "dl", len(lens))), mrope_position_deltas=fb.mrope_position_deltas,
        seq_lens_cpu_list=sl)
    dp = mrope(ctx, model, fd)
    ctx.check(same(dp, SymTensor([[p + c + k for p, c in zip(pre, nxt)]] * 3)),
              "decode position does not continue the prompt's positions")
    ctx.reach("mrope")


def h_graph(ctx, max_bs, sizes):
    """CUDA-graph input buffers: replaying a smaller batch leaves nothing of the previous one live"""
    patch_all()
    symt.patch(cg, device=lambda d: __import__("contextlib").nullcontext())
    fill = ctx.int("fill", 0, 4)
    live = mp.ReqToTokenPool(max_bs, 4, device="cpu").alloc(max_bs)
    b = cg._InputBuffers.create(device="cpu", max_bs=max_bs, seq_len_fill_value=fill)
    for step in range(2):
        n = ctx.pick(f"n{step}", 1, max_bs)
        padded = min(s for s in sizes if s >= n)
        dl = ctx.flag(f"hasdelta{step}")
        t = lambda nm: toks(ctx, f"{nm}{step}_", n)
        ids, sl, loc = t("i"), t("q"), t("l")
        slot = toks(ctx, f"s{step}_", n, min(live), max(live))
        de = T(t("m")) if dl else None
        fb = mr.ModelRunner.prepare_forward_batch_decode(
            runner(), input_ids=T(ids), req_pool_indices=T(slot), seq_lens=T(sl), out_cache_loc=T(loc),
            mrope_position_deltas=de, seq_lens_cpu_list=sl)
        b.populate(fb, padded_bs=padded, seq_len_fill_value=fill)
        g = lambda x: x.tolist()[:padded]
        pad = padded - n
        ctx.check(seq_eq(g(b.input_ids)[:n], ids), "graph input ids are not the batch's")
        ctx.check(seq_eq(g(b.req_pool_indices)[:n], slot), "graph request slots are not the batch's")
        for x in g(b.req_pool_indices)[n:]:
            ctx.check(sym_and(*[x != y for y in live]), "a padding row names a slot that a request can own")
        ctx.check(seq_eq(g(b.positions)[:n], [x - 1 for x in sl]), "graph positions are not the batch's")
        ctx.check(seq_eq(g(b.seq_lens), sl + [fill] * pad), "padding rows keep a stale sequence length")
        ctx.check(seq_eq(g(b.seq_lens_cpu), sl + [fill] * pad), "padding rows keep a stale host sequence length")
        ctx.check(seq_eq(g(b.out_cache_loc), loc + [0] * pad), "padding rows write to a live KV slot")
        ctx.check(seq_eq(g(b.mrope_position_deltas), (de.tolist() if dl else [0] * n) + [0] * pad),
                  "position deltas are stale")
    ctx.reach("graph")


HARNESSES = [
    dict(name="batch_meta", fn=h_meta, reach=["meta"], quick=[dict(n=1, maxlen=3), dict(n=2, maxlen=3)],
         thorough=[dict(n=3, maxlen=4), dict(n=4, maxlen=3)],
         bounds="n sequences of 1..maxlen new tokens behind any prefix length up to 2^20; all ids, slots, logits arbitrary"),
    dict(name="mrope", fn=h_mrope, reach=["mrope"],
         quick=[dict(which="vl", shapes=["tit"], gmax=2), dict(which="vl", shapes=["t", "it"], gmax=2),
                dict(which="vl", shapes=["ti", "i"], gmax=2), dict(which="35", shapes=["tit", "t"], gmax=2),
                dict(which="35", shapes=["i", "ti"], gmax=2), dict(which="vl", shapes=["t", "t"], gmax=1)],
         thorough=[dict(which="vl", shapes=["titit"], gmax=2), dict(which="vl", shapes=["tit", "ti"], gmax=2),
                   dict(which="35", shapes=["titit", "it"], gmax=2), dict(which="35", shapes=["tit"], gmax=4),
                   dict(which="vl", shapes=["it"], gmax=5)],
         bounds="sequences given as text (0..2 tokens) and image segments, grids up to 2 x gmax x gmax merged patches"),
    dict(name="graph_buffers", fn=h_graph, reach=["graph"], quick=[dict(max_bs=4, sizes=[1, 2, 4])],
         thorough=[dict(max_bs=8, sizes=[1, 2, 4, 8])],
         bounds="two consecutive decode batches of up to max_bs rows through the captured-graph buffers"),
]
