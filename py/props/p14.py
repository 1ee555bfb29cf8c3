"""P14: attention reads exactly each sequence's own keys and values"""
import contextlib
import functools
import types

from .common import *
import symx
import symt
from symt import SymTensor, sym

import pymllm.layers.attention.attention_backend as ab
import pymllm.layers.attention.flashinfer_backend as fi
import pymllm.layers.attention.radix_attention as ra
import pymllm.executor.model_runner as mr
import pymllm.executor.cuda_graph_runner as cg
from pymllm.engine.forward_batch import ForwardBatch, ForwardMode

BUDGET = {"quick": 80, "thorough": 500}
ASSUMPTIONS = [
    "the FlashInfer wrappers and create_kv_indices are stubs with their documented contract: a planned wrapper attends, for every query row, "
    "to the pages its index buffers name (buffers of an eager plan are aliased, those of a captured one copied or, with fast_decode_plan, used in place), "
    "causal masks are aligned to the last key, merge_state joins two disjoint partial results",
    "a captured CUDA graph re-runs the captured layer on the metadata and buffers of its capture",
    "a batch's sequences own distinct request slots, and a decoded token's slot is already in the request table (P02)",
    "sliding-window layers (no model has any), cross attention and layers without keys of their own are outside",
]
NS = types.SimpleNamespace
HQ, HKV, D = 2, 1, 2


class Att:
    """what a query row attends to"""

    def __init__(self, q, items, par):
        self.q, self.items, self.par = q, items, par


class World:
    def __init__(self, ctx):
        self.ctx, self.writes, self.seen = ctx, [], []


def need(c, msg):
    if not c:
        raise AssertionError("kernel called outside its contract: " + msg)


def ints(t, n=None):
    v = t.tolist()
    return v if n is None else v[:n]


def i32(*ts):
    for t in ts:
        need(t.dtype == torch.int32, "indices are int32")


def rows(att, q):
    a = np.empty((len(att), q.shape[1], D), dtype=object)
    s = np.empty((len(att), q.shape[1]), dtype=object)
    for i, x in enumerate(att):
        for h in range(q.shape[1]):
            s[i, h] = x
            for d in range(D):
                a[i, h, d] = x
    return SymTensor(a, torch.float16), SymTensor(s, torch.float32)


def qrow(q, i):
    return [x for h in q.tolist()[i] for x in h]


def span(items, qlen, j, causal, window):
    n = len(items)
    hi = n - qlen + j + 1 if causal else n
    need(hi >= 0, "causal query before the first key")
    lo = 0 if window is None or window < 0 else max(0, hi - window - 1)
    return items[lo:hi]


def stubs(w):
    def heads(nq, nkv, hd):
        need((nq, nkv, hd) == (HQ, HKV, D), "head counts of the plan")

    def pages(me, indptr, b):
        p = ints(indptr)
        need(0 <= p[b] <= p[b + 1] <= len(me.indices), "index pointers")
        got = me.indices.tolist()[p[b]:p[b + 1]]
        for x in got:
            need(x is not symt.POISON, "reads an index nobody wrote")
        return [("slot", x) for x in got]

    def kv(paged):
        k, v = paged
        need(tuple(k.shape) == (4, 1, HKV, D) and tuple(v.shape) == (4, 1, HKV, D), "paged KV layout")
        need(k.tolist()[0][0][0][0] == ("K", w.layer) and v.tolist()[0][0][0][0] == ("V", w.layer), "KV buffers of another layer")

    def qs(q, n):
        need(tuple(q.shape) == (n, HQ, D), "query shape")

    class Wrapper:
        is_cuda_graph_enabled = False

        def __init__(self, ws, layout="NHD", **k):
            need(layout == "NHD", "layout")
            self.ready = False

        def end_forward(self):
            pass

    class Decode(Wrapper):
        def __init__(self, ws, layout="NHD", use_cuda_graph=False, use_tensor_cores=False, paged_kv_indptr_buffer=None,
                     paged_kv_indices_buffer=None, paged_kv_last_page_len_buffer=None, **k):
            super().__init__(ws, layout)
            self.is_cuda_graph_enabled = use_cuda_graph
            self.indptr, self.indices, self.last = paged_kv_indptr_buffer, paged_kv_indices_buffer, paged_kv_last_page_len_buffer
            self._paged_kv_indices_buf = paged_kv_indices_buffer
            if use_cuda_graph:
                self.fixed = len(self.last)
                need(len(self.indptr) == self.fixed + 1, "captured index buffers")

        def begin_forward(self, indptr, indices, last_page_len, nq, nkv, hd, page_size, fast=False, **k):
            heads(nq, nkv, hd)
            i32(indptr, indices, last_page_len)
            need(page_size == 1, "page size")
            n = len(indptr) - 1
            need(len(last_page_len) == n, "one last-page length per sequence")
            if self.is_cuda_graph_enabled:
                need(n == self.fixed, "batch size of the captured graph")
                if not fast:
                    self.indptr.copy_(indptr)
                    self.last.copy_(last_page_len)
                    if indices is not self.indices:
                        self.indices[:len(indices)] = indices
            else:
                self.indptr, self.indices, self.last = indptr, indices, last_page_len
            self.planned, self.ready = ints(indptr), True

        plan = begin_forward

        def forward(self, q, paged, sm_scale=None, logits_soft_cap=None, window_left=-1, **k):
            need(self.ready, "planned")
            kv(paged)
            n = len(self.indptr) - 1
            qs(q, n)
            need(ints(self.indptr) == self.planned, "index pointers changed after the plan")
            need(all(x == 1 for x in ints(self.last, n)), "last page length")
            w.ctx.check(w.writes and w.writes[-1][0] == w.layer, "the new keys are stored before attention reads them")
            o, s = rows([Att(qrow(q, b), span(pages(self, self.indptr, b), 1, 0, False, window_left), (sm_scale, logits_soft_cap))
                         for b in range(n)], q)
            return o

        run = forward

    class Paged(Wrapper):
        def begin_forward(self, qo, indptr, indices, last_page_len, nq, nkv, hd, page_size, **k):
            heads(nq, nkv, hd)
            i32(qo, indptr, indices, last_page_len)
            need(page_size == 1 and len(qo) == len(indptr) == len(last_page_len) + 1, "plan")
            self.qo, self.indptr, self.indices, self.last = qo, indptr, indices, last_page_len
            self.planned, self.ready = (ints(qo), ints(indptr)), True

        plan = begin_forward

        def att(self, q, paged, causal=False, sm_scale=None, window_left=-1, logits_soft_cap=None, **k):
            need(self.ready, "planned")
            kv(paged)
            p = ints(self.qo)
            need((p, ints(self.indptr)) == self.planned, "index pointers changed after the plan")
            qs(q, p[-1])
            need(all(x == 1 for x in ints(self.last)), "last page length")
            out = []
            for b in range(len(p) - 1):
                it = pages(self, self.indptr, b)
                for j in range(p[b + 1] - p[b]):
                    out.append(Att(qrow(q, p[b] + j), span(it, p[b + 1] - p[b], j, causal, window_left), (sm_scale, logits_soft_cap)))
            return rows(out, q)

        def forward(self, *a, **k):
            w.ctx.check(not k.get("causal") or (w.writes and w.writes[-1][0] == w.layer), "the new keys are stored before attention reads them")
            return self.att(*a, **k)[0]

        def forward_return_lse(self, *a, **k):
            return self.att(*a, **k)

        run, run_return_lse = forward, forward_return_lse

    class Ragged(Wrapper):
        def begin_forward(self, qo, kvp, nq, nkv, hd, *a, **k):
            heads(nq, nkv, hd)
            i32(qo, kvp)
            self.qo, self.kvp = qo, kvp
            self.planned, self.ready = (ints(qo), ints(kvp)), True

        plan = begin_forward

        def att(self, q, k, v, causal=False, sm_scale=None, window_left=-1, logits_soft_cap=None, **kw):
            need(self.ready, "planned")
            p, kp = ints(self.qo), ints(self.kvp)
            need((p, kp) == self.planned, "index pointers changed after the plan")
            qs(q, p[-1])
            need(tuple(k.shape) == (kp[-1], HKV, D) and tuple(v.shape) == (kp[-1], HKV, D), "key and value shape")
            out = []
            for b in range(len(p) - 1):
                it = [("new", qrow(k, i), qrow(v, i)) for i in range(kp[b], kp[b + 1])]
                for j in range(p[b + 1] - p[b]):
                    out.append(Att(qrow(q, p[b] + j), span(it, p[b + 1] - p[b], j, causal, window_left), (sm_scale, logits_soft_cap)))
            return rows(out, q)

        def forward(self, *a, **k):
            return self.att(*a, **k)[0]

        def forward_return_lse(self, *a, **k):
            return self.att(*a, **k)

        run, run_return_lse = forward, forward_return_lse

    def merge_state(o1, s1, o2, s2):
        need(o1.shape == o2.shape and s1.shape == s2.shape == o1.shape[:2], "merge shapes")
        out = []
        for i in range(o1.shape[0]):
            a, b = o1.a[i, 0, 0], o2.a[i, 0, 0]
            need(s1.a[i, 0] is a and s2.a[i, 0] is b, "each result is merged with its own log-sum")
            need(all(x is y for x, y in zip(a.q, b.q)) and a.par == b.par, "results of one query under one softmax")
            out.append(Att(a.q, a.items + b.items, a.par))
        return rows(out, o1)

    def create_kv_indices(table, req, lens, indptr, start, out):
        i32(table, req, lens, indptr, out)
        if start is not None:
            i32(start)
        p = ints(indptr)
        for b, n in enumerate(ints(lens)):
            s = 0 if start is None else int(start.tolist()[b])
            need(p[b] + n <= len(out), "index buffer too small")
            row = table[int(req.tolist()[b])].tolist()
            need(0 <= s and s + n <= len(row), "reads beyond the request's table row")
            for j in range(n):
                out[p[b] + j] = row[s + j]

    return Decode, Paged, Ragged, merge_state, create_kv_indices


class Kv:
    """KV pool stub: the buffers carry their layer, stores are recorded"""

    def __init__(self, w):
        self.w = w

    def set_kv_buffer(self, layer, loc, k, v):
        need(len(loc) == k.shape[0] == v.shape[0], "one slot per stored token")
        self.w.writes.append((layer, loc.tolist(), [qrow(k, i) for i in range(k.shape[0])], [qrow(v, i) for i in range(v.shape[0])]))

    def get_kv_buffer(self, layer):
        def buf(n):
            a = np.empty((4, HKV, D), dtype=object)
            for i in np.ndindex(*a.shape):
                a[i] = (n, layer)
            return SymTensor(a, torch.float16)
        return buf("K"), buf("V")


import numpy as np  # noqa


def install(ctx, fast=False):
    w = World(ctx)
    dec, pag, rag, merge, cki = stubs(w)
    for m in (fi, mr, cg, ab, ra):
        symt.patch(m)
    fi._flashinfer_available = True
    fi._has_fast_decode_plan = fast
    fi.fast_decode_plan = lambda self, *a, **k: dec.begin_forward(self, *a, fast=True, **k)
    fi._partial = functools.partial
    fi.BatchDecodeWithPagedKVCacheWrapper, fi.BatchPrefillWithPagedKVCacheWrapper = dec, pag
    fi.BatchPrefillWithRaggedKVCacheWrapper, fi.merge_state, fi.create_kv_indices = rag, merge, cki
    fi._DEFAULT_WORKSPACE_BYTES, fi._global_workspace_buffer = 1, None
    fi.should_use_tensor_core = lambda *a: False
    w.pool = Kv(w)
    return w


def backend(w, reqs, ctxlen):
    w.table = sym(w.ctx, "table", (reqs, ctxlen), 1, 2**30, dtype=torch.int32)
    return fi.FlashInferAttnBackend(num_heads=HQ, num_kv_heads=HKV, head_dim=D, kv_cache_dtype=torch.float16, q_dtype=torch.float16,
                                    max_context_len=ctxlen, req_to_token=w.table, device=torch.device("cpu"), max_req_pool_size=reqs)


def layer(ctx, lid, free=True):
    cap = 30.0 if not free or ctx.flag("cap") else 0.0
    return ra.RadixAttention(num_heads=HQ, head_dim=D, scaling=0.5, num_kv_heads=HKV, layer_id=lid, logit_cap=cap)


def srt(items):
    return sorted(items, key=lambda x: (0, x) if isinstance(x, int) else (1, str(term(x))))


def expect(w, lay, out, q, want, what):
    """row i of out is query i attending to exactly want[i]"""
    ctx = w.ctx
    ctx.check(tuple(out.shape) == (len(want), HQ * D), f"{what}: output shape")
    for i, (slots, news) in enumerate(want):
        for a in {id(x): x for x in out.a[i]}.values():
            ctx.check(seq_eq(a.q, q.tolist()[i]), f"{what}: every row is computed from its own query")
            ctx.check(a.par == (lay.scaling, lay.logit_cap if lay.logit_cap > 0 else None), f"{what}: softmax scale and cap")
            got = [x[1] for x in a.items if x[0] == "slot"]
            ctx.check(len(got) == len(slots) and seq_eq(srt(got), srt(slots)),
                      f"{what}: a token attends to every stored token of its own sequence up to itself, once")
            new = [x[1:] for x in a.items if x[0] == "new"]
            ctx.check(len(new) == len(news), f"{what}: a token attends to the new tokens of its own sequence up to itself, once")
            for (gk, gv), (wk, wv) in zip(new, news):
                ctx.check(sym_and(seq_eq(gk, wk), seq_eq(gv, wv)), f"{what}: keys and values of the new tokens")


def stored(w, lid, loc, k, v, what, n=None):
    ctx = w.ctx
    ctx.check(len(w.writes) == 1, f"{what}: keys and values are stored once")
    l, got, gk, gv = w.writes[0]
    n = len(loc) if n is None else n
    ctx.check(l == lid and seq_eq(got[:n], loc[:n]), f"{what}: stored in the slots given to the tokens")
    for i in range(n):
        ctx.check(sym_and(seq_eq(gk[i], k.tolist()[i]), seq_eq(gv[i], v.tolist()[i])), f"{what}: every token's own key and value")
    w.writes.clear()


def qkv(ctx, tag, n):
    return (sym(ctx, f"q{tag}", (n, HQ * D), 0, 2**30, dtype=torch.float16),
            sym(ctx, f"k{tag}", (n, HKV * D), 0, 2**30, dtype=torch.float16),
            sym(ctx, f"v{tag}", (n, HKV * D), 0, 2**30, dtype=torch.float16))


def T(v, dt=torch.int32):
    return SymTensor(list(v), dt)


def owner(w, be):
    s = Bare(mr.ModelRunner, device="cpu", req_to_token_pool=None, token_to_kv_pool=w.pool, attn_backend=be, vocab_size=5)
    return s


def slots(ctx, r, n, reqs):
    """n distinct request slots"""
    if r:
        first = ctx.pick(f"req{r}", 0, reqs - 1)
        return [(first + i) % reqs for i in range(n)]
    left, out = list(range(reqs)), []
    for i in range(n):
        out.append(left.pop(ctx.pick(f"req{r}_{i}", 0, len(left) - 1) if len(left) > 1 else 0))
    return out


def extend(ctx, w, be, lay, r, n, maxpre, maxlen, reqs):
    w.layer = lay.layer_id
    pre = [ctx.pick(f"pre{r}_{i}", 0, maxpre) for i in range(n)]
    ln = [ctx.pick(f"len{r}_{i}", 1, maxlen) for i in range(n)]
    rq = slots(ctx, r, n, reqs)
    loc = toks(ctx, f"loc{r}_", sum(ln), 1)
    q, k, v = qkv(ctx, r, sum(ln))
    fb = mr.ModelRunner.prepare_forward_batch_extend(
        owner(w, be), input_ids=T(toks(ctx, f"id{r}_", sum(ln))), req_pool_indices=T(rq, torch.int64),
        seq_lens=T([p + l for p, l in zip(pre, ln)]), extend_seq_lens=T(ln), extend_prefix_lens=T(pre), out_cache_loc=T(loc))
    be.init_forward_metadata(fb)
    for again in range(2):                          # every layer of the network
        out = lay(q, k, v, fb)
        want, s = [], 0
        for b in range(n):
            for j in range(ln[b]):
                own = [(k.tolist()[s + x], v.tolist()[s + x]) for x in range(j + 1)]
                want.append((w.table.tolist()[rq[b]][:pre[b]], own))
            s += ln[b]
        expect(w, lay, out, q, want, "prefill")
        stored(w, lay.layer_id, loc, k, v, "prefill")
    ctx.reach("extend")


def decode_batch(ctx, w, be, r, n, maxlen, reqs):
    ln = [ctx.pick(f"len{r}_{i}", 1, maxlen) for i in range(n)]
    rq = slots(ctx, r, n, reqs)
    loc = toks(ctx, f"loc{r}_", n, 1)
    fb = mr.ModelRunner.prepare_forward_batch_decode(
        owner(w, be), input_ids=T(toks(ctx, f"id{r}_", n)), req_pool_indices=T(rq, torch.int64), seq_lens=T(ln),
        out_cache_loc=T(loc), seq_lens_cpu_list=ln if ctx.flag(f"list{r}") else None)
    return fb, loc, [(w.table.tolist()[i][:l], []) for i, l in zip(rq, ln)]


def h_eager(ctx, rounds, n=2, maxpre=2, maxlen=2, reqs=3):
    w = install(ctx)
    be = backend(w, reqs, 4)
    lay = layer(ctx, 5, len(rounds) == 1)
    for r, kind in enumerate(rounds):
        m = ctx.pick(f"n{r}", 1, n)
        if kind == "E":
            extend(ctx, w, be, lay, r, m, maxpre, maxlen, reqs)
        else:
            w.layer = lay.layer_id
            fb, loc, want = decode_batch(ctx, w, be, r, m, maxpre + maxlen, reqs)
            be.init_forward_metadata(fb)
            q, k, v = qkv(ctx, r, m)
            for again in range(2):
                expect(w, lay, lay(q, k, v, fb), q, want, "decode")
                stored(w, lay.layer_id, loc, k, v, "decode")
            ctx.reach("decode")


class Graph:
    """stands for torch.cuda.CUDAGraph: replay runs the captured layer again
    with the metadata it was captured with"""
    now = None

    def replay(self):
        self.again()


def cuda_ns():
    null = contextlib.nullcontext

    @contextlib.contextmanager
    def graph(g, **k):
        Graph.now = g
        yield
        Graph.now = None
    return NS(Stream=lambda *a, **k: None, stream=lambda s: null(), graph=graph, CUDAGraph=Graph, synchronize=lambda *a: None,
              graph_pool_handle=lambda: None, device=lambda d: null(), is_available=lambda: False, empty_cache=lambda: None)


def captured(be, run, form=0):
    """a network of one call, as the captured graph sees it"""
    def forward(ids, positions, fb, *a, **k):
        out = run(fb)
        g = Graph.now
        if form == 1:
            ret = cg.LogitsProcessorOutput(next_token_logits=out, hidden_states=out)
        elif form == 2:
            ret = NS(logits=out.view(out.shape[0], 1, *out.shape[1:]) if len(out.shape) == 2 else out)
        else:
            ret = out
        if g is not None:
            meta = be.forward_metadata
            box = out

            def again():
                be.forward_metadata = meta
                box.copy_(run(fb))
            g.again = again
        return ret
    return forward


def h_graph(ctx, max_bs, steps=2, maxlen=2, fast=False, eager=True, lo=1, form=0):
    w = install(ctx, fast)
    cg.gc = NS(collect=lambda *a: 0, freeze=lambda: None, unfreeze=lambda: None)
    symt.patch(cg, cuda=cuda_ns(), Tensor=(torch.Tensor, SymTensor))
    reqs = max_bs + 1
    be = backend(w, reqs, 4)
    lay = layer(ctx, 5, False)
    w.layer = 5
    cell = {}
    data = qkv(ctx, "g", 8)

    def run(fb):
        m = fb.batch_size
        cell["writes"] = len(w.writes)
        return lay(data[0][:m], data[1][:m], data[2][:m], fb)

    runner = Bare(mr.ModelRunner, device="cpu", server_config=NS(enable_torch_compile=False, torch_compile_max_bs=0), max_running_requests=max_bs,
                attn_backend=be, model=NS(forward=captured(be, run, form)), req_to_token_pool=None, token_to_kv_pool=w.pool)
    g = cg.CudaGraphRunner(runner)
    for r in range(steps):
        m = ctx.pick(f"n{r}", lo, max_bs)
        fb, loc, want = decode_batch(ctx, w, be, r, m, maxlen, reqs)
        if not g.can_run(fb):
            ctx.check(m > 2, "a small batch runs on the graph")
            continue
        w.writes.clear()
        out = g.replay(fb).next_token_logits
        expect(w, lay, out, data[0][:m], want, "graph")
        for x in w.writes[0][1][m:]:
            ctx.check(x == 0, "graph: padding rows store into the padding slot")
        stored(w, 5, loc, data[1], data[2], "graph", m)
        if eager and r + 1 < steps and ctx.flag(f"eager{r}"):
            be.init_forward_metadata(fb)
            q, k, v = (x[:m] for x in data)
            expect(w, lay, lay(q, k, v, fb), q, want, "decode after graph")
            w.writes.clear()
    ctx.reach("graph")


HARNESSES = [
    dict(name="eager", fn=h_eager, reach=["extend"],
         quick=[dict(rounds="E"), dict(rounds="EE", maxpre=1, maxlen=1, reqs=2), dict(rounds="ED", maxpre=1, maxlen=1, reqs=2), dict(rounds="DE", maxpre=1, maxlen=1, reqs=2)],
         thorough=[dict(rounds="E", n=3, maxpre=2, maxlen=3, reqs=3), dict(rounds="EDE", maxpre=1), dict(rounds="DED", maxpre=1), dict(rounds="DD", n=3, maxpre=2)],
         bounds="batches of up to n sequences with up to maxpre stored and maxlen new tokens, one after the other on one backend"),
    dict(name="graph", fn=h_graph, reach=["graph"],
         quick=[dict(max_bs=4, maxlen=1, steps=1, lo=3, form=1), dict(max_bs=4, maxlen=1, steps=1, lo=3, form=2), dict(max_bs=4, maxlen=1, steps=1, lo=3, fast=True), dict(max_bs=2, eager=False), dict(max_bs=2, fast=True)],
         thorough=[dict(max_bs=3, fast=True), dict(max_bs=4, maxlen=2, fast=True), dict(max_bs=2, steps=3, maxlen=2)],
         bounds="up to max_bs sequences of up to maxlen tokens, up to 3 consecutive batches through the captured graphs, eager batches in between"),
]
