"""P09: tensor-parallel layers compute what the unsharded layer computes"""
import types

import numpy as np
import torch
import z3

from .common import *
import symx
import symt
from symt import SymTensor, same, sym

import pymllm.layers.base as lb
import pymllm.layers.embedding as le
import pymllm.layers.linear as ll
import pymllm.layers.mlp as lm
import pymllm.layers.quantize_base as lq
import pymllm.orchestrator.group_coordinator as gc
import pymllm.orchestrator.parallel_state as ps

BUDGET = {"quick": 50, "thorough": 500}
ASSUMPTIONS = [
    "exact arithmetic: weights and activations are arbitrary integers, rounding differences of floating-point sums are outside",
    "torch.distributed is a stub with the documented meaning of all_reduce, all_gather and all_gather_into_tensor; "
    "the gated activation is an uninterpreted function of (gate, up), in flashinfer's layout (first half gate, second half up)",
    "the ranks run one after another and are re-run until every collective has every member's contribution",
    "layers without quantisation; torch.empty holds a poison value whose use is an error",
]


class Pending(BaseException):
    pass


class Dist:
    """stub of torch.distributed"""
    ReduceOp = types.SimpleNamespace(SUM="sum", MAX="max")

    def __init__(self):
        self.world = 1
        self.rank = 0
        self.data = {}
        self.seq = {}
        self.up = False

    def is_initialized(self):
        return self.up

    is_available = is_initialized

    def get_world_size(self, group=None):
        return len(group) if group is not None else self.world

    def get_rank(self, group=None):
        return group.index(self.rank) if group is not None else self.rank

    def new_group(self, ranks=None, backend=None, **k):
        return tuple(ranks if ranks is not None else range(self.world))

    def _all(self, kind, t, group, extra=None):
        g = group if group is not None else tuple(range(self.world))
        if self.rank not in g:
            raise symx.CodeError("collective on a group this rank is not in")
        k = (g, self.seq.get(g, 0))
        self.seq[g] = k[1] + 1
        d = self.data.setdefault(k, {})
        if self.rank not in d:
            d[self.rank] = (kind, extra, t.clone())
        if len(d) < len(g):
            raise Pending()
        if len({(v[0], v[1], tuple(v[2].shape)) for v in d.values()}) != 1:
            raise symx.CodeError("ranks disagree about a collective operation")
        return [d[r][2] for r in g]

    def all_reduce(self, t, op="sum", group=None, async_op=False):
        vs = self._all("all_reduce", t, group, str(op))
        if str(op) != "sum":
            raise symt.Unsupported("all_reduce other than a sum")
        s = vs[0].clone()
        for v in vs[1:]:
            s = s + v
        t.copy_(s)

    def all_gather(self, out, t, group=None, async_op=False):
        vs = self._all("all_gather", t, group)
        if len(out) != len(vs):
            raise symx.CodeError("all_gather with the wrong number of outputs")
        for o, v in zip(out, vs):
            if tuple(o.shape) != tuple(v.shape):
                raise symx.CodeError("all_gather into the wrong shape")
            o.copy_(v)

    def all_gather_into_tensor(self, out, t, group=None, async_op=False):
        vs = self._all("all_gather_into", t, group)
        c = np.concatenate([v.a for v in vs], axis=0)
        if c.size != out.a.size:
            raise symx.CodeError("all_gather_into_tensor into the wrong shape")
        out.copy_(SymTensor(c.reshape(out.a.shape), t.dtype))

    def broadcast(self, t, src=0, group=None, async_op=False):
        g = group if group is not None else tuple(range(self.world))
        vs = self._all("broadcast", t, group, src)
        t.copy_(vs[g.index(src)])


ACT = z3.Function("act", z3.IntSort(), z3.IntSort(), z3.IntSort())
CTX = [None]


def act(g, u):
    if isinstance(CTX[0], symx.Engine):
        return symx.mkint(ACT(term(g), term(u)))
    return (g * g * 131 + g * 17 + u * (g * 7 + 29) + 3) % 1000003


def gated(x, enable_pdl=None, **k):
    n = x.a.shape[-1] // 2
    f = np.frompyfunc(act, 2, 1)
    return SymTensor(f(x.a[..., :n], x.a[..., n:]), x.dtype)


def param(t, requires_grad=True):
    return t


def install(dist):
    for m in (le, ll, lm, lq, gc, ps):
        symt.patch(m, ints=False)
    for m in (le, ll, lq):
        m.Parameter = param
    lb.MllmBaseLayer.register_parameter = lambda self, n, p: object.__setattr__(self, n, p)
    for m in (gc, ps):
        m.dist = dist
    for k in lm._ACTIVATION_MAP:
        lm._ACTIVATION_MAP[k] = gated


def reset():
    for n in ("TP", "DP", "PP"):
        setattr(ps, f"_{n}_GROUP", None)
        setattr(ps, f"_{n}_RANK", 0)
        setattr(ps, f"_{n}_SIZE", 1)


def everyone(ctx, tp, dp, body):
    """body(rank) on every rank of a tp x dp world -> results by rank"""
    CTX[0] = ctx
    d = Dist()
    install(d)
    d.world, d.up = tp * dp, tp * dp > 1
    out, known = {}, -1
    while len(out) < d.world:
        if sum(map(len, d.data.values())) == known:
            ctx.check(False, "the ranks wait for one another for ever")
        known = sum(map(len, d.data.values()))
        for r in range(d.world):
            d.rank, d.seq = r, {}
            reset()
            ps.initialize_model_parallel(tensor_model_parallel_size=tp, data_parallel_size=dp, backend="gloo")
            try:
                out[r] = body(r)
            except Pending:
                out.pop(r, None)
    reset()
    return out


def load(p, w):
    p.weight_loader(p, w)


def ref(x, w, b=None):
    r = np.empty(x.a.shape[:-1] + (w.a.shape[0],), dtype=object)
    for i in np.ndindex(*r.shape):
        s = 0
        for k in range(w.a.shape[1]):
            s = s + x.a[i[:-1] + (k,)] * w.a[i[-1], k]
        r[i] = s if b is None else s + b.a[i[-1]]
    return SymTensor(r, x.dtype)


def embedding(ctx, tp, dp, vocab, dim, pad):
    w = sym(ctx, "w", (vocab, dim))
    ids = [sym(ctx, f"id{g}", (2,), 0, vocab - 1) for g in range(dp)]
    pad = None if pad is None else ctx.pick("pad", 0, vocab - 1)

    def body(r):
        e = le.VocabParallelEmbedding(vocab, dim, padding_idx=pad)
        load(e.weight, w)
        return e.forward(ids[r // tp])
    for r, y in everyone(ctx, tp, dp, body).items():
        x = ids[r // tp]
        want = np.empty((2, dim), dtype=object)
        for i in range(2):
            for j in range(dim):
                v = w.a[0, j]
                for q in range(1, vocab):
                    v = symx.ite(x.a[i] == q, w.a[q, j], v)
                want[i, j] = v
        ctx.check(same(y, SymTensor(want, w.dtype)), "every rank gets the embedding of every token")
    ctx.reach("sharded" if tp > 1 else "unsharded")


def linear(ctx, tp, dp, kind, nin, nout, bias):
    w = sym(ctx, "w", (nout, nin))
    b = sym(ctx, "b", (nout,)) if bias else None
    # each data-parallel replica has its own input
    xs = [sym(ctx, f"x{g}", (2, nin)) for g in range(dp)]

    def body(r):
        x = xs[r // tp]
        k = r % tp
        if kind in ("column", "gather"):
            l = ll.ColumnParallelLinear(nin, nout, bias=bias, gather_output=kind == "gather")
        elif kind in ("row", "partial"):
            l = ll.RowParallelLinear(nin, nout, bias=bias, reduce_output=kind == "row")
            n = nin // tp
            x = x[:, k * n:(k + 1) * n]
        else:
            l = ll.Linear(nin, nout, bias=bias)
        load(l.weight, w)
        if bias:
            load(l.bias, b)
        return l.forward(x)
    got = everyone(ctx, tp, dp, body)
    for r, y in got.items():
        full = ref(xs[r // tp], w, b)
        if kind == "column":
            n = nout // tp
            k = r % tp
            full = full[:, k * n:(k + 1) * n]
            ctx.check(same(y, full), "each rank gets its own slice of the outputs")
        elif kind == "partial":
            n = nin // tp
            k = r % tp
            full = ref(xs[r // tp][:, k * n:(k + 1) * n], w[:, k * n:(k + 1) * n], b)
            ctx.check(same(y, full), "each rank gets its own partial sum")
        else:
            ctx.check(same(y, full), "every rank gets the unsharded result")
    ctx.reach("sharded" if tp > 1 else "unsharded")


def mlp(ctx, tp, dp, kind, hid, inter, bias):
    wg, wu, wd = sym(ctx, "g", (inter, hid)), sym(ctx, "u", (inter, hid)), sym(ctx, "d", (hid, inter))
    bg, bu, bd = (sym(ctx, "bg", (inter,)), sym(ctx, "bu", (inter,)), sym(ctx, "bd", (hid,))) if bias else (None,) * 3
    xs = [sym(ctx, f"x{g}", (1, hid)) for g in range(dp)]

    def body(r):
        kw = dict(use_bias_gate_up=bias, use_bias_down=bias)
        if kind == "parallel":
            m = lm.ParallelMLP(hid, inter, **kw)
        else:
            m = lm.MLP(hid, inter, use_fused_gate_up_proj=kind == "fused", **kw)
        if kind == "fused":
            p = m.gate_up_proj
            for i, (w, b) in enumerate(((wg, bg), (wu, bu))):
                p.weight.weight_loader(p.weight, w, i)
                if bias:
                    p.bias.weight_loader(p.bias, b, i)
        else:
            for l, w, b in ((m.gate_proj, wg, bg), (m.up_proj, wu, bu)):
                load(l.weight, w)
                if bias:
                    load(l.bias, b)
        load(m.down_proj.weight, wd)
        if bias:
            load(m.down_proj.bias, bd)
        return m.forward(xs[r // tp])
    for r, y in everyone(ctx, tp, dp, body).items():
        x = xs[r // tp]
        h = SymTensor(np.frompyfunc(act, 2, 1)(ref(x, wg, bg).a, ref(x, wu, bu).a), x.dtype)
        ctx.check(same(y, ref(h, wd, bd)), "every rank gets down(act(gate(x), up(x)))")
    ctx.reach("sharded" if tp > 1 else "unsharded")


def replicas(ctx, tp, dp):
    """a data-parallel sum joins exactly the ranks with the same shard"""
    xs = [sym(ctx, f"x{r}", (2,)) for r in range(tp * dp)]

    def body(r):
        t, d = xs[r].clone(), xs[r].clone()
        return (ps.tensor_model_parallel_all_reduce(t), ps.data_parallel_all_reduce(d),
                ps.tensor_model_parallel_all_gather(xs[r].clone(), dim=0), ps.get_tensor_model_parallel_rank(), ps.get_data_parallel_rank())
    for r, (t, d, g, tr, dr) in everyone(ctx, tp, dp, body).items():
        tps = [q for q in range(tp * dp) if q // tp == r // tp]
        dps = [q for q in range(tp * dp) if q % tp == r % tp]
        for y, grp, what in ((t, tps, "tensor-parallel"), (d, dps, "data-parallel")):
            s = xs[grp[0]]
            for q in grp[1:]:
                s = s + xs[q]
            ctx.check(same(y, s), f"a {what} sum joins its own group")
        ctx.check(same(g, SymTensor(np.concatenate([xs[q].a for q in tps]), g.dtype)), "a gather is in rank order")
        ctx.check(tr == r % tp and dr == r // tp, "ranks within the groups")
    ctx.reach("sharded" if tp > 1 else "unsharded")


def P(**k):
    ks = list(k)
    out = [{}]
    for n in ks:
        out = [dict(o, **{n: v}) for o in out for v in k[n]]
    return out


HARNESSES = [
    dict(name="embedding", fn=embedding, reach=["sharded"], bounds="2 symbolic token ids per replica, vocabulary up to 6, tp 1-3, dp 1-2",
         quick=P(tp=[1, 2, 3], dp=[1], vocab=[6], dim=[2], pad=[None, 1]) + P(tp=[2], dp=[2], vocab=[4], dim=[1], pad=[None]),
         thorough=P(tp=[1, 2, 4], dp=[1, 2], vocab=[8], dim=[2], pad=[None, 1])),
    dict(name="linear", fn=linear, reach=["sharded"], bounds="2 input rows, sizes up to 6, tp 1-4, dp 1-2",
         quick=P(tp=[1, 2, 3], dp=[1], kind=["column", "gather", "row", "partial"], nin=[6], nout=[6], bias=[True])
         + P(tp=[2], dp=[2], kind=["gather", "row"], nin=[2], nout=[4], bias=[False]) + P(tp=[1], dp=[1], kind=["plain"], nin=[3], nout=[2], bias=[True, False]),
         thorough=P(tp=[1, 2, 4], dp=[1, 2], kind=["column", "gather", "row", "partial"], nin=[4, 8], nout=[4], bias=[True, False])),
    dict(name="mlp", fn=mlp, reach=["sharded"], bounds="1 input row, hidden 2, intermediate up to 6, tp 1-3, dp 1-2",
         quick=P(tp=[1], dp=[1], kind=["fused", "split"], hid=[2], inter=[2, 3], bias=[True, False])
         + P(tp=[1, 2], dp=[1], kind=["parallel"], hid=[2], inter=[4], bias=[True, False]) + P(tp=[2], dp=[2], kind=["parallel"], hid=[2], inter=[2], bias=[True]),
         thorough=P(tp=[1, 2, 3], dp=[1, 2], kind=["parallel"], hid=[2, 3], inter=[6], bias=[True, False])),
    dict(name="replicas", fn=replicas, reach=["sharded"], bounds="tp 1-3, dp 1-3",
         quick=P(tp=[2, 3], dp=[1, 2, 3]), thorough=P(tp=[1, 2, 3, 4], dp=[1, 2, 3, 4])),
]
