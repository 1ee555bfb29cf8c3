"""P13: every token is drawn from exactly the distribution its request asked for"""
import types
from fractions import Fraction

import numpy as np
import torch

from .common import *
import symx
import symt
from symt import SymTensor, SymTorch, sym
from . import sysh

import pymllm.layers.sampling as sa
import pymllm.executor.model_runner as mr

BUDGET = {"quick": 75, "thorough": 500}
ASSUMPTIONS = [
    "floating-point values are idealised as reals; FlashInfer is absent, so the PyTorch sampling path is the one decided",
    "softmax is any function giving positive probabilities that sum to 1 and are ordered like the logits",
    "torch.multinomial / torch.rand return any outcome their arguments allow",
]
NS = types.SimpleNamespace


class Env:
    """stubs of the random and transcendental operations; records what they were given"""

    def __init__(self, ctx):
        self.ctx, self.n, self.draws, self.soft = ctx, 0, [], []
        t = SymTorch(Tensor=(torch.Tensor, SymTensor), multinomial=self.multinomial, softmax=self.softmax, rand=self.rand)
        sa.torch = t
        sa._HAS_FLASHINFER = False
        mr.torch = t

    def softmax(self, x, dim=-1, dtype=None):
        ctx = self.ctx
        assert dim in (-1, len(x.shape) - 1)
        self.n += 1
        p = sym(ctx, f"soft{self.n}", tuple(x.shape), real=True)
        for r in np.ndindex(*x.a.shape[:-1]):
            row, pr = list(x.a[r]), list(p.a[r])
            ctx.assume(sum(pr) == 1)
            for i in range(len(pr)):
                ctx.assume(pr[i] > 0)
                for j in range(i):
                    ctx.assume(sym_and((pr[i] > pr[j]) == (row[i] > row[j]), (pr[i] == pr[j]) == (row[i] == row[j])))
        self.soft.append((x, p))
        return p

    def multinomial(self, p, num_samples=1, replacement=False, generator=None):
        ctx = self.ctx
        assert num_samples == 1
        self.n += 1
        out = []
        for b in range(p.a.shape[0]):
            row = list(p.a[b])
            for x in row:
                ctx.check(x >= 0, "negative sampling weight")
            ctx.check(sum(row) > 0, "nothing can be sampled")
            k = ctx.int(f"draw{self.n}_{b}", 0, len(row) - 1)
            for j, x in enumerate(row):
                ctx.assume(sym_or(k != j, x > 0))
            out.append([k])
        t = SymTensor(np.array(out, dtype=object))
        self.draws.append((p, t))
        return t

    def rand(self, *s, **k):
        self.n += 1
        r = self.ctx.real(f"rand{self.n}")
        self.ctx.assume(sym_and(r >= 0, r < 1))
        return SymTensor(np.array([r], dtype=object), torch.float32)


def distribution(ctx, name, rows, n, positive=False):
    p = sym(ctx, name, (rows, n), real=True)
    for r in range(rows):
        for x in p.a[r]:
            ctx.assume(x > 0 if positive else x >= 0)
        ctx.assume(sum(p.a[r]) == 1)
    return p


def nz(x):
    return x > 0


def proportional(ctx, got, base, kept, label):
    """got is base restricted to kept, renormalised"""
    for i, (g, b) in enumerate(zip(got, base)):
        ctx.check(sym_or(kept[i], g == 0), f"{label}: a filtered token keeps probability 0")
        for j in range(i):
            ctx.check(sym_or(sym_not(sym_and(kept[i], kept[j])), g * base[j] == got[j] * b),
                      f"{label}: the kept tokens keep their proportions")
    ctx.check(sum(got) == 1, f"{label}: the result is a distribution")


def count(xs):
    s = 0
    for x in xs:
        s = s + symx.ite(x, 1, 0)
    return s


def topk_kept(p, k, n):
    """tokens with fewer than k strictly better ones; k outside 1..n means no limit"""
    out = []
    for i in range(n):
        better = count([p[j] > p[i] for j in range(n) if j != i])
        out.append(sym_or(better < k, k <= 0))
    return out


def check_topp(ctx, got, p, tp, label, kept_in=None):
    """got keeps a smallest set of most likely tokens whose mass reaches tp"""
    n = len(p)
    kept = [nz(g) for g in got]
    proportional(ctx, got, p, kept, label)
    mass = 0
    for i in range(n):
        mass = mass + symx.ite(kept[i], p[i], 0)
        for j in range(n):
            if i != j:
                ctx.check(sym_or(sym_not(kept[i]), kept[j], p[i] >= p[j]),
                          f"{label}: a kept token is at least as likely as a dropped one")
    for i in range(n):
        ctx.check(sym_or(kept[i], p[i] == 0, mass >= tp), f"{label}: the kept tokens reach the requested mass")
        ctx.check(sym_or(sym_not(kept[i]), mass - p[i] <= tp), f"{label}: no more tokens are kept than needed")
    return kept


def fl(x):
    """a python-number parameter: concrete replay needs a real float / int"""
    return x


def h_filter(ctx, what, rows, n, form):
    Env(ctx)
    p = distribution(ctx, "p", rows, n)
    if what == "k":
        ks = [ctx.pick(f"k{r}", 1, n) for r in range(rows if form == "tensor" else 1)]
        arg = SymTensor(np.array(ks, dtype=object), torch.int32) if form == "tensor" else ks[0]
        got = sa.top_k_renorm_probs(p.clone(), arg)
        for r in range(rows):
            proportional(ctx, list(got.a[r]), list(p.a[r]),
                         topk_kept(list(p.a[r]), ks[r % len(ks)], n), "top-k")
    elif what == "mask":
        x = sym(ctx, "x", (rows, n), real=True)
        ks = [ctx.pick(f"k{r}", 1, n) for r in range(rows if form == "tensor" else 1)]
        arg = SymTensor(np.array(ks, dtype=object), torch.int32) if form == "tensor" else ks[0]
        keep = x.clone()
        got = sa.top_k_mask_logits(x, arg)
        for r in range(rows):
            kept = topk_kept(list(keep.a[r]), ks[r % len(ks)], n)
            for i in range(n):
                g = got.a[r, i]
                if isinstance(g, float) and g == float("-inf"):
                    ctx.check(sym_not(kept[i]), "masking removes a top-k logit")
                    ctx.reach("masked")
                else:
                    ctx.check(sym_and(kept[i], g == keep.a[r, i]), "a logit outside the top k survives or changes")
    else:
        tps = [ctx.real(f"tp{r}") for r in range(rows if form == "tensor" else 1)]
        for t in tps:
            ctx.assume(sym_and(t > 0, t <= 1))
        arg = SymTensor(np.array(tps, dtype=object), torch.float32)
        if form != "tensor":
            tps = [[0.25, 0.5, 1.0][ctx.pick("tpc", 0, 2)]]
            arg = tps[0]
        got = sa.top_p_renorm_probs(p.clone(), arg)
        for r in range(rows):
            check_topp(ctx, list(got.a[r]), list(p.a[r]), tps[r % len(tps)], "top-p")
    ctx.reach("filtered")


def h_draw(ctx, what, rows, n, idx=False):
    e = Env(ctx)
    p = distribution(ctx, "p", rows, n)
    ix = None
    out_rows = rows
    pick = list(range(rows))
    if idx:
        pick = [ctx.pick(f"ix{r}", 0, rows - 1) for r in range(rows + 1)]
        out_rows = rows + 1
        ix = SymTensor(np.array(pick, dtype=object), torch.int32)
    mp = [ctx.real(f"m{r}") for r in range(out_rows)]
    for m in mp:
        ctx.assume(sym_and(m > 0, m <= 1))
    if what == "plain":
        out = sa.sampling_from_probs(p, indices=ix)
    elif what == "min_p":
        out = sa.min_p_sampling_from_probs(p, SymTensor(np.array(mp, dtype=object), torch.float32), indices=ix)
    elif what == "top_p":
        out = sa.top_p_sampling_from_probs(p, SymTensor(np.array(mp, dtype=object), torch.float32), indices=ix)
    else:
        ks = [ctx.pick(f"k{r}", 1, n) for r in range(out_rows)]
        out = sa.top_k_sampling_from_probs(p, SymTensor(np.array(ks, dtype=object), torch.int32), indices=ix)
    ctx.check(len(e.draws) == 1, "one draw per call")
    w, k = e.draws[0]
    ctx.check(tuple(out.shape) == (out_rows,) and tuple(w.shape) == (out_rows, n), "one token per row")
    for r in range(out_rows):
        ctx.check(out.a[r] == k.a[r, 0], "the drawn token is returned for its row")
        base, got = list(p.a[pick[r]]), list(w.a[r])
        if what == "plain":
            for g, b in zip(got, base):
                ctx.check(g == b, "drawn from the given distribution")
        elif what == "min_p":
            kept = []
            for i in range(n):
                kept.append(sym_and(*[base[i] >= mp[r] * b for b in base]))
            proportional(ctx, got, base, kept, "min-p")
            for i in range(n):
                ctx.check(sym_or(sym_not(kept[i]), got[i] > 0), "min-p keeps every token over its threshold")
        elif what == "top_p":
            check_topp(ctx, got, base, mp[r], "top-p")
        else:
            proportional(ctx, got, base, topk_kept(base, ks[r], n), "top-k")
    ctx.reach("drawn")


def penal(ctx, rows, n, hist):
    x = sym(ctx, "x", (rows, n), real=True)
    hs, rp, fp, pp = [], [], [], []
    for r in range(rows):
        hs.append([ctx.int(f"h{r}_{i}", -1, n) for i in range(ctx.pick(f"hl{r}", 0, hist))])
        a, b, c = ctx.real(f"rep{r}"), ctx.real(f"freq{r}"), ctx.real(f"pres{r}")
        ctx.assume(a > 0)
        rp.append(a), fp.append(b), pp.append(c)
    return x, hs, rp, fp, pp


def penalised(x, h, a, b, c):
    out = []
    for t in range(len(x)):
        cnt = count([tok == t for tok in h])
        v = symx.ite(x[t] > 0, x[t] / a, x[t] * a) - b * cnt - c
        out.append(symx.ite(cnt > 0, v, x[t]))
    return out


def T(v, dt=torch.float32):
    return SymTensor(np.array(v, dtype=object), dt)


def h_penalty(ctx, rows, n, hist):
    Env(ctx)
    x, hs, rp, fp, pp = penal(ctx, rows, n, hist)
    keep = x.clone()
    got = mr._apply_penalties(x, hs, T(rp), T(fp), T(pp))
    for r in range(rows):
        want = penalised(list(keep.a[r]), hs[r], rp[r], fp[r], pp[r])
        for t in range(n):
            ctx.check(got.a[r, t] == want[t], "a logit is penalised exactly by its own request's history")
    ctx.check(symt.same(x, keep), "the model's logits are not modified")
    ctx.reach("penalised")


def h_sample(ctx, rows, n, pen=False, filt=True):
    """ModelRunner.sample: per-request temperature, penalties, top-k, top-p"""
    e = Env(ctx)
    x = sym(ctx, "x", (rows, n), real=True)
    want = [list(x.a[r]) for r in range(rows)]
    params = None
    if pen:
        hs, rp, fp, pp = [], [], [], []
        for r in range(rows):
            hs.append([ctx.int(f"h{r}", 0, n - 1)])
            rp.append(1.0), fp.append(0.0), pp.append(ctx.real(f"pres{r}"))
            want[r] = [symx.ite(hs[r][0] == t, want[r][t] - pp[r], want[r][t]) for t in range(n)]
        params = dict(token_histories=hs, repetition_penalties=T(rp), frequency_penalties=T(fp), presence_penalties=T(pp))
    temps, greedy = [], []
    for r in range(rows):
        g = ctx.flag(f"greedy{r}")
        greedy.append(g)
        if g:
            temps.append(Fraction(0))
        else:
            t = ctx.real(f"t{r}")
            ctx.assume(t >= Fraction(1, 1000))
            temps.append(t)
    ks = [ctx.pick(f"k{r}", -1, n + 1) if filt else -1 for r in range(rows)]
    tp = []
    for r in range(rows):
        if filt:
            t = ctx.real(f"tp{r}")
            ctx.assume(sym_and(t > 0, t <= 1))
        else:
            t = Fraction(1)
        tp.append(t)
    told = ctx.flag("told")
    out = mr.ModelRunner.sample(
        Bare(mr.ModelRunner, device="cpu"), NS(next_token_logits=x), None, temperatures=T(temps), top_ps=T(tp),
        top_ks=T(ks, torch.int32), penalty_params=params, is_all_greedy=all(greedy) if told else None)
    ctx.check(tuple(out.shape) == (rows,), "one token per request")
    for r in range(rows):
        tok = out.a[r]
        ctx.check(sym_and(tok >= 0, tok < n), "a token of the vocabulary")
        if greedy[r]:
            for t in range(n):
                for u in range(n):
                    ctx.check(sym_or(tok != t, want[r][t] >= want[r][u]), "temperature 0 yields a most likely token")
            ctx.reach("greedy")
            continue
        ctx.check(len(e.soft) == 1 and len(e.draws) == 1, "one draw per batch")
        z, p = e.soft[0]
        for t in range(n):
            ctx.check(z.a[r, t] * temps[r] == want[r][t], "logits are penalised, then divided by the request's temperature")
        w, k = e.draws[0]
        ctx.check(tok == k.a[r, 0], "the token drawn for the row is returned")
        base, got = list(p.a[r]), list(w.a[r])
        kk = ks[r] if 1 <= ks[r] <= n else n
        in_k = topk_kept(base, kk, n)
        s = 0
        for i in range(n):
            s = s + symx.ite(in_k[i], base[i], 0)
        # top-p acts on the renormalised top-k distribution: compare masses against tp * s
        ren = [symx.ite(in_k[i], base[i], 0) for i in range(n)]
        check_topp(ctx, got, ren, tp[r] * s, "top-k then top-p")
        ctx.reach("sampled")


class PWorld(sysh.World):
    def sample(self, fb, kw):
        ctx = self.ctx
        rids = [m["rid"] for m in self.cur["requests"]]
        col = dict(temperature=list(kw["temperatures"]), top_p=list(kw["top_ps"]), top_k=list(kw["top_ks"]))
        pen = kw["penalty_params"]
        for i, r in enumerate(rids):
            q = self.par[r]
            for k, c in col.items():
                ctx.check(len(c) == len(rids) and self.eq(c[i], q[k]), f"row {i} is sampled with its own request's {k}")
            neutral = sym_and(q["repetition_penalty"] == 1, q["frequency_penalty"] == 0, q["presence_penalty"] == 0)
            if pen is None:
                ctx.check(neutral, "penalties are dropped")
                continue
            ctx.reach("penalties")
            for k in ("repetition_penalty", "frequency_penalty", "presence_penalty"):
                ctx.check(self.eq(list(pen[k[:-1] + "ies"])[i], q[k]), f"row {i} gets its own request's {k}")
            full = self.reqs[r]["prompt"] + self.reqs[r]["produced"]
            ctx.check(seq_eq(list(pen["token_histories"][i]), full), "the penalty history is the request's own tokens")
        cold = sym_and(*[self.par[r]["temperature"] < 1e-6 for r in rids])
        ctx.check(cold == bool(kw["is_all_greedy"]), "greedy decoding exactly when every row asks for it")
        ctx.reach(self.cur["forward_mode"])
        return super().sample(fb, kw)

    def eq(self, a, b):
        a = a.item() if isinstance(a, torch.Tensor) else a
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) < 1e-6
        if isinstance(a, float) and isinstance(b, Fraction):
            return abs(a - float(b)) < 1e-5 * max(1, abs(float(b)))
        return a == b


DEF = dict(temperature=1.0, top_p=1.0, top_k=-1, repetition_penalty=1.0, frequency_penalty=0.0, presence_penalty=0.0)


def h_rows(ctx, n, given, late=1, radix=True):
    """through the real scheduler and model-runner process: each row gets its own request's parameters"""
    cfg = dict(max_running=n, max_prefill=16, max_total=32, max_reqs=n + 1, ctx_len=16, kv_size=40, eos=7, no_cache=not radix)
    w = PWorld(ctx, cfg)
    w.par = {}
    for i in range(n):
        r = f"r{i}"
        sp = {}
        if i == n - 1 or ctx.flag(f"given{i}"):
            for k in given:
                if k == "top_k":
                    sp[k] = ctx.int(f"{k}{i}", -1, 1000)
                else:
                    v = ctx.real(f"{k}{i}")
                    ctx.assume(v >= (-2 if k in ("frequency_penalty", "presence_penalty") else 0))
                    if isinstance(ctx, symx.Engine) is False:
                        v = float(v)
                    sp[k] = v
        w.par[r] = dict(DEF, **sp)
        w.add(r, [100 + 10 * i, 101], ctx.pick(f"new{i}", 1, 2), at=ctx.pick(f"at{i}", 0, late) if i else 0, sampling=sp)
    w.run()
    w.final()


def h_spec(ctx, steps, n):
    """speculative decoding emits tokens of the target distribution"""
    e = Env(ctx)
    d = sym(ctx, "d", (1, steps, n), real=True)
    t = sym(ctx, "t", (1, steps + 1, n), real=True)
    for s in range(steps):
        for x in d.a[0, s]:
            ctx.assume(x >= 0)
        ctx.assume(sum(d.a[0, s]) == 1)
    for s in range(steps + 1):
        for x in t.a[0, s]:
            ctx.assume(x >= 0)
        ctx.assume(sum(t.a[0, s]) == 1)
    ids = [ctx.pick(f"id{s}", 0, n - 1) for s in range(steps)]
    for s in range(steps):
        ctx.assume(d.a[0, s, ids[s]] > Fraction(1, 1000))
    out, acc, em = sa.chain_speculative_sampling(d, T([ids], torch.int32), t)
    o = list(out.a[0])
    k = 0
    while k < steps and not (isinstance(o[k], int) and o[k] == -1) and bool(o[k] == ids[k]) and k < em.a[0] - (0 if o[steps] != -1 else 1):
        k += 1
    emitted = int(em.a[0])
    full = not (isinstance(o[steps], int) and o[steps] == -1)
    ctx.check(len(e.draws) == 1, "exactly one token comes from a draw")
    w = [x for x in e.draws[0][0].a.reshape(-1)]
    if full:
        ctx.check(emitted == steps, "all draft tokens emitted")
        for s in range(steps):
            ctx.check(o[s] == ids[s], "accepted draft tokens are emitted unchanged")
        for i in range(n):
            ctx.check(w[i] == t.a[0, steps, i], "the bonus token is drawn from the target distribution")
        ctx.reach("bonus")
    else:
        pos = emitted - 1
        for s in range(pos):
            ctx.check(o[s] == ids[s], "accepted draft tokens are emitted unchanged")
        for s in range(emitted, steps + 1):
            ctx.check(o[s] == -1, "slots after a rejection are padded")
        # residual distribution: max(0, target - draft), normalised
        df = [symx.ite(t.a[0, pos, i] > d.a[0, pos, i], t.a[0, pos, i] - d.a[0, pos, i], 0) for i in range(n)]
        tot = sum(df)
        for i in range(n):
            ctx.check(sym_or(tot <= Fraction(1, 10**8), w[i] * tot == df[i]), "the replacement is drawn from the residual distribution")
        ctx.reach("rejected")
    ctx.check(sym_and(acc.a[0] >= 0, acc.a[0] <= steps), "accepted count within bounds")


HARNESSES = [
    dict(name="filter", fn=h_filter, reach=["filtered", "masked"],
         quick=[dict(what=w, rows=r, n=n, form=f) for w in ("k", "p", "mask") for r, n, f in ((2, 2, "tensor"), (1, 3, "tensor"), (1, 3, "scalar"))],
         thorough=[dict(what=w, rows=1, n=5 if w != "p" else 4, form=f) for w in ("k", "p", "mask") for f in ("tensor", "scalar")],
         bounds="2 rows of 2 or one row of 3 (thorough: 5) probabilities, any values, any k and p"),
    dict(name="draw", fn=h_draw, reach=["drawn"],
         quick=[dict(what=w, rows=1 if w != "plain" else 2, n=3, idx=i) for w in ("plain", "min_p", "top_p", "top_k") for i in (False, True) if not (i and w in ("top_p", "min_p"))],
         thorough=[dict(what=w, rows=1, n=4) for w in ("min_p", "top_p", "top_k")],
         bounds="rows of 3 (thorough: 4) probabilities, any values, with and without a row index"),
    dict(name="penalty", fn=h_penalty, reach=["penalised"],
         quick=[dict(rows=1, n=2, hist=3), dict(rows=2, n=2, hist=1)],
         thorough=[dict(rows=1, n=3, hist=4), dict(rows=2, n=3, hist=2)],
         bounds="2 rows, vocabulary of 3, histories of up to 4 arbitrary token ids, any penalties"),
    dict(name="sample", fn=h_sample, reach=["greedy", "sampled"],
         quick=[dict(rows=1, n=2), dict(rows=2, n=2, pen=True, filt=False), dict(rows=2, n=2)],
         thorough=[dict(rows=1, n=3, pen=True), dict(rows=2, n=3), dict(rows=3, n=2)],
         bounds="up to 3 requests in a batch, vocabulary of 3, greedy and sampling mixed, any logits and parameters"),
    dict(name="rows", fn=h_rows, reach=["extend", "decode", "penalties"],
         quick=[dict(n=2, given=["temperature", "top_k"]), dict(n=2, given=["top_p", "presence_penalty"]),
                dict(n=2, given=["frequency_penalty", "repetition_penalty"])],
         thorough=[dict(n=3, given=["temperature", "presence_penalty"], late=2)],
         bounds="up to 3 concurrent requests arriving at any turn, parameters given or defaulted, any values"),
    dict(name="speculative", fn=h_spec, reach=["bonus", "rejected"],
         quick=[dict(steps=1, n=2), dict(steps=2, n=2)], thorough=[dict(steps=2, n=3), dict(steps=3, n=2)],
         bounds="up to 3 draft tokens, vocabulary of 3, any distributions"),
]
