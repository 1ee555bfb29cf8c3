"""P05: recurrent (linear-attention) state of hybrid models follows the reused prefix"""
from .common import *
from . import sysh

BUDGET = {"quick": 60, "thorough": 800}
ASSUMPTIONS = [
    "the network is a stub: a forward pass turns the recurrent state for a prefix into the state for "
    "the whole sequence; the entries of the real state tensors are handles of ghost token histories, "
    "copied, zeroed and managed by the real pool",
    "KV pool large enough for all requests at full length",
]


def h_hybrid(ctx, n, maxlen, kv, tracks, news, aborts=False, late=0, running=None, mamba=False):
    cfg = dict(max_reqs=running or n, ctx_len=16, kv_size=kv, max_running=running or n, max_prefill=64,
               max_total=64, hybrid=True, tracks=tracks, mamba_cache=mamba)
    w = sysh.World(ctx, cfg)
    for i in range(n):
        L = ctx.pick(f"len{i}", 1, maxlen)
        w.add(f"r{i}", toks(ctx, f"p{i}_", L), news[i], at=ctx.pick(f"at{i}", 0, late) if i else 0)
    if aborts:
        w.abort(f"r{ctx.pick('abort', 0, n - 1)}", at=ctx.pick("abort_at", 1, 2))
    w.run()
    w.final()
    w.final_pools()


HARNESSES = [
    dict(name="hybrid", fn=h_hybrid, reach=["extend", "decode", "prefix reused"],
         quick=[dict(n=2, maxlen=4, kv=16, tracks=2, news=[2, 2], running=1),
                dict(n=2, maxlen=4, kv=16, tracks=1, news=[2, 1], late=1),
                dict(n=2, maxlen=3, kv=16, tracks=2, news=[2, 2], running=1, mamba=True),
                dict(n=3, maxlen=3, kv=7, tracks=2, news=[2, 1, 1], running=1)],
         thorough=[dict(n=3, maxlen=4, kv=16, tracks=2, news=[2, 2, 2], running=1),
                   dict(n=3, maxlen=3, kv=16, tracks=3, news=[2, 2, 2], late=1, aborts=True)],
         bounds="n requests, prompts up to maxlen tokens"),
]
