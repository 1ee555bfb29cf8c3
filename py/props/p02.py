"""P02: KV-cache isolation and conservation over request lifecycles"""
from .common import *
from . import sysh

BUDGET = {"quick": 70, "thorough": 800}
ASSUMPTIONS = [
    "the neural network is a stub returning an arbitrary token per row; KV memory is a ghost map "
    "slot -> token history written where the engine tells the network to write",
    "zmq sockets are in-memory queues; arrival and abort times are symbolic choices",
    "the KV pool is large enough for all requests at full length (running out of memory is outside)",
    "CPU tensors for the index tables; a prompt carries at most one picture",
]


def h_life(ctx, n, maxlen, max_new, kv, aborts=False, no_cache=False, fixed_new=None, late=1,
           window=None, mamba=False, page=1):
    cfg = dict(max_reqs=n + 1, ctx_len=16, kv_size=kv, max_running=n, max_prefill=64,
               max_total=64, no_cache=no_cache, window=window, mamba_cache=mamba, page=page)
    w = sysh.World(ctx, cfg)
    for i in range(n):
        L = ctx.pick(f"len{i}", 1, maxlen)
        new = fixed_new[i] if fixed_new else ctx.pick(f"new{i}", 1, max_new)
        at = ctx.pick(f"at{i}", 0, late) if i else 0
        w.add(f"r{i}", toks(ctx, f"p{i}_", L), new, at=at)
    if aborts:
        w.abort(f"r{ctx.pick('abort', 0, n - 1)}", at=ctx.pick("abort_at", 1, 2))
    w.run()
    w.final()
    w.final_pools()


def h_pressure(ctx, lens, kv, max_new):
    """sequential requests in a pool that forces eviction of cached prefixes"""
    n = len(lens)
    cfg = dict(max_reqs=2, ctx_len=16, kv_size=kv, max_running=1, max_prefill=64, max_total=64)
    w = sysh.World(ctx, cfg)
    for i, L in enumerate(lens):
        w.add(f"r{i}", toks(ctx, f"p{i}_", L), max_new, at=0)
    w.run()
    w.final()
    w.final_pools()
    ctx.reach("pressure done")


def h_images(ctx, n, maxlen, kv):
    """requests whose prompts carry a picture: equal token ids do not mean equal content"""
    cfg = dict(max_reqs=n + 1, ctx_len=16, kv_size=kv, max_running=n, max_prefill=64, max_total=64)
    w = sysh.World(ctx, cfg)
    for i in range(n):
        L = ctx.pick(f"len{i}", 1, maxlen)
        img = ctx.pick(f"img{i}", 0, 2)
        w.add(f"r{i}", toks(ctx, f"p{i}_", L), 2, at=ctx.pick(f"at{i}", 0, 1) if i else 0,
              image=None if img == 2 else img)
    w.run()
    w.final()
    w.final_pools()


R = ["extend", "decode", "prefix reused"]
HARNESSES = [
    dict(name="images", fn=h_images, reach=["extend", "decode"],
         quick=[dict(n=2, maxlen=3, kv=16)], thorough=[dict(n=3, maxlen=2, kv=24), dict(n=2, maxlen=5, kv=24)],
         bounds="n requests of at most maxlen arbitrary tokens, each text-only or with one of two pictures"),
    dict(name="pressure", fn=h_pressure, reach=["pressure done", "prefix reused"],
         quick=[dict(lens=[3, 3, 3], kv=6, max_new=2), dict(lens=[4, 3, 4], kv=7, max_new=2)],
         thorough=[dict(lens=[3, 3, 3, 3], kv=6, max_new=2), dict(lens=[4, 3, 4, 4], kv=8, max_new=2),
                   dict(lens=[3, 3, 3], kv=7, max_new=3)],
         bounds="requests run one after another in a pool of kv slots, so cached prefixes get evicted"),
    dict(name="lifecycle", fn=h_life, reach=["extend", "decode"],
         quick=[dict(n=2, maxlen=4, max_new=2, kv=16),
                dict(n=2, maxlen=3, max_new=2, kv=16, aborts=True, fixed_new=[2, 3]),
                dict(n=2, maxlen=2, max_new=2, kv=16, no_cache=True, late=1),
                dict(n=2, maxlen=3, max_new=2, kv=16, window=2, fixed_new=[2, 2]),
                dict(n=2, maxlen=4, max_new=2, kv=16, page=2, fixed_new=[2, 2]),
                dict(n=2, maxlen=3, max_new=2, kv=16, mamba=True, fixed_new=[2, 2]),
                dict(n=3, maxlen=2, max_new=2, kv=20, fixed_new=[2, 2, 1], late=1)],
         thorough=[dict(n=2, maxlen=5, max_new=3, kv=20, late=3),
                   dict(n=3, maxlen=4, max_new=2, kv=24, fixed_new=[2, 2, 2], late=2),
                   dict(n=3, maxlen=3, max_new=2, kv=24, aborts=True, late=2),
                   dict(n=2, maxlen=4, max_new=3, kv=20, no_cache=True, late=2, aborts=True)],
         bounds="n requests, prompts of at most maxlen arbitrary tokens, at most max_new generated "
                "tokens, arrival within the first `late` scheduler turns, optional abort"),
]
