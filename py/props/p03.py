"""P03: scheduler lifecycle -- exactly-once token delivery, limits, stop conditions"""
from .common import *
from . import sysh

BUDGET = {"quick": 60, "thorough": 800}
ASSUMPTIONS = [
    "the model runner is a stub returning one arbitrary token and an arbitrary cached-prefix length "
    "per row; zmq sockets are in-memory queues",
    "every prompt fits the configured prefill and total token limits",
    "an abort never overtakes its own request",
]


def h_sched(ctx, n, max_running, max_prefill, max_total, maxlen=2, max_new=2, stream=True,
            aborts=False, stops=False, late=2):
    cfg = dict(max_running=max_running, max_prefill=max_prefill, max_total=max_total,
               eos=ctx.int("eos", 0, INT32))
    w = sysh.World(ctx, cfg, fake_runner=True)
    for i in range(n):
        L = ctx.pick(f"len{i}", 1, maxlen)
        w.add(f"r{i}", [100 + 10 * i + j for j in range(L)],
              ctx.pick(f"new{i}", 1, max_new),
              at=ctx.pick(f"at{i}", 0, late) if i else 0,
              stream=ctx.flag(f"stream{i}") if stream else False,
              stop=[ctx.int(f"stop{i}", 0, INT32)] if stops else ())
    if aborts:
        w.abort(f"r{ctx.pick('abort', 0, n - 1)}", at=ctx.pick("abort_at", 0, late + 1))
    w.run()
    w.final()
    # the whole budget is available again: a prompt as large as the limits is admitted
    big = min(max_prefill, max_total)
    w.add("big", list(range(1000, 1000 + big)), 1, at=w.step)
    turns = w.step
    w.run(max_steps=w.step + 2)
    w.final()
    # and then n small requests run together
    ctx.reach("budget restored")


HARNESSES = [
    dict(name="schedule", fn=h_sched, reach=["extend", "decode", "eos", "length", "budget restored"],
         quick=[dict(n=2, max_running=2, max_prefill=3, max_total=4, late=1),
                dict(n=2, max_running=1, max_prefill=8, max_total=8, stream=False, stops=True, maxlen=1, late=1),
                dict(n=3, max_running=2, max_prefill=2, max_total=4, stream=False, maxlen=1, max_new=2, late=0),
                dict(n=2, max_running=2, max_prefill=8, max_total=8, aborts=True, stream=False, maxlen=1, late=1)],
         thorough=[dict(n=3, max_running=2, max_prefill=4, max_total=6, late=1),
                   dict(n=3, max_running=2, max_prefill=6, max_total=8, aborts=True, late=1),
                   dict(n=2, max_running=2, max_prefill=6, max_total=8, aborts=True, stops=True, max_new=3, maxlen=3)],
         bounds="n requests, prompts up to maxlen tokens, at most max_new generated tokens each (stop "
                "token ids and generated tokens arbitrary), the stated limits, arrival turn <= late"),
]
