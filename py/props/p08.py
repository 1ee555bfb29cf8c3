"""P08: every caller receives exactly the output of its own request"""
import asyncio
import json
import types

from .common import *
import symstr
from symstr import decode, eqs, mk

import pymllm.orchestrator.detokenizer_process as dt
import pymllm.orchestrator.request_response_process as rr
import pymllm.engine.launch as el
import pymllm.engine.io_struct as io

BUDGET = {"quick": 60, "thorough": 600}
ASSUMPTIONS = [
    "the tokenizer is a stub: each token stands for 1-2 bytes, decoding is UTF-8 with one U+FFFD per maximal invalid part (Rust's lossy decoding)",
    "sockets are in-process queues; messages on one channel arrive in order",
]
FFFD = 0xFFFD


def utf8(bs):
    """lossy UTF-8 decoding of (symbolic) bytes to code points"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if b < 0x80:
            out.append(b)
            i += 1
            continue
        if b < 0xC2 or b > 0xF4:
            out.append(FFFD)
            i += 1
            continue
        need = 1 if b < 0xE0 else 2 if b < 0xF0 else 3
        cp = b - (0xC0 if need == 1 else 0xE0 if need == 2 else 0xF0)
        k = 1
        ok = True
        while k <= need:
            if i + k >= len(bs):
                ok = False
                break
            c = bs[i + k]
            lo, hi = 0x80, 0xBF
            if k == 1 and need >= 2:
                if b == 0xE0:
                    lo = 0xA0
                elif b == 0xED:
                    hi = 0x9F
                elif b == 0xF0:
                    lo = 0x90
                elif b == 0xF4:
                    hi = 0x8F
            if c < lo or c > hi:
                ok = False
                break
            cp = cp * 64 + (c - 0x80)
            k += 1
        out.append(cp if ok else FFFD)
        i += k
    return out


class Tok:
    """token id -> bytes; token 0 is a special token"""

    def __init__(self, table):
        self.table = table
        self.memo = {}

    def decode(self, ids, skip_special_tokens=True):
        key = (tuple(ids), bool(skip_special_tokens))
        if key not in self.memo:
            bs = []
            for i in ids:
                if i == 0:
                    bs += [] if skip_special_tokens else [60, 115, 62]
                else:
                    bs += self.table[i]
            self.memo[key] = mk(utf8(bs))
        return self.memo[key]


def h_detok(ctx, ntok, nreq, width):
    """real detokenizer: interleaved requests, increments concatenate to the final text"""
    symstr.reset(ctx)
    table = {}
    d = dt.DetokenizerProcess("a", "b")
    d._tokenizer = Tok(table)
    reqs = []
    for r in range(nreq):
        n = ctx.pick(f"n{r}", 1, ntok) if r == 0 else 1
        ids = []
        for k in range(n):
            t = 100 * (r + 1) + k
            if r == 0 and k == 0 and ctx.flag("special"):
                ids.append(0)
                continue
            w = ctx.pick(f"w{r}_{k}", 1, width) if r == 0 else 1
            table[t] = toks(ctx, f"b{r}_{k}_", w, 0, 255)
            ids.append(t)
        reqs.append(dict(ids=ids, pos=0, got="", done=False, last=None))
    skip = ctx.flag("skip_special")
    live = list(range(nreq))
    step = 0
    while live:
        j = live[ctx.pick(f"s{step}", 0, len(live) - 1)] if len(live) > 1 else live[0]
        step += 1
        q = reqs[j]
        q["pos"] += 1
        fin = q["pos"] >= len(q["ids"])
        msg = dict(rids=[f"r{j}"], output_ids=q["ids"][:q["pos"]], finished_reasons=["eos" if fin else None],
                   decode_ids=[q["ids"][q["pos"] - 1]], skip_special_tokens=[skip], prompt_tokens=[5 + j],
                   completion_tokens=[q["pos"]])
        res = d._detokenize(msg)
        ctx.check(len(res) == 1 and res[0]["rid"] == f"r{j}", "one result per request and message")
        x = res[0]
        ctx.check(x["finished"] == fin and x["output_token_ids"] == q["ids"][:q["pos"]], "finish flag or token ids wrong")
        ctx.check(x["prompt_tokens"] == 5 + j and x["completion_tokens"] == q["pos"], "token counts wrong")
        q["got"] = decode(q["got"] + x["delta"])
        full = d._tokenizer.decode(q["ids"][:q["pos"]], skip)
        ctx.check(eqs(x["text"], full), "text is not the decoding of the request's tokens")
        if fin:
            ctx.check(eqs(q["got"], full), "streamed increments do not concatenate to the final text")
            live.remove(j)
            ctx.reach("done")
        else:
            ctx.check(decode(full)[:len(q["got"])] == q["got"], "streamed text is not a prefix of the text so far")
    ctx.check(not d._rid_to_prev_text, "state of a finished request is kept")


class Chan:
    def __init__(self):
        self.q = None
        self.items = []

    def bind(self):
        self.q = asyncio.Queue()

    async def send_pyobj(self, o):
        self.items.append(o)

    async def recv_pyobj(self):
        return await self.q.get()


def mk_engine():
    e = el.Engine.__new__(el.Engine)
    p = rr.RequestResponseProcess("a", "b")
    p._request_queue = asyncio.Queue()
    p._send_to_tokenizer, p._recv_from_detokenizer = Chan(), Chan()
    p._recv_from_detokenizer.bind()
    e._rr_process = p
    el.get_global_config = lambda: types.SimpleNamespace(server=types.SimpleNamespace(max_queued_requests=None))
    return e, p


async def settle():
    for _ in range(30):
        await asyncio.sleep(0)


def result(rid, toks_, k, fin):
    return dict(rid=rid, text=sum(toks_[:k + 1]) if False else list(toks_[:k + 1]), delta=[toks_[k]],
                output_token_ids=list(toks_[:k + 1]), finished=fin, finished_reason="eos" if fin else None,
                prompt_tokens=4, completion_tokens=k + 1)


def h_route(ctx, ncall, nbatch, ntok, aborts):
    """real engine front end: results reach the caller of the request, once, in order"""
    out = asyncio.run(_route(ctx, ncall, nbatch, ntok, aborts))
    if isinstance(out, BaseException):
        raise out


async def _route(ctx, ncall, nbatch, ntok, aborts):
    e, p = mk_engine()
    calls = []

    async def consume(c):
        gen = e.generate_async(prompt=c["prompt"], sampling_params=c["sp"], image_data=c["img"], rid=c["rid"],
                               stream=c["stream"])
        c["gen"] = gen
        try:
            async for x in gen:
                c["out"].append(x)
        except asyncio.CancelledError:
            await gen.aclose()
            raise
        c["ended"] = True

    try:
        for i in range(ncall):
            nb = ctx.pick(f"batch{i}", 0, nbatch)
            stream = ctx.flag(f"stream{i}")
            own_img = ctx.flag(f"img{i}")
            if nb == 0:
                prompt, rid, img, sp = f"p{i}", f"c{i}", [f"im{i}", "im"] if own_img else None, {"m": i}
            else:
                prompt = [f"p{i}.{k}" for k in range(nb)]
                rid = [f"c{i}.{k}" for k in range(nb)]
                img = [f"im{i}.{k}" for k in range(nb)] if own_img else None
                sp = [{"m": (i, k)} for k in range(nb)]
            c = dict(prompt=prompt, rid=rid, img=img, sp=sp, stream=stream, out=[], ended=False, n=max(nb, 1), batch=nb)
            calls.append(c)
            c["task"] = asyncio.ensure_future(consume(c))
            await settle()
        sent = p._send_to_tokenizer.items
        # what reaches the tokenizer: one message per prompt with its own fields
        exp = {}
        for i, c in enumerate(calls):
            for k in range(c["n"]):
                b = c["batch"] > 0
                pick = lambda v: (v[k] if b else v)
                exp[pick(c["rid"])] = (pick(c["prompt"]), pick(c["sp"]), None if c["img"] is None else pick(c["img"]), c)
        ctx.check(len(sent) == len(exp), "a request is lost or sent twice")
        for m in sent:
            ctx.check(isinstance(m["rid"], str) and m["rid"] in exp, "request id does not belong to a request")
            pr, sp, im, c = exp[m["rid"]]
            ctx.check(m["text"] == pr and m["sampling_params"] == sp and m.get("image_data") == im
                      and m["stream"] == c["stream"], "a request carries another request's prompt, image or parameters")
        # deliver results in any interleaving
        vals = {r: toks(ctx, f"t_{r}_", ntok) for r in exp}
        length = {r: (ctx.pick(f"len_{r}", 1, ntok)) for r in exp}
        pos = {r: 0 for r in exp}
        aborted = set()
        live = list(exp)
        step = 0
        while live:
            j = ctx.pick(f"s{step}", 0, len(live) - 1) if len(live) > 1 else 0
            step += 1
            r = live[j]
            if aborts and len(aborted) < aborts and ctx.flag(f"abort{step}"):
                await p.abort_request(r)
                aborted.add(r)
                live.remove(r)
            else:
                k = pos[r]
                fin = k + 1 >= length[r]
                p._recv_from_detokenizer.q.put_nowait(result(r, vals[r], k, fin))
                pos[r] += 1
                if fin:
                    live.remove(r)
            if ctx.flag(f"y{step}"):
                await settle()
        await settle()
        await asyncio.sleep(0)
        for i, c in enumerate(calls):
            ctx.check(c["ended"], "a caller keeps waiting after all its results arrived")
            ids = c["rid"] if c["batch"] else [c["rid"]]
            for r in ids:
                mine = [x for x in c["out"] if x["rid"] == r]
                if r in aborted:
                    ctx.check(len(mine) >= 1 and mine[-1].get("error") == "aborted" and mine[-1]["finished"],
                              "an aborted request is not ended with an abort result")
                    continue
                if c["stream"]:
                    ctx.check(len(mine) == length[r], "a streamed chunk is lost or repeated")
                    ctx.check(seq_eq([t for x in mine for t in x["delta"]], vals[r][:length[r]]),
                              "streamed chunks are out of order or belong to another request")
                else:
                    ctx.check(len(mine) == 1, "not exactly one final result")
                    ctx.check(seq_eq(mine[0]["text"], vals[r][:length[r]]), "result belongs to another request")
                ctx.check(mine[-1]["finished"] and not any(x["finished"] for x in mine[:-1]), "finish flag wrong")
            ctx.check(all(x["rid"] in ids for x in c["out"]), "a caller received another caller's result")
        ctx.check(not p._rid_to_state, "state of a finished request is kept")
        ctx.check({m["rid"] for m in sent if m.get("abort")} == aborted, "abort is not forwarded for exactly the aborted requests")
        ctx.reach("done")
        return None
    except BaseException as ex:  # noqa  (asyncio would wrap path-control exceptions)
        return ex
    finally:
        for c in calls:
            c["task"].cancel()
        if p._loop_task is not None:
            p._loop_task.cancel()
        await asyncio.gather(*[c["task"] for c in calls], return_exceptions=True)


def h_disconnect(ctx, ntok):
    """closing the result iterator early aborts exactly that request"""
    out = asyncio.run(_disc(ctx, ntok))
    if isinstance(out, BaseException):
        raise out


async def _disc(ctx, ntok):
    e, p = mk_engine()
    try:
        n = ctx.pick("n", 1, ntok)
        stop = ctx.pick("stop", 0, n)
        batch = ctx.flag("batch")
        rid = ["a", "b"] if batch else "a"
        gen = e.generate_async(prompt=["x", "y"] if batch else "x", rid=rid, stream=True)
        async def step(t):
            """the next result; it must come without further events"""
            await settle()
            ctx.check(t.done(), "a caller keeps waiting although a result arrived for it")
            return await t

        t = asyncio.ensure_future(gen.__anext__())
        await settle()
        for k in range(n):
            p._recv_from_detokenizer.q.put_nowait(result("a", list(range(n)), k, k == n - 1))
        await step(t)
        for _ in range(stop - 1):
            await step(asyncio.ensure_future(gen.__anext__()))
        await gen.aclose()
        await settle()
        ab = [m["rid"] for m in p._send_to_tokenizer.items if m.get("abort")]
        fin_seen = True  # all of a's results had arrived
        ctx.check(ab == (["b"] if batch else []), "disconnect aborts the wrong requests")
        ctx.check(not p._rid_to_state, "state kept after disconnect")
        ctx.reach("done")
        return None
    except BaseException as ex:  # noqa
        return ex
    finally:
        if p._loop_task is not None:
            p._loop_task.cancel()


# -- completions endpoint with several prompts --------------------------
def h_completions(ctx, nprompt, ntok):
    """choice i of a completion answers prompt i, streamed or not, in any completion order"""
    from .p07 import _Req
    import pymllm.server.launch as L
    n = ctx.pick("n", 0, nprompt)
    prompts = [f"p{k}" for k in range(n)] if n else "p0"
    n = max(n, 1)
    lens = [ctx.pick(f"len{k}", 1, ntok) for k in range(n)]
    order = []
    left = [l for l in lens]
    step = 0
    while any(left):
        live = [k for k in range(n) if left[k]]
        k = live[ctx.pick(f"o{step}", 0, len(live) - 1)] if len(live) > 1 else live[0]
        step += 1
        order.append((k, lens[k] - left[k]))
        left[k] -= 1
    fixed = []

    class Eng:
        async def generate_async(self, prompt=None, rid=None, stream=False, **kw):
            ps = prompt if isinstance(prompt, list) else [prompt]
            rids = rid if isinstance(rid, list) else [rid if rid is not None else f"auto{k}" for k in range(len(ps))]
            for k, t in order:
                fin = t == lens[k] - 1
                if stream:
                    yield dict(rid=rids[k], delta=f"<{ps[k]}:{t}>", text="", finished=fin, finished_reason="length" if fin else None,
                               prompt_tokens=10 + k, completion_tokens=t + 1)
                elif fin:
                    yield dict(rid=rids[k], text="".join(f"<{ps[k]}:{q}>" for q in range(lens[k])), finished=True,
                               finished_reason="length", prompt_tokens=10 + k, completion_tokens=lens[k])

        _make_rids = staticmethod(el.Engine._make_rids)

    L.get_global_config = lambda: types.SimpleNamespace(server=types.SimpleNamespace(
        served_model_name="m", model_path="m", enable_debug_timing=False))
    L._get_engine = lambda: Eng()
    want = [(k, "".join(f"<p{k}:{q}>" for q in range(lens[k]))) for k in range(n)]
    usage = dict(prompt_tokens=sum(10 + k for k in range(n)), completion_tokens=sum(lens))
    usage["total_tokens"] = usage["prompt_tokens"] + usage["completion_tokens"]

    async def go(stream):
        r = await L.openai_completions(L.CompletionRequest(prompt=prompts, stream=stream, stream_options=dict(include_usage=True)), _Req())
        if stream:
            return [b async for b in r.body_iterator]
        return json.loads(r.body)
    one = asyncio.run(go(False))
    ctx.check(sorted((c["index"], c["text"]) for c in one["choices"]) == want, "a choice answers another prompt")
    ctx.check(one["usage"] == usage, "usage wrong")
    ev = asyncio.run(go(True))
    ctx.check(ev[-1] == b"data: [DONE]\n\n", "stream does not end with [DONE]")
    got, fin = {}, []
    for b in ev[:-1]:
        d = json.loads(b[6:])
        ctx.check("error" not in d, "error event")
        for c in d["choices"]:
            got[c["index"]] = got.get(c["index"], "") + c["text"]
            if c["finish_reason"]:
                fin.append(c["index"])
        if not d["choices"]:
            ctx.check(d["usage"] == usage, "streamed usage wrong")
    ctx.check(sorted(got.items()) == want and sorted(fin) == list(range(n)), "streamed choices do not answer their prompts")
    ctx.reach("done")


HARNESSES = [
    dict(name="route", fn=h_route, quick=[dict(ncall=2, nbatch=0, ntok=2, aborts=0), dict(ncall=1, nbatch=2, ntok=2, aborts=0), dict(ncall=2, nbatch=0, ntok=1, aborts=1)],
         thorough=[dict(ncall=3, nbatch=0, ntok=2, aborts=1), dict(ncall=2, nbatch=2, ntok=2, aborts=1)], reach=["done"],
         bounds="2 (3) callers, batches up to 2 prompts, up to 2 chunks each, all delivery interleavings, aborts"),
    dict(name="disconnect", fn=h_disconnect, quick=[dict(ntok=3)], thorough=[dict(ntok=5)], reach=["done"],
         bounds="client disconnect after any number of chunks"),
    dict(name="completions", fn=h_completions, quick=[dict(nprompt=3, ntok=2)], thorough=[dict(nprompt=4, ntok=2)], reach=["done"],
         bounds="up to 3 prompts, 2 chunks each, all completion orders"),
    dict(name="detok", fn=h_detok, quick=[dict(ntok=3, nreq=1, width=1), dict(ntok=2, nreq=2, width=1), dict(ntok=2, nreq=1, width=2)],
         thorough=[dict(ntok=3, nreq=1, width=2), dict(ntok=4, nreq=1, width=1), dict(ntok=3, nreq=2, width=2)], reach=["done"],
         bounds="up to 3 (4) tokens of 1-2 arbitrary bytes, two interleaved requests"),
]
