"""P16: the HTTP server admits key holders only and hands requests to the engine unchanged"""
import asyncio
import collections
import hmac
import inspect
import json
import secrets
import types
import warnings

from .common import *
import symstr
import symx
from symstr import eqs
from .p08 import mk_engine, settle

warnings.filterwarnings("ignore")
import pymllm.server.launch as L
import pymllm.orchestrator.scheduler_process as sp_
import pymllm.orchestrator.tokenizer_process as tp
from pymllm.configs.server_config import ServerConfig
from starlette.requests import Request

BUDGET = {"quick": 60, "thorough": 400}
ASSUMPTIONS = [
    "Starlette's routing and pydantic's validation are what they document; sockets are in-process queues",
    "the tokenizer is a stub that records the messages its chat template is given; image loading is stubbed",
    "a server with an admin key but no api_key is documented as open (outside); acting on `stop` strings and `seed` is outside (the engine ignores them)",
]
NS = types.SimpleNamespace


class Headers:
    def __init__(self, d):
        self.d = d

    def get(self, k, default=None):
        return self.d.get(k.lower(), default)

    def __getitem__(self, k):
        return self.d[k.lower()]

    def __contains__(self, k):
        return k.lower() in self.d

    def keys(self):
        return list(self.d)

    def items(self):
        return list(self.d.items())

    def getlist(self, k):
        return [self.d[k.lower()]] if k.lower() in self.d else []


def same_str(a, b):
    if isinstance(a, bytes):
        return a == b
    return bool(eqs(a, b)) if isinstance(a, str) else a == b


hmac.compare_digest = secrets.compare_digest = same_str
PATHS = ["/generate", "/v1/models", "/health", "/health_generate", "/", "/health/", "/healthz", "/HEALTH", "/server_info", "/v1/health",
         "/health_generate/x", "//health", "/abort_request", "/docs"]


def scope_of(path, method="GET", root="", headers=()):
    return {"type": "http", "http_version": "1.1", "method": method, "scheme": "http", "path": root + path, "raw_path": (root + path).encode(),
            "query_string": b"", "root_path": root, "headers": list(headers), "client": ("1", 1), "server": ("h", 80), "asgi": {"version": "3.0"},
            "state": {}, "app": L.app}


def config(**k):
    c = ServerConfig.__new__(ServerConfig)
    import dataclasses
    for f in dataclasses.fields(ServerConfig):
        v = f.default if f.default is not dataclasses.MISSING else (f.default_factory() if f.default_factory is not dataclasses.MISSING else None)
        object.__setattr__(c, f.name, v)
    for n, v in k.items():
        object.__setattr__(c, n, v)
    return NS(server=c, model=NS(hf_config=None))


def h_auth(ctx, extra, pathsel):
    """the middleware: any header, any keys"""
    symstr.reset(ctx)
    case = pathsel == "case"  # a concrete key, a header over few characters: case folding and trimming stay exact
    key = "aB" if case else symstr.sym(ctx, "k", ctx.pick("klen", 1, 1 if pathsel else 2)) if ctx.flag("haskey") else None
    adm = (symstr.sym(ctx, "m", ctx.pick("mlen", 1, 1 if pathsel else 2)) if ctx.flag("admkey") else "") if key is not None and ctx.flag("hasadm") else None
    path = PATHS[0] if case else PATHS[ctx.pick("path", 0, len(PATHS) - 1)] if pathsel else PATHS[ctx.pick("path", 0, 2)]
    method = ["GET", "POST", "PUT", "HEAD", "OPTIONS"][ctx.pick("method", 0, 4)] if pathsel else "GET"
    hdr = {}
    if case:
        hdr["authorization"] = symstr.mk(list(symstr.chars(symstr.sym(ctx, "b", 1, alphabet="bB"))) + [ord(c) for c in "earer "] +
                                         list(symstr.chars(symstr.sym(ctx, "h", ctx.pick("hlen", 1, 3), alphabet="aAbB "))))
    elif ctx.flag("hashdr"):
        n = ctx.pick("hlen", 8, 8) if pathsel else ctx.pick("hlen", 0, 9 + extra)
        known = ctx.pick("known", 6, 7) if pathsel else ctx.pick("known", 0, n)  # a concrete prefix of the expected scheme, then anything
        hdr["authorization"] = symstr.mk([ord(c) for c in "Bearer "[:known]] + list(symstr.chars(symstr.sym(ctx, "h", n - min(known, 7))))) if n else ""
        if n and known > 7:
            ctx.assume(False)
    L.get_global_config = lambda: config(api_key=key, admin_api_key=adm)
    req = Request(scope_of(path, method))
    req._headers = Headers(hdr)
    called = []

    async def nxt(r):
        called.append(r)
        return "served"

    r = asyncio.run(L._auth_middleware(req, nxt))
    ok = key is None or path in ("/health", "/health_generate")
    if not ok and "authorization" in hdr:
        h = hdr["authorization"]
        ok = eqs(h, lit("Bearer ") + key)
        if adm:
            ok = sym_or(ok, eqs(h, lit("Bearer ") + adm))
    ctx.check(ok if called else symx.sym_not(ok), "a request is served exactly if it may be: it is a liveness probe, or its header is `Bearer <key>`")
    ctx.check(len(called) <= 1 and (r == "served") == bool(called), "the reply of a served request is the handler's")
    if not called:
        ctx.check(r.status_code == 401, "a refused request is answered 401")
    ctx.reach("served" if called else "refused")


def lit(s):
    return symstr.lit(s)


class Spy:
    """an engine that notes being used"""

    def __init__(self):
        self.used = 0
        self.is_healthy = True

    async def generate_async(self, **k):
        self.used += 1
        yield dict(rid="r", text="t", delta="t", finished=True, finished_reason="eos", prompt_tokens=1, completion_tokens=1)

    @property
    def _rr_process(self):
        async def ab(r):
            self.used += 1
        return NS(abort_request=ab)

    @staticmethod
    def _make_rids(*a):
        return "r"


SECRET, ADMIN = "sk-Secret_1", "adm-Secret_2"


def h_routes(ctx, roots):
    """the real application: every route, through its whole middleware stack"""
    rs = [(r.path.replace("{model_id:path}", "m"), m) for r in L.app.routes for m in sorted(getattr(r, "methods", None) or ["GET"])]
    path, method = rs[ctx.pick("route", 0, len(rs) - 1)]
    root = ["", "/api"][ctx.pick("root", 0, 1)] if roots else ""
    auth = [None, b"Bearer " + SECRET.encode(), b"Bearer " + ADMIN.encode(), b"Bearer x", SECRET.encode(), b"bearer x"][ctx.pick("auth", 0, 5)]
    hosts = [b"h", b"x/health?", b"health"]
    host = hosts[ctx.pick("host", 0, 2)]
    L.get_global_config = lambda: config(api_key=SECRET, admin_api_key=ADMIN if ctx_admin(ctx) else None, served_model_name="m", model_path="m",
                                         tokenizer_path="m")
    spy = Spy()
    L._engine = spy
    body = json.dumps(dict(prompt="p", text="p", rid="r", messages=[dict(role="user", content="hi")])).encode()
    heads = [(b"host", host), (b"content-type", b"application/json"), (b"content-length", str(len(body)).encode())]
    if auth is not None:
        heads.append((b"authorization", auth))
    out = []

    async def go():
        sent = []

        async def rec():
            if not sent:
                sent.append(1)
                return {"type": "http.request", "body": body if method != "GET" else b"", "more_body": False}
            await asyncio.sleep(1000)

        async def send(m):
            out.append(m)

        await L.app(scope_of(path, method, root, heads), rec, send)

    asyncio.run(go())
    status = next(m["status"] for m in out if m["type"] == "http.response.start")
    text = b"".join(m.get("body", b"") for m in out if m["type"] == "http.response.body")
    probe = path in ("/health", "/health_generate")
    may = probe or auth == b"Bearer " + SECRET.encode() or (ctx_admin(ctx) and auth == b"Bearer " + ADMIN.encode())
    ctx.check((status != 401) == may, "a route serves key holders (and liveness probes) only")
    if not may:
        ctx.check(not spy.used, "a refused request does nothing")
    ctx.check(SECRET.encode() not in text and ADMIN.encode() not in text, "no reply shows a key")
    if path == "/health":
        ctx.check(status == 200, "a liveness probe is answered")
    ctx.reach("served" if may else "refused")


def ctx_admin(ctx):
    if not hasattr(ctx, "_adm") or ctx._adm[0] is not ctx_token(ctx):
        ctx._adm = (ctx_token(ctx), ctx.flag("admin"))
    return ctx._adm[1]


def ctx_token(ctx):
    return ctx.input_names if ctx.symbolic else ctx


# -- request translation -------------------------------------------------
REALS = ["temperature", "top_p", "frequency_penalty", "presence_penalty", "repetition_penalty"]
INTS = ["top_k", "max_tokens", "seed"]
FIELDS = REALS + INTS + ["stop"]


def fields(ctx, chat):
    """given sampling fields: one alone, all but one, or all"""
    names = FIELDS + (["max_completion_tokens"] if chat else [])
    f = ctx.pick("field", 0, len(names))
    inv = ctx.flag("others")
    given = [n for k, n in enumerate(names) if (k == f) != inv]
    vals = {}
    for n in given:
        if n in REALS:
            vals[n] = ctx.real(n)
        elif n == "stop":
            vals[n] = ["a", "b"] if ctx.flag("stoplist") else "ab"
        else:
            vals[n] = ctx.int(n, -1, 1000)
    return vals


def expected(vals):
    e = {n: vals[n] for n in REALS + ["top_k", "seed"] if n in vals}
    if "stop" in vals:
        e["stop"] = vals["stop"] if isinstance(vals["stop"], list) else [vals["stop"]]
    for n in ("max_completion_tokens", "max_tokens"):
        if n in vals:
            e["max_new_tokens"] = vals[n]
            break
    return e


class Tok:
    def __init__(self):
        self.seen = []

    def apply_chat_template(self, msgs, tokenize=True, add_generation_prompt=False, **kw):
        assert tokenize is False and add_generation_prompt is True
        self.seen.append((msgs, kw))
        return "PROMPT"

    def __call__(self, text, **k):
        return {"input_ids": [7, len(text)]}


def down(raw, default, eos):
    """the request's way from the wire to the batch: tokenizer process, scheduler"""
    t = tp.TokenizerProcess.__new__(tp.TokenizerProcess)
    t._tokenizer, t._context_length = Tok(), None
    imgs = []
    t._collect_mm_inputs = lambda r, text=None: imgs.append(r.get("image_data"))
    x = t._tokenize(dict(raw))
    s = sp_.SchedulerProcess.__new__(sp_.SchedulerProcess)
    s._waiting_queue, s._pending_queue = collections.deque([x]), collections.deque()
    s._default_max_new_tokens, s._eos_token_ids = default, [eos]
    s.process_input_requests()
    assert len(s._pending_queue) == 1, "one request becomes one request"
    r = s._pending_queue[0]
    b = sp_.ScheduleBatch.__new__(sp_.ScheduleBatch)
    b.reqs = [r]
    try:
        metas = [b.prepare_for_extend()["requests"][0], b.prepare_for_decode()["requests"][0]]
    except AttributeError:
        b = sp_.ScheduleBatch([r])
        metas = [b.prepare_for_extend()["requests"][0], b.prepare_for_decode()["requests"][0]]
    return x, r, metas, imgs[0]


def messages(ctx, nmsg):
    """chat messages of every form"""
    ms, want, urls = [], [], []
    qwen = ctx.flag("qwenvl")
    L._model_architectures = ["Qwen3VLForConditionalGeneration"] if qwen else ["Qwen3ForCausalLM"]
    for i in range(nmsg):
        role = ["system", "user", "assistant", "tool"][(i + nmsg) % 4]
        kind = ctx.pick(f"m{i}", 0, 5)
        d = dict(role=role)
        if kind == 0:
            c, w = None, ""
        elif kind == 1:
            c = w = f"text{i}"
        else:
            c, w = [], []
            for j in range(kind - 2):
                if (i + j) % 2:
                    c.append(dict(type="text", text=f"t{i}.{j}"))
                    w.append(dict(type="text", text=f"t{i}.{j}"))
                else:
                    u = f"u{(7 * i + 3 * j) % 10}.{i}{j}"
                    urls.append(u)
                    c.append(dict(type="image_url", image_url=dict(url=u)))
                    w.append(dict(type="image", image=u) if qwen else dict(type="image_url", image_url=dict(url=u)))
        d["content"] = c
        e = dict(role=role, content=w)
        if ctx.flag(f"name{i}"):
            d["name"] = e["name"] = f"n{i}"
        if role == "assistant" and ctx.flag(f"calls{i}"):
            call = dict(id=f"c{i}", type="function", function=dict(name="f", arguments='{"x": 1}' if ctx.flag("argstr") else {"x": 1}))
            d["tool_calls"] = [call]
            e["tool_calls"] = [dict(call, function=dict(name="f", arguments={"x": 1}))]
        if role == "tool":
            d["tool_call_id"] = e["tool_call_id"] = f"c{i}"
        ms.append(d)
        want.append(e)
    return ms, want, urls


def h_chat(ctx, nmsg, what):
    out = asyncio.run(_chat(ctx, nmsg, what))
    if isinstance(out, BaseException):
        raise out


async def submit(ctx, handler, obj, stream):
    """run a handler up to the point where its requests are sent"""
    e, p = mk_engine()
    L._engine = e
    req = Request(scope_of("/x", "POST"))

    async def gone():
        return False
    req.is_disconnected = gone
    task = None
    try:
        if stream:
            r = await handler(obj, req)
            task = asyncio.ensure_future(r.body_iterator.__anext__())
        else:
            task = asyncio.ensure_future(handler(obj, req))
        await settle()
        if task.done() and not stream:
            task.result()
        return list(p._send_to_tokenizer.items)
    finally:
        if task is not None:
            task.cancel()
        if p._loop_task is not None:
            p._loop_task.cancel()
        await asyncio.gather(*[t for t in (task,) if t is not None], return_exceptions=True)


async def _chat(ctx, nmsg, what):
    try:
        ms, want, urls = messages(ctx, nmsg) if what == "messages" else ([dict(role="user", content="hi")], [dict(role="user", content="hi")], [])
        vals = fields(ctx, True) if what == "fields" else {}
        stream = ctx.flag("stream")
        extra = {}
        wkw = {}
        parser = "qwen3" if what == "template" and ctx.flag("reasoning") else None
        if what == "template":
            if ctx.flag("tools"):
                tool = dict(type="function", function=dict(name="f", description="d", parameters={"type": "object"}))
                extra["tools"] = [L.Tool(**tool)]
                wkw["tools"] = [tool]
                if ctx.flag("choice"):
                    extra["tool_choice"] = "auto"
            k = ctx.pick("kw", 0, 2)
            if k:
                extra["chat_template_kwargs"] = {"enable_thinking": False} if k == 1 else {"zz": 3}
                wkw.update(extra["chat_template_kwargs"])
            if parser:
                wkw.setdefault("enable_thinking", True)
        fallback = what == "messages" and ctx.flag("notok")
        tok = None if fallback else Tok()
        L._tokenizer = tok
        cfg = config(served_model_name="m", model_path="m", reasoning_parser=parser, tool_call_parser=None)
        L.get_global_config = lambda: cfg
        obj = L.ChatCompletionRequest.model_construct(messages=[L.ChatMessage(**m) for m in ms], stream=stream, **extra, **vals)
        sent = await submit(ctx, L.openai_chat_completions, obj, stream)
        ctx.check(len(sent) == 1, "one chat is one request")
        raw = sent[0]
        if fallback:
            pos = 0
            for m, w in zip(ms, want):
                k = raw["text"].find(f"<|im_start|>{m['role']}", pos)
                ctx.check(k >= 0, "fallback prompt: messages in order")
                pos = k + 1
                if not isinstance(w["content"], list):
                    ctx.check(raw["text"][k:].startswith(f"<|im_start|>{m['role']}\n{w['content']}<|im_end|>"), "fallback prompt: a message's text")
            ctx.check(raw["text"].endswith("<|im_start|>assistant\n"), "fallback prompt asks for the reply")
        else:
            ctx.check(raw["text"] == "PROMPT" and len(tok.seen) == 1, "the prompt is the rendered chat template")
            got, kw = tok.seen[0]
            ctx.check(got == want, "the chat template sees every message, in order, as given")
            ctx.check(kw == wkw, "the chat template gets the tools and template arguments of the request")
        travel(ctx, raw, vals, urls or None, stream)
        ctx.reach(what)
        return None
    except BaseException as ex:  # noqa
        return ex


def travel(ctx, raw, vals, urls, stream, default=None):
    ctx.check(raw.get("image_data") == urls, "the images reach the engine in order")
    default, eos = ctx.int("default_max", 1, 9), ctx.int("eos", 0, 3)
    x, r, metas, img = down(raw, default, eos)
    e = expected(vals)
    e.setdefault("max_new_tokens", default)
    for m in metas:
        s = dict(m["sampling_params"])
        stop = s.pop("stop_token_ids", None)
        ctx.check(stop is not None and len(stop) == 1 and stop[0] == eos, "stop tokens: the end-of-text token")
        ctx.check(set(s) == set(e), "exactly the request's sampling fields reach the model runner")
        for n in e:
            ctx.check(s[n] == e[n], f"sampling field {n} reaches the model runner unchanged")
        ctx.check(m["rid"] == raw["rid"], "the batch carries the request's id")
    ctx.check(sym_and(r.max_new_tokens == e["max_new_tokens"], r.temperature == e.get("temperature", 1.0), r.top_p == e.get("top_p", 1.0),
                      r.top_k == e.get("top_k", -1)), "the scheduler's copy of the sampling fields")
    ctx.check(img == urls and x.stream == stream and r.stream == stream, "images and stream flag on the way")


def h_plain(ctx, what):
    out = asyncio.run(_plain(ctx, what))
    if isinstance(out, BaseException):
        raise out


async def _plain(ctx, what):
    try:
        L.get_global_config = lambda: config(served_model_name="m", model_path="m")
        stream = ctx.flag("stream")
        n = ctx.pick("prompts", 0, 2)
        prompt = "p" if n == 0 else [f"p{i}" for i in range(n)]
        if what == "completions":
            vals = fields(ctx, False)
            obj = L.CompletionRequest.model_construct(prompt=prompt, stream=stream, **vals)
            sent = await submit(ctx, L.openai_completions, obj, stream)
            per = [vals] * max(n, 1)
            imgs = [None] * max(n, 1)
        else:
            names = ["temperature", "top_p", "top_k", "max_new_tokens", "stop_token_ids"]
            given = [x for k, x in enumerate(names) if k == ctx_pick(ctx, "field", 0, len(names)) or ctx_flag(ctx, "others")]
            per = []
            for i in range(max(n, 1)):
                per.append({x: (ctx.real(f"{x}{i}") if x in REALS else [ctx.int(f"{x}{i}", 4, 9)] if x == "stop_token_ids" else ctx.int(f"{x}{i}", -1, 99))
                            for x in given})
            own = n and ctx.flag("own")
            if n and not own:
                per = [per[0]] * n
            by_ids = ctx.flag("ids")
            img = ctx.flag("image")
            obj = L.GenerateRequest.model_construct(
                text=None if by_ids else prompt, input_ids=([[1, i] for i in range(n)] if n else [1, 5]) if by_ids else None,
                sampling_params=per if own else per[0], stream=stream,
                image_data=(([f"im{i}" for i in range(n)] if n else "im") if img else None),
                rid=[f"r{i}" for i in range(n)] if n else "r")
            imgs = [f"im{i}" for i in range(n)] if n and img else ["im" if img else None] * max(n, 1)
            sent = await submit(ctx, L.generate, obj, stream)
        ctx.check(len(sent) == max(n, 1), "one request per prompt")
        if what == "completions":
            for i, raw in enumerate(sent):
                ctx.check(raw["text"] == (prompt if n == 0 else prompt[i]), "prompts in order")
        if what == "completions":
            travel(ctx, sent[0], vals, None, stream)
            for raw in sent[1:]:
                ctx.check(raw["sampling_params"] == sent[0]["sampling_params"], "every prompt has the request's parameters")
        else:
            for i, raw in enumerate(sent):
                ctx.check(raw["rid"] == (f"r{i}" if n else "r"), "request ids in order")
                x, r, metas, im = down(raw, 16, 3)
                ctx.check(im == imgs[i], "images stay with their prompt")
                ctx.check(list(r.input_ids) == (([1, i] if n else [1, 5]) if by_ids else [7, 2 if n else 1]), "the prompt's tokens")
                for m in metas:
                    s = m["sampling_params"]
                    for k, v in per[i].items():
                        if k == "stop_token_ids":
                            ctx.check(sym_and(*[sym_or(*[y == z for y in s[k]]) for z in v + [3]]), "stop tokens: the request's and the end-of-text token")
                        else:
                            ctx.check(s[k] == v, f"sampling field {k} reaches the model runner unchanged")
        ctx.reach(what)
        return None
    except BaseException as ex:  # noqa
        return ex


_memo = {}


def ctx_pick(ctx, name, lo, hi):
    k = (id(ctx_token(ctx)), name)
    if _memo.get("tok") is not ctx_token(ctx):
        _memo.clear()
        _memo["tok"] = ctx_token(ctx)
    if k not in _memo:
        _memo[k] = ctx.pick(name, lo, hi)
    return _memo[k]


def ctx_flag(ctx, name):
    return ctx_pick(ctx, name, 0, 1) == 1


HARNESSES = [
    dict(name="auth", fn=h_auth, reach=["served", "refused"], quick=[dict(extra=0, pathsel="case"), dict(extra=0, pathsel=False), dict(extra=0, pathsel=True)],
         thorough=[dict(extra=2, pathsel=False)], bounds="keys of 1-2 arbitrary characters, headers of up to 9 (11), 14 paths, 5 methods"),
    dict(name="routes", fn=h_routes, reach=["served", "refused"], quick=[dict(roots=True)], thorough=[dict(roots=True)],
         bounds="every registered route and method, 6 authorization headers, 3 host headers, with and without a root path"),
    dict(name="chat", fn=h_chat, reach=[], quick=[dict(nmsg=2, what="messages"), dict(nmsg=1, what="fields"), dict(nmsg=1, what="template")],
         thorough=[dict(nmsg=3, what="messages")], bounds="up to 2 (3) messages of up to 3 parts; every sampling field alone, absent or with all others, any value"),
    dict(name="plain", fn=h_plain, reach=[], quick=[dict(what="completions"), dict(what="generate")], thorough=[dict(what="generate")],
         bounds="a prompt or a batch of up to 2; any field values"),
]
