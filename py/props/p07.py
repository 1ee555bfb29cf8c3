"""P07: reasoning / tool-call parsing is independent of how the text is chunked"""
import asyncio
import dataclasses
import json
import re
import types

import orjson

from .common import *
import symstr
from symstr import SymStr, chars, conc, decode, eqs, mk

import pymllm.parsers.reasoning_parser as rp
import pymllm.parsers.tool_call_parser as tc

BUDGET = {"quick": 110, "thorough": 600}
ASSUMPTIONS = [
    "model output is well formed for its format: in forced-reasoning mode a start tag, if any, leads the text; a JSON tool call gives its name before its arguments",
    "leading and trailing white space of reasoning and content is not significant (the one-shot parser strips it)",
    "tool-call bodies are concretised character by character before json / re run on them (standard library, trusted)",
]
TYPES = ["qwen3", "qwen3-thinking", "deepseek-r1", "glm45", "kimi"]


_DET, _FMT = dict(rp._DETECTOR_MAP), dict(tc._FORMAT_MAP)


def setup(ctx):
    """fresh run; in symbolic runs the tag constants get symbolic-aware methods"""
    symstr.reset(ctx)
    lit = symstr.lit
    for k, c in _DET.items():
        rp._DETECTOR_MAP[k] = dataclasses.replace(c, start=lit(c.start), end=lit(c.end))
    for k, c in _FMT.items():
        tc._FORMAT_MAP[k] = dataclasses.replace(c, bot_token=lit(c.bot_token), end_token=lit(c.end_token) if c.end_token else "")
    tc.json, tc.re = symstr.ConcShim(json), symstr.ConcShim(re)


def strip_eq(a, b):
    a, b = decode(a).strip(), decode(b).strip()
    return eqs(a, b)


def pieces(ctx, text, cuts, name="cut"):
    """text cut at `cuts` symbolic positions (-1: every character by itself)"""
    n = len(text)
    if cuts < 0:
        return [text[i:i + 1] for i in range(n)]
    ps, prev = [], 0
    for k in range(cuts):
        prev = ctx.pick(f"{name}{k}", prev, n)
        ps.append(prev)
    return [text[a:b] for a, b in zip([0] + ps, ps + [n]) if b > a]


def stream(kind, deltas, stream_reasoning=True):
    p = rp.ReasoningParser(kind, stream_reasoning=stream_reasoning)
    R, C = "", ""
    first_r = None
    for i, d in enumerate(deltas):
        r, c = p.parse_stream_chunk(d)
        R, C = R + r, C + c
    r, c = p.flush()
    return R + r, C + c


def compare(ctx, kind, text, deltas, sr):
    force = rp._DETECTOR_MAP[kind].force
    R, C = stream(kind, deltas, sr)
    R1, C1 = stream(kind, [text], sr) if text else ("", "")
    ctx.check(sym_and(eqs(R, R1), eqs(C, C1)), "the split depends on where the stream was cut")
    start = rp._DETECTOR_MAP[kind].start
    if force and start in text and not text.lstrip().startswith(start):
        ctx.reach("late-start")
        return
    nr, nc = rp.ReasoningParser(kind).parse_non_stream(text)
    if nr is not None and len(nr):
        ctx.reach("reasoning")
    ctx.check(strip_eq(R, nr or ""), "streamed reasoning differs from the one-shot result")
    ctx.check(strip_eq(C, nc), "streamed content differs from the one-shot result")


def h_reason_tags(ctx, kinds, a, b, c, cuts):
    """[a free chars] <think> [b free chars] </think> [c free chars], tags optional"""
    setup(ctx)
    kind = TYPES[ctx.pick("kind", 0, kinds - 1)]
    cfg = rp._DETECTOR_MAP[kind]
    has_s, has_e = ctx.flag("has_start"), ctx.flag("has_end")
    A = symstr.sym(ctx, "a", ctx.pick("na", 0, a))
    B = symstr.sym(ctx, "b", b)
    C = symstr.sym(ctx, "c", c)
    text = A + (cfg.start if has_s else "") + B + (cfg.end if has_e else "") + C
    text = decode(text)
    sr = ctx.flag("stream_reasoning") if cuts < 2 else True
    compare(ctx, kind, text, pieces(ctx, text, cuts), sr)


def h_reason_free(ctx, n, cuts):
    """wholly free text: the solver finds the tags and near-tags"""
    setup(ctx)
    kind = TYPES[ctx.pick("kind", 0, 1)]
    text = symstr.sym(ctx, "t", n, 1, 0x2FFF)
    compare(ctx, kind, text, pieces(ctx, text, cuts), True)


# -- tool calls ---------------------------------------------------------
ALPH = '"\\}<a'
FMT = ["qwen25", "hermes", "llama3", "qwen3_coder"]


def call_text(ctx, fmt, k, nval):
    """one well-formed call; the argument value has nval free characters of ALPH"""
    val = "".join(chr(int(ctx.int(f"v{k}_{i}", 0, len(ALPH) - 1)) + 0) for i in range(nval))
    val = "".join(ALPH[ord(c)] for c in val)
    shape = ctx.pick(f"shape{k}", 0, 3)
    name = f"fn{k}"
    if fmt == "qwen3_coder":
        val = val.replace("<", "").replace("\n", "")
        args = {} if shape == 0 else {"x": val or "z"} if shape == 1 else {"x": 3, "y": "q" + val} if shape == 2 else {"x": [1, {"y": 2}]}
        body = "".join(f"<parameter={q}>{v if isinstance(v, str) else json.dumps(v)}</parameter>" for q, v in args.items())
        return name, f"<tool_call><function={name}>{body}</function></tool_call>"
    args = {} if shape == 0 else {"x": val} if shape == 1 else {"x": {"name": val, "a": [1, {}]}, "y": 2} if shape == 2 else {val + "k": None}
    key = "parameters" if fmt == "llama3" else "arguments"
    body = json.dumps({"name": name, key: args}, ensure_ascii=False)
    if ctx.flag(f"compact{k}"):
        body = json.dumps({"name": name, key: args}, ensure_ascii=False, separators=(",", ":"))
    if fmt == "llama3":
        return name, "<|python_tag|>" + body
    return name, f"<tool_call>\n{body}\n</tool_call>"


def assemble(items_list):
    """what an OpenAI client does with streamed tool-call deltas"""
    calls = {}
    order = []
    for it in items_list:
        d = it.to_openai_dict() if not isinstance(it, dict) else it
        i = d["index"]
        if i not in calls:
            calls[i] = {"name": None, "args": "", "id": None}
            order.append(i)
        if d["function"].get("name") is not None:
            calls[i]["name"] = (calls[i]["name"] or "") + d["function"]["name"]
        if d.get("id"):
            calls[i]["id"] = d["id"]
        calls[i]["args"] += conc(d["function"]["arguments"])
    return order, calls


def h_tools(ctx, fmts, ncalls, nval, pre, post, cuts):
    setup(ctx)
    fmt = FMT[ctx.pick("fmt", 0, fmts - 1)]
    n = 1 if fmt == "llama3" else ctx.pick("calls", 0, ncalls)
    text = symstr.sym(ctx, "pre", ctx.pick("npre", 0, pre), 1, 0x2FFF)
    names = []
    for k in range(n):
        nm, t = call_text(ctx, fmt, k, nval)
        names.append(nm)
        text = text + t
        if k + 1 < n:
            text = text + "\n"
    if fmt != "llama3":
        text = text + symstr.sym(ctx, "post", ctx.pick("npost", 0, post), 1, 0x2FFF)
    text = decode(text)
    ctx.assume(mkbool_free(ctx, text, n, fmt))
    ref_c, ref = tc.ToolCallParser(fmt).parse_non_stream(text)
    ctx.check(len(ref) == n and [r.name for r in ref] == names, "one-shot parser loses or invents calls")
    p = tc.ToolCallParser(fmt)
    C, items = "", []
    for d in pieces(ctx, text, cuts):
        c, it = p.parse_stream_chunk(d)
        C, items = C + c, items + it
    C = C + p.flush_content()
    items += p.flush()
    order, calls = assemble(items)
    ctx.check(order == list(range(len(order))), "tool-call indices are not consecutive from 0")
    ctx.check([calls[i]["name"] for i in order] == names, "streamed tool-call names differ from the one-shot result")
    ctx.check(len({calls[i]["id"] for i in order}) == n and None not in {calls[i]["id"] for i in order},
              "a streamed tool call has no id of its own")
    for i, r in zip(order, ref):
        try:
            got = json.loads(calls[i]["args"])
        except json.JSONDecodeError:
            ctx.fail("streamed arguments are not complete JSON", calls[i]["args"])
        ctx.check(got == json.loads(r.arguments), "streamed arguments differ from the one-shot result")
        if got:
            ctx.reach("args")
    ctx.check(strip_eq(C, ref_c), "streamed content differs from the one-shot result")


def mkbool_free(ctx, text, n, fmt):
    """free characters do not themselves complete another call marker"""
    bot = tc._FORMAT_MAP[fmt].bot_token
    return decode(text).count(bot) == n


# -- the chat endpoint --------------------------------------------------
class _Req:
    async def is_disconnected(self):
        return False


def _server():
    import pymllm.server.launch as L
    return L


class FakeEngine:
    def __init__(self, deltas, text):
        self.deltas, self.text = deltas, text
        self.closed = 0

    async def generate_async(self, stream=False, **kw):
        n = len(self.deltas)
        if not stream:
            yield dict(text=self.text, finished=True, finished_reason="eos", prompt_tokens=3, completion_tokens=n)
            return
        for i, d in enumerate(self.deltas):
            last = i == n - 1
            yield dict(delta=d, text="", finished=last, finished_reason="eos" if last else None,
                       prompt_tokens=3, completion_tokens=i + 1)


def run_chat(L, engine, body, reasoning, tools):
    cfg = types.SimpleNamespace(server=types.SimpleNamespace(
        reasoning_parser=reasoning, tool_call_parser=tools, served_model_name="m", model_path="m",
        enable_debug_timing=False))
    L.get_global_config = lambda: cfg
    L._engine = engine
    L._get_engine = lambda: engine
    L._tokenizer = None

    async def go():
        r = await L.openai_chat_completions(L.ChatCompletionRequest(**body), _Req())
        if body.get("stream"):
            out = []
            async for b in r.body_iterator:
                out.append(b)
            return out
        return r.body
    return asyncio.run(go())


def h_chat(ctx, a, b, c, nval, cuts):
    setup(ctx)
    L = _server()
    reasoning = [None, "qwen3", "qwen3-thinking"][ctx.pick("reasoning", 0, 2)]
    use_tools = ctx.flag("tools")
    text = ""
    if reasoning:
        text = symstr.sym(ctx, "a", ctx.pick("na", 0, a), 1, 0x2FFF) if reasoning == "qwen3" else ""
        text = text + "<think>" + symstr.sym(ctx, "b", b, 1, 0x2FFF) + "</think>"
    text = text + symstr.sym(ctx, "c", c, 1, 0x2FFF)
    want_calls = 0
    if use_tools and ctx.flag("call"):
        text = text + call_text(ctx, "qwen25", 0, nval)[1]
        want_calls = 1
    text = decode(text)
    if reasoning:
        ctx.assume(decode(text).count("<think>") == 1)
    ctx.assume(mkbool_free(ctx, text, want_calls, "qwen25"))
    deltas = pieces(ctx, text, cuts) + [""]
    body = dict(model="m", messages=[dict(role="user", content="hi")], stream_reasoning=bool(reasoning == "qwen3" and not use_tools and ctx.flag("sr")))
    if use_tools:
        body["tools"] = [dict(type="function", function=dict(name="fn0"))]
    tp = "qwen25" if use_tools else None
    ev = run_chat(L, FakeEngine(deltas, text), dict(body, stream=True, stream_options=dict(include_usage=True)), reasoning, tp)
    one = json.loads(run_chat(L, FakeEngine(deltas, text), body, reasoning, tp))
    ctx.check(ev[-1] == b"data: [DONE]\n\n" and ev.count(ev[-1]) == 1, "the stream does not end with one [DONE]")
    R, C, fin, calls, roles = "", "", [], [], 0
    for e in ev[:-1]:
        d = json.loads(e[6:])
        ctx.check("error" not in d, "error event", str(d)[:300])
        if not d["choices"]:
            ctx.check(d["usage"] == one["usage"], "usage differs between streamed and one-shot replies")
            continue
        ch = d["choices"][0]
        ctx.check(not fin, "event after the finish reason")
        if ch["finish_reason"]:
            fin.append(ch["finish_reason"])
        R = R + decode(ch["delta"].get("reasoning_content", ""))
        C = C + decode(ch["delta"].get("content", ""))
        calls += ch["delta"].get("tool_calls", [])
        roles += "role" in ch["delta"]
    m = one["choices"][0]
    ctx.check(fin == [m["finish_reason"]], "finish reason differs between streamed and one-shot replies")
    ctx.check(roles == 1, "role is not announced once")
    ctx.check(strip_eq(R, m["message"].get("reasoning_content", "")), "streamed reasoning_content differs from one-shot")
    ctx.check(strip_eq(C, m["message"]["content"] or ""), "streamed content differs from one-shot")
    order, got = assemble(calls)
    ref = m["message"].get("tool_calls", [])
    ctx.check(len(ref) == want_calls, "a tool call is lost or invented")
    ctx.check([got[i]["name"] for i in order] == [r["function"]["name"] for r in ref], "tool-call names differ")
    for i, r in zip(order, ref):
        ctx.check(json.loads(got[i]["args"]) == json.loads(r["function"]["arguments"]), "tool-call arguments differ")
    ctx.reach("chat")


HARNESSES = [
    dict(name="reason_tags", fn=h_reason_tags, quick=[dict(kinds=2, a=1, b=1, c=1, cuts=2)], thorough=[dict(kinds=5, a=2, b=2, c=2, cuts=3)],
         reach=["reasoning"], max_s=60, bounds="texts [a]<tag>[b]</tag>[c] with up to a,b,c free characters and every placement of `cuts` cuts"),
    dict(name="reason_chars", fn=h_reason_tags, quick=[dict(kinds=5, a=1, b=1, c=1, cuts=-1)], thorough=[dict(kinds=5, a=2, b=3, c=2, cuts=-1)],
         reach=["reasoning"], bounds="the same, delivered character by character, all detectors"),
    dict(name="reason_free", fn=h_reason_free, quick=[dict(n=7, cuts=1)], thorough=[dict(n=11, cuts=2)], reach=[],
         bounds="every text of n characters"),
    dict(name="tools", fn=h_tools, quick=[dict(fmts=4, ncalls=1, nval=0, pre=1, post=0, cuts=1)], thorough=[dict(fmts=4, ncalls=2, nval=2, pre=1, post=1, cuts=2)],
         reach=["args"], bounds="0-2 well-formed calls with free text around and free argument characters, every cut"),
    dict(name="tools_chars", fn=h_tools, quick=[dict(fmts=4, ncalls=2, nval=1, pre=0, post=0, cuts=-1)], thorough=[dict(fmts=4, ncalls=2, nval=2, pre=2, post=2, cuts=-1)],
         reach=["args"], bounds="the same, character by character"),
    dict(name="chat", fn=h_chat, quick=[dict(a=0, b=1, c=1, nval=0, cuts=1)], thorough=[dict(a=1, b=1, c=1, nval=1, cuts=2)],
         reach=["chat"], bounds="the chat endpoint, streamed against one-shot"),
]
