"""Drives the real SchedulerProcess (and optionally the real ModelRunnerProcess,
pools and prefix cache) with recorded sockets and a stub model.

Stubs: zmq sockets (in-memory), the neural network (arbitrary next token per
row), torch.tensor for lists that hold symbolic ids.  KV memory is a ghost:
slot -> the token history whose key/value it holds.
"""
import sys
import types

import torch

import pymllm.orchestrator.scheduler_process as sp
import pymllm.orchestrator.model_runner_process as mrp
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from pymllm.mem_cache import radix_cache as rc
from pymllm.mem_cache import memory_pool as mp
from .common import *
from symx import SymReal


class Stop(BaseException):
    pass


class FakeSock:
    def __init__(self, world, kind):
        self.world, self.kind = world, kind

    def recv_pyobj(self, flags=0):
        return self.world.inbox.pop(0)

    def send_pyobj(self, obj, flags=0):
        self.world.sent(obj)

    def close(self, *a):
        pass


class FakePoller:
    def __init__(self, world):
        self.world = world
        self.socks = []

    def register(self, s, flags=0):
        self.socks.append(s)

    def poll(self, timeout=None):
        if timeout:  # idle sleeper
            self.world.idle()
            return []
        w = self.world
        w.deliver()
        if w.inbox:
            return [(s, 1) for s in self.socks if s.kind == "in"]
        return []


class FakeZmq:
    POLLIN, NOBLOCK, PULL, PUSH, PUB, SUB, DONTWAIT = 1, 2, "in", "out", "pub", "sub", 2

    def __init__(self, world):
        self.w = world
        self.Poller = lambda: FakePoller(world)
        self.Context = lambda *a: self
        self.Again = type("Again", (Exception,), {})
        self.ZMQError = type("ZMQError", (Exception,), {})
        self.Socket = FakeSock

    def term(self):
        pass


class FakeIds(list):
    """stands for an integer tensor whose elements are symbolic"""

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def tolist(self):
        return list(self)

    def numel(self):
        return len(self)


class FakeTorch:
    def __getattr__(self, n):
        return getattr(torch, n)

    def tensor(self, data, *a, **k):
        if isinstance(data, list) and any(isinstance(x, (SymInt, SymReal)) for x in data):
            return FakeIds(data)
        return torch.tensor(data, *a, **k)


def as_list(x):
    return list(x) if isinstance(x, FakeIds) else [int(v) for v in x.tolist()]


class RunnerStub:
    """stub of ModelRunner: real pools, ghost memory, arbitrary next tokens"""

    def __init__(self, world):
        self.w = world
        self.device = "cpu"
        c = world.cfg
        self.num_gdn_layers = 1 if c.get("hybrid") else 0
        self.sliding_window_size = c.get("window")
        self.req_to_token_pool = mp.ReqToTokenPool(c["max_reqs"], c["ctx_len"], device="cpu")
        self.token_to_kv_pool_allocator = mp.TokenToKVPoolAllocator(c["kv_size"], device="cpu")
        self.gdn_pool = None
        if c.get("hybrid"):
            self.gdn_pool = GdnGhost(world, c["max_reqs"], c.get("tracks", c["max_reqs"]))
        world.runner = self

    def initialize(self):
        pass

    def shutdown(self):
        pass

    def prepare_forward_batch_extend(self, **kw):
        return types.SimpleNamespace(mode="extend", **kw)

    def prepare_forward_batch_decode(self, **kw):
        return types.SimpleNamespace(mode="decode", **kw)

    def forward(self, fb):
        return self.w.forward(fb)

    def sample(self, logits, fb, **kw):
        return self.w.sample(fb, kw)


class GdnGhost(mp.GDNPool):
    """the real pool; every state tensor entry holds a handle of a token history (0 = zero state = no tokens)"""

    def __init__(self, world, max_reqs, tracks):
        super().__init__(max_reqs, 2, 1, 2, 1, 1, 3, device="cpu",
                         dtype=torch.float32, max_track_slots=tracks)
        self.hist = {0: []}
        self.n_tracks = tracks
        self.w = world

    def reset_states(self, idx):
        super().reset_states(torch.tensor([int(i) for i in idx.tolist()], dtype=torch.int64))

    def history(self, slot):
        """history the state of a slot stands for; None if its parts disagree"""
        vals = set()
        for l in range(self.num_gdn_layers):
            r, c = self.get_layer_state(l)
            vals |= set(r[slot].flatten().tolist()) | set(c[slot].flatten().tolist())
        return self.hist[int(vals.pop())] if len(vals) == 1 else None

    def advance(self, slot, tokens):
        h = len(self.hist)
        self.hist[h] = list(tokens)
        for l in range(self.num_gdn_layers):
            r, c = self.get_layer_state(l)
            r[slot] = h
            c[slot] = h


class World:
    def __init__(self, ctx, cfg, fake_runner=False):
        self.ctx, self.cfg = ctx, cfg
        self.fake_runner = fake_runner
        self.inbox = []
        self.arrivals = {}      # step -> [messages]
        self.step = 0           # loop iterations seen (number of deliver calls)
        self.reqs = {}          # rid -> info
        self.out = []           # messages sent to the detokenizer
        self.ntok = 0
        self.kv = {}            # slot -> history
        self.cur = None
        self.idle_count = 0
        self.delivered_this_iter = False
        rc.time = Clock()
        try:
            import pymllm.mem_cache.mamba_radix_cache as mrc
            mrc.time = Clock()
        except Exception:
            pass
        z = FakeZmq(self)
        sp.zmq = z
        sp.create_zmq_socket = lambda c, kind, addr, bind=False: FakeSock(self, kind)
        mrp.torch = FakeTorch()
        m = types.ModuleType("pymllm.executor.model_runner")
        m.ModelRunner = lambda **kw: RunnerStub(self)
        sys.modules["pymllm.executor.model_runner"] = m
        scfg = types.SimpleNamespace(
            disable_radix_cache=bool(cfg.get("no_cache")),
            enable_mamba_cache=bool(cfg.get("mamba_cache")),
            radix_cache_page_size=cfg.get("page", 1), decode_log_interval=40)
        self.s = sp.SchedulerProcess(
            "in", "out", server_config=scfg, model_config=None,
            max_running_requests=cfg["max_running"],
            max_prefill_tokens=cfg["max_prefill"],
            max_total_tokens=cfg["max_total"],
            eos_token_ids=[cfg.get("eos", 7)],
            default_max_new_tokens=cfg.get("default_new", 2))
        self.s.init_sockets()
        if fake_runner:
            self.s._model_runner = FakeModelRunnerProcess(self)
        else:
            self.s.init_model()
            self.m = self.s._model_runner
            real_fwd, real_free = self.m._forward_batch, self.m._free_rid_resources

            def fwd(batch):
                self.begin_batch(batch)
                r = real_fwd(batch)
                self.end_batch(batch, r)
                return r

            def free(rid):
                self.freed(rid)
                return real_free(rid)

            self.m._forward_batch = fwd
            self.m._free_rid_resources = free

    # ---- requests ----------------------------------------------------
    def add(self, rid, tokens, max_new, at=0, stream=False, stop=(), sampling=None,
            image=None):
        """image: None (text only) or a small int naming the picture behind the prompt's tokens"""
        p = dict(sampling or {})
        if max_new is not None:
            p["max_new_tokens"] = max_new
        if stop:
            p["stop_token_ids"] = list(stop)
        msg = TokenizedGenerateReqInput(
            rid=rid, input_text="", input_ids=list(tokens),
            mm_inputs=None if image is None else {"image_inputs": {
                "pixel_values": torch.full((2, 1), float(image)),
                "image_grid_thw": torch.tensor([[1, 1, 2]])}},
            sampling_params=p, stream=stream)
        self.reqs[rid] = dict(
            prompt=list(tokens), max_new=max_new if max_new is not None else self.cfg.get("default_new", 2),
            stop=list(stop) + [self.cfg.get("eos", 7)], produced=[], prefills=0, frees=0,
            finished=None, stream=stream, emitted=[], aborted=False, arrived=False,
            prefix=0, done=False, at=at, image=image)
        self.arrivals.setdefault(at, []).append(msg)

    def abort(self, rid, at):
        """the client's abort travels behind its own request on the same socket"""
        self.ctx.assume(at >= self.reqs[rid]["at"])
        self.arrivals.setdefault(at, []).append({"rid": rid, "abort": True})

    def deliver(self):
        """called by the poller; hands over what has arrived by now, once per loop turn"""
        if not self.delivered_this_iter:
            self.delivered_this_iter = True
            for m in self.arrivals.pop(self.step, []):
                self.inbox.append(m)
                if isinstance(m, dict):
                    self.reqs[m["rid"]]["aborted"] = True
                else:
                    self.reqs[m.rid]["arrived"] = True
            self.step += 1

    def idle(self):
        self.idle_count += 1

    # ---- batches -----------------------------------------------------
    def begin_batch(self, batch):
        ctx = self.ctx
        self.cur = batch
        mode = batch["forward_mode"]
        metas = batch["requests"]
        rids = [m["rid"] for m in metas]
        ctx.check(len(set(rids)) == len(rids), "a request appears twice in one batch")
        ctx.check(len(rids) == batch["batch_size"] and len(rids) > 0, "batch size mismatch")
        running = [r for r, q in self.reqs.items()
                   if q["prefills"] and not q["frees"]]
        if mode == "extend":
            total = 0
            for r in rids:
                q = self.reqs[r]
                ctx.check(q["prefills"] == 0, "a request is prefilled twice")
                ctx.check(not q["aborted"], "an aborted request is scheduled for prefill")
                q["prefills"] += 1
                total += len(q["prompt"])
            ctx.check(total <= self.cfg["max_prefill"], "prefill batch exceeds the prefill token limit")
            ctx.check(len(running) + len(rids) <= self.cfg["max_running"],
                      "more running requests than the limit")
            charge = sum(len(self.reqs[r]["prompt"]) + len(self.reqs[r]["produced"]) - self.reqs[r]["prefix"]
                         for r in running)
            ctx.check(charge + total <= self.cfg["max_total"],
                      "prefill admitted beyond the token budget")
            ctx.reach("extend")
            flat = []
            for r, L in zip(rids, batch["seq_lens"]):
                flat += self.reqs[r]["prompt"]
                ctx.check(L == len(self.reqs[r]["prompt"]), "prefill length differs from the prompt")
            ctx.check(seq_eq(batch["input_ids"], flat), "prefill input is not the prompts")
        else:
            ctx.reach("decode")
            for r, L, t in zip(rids, batch["seq_lens"], batch["input_ids"]):
                q = self.reqs[r]
                ctx.check(q["prefills"] == 1 and not q["frees"], "decode of a request that is not running")
                ctx.check(q["finished"] is None, "decode of a finished request")
                ctx.check(not q["aborted"], "decode of an aborted request")
                ctx.check(L == len(q["prompt"]) + len(q["produced"]),
                          "decode length differs from prompt + generated tokens")
                ctx.check(seq_eq([t], q["produced"][-1:]), "decode input is not the last generated token")

    def end_batch(self, batch, result):
        for m, o in zip(batch["requests"], result["outputs"]):
            q = self.reqs[m["rid"]]
            self.ctx.check(o["rid"] == m["rid"], "result rows in another order")
            if "prefix_len" in o:
                q["prefix"] = o["prefix_len"]
            self.produce(m["rid"], o["output_token_ids"])

    def produce(self, rid, ids):
        q = self.reqs[rid]
        q["produced"] += list(ids)

    def freed(self, rid):
        q = self.reqs[rid]
        q["frees"] += 1
        self.ctx.check(q["prefills"] == 1 and q["frees"] == 1,
                       "resources of a request released twice or before it ran")

    # ---- the stub network --------------------------------------------
    def forward(self, fb):
        ctx, run = self.ctx, self.runner
        ids = as_list(fb.input_ids)
        out_loc = [int(x) for x in fb.out_cache_loc.tolist()]
        slots = [int(x) for x in fb.req_pool_indices.tolist()]
        seqs = [int(x) for x in fb.seq_lens.tolist()]
        rids = [m["rid"] for m in self.cur["requests"]]
        ctx.check(len(set(slots)) == len(slots), "two requests share a request slot")
        if fb.mode == "extend":
            ext = [int(x) for x in fb.extend_seq_lens.tolist()]
            pre = [int(x) for x in fb.extend_prefix_lens.tolist()]
        else:
            ext = [1] * len(rids)
            pre = [s - 1 for s in seqs]
        ctx.check(sum(ext) == len(ids) == len(out_loc), "token and slot counts differ")
        ctx.check(len(set(out_loc)) == len(out_loc), "one KV slot written for two tokens")
        if fb.mode == "extend":
            px = getattr(fb, "pixel_values", None)
            want = [float(self.reqs[r]["image"]) for r in rids
                    if self.reqs[r]["image"] is not None for _ in range(2)]
            ctx.check((px.flatten().tolist() if px is not None else []) == want,
                      "the batch's pictures are not those of its requests, in order")
        off = 0
        for i, r in enumerate(rids):
            q = self.reqs[r]
            full = q["prompt"] + q["produced"]
            ctx.check(ext[i] >= 1, "nothing to compute for a request")
            ctx.check(pre[i] + ext[i] == seqs[i] == len(full), "lengths do not add up to the sequence")
            if fb.mode == "extend" and pre[i]:
                ctx.reach("prefix reused")
            new = ids[off: off + ext[i]]
            loc = out_loc[off: off + ext[i]]
            off += ext[i]
            ctx.check(seq_eq(new, full[pre[i]:]), "computed tokens are not the uncached rest of the sequence")
            for j, s in enumerate(loc):
                ctx.check(1 <= s <= self.cfg["kv_size"], "KV slot out of range")
                self.kv[s] = (q["image"], full[: pre[i] + j + 1])
            if run.gdn_pool is not None:
                h = run.gdn_pool.history(slots[i])
                ctx.check(h is not None and seq_eq(h, full[: pre[i]]),
                          "recurrent state does not correspond to the reused prefix")
                run.gdn_pool.advance(slots[i], full)
        # what attention reads: the whole row of every request of the batch
        for i, r in enumerate(rids):
            q = self.reqs[r]
            full = q["prompt"] + q["produced"]
            row = [int(x) for x in run.req_to_token_pool.req_to_token[slots[i], : seqs[i]].tolist()]
            for p, s in enumerate(row):
                h = self.kv.get(s)
                ctx.check(h is not None, "a request reads a KV slot never written")
                img, h = h
                ctx.check(len(h) == p + 1, "a request reads the KV of another position")
                ctx.check(img == q["image"], "a request reads the KV of another image")
                ctx.check(seq_eq(h, full[: p + 1]),
                          "a request reads the KV of another token sequence")
        return None

    def sample(self, fb, kw):
        n = len(self.cur["requests"])
        return FakeIds([self.token(m["rid"]) for m in self.cur["requests"]])

    def token(self, rid):
        self.ntok += 1
        return self.ctx.int(f"tok{self.ntok}", 0, self.cfg.get("vocab", INT32))

    # ---- outputs -----------------------------------------------------
    def sent(self, o):
        ctx = self.ctx
        rid = o["rids"][0]
        q = self.reqs[rid]
        ctx.check(q["finished"] is None, "output after the final message")
        ctx.check(o["read_offsets"][0] == len(q["emitted"]), "read offset does not continue the stream")
        q["emitted"] += list(o["decode_ids"])
        ctx.check(seq_eq(q["emitted"], q["produced"]), "emitted tokens are not the generated tokens")
        ctx.check(seq_eq(o["output_ids"], q["produced"]), "output_ids are not the generated tokens")
        ctx.check(o["completion_tokens"][0] == len(q["produced"]), "completion count wrong")
        ctx.check(o["prompt_tokens"][0] == len(q["prompt"]), "prompt count wrong")
        fin = o["finished_reasons"][0]
        if fin is None:
            ctx.check(q["stream"], "intermediate output of a non-streaming request")
            ctx.reach("streamed")
        else:
            q["finished"] = fin
            last = q["produced"][-1]
            is_stop = sym_or(*[mkbool(term(last) == term(t)) for t in q["stop"]])
            if fin == "eos":
                ctx.check(is_stop, "finished with 'eos' but the last token is no stop token")
                ctx.reach("eos")
            else:
                ctx.check(fin == "length", f"unexpected finish reason {fin}")
                ctx.check(len(q["produced"]) >= q["max_new"], "finished with 'length' too early")
                ctx.check(sym_not(is_stop), "stop token reported as 'length'")
                ctx.reach("length")

    def check_progress(self):
        """after each loop turn"""
        ctx = self.ctx
        for r, q in self.reqs.items():
            if not q["produced"] or q["aborted"]:
                continue
            if q["stream"]:
                ctx.check(len(q["emitted"]) == len(q["produced"]),
                          "generated tokens of a streaming request were held back")
            last = q["produced"][-1]
            stop = sym_or(*[mkbool(term(last) == term(t)) for t in q["stop"]])
            if q["finished"] is None:
                ctx.check(sym_not(stop), "a stop token did not finish the request")
                ctx.check(len(q["produced"]) < max(1, q["max_new"]),
                          "the token limit did not finish the request")

    # ---- main loop ---------------------------------------------------
    def run(self, max_steps=40):
        """the real event loop, until everything is done"""
        w = self

        orig = self.s.stream_output

        def stream_output():
            orig()
            w.check_progress()
            w.delivered_this_iter = False
            if w.all_done():
                raise Stop()
            w.ctx.check(w.step <= max_steps, "requests do not finish")

        self.s.stream_output = stream_output
        try:
            self.s.event_loop()
        except Stop:
            pass
        self.s.stream_output = orig

    def all_done(self):
        if self.arrivals:
            return False
        for q in self.reqs.values():
            if q["aborted"]:
                if q["prefills"] and not q["frees"]:
                    return False
            elif q["finished"] is None:
                return False
        return True

    def final(self):
        ctx = self.ctx
        for r, q in self.reqs.items():
            if not q["aborted"]:
                ctx.check(q["finished"] is not None, "request without a final message")
                ctx.check(seq_eq(q["emitted"], q["produced"]), "final output incomplete")
            ctx.check(q["frees"] == q["prefills"], "resources of a request not released")

    def final_pools(self):
        """no KV slot or request slot lost or duplicated once nothing runs"""
        ctx, run = self.ctx, self.runner
        c = self.cfg
        al = run.token_to_kv_pool_allocator
        cache = self.m._radix_cache
        ctx.check(al.available_size() + cache.total_size() == c["kv_size"],
                  "free + cached KV slots differ from the pool size")
        ctx.check(cache.protected_size() == 0, "cache entries stay locked")
        cache.evict(10**6)
        ctx.check(cache.total_size() == 0, "cache entries cannot be evicted")
        ctx.check(al.available_size() == c["kv_size"], "KV slots lost")
        got = al.alloc(c["kv_size"])
        ctx.check(got is not None and sorted(int(x) for x in got.tolist()) == list(range(1, c["kv_size"] + 1)),
                  "KV free list does not hold every slot exactly once")
        sl = run.req_to_token_pool.alloc(c["max_reqs"])
        ctx.check(sl is not None and len(set(sl)) == len(sl) == c["max_reqs"],
                  "request free list does not hold every slot exactly once")
        if run.gdn_pool is not None:
            t = []
            while True:
                x = run.gdn_pool.alloc_track_slot()
                if x is None:
                    break
                t.append(x)
                if len(t) > 50:
                    break
            b = c["max_reqs"] + 1
            ctx.check(sorted(t) == list(range(b, b + run.gdn_pool.n_tracks)),
                      "state snapshot slots lost or duplicated")


class FakeModelRunnerProcess:
    def __init__(self, world):
        self.w = world

    def _forward_batch(self, batch):
        w = self.w
        w.begin_batch(batch)
        outs = []
        for m in batch["requests"]:
            q = w.reqs[m["rid"]]
            o = {"rid": m["rid"], "output_token_ids": [w.token(m["rid"])]}
            if batch["forward_mode"] == "extend":
                w.ntok += 1
                o["prefix_len"] = w.ctx.int(f"pre{w.ntok}", 0, len(q["prompt"]) - 1) \
                    if len(q["prompt"]) > 1 else 0
            outs.append(o)
        r = {"batch_id": batch.get("batch_id"), "outputs": outs}
        w.end_batch(batch, r)
        return r

    def _free_rid_resources(self, rid):
        self.w.freed(rid)

    def shutdown(self):
        pass
