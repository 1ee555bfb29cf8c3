"""P15: what crosses the shared-memory / CUDA-IPC path arrives as it was sent, and its memory is reused only then"""
import collections
import contextlib
import copy
import functools
import os
import queue as stdq
import types

import numpy as np

from .common import *
import symx

import pymllm.orchestrator.cuda_ipc_transport as ct
import pymllm.orchestrator.shared_memory_queue as sq
import pymllm.orchestrator.scheduler_process as sp_
import pymllm.orchestrator.tokenizer_process as tp
from pymllm.engine.io_struct import TokenizedGenerateReqInput

BUDGET = {"quick": 70, "thorough": 400}
ASSUMPTIONS = [
    "POSIX shared memory, file locks, multiprocessing queues and CUDA IPC handles do what they document (in-process stand-ins)",
    "a GPU copy takes effect when its stream is synchronised at the latest, and an exported handle makes the importer wait for the exporter's earlier copies",
    "torch moves bytes as it documents; tensors hold pairwise distinct bytes patterns",
    "a receiver that dies or drops a message it took is outside (its chunk stays occupied)",
]
NS = types.SimpleNamespace
W = None  # the world of the current path


# -- stand-ins -------------------------------------------------------------
class FakeShm:
    segs = {}

    def __init__(self, name=None, create=False, size=0):
        if create:
            if name is None:
                name = f"psm_{len(FakeShm.segs)}_{W.serial()}"
            bs = os.fsencode(name)
            if not bs or b"/" in bs.lstrip(b"/") or b"\0" in bs or len(bs) > 250:
                raise OSError(22, "Invalid argument", name)
            if name in FakeShm.segs:
                raise FileExistsError(17, "File exists", name)
            if size <= 0:
                raise ValueError("'size' must be a positive number different from zero")
            FakeShm.segs[name] = bytearray(size)
        elif name not in FakeShm.segs:
            raise FileNotFoundError(2, "No such file or directory", name)
        self.name, self._b = name, FakeShm.segs[name]
        self.size = len(self._b)

    @property
    def buf(self):
        return memoryview(self._b)

    def close(self):
        pass

    def unlink(self):
        if FakeShm.segs.pop(self.name, None) is None:
            raise FileNotFoundError(2, "No such file or directory", self.name)


class FakePickle:
    """pickling as a deep copy, so that values may be symbolic"""

    @staticmethod
    def dumps(o, *a, **k):
        W.pickled.append(copy.deepcopy(o))
        return b"P%07d" % (len(W.pickled) - 1) + b"." * 300

    @staticmethod
    def loads(b, *a, **k):
        b = bytes(b)
        if b[:1] != b"P" or len(b) < 308:
            raise EOFError("pickle data was truncated")
        return copy.deepcopy(W.pickled[int(b[1:8])])


class GPU(torch.Tensor):
    """a CPU tensor that says it lives on cuda:0; copies into it are performed when its stream is synchronised"""
    is_cuda = property(lambda s: True)
    device = property(lambda s: torch.device("cuda:0"))

    def copy_(self, src, non_blocking=False):
        W.stream().append((self, src))
        return self

    @classmethod
    def __torch_function__(cls, func, types_, args=(), kwargs=None):
        n = getattr(func, "__name__", "")
        kwargs = dict(kwargs or {})
        if n not in ("view", "reshape", "numel", "nelement", "element_size", "size", "stride", "storage_offset", "untyped_storage", "is_contiguous", "dim",
                     "__get__", "as_subclass", "flatten", "__getitem__", "narrow", "set_", "data_ptr", "is_shared"):
            W.sync()
        if n in ("to", "cpu"):
            dev = kwargs.pop("device", None) or next((a for a in args[1:] if isinstance(a, (str, torch.device))), None)
            t = plain(args[0]).clone()
            return t if n == "cpu" or (dev is not None and "cuda" not in str(dev)) else t.as_subclass(GPU)
        return super().__torch_function__(func, types_, args, kwargs)


def plain(t):
    return torch.Tensor.as_subclass(t, torch.Tensor)


class World:
    def __init__(self, share_ok=True):
        self.n, self.pickled, self.streams, self.who, self.share_ok, self.handles = 0, [], collections.defaultdict(list), "sender", share_ok, {}
        FakeShm.segs = {}

    def serial(self):
        self.n += 1
        return self.n

    def stream(self):
        return self.streams[self.who]

    def sync(self, who=None):
        q = self.streams[who or self.who]
        while q:
            d, s = q.pop(0)
            plain(d).copy_(plain(s))


class FakeCuda:
    class Event:
        def __init__(self, *a, **k):
            pass

        def record(self, *a):
            pass

        def synchronize(self):
            W.sync()

        def wait(self, *a):
            pass

    Stream = None

    @staticmethod
    def device(d):
        return contextlib.nullcontext()

    @staticmethod
    def synchronize(*a, **k):
        W.sync()

    @staticmethod
    def current_stream(*a):
        return NS(synchronize=lambda: W.sync(), wait_event=lambda e: None, wait_stream=lambda s: None, record_event=lambda *a: FakeCuda.Event(), query=lambda: not W.stream())

    default_stream = current_stream

    @staticmethod
    def current_device():
        return 0

    @staticmethod
    def is_available():
        return True


class FakeStorage:
    @staticmethod
    def _new_shared_cuda(*h):
        W.sync("sender")  # the handle carries the exporter's event
        return W.handles[h[0]]


class TorchShim:
    cuda = FakeCuda
    UntypedStorage = FakeStorage

    def __getattr__(self, n):
        return getattr(torch, n)

    @staticmethod
    def _new(f, *a, device=None, **k):
        t = f(*a, **k)
        return t.as_subclass(GPU) if device is not None and "cuda" in str(device) else t

    def empty(self, *a, **k):
        t = self._new(torch.empty, *a, **k)
        if t.numel():
            plain(t).reshape(-1).view(torch.int8).fill_(77)
        return t

    def zeros(self, *a, **k):
        return self._new(torch.zeros, *a, **k)

    def empty_like(self, x, **k):
        t = torch.empty(x.shape, dtype=k.get("dtype", x.dtype))
        return t.as_subclass(GPU) if x.is_cuda else t


def _share(self):
    if not W.share_ok:
        raise RuntimeError("no IPC")
    W.handles[id(self)] = self
    return (id(self),)


class NoThread:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass

    def is_alive(self):
        return False

    join = start


class NoLock:
    def __enter__(self):
        assert not getattr(self, "held", False), "deadlock"
        self.held = True

    def __exit__(self, *a):
        self.held = False

    acquire, release = lambda s, *a: True, lambda s: None


POOLS = []


class FakeTime:
    """one pass of the recycler per call"""
    @staticmethod
    def sleep(s):
        for p in POOLS:
            p._stop = True

    monotonic = time = perf_counter = staticmethod(lambda: 0.0)


def fake_open(*a, **k):
    return contextlib.nullcontext(NS(close=lambda: None)) if len(a) < 2 or a[1] != "a" else NS(close=lambda: None, fileno=lambda: 0, __enter__=None)


class Fl:
    LOCK_EX, LOCK_UN = 2, 8

    @staticmethod
    def flock(f, op):
        pass


torch.UntypedStorage._share_cuda_ = _share
torch.Tensor.share_memory_ = lambda self: self
ct.torch = sq.torch = TorchShim()
ct.fcntl = Fl
ct.open = fake_open
ct.time = FakeTime
ct.threading = NS(Thread=NoThread, Lock=NoLock, RLock=NoLock, Event=None, Condition=None)
ct.shared_memory = NS(SharedMemory=FakeShm)
sq.SharedMemory = FakeShm
sq.pickle = FakePickle
ct.TransportProxyTensor.is_cuda = property(lambda s: True)
ct.TransportProxyTensor.device = property(lambda s: torch.device("cuda:0"))


def mkpool(size, consumers):
    POOLS.clear()
    p = ct.MmItemMemoryPool(memory_size=size, num_consumers=consumers, device=0)
    POOLS.append(p)
    return p


def recycle(p):
    p._stop = False
    p._recycle_loop()
    p._stop = False


# -- the pool alone, sizes symbolic -------------------------------------------
class Src:
    def __init__(self, n, e):
        self.n, self.e = n, e

    def numel(self):
        return self.n

    nelement = numel

    def element_size(self):
        return self.e

    @property
    def nbytes(self):
        return self.n * self.e


class Mem:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __getitem__(self, s):
        return Mem(self.lo + (0 if s.start is None else s.start), self.lo + s.stop if s.stop is not None else self.hi)

    def narrow(self, d, a, n):
        return Mem(self.lo + a, self.lo + a + n)


def h_pool(ctx, ops, consumers, es=(1, 4)):
    global W
    W = World()
    S = ctx.int("size", 1, 4096)
    keep = ct.torch.empty
    p = None
    try:
        ct.torch.empty = lambda *a, **k: NS(contiguous=lambda: Mem(0, S))
        p = mkpool(S, consumers)
    finally:
        del ct.torch.empty
    p.memory_pool = Mem(0, S)
    assert keep
    live = []  # [lo, hi, meta, consumers left]; a chunk leaves the list in a recycler pass once its consumers are done
    k = 0
    for i in range(ops):
        op = ctx.pick(f"op{i}", 0, 2) if i else 0
        if op == 0:
            n, e = ctx.int(f"n{k}", 0, 4096), es[ctx.pick(f"e{k}", 0, len(es) - 1)]
            k += 1
            need = n * e
            meta, sl = p.get_slice_with_flag(Src(n, e))
            if sl is None:
                ctx.check(meta is None, "no slice, no flag")
                # the free regions: between the chunks still held
                order = []
                for c in live:
                    j = 0
                    while j < len(order) and bool(sym_or(order[j][0] < c[0], sym_and(order[j][0] == c[0], order[j][1] <= c[1]))):
                        j += 1
                    order.insert(j, c)
                pos = 0
                for c in order + [[S, S]]:
                    ctx.check(sym_or(need == 0, c[0] - pos < need), "an allocation is refused only if no free region is large enough")
                    pos = c[1]
                ctx.reach("refused")
                continue
            ctx.check(sl.hi - sl.lo == need, "a chunk has the size of its tensor")
            ctx.check(sym_and(sl.lo >= 0, sl.hi <= S), "a chunk lies inside the pool")
            for c in live:
                ctx.check(sym_or(need == 0, c[1] == c[0], sl.hi <= c[0], c[1] <= sl.lo), "a chunk is not handed out again before all its consumers are done")
                ctx.check(c[2]["handle"] != meta["handle"], "chunks in use have flags of their own")
            shm, arr = ct.ShmSyncBuffer.open(meta)
            ctx.check(float(arr[0]) == 0, "a fresh chunk's flag is zero")
            live.append([sl.lo, sl.hi, meta, consumers])
            ctx.reach("allocated")
        elif op == 1:
            w = [c for c in live if c[3]]
            if not w:
                return
            c = w[ctx.pick(f"c{i}", 0, len(w) - 1)]
            ct._increment_sync_flag(c[2])
            c[3] -= 1
        else:
            recycle(p)
            if any(not c[3] for c in live):
                ctx.reach("recycled")
            live = [c for c in live if c[3]]
    for c in live:
        while c[3]:
            ct._increment_sync_flag(c[2])
            c[3] -= 1
    recycle(p)
    meta, sl = p.get_slice_with_flag(Src(S, 1))
    ctx.check(sl is not None and sym_and(sl.lo == 0, sl.hi == S), "once everything is consumed the whole pool is free again")


# -- end to end ----------------------------------------------------------------
DT = [torch.float32, torch.int64, torch.bool, torch.bfloat16, torch.int8]


def mktensor(w, kind, dt, lay):
    shape = [(3,), (2, 3), (), (0,), (1, 2, 2), (2, 0)][kind]
    n = int(np.prod(shape)) if shape else 1

    def fill(shape):
        m = int(np.prod(shape)) if shape else 1
        v = torch.tensor([w.serial() for _ in range(m)])
        if dt == torch.bool:
            v = (v * 2654435761 // 7) % 2 == 1
        elif dt == torch.bfloat16:
            v = v % 251
        elif dt == torch.int8:
            v = v % 127
        return v.to(dt).reshape(shape)
    if lay == 0 or n == 0 or not shape:
        return fill(shape)
    if lay == 1:
        return fill(shape[::-1]).permute(*reversed(range(len(shape))))
    if lay == 2:
        return fill((shape[0] * 2 + 1, *shape[1:]))[1::2]
    return fill((1, *shape[1:])).expand(shape)


class FakeQ:
    """a multiprocessing queue: every object is pickled on its way"""

    def __init__(self, maxsize=0):
        self.q, self.seen = collections.deque(), []

    def put(self, o, *a, **k):
        self.q.append(ship(o))

    def get(self, *a, **k):
        if not self.q:
            raise stdq.Empty
        self.seen.append(self.q.popleft())
        return self.seen[-1]

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)

    def close(self):
        pass


sq.Queue = FakeQ


def ship(o):
    if isinstance(o, ct.TransportProxyTensor):
        st = o.__getstate__()
        n = torch.empty(0, dtype=o.dtype).as_subclass(ct.TransportProxyTensor)
        n.__setstate__({**st, "tensor_data": ship(st["tensor_data"])})
        return n
    if isinstance(o, ct.CudaIpcTensorTransportProxy):
        n = copy.copy(o)
        n._state = {k: ship(v) for k, v in o._state.items()}
        return n
    if isinstance(o, GPU):
        W.sync("sender")
        return plain(o).clone().as_subclass(GPU)
    if isinstance(o, torch.Tensor):
        return o.clone()
    if isinstance(o, dict):
        return type(o)((k, ship(v)) for k, v in o.items())
    if isinstance(o, tuple) and hasattr(o, "_fields"):
        return type(o)(*map(ship, o))
    if isinstance(o, (list, tuple)):
        return type(o)(map(ship, o))
    return copy.deepcopy(o)




def same(ctx, a, b, sent_gpu_ok=True):
    if isinstance(a, torch.Tensor):
        ctx.check(isinstance(b, torch.Tensor), "a tensor arrives as a tensor")
        ctx.check(tuple(a.shape) == tuple(b.shape) and a.dtype == b.dtype, "shape and dtype arrive")
        ctx.check(torch.equal(plain(a), plain(b)), "a tensor's values arrive")
        return
    ctx.check(type(a) is type(b), "containers arrive as what they were")
    if isinstance(a, dict):
        ctx.check(list(a) == list(b), "keys arrive in order")
        for k in a:
            same(ctx, a[k], b[k])
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), "lists arrive whole")
        for x, y in zip(a, b):
            same(ctx, x, y)
    else:
        ctx.check(a == b, "values arrive")


RIDS = ["r1", "a/b", "../x", "é" * 120, "x" * 300, "r 1"]


def h_path(ctx, mode, msgs, kinds, layouts, dts=(torch.float32,), pool=0, share=True, flow=True, acts=3, meta=False):
    """tokenizer process -> queue -> scheduler process"""
    global W
    W = World(share)
    w = W
    q = sq.TensorQueue(maxsize=10, transport_mode=mode, pool=None)
    p = None
    t = tp.TokenizerProcess.__new__(tp.TokenizerProcess)
    s = sp_.SchedulerProcess.__new__(sp_.SchedulerProcess)
    t._shared_queue = s._shared_queue = q
    t._enable_shared_queue = s._enable_shared_queue = True
    t._transport_mode = s._tensor_transport_mode = mode
    t._ipc_pool = None
    s._waiting_queue = collections.deque()
    if mode == "cuda_ipc_pool":
        p = mkpool(pool, 1)
        t._ensure_pool = lambda: setattr(q, "_pool", p)
    sent, got = [], []
    nrid = 0

    def send(i):
        nonlocal nrid
        W.who = "sender"
        def one(j):
            kind = kinds[ctx.pick(f"k{i}.{j}", 0, len(kinds) - 1)]
            lay = layouts[ctx.pick(f"l{i}.{j}", 0, len(layouts) - 1)] if len(layouts) > 1 else layouts[0]
            return mktensor(w, kind, dts[ctx.pick(f"d{i}.{j}", 0, len(dts) - 1)] if len(dts) > 1 else dts[0], lay)
        dev = (lambda x: x.as_subclass(GPU))
        if not flow:
            one = functools.cache(one)
        g1 = one(0)
        mm = {"z": None, "a": dev(g1)}
        if not flow:
            mm["n"] = [dev(one(1)), 5, (mktensor(w, 1, torch.float32, 0), "x", None)]
            mm["p"] = {"t": (dev(one(0)), 3), "i": ctx.int(f"v{i}", 0, 9)}
        if meta and ctx.flag("nomm"):
            mm = None
        want = ship(mm)
        rid = RIDS[ctx.pick("rid", 0, len(RIDS) - 1)] if meta else f"r{nrid}"
        nrid += 1
        req = TokenizedGenerateReqInput(rid=rid, input_text="t" + rid, input_ids=[ctx.int(f"id{i}", 0, 9), i], mm_inputs=mm,
                                        sampling_params={"top_k": ctx.int(f"tk{i}", 0, 9)}, stream=bool(i % 2) or (meta and ctx.flag("st")),
                                        return_logprob=meta and ctx.flag("lp"), logprob_start_len=ctx.int(f"ls{i}", -1, 9),
                                        top_logprobs_num=ctx.int(f"tn{i}", 0, 9), lora_path="l" if meta else None, session_params={"s": 1} if meta else None)
        fields = {k: copy.deepcopy(getattr(req, k)) for k in ("rid", "input_text", "input_ids", "sampling_params", "stream", "return_logprob",
                                                              "logprob_start_len", "top_logprobs_num", "lora_path", "session_params")}
        t._send_via_shared_queue(req)
        if mm is not None:
            W.sync("sender")if False else None
            same(ctx, want, mm)  # the sender's own tensors stay as they are
        sent.append((fields, want))

    def receive():
        W.who = "receiver"
        s._recv_from_shared_queue()
        for m in q._queue.seen:
            ct.unwrap_mm_inputs_from_ipc(m[2])  # a second look at a message changes nothing
        q._queue.seen.clear()
        while s._waiting_queue:
            got.append(s._waiting_queue.popleft())

    if flow:
        # each message's fate between the sends is free: received or not, recycled or not, GPU work done or not
        for i in range(msgs):
            send(i)
            for j in range(acts):
                a = ctx.pick(f"a{i}.{j}", 0, 3)
                if a == 0:
                    break
                if a == 1:
                    receive()
                elif a == 2 and p is not None:
                    recycle(p)
                elif a == 3:
                    W.sync("receiver")
    else:
        send(0)
    receive()
    receive()
    W.sync("sender")
    W.sync("receiver")
    ctx.check(len(got) == len(sent), "every request arrives once")
    for r, (f, mm) in zip(got, sent):
        for k, v in f.items():
            g = getattr(r, k)
            ctx.check(type(g) is type(v) and (g == v if not isinstance(v, list) else sym_and(len(g) == len(v), *[x == y for x, y in zip(g, v)])),
                      f"the request's {k} arrives")
        if mm is None:
            ctx.check(r.mm_inputs is None, "no tensors stay no tensors")
        else:
            same(ctx, mm, r.mm_inputs)
    ctx.check(not [k for k in FakeShm.segs if k.startswith("pymllm_meta")], "no metadata segment is left behind")
    if p is not None:
        recycle(p)
        W.who = "sender"
        meta, sl = p.get_slice_with_flag(Src(pool, 1))
        ctx.check(sl is not None, "once everything is received the whole pool is free again")
    ctx.reach("arrived")


def P(**k):
    return k


HARNESSES = [
    dict(name="pool", fn=h_pool, reach=["allocated", "refused", "recycled"], quick=[P(ops=4, consumers=1), P(ops=5, consumers=1, es=[2]), P(ops=4, consumers=2, es=[1])],
         thorough=[P(ops=6, consumers=1), P(ops=6, consumers=2)], bounds="pool of 1..4096 bytes, up to 5 (6) operations, any tensor sizes, 1-2 consumers"),
    dict(name="path", fn=h_path, reach=["arrived"],
         quick=[P(mode="cuda_ipc_pool", msgs=2, kinds=[0, 1], layouts=[0], pool=24, acts=2), P(mode="cuda_ipc_pool", msgs=2, kinds=[0], layouts=[0], pool=24), P(mode="cuda_ipc_pool", msgs=3, kinds=[0], layouts=[0], pool=24, acts=2),
                P(mode="cuda_ipc_pool", msgs=1, kinds=[0, 1, 2, 3, 4, 5], layouts=[0], pool=400, flow=False),
                P(mode="cuda_ipc_pool", msgs=1, kinds=[1, 4], layouts=[0, 1, 2, 3], pool=400, flow=False),
                P(mode="cuda_ipc_pool", msgs=1, kinds=[1, 2], layouts=[0], dts=DT, pool=400, flow=False),
                P(mode="cuda_ipc_pool", msgs=1, kinds=[1, 2], layouts=[0, 1], pool=20, flow=False),
                P(mode="cuda_ipc_pool", msgs=2, kinds=[0, 1], layouts=[0, 1], pool=64, share=False, acts=2),
                P(mode="cuda_ipc", msgs=1, kinds=[1, 2, 3], layouts=[0, 1, 2], flow=False), P(mode="default", msgs=1, kinds=[1, 2, 3], layouts=[0, 1, 2], flow=False),
                P(mode="default", msgs=2, kinds=[0, 1], layouts=[0], acts=2), P(mode="default", msgs=1, kinds=[1], layouts=[0], flow=False, meta=True),
                P(mode="cuda_ipc_pool", msgs=1, kinds=[1], layouts=[0], pool=400, flow=False, meta=True)],
         thorough=[P(mode="cuda_ipc_pool", msgs=3, kinds=[0, 1], layouts=[0], pool=36), P(mode="cuda_ipc_pool", msgs=4, kinds=[0], layouts=[0], pool=24)],
         bounds="up to 3 (4) messages, 6 shapes, 5 dtypes, 4 layouts, 3 transport modes, pools that suffice or fill up, all orders of receiving, recycling and GPU completion"),
]
