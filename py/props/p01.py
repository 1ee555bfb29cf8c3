"""P01: radix prefix cache -- exact longest-prefix lookups, locks, eviction, accounting"""
import torch
from pymllm.mem_cache import radix_cache as rc
from pymllm.mem_cache import mamba_radix_cache as mrc
from pymllm.mem_cache.base_prefix_cache import RadixKey
from .common import *

BUDGET = {"quick": 60, "thorough": 800}
ASSUMPTIONS = [
    "time.monotonic replaced by a strictly increasing deterministic clock",
    "the KV pool is a recording stub: free(indices) is the only call the cache makes on it",
    "callers follow the documented protocol: look up, lock the matched node, insert the full "
    "sequence reusing the matched indices, free the duplicated middle part, unlock",
    "token ids are unconstrained 31-bit integers; sequence lengths, namespaces and the operation "
    "kind are symbolic inputs forked to concrete values",
]


class Pool:
    device = torch.device("cpu")

    def __init__(self):
        self.freed = []

    def free(self, idx):
        self.freed.extend(int(i) for i in idx)


class World:
    """ghost state: which (namespace, token prefix) each live index stands for"""

    def __init__(self, ctx, page, kind="radix"):
        self.ctx = ctx
        self.page = page
        self.pool = Pool()
        rc.time = Clock()
        mrc.time = Clock()
        cls = mrc.MambaRadixCache if kind == "mamba" else rc.RadixCache
        self.cache = cls(page_size=page, token_to_kv_pool_allocator=self.pool)
        self.live = {}      # idx -> (extra, prefix tokens)
        self.locked = []    # (node, indices, token)
        self.next = 100
        self.n_freed_seen = 0

    def key(self, tokens, extra):
        return RadixKey(list(tokens), extra)

    def drain_frees(self, what):
        new = self.pool.freed[self.n_freed_seen:]
        self.n_freed_seen = len(self.pool.freed)
        pinned = {i for (_, idx, _) in self.locked for i in idx}
        for i in new:
            self.ctx.check(i in self.live, f"{what}: index freed twice or never stored")
            self.ctx.check(i not in pinned, f"{what}: an index of a locked prefix was freed")
            self.live.pop(i, None)
        return new

    def entries(self, extra):
        return [p for (e, p) in self.live.values() if e == extra]

    def check_match(self, res, tokens, extra, what):
        ctx = self.ctx
        idx = [int(i) for i in res.indices]
        L = len(idx)
        ctx.check(res.prefix_len == L, f"{what}: prefix_len differs from the number of indices")
        ctx.check(L <= len(tokens), f"{what}: longer than the query")
        for i, ix in enumerate(idx):
            ctx.check(ix in self.live, f"{what}: returned an index the cache does not hold")
            e, p = self.live[ix]
            ctx.check(e == extra, f"{what}: index of another namespace")
            ctx.check(len(p) == i + 1, f"{what}: index stored for another position")
            ctx.check(seq_eq(p, tokens[: i + 1]), f"{what}: index stored for other tokens")
        nxt = L + self.page
        ctx.check(L % self.page == 0, f"{what}: not a whole number of pages")
        if nxt <= len(tokens):
            ctx.check(
                sym_not(any_eq_prefix(self.entries(extra), tokens[:nxt])),
                f"{what}: a longer cached prefix was not found")
        if idx:
            ctx.reach("hit")
        return idx

    def insert(self, tokens, extra, reuse, hold=False):
        """store tokens; reuse=True: as a request does (match, lock, fill, insert, free dups)"""
        ctx, c = self.ctx, self.cache
        have, lock = [], None
        if reuse:
            r = c.match_prefix(self.key(tokens, extra))
            have = self.check_match(r, tokens, extra, "lookup before insert")
            lock = (r.last_node, have, c.inc_lock_ref(r.last_node))
        fresh = list(range(self.next, self.next + len(tokens) - len(have)))
        self.next += len(fresh)
        value = have + fresh
        res = c.insert(self.key(tokens, extra), torch.tensor(value, dtype=torch.int64))
        self.drain_frees("insert")
        P = res.prefix_len
        ctx.check(len(have) <= P and P <= len(tokens), "insert: reported prefix length out of range")
        # indices beyond P are now owned by the cache, [len(have), P) are duplicates
        whole = len(tokens) // self.page * self.page
        for j in range(P, whole):
            self.live[value[j]] = (extra, list(tokens[: j + 1]))
        if P:
            ctx.check(any_eq_prefix(self.entries(extra), tokens[:P]),
                      "insert: reported a prefix that was never stored")
        if lock is not None:
            c.dec_lock_ref(lock[0])
        # everything inserted must be found again, in full
        r = c.match_prefix(self.key(tokens, extra))
        idx = self.check_match(r, tokens, extra, "lookup after insert")
        ctx.check(len(idx) == whole, "lookup after insert: stored sequence not found in full")

    def lookup(self, tokens, extra, lock):
        c = self.cache
        r = c.match_prefix(self.key(tokens, extra))
        idx = self.check_match(r, tokens, extra, "lookup")
        if lock:
            self.locked.append((r.last_node, idx, c.inc_lock_ref(r.last_node)))
            if idx:
                self.ctx.reach("locked prefix")

    def unlock(self, k):
        node, _, tok = self.locked.pop(k)
        self.cache.dec_lock_ref(node)

    def evict(self, n):
        ctx, c = self.ctx, self.cache
        before = len(self.live)
        pinned = {i for (_, idx, _) in self.locked for i in idx}
        r = c.evict(n)
        new = self.drain_frees("evict")
        ctx.check(r.full_evicted == len(new), "evict: reported count differs from what was freed")
        if n <= before - len(pinned):
            ctx.check(len(new) >= n, "evict: enough unlocked entries existed but too few were freed")
        if new:
            ctx.reach("evicted")

    def accounting(self):
        ctx, c = self.ctx, self.cache
        pinned = {i for (_, idx, _) in self.locked for i in idx}
        ctx.check(c.total_size() == len(self.live), "total_size differs from the tokens stored")
        ctx.check(c.protected_size() == len(pinned), "protected_size differs from the locked tokens")
        ctx.check(c.evictable_size() == len(self.live) - len(pinned),
                  "evictable_size differs from the unlocked tokens")


def h_history(ctx, ops, maxlen, page=1, ns=1, kind="radix"):
    """arbitrary histories of `ops` operations from the empty cache"""
    w = World(ctx, page, kind)
    for k in range(ops):
        op = ctx.pick(f"op{k}", 0, 3) if k else 0
        if op == 2 and not w.locked:
            op = 3
        if op <= 1:
            n = ctx.pick(f"len{k}", 1, maxlen * page)
            t = toks(ctx, f"t{k}_", n)
            extra = [None, "A", "B"][ctx.pick(f"ns{k}", 0, ns - 1)] if ns > 1 else None
        if op == 0:
            w.insert(t, extra, ctx.flag(f"reuse{k}") if k else False)
        elif op == 1:
            w.lookup(t, extra, ctx.flag(f"lock{k}"))
        elif op == 2:
            w.unlock(ctx.pick(f"u{k}", 0, len(w.locked) - 1))
        else:
            w.evict(ctx.pick(f"ev{k}", 1, 2 * page))
        w.accounting()
    while w.locked:
        w.unlock(0)
        w.accounting()
    w.evict(10**6)
    ctx.check(not w.live, "after unlocking everything some entries cannot be evicted")
    w.accounting()


def h_three(ctx, lens, extras):
    """three sequences inserted, one locked lookup in between, partial evictions"""
    w = World(ctx, 1)
    seqs = [toks(ctx, f"s{i}_", n) for i, n in enumerate(lens)]
    for s, e in zip(seqs, extras):
        w.insert(s, e, True)
        w.accounting()
    q = toks(ctx, "q", ctx.pick("qlen", 1, max(lens)))
    w.lookup(q, extras[0], True)
    w.accounting()
    w.evict(ctx.pick("ev", 1, 3))
    w.accounting()
    w.lookup(seqs[0], extras[0], False)
    w.insert(seqs[1], extras[1], True)
    w.accounting()
    w.unlock(0)
    w.evict(10**6)
    ctx.check(not w.live, "after unlocking everything some entries cannot be evicted")
    w.accounting()


def h_lru(ctx, n):
    """n disjoint sequences, one touched last: evicting one must not take the touched one"""
    w = World(ctx, 1)
    firsts = toks(ctx, "f", n)
    for i in range(n):
        for j in range(i):
            ctx.assume(firsts[i] != firsts[j])
    for f in firsts:
        w.insert([f], None, False)
    k = ctx.pick("touch", 0, n - 1)
    w.lookup([firsts[k]], None, False)
    c = w.cache
    for left in range(n, 1, -1):
        w.evict(1)
        r = c.match_prefix(w.key([firsts[k]], None))
        ctx.check(len(r.indices) == 1, "the most recently used entry was evicted before older ones")
    ctx.reach("lru")


def h_shared(ctx, la, lq, lb, page=1, kind="radix"):
    """a sequence locked by two users, a further sequence that may split it, one user leaves, eviction"""
    w = World(ctx, page, kind)
    A = toks(ctx, "a", la * page)
    w.insert(A, None, False)
    q1 = A[: ctx.pick("cut", 1, la) * page]
    q2 = toks(ctx, "q", lq * page) if lq else A
    w.lookup(q1, None, True)
    w.lookup(q2, None, True)
    w.insert(toks(ctx, "b", lb * page), None, ctx.flag("reuse"))
    w.accounting()
    w.unlock(ctx.pick("u", 0, 1))
    w.accounting()
    w.evict(ctx.pick("ev", 1, (la + lb) * page))
    w.accounting()
    w.lookup(A, None, False)
    w.unlock(0)
    w.accounting()
    w.evict(10**6)
    ctx.check(not w.live, "after unlocking everything some entries cannot be evicted")
    ctx.reach("shared")


HARNESSES = [
    dict(name="shared", fn=h_shared, reach=["shared", "hit", "evicted", "locked prefix"],
         quick=[dict(la=3, lq=0, lb=2), dict(la=2, lq=2, lb=2), dict(la=2, lq=0, lb=2, page=2), dict(la=2, lq=0, lb=2, kind="mamba")],
         thorough=[dict(la=4, lq=0, lb=4), dict(la=3, lq=3, lb=3), dict(la=3, lq=0, lb=3, page=2), dict(la=3, lq=2, lb=3, kind="mamba")],
         bounds="one stored sequence of la pages, two overlapping locks, a second sequence of lb pages, one unlock, one eviction"),
    dict(name="history", fn=h_history, reach=["hit", "evicted", "locked prefix"],
         quick=[dict(ops=3, maxlen=3), dict(ops=3, maxlen=2, kind="mamba"), dict(ops=3, maxlen=2, page=2), dict(ops=3, maxlen=2, ns=2)],
         thorough=[dict(ops=3, maxlen=4), dict(ops=4, maxlen=3), dict(ops=5, maxlen=2),
                   dict(ops=4, maxlen=2, page=2), dict(ops=4, maxlen=2, ns=3),
                   dict(ops=4, maxlen=3, kind="mamba"), dict(ops=6, maxlen=2)],
         bounds="histories of at most `ops` operations (insert / lookup / lock / unlock / evict), "
                "sequences of at most maxlen*page tokens, up to ns namespaces"),
    dict(name="three", fn=h_three, reach=["hit", "evicted"],
         quick=[dict(lens=[3, 3, 3], extras=[None, None, None]),
                dict(lens=[2, 3, 2], extras=["A", "A", "B"])],
         thorough=[dict(lens=[4, 4, 4], extras=[None, None, None]),
                   dict(lens=[3, 3, 3], extras=["A", "A", "B"])],
         bounds="three inserted sequences of the stated lengths, one locked query, one partial eviction"),
    dict(name="lru", fn=h_lru, reach=["lru"], quick=[dict(n=3)], thorough=[dict(n=4)],
         bounds="n pairwise different one-token sequences"),
    dict(name="history4", fn=h_history, reach=["hit", "evicted", "locked prefix"],
         quick=[dict(ops=4, maxlen=2)], thorough=[dict(ops=4, maxlen=2)],
         bounds="as history"),
]
