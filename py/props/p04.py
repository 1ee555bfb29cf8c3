"""P04: pool allocators hand out every slot exactly once"""
import torch as real_torch
from .common import *
import pymllm.mem_cache.memory_pool as mp

BUDGET = {"quick": 50, "thorough": 600}
ASSUMPTIONS = ["callers free only indices they hold, whole allocations or (page size 1) any part of one",
               "CPU tensors for the free lists"]


def L(t):
    return [int(x) for x in t.tolist()]


def h_kv(ctx, size, page, steps, sort=True):
    pool, al = mp.make_full_attention_net_mem_pool(
        size=size, layer_num=1, k_head_num=1, k_head_dim=1, v_head_num=1, v_head_dim=1, device="cpu",
        dtype=real_torch.float32, page_size=page, need_sort=sort, pin_memory=False)
    rows = pool.k_buffer[0].shape[0]
    usable = size // page * page
    held = []          # live allocations
    pending = []       # freed inside an open free group
    group = False
    ctx.check(al.available_size() == usable, "a fresh pool does not offer all its slots")
    for s in range(steps):
        op = ctx.pick(f"op{s}", 0, 3)
        if op == 0:
            if page == 1:
                n = ctx.pick(f"n{s}", 1, usable + 1)
            else:
                c = sorted({1, page, page + 1, usable, usable + 1})
                n = c[ctx.pick(f"n{s}", 0, len(c) - 1)]
            before = al.available_size()
            got = al.alloc(n)
            need = -(-n // page) * page
            ctx.check((got is None) == (need > before), "alloc must fail exactly when too few slots are free")
            if got is None:
                ctx.check(al.available_size() == before, "a failed alloc changed the pool")
                ctx.reach("exhausted")
                continue
            got = L(got)
            ctx.check(len(got) == n and len(set(got)) == n, "alloc returned duplicate or missing slots")
            ctx.check(all(1 <= x < rows for x in got), "alloc returned the padding slot or one outside the KV buffers")
            live = {x // page for b in held for x in b} | {x // page for b in pending for x in b}
            ctx.check(not (live & {x // page for x in got}), "alloc returned a slot (page) still in use")
            ctx.check(al.available_size() == before - need, "available size after alloc")
            held.append(got)
        elif op == 1:
            ctx.assume(bool(held))
            i = ctx.pick(f"i{s}", 0, len(held) - 1)
            b = held.pop(i)
            if page == 1 and len(b) > 1 and ctx.flag(f"part{s}"):
                k = ctx.pick(f"k{s}", 1, len(b) - 1)
                held.append(b[k:])
                b = b[:k]
                ctx.reach("partial free")
            if page > 1 and len(b) > 2:
                # the caller may return the slots in any order
                o = ctx.pick(f"order{s}", 0, 2)
                b = [b, b[::-1], b[::2] + b[1::2]][o]
            before = al.available_size()
            al.free(real_torch.tensor(b, dtype=real_torch.int32))
            back = len({x // page for x in b}) * page
            if group:
                pending.append(b)
                ctx.check(al.available_size() == before, "a grouped free took effect early")
            else:
                ctx.check(al.available_size() == before + back, "available size after free")
        elif op == 2:
            ctx.assume(not group)
            al.free_group_begin()
            group = True
        elif op == 3:
            ctx.assume(group)
            al.free_group_end()
            group, pending = False, []
            ctx.reach("group")
    if group:
        al.free_group_end()
    for b in held:
        al.free(real_torch.tensor(b, dtype=real_torch.int32))
    ctx.check(al.available_size() == usable, "slots lost after freeing everything")
    al.free(real_torch.tensor([], dtype=real_torch.int32))
    got = al.alloc(usable)
    ctx.check(got is not None and len(set(L(got))) == usable, "not every slot can be handed out again")
    ctx.check(al.alloc(1) is None, "more slots handed out than the pool holds")
    al.clear()
    ctx.check(al.available_size() == usable, "clear does not restore the pool")
    ctx.reach("done")


def h_req(ctx, size, steps):
    p = mp.make_req_to_token_pool(size, 4, device="cpu")
    g = mp.GDNPool(size, 1, 1, 1, 1, 1, 2, device="cpu", dtype=real_torch.float32, max_track_slots=size)
    held, tr = [], []
    for s in range(steps):
        op = ctx.pick(f"op{s}", 0, 3)
        if op == 0:
            n = ctx.pick(f"n{s}", 1, size)
            av = p.available_size()
            got = p.alloc(n)
            ctx.check((got is None) == (n > av), "request slots: alloc must fail exactly when too few are free")
            if got is None:
                continue
            ctx.check(len(got) == n and len(set(got) | set(held)) == n + len(held), "request slot in use handed out")
            ctx.check(all(0 <= x < p.req_to_token.shape[0] for x in got), "request slot outside the table")
            ctx.check(all(x < size + 1 for x in got), "request slot outside the recurrent-state pool's working slots")
            held += got
        elif op == 1:
            ctx.assume(bool(held))
            p.free(held.pop(ctx.pick(f"i{s}", 0, len(held) - 1)))
        elif op == 2:
            x = g.alloc_track_slot()
            ctx.check((x is None) == (len(tr) == size), "snapshot slots: alloc must fail exactly when all are used")
            if x is not None:
                ctx.check(x not in tr and size < x < g.recurrent_state.shape[1],
                          "snapshot slot in use, or overlapping the working slots")
                tr.append(x)
        elif op == 3:
            ctx.assume(bool(tr))
            g.free_track_slot(tr.pop(ctx.pick(f"j{s}", 0, len(tr) - 1)))
        ctx.check(p.available_size() == size - len(held), "request slot count drifts")
    # a row written for one request is not visible in another's
    rows = p.req_to_token
    if len(held) >= 2:
        rows.zero_()
        p.write((held[0], slice(0, 4)), real_torch.tensor([1, 2, 3, 4], dtype=real_torch.int32))
        ctx.check(L(rows[held[0]]) == [1, 2, 3, 4] and L(rows[held[1]]) == [0] * 4, "row write reached another request")
        ctx.reach("two rows")
    p.clear()
    ctx.check(p.available_size() == size, "clear does not restore the request slots")
    ctx.reach("done")


HARNESSES = [
    dict(name="request_slots", fn=h_req, reach=["done", "two rows"],
         quick=[dict(size=2, steps=5), dict(size=3, steps=4)], thorough=[dict(size=3, steps=6)],
         bounds="every sequence of `steps` operations on the request-slot and snapshot-slot pools"),
    dict(name="kv_slots", fn=h_kv, reach=["done", "exhausted", "group"],
         quick=[dict(size=16, page=16, steps=3), dict(size=6, page=3, steps=4), dict(size=3, page=1, steps=4, sort=False),
                dict(size=4, page=2, steps=4), dict(size=3, page=1, steps=5), dict(size=4, page=2, steps=5)],
         thorough=[dict(size=5, page=1, steps=7), dict(size=4, page=1, steps=6, sort=False), dict(size=8, page=2, steps=6),
                   dict(size=7, page=2, steps=5, sort=False), dict(size=16, page=4, steps=5)],
         bounds="every sequence of `steps` alloc/free/group operations on a pool of `size` slots, page size `page`"),
]
