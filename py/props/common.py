"""shared pieces of the Python harnesses"""
import itertools
import torch

from symx import SymInt, SymBool, term, mkbool, sym_and, sym_or, sym_not, seq_eq  # noqa

torch.set_num_threads(1)
INT32 = 2**31 - 1


class Clock:
    """stub of the time module: strictly increasing, deterministic"""

    def __init__(self):
        self.t = 0.0

    def monotonic(self):
        self.t += 1.0
        return self.t

    time = perf_counter = monotonic

    def sleep(self, s):
        self.t += s


def toks(ctx, name, n, lo=0, hi=INT32):
    return [ctx.int(f"{name}{i}", lo, hi) for i in range(n)]


def any_eq_prefix(entries, key):
    """some entry has exactly these tokens"""
    return sym_or(*[seq_eq(e, key) for e in entries if len(e) == len(key)])


class Bare:
    """an object with the methods of cls and only the given attributes: cls.method(Bare(cls, ...))
    runs the real method, and whatever helpers it calls on self, without the constructor"""

    def __init__(self, cls, **kw):
        self.__dict__.update(kw, _bare_cls=cls)

    def __getattr__(self, k):
        cls = self.__dict__["_bare_cls"]
        for c in cls.__mro__:
            if k in vars(c):
                v = vars(c)[k]
                return v.__get__(self, cls) if hasattr(v, "__get__") else v
        raise AttributeError(f"{cls.__name__} has no attribute {k}")
