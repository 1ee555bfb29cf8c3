"""Symbolic strings: a str whose characters may be symbolic code points.

SymStr subclasses str so that C code accepts it; its native value is a
placeholder token, and `decode` turns any str containing placeholders (for
example the output of orjson or "".join) back into symbolic characters.
Every operation on a SymStr is character-wise and decided by the solver.
"""
import re

import z3

from symx import SymInt, mkbool, sym_and, sym_or, term

_REG = []
LIVE = False  # symbolic run: strings stay SymStr even when concrete
_L, _R = "\ue000", "\ue001"
_PH = re.compile(_L + "([0-9]+)" + _R)
WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F,
      0x205F, 0x3000]


def reset(ctx):
    global LIVE
    LIVE = ctx.symbolic
    _REG.clear()


def chars(s):
    """list of code points (int / SymInt)"""
    if isinstance(s, SymStr):
        return s._c
    if not isinstance(s, str):
        raise TypeError(f"expected str, got {type(s).__name__}")
    if _L not in s:
        return [ord(c) for c in s]
    out, pos = [], 0
    for m in _PH.finditer(s):
        out += [ord(c) for c in s[pos:m.start()]]
        out += _REG[int(m.group(1))]._c
        pos = m.end()
    return out + [ord(c) for c in s[pos:]]


def mk(cs):
    cs = list(cs)
    if not LIVE and all(isinstance(c, int) for c in cs):
        return "".join(map(chr, cs))
    return SymStr(cs) if cs else ""


def lit(s):
    """a concrete string whose methods accept symbolic arguments"""
    return mk([ord(c) for c in s])


def decode(s):
    return mk(chars(s)) if isinstance(s, str) else s


def conc(s):
    """fork until every character is concrete"""
    if isinstance(s, str) and (isinstance(s, SymStr) or _L in s):
        return "".join([chr(c if type(c) is int else int(c)) for c in chars(s)])
    return s


def eqs(a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return False
    return _match(a, b, 0)


def _match(cs, pat, i):
    """pat equals cs[i:i+len(pat)]: bool, or SymBool over the symbolic pairs"""
    rest = None
    for k, y in enumerate(pat):
        x = cs[i + k]
        if type(x) is int and type(y) is int:
            if x != y:
                return False
        else:
            if rest is None:
                rest = []
            rest.append((x, y))
    if rest is None:
        return True
    return sym_and(*[x == y for x, y in rest])


def _isws(c):
    if isinstance(c, int):
        return c in WS
    t = c.t
    return mkbool(z3.Or(z3.And(t >= 9, t <= 13), z3.And(t >= 28, t <= 32), t == 0x85, t == 0xA0, t == 0x1680,
                        z3.And(t >= 0x2000, t <= 0x200A), t == 0x2028, t == 0x2029, t == 0x202F, t == 0x205F,
                        t == 0x3000))


class SymStr(str):
    def __new__(cls, cs):
        self = str.__new__(cls, f"{_L}{len(_REG)}{_R}")
        self._c = list(cs)
        _REG.append(self)
        return self

    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return bool(self._c)

    def __iter__(self):
        return (mk([c]) for c in self._c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self._c[i])
        return mk([self._c[i]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self._c + chars(o))

    def __radd__(self, o):
        return mk(chars(o) + self._c)

    def __mul__(self, n):
        return mk(self._c * n)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return eqs(self, o)

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        r = eqs(self, o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(conc(self))

    def _match_at(self, pat, i):
        return _match(self._c, pat, i)

    def _range(self, start, end):
        n = len(self._c)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        pat = chars(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(pat) + 1):
            if self._match_at(pat, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        pat = chars(sub)
        s, e = self._range(start, end)
        for i in range(e - len(pat), s - 1, -1):
            if self._match_at(pat, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        n, pos = 0, 0
        while True:
            pos = self.find(sub, pos)
            if pos < 0:
                return n
            n, pos = n + 1, pos + max(1, len(chars(sub)))

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def startswith(self, pre, start=0, end=None):
        if isinstance(pre, tuple):
            return any(self.startswith(p, start, end) for p in pre)
        s, e = self._range(start, end)
        pat = chars(pre)
        return len(pat) <= e - s and bool(self._match_at(pat, s))

    def endswith(self, suf, start=0, end=None):
        if isinstance(suf, tuple):
            return any(self.endswith(p, start, end) for p in suf)
        s, e = self._range(start, end)
        pat = chars(suf)
        return len(pat) <= e - s and bool(self._match_at(pat, e - len(pat)))

    def lstrip(self, cs=None):
        i = 0
        while i < len(self._c) and _in(self._c[i], cs):
            i += 1
        return mk(self._c[i:])

    def rstrip(self, cs=None):
        j = len(self._c)
        while j > 0 and _in(self._c[j - 1], cs):
            j -= 1
        return mk(self._c[:j])

    def strip(self, cs=None):
        r = self.lstrip(cs)
        return r.rstrip(cs)

    def isspace(self):
        return all(bool(_isws(c)) for c in self._c) and bool(self._c)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return conc(self).split(sep, maxsplit)
        out, pos = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, pos)
            if i < 0:
                break
            out.append(self[pos:i])
            pos = i + len(sep)
        return out + [self[pos:]]

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        r = parts[0]
        for p in parts[1:]:
            r = r + b + p
        return r

    def join(self, it):
        r, first = "", True
        for x in it:
            r = x if first else r + self + x
            first = False
        return r

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__str__(self) if not spec else format(conc(self), spec)

    def __repr__(self):
        return "SymStr(%d)" % len(self._c)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (decode, (str.__str__(self),))


def _in(c, cs):
    if cs is None:
        return bool(_isws(c))
    return bool(sym_or(*[c == x for x in chars(cs)]))


def _mkconc(name):
    def f(self, *a, **k):
        return getattr(conc(self), name)(*[conc(x) for x in a], **k)
    return f


_OWN = set(SymStr.__dict__)
for _n in dir(str):
    if _n.startswith("__") and _n not in ("__lt__", "__le__", "__gt__", "__ge__", "__mod__"):
        continue
    if _n not in _OWN and _n != "maketrans":
        setattr(SymStr, _n, _mkconc(_n))


def sym(ctx, name, n, lo=1, hi=0x10FFFF, alphabet=None):
    """n symbolic characters; alphabet: list of allowed code points"""
    cs = []
    for i in range(n):
        if alphabet:
            k = sorted({ord(c) for c in alphabet})
            v = ctx.int(f"{name}{i}", k[0], k[-1])
            ctx.assume(sym_or(*[v == x for x in k]))
        else:
            v = ctx.int(f"{name}{i}", lo, hi)
            if not isinstance(v, int):
                # no surrogates, no placeholder marks
                ctx.assume(mkbool(z3.And(z3.Or(v.t < 0xD800, v.t > 0xDFFF), v.t != 0xE000, v.t != 0xE001)))
        cs.append(v)
    return mk(cs)


class ConcShim:
    """module stand-in whose functions receive concretised strings"""

    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, n):
        v = getattr(self._m, n)
        if callable(v) and not isinstance(v, type):
            return lambda *a, **k: v(*[conc(x) for x in a], **{q: conc(x) for q, x in k.items()})
        return v
