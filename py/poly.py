"""Exact symbolic arithmetic for formulas with exp / log / sigmoid / norms.

A number is a Laurent polynomial over atoms with rational coefficients.  Atoms
are the symbolic inputs (z3 reals) and applications of a function to a
polynomial, keyed by the canonical form of that polynomial: exp(M) of every
monomial M is a positive atom, so that exp(x+y), 1/exp(x) and log(exp(x)*exp(y))
are computed exactly; softplus, sigmoid, silu, square roots and inverses are
atoms constrained only by what is recorded as facts.  Equality of two numbers is
a z3 formula over the atoms (denominators cleared: they are positive).  On replay
the same code computes with Python floats.
"""
import math
from fractions import Fraction

import z3

import symx
from symx import mkbool

TINY = Fraction(1, 10 ** 9)


class Atom:
    __slots__ = ("i", "t", "kind", "arg")

    def __init__(self, i, t, kind, arg=None):
        self.i, self.t, self.kind, self.arg = i, t, kind, arg


ATOMS = []
KEYS = {}


def reset():
    del ATOMS[:]
    KEYS.clear()


def _atom(kind, key, arg=None, t=None):
    k = (kind, key)
    a = KEYS.get(k)
    if a is None:
        a = KEYS[k] = Atom(len(ATOMS), t if t is not None else z3.Real(f"{kind}!{len(ATOMS)}"), kind, arg)
        ATOMS.append(a)
        if kind in ("exp", "softplus", "inv+", "sigmoid"):
            _fact(a.t > 0)
        if kind == "sqrt":
            _fact(a.t >= 0)
    return a


def _fact(c):
    e = symx._CUR
    if e is not None:
        e.add(c)


def _fr(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            del d[k]
    return tuple(sorted(d.items()))


class P:
    __slots__ = ("m",)
    _sym_fork = True

    def __init__(self, m):
        self.m = m

    # -- construction ---------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
            c = _fr(x)
            return P({(): c} if c else {})
        return None

    @staticmethod
    def mono(atom, e=1):
        return P({((atom.i, e),): Fraction(1)})

    def key(self):
        return tuple(sorted(self.m.items()))

    def const(self):
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = P.of(o)
        if o is None:
            return NotImplemented
        r = dict(self.m)
        for k, c in o.m.items():
            n = r.get(k, 0) + c
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        o = P.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = P.of(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = P.of(o)
        if o is None:
            return NotImplemented
        r = {}
        for k, c in self.m.items():
            for l, d in o.m.items():
                m = _mmul(k, l)
                n = r.get(m, 0) + c * d
                if n:
                    r[m] = n
                else:
                    del r[m]
        return P(r)

    __rmul__ = __mul__

    def inv(self):
        if not self.m:
            raise symx.CodeError("division by zero")
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if all(ATOMS[i].kind in ("exp", "softplus", "sigmoid", "inv+") for i, _ in k):
                return P({tuple((i, -e) for i, e in k): 1 / c})
        # normalise the leading coefficient
        lead = self.m[min(self.m)]
        q = self * (1 / lead)
        a = _atom("inv+" if q.positive() else "inv", q.key(), q)
        if not getattr(a, "t", None) is None:
            pass
        return P.mono(a) * (1 / lead)

    def positive(self):
        """syntactically positive: a positive constant plus non-negative terms, or a positive monomial"""
        if not self.m:
            return False
        ok = False
        for k, c in self.m.items():
            if c <= 0:
                return False
            pos = True
            for i, e in k:
                kind = ATOMS[i].kind
                if kind in ("exp", "softplus", "sigmoid", "inv+"):
                    continue
                if kind == "sqrt" and e > 0:
                    pos = False
                    continue
                return False
            ok = ok or pos
        return ok

    def __truediv__(self, o):
        o = P.of(o)
        return NotImplemented if o is None else self * o.inv()

    def __rtruediv__(self, o):
        o = P.of(o)
        return NotImplemented if o is None else o * self.inv()

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = P.of(1)
            for _ in range(n):
                r = r * self
            return r
        if n == 0.5:
            return sqrt(self)
        if n == -0.5:
            return 1 / sqrt(self)
        if n == -1:
            return self.inv()
        from symt import Unsupported
        raise Unsupported("power of a symbolic number")

    def __abs__(self):
        return self if bool(self >= 0) else -self

    # -- comparison -----------------------------------------------------
    def term(self):
        s = []
        for k, c in self.m.items():
            num, den = [], []
            for i, e in k:
                (num if e > 0 else den).extend([ATOMS[i].t] * abs(e))
            t = z3.Q(c.numerator, c.denominator)
            for x in num:
                t = t * x
            for x in den:
                t = t / x
            s.append(t)
        return z3.Sum(s) if s else z3.RealVal(0)

    def _cmp(self, o, f, tiny):
        o = P.of(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is not None and self.const() is None and abs(c) <= TINY and self.positive():
            return tiny
        d = self - o
        c = d.const()
        if c is not None:
            return f(c, 0)
        return mkbool(f(d.cleared()[0], 0))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, True)

    def cleared(self):
        """(term, ok): this number times a product of the (positive) atoms of its denominators"""
        lo = {}
        for k in self.m:
            for i, e in k:
                if e < 0:
                    lo[i] = min(lo.get(i, 0), e)
        f = P({tuple(sorted((i, -e) for i, e in lo.items())): Fraction(1)})
        return (self * f).term(), True

    def __eq__(self, o):
        p = P.of(o)
        if p is None:
            return False
        d = self - p
        if not d.m:
            return True
        c = d.const()
        if c is not None:
            return False
        return mkbool(d.cleared()[0] == 0)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else symx.sym_not(r)

    def __hash__(self):
        return 0

    def __float__(self):
        raise symx.CodeError("symbolic number forced to float")

    def __bool__(self):
        return bool(self != 0)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"P({len(self.m)} terms)"


def var(ctx, name):
    """a symbolic real input (a Fraction on replay)"""
    v = ctx.real(name)
    return P.mono(_atom("var", name, None, v.t)) if ctx.symbolic else float(v)


# -- functions -------------------------------------------------------------
def exp(x):
    if not isinstance(x, P):
        return math.exp(x)
    r = P.of(1)
    for k, c in x.m.items():
        if c.denominator == 1:
            r = r * P({((_atom("exp", (k, Fraction(1)), P({k: Fraction(1)})).i, int(c)),): Fraction(1)})
        else:
            u = Fraction(1, c.denominator)
            r = r * P({((_atom("exp", (k, u), P({k: u})).i, int(c.numerator)),): Fraction(1)})
    return r


def _log_mono(x):
    if len(x.m) == 1:
        (k, c), = x.m.items()
        if c == 1 and all(ATOMS[i].kind == "exp" for i, _ in k):
            r = P.of(0)
            for i, e in k:
                r = r + ATOMS[i].arg * e
            return r
    return None


def log(x):
    if not isinstance(x, P):
        return math.log(x)
    r = _log_mono(x)
    if r is None:
        q = x - 1
        m = _log_mono(q)
        if m is not None:
            return _softplus(m)
        return P.mono(_atom("log", x.key(), x))
    return r


def _softplus(x):
    return P.mono(_atom("softplus", x.key(), x))


def log1p(x):
    return log(x + 1) if isinstance(x, P) else math.log1p(x)


def softplus(x):
    if not isinstance(x, P):
        return x if x > 20 else math.log1p(math.exp(x))
    if x.const() is None and bool(x > 20):
        return x
    return _softplus(x)


def sigmoid(x):
    if not isinstance(x, P):
        return 1 / (1 + math.exp(-x))
    return P.mono(_atom("sigmoid", x.key(), x))


def silu(x):
    if not isinstance(x, P):
        return x / (1 + math.exp(-x))
    if not x.m:
        return 0
    return P.mono(_atom("silu", x.key(), x))


def sqrt(x):
    if not isinstance(x, P):
        return math.sqrt(x)
    if not x.m:
        return 0
    return P.mono(_atom("sqrt", x.key(), x))


def close(a, b, tol=1e-6):
    """equality of two numbers: a formula, or a tolerance on replay"""
    if isinstance(a, P) or isinstance(b, P):
        return P.of(a) == b
    a, b = float(a), float(b)
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
