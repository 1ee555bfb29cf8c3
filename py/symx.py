"""symx -- a small symbolic executor for the real Python code in /repo.

The code under test is imported unmodified from /repo and *executed*; inputs are
proxy objects (SymInt / SymBool / SymReal) that carry z3 terms.  Every Python branch on a
symbolic condition asks the solver which outcomes are feasible under the
current path condition; when both are, the execution forks (by re-executing
the harness under the recorded decision prefix, DART/CrossHair style).  An
assertion `ctx.check(cond)` is decided by the solver for every input value on
that path: `path_condition and not cond` must be unsatisfiable.

A satisfying assignment is turned into a plain dict of concrete input values,
and the same harness is run again with ordinary Python ints against the real
code (ConcreteCtx); only a violation which reproduces there is reported.
"""
from __future__ import annotations

import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import types

import z3

z3.set_param("smt.random_seed", 1)


class _PathAbort(BaseException):
    pass


class Infeasible(_PathAbort):
    pass


class PathLimit(_PathAbort):
    pass


class BudgetExceeded(_PathAbort):
    pass


class Violation(BaseException):
    def __init__(self, label, inputs, detail=""):
        super().__init__(label)
        self.label = label
        self.inputs = inputs
        self.detail = detail


class CheckFailed(BaseException):
    """concrete-mode assertion failure"""

    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


_CUR: "Engine | None" = None
_VERIF = os.path.dirname(os.path.abspath(__file__))


def cur() -> "Engine":
    if _CUR is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return _CUR


# ----------------------------------------------------------------------
# proxies
# ----------------------------------------------------------------------
def _is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise TypeError(f"cannot lift {type(x)}")


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymInt):
        return x.t != 0
    return z3.BoolVal(bool(x))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.t == bterm(o))
        if isinstance(o, (SymInt, int)):
            return mkbool(term(self) == term(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 0

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return mkint(term(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return f"SymBool({self.t})"


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def _bin(op):
    def f(self, o):
        if not isinstance(o, (SymInt, SymBool, int)):
            if isinstance(o, float) and float(o).is_integer():
                o = int(o)
            else:
                return NotImplemented
        return mkint(op(self.t, term(o)))

    def r(self, o):
        if not isinstance(o, (SymInt, SymBool, int)):
            return NotImplemented
        return mkint(op(term(o), self.t))

    return f, r


def _cmp(op):
    def f(self, o):
        if isinstance(o, float):
            return mkbool(op(z3.ToReal(self.t), z3.RealVal(repr(o))))
        if not isinstance(o, (SymInt, SymBool, int)):
            return NotImplemented
        return mkbool(op(self.t, term(o)))

    return f


def _floordiv(a, b):
    # Python floor division; z3 div rounds so that 0 <= mod < |b|
    b = z3.simplify(b)
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if bv > 0:
            return a / b
        return (-a) / (-b)
    if bool(mkbool(b == 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if bool(mkbool(b > 0)):
        return a / b
    return (-a) / (-b)


def _mod(a, b):
    return a - _floordiv(a, b) * b


class SymInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin(lambda a, b: a + b)
    __sub__, __rsub__ = _bin(lambda a, b: a - b)
    __mul__, _rmul = _bin(lambda a, b: a * b)
    __floordiv__, __rfloordiv__ = _bin(_floordiv)
    __mod__, __rmod__ = _bin(_mod)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple, bytes)):
            return o * int(self)
        return SymInt._rmul(self, o)

    def __eq__(self, o):
        if isinstance(o, (SymInt, SymBool, int)):
            return mkbool(self.t == term(o))
        if isinstance(o, float):
            return mkbool(z3.ToReal(self.t) == z3.RealVal(repr(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        # all symbolic keys share one bucket: dict lookups fall through to
        # __eq__, i.e. to the solver
        return 0

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __index__(self):
        return cur().concretize(self.t)

    __int__ = __index__

    def __float__(self):
        return float(cur().concretize(self.t))

    def __truediv__(self, o):
        return int(self) / (int(o) if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o):
        return int(self) ** int(o)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> int(self)

    def __and__(self, o):
        # mask with a constant 2^k-1 (two's complement) -> modulo
        if _is_int(o) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if _is_int(o) and o < 0 and (-o & (-o - 1)) == 0:  # ~(2^k-1)
            return self - self % (-o)
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return int(self).bit_length()

    def to_bytes(self, *a, **k):
        return int(self).to_bytes(*a, **k)

    def __repr__(self):
        return f"SymInt({self.t})"

    def __str__(self):
        return f"<sym {self.t}>"

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _num(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else None
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, __import__("fractions").Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    return None


def mkreal(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        from fractions import Fraction
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return SymReal(t)


def _rbin(op):
    def f(self, o):
        b = _num(o)
        return NotImplemented if b is None else mkreal(op(self.t, b))

    def r(self, o):
        b = _num(o)
        return NotImplemented if b is None else mkreal(op(b, self.t))

    return f, r


def _rcmp(op):
    def f(self, o):
        if isinstance(o, float) and abs(o) == float("inf"):
            import operator as _o
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0}[op.__name__]
        b = _num(o)
        return NotImplemented if b is None else mkbool(op(self.t, b))

    return f


class SymReal:
    """a real number (floating-point values are idealised as reals)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _rbin(lambda a, b: a + b)
    __sub__, __rsub__ = _rbin(lambda a, b: a - b)
    __mul__, __rmul__ = _rbin(lambda a, b: a * b)

    def __truediv__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        if bool(mkbool(b == 0)):
            raise ZeroDivisionError("division by zero")
        return mkreal(self.t / b)

    def __rtruediv__(self, o):
        if bool(mkbool(self.t == 0)):
            raise ZeroDivisionError("division by zero")
        return mkreal(_num(o) / self.t)

    import operator as _op
    __lt__, __le__, __gt__, __ge__ = _rcmp(_op.lt), _rcmp(_op.le), _rcmp(_op.gt), _rcmp(_op.ge)
    del _op

    def __eq__(self, o):
        b = _num(o)
        return False if b is None else mkbool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __neg__(self):
        return mkreal(-self.t)

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        return 0

    def __float__(self):
        raise CodeError("symbolic real forced to float")

    def __repr__(self):
        return f"SymReal({self.t})"

    def __deepcopy__(self, memo):
        return self


class CodeError(Exception):
    """raised from a proxy on behalf of the code under test"""
    _code_under_test = True


def sym_and(*cs):
    return mkbool(z3.And([bterm(c) for c in cs])) if cs else True


def sym_or(*cs):
    return mkbool(z3.Or([bterm(c) for c in cs])) if cs else False


def sym_not(c):
    return mkbool(z3.Not(bterm(c)))


def sym_implies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)) or \
            type(a).__name__ == "Fraction" or type(b).__name__ == "Fraction":
        return mkreal(z3.If(bterm(c), _num(a), _num(b)))
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(bterm(c), bterm(a), bterm(b)))
    return mkint(z3.If(bterm(c), term(a), term(b)))


def seq_eq(a, b):
    """symbolic equality of two sequences (no forking)"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return sym_and(*[mkbool(term(x) == term(y)) for x, y in zip(a, b)])


# ----------------------------------------------------------------------
# engine
# ----------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.solver_s = 0.0
        self.checks = 0  # assertions decided
        self.check_queries = 0
        self.trivial = 0
        self.reach = {}
        self.unknown = 0
        self.validated = 0
        self.pathlimit = 0
        self.samples = []

    def merge(self, o):
        for k in (
            "paths", "infeasible", "branches", "queries", "sat", "unsat",
            "solver_s", "checks", "check_queries", "trivial", "unknown",
            "validated", "pathlimit",
        ):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.reach.items():
            self.reach[k] = self.reach.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:8]


class Engine:
    symbolic = True

    def __init__(self, stats=None, query_timeout_ms=60000, max_branches=20000):
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.max_branches = max_branches
        self.deadline = None

    # -- exploration ---------------------------------------------------
    def run_path(self, harness, params, prefix):
        """execute one path; returns list of new sibling prefixes"""
        global _CUR
        self.prefix = prefix
        self.trace = []
        self.siblings = []
        self.inputs = []  # (name, term)
        self.input_names = set()
        self.solver.reset()
        self.model = None
        self.nbr = 0
        self.notes = []
        self.infeasible_last = False
        _CUR = self
        try:
            harness(self, **params)
            self.stats.paths += 1
            if len(self.stats.samples) < 4:
                self.stats.samples.append(self.sample())
            return self.siblings
        except Infeasible:
            self.stats.infeasible += 1
            self.infeasible_last = True
            return self.siblings
        finally:
            _CUR = None

    def last_inputs(self):
        try:
            return self._concrete(self._get_model())
        except _PathAbort:
            return None

    def sample(self):
        try:
            m = self._get_model()
            return {"inputs": self._concrete(m), "notes": self.notes[:6]}
        except (Exception, _PathAbort):
            return {}

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            return True, self.solver.model()
        if r == z3.unsat:
            self.stats.unsat += 1
            return False, None
        self.stats.unknown += 1
        raise BudgetExceeded()

    def _get_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise Infeasible()
            self.model = m
        return self.model

    def add(self, c):
        self.solver.add(c)
        if self.model is not None and not z3.is_true(
            self.model.eval(c, model_completion=True)
        ):
            self.model = None

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.stats.branches += 1
        self.nbr += 1
        if self.nbr > self.max_branches:
            raise PathLimit()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add(c if v else z3.Not(c))
            return v
        m = self._get_model()
        v = z3.is_true(m.eval(c, model_completion=True))
        other, om = self._check(z3.Not(c) if v else c)
        if other:
            self.siblings.append(list(self.trace) + [not v])
        self.trace.append(v)
        self.solver.add(c if v else z3.Not(c))
        return v

    def concretize(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert isinstance(d, tuple), "nondeterministic harness"
                kind, val = d
                self.trace.append(d)
                if kind == "eq":
                    self.add(t == val)
                    return val
                self.add(t != val)
                continue
            m = self._get_model()
            val = m.eval(t, model_completion=True).as_long()
            other, om = self._check(t != val)
            if other:
                self.siblings.append(list(self.trace) + [("ne", val)])
            self.trace.append(("eq", val))
            self.solver.add(t == val)
            return val

    # -- harness API ---------------------------------------------------
    def int(self, name, lo=None, hi=None):
        assert name not in self.input_names, name
        self.input_names.add(name)
        t = z3.Int(name)
        self.inputs.append((name, t))
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        if lo is not None and lo == hi:
            return lo
        return SymInt(t)

    def real(self, name):
        assert name not in self.input_names, name
        self.input_names.add(name)
        t = z3.Real(name)
        self.inputs.append((name, t))
        return SymReal(t)

    def bool(self, name):
        v = self.int(name, 0, 1)
        return mkbool(v.t == 1)

    def pick(self, name, lo, hi):
        """symbolic int, forked to concrete right away (control choices)"""
        v = self.int(name, lo, hi)
        return v if isinstance(v, int) else int(v)

    def flag(self, name):
        return bool(self.bool(name))

    def assume(self, c):
        c = bterm(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        ok, m = self._check(c)
        if not ok:
            raise Infeasible()
        self.solver.add(c)
        self.model = m

    def reach(self, label):
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    def note(self, s):
        self.notes.append(s)

    def _concrete(self, m):
        return {n: _pyval(m.eval(t, model_completion=True)) for n, t in self.inputs}

    def check(self, c, label, detail=""):
        self.stats.checks += 1
        if c is True:
            self.stats.trivial += 1
            return
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            self.stats.trivial += 1
            return
        self.stats.check_queries += 1
        bad, m = self._check(z3.Not(c))
        if bad:
            raise Violation(label, self._concrete(m), detail)

    def fail(self, label, detail=""):
        m = self._get_model()
        raise Violation(label, self._concrete(m), detail)


def _pyval(v):
    if z3.is_int_value(v) or z3.is_bv_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(10)
    return f"{v.numerator_as_long()}/{v.denominator_as_long()}"


class ConcreteCtx:
    """same API as Engine, with given concrete inputs (replay)"""

    symbolic = False

    def __init__(self, inputs):
        self.vals = inputs
        self.notes = []

    def int(self, name, lo=None, hi=None):
        v = self.vals.get(name, lo if lo is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Infeasible()
        return v

    def real(self, name):
        from fractions import Fraction
        return Fraction(self.vals.get(name, "0/1"))

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def flag(self, name):
        return self.bool(name)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def reach(self, label):
        pass

    def note(self, s):
        self.notes.append(s)

    def check(self, c, label, detail=""):
        if not c:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=""):
        raise CheckFailed(label, detail)


def _stub_misfit(e):
    """the code asks a stand-in of the harness for something it does not have"""
    if type(e).__name__ == "Unsupported":
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is None:
            return False
        c = o if isinstance(o, type) else type(o)
        f = getattr(sys.modules.get(c.__module__), "__file__", None) or ""
        return c is types.SimpleNamespace or f.startswith(_VERIF)
    return isinstance(e, TypeError) and ("unexpected keyword argument" in str(e) or "positional argument" in str(e))


def run_harness_guarded(h, ctx, params):
    """wrap unexpected exceptions from the code under test as violations"""
    try:
        h(ctx, **params)
    except (_PathAbort, Violation, CheckFailed):
        raise
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        last = e.__traceback__
        while last.tb_next is not None:
            last = last.tb_next
        fn = last.tb_frame.f_code.co_filename
        if fn.startswith(_VERIF) and isinstance(e, (AttributeError, TypeError, NameError, ImportError)) \
                and not getattr(e, "_code_under_test", False):
            # the harness itself does not fit the code (renamed API, ...)
            ctx.fail(f"HARNESS-ERROR {type(e).__name__}: {e}"[:200], tb[-1500:])
        if _stub_misfit(e):
            ctx.fail(f"HARNESS-ERROR {type(e).__name__}: {e}"[:200], tb[-1500:])
        ctx.fail(f"unexpected {type(e).__name__}: {e}"[:200], tb[-1500:])


class _Guard:
    def __init__(self, h):
        self.h = h
        self.__name__ = getattr(h, "__name__", "h")

    def __call__(self, ctx, **params):
        run_harness_guarded(self.h, ctx, params)


def replay(h, params, inputs):
    """returns (reproduced, label, detail)"""
    ctx = ConcreteCtx(inputs)
    try:
        run_harness_guarded(h, ctx, params)
    except CheckFailed as e:
        return True, e.label, e.detail
    except Infeasible:
        return False, "assumption not met on replay", ""
    return False, "no failure on replay", ""


# ----------------------------------------------------------------------
# parallel driver
# ----------------------------------------------------------------------
class Result:
    def __init__(self):
        self.stats = Stats()
        self.complete = True
        self.violations = []  # (label, inputs, detail, harness, params)
        self.wall = 0.0
        self.unreproduced = []
        self.functions = set()
        self.leftover = 0


def _trace_functions(h, params, prefix, root):
    fns = set()

    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(root):
                fns.add(
                    f"{os.path.relpath(fn, root)}:{frame.f_code.co_qualname}"
                )

    e = Engine()
    sys.setprofile(prof)
    try:
        e.run_path(_Guard(h), params, prefix)
    except (Violation, _PathAbort):
        pass
    finally:
        sys.setprofile(None)
    return fns


def _worker_slice(args):
    """explore from given prefixes for at most slice_s; DFS"""
    prefixes, slice_s, hard_deadline, known = args
    h, params = _SHARED["h"], _SHARED["params"]
    eng = Engine(query_timeout_ms=_SHARED["qt"])
    eng.deadline = hard_deadline
    stack = list(prefixes)
    t_end = min(time.time() + slice_s, hard_deadline)
    viol = []
    incomplete = 0
    nval = 0
    g = _Guard(h)
    while stack:
        if time.time() > t_end:
            break
        p = stack.pop()
        try:
            stack.extend(eng.run_path(g, params, p))
            if nval < 2:
                # translation check: run the same path's model concretely
                nval += 1
                inp = None if eng.infeasible_last else eng.last_inputs()
                if inp is not None:
                    bad, lab, det = replay(h, params, inp)
                    if bad:
                        viol.append((lab, inp, det))
                        if len(viol) >= 3:
                            break
                    else:
                        eng.stats.validated += 1
        except Violation as v:
            stack.extend(eng.siblings)
            eng.stats.paths += 1
            viol.append((v.label, v.inputs, v.detail))
            if len(viol) >= 3:
                break
        except BudgetExceeded:
            incomplete += 1
            stack.extend(eng.siblings)
            if time.time() > hard_deadline:
                break
        except PathLimit:
            incomplete += 1
            eng.stats.pathlimit += 1
            stack.extend(eng.siblings)
    return stack, eng.stats, viol, incomplete


_SHARED = {}


class Child:
    """fn(*args) in a forked process; the parent never blocks on it and can always kill it"""

    def __init__(self, fn, args, limit):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(r)
                for h in Child.live:
                    os.close(h.fd)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    data = pickle.dumps((True, fn(*args)))
                except BaseException as e:  # noqa
                    data = pickle.dumps((False, f"{type(e).__name__}: {e}"))
                with os.fdopen(w, "wb") as out:
                    out.write(data)
            finally:
                os._exit(0)
        os.close(w)
        self.fd, self.buf, self.until = r, b"", time.time() + limit
        Child.live.append(self)

    live = []

    def end(self):
        if self in Child.live:
            Child.live.remove(self)
            os.close(self.fd)
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)

    @staticmethod
    def wait(children, timeout):
        """children that are done, as (child, result); a crashed or late child has result None"""
        out = []
        for r in select.select([c.fd for c in children], [], [], timeout)[0]:
            c = next(c for c in children if c.fd == r)
            d = os.read(r, 1 << 20)
            if d:
                c.buf += d
                continue
            c.end()
            try:
                ok, v = pickle.loads(c.buf)
            except Exception:  # noqa
                ok, v = False, "worker died"
            if not ok:
                sys.stderr.write(f"worker: {v}\n")
            out.append((c, v if ok else None))
        for c in children:
            if c in Child.live and time.time() > c.until:
                c.end()
                out.append((c, None))
        return out

    @classmethod
    def call(cls, fn, args, limit):
        c = cls(fn, args, limit)
        while True:
            d = cls.wait([c], 1.0)
            if d:
                return d[0][1]


def explore(h, params=None, budget_s=60, workers=None, qt=30000, root="/repo",
            is_known=None, stop_on_violation=True):
    """explore all paths of harness h(ctx, **params) within budget_s"""
    params = params or {}
    res = Result()
    t0 = time.time()
    deadline = t0 + budget_s
    _SHARED.update(h=h, params=params, qt=qt)
    # record which repo functions execute on a first path
    workers = workers or min(8, os.cpu_count() or 1)
    incomplete = 0
    stack = [[]]

    def handle(vs):
        for label, inputs, detail in vs:
            got = Child.call(replay, (h, params, inputs), 60)
            ok, l2, d2 = got or (False, "the replay did not end", "")
            if ok:
                res.violations.append((l2 or label, inputs, d2 or detail))
            else:
                res.unreproduced.append((label, inputs, l2))

    def has_new():
        if not stop_on_violation:
            return False
        return any(not (is_known and is_known(v)) for v in res.violations)

    tracer = Child(_trace_functions, (h, params, [], root), budget_s + 30)
    pending = {}
    first = True
    try:
        while (stack or pending) and not has_new() and time.time() <= deadline:
            while stack and len(pending) < workers:
                # hand out chunks; shallow prefixes first (largest subtrees)
                stack.sort(key=len, reverse=True)
                n = max(1, min(40, len(stack) // (workers * 2)))
                chunk = [stack.pop() for _ in range(min(n, len(stack)))]
                c = Child(_worker_slice, ((chunk, 0.5 if first else 1.5, deadline, None),), max(5.0, deadline - time.time()) + 60)
                first = False
                pending[c] = len(chunk)
            for c, v in Child.wait(list(pending), 0.2):
                n = pending.pop(c)
                if v is None:
                    incomplete += n
                    continue
                s, st, viol, inc = v
                stack.extend(s)
                res.stats.merge(st)
                incomplete += inc
                handle(viol)
        d = []
        while not d and (time.time() < t0 + 15 or time.time() < deadline):
            d = Child.wait([tracer], 1.0)
        if d and d[0][1]:
            res.functions |= d[0][1]
    finally:
        res.leftover = len(stack) + len(pending)
        for c in list(Child.live):
            c.end()
    res.complete = not stack and incomplete == 0 and res.leftover == 0
    res.wall = time.time() - t0
    return res
