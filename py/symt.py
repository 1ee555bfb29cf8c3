"""SymTensor: a tensor whose elements are symbolic (or plain) numbers.

Backed by a numpy object array, so indexing, slicing and views are numpy's.
torch functions called by the code under test on a SymTensor are routed here
through __torch_function__; `SymTorch` additionally replaces the creation
functions (zeros, arange, ...) of a module under test.  Only operations whose
torch semantics are plain element moves / elementwise arithmetic are provided;
anything else raises, and the check reports a harness error instead of guessing.
"""
import operator
from fractions import Fraction

import numpy as np
import torch

import symx
from symx import SymInt, SymBool, SymReal, ite, sym_and, sym_or, mkbool, term


class Unsupported(Exception):
    pass


def _unsup(what):
    raise Unsupported(what)


def _obj(x):
    if isinstance(x, SymTensor):
        return x.a
    if isinstance(x, torch.Tensor):
        return _arr(x.detach().cpu().tolist(), tuple(x.shape))
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else _arr(x.tolist(), x.shape)
    return x


def _arr(nested, shape=None):
    if shape is None:
        shape = []
        n = nested
        while isinstance(n, (list, tuple)):
            shape.append(len(n))
            if not n:
                break
            n = n[0]
        shape = tuple(shape)
    out = np.empty(shape, dtype=object)
    flat = []

    def rec(n):
        if isinstance(n, (list, tuple)):
            for k in n:
                rec(k)
        else:
            flat.append(n)

    rec(nested)
    if shape == ():
        out[()] = flat[0]
    else:
        out.reshape(-1)[:] = _flatobj(flat)
    return out


def _flatobj(flat):
    o = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        o[i] = v
    return o


def _exact(x, y):
    """floats that meet exact rationals (replay of real-valued inputs) become rationals, as in the encoding"""
    if isinstance(x, Fraction) and isinstance(y, float) and abs(y) != float("inf") and y == y:
        y = Fraction(repr(y))
    elif isinstance(y, Fraction) and isinstance(x, float) and abs(x) != float("inf") and x == x:
        x = Fraction(repr(x))
    return x, y


def _ew(f):
    g = np.frompyfunc(lambda x, y: f(*_exact(x, y)), 2, 1)

    def m(self, o):
        b = _obj(o)
        r = g(self.a, b)
        return SymTensor(r if isinstance(r, np.ndarray) else _arr(r, ()), _dt(self, o, f))

    def rm(self, o):
        b = _obj(o)
        r = g(b, self.a)
        return SymTensor(r if isinstance(r, np.ndarray) else _arr(r, ()), _dt(self, o, f))

    return m, rm


_CMPS = (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge)


def _dt(a, b, f):
    if f in _CMPS:
        return torch.bool
    db = getattr(b, "dtype", None)
    if db is None:
        if isinstance(b, (float, SymReal)) and not a.dtype.is_floating_point:
            return torch.get_default_dtype()
        return a.dtype
    if not isinstance(db, torch.dtype):
        return a.dtype
    return torch.promote_types(a.dtype, db)


def _and(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return sym_and(a, b)
    return a & b


def _or(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return sym_or(a, b)
    return a | b


def _not(a):
    if isinstance(a, (bool, SymBool)):
        return symx.sym_not(a)
    return ~a


class _Shape(tuple):
    def numel(self):
        n = 1
        for s in self:
            n *= s
        return n


class _Pair(tuple):
    """(values, indices) of a reduction"""
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    values = property(lambda self: self[0])
    indices = property(lambda self: self[1])


class SymTensor:
    is_cuda = False
    requires_grad = False
    device = torch.device("cpu")
    layout = torch.strided
    is_sparse = False
    is_quantized = False

    def __init__(self, a, dtype=torch.int64):
        self.a = a if isinstance(a, np.ndarray) and a.dtype == object else _obj(_mk(a))
        self.dtype = dtype

    # -- torch dispatch -------------------------------------------------
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", str(func))
        f = FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        if name.startswith("__r") and name.endswith("__") or name in (
                "add", "sub", "mul", "__eq__", "eq", "ne", "ge", "gt", "le", "lt"):
            pass
        if args:
            a0 = args[0]
            if not isinstance(a0, SymTensor) and isinstance(a0, torch.Tensor):
                if name.endswith("_") and not name.endswith("__") or name == "__setitem__":
                    raise Unsupported(f"in-place {name} of symbolic data into a real tensor")
                a0 = SymTensor(_obj(a0), a0.dtype)
            m = getattr(a0, name, None)
            if m is not None:
                return m(*args[1:], **kwargs)
        raise Unsupported(f"torch.{name} on symbolic tensor")

    def __getattr__(self, n):
        if not n.startswith("__") and hasattr(torch.Tensor, n):
            raise Unsupported(f"Tensor.{n} on symbolic tensor")
        raise AttributeError(n)

    # -- shape ----------------------------------------------------------
    @property
    def shape(self):
        return _Shape(self.a.shape)

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    ndim = property(dim)

    def numel(self):
        return self.a.size

    nelement = numel

    def __len__(self):
        return self.a.shape[0]

    def _n(self, a, dtype=None):
        if not isinstance(a, np.ndarray):
            a = _arr(a, ())
        return SymTensor(a, dtype or self.dtype)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], torch.dtype):
            raise Unsupported("view(dtype)")
        return self._n(self.a.reshape(_sh(s)))

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        s = list(self.a.shape)
        e = end_dim % len(s)
        b = start_dim % len(s)
        n = 1
        for k in s[b:e + 1]:
            n *= k
        return self._n(self.a.reshape(s[:b] + [n] + s[e + 1:]))

    def ravel(self):
        return self.flatten()

    def expand(self, *s):
        s = list(_sh(s))
        k = len(s) - self.a.ndim
        for i in range(len(s)):
            if s[i] == -1:
                s[i] = self.a.shape[i - k]
        return self._n(np.broadcast_to(self.a, s))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *s):
        return self._n(np.tile(self.a, _sh(s)))

    def repeat_interleave(self, n, dim=None, **k):
        if isinstance(n, (SymTensor, torch.Tensor)):
            n = [_i(v) for v in _obj(n).reshape(-1)] if n.dim() else _i(n)
        return self._n(np.repeat(self.a, n, axis=dim))

    def unsqueeze(self, d):
        return self._n(np.expand_dims(self.a, d))

    def squeeze(self, d=None):
        if d is not None and self.a.shape[d] != 1:
            return self
        return self._n(np.squeeze(self.a, d))

    def permute(self, *d):
        return self._n(np.transpose(self.a, _sh(d)))

    def transpose(self, a, b):
        return self._n(np.swapaxes(self.a, a, b))

    def t(self):
        return self._n(self.a.T)

    T = property(t)

    def narrow(self, dim, start, length):
        start, length = _i(start), _i(length)
        if start < 0:
            start += self.a.shape[dim]
        if length < 0 or start < 0 or start + length > self.a.shape[dim]:
            raise RuntimeError(f"start ({start}) + length ({length}) exceeds dimension size")
        ix = [slice(None)] * self.a.ndim
        ix[dim] = slice(start, start + length)
        return self._n(self.a[tuple(ix)])

    def chunk(self, n, dim=0):
        L = self.a.shape[dim]
        c = -(-L // n)
        return self.split(c, dim)

    def split(self, sizes, dim=0):
        L = self.a.shape[dim]
        if not isinstance(sizes, (list, tuple)):
            sizes = [min(sizes, L - i) for i in range(0, L, sizes)]
        if sum(sizes) != L:
            raise RuntimeError("split_with_sizes expects split_sizes to sum exactly")
        out, o = [], 0
        for s in sizes:
            out.append(self.narrow(dim, o, s))
            o += s
        return tuple(out)

    def unbind(self, dim=0):
        return tuple(self.select(dim, i) for i in range(self.a.shape[dim]))

    def select(self, dim, i):
        ix = [slice(None)] * self.a.ndim
        ix[dim] = i
        return self._n(self.a[tuple(ix)])

    def index_select(self, dim, idx):
        return self._n(np.take(self.a, [_i(v) for v in _obj(idx).reshape(-1)], axis=dim))

    def contiguous(self, *a, **k):
        return self._n(np.ascontiguousarray(self.a)) if self.a.ndim else self

    def is_contiguous(self, *a, **k):
        return self.a.flags["C_CONTIGUOUS"]

    def clone(self, *a, **k):
        return self._n(self.a.copy())

    def detach(self):
        return self

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        return self

    def pin_memory(self):
        return self

    def to(self, *a, **k):
        dt = k.get("dtype")
        for x in a:
            if isinstance(x, torch.dtype):
                dt = x
            elif isinstance(x, (SymTensor, torch.Tensor)):
                dt = x.dtype
        return self if dt is None else self._cast(dt)

    def _cast(self, dt):
        if dt == torch.bool and self.dtype != torch.bool:
            return SymTensor(np.frompyfunc(lambda v: v != 0, 1, 1)(self.a), dt)
        if self.dtype == torch.bool and dt != torch.bool:
            return SymTensor(np.frompyfunc(lambda v: symx.mkint(term(v)), 1, 1)(self.a), dt)
        if self.dtype.is_floating_point and not dt.is_floating_point and any(isinstance(v, (float, Fraction)) for v in self.a.reshape(-1)):
            return SymTensor(np.frompyfunc(lambda v: int(v) if isinstance(v, (float, Fraction)) else v, 1, 1)(self.a), dt)
        return SymTensor(self.a, dt)

    def type(self, dt=None):
        return self._cast(dt)

    def long(self):
        return self._cast(torch.int64)

    def int(self):
        return self._cast(torch.int32)

    def float(self):
        return self._cast(torch.float32)

    def bool(self):
        return self._cast(torch.bool)

    @property
    def data(self):
        return self

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def element_size(self):
        return torch.empty(0, dtype=self.dtype).element_size()

    # -- access ---------------------------------------------------------
    def gather(self, dim, index):
        return f_gather(self, dim, index)

    def argmax(self, dim=None, keepdim=False):
        return f_argmax(self, dim, keepdim)

    def sort(self, dim=-1, descending=False):
        return f_sort(self, dim, descending)

    def topk(self, k, dim=-1, largest=True, sorted=True):
        return f_topk(self, k, dim, largest)

    def scatter_(self, dim, index, src):
        ix = _obj(index)
        dim %= self.a.ndim
        for p in np.ndindex(*ix.shape):
            q = p[:dim] + (_i(ix[p]) if isinstance(ix[p], SymInt) else int(ix[p]),) + p[dim + 1:]
            if not 0 <= q[dim] < self.a.shape[dim]:
                raise RuntimeError("index out of bounds in scatter_")
            self.a[q] = _obj(src)[p] if isinstance(src, (SymTensor, torch.Tensor)) else src
        return self

    def item(self):
        assert self.a.size == 1, "item() of a tensor with several elements"
        return self.a.reshape(-1)[0]

    def tolist(self):
        return self.a.tolist() if self.a.ndim else self.a[()]

    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self[i]

    def __bool__(self):
        return bool(self.item())

    def __int__(self):
        return int(self.item())

    __index__ = __int__

    def _ix(self, ix):
        one = not isinstance(ix, tuple)
        out = []
        for k in ((ix,) if one else ix):
            if isinstance(k, (SymTensor, torch.Tensor)):
                v = _obj(k)
                if k.dtype == torch.bool:
                    v = np.array([bool(x) for x in v.reshape(-1)], dtype=bool).reshape(v.shape)
                else:
                    v = np.array([int(x) for x in v.reshape(-1)], dtype=int).reshape(v.shape)
                out.append(v)
            elif isinstance(k, slice):
                out.append(slice(*[None if x is None else _i(x) for x in (k.start, k.stop, k.step)]))
            elif k is None or k is Ellipsis or isinstance(k, bool):
                out.append(k)
            elif isinstance(k, (list, np.ndarray)):
                out.append([_i(x) for x in k])
            else:
                out.append(_i(k))
        return out[0] if one else tuple(out)

    def __getitem__(self, ix):
        return self._n(self.a[self._ix(ix)])

    def __setitem__(self, ix, v):
        b = _obj(v)
        if isinstance(ix, SymTensor) and ix.dtype == torch.bool and ix.a.shape == self.a.shape \
                and not isinstance(b, np.ndarray) and not (isinstance(b, float) and abs(b) == float("inf")):
            self.a[...] = np.frompyfunc(lambda c, o: _ite(c, b, o), 2, 1)(ix.a, self.a)
            return
        ix = self._ix(ix)
        if isinstance(b, np.ndarray):
            self.a[ix] = b
        else:
            tgt = self.a[ix]
            if isinstance(tgt, np.ndarray):
                fill = np.empty(tgt.shape, dtype=object)
                fill.reshape(-1)[:] = _flatobj([b] * tgt.size)
                self.a[ix] = fill
            else:
                self.a[ix] = b

    def copy_(self, o, *a, **k):
        b = _obj(o)
        self.a[...] = np.broadcast_to(b, self.a.shape)
        return self

    def fill_(self, v):
        for i in np.ndindex(*self.a.shape):
            self.a[i] = v
        return self

    def zero_(self):
        return self.fill_(0)

    def masked_fill(self, m, v):
        return SymTensor(np.frompyfunc(lambda x, c: _ite(c, v, x), 2, 1)(self.a, _obj(m)), self.dtype)

    def masked_fill_(self, m, v):
        self.a[...] = np.broadcast_to(self.masked_fill(m, v).a, self.a.shape)
        return self

    # -- reductions -----------------------------------------------------
    def _red(self, f, dim=None, keepdim=False, dtype=None, init=None):
        g = np.frompyfunc(f, 2, 1)
        if dim is None:
            flat = list(self.a.reshape(-1))
            if not flat:
                return self._n(_arr(init, ()), dtype)
            r = flat[0] if len(flat) > 1 or init is None else f(init, flat[0])
            for x in flat[1:]:
                r = f(r, x)
            return self._n(_arr(r, ()), dtype)
        if isinstance(dim, (list, tuple)):
            t = self
            for d in sorted((d % self.a.ndim for d in dim), reverse=True):
                t = t._red(f, d, keepdim, dtype, init)
            return t
        if not self.a.shape[dim] and init is not None:
            sh = list(self.a.shape)
            sh[dim:dim + 1 or None] = [1] if keepdim else []
            return full(tuple(sh), init, dtype or self.dtype)
        r = g.reduce(self.a, axis=dim, keepdims=keepdim)
        return self._n(r if isinstance(r, np.ndarray) else _arr(r, ()), dtype)

    def sum(self, dim=None, keepdim=False, dtype=None):
        s = self.to(torch.int64) if self.dtype == torch.bool else self
        return s._red(operator.add, dim, keepdim, dtype, 0)

    def any(self, dim=None, keepdim=False):
        return self._cast(torch.bool)._red(_or, dim, keepdim, torch.bool, False)

    def all(self, dim=None, keepdim=False):
        return self._cast(torch.bool)._red(_and, dim, keepdim, torch.bool, True)

    def cumsum(self, dim=0, dtype=None):
        return self._n(np.frompyfunc(operator.add, 2, 1).accumulate(self.a, axis=dim), dtype)

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, (SymTensor, torch.Tensor)):
            return _ewmax(self, dim)
        if dim is not None:
            return _Pair(self.amax(dim, keepdim), f_argmax(self, dim, keepdim))
        return self._red(lambda a, b: _ite(a >= b, a, b))

    def amax(self, dim=None, keepdim=False):
        return self._red(lambda a, b: _ite(a >= b, a, b), dim, keepdim)

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = SymTensor(np.frompyfunc(lambda x: _ite(x < min, min, x), 1, 1)(r.a), self.dtype)
        if max is not None:
            r = SymTensor(np.frompyfunc(lambda x: _ite(x > max, max, x), 1, 1)(r.a), self.dtype)
        return r

    # -- arithmetic -----------------------------------------------------
    __add__, __radd__ = _ew(operator.add)
    __sub__, __rsub__ = _ew(operator.sub)
    __mul__, __rmul__ = _ew(operator.mul)
    __floordiv__, __rfloordiv__ = _ew(operator.floordiv)
    __truediv__, __rtruediv__ = _ew(operator.truediv)
    __mod__, __rmod__ = _ew(operator.mod)
    __lshift__, __rlshift__ = _ew(operator.lshift)
    __rshift__, __rrshift__ = _ew(operator.rshift)
    __and__, __rand__ = _ew(_and)
    __or__, __ror__ = _ew(_or)
    __eq__, _ = _ew(operator.eq)
    __ne__, _ = _ew(operator.ne)
    __lt__, _ = _ew(operator.lt)
    __le__, _ = _ew(operator.le)
    __gt__, _ = _ew(operator.gt)
    __ge__, _ = _ew(operator.ge)
    __hash__ = object.__hash__
    mul, eq, ne, lt, le, gt, ge = __mul__, __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    multiply, less, less_equal, greater, greater_equal, not_equal = mul, lt, le, gt, ge, ne
    true_divide = __truediv__

    def add(self, o, *, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def sub(self, o, *, alpha=1):
        return self - (o if alpha == 1 else o * alpha)

    subtract = sub
    bitwise_and, bitwise_or, bitwise_left_shift, bitwise_right_shift = (
        __and__, __or__, __lshift__, __rshift__)
    logical_and, logical_or = __and__, __or__

    def __iadd__(self, o):
        self.a[...] = (self + o).a
        return self

    def __isub__(self, o):
        self.a[...] = (self - o).a
        return self

    def __imul__(self, o):
        self.a[...] = (self * o).a
        return self

    def __ior__(self, o):
        self.a[...] = (self | o).a
        return self

    def __iand__(self, o):
        self.a[...] = (self & o).a
        return self

    add_, mul_, sub_, bitwise_or_, bitwise_and_ = __iadd__, __imul__, __isub__, __ior__, __iand__

    def __invert__(self):
        return SymTensor(np.frompyfunc(_not, 1, 1)(self.a), self.dtype)

    def __neg__(self):
        return SymTensor(np.frompyfunc(operator.neg, 1, 1)(self.a), self.dtype)

    # -- windows, linear algebra, functions of real elements -------------
    def unfold(self, dim, size, step):
        n = (self.a.shape[dim] - size) // step + 1
        if n < 0 or size > self.a.shape[dim]:
            raise RuntimeError("maximum size for tensor at dimension is smaller than size")
        return self._n(np.stack([np.moveaxis(np.take(self.a, range(i * step, i * step + size), axis=dim), dim, -1)
                                 for i in range(n)], axis=dim))

    def bmm(self, o):
        A, B = self.a, _obj(o)
        if A.ndim != 3 or B.ndim != 3 or A.shape[0] != B.shape[0] or A.shape[2] != B.shape[1]:
            raise RuntimeError(f"bmm of {A.shape} and {B.shape}")
        out = np.empty((A.shape[0], A.shape[1], B.shape[2]), dtype=object)
        for n in range(A.shape[0]):
            out[n] = _mm(A[n], B[n])
        return SymTensor(out, self.dtype)

    def norm(self, p=2, dim=None, keepdim=False, **k):
        import poly
        if p not in (2, 2.0, "fro", None):
            raise Unsupported("norm order")
        return (self * self).sum(dim=dim, keepdim=keepdim)._fn(poly.sqrt)

    def _fn(self, f):
        g = np.frompyfunc(lambda x: f(float(x) if isinstance(x, (int, Fraction)) and not isinstance(x, bool) else x), 1, 1)
        r = g(self.a)
        return self._n(r if isinstance(r, np.ndarray) else _arr(r, ()))

    def exp(self):
        import poly
        return self._fn(poly.exp)

    def log(self):
        import poly
        return self._fn(poly.log)

    def log1p(self):
        import poly
        return self._fn(poly.log1p)

    def sigmoid(self):
        import poly
        return self._fn(poly.sigmoid)

    def sqrt(self):
        import poly
        return self._fn(poly.sqrt)

    def tril(self, diagonal=0):
        return self._mask(lambda i, j: j - i <= diagonal)

    def triu(self, diagonal=0):
        return self._mask(lambda i, j: j - i >= diagonal)

    def _mask(self, keep):
        a = self.a.copy()
        for p in np.ndindex(*a.shape):
            if not keep(p[-2], p[-1]):
                a[p] = 0
        return self._n(a)

    def __matmul__(self, o):
        A, B = self.a, _obj(o)
        return SymTensor(_arr(_mm(A, B).tolist(), None) if False else _mm(A, B), self.dtype)

    matmul = __matmul__

    # -- further operations, in terms of the ones above ------------------
    def amin(self, dim=None, keepdim=False):
        return self._red(lambda a, b: _ite(a <= b, a, b), dim, keepdim)

    def min(self, dim=None, keepdim=False):
        if isinstance(dim, (SymTensor, torch.Tensor)):
            return _ewmin(self, dim)
        if dim is not None:
            return _Pair(self.amin(dim, keepdim), self.argmin(dim, keepdim))
        return self.amin()

    def argmin(self, dim=None, keepdim=False):
        return f_argmax(self, dim, keepdim, operator.lt)

    def prod(self, dim=None, keepdim=False, dtype=None):
        return self._red(operator.mul, dim, keepdim, dtype, 1)

    def mean(self, dim=None, keepdim=False, dtype=None):
        ax = range(self.a.ndim) if dim is None else ([dim] if isinstance(dim, int) else dim)
        n = 1
        for d in ax:
            n *= self.a.shape[d]
        return self.sum(dim, keepdim, dtype) / n

    def count_nonzero(self, dim=None):
        return (self != 0).sum(dim)

    def cumprod(self, dim, dtype=None):
        return self._n(np.frompyfunc(operator.mul, 2, 1).accumulate(self.a, axis=dim), dtype)

    def diff(self, n=1, dim=-1, **k):
        L = self.a.shape[dim]
        return self.narrow(dim, 1, L - 1) - self.narrow(dim, 0, L - 1)

    def flip(self, *d):
        return self._n(np.flip(self.a, _sh(d)).copy())

    def fliplr(self):
        return self.flip(1)

    def roll(self, shifts, dims=None):
        return self._n(np.roll(self.a, shifts, axis=dims))

    def movedim(self, s, d):
        return self._n(np.moveaxis(self.a, s, d))

    moveaxis = movedim
    swapaxes = swapdims = transpose

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def tile(self, *s):
        return self._n(np.tile(self.a, _sh(s)))

    def broadcast_to(self, *s):
        return self.expand(*s)

    def unflatten(self, dim, sizes):
        dim %= self.a.ndim
        sh = list(self.a.shape)
        sz = list(_sh((sizes,)))
        if -1 in sz:
            k = 1
            for x in sz:
                k *= x if x != -1 else 1
            sz[sz.index(-1)] = sh[dim] // k
        return self._n(self.a.reshape(sh[:dim] + sz + sh[dim + 1:]))

    def tensor_split(self, n, dim=0):
        if isinstance(n, int):
            return tuple(self._n(x) for x in np.array_split(self.a, n, axis=dim))
        b = [0] + [_i(x) for x in n] + [self.a.shape[dim]]
        return tuple(self.narrow(dim, lo, max(0, hi - lo)) for lo, hi in zip(b, b[1:]))

    def split_with_sizes(self, sizes, dim=0):
        return self.split([_i(x) for x in sizes], dim)

    def unsqueeze_(self, d):
        self.a = np.expand_dims(self.a, d)
        return self

    def squeeze_(self, d=None):
        self.a = self.squeeze(d).a
        return self

    def new_zeros(self, *s, dtype=None, **k):
        return full(_sh(s), 0, dtype or self.dtype)

    def new_ones(self, *s, dtype=None, **k):
        return full(_sh(s), 1, dtype or self.dtype)

    def new_empty(self, *s, dtype=None, **k):
        return full(_sh(s), POISON, dtype or self.dtype)

    def new_full(self, s, v, dtype=None, **k):
        return full(_sh((s,)), v.item() if isinstance(v, SymTensor) else v, dtype or self.dtype)

    def new_tensor(self, data, dtype=None, **k):
        return SymTensor(_mk(data), dtype or self.dtype)

    def scatter(self, dim, index, src):
        return self.clone().scatter_(dim, index, src)

    def scatter_add_(self, dim, index, src):
        ix, b = _obj(index), _obj(src)
        dim %= self.a.ndim
        for p in np.ndindex(*ix.shape):
            q = p[:dim] + (_i(ix[p]),) + p[dim + 1:]
            if not 0 <= q[dim] < self.a.shape[dim]:
                raise RuntimeError("index out of bounds in scatter_add_")
            self.a[q] = self.a[q] + b[p]
        return self

    def scatter_add(self, dim, index, src):
        return self.clone().scatter_add_(dim, index, src)

    def _rows(self, dim, index):
        ix = [slice(None)] * self.a.ndim
        for n, v in enumerate(_obj(index).reshape(-1)):
            v = _i(v)
            if not 0 <= v < self.a.shape[dim]:
                raise IndexError("index out of range in self")
            ix[dim] = v
            yield n, tuple(ix)

    def index_copy_(self, dim, index, src):
        for n, q in self._rows(dim, index):
            self.a[q] = np.take(_obj(src), n, axis=dim)
        return self

    def index_add_(self, dim, index, src, *, alpha=1):
        for n, q in self._rows(dim, index):
            self.a[q] = self.a[q] + np.take(_obj(src), n, axis=dim) * alpha
        return self

    def index_fill_(self, dim, index, v):
        v = v.item() if isinstance(v, (SymTensor, torch.Tensor)) else v
        for n, q in self._rows(dim, index):
            self.a[q] = v
        return self

    def index_put_(self, ix, v, accumulate=False):
        if accumulate:
            raise Unsupported("index_put_(accumulate)")
        self[tuple(ix)] = v
        return self

    def masked_select(self, m):
        return self[_st(m).expand(*self.a.shape)]

    def nonzero(self, *, as_tuple=False):
        hit = [p for p in np.ndindex(*self.a.shape) if bool(self.a[p] != 0)]
        if as_tuple:
            return tuple(SymTensor(_flatobj([p[d] for p in hit])) for d in range(self.a.ndim))
        out = np.empty((len(hit), self.a.ndim), dtype=object)
        for i, p in enumerate(hit):
            out[i] = p
        return SymTensor(out)

    def take_along_dim(self, index, dim=None):
        return f_gather(self, dim, index) if dim is not None else f_gather(self.flatten(), 0, _st(index).flatten())

    def abs(self):
        return self._n(np.frompyfunc(lambda x: _ite(x < 0, -x, x), 1, 1)(self.a))

    def neg(self):
        return -self

    def square(self):
        return self * self

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise Unsupported("pow")
        r = self * 0 + 1
        for _ in range(k):
            r = r * self
        return r

    pow = __pow__

    def reciprocal(self):
        return 1 / self

    def rsqrt(self):
        return 1 / self.sqrt()

    def div(self, o, *, rounding_mode=None):
        if rounding_mode is None:
            return self / o
        if rounding_mode == "floor":
            return self // o
        raise Unsupported("div rounding mode")

    def floor_divide(self, o):
        return self // o

    def remainder(self, o):
        return self % o

    def minimum(self, o):
        return _ewmin(self, _st(o))

    def maximum(self, o):
        return _ewmax(self, _st(o))

    def clamp_(self, min=None, max=None):
        self.a[...] = self.clamp(min, max).a
        return self

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    clip = clamp

    def div_(self, o):
        self.a[...] = (self / o).a
        return self

    __itruediv__ = div_

    def __ifloordiv__(self, o):
        self.a[...] = (self // o).a
        return self

    def __imod__(self, o):
        self.a[...] = (self % o).a
        return self

    def logical_not(self):
        return ~self._cast(torch.bool)

    bitwise_not = __invert__

    def logical_xor(self, o):
        return self._cast(torch.bool) != _st(o)._cast(torch.bool)

    def isfinite(self):
        return SymTensor(np.frompyfunc(lambda x: not (isinstance(x, float) and (x != x or abs(x) == float("inf"))), 1, 1)(self.a), torch.bool)

    def isinf(self):
        return SymTensor(np.frompyfunc(lambda x: isinstance(x, float) and abs(x) == float("inf"), 1, 1)(self.a), torch.bool)

    def isnan(self):
        return SymTensor(np.frompyfunc(lambda x: isinstance(x, float) and x != x, 1, 1)(self.a), torch.bool)

    def equal(self, o):
        return tuple(self.shape) == tuple(o.shape) and bool((self == o).all())

    def addmm(self, a, b):
        return self + _st(a) @ b

    def mm(self, o):
        return self @ o

    mv = dot = mm

    def half(self):
        return self._cast(torch.float16)

    def bfloat16(self):
        return self._cast(torch.bfloat16)

    def double(self):
        return self._cast(torch.float64)

    def short(self):
        return self._cast(torch.int16)

    def byte(self):
        return self._cast(torch.uint8)

    def type_as(self, o):
        return self._cast(o.dtype)

    def requires_grad_(self, *a):
        return self

    def stride(self, d=None):
        st = tuple(x // 8 for x in self.a.strides)
        return st if d is None else st[d]

    def get_device(self):
        return -1

    def argsort(self, dim=-1, descending=False, stable=False):
        return f_argsort(self, dim, descending)

    def unique(self, **k):
        return f_unique(self, **k)

    def where(self, c, o):
        return f_where(c, self, o)

    def isin(self, o):
        return f_isin(self, o)

    def bincount(self, weights=None, minlength=0):
        if weights is not None:
            raise Unsupported("bincount weights")
        v = [_i(x) for x in self.a.reshape(-1)]
        return SymTensor(_flatobj([v.count(i) for i in range(max(v + [minlength - 1]) + 1)]))

    def diagonal(self, offset=0, dim1=0, dim2=1):
        return self._n(np.diagonal(self.a, offset, dim1, dim2))

    def outer(self, o):
        return self.unsqueeze(1) * _st(o).unsqueeze(0)

    def __xor__(self, o):
        return self.logical_xor(o) if self.dtype == torch.bool else _ewxor(self, o)

    bitwise_xor = __xor__

    def __repr__(self):
        return f"SymTensor({self.a.tolist()})"

    def __deepcopy__(self, memo):
        return self.clone()


def _mm(A, B):
    out = np.empty(A.shape[:-1] + (B.shape[-1],), dtype=object)
    for i in np.ndindex(*A.shape[:-1]):
        for j in range(B.shape[-1]):
            s = 0
            for k in range(A.shape[-1]):
                s = s + A[i + (k,)] * B[k, j]
            out[i + (j,)] = s
    return out


def _ite(c, a, b):
    a, b = _exact(a, b)
    if c is True:
        return a
    if c is False:
        return b
    if getattr(a, "_sym_fork", False) or getattr(b, "_sym_fork", False):
        return a if bool(c) else b
    return ite(c, a, b)


def _mk(x):
    if isinstance(x, np.ndarray):
        return _obj(x)
    if isinstance(x, (list, tuple)):
        return _arr([_obj(v).tolist() if isinstance(v, SymTensor) else v for v in x])
    return _arr(x, ())


def _i(x):
    if isinstance(x, (SymTensor, torch.Tensor)):
        x = x.item()
    return int(x)


def _sh(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)):
        s = s[0]
    return tuple(_i(k) for k in s)


def _st(x):
    return x if isinstance(x, SymTensor) else SymTensor(_obj(x), x.dtype)


def f_cat(ts, dim=0, **k):
    ts = [_st(t) for t in ts]
    ts2 = [t for t in ts if not (t.a.ndim == 1 and t.a.size == 0)] or ts[:1]
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
    return SymTensor(np.concatenate([t.a for t in ts2], axis=dim), dt)


def f_stack(ts, dim=0, **k):
    ts = [_st(t) for t in ts]
    return SymTensor(np.stack([t.a for t in ts], axis=dim), ts[0].dtype)


def f_where(c, a, b):
    c = _st(c)
    dt = next((x.dtype for x in (a, b) if isinstance(x, (SymTensor, torch.Tensor))), torch.int64)
    return SymTensor(np.frompyfunc(_ite, 3, 1)(c.a, _obj(a), _obj(b)), dt)


def f_linear(x, w, bias=None):
    r = _st(x) @ _st(w).t()
    return r if bias is None else r + bias


def f_embedding(ids, w, *a, **k):
    ids, w = _st(ids), _st(w)
    out = np.empty(ids.a.shape + w.a.shape[1:], dtype=object)
    for i in np.ndindex(*ids.a.shape):
        v = ids.a[i]
        if isinstance(v, SymInt):
            n = w.a.shape[0]
            if not bool(sym_and(v >= 0, v < n)):
                raise IndexError("index out of range in self")
            for j in np.ndindex(*w.a.shape[1:]):
                r = w.a[(n - 1,) + j]
                for q in range(n - 2, -1, -1):
                    r = _ite(v == q, w.a[(q,) + j], r)
                out[i + j] = r
        else:
            if not 0 <= v < w.a.shape[0]:
                raise IndexError("index out of range in self")
            out[i] = w.a[v]
    return SymTensor(out, w.dtype)


def _order(v, descending):
    """stable sort permutation of a list of numbers (forks on comparisons)"""
    import functools
    lt = operator.gt if descending else operator.lt
    return sorted(range(len(v)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(lt(v[i], v[j])) else (1 if bool(lt(v[j], v[i])) else 0)))


def f_sort(t, dim=-1, descending=False, **k):
    if dim not in (-1, t.a.ndim - 1):
        v, i = f_sort(t._n(np.moveaxis(t.a, dim, -1)), -1, descending)
        return _Pair(v._n(np.moveaxis(v.a, -1, dim)), i._n(np.moveaxis(i.a, -1, dim)))
    vals, idx = t.a.copy(), np.empty(t.a.shape, dtype=object)
    for r in np.ndindex(*t.a.shape[:-1]):
        o = _order(list(t.a[r]), descending)
        for c, j in enumerate(o):
            vals[r + (c,)], idx[r + (c,)] = t.a[r + (j,)], j
    return _Pair(SymTensor(vals, t.dtype), SymTensor(idx))


def f_argsort(t, dim=-1, descending=False, **k):
    return f_sort(t, dim, descending)[1]


def f_topk(t, k, dim=-1, largest=True, sorted=True):
    k = _i(k)
    if not 0 <= k <= t.a.shape[dim]:
        raise RuntimeError("selected index k out of range")
    v, i = f_sort(t, dim, largest)
    return _Pair(v.narrow(dim, 0, k), i.narrow(dim, 0, k))


def f_gather(t, dim, index, **k):
    n = t.a.shape[dim]
    dim %= t.a.ndim
    ix = _obj(index)
    out = np.empty(ix.shape, dtype=object)
    for p in np.ndindex(*ix.shape):
        v = ix[p]
        if not bool(sym_and(v >= 0, v < n)):
            raise RuntimeError(f"index {v} is out of bounds for dimension {dim} with size {n}")
        line = [t.a[p[:dim] + (q,) + p[dim + 1:]] for q in range(n)]
        r = line[-1]
        for q in range(n - 2, -1, -1):
            r = _ite(v == q, line[q], r)
        out[p] = r
    return SymTensor(out, t.dtype)


def f_argmax(t, dim=None, keepdim=False, better=operator.gt):
    """first index of a largest (smallest) element (as a formula)"""
    if dim not in (None, -1, t.a.ndim - 1):
        r = f_argmax(t._n(np.moveaxis(t.a, dim, -1)), -1, keepdim, better)
        return r._n(np.moveaxis(r.a, -1, dim)) if keepdim else r
    a = t.a if dim is not None else t.a.reshape(-1)
    out = np.empty(a.shape[:-1], dtype=object)
    for p in np.ndindex(*a.shape[:-1]):
        best, ix = a[p][0], 0
        for q in range(1, a.shape[-1]):
            g = better(a[p][q], best)
            best, ix = _ite(g, a[p][q], best), _ite(g, q, ix)
        out[p] = ix
    return SymTensor(out[..., None] if keepdim else out)


def f_isin(a, b):
    b = list(_st(b).a.reshape(-1))
    return SymTensor(np.frompyfunc(lambda x: sym_or(*[x == y for y in b]) if b else False, 1, 1)(_st(a).a), torch.bool)


def f_einsum(eq, *ts):
    ts = [_st(t) for t in (ts[0] if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts)]
    eq = eq.replace(" ", "")
    if "." in eq:
        raise Unsupported("einsum with ellipsis")
    ins, out = eq.split("->") if "->" in eq else (eq, None)
    ins = ins.split(",")
    dims = {}
    for n, t in zip(ins, ts):
        for c, d in zip(n, t.a.shape):
            if dims.setdefault(c, d) != d:
                raise RuntimeError("einsum(): operands do not broadcast")
    if out is None:
        out = "".join(sorted(c for c in dims if "".join(ins).count(c) == 1))
    rest = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for p in np.ndindex(*r.shape):
        at = dict(zip(out, p))
        s = 0
        for q in np.ndindex(*[dims[c] for c in rest]):
            at.update(zip(rest, q))
            x = 1
            for n, t in zip(ins, ts):
                x = x * t.a[tuple(at[c] for c in n)]
            s = s + x
        r[p] = s
    return SymTensor(r, ts[0].dtype)


def f_searchsorted(seq, v, *, right=False, **k):
    b = list(_st(seq).a.reshape(-1))
    cmp = operator.le if right else operator.lt
    def one(x):
        n = 0
        for y in b:
            n = n + _ite(cmp(y, x), 1, 0)
        return n
    if not isinstance(v, (SymTensor, torch.Tensor)):
        return SymTensor(_arr(one(v), ()))
    return SymTensor(np.frompyfunc(one, 1, 1)(_st(v).a))


_ewmin, _ = _ew(lambda a, b: _ite(a <= b, a, b))
_ewxor, _ = _ew(operator.xor)
_ewmax, _ = _ew(lambda a, b: _ite(a >= b, a, b))


def f_cumsum(t, dim=0, dtype=None, out=None):
    r = _st(t).cumsum(dim, dtype)
    if out is None:
        return r
    if tuple(out.shape) != tuple(r.shape):
        raise Unsupported("cumsum resizes its output")
    return out.copy_(r)


def f_silu(t, inplace=False):
    import poly
    return t._fn(poly.silu)


def f_softplus(t, beta=1, threshold=20):
    import poly
    if beta != 1 or threshold != 20:
        raise Unsupported("softplus parameters")
    return t._fn(poly.softplus)


def f_pad(t, pad, mode="constant", value=0):
    pad = [_i(x) for x in pad]
    w = [(0, 0)] * t.a.ndim
    for i in range(len(pad) // 2):
        w[t.a.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    if mode != "constant":
        raise Unsupported("pad mode")
    return SymTensor(np.pad(t.a, w, constant_values=value if value is not None else 0), t.dtype)


def f_solve_triangular(M, B, *, upper, left=True, unitriangular=False, **k):
    M, B = _st(M), _st(B)
    if upper or not left:
        raise Unsupported("solve_triangular form")
    n = M.a.shape[-1]
    lead = M.a.shape[:-2]
    out = np.empty(B.a.shape, dtype=object)
    for p in np.ndindex(*lead):
        for i in range(n):
            for c in range(B.a.shape[-1]):
                v = B.a[p + (i, c)]
                for j in range(i):
                    v = v - M.a[p + (i, j)] * out[p + (j, c)]
                out[p + (i, c)] = v if unitriangular else v / M.a[p + (i, i)]
    return SymTensor(out, B.dtype)


def f_unique(t, **k):
    out = []
    for x in t.a.reshape(-1):
        if not any(bool(x == y) for y in out):
            out.append(x)
    s, _ = f_sort(SymTensor(_flatobj(out), t.dtype))
    return s


def f_zeros_like(t, **k):
    return full(tuple(t.shape), 0, k.get("dtype") or t.dtype)


def f_like(v):
    def f(t, *a, **k):
        x = a[0] if a else k.get("fill_value", v)
        return full(tuple(t.shape), x.item() if isinstance(x, (SymTensor, torch.Tensor)) else x, k.get("dtype") or t.dtype)
    return f


def f_broadcast(*ts):
    ts = [_st(t) for t in ts]
    sh = np.broadcast_shapes(*[t.a.shape for t in ts])
    return tuple(t.expand(*sh) for t in ts)


FUNCS = dict(
    ones_like=f_like(1), full_like=f_like(0), einsum=f_einsum, searchsorted=f_searchsorted, isin=f_isin,
    bucketize=lambda v, b, *, right=False, **k: f_searchsorted(b, v, right=right), broadcast_tensors=f_broadcast,
    hstack=lambda ts: f_cat(ts, 0 if _st(ts[0]).a.ndim == 1 else 1),
    vstack=lambda ts: f_cat([_st(t) if _st(t).a.ndim > 1 else _st(t).unsqueeze(0) for t in ts], 0),
    row_stack=lambda ts: f_cat([_st(t) if _st(t).a.ndim > 1 else _st(t).unsqueeze(0) for t in ts], 0),
    concatenate=f_cat, minimum=lambda a, b: _ewmin(_st(a), _st(b)), square=lambda t: t * t,
    baddbmm=lambda c, a, b, **k: c + _st(a).bmm(b) if not k else _unsup("baddbmm factors"),
    relu=lambda t, **k: t.clamp(min=0),
    cat=f_cat, concat=f_cat, stack=f_stack, where=f_where, linear=f_linear, embedding=f_embedding,
    sort=f_sort, argsort=f_argsort, topk=f_topk, gather=f_gather, argmax=f_argmax, unique=f_unique, zeros_like=f_zeros_like, empty_like=lambda t, **k: full(tuple(t.shape), POISON, k.get('dtype') or t.dtype),
    logical_not=lambda t: t.logical_not(), cumsum=f_cumsum, clamp=lambda t, *a, **k: t.clamp(*a, **k),
    silu=f_silu, softplus=f_softplus, pad=f_pad, linalg_solve_triangular=f_solve_triangular,
    maximum=lambda a, b: _st(a).max(_st(b)), matmul=lambda a, b: _st(a) @ _st(b), numel=lambda t: t.numel(),
)


def full(shape, v, dtype):
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = _flatobj([v] * a.size)
    return SymTensor(a, dtype)


def _shape_args(s):
    return _sh(s)


class SymTorch:
    """stands for the torch module inside a module under test"""

    def __init__(self, **over):
        self._over = over

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(torch, n)

    def zeros(self, *s, dtype=None, device=None, **k):
        return full(_shape_args(s), 0, dtype or torch.get_default_dtype())

    def empty(self, *s, dtype=None, device=None, **k):
        return full(_shape_args(s), POISON, dtype or torch.get_default_dtype())

    def ones(self, *s, dtype=None, **k):
        return full(_shape_args(s), 1, dtype or torch.get_default_dtype())

    def full(self, s, v, dtype=None, **k):
        return full(_sh((s,)), v.item() if isinstance(v, SymTensor) else v,
                    dtype or (torch.int64 if not isinstance(v, float) else torch.float32))

    def arange(self, a, b=None, step=1, dtype=None, device=None, **k):
        if b is None:
            a, b = 0, a
        a, b = [x.item() if isinstance(x, (SymTensor, torch.Tensor)) else x for x in (a, b)]
        n = int((b - a + step - 1) // step)
        return SymTensor(_flatobj([a + i * step for i in range(n)]), dtype or torch.int64)

    def tensor(self, data, dtype=None, device=None, **k):
        if isinstance(data, (SymTensor, torch.Tensor)):
            return _st(data).clone()
        a = _mk(data)
        dt = dtype
        if dt is None:
            f = list(a.reshape(-1))
            dt = torch.float32 if any(isinstance(v, (float, SymReal)) for v in f) else (
                torch.bool if f and all(isinstance(v, (bool, SymBool)) for v in f) else torch.int64)
        return SymTensor(a, dt)

    as_tensor = tensor

    def eye(self, n, m=None, dtype=None, device=None, **k):
        a = full((n, n if m is None else m), 0, dtype or torch.get_default_dtype())
        for i in range(min(a.shape)):
            a.a[i, i] = 1
        return a

    def is_tensor(self, x):
        return isinstance(x, (SymTensor, torch.Tensor))


class _Poison:
    """an element of torch.empty(): any use in arithmetic is an error"""

    def __repr__(self):
        return "uninitialised"

    def _bad(self, *a):
        raise symx.CodeError("uninitialised tensor element used")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __bool__ = __int__ = __index__ = _bad


POISON = _Poison()


def sym(ctx, name, shape, lo=None, hi=None, real=False, dtype=None):
    """fresh symbolic tensor"""
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        nm = name + "_" + "_".join(map(str, i))
        a[i] = ctx.real(nm) if real else ctx.int(nm, lo, hi)
    return SymTensor(a, dtype or (torch.float32 if real else torch.int64))


def same(t, u):
    """all elements equal (one formula)"""
    a, b = _obj(t), _obj(u)
    if a.shape != b.shape:
        return False
    cs = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if x is POISON or y is POISON:
            return False
        if x is y:
            continue
        c = x == y
        if c is False:
            return False
        cs.append(c)
    return sym_and(*cs)


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, (SymTensor, torch.Tensor)):
            x = x.item()
        return x if isinstance(x, SymInt) else int(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))


class symbolic_int(metaclass=_IntMeta):
    """shadows the builtin `int` in a module under test: int(x) of a symbolic
    integer is that integer, not a fork over its values"""


def patch(module, ints=True, **over):
    module.torch = SymTorch(**over)
    if ints:
        module.int = symbolic_int
