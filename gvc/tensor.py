"""Tensors of symbolic shape, and the contracts of the Keras operations on them.

An STensor is a shape (Python ints and SInts) and a function from index tuples to values
(integers, RP terms or truth values). Every operation below states what Keras's operation of
that name returns, entry by entry, and what it requires: these are the (trusted) contracts of the
Keras dependency, tested against the real Keras by gvc/conformance.py.

Tensors without anything symbolic are plain numpy arrays, on which the operations delegate to
numpy.
"""

import builtins
import itertools
import math
from fractions import Fraction

import numpy as np

from . import poly, terms
from .poly import ATOMS, SBool, SInt, Unsupported, conj, disj, eq0, ge0, neg, pkey, prove
from .terms import RP, agg, app, const, extremum, inv, ite, read, recip, to_rp

_int, _max, _min, _abs, _sum, _any, _all = int, max, min, abs, sum, any, all

FLOATS = ("float16", "bfloat16", "float32", "float64")


class OpError(ValueError):
    """The operation rejects its arguments, as Keras would."""


def is_int(x):
    return (isinstance(x, (_int, SInt)) and not isinstance(x, bool)) or (
        isinstance(x, np.integer)
    )


def as_int(x):
    if isinstance(x, np.integer):
        return _int(x)
    if isinstance(x, bool):
        return _int(x)
    if is_int(x):
        return x
    if isinstance(x, np.ndarray) and x.shape == ():
        return as_int(x.item())
    if isinstance(x, STensor) and len(x.shape) == 0:
        v = x.at(())
        if is_int(v):
            return v
    if hasattr(x, "__index__") and not isinstance(x, STensor):
        return x.__index__()
    raise TypeError(f"expected an integer, got {x!r}")


def must(f, what):
    """A requirement of an operation: proved, refuted (Keras raises), or undecided."""
    if isinstance(f, bool):
        v = f
    else:
        v = poly.CTX.try_decide(f) if poly.CTX is not None else (True if prove(f) else None)
        if v is None:
            v = poly.CTX.decide(f)
    if not v:
        raise OpError(what)


def dims_equal(a, b):
    d = a - b
    return d == 0 if not isinstance(d, SInt) else prove(eq0(d))


def size_of(shape):
    out = 1
    for s in shape:
        out = out * s
    return out


class STensor:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, fn, dtype="float32"):
        self.shape = tuple(as_int(s) for s in shape)
        self.fn = fn
        self.dtype = dtype
        self._memo = {}

    # ---- entries
    def at(self, idx):
        ctx = poly.CTX
        k = tuple(map(pkey, idx))
        if ctx is not None and ctx.guards:
            k = (k, tuple(g.key for g in ctx.guards))
        v = self._memo.get(k)
        if v is None:
            if len(idx) != len(self.shape):
                raise AssertionError("rank mismatch inside of the engine")
            saved = None
            if ctx is not None:
                saved, ctx.may_fork = ctx.may_fork, False
            try:
                v = self.fn(tuple(idx))
            finally:
                if ctx is not None:
                    ctx.may_fork = saved
            self._memo[k] = v
        return v

    # ---- attributes
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return size_of(self.shape)

    def numpy(self):
        raise Unsupported("symbolic tensor converted to numpy")

    def __array__(self, *a, **k):
        raise Unsupported("symbolic tensor converted to numpy")

    __jax_array__ = __array__

    def item(self):
        if self.shape:
            raise Unsupported("item of a tensor")
        return self.at(())

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        if isinstance(n, SInt):
            raise Unsupported("len of a symbolic axis")
        return n

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.shape:
            raise ValueError("The truth value of an array is ambiguous.")
        return bool(self.at(()))

    def __index__(self):
        v = self.item()
        if isinstance(v, _int):
            return v
        raise Unsupported("symbolic tensor used as a concrete index")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("symbolic tensor converted to float")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"<tensor {self.shape} {self.dtype}>"

    # ---- operators
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return subtract(self, o)

    def __rsub__(self, o):
        return subtract(o, self)

    def __mul__(self, o):
        return multiply(self, o)

    def __rmul__(self, o):
        return multiply(o, self)

    def __truediv__(self, o):
        return true_divide(self, o)

    def __rtruediv__(self, o):
        return true_divide(o, self)

    def __floordiv__(self, o):
        return floor_divide(self, o)

    def __mod__(self, o):
        return mod(self, o)

    def __neg__(self):
        return negative(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __eq__(self, o):
        return equal(self, o)

    def __ne__(self, o):
        return not_equal(self, o)

    def __lt__(self, o):
        return less(self, o)

    def __le__(self, o):
        return less_equal(self, o)

    def __gt__(self, o):
        return greater(self, o)

    def __ge__(self, o):
        return greater_equal(self, o)

    def __getitem__(self, key):
        return getitem(self, key)

    # numpy-like methods that jax arrays have as well
    def astype(self, dtype):
        return cast(self, dtype)

    def reshape(self, *shape):
        return reshape(self, shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape)

    def transpose(self, *axes):
        return transpose(self, axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else (axes or None))

    def ravel(self):
        return reshape(self, [-1])

    flatten = ravel

    def max(self, axis=None, keepdims=False):
        return max(self, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return min(self, axis, keepdims)

    def sum(self, axis=None, keepdims=False):
        return sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return mean(self, axis, keepdims)

    @property
    def T(self):
        return transpose(self)


def variable(name, shape, dtype="float32"):
    """An uninterpreted tensor."""
    return STensor(shape, lambda idx: read(name, idx), dtype)


# ---------------------------------------------------------------- concrete or symbolic

def symbolic(x):
    if isinstance(x, (STensor, SInt, SBool, RP)):
        return True
    if type(x).__name__ == "Variable" and hasattr(x, "value"):
        return symbolic(x.value)
    if isinstance(x, (list, tuple)):
        return _any(symbolic(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _any(symbolic(y) for y in x.ravel())
    return False


def np_dtype(x):
    return str(x.dtype) if x.dtype != object else "int32"


def tensor(x, dtype=None):
    """Any tensor-like thing as an STensor."""
    if isinstance(x, STensor):
        return x
    if isinstance(x, bool):
        return STensor((), lambda idx: x, dtype or "bool")
    if is_int(x):
        return STensor((), lambda idx: as_int(x), dtype or "int32")
    if isinstance(x, SBool):
        return STensor((), lambda idx: x, dtype or "bool")
    if isinstance(x, (float, RP, Fraction)) or isinstance(x, np.floating):
        v = to_rp(float(x)) if isinstance(x, np.floating) else to_rp(x)
        return STensor((), lambda idx: v, dtype or "float32")
    if isinstance(x, np.ndarray):
        arr = x
        return STensor(arr.shape, lambda idx: entry(arr, idx), dtype or np_dtype(arr))
    if isinstance(x, (list, tuple)):
        if not symbolic(x):
            return tensor(np.array(x), dtype)
        parts = [tensor(y, dtype) for y in x]
        return stack(parts, axis=0)
    if hasattr(x, "value") and isinstance(getattr(x, "value", None), (STensor, np.ndarray)):
        return tensor(x.value, dtype)
    raise TypeError(f"cannot convert {type(x).__name__} to a tensor")


def entry(arr, idx):
    """Entry of a concrete array, possibly at a symbolic index."""
    for d, i in enumerate(idx):
        if isinstance(i, SInt):
            i = poly.CTX.nf(i) if poly.CTX else i
            if isinstance(i, SInt):
                n = arr.shape[d]
                if n == 1:
                    i = 0
                else:
                    first = arr.take(0, axis=d)
                    if (arr == np.expand_dims(first, d)).all():
                        i = 0
                    elif n <= 64:
                        def pick(j, i=i):
                            rest = idx[:d] + (j,) + tuple(idx[d + 1:])
                            if j == n - 1:
                                return entry(arr, rest)
                            return ite(eq0(i - j), lambda: entry(arr, rest), lambda: pick(j + 1))

                        return pick(0)
                    else:
                        raise Unsupported("symbolic index into a table")
            return entry(arr, tuple(idx[:d]) + (i,) + tuple(idx[d + 1:])) if isinstance(idx[d], SInt) else None
    v = arr[tuple(idx)] if idx else arr.item()
    return scalar(v)


def scalar(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, np.integer):
        return _int(v)
    if isinstance(v, (float, np.floating)):
        return to_rp(float(v))
    if isinstance(v, np.ndarray):
        return scalar(v.item())
    return v


def concrete(x, dtype=None):
    if hasattr(x, "value") and not isinstance(x, np.ndarray) and isinstance(getattr(x, "value", None), np.ndarray):
        x = x.value
    a = np.asarray(x)
    if dtype is None and not isinstance(x, (np.ndarray, np.generic)):
        # Keras's default types
        if a.dtype.kind == "i":
            a = a.astype("int32")
        elif a.dtype.kind == "f":
            a = a.astype("float32")
    return a if dtype is None else a.astype(str(dtype))


def result_dtype(*xs):
    kinds = {"bool": 0, "uint8": 1, "int8": 1, "int16": 1, "int32": 2, "int64": 3, "float16": 4, "bfloat16": 4, "float32": 5, "float64": 6}
    best = None
    for x in xs:
        if isinstance(x, bool) or isinstance(x, SBool):
            d, weak = "bool", True
        elif is_int(x) and not isinstance(x, np.generic):
            d, weak = "int32", True
        elif isinstance(x, (float, RP)):
            d, weak = "float32", True
        elif isinstance(x, STensor):
            d, weak = x.dtype, False
        elif isinstance(x, (np.ndarray, np.generic)):
            d, weak = np_dtype(x), False
        else:
            d, weak = "float32", True
        r = (kinds.get(d, 5) >= 4, not weak, kinds.get(d, 5))
        if best is None or r > best[0]:
            best = (r, d)
    return best[1]


# ---------------------------------------------------------------- element-wise

def broadcast(*ts):
    n = _max(len(t.shape) for t in ts)
    shape = []
    for d in range(n):
        cur = 1
        for t in ts:
            k = d - (n - len(t.shape))
            if k < 0:
                continue
            s = t.shape[k]
            if not isinstance(s, SInt) and s == 1:
                continue
            if not isinstance(cur, SInt) and cur == 1:
                cur = s
            elif not dims_equal(cur, s):
                if isinstance(s, SInt) and poly.CTX.decide(eq0(s - 1)):
                    continue
                if isinstance(cur, SInt) and poly.CTX.decide(eq0(cur - 1)):
                    cur = s
                    continue
                must(eq0(cur - s) if isinstance(cur - s, SInt) else cur == s,
                     f"incompatible shapes for broadcasting: {[t.shape for t in ts]}")
        shape.append(cur)

    def index(t, idx):
        k = n - len(t.shape)
        return tuple(
            0 if (not isinstance(s, SInt) and s == 1) or (isinstance(s, SInt) and prove(eq0(s - 1))) else i
            for s, i in zip(t.shape, idx[k:])
        )

    return tuple(shape), index


def elementwise(fn, *xs, dtype=None):
    ts = [tensor(x) for x in xs]
    shape, index = broadcast(*ts)
    return STensor(shape, lambda idx: fn(*(t.at(index(t, idx)) for t in ts)), dtype or result_dtype(*xs))


def _binary(npf, fn, dtype=None):
    def op(x1, x2):
        if not symbolic(x1) and not symbolic(x2):
            a, b = concrete(x1), concrete(x2)
            out = npf(a, b)
            d = dtype or (result_dtype(x1, x2) if out.dtype.kind in "if" else None)
            if d and out.dtype.kind == "f" and d not in FLOATS:
                d = "float32"
            return out.astype(d) if d else out
        return elementwise(fn, x1, x2, dtype=dtype)

    return op


def _num(v):
    """A truth value as a number."""
    if isinstance(v, bool):
        return _int(v)
    if isinstance(v, SBool):
        return terms.iv(v)
    return v


def _arith(f):
    def g(a, b):
        a, b = _num(a), _num(b)
        if isinstance(a, RP) or isinstance(b, RP):
            a, b = to_rp(a), to_rp(b)
        return f(a, b)

    return g


def _fdiv(a, b):
    if isinstance(a, RP) or isinstance(b, RP):
        raise Unsupported("floor division of real values")
    return a // b


def _fmod(a, b):
    if isinstance(a, RP) or isinstance(b, RP):
        raise Unsupported("remainder of real values")
    return a % b


def _tdiv(a, b):
    return to_rp(_num(a)) * recip(_num(b))


def _cmp(f):
    def g(a, b):
        a, b = _num(a), _num(b)
        if isinstance(a, RP) or isinstance(b, RP):
            d = to_rp(a) - to_rp(b)
            if not _all(m == () for m in d.t):
                raise Unsupported("comparison of tensor values")
            return bool(f(d.t.get((), 0), 0))
        return f(a, b)

    return g


def _extr(name):
    def g(a, b):
        a, b = _num(a), _num(b)
        if not isinstance(a, RP) and not isinstance(b, RP):
            c = ge0(a - b) if isinstance(a - b, SInt) else (a - b >= 0)
            return ite(c, lambda: a if name == "nmax" else b, lambda: b if name == "nmax" else a)
        return extremum(name, [a, b])

    return g


add = _binary(np.add, _arith(lambda a, b: a + b))
subtract = _binary(np.subtract, _arith(lambda a, b: a - b))
multiply = _binary(np.multiply, _arith(lambda a, b: a * b))
floor_divide = _binary(np.floor_divide, _arith(_fdiv))
mod = remainder = _binary(np.mod, _arith(_fmod))
maximum = _binary(np.maximum, _extr("nmax"))
minimum = _binary(np.minimum, _extr("nmin"))
equal = _binary(np.equal, _cmp(lambda a, b: a == b), "bool")
not_equal = _binary(np.not_equal, _cmp(lambda a, b: a != b), "bool")
less = _binary(np.less, _cmp(lambda a, b: a < b), "bool")
less_equal = _binary(np.less_equal, _cmp(lambda a, b: a <= b), "bool")
greater = _binary(np.greater, _cmp(lambda a, b: a > b), "bool")
greater_equal = _binary(np.greater_equal, _cmp(lambda a, b: a >= b), "bool")


def _truth(v):
    if isinstance(v, (bool, SBool)):
        return v
    if is_int(v):
        return v != 0
    raise Unsupported("truth value of tensor entries")


logical_and = _binary(np.logical_and, lambda a, b: conj(_truth(a), _truth(b)), "bool")
logical_or = _binary(np.logical_or, lambda a, b: disj(_truth(a), _truth(b)), "bool")


def logical_not(x):
    return np.logical_not(concrete(x)) if not symbolic(x) else elementwise(lambda v: neg(_truth(v)), x, dtype="bool")


def true_divide(x1, x2):
    if not symbolic(x1) and not symbolic(x2):
        a = np.true_divide(concrete(x1), concrete(x2))
        d = result_dtype(x1, x2)
        return a.astype(d if d in FLOATS else "float32")
    d = result_dtype(x1, x2)
    return elementwise(_tdiv, x1, x2, dtype=d if d in FLOATS else "float32")


divide = true_divide


def negative(x):
    return np.negative(concrete(x)) if not symbolic(x) else elementwise(lambda v: -_num(v), x)


def _absv(v):
    v = _num(v)
    if is_int(v):
        return ite(v >= 0, lambda: v, lambda: -v)
    if len(v.t) <= 1 and () in v.t:
        return const(_abs(v.t[()]))
    return app("abs", v) if v.t else v


def absolute(x):
    return np.abs(concrete(x)) if not symbolic(x) else elementwise(_absv, x)


abs = absolute


def square(x):
    return np.square(concrete(x)) if not symbolic(x) else elementwise(lambda v: _num(v) * _num(v), x)


def _unary(name):
    def op(x):
        if not symbolic(x):
            raise Unsupported(f"{name} of a concrete tensor")
        return elementwise(lambda v: app(name, _num(v)), x)

    return op


relu = _unary("relu")
exp, log, sqrt, tanh, sigmoid, sin, cos, softplus, gelu, silu, elu, selu, erf, sign, rsqrt, log1p = map(
    _unary,
    "exp log sqrt tanh sigmoid sin cos softplus gelu silu elu selu erf sign rsqrt log1p".split(),
)


def where(condition, x1=None, x2=None):
    if x1 is None or x2 is None:
        if not symbolic(condition):
            return tuple(np.where(concrete(condition)))
        raise Unsupported("where without values")
    if not symbolic(condition) and not symbolic(x1) and not symbolic(x2):
        return np.where(concrete(condition), concrete(x1), concrete(x2)).astype(result_dtype(x1, x2))
    c, a, b = tensor(condition), tensor(x1), tensor(x2)
    shape, index = broadcast(c, a, b)

    def fn(idx):
        v = _truth(c.at(index(c, idx)))
        return ite(v, lambda: a.at(index(a, idx)), lambda: b.at(index(b, idx)))

    return STensor(shape, fn, result_dtype(x1, x2))


def cast(x, dtype):
    dtype = str(dtype)
    if not symbolic(x):
        return concrete(x, dtype)
    t = tensor(x)
    if t.dtype == dtype:
        return t

    def conv_value(v):
        if dtype == "bool":
            return _truth(v)
        if dtype.startswith("float") or dtype == "bfloat16":
            return to_rp(v)
        v = _num(v)
        if isinstance(v, RP):
            if _all(m == () for m in v.t):
                return _int(v.t.get((), 0))
            raise Unsupported("real values cast to integers")
        return v

    return STensor(t.shape, lambda idx: conv_value(t.at(idx)), dtype)


def convert_to_tensor(x, dtype=None, sparse=None):
    if not symbolic(x):
        if hasattr(x, "value") and isinstance(getattr(x, "value"), STensor):
            return x.value
        return concrete(x, dtype)
    t = tensor(x)
    return t if dtype is None else cast(t, dtype)


array = convert_to_tensor


def convert_to_numpy(x):
    if symbolic(x):
        raise Unsupported("symbolic tensor converted to numpy")
    return concrete(x)


def identity(x):
    return x


stop_gradient = copy = identity


def is_tensor(x):
    return isinstance(x, (STensor, np.ndarray))


# ---------------------------------------------------------------- shape

def ndim(x):
    return tensor(x).ndim if symbolic(x) else concrete(x).ndim


def size(x):
    return tensor(x).size if symbolic(x) else concrete(x).size


def shape(x):
    return tensor(x).shape if symbolic(x) else concrete(x).shape


def norm_axis(axis, n):
    axis = as_int(axis)
    if isinstance(axis, SInt):
        raise Unsupported("symbolic axis")
    if not -n <= axis < n:
        raise OpError(f"axis {axis} is out of bounds for array of dimension {n}")
    return axis % n


def norm_axes(axes, n):
    if axes is None:
        return list(range(n))
    if isinstance(axes, (tuple, list)):
        return [norm_axis(a, n) for a in axes]
    return [norm_axis(axes, n)]


def _shape_list(shp):
    if is_int(shp):
        return [as_int(shp)]
    if isinstance(shp, STensor):
        shp = [shp.at((i,)) for i in range(len(shp))]
    return [as_int(s) for s in shp]


def exact_div(a, b):
    q, r = poly.sdivmod(a, b)
    return q, r


def infer(newshape, total):
    newshape = _shape_list(newshape)
    unknown = [i for i, s in enumerate(newshape) if not isinstance(s, SInt) and s == -1]
    if len(unknown) > 1:
        raise OpError("can only specify one unknown dimension")
    if unknown:
        rest = size_of(s for i, s in enumerate(newshape) if i != unknown[0])
        q, r = poly.sdivmod(total, rest)
        must(eq0(r) if isinstance(r, SInt) else r == 0, f"cannot reshape array of size {total} into shape {newshape}")
        newshape[unknown[0]] = q
    return newshape


def reshape(x, newshape):
    if not symbolic(x) and not symbolic(newshape):
        return np.reshape(concrete(x), tuple(_shape_list(newshape)))
    t = tensor(x)
    new = infer(newshape, t.size)
    d = size_of(new) - t.size
    must(eq0(d) if isinstance(d, SInt) else d == 0, f"cannot reshape array of shape {t.shape} into shape {tuple(new)}")
    old = list(t.shape)
    blocks = align(old, new)

    def fn(idx):
        out = []
        for (i, j), (k, l) in blocks:
            o, n = old[i:j], new[k:l]
            if len(o) == len(n) and _all(dims_equal(a, b) for a, b in zip(o, n)):
                out.extend(idx[k:l])
                continue
            flat = 0
            for s, v in zip(n, idx[k:l]):
                flat = flat * s + v
            res = []
            for m in range(len(o) - 1, 0, -1):
                flat, r = poly.sdivmod(flat, o[m])
                res.append(r)
            if o:
                res.append(flat)
            out.extend(reversed(res))
        return t.at(tuple(out))

    return STensor(new, fn, t.dtype)


def align(old, new):
    """Cut both shapes into the smallest consecutive blocks of equal size."""
    blocks = []
    i = j = 0
    while i < len(old) or j < len(new):
        found = None
        for total in range(1, len(old) - i + len(new) - j + 1):
            for a in range(0, total + 1):
                b = total - a
                if i + a > len(old) or j + b > len(new):
                    continue
                if dims_equal(size_of(old[i:i + a]), size_of(new[j:j + b])):
                    found = a, b
                    break
            if found:
                break
        if not found:
            raise AssertionError("shapes of equal size do not align")
        blocks.append(((i, i + found[0]), (j, j + found[1])))
        i, j = i + found[0], j + found[1]
    return blocks


def ravel(x):
    return reshape(x, [-1])


def expand_dims(x, axis):
    if not symbolic(x):
        return np.expand_dims(concrete(x), axis)
    t = tensor(x)
    axes = sorted(norm_axes(axis, t.ndim + (len(axis) if isinstance(axis, (list, tuple)) else 1)))
    for a in axes:
        t = _expand(t, a)
    return t


def _expand(t, a):
    return STensor(t.shape[:a] + (1,) + t.shape[a:], lambda idx: t.at(idx[:a] + idx[a + 1:]), t.dtype)


def squeeze(x, axis=None):
    if not symbolic(x):
        return np.squeeze(concrete(x), axis)
    t = tensor(x)
    if axis is None:
        axes = [i for i, s in enumerate(t.shape) if bool(s == 1)]
    else:
        axes = norm_axes(axis, t.ndim)
        for a in axes:
            must(t.shape[a] == 1, "cannot select an axis to squeeze out which has size not equal to one")
    keep = [i for i in range(t.ndim) if i not in axes]

    def fn(idx):
        full = [0] * t.ndim
        for i, v in zip(keep, idx):
            full[i] = v
        return t.at(tuple(full))

    return STensor([t.shape[i] for i in keep], fn, t.dtype)


def transpose(x, axes=None):
    if not symbolic(x):
        return np.transpose(concrete(x), axes)
    t = tensor(x)
    axes = list(range(t.ndim))[::-1] if axes is None else norm_axes(tuple(axes), t.ndim)
    if sorted(axes) != list(range(t.ndim)):
        raise OpError(f"axes {axes} don't match array")

    def fn(idx):
        full = [None] * t.ndim
        for a, v in zip(axes, idx):
            full[a] = v
        return t.at(tuple(full))

    return STensor([t.shape[a] for a in axes], fn, t.dtype)


def moveaxis(x, source, destination):
    if not symbolic(x):
        return np.moveaxis(concrete(x), source, destination)
    t = tensor(x)
    s, d = norm_axes(source, t.ndim), norm_axes(destination, t.ndim)
    if len(s) != len(d) or len(set(s)) != len(s) or len(set(d)) != len(d):
        raise OpError("repeated axis")
    order = [n for n in range(t.ndim) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return transpose(t, order)


def swapaxes(x, axis1, axis2):
    if not symbolic(x):
        return np.swapaxes(concrete(x), axis1, axis2)
    t = tensor(x)
    a, b = norm_axis(axis1, t.ndim), norm_axis(axis2, t.ndim)
    order = list(range(t.ndim))
    order[a], order[b] = order[b], order[a]
    return transpose(t, order)


def flip(x, axis=None):
    if not symbolic(x):
        return np.flip(concrete(x), axis)
    t = tensor(x)
    axes = set(norm_axes(axis, t.ndim))
    return STensor(
        t.shape,
        lambda idx: t.at(tuple(s - 1 - v if i in axes else v for i, (s, v) in enumerate(zip(t.shape, idx)))),
        t.dtype,
    )


def rot90(x, k=1, axes=(0, 1)):
    a, b = axes
    for _ in range(k % 4):
        x = flip(swapaxes(x, a, b), axis=a)
    return x


def roll(x, shift, axis=None):
    if not symbolic(x) and not symbolic(shift):
        return np.roll(concrete(x), shift, axis)
    t = tensor(x)
    if axis is None:
        return reshape(roll(ravel(t), shift, 0), t.shape)
    axes = norm_axes(axis, t.ndim)
    shifts = list(shift) if isinstance(shift, (tuple, list)) else [shift] * len(axes)

    def fn(idx):
        idx = list(idx)
        for a, s in zip(axes, shifts):
            idx[a] = (idx[a] - s) % t.shape[a]
        return t.at(tuple(idx))

    return STensor(t.shape, fn, t.dtype)


def broadcast_to(x, shape):
    if not symbolic(x) and not symbolic(shape):
        return np.broadcast_to(concrete(x), tuple(shape))
    t = tensor(x)
    shape = _shape_list(shape)
    full, index = broadcast(t, STensor(shape, lambda idx: 0, "int32"))
    if len(full) != len(shape) or not _all(dims_equal(a, b) for a, b in zip(full, shape)):
        raise OpError("cannot broadcast to shape")
    return STensor(shape, lambda idx: t.at(index(t, idx)), t.dtype)


# ---------------------------------------------------------------- creation

def zeros(shape, dtype=None):
    return full(shape, 0, dtype or "float32")


def ones(shape, dtype=None):
    return full(shape, 1, dtype or "float32")


def full(shape, fill_value, dtype=None):
    dtype = str(dtype) if dtype else "float32"
    shape = _shape_list(shape)
    if not symbolic(shape) and not symbolic(fill_value):
        if size_of(shape) <= 100000:
            return np.full(tuple(shape), fill_value, dtype=dtype if dtype != "bfloat16" else "float32")
    v = fill_value.at(()) if isinstance(fill_value, STensor) else fill_value
    v = to_rp(v) if dtype in FLOATS else (bool(v) if dtype == "bool" else v)
    return STensor(shape, lambda idx: v, dtype)


def zeros_like(x, dtype=None):
    return full(globals()["shape"](x), 0, dtype or (x.dtype if hasattr(x, "dtype") else None))


def ones_like(x, dtype=None):
    return full(globals()["shape"](x), 1, dtype or (x.dtype if hasattr(x, "dtype") else None))


def full_like(x, fill_value, dtype=None):
    return full(globals()["shape"](x), fill_value, dtype or (x.dtype if hasattr(x, "dtype") else None))


empty = zeros


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if not symbolic((start, stop, step)):
        return np.arange(start, stop, step, dtype=str(dtype) if dtype else "int32")
    start, stop, step = as_int(start), as_int(stop), as_int(step)
    if isinstance(step, SInt):
        raise Unsupported("symbolic step")
    n = (stop - start + step - 1) // step if step > 0 else (start - stop - step - 1) // -step
    dtype = str(dtype) if dtype else "int32"
    return STensor((n,), lambda idx: to_rp(start + idx[0] * step) if dtype in FLOATS else start + idx[0] * step, dtype)


def eye(N, M=None, k=0, dtype="float32"):
    if symbolic((N, M)):
        raise Unsupported("symbolic identity matrix")
    return np.eye(N, M, k, dtype=dtype)


# ---------------------------------------------------------------- joining and selecting

def concatenate(xs, axis=0):
    xs = list(xs)
    if not _any(symbolic(x) for x in xs):
        out = np.concatenate([concrete(x) for x in xs], axis=axis)
        return out
    ts = [tensor(x) for x in xs]
    a = norm_axis(axis, ts[0].ndim)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim:
            raise OpError("all the input array dimensions must match")
        for d in range(t.ndim):
            if d != a:
                e = t.shape[d] - ts[0].shape[d]
                must(eq0(e) if isinstance(e, SInt) else e == 0, f"concatenated shapes differ: {[t.shape for t in ts]}")
    starts = []
    pos = 0
    for t in ts:
        starts.append(pos)
        pos = pos + t.shape[a]

    def fn(idx):
        i = idx[a]

        def go(k):
            if k == len(ts) - 1:
                return ts[k].at(idx[:a] + (i - starts[k],) + idx[a + 1:])
            c = i < starts[k + 1]
            return ite(c, lambda: ts[k].at(idx[:a] + (i - starts[k],) + idx[a + 1:]), lambda: go(k + 1))

        return go(0)

    shape = ts[0].shape[:a] + (pos,) + ts[0].shape[a + 1:]
    return STensor(shape, fn, result_dtype(*xs))


def stack(xs, axis=0):
    xs = list(xs)
    if not _any(symbolic(x) for x in xs):
        return np.stack([concrete(x) for x in xs], axis=axis)
    ts = [tensor(x) for x in xs]
    a = norm_axis(axis, ts[0].ndim + 1)
    return concatenate([_expand(t, a) for t in ts], axis=a)


def split(x, indices_or_sections, axis=0):
    if not symbolic(x):
        return np.split(concrete(x), indices_or_sections, axis=axis)
    t = tensor(x)
    a = norm_axis(axis, t.ndim)
    if is_int(indices_or_sections):
        k = as_int(indices_or_sections)
        q, r = poly.sdivmod(t.shape[a], k)
        must(r == 0, "array split does not result in an equal division")
        cuts = [q * i for i in range(k + 1)]
    else:
        cuts = [0] + [as_int(i) for i in indices_or_sections] + [t.shape[a]]

    def piece(lo, hi):
        return STensor(
            t.shape[:a] + (hi - lo,) + t.shape[a + 1:], lambda idx: t.at(idx[:a] + (idx[a] + lo,) + idx[a + 1:]), t.dtype
        )

    return [piece(lo, hi) for lo, hi in zip(cuts, cuts[1:])]


def unstack(x, num=None, axis=0):
    n = shape(x)[axis]
    return [take(x, i, axis) for i in range(n)]


def repeat(x, repeats, axis=None):
    if not symbolic(x) and not symbolic(repeats):
        return np.repeat(concrete(x), repeats, axis)
    t = tensor(x)
    if axis is None:
        t, axis = ravel(t), 0
    a = norm_axis(axis, t.ndim)
    if not is_int(repeats):
        r = [as_int(v) for v in repeats]
        if len(r) == 1:
            repeats = r[0]
        else:
            if isinstance(t.shape[a], SInt) or symbolic(r):
                raise Unsupported("repeat with symbolic sizes")
            return take(t, [i for i, k in enumerate(r) for _ in range(k)], axis=a)
    k = as_int(repeats)
    return STensor(
        t.shape[:a] + (t.shape[a] * k,) + t.shape[a + 1:],
        lambda idx: t.at(idx[:a] + (idx[a] // k,) + idx[a + 1:]),
        t.dtype,
    )


def tile(x, repeats):
    if not symbolic(x) and not symbolic(repeats):
        return np.tile(concrete(x), repeats)
    t = tensor(x)
    reps = [as_int(repeats)] if is_int(repeats) else [as_int(r) for r in repeats]
    reps = [1] * (t.ndim - len(reps)) + reps
    while t.ndim < len(reps):
        t = _expand(t, 0)
    return STensor(
        [s * r for s, r in zip(t.shape, reps)],
        lambda idx: t.at(tuple(i if not isinstance(r, SInt) and r == 1 else i % s for i, s, r in zip(idx, t.shape, reps))),
        t.dtype,
    )


def _select(t, a, n, v, rest):
    """Entry v of axis a: negative indices count from the end, others give Keras's fill value."""
    def at(i):
        return t.at(rest[:a] + (i,) + rest[a:])

    if not isinstance(v, SInt) and not isinstance(n, SInt):
        if 0 <= v < n:
            return at(v)
        if -n <= v < 0:
            return at(v + n)
        return _nan(t)
    inside = conj(ge0(v) if isinstance(v, SInt) else v >= 0, v < n)
    return ite(inside, lambda: at(v), lambda: ite(conj(v < 0, v >= -n), lambda: at(v + n), lambda: _nan(t)))


def _nan(t):
    if t.dtype in FLOATS:
        return app("nan")
    raise Unsupported("index out of bounds")


def take(x, indices, axis=None):
    if not symbolic(x) and not symbolic(indices):
        a = concrete(x)
        if axis is None:
            a, axis = a.ravel(), 0
        ind = np.asarray(indices)
        if ind.size and (ind.min() < -a.shape[axis] or ind.max() >= a.shape[axis]):
            raise Unsupported("index out of bounds")
        return np.take(a, ind.astype("int64") if ind.size == 0 else ind, axis=axis)
    t = tensor(x)
    if axis is None:
        t, axis = ravel(t), 0
    a = norm_axis(axis, t.ndim)
    ind = tensor(indices)
    n, k = t.shape[a], ind.ndim

    def fn(idx):
        v = ind.at(idx[a:a + k])
        if not is_int(v):
            raise Unsupported(f"index is not an integer term: {v!r} {type(v)} {ind} {idx}")
        v = poly.CTX.nf(v) if poly.CTX is not None else v
        return _select(t, a, n, v, idx[:a] + idx[a + k:])

    return STensor(t.shape[:a] + ind.shape + t.shape[a + 1:], fn, t.dtype)


def take_along_axis(x, indices, axis=None):
    if not symbolic(x) and not symbolic(indices):
        return np.take_along_axis(concrete(x), concrete(indices), axis)
    t, ind = tensor(x), tensor(indices)
    if axis is None:
        t, axis = ravel(t), 0
    a = norm_axis(axis, t.ndim)
    bshape, index = broadcast(
        STensor(t.shape[:a] + (1,) + t.shape[a + 1:], lambda i: 0, "int32"),
        STensor(ind.shape[:a] + (1,) + ind.shape[a + 1:], lambda i: 0, "int32"),
    )

    def fn(idx):
        ii = tuple(0 if (not isinstance(s, SInt) and s == 1) else i for s, i in zip(ind.shape, idx))
        v = ind.at(ii)
        rest = tuple(
            0 if (not isinstance(s, SInt) and s == 1) else i for d, (s, i) in enumerate(zip(t.shape, idx)) if d != a
        )
        return _select(t, a, t.shape[a], v, rest)

    return STensor(bshape[:a] + (ind.shape[a],) + bshape[a + 1:], fn, t.dtype)


def getitem(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    n_real = _sum(1 for k in key if k is not None and k is not Ellipsis)
    if _any(k is Ellipsis for k in key):
        i = next(i for i, k in enumerate(key) if k is Ellipsis)
        key = key[:i] + (slice(None),) * (t.ndim - n_real) + key[i + 1:]
    else:
        key = key + (slice(None),) * (t.ndim - n_real)
    if _sum(1 for k in key if k is not None) > t.ndim:
        raise IndexError("too many indices")
    fancy = [k for k in key if isinstance(k, (list, np.ndarray, STensor)) and ndim(k) > 0]
    if len(fancy) > 1:
        raise Unsupported("several index arrays")
    out, axis = t, 0
    for k in key:
        if k is None:
            out = _expand(out, axis)
            axis += 1
        elif isinstance(k, slice):
            out = _slice(out, axis, k)
            axis += 1
        elif isinstance(k, (list, np.ndarray, STensor)) and ndim(k) > 0:
            if str(getattr(k, "dtype", "")) == "bool":
                raise Unsupported("boolean mask")
            out = take(out, k, axis=axis)
            axis += ndim(k)
        else:
            i = as_int(k)
            n = out.shape[axis]
            if not isinstance(i, SInt) and not isinstance(n, SInt):
                if not -n <= i < n:
                    raise IndexError(f"index {i} is out of bounds for axis {axis} with size {n}")
            out = take(out, i, axis=axis)
    return out


def _slice(t, a, s):
    n = t.shape[a]
    step = 1 if s.step is None else as_int(s.step)
    if isinstance(step, SInt):
        raise Unsupported("symbolic slice step")
    if s.start is None and s.stop is None and step == 1:
        return t

    def bound(v, lo, hi):
        v = as_int(v)
        if bool(v < 0):
            v = v + n
        if bool(v < lo):
            v = lo
        elif bool(v > hi):
            v = hi
        return v

    if step > 0:
        start = 0 if s.start is None else bound(s.start, 0, n)
        stop = n if s.stop is None else bound(s.stop, 0, n)
        length = stop - start
        if bool(length < 0):
            length = 0
        length = (length + step - 1) // step
    else:
        start = n - 1 if s.start is None else bound(s.start, -1, n - 1)
        stop = -1 if s.stop is None else bound(s.stop, -1, n - 1)
        length = start - stop
        if bool(length < 0):
            length = 0
        length = (length - step - 1) // -step
    return STensor(
        t.shape[:a] + (length,) + t.shape[a + 1:],
        lambda idx: t.at(idx[:a] + (start + idx[a] * step,) + idx[a + 1:]),
        t.dtype,
    )


def pad(x, pad_width, mode="constant", constant_values=None):
    if mode != "constant":
        if not symbolic(x) and not symbolic(pad_width):
            return np.pad(concrete(x), pad_width, mode=mode)
        return _pad_mode(tensor(x), pad_width, mode)
    if not symbolic(x) and not symbolic(pad_width):
        return np.pad(concrete(x), np.asarray(pad_width), constant_values=constant_values or 0)
    t = tensor(x)
    pw = _pad_pairs(pad_width, t.ndim)
    for lo, hi in pw:
        must(conj(lo >= 0, hi >= 0), "negative padding")
    zero = constant_values or 0

    def fn(idx):
        cond, inner = [], []
        for (lo, hi), i, n in zip(pw, idx, t.shape):
            i = i - lo
            if not (not isinstance(lo, SInt) and lo == 0 and not isinstance(hi, SInt) and hi == 0):
                cond += [i >= 0, i < n]
            inner.append(i)
        fill = to_rp(zero) if t.dtype in FLOATS else zero
        return ite(conj(*cond), lambda: t.at(tuple(inner)), lambda: fill)

    return STensor([n + lo + hi for (lo, hi), n in zip(pw, t.shape)], fn, t.dtype)


def _pad_pairs(pad_width, n):
    if isinstance(pad_width, np.ndarray):
        pad_width = pad_width.tolist()
    if isinstance(pad_width, STensor):
        pad_width = [[pad_width.at((i, 0)), pad_width.at((i, 1))] for i in range(len(pad_width))]
    if is_int(pad_width):
        return [(as_int(pad_width),) * 2] * n
    pw = [list(p) if not is_int(p) else p for p in pad_width]
    if _all(is_int(p) for p in pw):
        if len(pw) == 1:
            return [(as_int(pw[0]),) * 2] * n
        return [(as_int(pw[0]), as_int(pw[1]))] * n
    if len(pw) == 1:
        pw = pw * n
    if len(pw) != n:
        raise OpError("`pad_width` must have the same length as the number of axes")
    return [(as_int(p[0]), as_int(p[1] if len(p) > 1 else p[0])) for p in pw]


def _pad_mode(t, pad_width, mode):
    raise Unsupported(f"padding mode {mode}")


def slice_(inputs, start_indices, shape):
    t = tensor(inputs)
    start = [as_int(i) for i in start_indices]
    return STensor(_shape_list(shape), lambda idx: t.at(tuple(i + s for i, s in zip(idx, start))), t.dtype)


# ---------------------------------------------------------------- reductions

_fresh = itertools.count()


def fresh_binder(size, hint="r"):
    return poly.binder(f"{hint}{next(_fresh)}", size)


def atom_id(v):
    (m, c), = v.t.items()
    assert len(m) == 1 and c == 1
    return m[0]


EXPAND = 64


def _reduce(x, axis, keepdims, op):
    """op: 'sum', 'max', 'min'."""
    npf = {"sum": np.sum, "max": np.max, "min": np.min}[op]
    if not symbolic(x):
        a = concrete(x)
        ax = None if axis is None else tuple(norm_axes(axis, a.ndim))
        return npf(a, axis=ax, keepdims=keepdims).astype(np_dtype(a) if a.dtype.kind != "b" else "int32")
    t = tensor(x)
    axes = sorted(set(norm_axes(axis, t.ndim)))
    if op != "sum":
        for a in axes:
            must(t.shape[a] >= 1, "zero-size array to reduction operation which has no identity")
    keep = [d for d in range(t.ndim) if d not in axes]
    sizes = [t.shape[a] for a in axes]
    is_real = t.dtype in FLOATS

    def fn(idx):
        if keepdims:
            idx = [idx[d] for d in keep]
        full = [None] * t.ndim
        for d, v in zip(keep, idx):
            full[d] = v
        loops, binders = [], []
        for a, s in zip(axes, sizes):
            s = poly.CTX.nf(s) if poly.CTX is not None else s
            if not isinstance(s, SInt) and s <= EXPAND:
                loops.append((a, range(s)))
            else:
                b = fresh_binder(s)
                binders.append(atom_id(b))
                full[a] = b
        vals = []
        for combo in itertools.product(*(r for _, r in loops)):
            for (a, _), v in zip(loops, combo):
                full[a] = v
            vals.append(t.at(tuple(full)))
        return combine(op, vals, binders, is_real)

    shape = [1 if d in axes else t.shape[d] for d in range(t.ndim)] if keepdims else [t.shape[d] for d in keep]
    return STensor(shape, fn, t.dtype if t.dtype != "bool" or op != "sum" else "int32")


def combine(op, vals, binders, is_real=True):
    if not is_real:
        vals = [_num(v) for v in vals]
        if _all(is_int(v) for v in vals) and not binders:
            if op == "sum":
                out = 0
                for v in vals:
                    out = out + v
                return out
            out = vals[0]
            for v in vals[1:]:
                out = _extr("n" + op)(out, v)
            return out
    if op == "sum":
        out = const(0)
        for v in vals:
            out = out + to_rp(v)
    else:
        out = extremum("n" + op, vals)
    return agg(op, binders, [], out) if binders else out


def sum(x, axis=None, keepdims=False):
    return _reduce(x, axis, keepdims, "sum")


def max(x, axis=None, keepdims=False, initial=None):
    if initial is not None:
        raise Unsupported("initial value of a maximum")
    return _reduce(x, axis, keepdims, "max")


def min(x, axis=None, keepdims=False, initial=None):
    if initial is not None:
        raise Unsupported("initial value of a minimum")
    return _reduce(x, axis, keepdims, "min")


amax, amin = max, min


def mean(x, axis=None, keepdims=False):
    if not symbolic(x):
        a = concrete(x)
        ax = None if axis is None else tuple(norm_axes(axis, a.ndim))
        return np.mean(a, axis=ax, keepdims=keepdims).astype("float32")
    t = tensor(x)
    axes = set(norm_axes(axis, t.ndim))
    n = size_of(t.shape[a] for a in axes)
    s = _reduce(cast(t, "float32") if t.dtype not in FLOATS else t, axis, keepdims, "sum")
    return STensor(s.shape, lambda idx: to_rp(s.at(idx)) * recip(n), s.dtype)


def prod(x, axis=None, keepdims=False):
    if not symbolic(x):
        return np.prod(concrete(x), axis=axis, keepdims=keepdims)
    t = tensor(x)
    if t.ndim == 1:
        return size_of(t.at((i,)) for i in range(len(t)))
    raise Unsupported("product of a tensor")


def _boolean(op):
    def f(x, axis=None, keepdims=False):
        if not symbolic(x):
            return (np.any if op is disj else np.all)(concrete(x), axis=axis, keepdims=keepdims)
        t = tensor(x)
        axes = sorted(set(norm_axes(axis, t.ndim)))
        if _any(isinstance(t.shape[a], SInt) for a in axes):
            raise Unsupported("any/all over a symbolic axis")
        keep = [d for d in range(t.ndim) if d not in axes]

        def fn(idx):
            full = [None] * t.ndim
            for d, v in zip(keep, [idx[d] for d in keep] if keepdims else idx):
                full[d] = v
            vals = []
            for combo in itertools.product(*(range(t.shape[a]) for a in axes)):
                for a, v in zip(axes, combo):
                    full[a] = v
                vals.append(_truth(t.at(tuple(full))))
            return op(*vals)

        shape = [1 if d in axes else t.shape[d] for d in range(t.ndim)] if keepdims else [t.shape[d] for d in keep]
        return STensor(shape, fn, "bool")

    return f


any, all = _boolean(disj), _boolean(conj)


def _axis_index(n):
    """Loop over an axis of a contraction: (concrete values) or (a binder)."""
    n = poly.CTX.nf(n) if poly.CTX is not None else n
    if not isinstance(n, SInt):
        if n <= EXPAND:
            return [(i, ()) for i in range(n)]
        b = fresh_binder(n, "c")
        return [(b, (atom_id(b),))]
    g = math.gcd(*n.t.values())
    rest = poly.mk({m: c // g for m, c in n.t.items()})
    b = fresh_binder(rest, "c")
    if g > EXPAND:
        raise Unsupported("contraction too large")
    return [(h * rest + b, (atom_id(b),)) for h in range(g)]


def einsum(subscripts, *operands):
    if not symbolic(list(operands)):
        return np.einsum(subscripts, *map(concrete, operands))
    subscripts = subscripts.replace(" ", "")
    if "." in subscripts:
        raise Unsupported("einsum with ellipsis")
    ins, out = subscripts.split("->") if "->" in subscripts else (subscripts, None)
    ins = ins.split(",")
    if out is None:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ts = [tensor(x) for x in operands]
    sizes = {}
    for s, t in zip(ins, ts):
        if len(s) != t.ndim:
            raise OpError("einsum subscripts do not match the operand")
        for c, n in zip(s, t.shape):
            if c in sizes:
                must(sizes[c] == n, "einsum sizes differ")
            sizes[c] = n
    summed = [c for c in sizes if c not in out]

    def fn(idx):
        env = dict(zip(out, idx))
        total = const(0)
        for combo in itertools.product(*(_axis_index(sizes[c]) for c in summed)):
            e = dict(env)
            binders = []
            for c, (v, bs) in zip(summed, combo):
                e[c] = v
                binders += bs
            p = const(1)
            for s, t in zip(ins, ts):
                p = p * to_rp(_num(t.at(tuple(e[c] for c in s))))
            total = total + (agg("sum", binders, [], p) if binders else p)
        return total

    return STensor([sizes[c] for c in out], fn, result_dtype(*operands))


def matmul(x1, x2):
    if not symbolic(x1) and not symbolic(x2):
        return np.matmul(concrete(x1), concrete(x2))
    a, b = tensor(x1), tensor(x2)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul of batches")
    return einsum("ab,bc->ac", a, b)


# ---------------------------------------------------------------- windows

def default_data_format(data_format):
    from . import keras_stub

    return keras_stub.standardize_data_format(data_format)


def _operand(v, n):
    v = (v,) * n if is_int(v) else tuple(as_int(i) for i in v)
    if len(v) != n:
        raise OpError(f"expected {n} values, got {v}")
    return v


def _window(n, k, s, d, padding):
    """Number of windows, and the padding before, of an axis."""
    keff = (k - 1) * d + 1
    if padding == "valid":
        room = n - keff
        if bool(room < 0):
            return 0, 0
        return room // s + 1, 0
    out = (n + s - 1) // s
    total = (out - 1) * s + keff - n
    if not prove_(ge0(total) if isinstance(total, SInt) else total >= 0) and bool(total <= 0):
        return out, 0
    return out, total // 2


def prove_(f):
    return f if isinstance(f, bool) else prove(f)


def _split(t, data_format, n):
    """Batch, spatial and channel sizes, and a reader of the entries."""
    if t.ndim != n + 2:
        raise OpError(f"expected an input of rank {n + 2}, got shape {t.shape}")
    if data_format == "channels_last":
        return t.shape[0], t.shape[1:-1], t.shape[-1], lambda b, sp, c: t.at((b,) + tuple(sp) + (c,))
    return t.shape[0], t.shape[2:], t.shape[1], lambda b, sp, c: t.at((b, c) + tuple(sp))


def _join(data_format, b, sp, c):
    return (b,) + tuple(sp) + (c,) if data_format == "channels_last" else (b, c) + tuple(sp)


def _unjoin(data_format, idx):
    return (idx[0], idx[1:-1], idx[-1]) if data_format == "channels_last" else (idx[0], idx[2:], idx[1])


def _tap_loops(ks):
    """Window offsets: one binder per axis, or the single offset 0."""
    out, binders = [], []
    for k in ks:
        k = poly.CTX.nf(k) if poly.CTX is not None else k
        if not isinstance(k, SInt) and k == 1:
            out.append(0)
        else:
            b = fresh_binder(k, "k")
            out.append(b)
            binders.append(atom_id(b))
    return out, binders


def conv(inputs, kernel, strides=1, padding="valid", data_format=None, dilation_rate=1):
    data_format = default_data_format(data_format)
    padding = padding.lower()
    if padding not in ("valid", "same"):
        raise OpError(f"Unrecognized padding type: {padding}")
    x, k = tensor(inputs), tensor(kernel)
    n = x.ndim - 2
    strides, dil = _operand(strides, n), _operand(dilation_rate, n)
    B, sp, C, get = _split(x, data_format, n)
    if k.ndim != n + 2:
        raise OpError("kernel of the wrong rank")
    ks, cin, F = k.shape[:n], k.shape[-2], k.shape[-1]
    if not dims_equal(C, cin):
        r = C % cin
        if bool(r > 0 if isinstance(r, SInt) else r > 0):
            raise OpError(f"number of input channels {C} not divisible by the kernel's {cin}")
        raise Unsupported("grouped convolution")
    win = [_window(a, b, c, d, padding) for a, b, c, d in zip(sp, ks, strides, dil)]
    outs = [w[0] for w in win]

    def fn(idx):
        b, y, f = _unjoin(data_format, idx)
        taps, binders = _tap_loops(ks)
        pos, guard = [], []
        for yy, s, t, d, (m, lo), size in zip(y, strides, taps, dil, win, sp):
            p = yy * s + t * d - lo
            pos.append(p)
            if padding == "same":
                guard += [p >= 0, p < size]
        total = const(0)
        for c, cb in _axis_index(cin):
            g = conj(*guard)
            body = ite(g, lambda: get(b, pos, c) * to_rp(k.at(tuple(taps) + (c, f))), lambda: const(0))
            bs = list(binders) + list(cb)
            total = total + (agg("sum", bs, [], body) if bs else to_rp(body))
        return total

    return STensor(_join(data_format, B, outs, F), fn, result_dtype(inputs, kernel))


def conv_transpose(inputs, kernel, strides=1, padding="valid", output_padding=None, data_format=None, dilation_rate=1):
    from . import keras_stub

    data_format = default_data_format(data_format)
    padding = padding.lower()
    x, k = tensor(inputs), tensor(kernel)
    n = x.ndim - 2
    strides, dil = _operand(strides, n), _operand(dilation_rate, n)
    B, sp, C, get = _split(x, data_format, n)
    ks, F, cin = k.shape[:n], k.shape[-2], k.shape[-1]
    if not dims_equal(C, cin):
        raise OpError("number of input channels differs from the kernel's")
    pads = keras_stub.transpose_padding(
        input_shape=x.shape, kernel_shape=k.shape, strides=strides, padding=padding,
        output_padding=output_padding, dilation_rate=dil,
    )
    keffs = [(a - 1) * d + 1 for a, d in zip(ks, dil)]
    outs = [(a - 1) * s + 2 - ke + lo + hi for a, s, ke, (lo, hi) in zip(sp, strides, keffs, pads)]
    for o in outs:
        must(o >= 0, "negative output size")
    offs = [ke - 1 - lo for ke, (lo, hi) in zip(keffs, pads)]

    def fn(idx):
        b, y, f = _unjoin(data_format, idx)
        taps, binders = _tap_loops(ks)
        xs, guard = [], []
        for yy, s, t, d, off, size in zip(y, strides, taps, dil, offs, sp):
            if not isinstance(s, SInt) and s == 1:
                # the position is determined by the tap
                p = yy - t * d + off
                guard += [p >= 0, p < size]
            else:
                p = fresh_binder(size, "x")
                binders = binders + [atom_id(p)]
                e = p * s + t * d - off - yy
                guard.append(eq0(e) if isinstance(e, SInt) else e == 0)
            xs.append(p)
        total = const(0)
        for c, cb in _axis_index(cin):
            g = conj(*guard)
            body = ite(g, lambda: get(b, xs, c) * to_rp(k.at(tuple(taps) + (f, c))), lambda: const(0))
            bs = list(binders) + list(cb)
            total = total + (agg("sum", bs, [], body) if bs else to_rp(body))
        return total

    return STensor(_join(data_format, B, outs, F), fn, result_dtype(inputs, kernel))


def _pool(inputs, pool_size, strides, padding, data_format, mode):
    data_format = default_data_format(data_format)
    padding = padding.lower()
    if padding not in ("valid", "same"):
        raise OpError(f"Invalid padding '{padding}', must be 'same' or 'valid'.")
    x = tensor(inputs)
    n = x.ndim - 2
    ks = _operand(pool_size, n)
    strides = ks if strides is None else _operand(strides, n)
    B, sp, C, get = _split(x, data_format, n)
    win = [_window(a, b, c, 1, padding) for a, b, c in zip(sp, ks, strides)]
    outs = [w[0] for w in win]

    def fn(idx):
        b, y, c = _unjoin(data_format, idx)
        taps, binders = _tap_loops(ks)
        pos, guard = [], []
        for yy, s, t, (m, lo), size in zip(y, strides, taps, win, sp):
            p = yy * s + t - lo
            pos.append(p)
            if padding == "same":
                guard += [p >= 0, p < size]
        g = conj(*guard)
        gs = [] if g is True else [g]
        with terms.guarded(g if isinstance(g, SBool) else True):
            v = get(b, pos, c)
        if mode == "max":
            return agg("max", binders, gs, v) if binders else to_rp(v)
        if not binders:
            return to_rp(v)
        total = agg("sum", binders, gs, v)
        if padding == "valid":
            return total * inv_size(ks)
        return total * recip(agg("sum", binders, gs, const(1)))

    return STensor(_join(data_format, B, outs, C), fn, x.dtype)


def inv_size(ks):
    out = const(1)
    for k in ks:
        out = out * inv(k)
    return out


def max_pool(inputs, pool_size, strides=None, padding="valid", data_format=None):
    return _pool(inputs, pool_size, strides, padding, data_format, "max")


def average_pool(inputs, pool_size, strides=None, padding="valid", data_format=None):
    return _pool(inputs, pool_size, strides, padding, data_format, "average")
