"""Stand-ins for numpy / numpy.linalg / math / builtins that understand symbolic reals.

They implement the documented numpy semantics on object arrays; whatever is not
overridden is taken from numpy itself.
"""
from __future__ import annotations

import builtins
import itertools
import math
import types

import numpy as np
import z3

from . import core
from .core import S, SB, SI, is_sym, mk, mkb, to_b, to_e, rv, Unsupported, NonFinite

nd = np.ndarray


class symfloat(float):
    """`float` inside the code under test: keeps symbolic values symbolic."""

    def __new__(cls, x=0.0):
        if is_sym(x):
            return x if isinstance(x, S) else S(to_e(x))
        if isinstance(x, nd) and x.size == 1:
            return symfloat(x.flat[0])
        return float(x)


_FLOATS = (None, float, symfloat, np.float64, np.float32, object, np.object_, "float", "float64", "d")


def isfloat_dtype(dt):
    if any(dt is f for f in _FLOATS):
        return True
    try:
        return np.dtype(dt).kind in "fO"
    except TypeError:
        return False


def obj(a):
    """float arrays -> object arrays of python floats."""
    if isinstance(a, nd):
        if a.dtype.kind == "f":
            return a.astype(object)
        return a
    return a


def has_sym(a):
    if isinstance(a, nd):
        return a.dtype == object and any(is_sym(x) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return is_sym(a)


def pack(a):
    """object array whose elements are all bools -> bool array."""
    if isinstance(a, nd) and a.dtype == object and a.size:
        if all(isinstance(x, (bool, np.bool_)) for x in a.flat):
            return a.astype(bool)
    if isinstance(a, nd) and a.ndim == 0:
        return a[()]
    return a


def asarr(x):
    if isinstance(x, nd):
        return x
    if is_sym(x):
        out = np.empty((), dtype=object)
        out[()] = x
        return out
    return array(x)


def array(data=None, dtype=None, copy=True, **kw):
    kw.pop("order", None)
    ndmin = kw.pop("ndmin", 0)
    if is_sym(data):
        a = np.empty((), dtype=object)
        a[()] = data
    elif isfloat_dtype(dtype):
        if isinstance(data, nd):
            a = data.copy()
        else:
            a = _build(data)
        if dtype is not None and a.dtype.kind in "iub":
            a = a.astype(float)
        a = obj(a)
    else:
        if has_sym(data):
            if np.dtype(dtype).kind == "b":
                a = np.array([bool(x) for x in np.array(data, dtype=object).flat])
            else:
                a = np.array(data, dtype=object)
                if any(isinstance(x, S) for x in a.flat):
                    raise Unsupported("integer array from symbolic reals")
        else:
            a = np.array(data, dtype=dtype)
    if ndmin and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a


def _build(data):
    if has_sym(data) or _deep_obj(data):
        return np.array(data, dtype=object)
    return np.array(data)


def _deep_obj(data):
    if isinstance(data, nd):
        return data.dtype == object
    if isinstance(data, (list, tuple)):
        return any(_deep_obj(d) for d in data)
    return False


def asarray(data, dtype=None, **kw):
    if isinstance(data, nd) and isfloat_dtype(dtype):
        return obj(data) if data.dtype.kind in "fO" or dtype is None else obj(data.astype(float))
    return array(data, dtype=dtype)


def _creator(name, fill):
    def f(shape, *args, dtype=None, **kw):
        if args and dtype is None:
            dtype = args[0]
        if isinstance(shape, SI):
            shape = shape.__index__()
        if isfloat_dtype(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(fill)
            return a
        return getattr(np, name)(shape, dtype=dtype)

    return f


def full(shape, value, dtype=None, **kw):
    if isinstance(value, (bool, int)) and dtype is None and not is_sym(value):
        return np.full(shape, value)
    if isfloat_dtype(dtype):
        a = np.empty(shape, dtype=object)
        a.fill(value)
        return a
    return np.full(shape, value, dtype=dtype)


def _like(fill):
    def f(a, dtype=None, **kw):
        a = asarr(a)
        if dtype is not None and not isfloat_dtype(dtype):
            return np.full(a.shape, fill, dtype=dtype)
        if dtype is None and a.dtype.kind in "iub":
            return np.full(a.shape, fill, dtype=a.dtype)
        o = np.empty(a.shape, dtype=object)
        o.fill(float(fill))
        return o

    return f


def eye(n, m=None, *a, dtype=None, **kw):
    return obj(np.eye(n, m, *a))


def ew1(f):
    def g(x, *a, out=None, where=None, dtype=None, **k):
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, nd):
            o = np.empty(x.shape, dtype=object)
            for i, v in np.ndenumerate(x):
                o[i] = f(v)
            return pack(o)
        return f(x)

    return g


def ew2(f):
    def g(x, y, *extra, **k):
        out = extra[0] if extra else k.get("out")
        if out is not None:
            if not isinstance(out, nd):
                raise TypeError("return arrays must be of ArrayType")
            res = g(x, y)
            out[...] = res
            return out
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(y, (list, tuple)):
            y = array(y)
        if isinstance(x, nd) or isinstance(y, nd):
            bx, by = np.broadcast_arrays(asarr(x), asarr(y))
            o = np.empty(bx.shape, dtype=object)
            for i in np.ndindex(*bx.shape):
                o[i] = f(bx[i], by[i])
            return pack(o)
        return f(x, y)

    return g


def _py(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, np.generic):
        return x.item()
    return x


def smax(a, b):
    a, b = _py(a), _py(b)
    if is_sym(a) or is_sym(b):
        for (u, v) in ((a, b), (b, a)):
            if not is_sym(u) and u in (math.inf, -math.inf):
                return u if u > 0 else v
        ae, be = to_e(a), to_e(b)
        p = core.cur()
        if getattr(p.opts, "resolve", False):  # the path decides
            if p.probe(ae >= be):
                return a
            if p.probe(ae <= be):
                return b
        return mk(z3.simplify(z3.If(ae >= be, ae, be)))
    return a if a >= b else b


def smin(a, b):
    a, b = _py(a), _py(b)
    if is_sym(a) or is_sym(b):
        for (u, v) in ((a, b), (b, a)):
            if not is_sym(u) and u in (math.inf, -math.inf):
                return v if u > 0 else u
        ae, be = to_e(a), to_e(b)
        p = core.cur()
        if getattr(p.opts, "resolve", False):  # the path decides
            if p.probe(ae <= be):
                return a
            if p.probe(ae >= be):
                return b
        return mk(z3.simplify(z3.If(ae <= be, ae, be)))
    return a if a <= b else b


def sabs(a):
    return abs(a)


def ssign(a):
    if is_sym(a):
        e = to_e(a)
        return mk(z3.If(e > 0, rv(1), z3.If(e < 0, rv(-1), rv(0))))
    return float(np.sign(a))


def scopysign(a, b):
    if is_sym(a) or is_sym(b):
        m = abs(a)
        if bool(b < 0):
            return -m
        return m
    return math.copysign(a, b)


def land(a, b):
    if is_sym(a) or is_sym(b):
        return mkb(z3.And(to_b(a), to_b(b)))
    return bool(a) and bool(b)


def lor(a, b):
    if is_sym(a) or is_sym(b):
        return mkb(z3.Or(to_b(a), to_b(b)))
    return bool(a) or bool(b)


def lnot(a):
    if is_sym(a):
        return mkb(z3.Not(to_b(a)))
    return not bool(a)


def _close(a, b, rtol, atol):
    if not (is_sym(a) or is_sym(b) or is_sym(rtol) or is_sym(atol)):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    d = abs(a - b)
    return d <= atol + rtol * abs(b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return ew2(lambda x, y: _close(x, y, rtol, atol))(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_all(isclose(a, b, rtol, atol))
    if isinstance(r, SB):
        # implied fact that reduces well: |a-b|^2 <= sum (atol + rtol |b_i|)^2 <= 2 n atol^2 + 2 rtol^2 |b|^2
        x, y = np.broadcast_arrays(asarr(a), asarr(b))
        d = builtins.sum(((p - q) * (p - q) for p, q in zip(x.flat, y.flat)), 0.0)
        n = builtins.sum((q * q for q in y.flat), 0.0)
        p = core.cur()
        if is_sym(d):
            rhs = 2 * x.size * atol * atol + 2 * rtol * rtol * n
            r = r & mkb(p.red(d.e) <= p.red(to_e(rhs)))
    return r


def _flat(x):
    if isinstance(x, (list, tuple)):
        x = array(x)
    if isinstance(x, nd):
        return list(x.flat)
    return [x]


def np_all(x, axis=None, **k):
    if axis is not None:
        x = asarr(x)
        if not has_sym(x):
            return np.all(x.astype(bool), axis=axis)
        return pack(np.apply_along_axis(lambda v: _wrap0(np_all(v)), axis, x))
    f = _flat(x)
    if any(is_sym(v) for v in f):
        return mkb(z3.And([to_b(v) for v in f]))
    return builtins.all(bool(v) for v in f)


def np_any(x, axis=None, **k):
    if axis is not None:
        x = asarr(x)
        if not has_sym(x):
            return np.any(x.astype(bool), axis=axis)
        return pack(np.apply_along_axis(lambda v: _wrap0(np_any(v)), axis, x))
    f = _flat(x)
    if any(is_sym(v) for v in f):
        return mkb(z3.Or([to_b(v) for v in f]))
    return builtins.any(bool(v) for v in f)


def _wrap0(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return np_all(ew2(lambda x, y: x == y)(a, b))


def where(cond, *args):
    if not args:
        c = asarr(cond)
        if c.dtype == object:
            c = np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
        return np.where(c)
    x, y = args

    def f(c, ab):
        raise NotImplementedError

    bc, bx, by = np.broadcast_arrays(asarr(cond), asarr(x), asarr(y))
    o = np.empty(bc.shape, dtype=object)
    for i in np.ndindex(*bc.shape):
        c = bc[i]
        if is_sym(c):
            o[i] = mk(z3.If(to_b(c), to_e(bx[i]), to_e(by[i])))
        else:
            o[i] = bx[i] if c else by[i]
    return pack(o)


def nonzero(a):
    a = asarr(a)
    if a.dtype == object:
        a = np.array([bool(v != 0) for v in a.flat], dtype=bool).reshape(a.shape)
    return np.nonzero(a)


def flatnonzero(a):
    return nonzero(asarr(a).ravel())[0]


def count_nonzero(a, **k):
    return len(nonzero(a)[0])


def _reduce(fold, real):
    def f(a, axis=None, initial=None, keepdims=False, **k):
        a = asarr(a)
        if not has_sym(a) and a.dtype.kind in "iub":
            return real(a, axis=axis)
        if axis is None:
            fl = list(a.flat)
            if initial is not None:
                fl.append(initial)
            if not fl:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = fl[0]
            for v in fl[1:]:
                r = fold(r, v)
            return r
        a2 = np.moveaxis(a, axis, -1)
        o = np.empty(a2.shape[:-1], dtype=object)
        for i in np.ndindex(*a2.shape[:-1]):
            o[i] = f(a2[i])
        if keepdims:
            o = np.expand_dims(o, axis)
        return pack(o)

    return f


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = ew2(smax)(r, lo)
    if hi is not None:
        r = ew2(smin)(r, hi)
    return r


def np_sum(a, axis=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    a = asarr(a)
    if a.dtype != object:
        return np.sum(a, axis=axis, keepdims=keepdims)
    if axis is None:
        r = 0.0
        for v in a.flat:
            r = r + v
        return r
    if a.size == 0:
        return obj(np.sum(a.astype(float), axis=axis, keepdims=keepdims))
    return pack(np.sum(a, axis=axis, keepdims=keepdims))


def prod(a, axis=None, **k):
    a = asarr(a)
    if a.dtype != object:
        return np.prod(a, axis=axis)
    return pack(np.asarray(np.prod(a, axis=axis), dtype=object))


def mean(a, axis=None, **k):
    a = asarr(a)
    n = a.size if axis is None else a.shape[axis]
    if n == 0:
        raise NonFinite("mean of empty slice")
    return np_sum(obj(a.astype(float)) if a.dtype.kind in "iub" else a, axis=axis) / n


def var(a, axis=None, **k):
    a = asarr(a)
    m = mean(a, axis=axis)
    if axis is not None:
        m = np.expand_dims(m, axis)
    return mean((a - m) * (a - m), axis=axis)


def std(a, axis=None, **k):
    return ew1(core.ssqrt)(var(a, axis=axis))


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = asarr(a), asarr(weights)
    if axis is None:
        return np_sum(a * w) / np_sum(w)
    sh = [1] * a.ndim
    sh[axis] = -1
    return np_sum(a * w.reshape(sh), axis=axis) / np_sum(w)


def argmin(a, axis=None, **k):
    a = asarr(a)
    if axis is not None or not has_sym(a):
        return np.argmin(a, axis=axis)
    fl = list(a.flat)
    b = 0
    for i in range(1, len(fl)):
        if fl[i] < fl[b]:
            b = i
    return b


def argmax(a, axis=None, **k):
    a = asarr(a)
    if axis is not None or not has_sym(a):
        return np.argmax(a, axis=axis)
    fl = list(a.flat)
    b = 0
    for i in range(1, len(fl)):
        if fl[i] > fl[b]:
            b = i
    return b


def linspace(*a, **k):
    return obj(np.linspace(*a, **k))


def arange(*a, **k):
    a = [x.__index__() if isinstance(x, SI) else x for x in a]
    return obj(np.arange(*a, **k))


def dot(a, b, **k):
    a, b = asarr(a), asarr(b)
    r = np.asarray(np.dot(obj(a), obj(b)), dtype=None)
    return pack(ew1(red)(r) if r.dtype == object else r)


def red(x):
    if isinstance(x, core.S):
        return core.mk(core.cur().red(x.e))
    return x


def _unpack0(x):
    if isinstance(x, nd) and x.ndim == 0:
        return x[()]
    return x


def cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape == (3,) and b.shape == (3,):
        return np.array(
            [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]],
            dtype=object,
        )
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    return np.cross(a, b, **k)


def diag(a, **k):
    a = asarr(a)
    if a.ndim == 1:
        o = zeros((len(a), len(a)))
        for i in range(len(a)):
            o[i, i] = a[i]
        return o
    return np.diag(a, **k)


def full_like(a, value, dtype=None, **k):
    return full(asarr(a).shape, value, dtype=dtype)


def isnan(x, **k):
    return ew1(lambda v: False if is_sym(v) else (v is not None and v != v))(x)


def isinf(x, **k):
    return ew1(lambda v: False if is_sym(v) else math.isinf(v))(x)


def isfinite(x, **k):
    return ew1(lambda v: True if is_sym(v) else math.isfinite(v))(x)


def einsum(sub, *ops, **k):
    return np.einsum(sub, *[asarr(o) for o in ops], optimize=False)


def unary_num(symf):
    return ew1(symf)


def hypot(a, b):
    return ew2(lambda x, y: core.ssqrt(x * x + y * y))(a, b)


def radians(x):
    return x * (math.pi / 180)


def degrees(x):
    return x * (180 / math.pi)


def npfloor(x):
    if is_sym(x):
        return x // 1.0 * 1.0
    return math.floor(x)


def npround(x, decimals=0, out=None):
    return ew1(lambda v: 1.0 * round(v, decimals))(x)


def sheaviside(x, h):
    if is_sym(x):
        e = to_e(x)
        return mk(z3.If(e > 0, rv(1), z3.If(e < 0, rv(0), to_e(h))))
    return float(np.heaviside(x, h))


# ------------------------------------------------------------------------- linalg
def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if x.dtype.kind in "iuf":
        x = x.astype(float).astype(object)
    if ord in (np.inf, math.inf):
        return amax(ew1(abs)(x), axis=axis)
    if ord == 1:
        return np_sum(ew1(abs)(x), axis=axis)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported("norm order")
    r = ew1(core.ssqrt)(np_sum(x * x, axis=axis))
    if keepdims and axis is not None:
        r = np.expand_dims(r, axis)
    return r


def det(m):
    m = asarr(m)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = 0.0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = m[0, j] * det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv(m):
    m = asarr(m)
    n = m.shape[0]
    d = det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    o = zeros((n, n))
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1.0
            else:
                c = det(np.delete(np.delete(m, j, 0), i, 1))
            o[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return o


def _gram_identity(m):
    """m.T @ m == I provably on this path?"""
    k = m.shape[1]
    g = m.T @ m
    conds = []
    for i in range(k):
        for j in range(i, k):
            tgt = 1.0 if i == j else 0.0
            v = g[i, j]
            if is_sym(v):
                conds.append(v.e == rv(tgt))
            elif abs(v - tgt) > 1e-9:
                return False
    if not conds:
        return True
    return core.cur().probe(z3.And(conds))


def pinv(m, *a, **k):
    m = asarr(m)
    if not has_sym(m):
        return obj(np.linalg.pinv(m.astype(float)))
    r, c = m.shape
    if r >= c and _gram_identity(m):
        return m.T.copy()
    if r == c:
        return inv(m)
    if r > c:
        return inv(m.T @ m) @ m.T
    return m.T @ inv(m @ m.T)


def solve(a, b):
    return inv(a) @ asarr(b)


def unsupported(name):
    def f(*a, **k):
        if any(has_sym(x) for x in a):
            raise Unsupported(f"{name} on symbolic data")
        a = [x.astype(float) if isinstance(x, nd) and x.dtype == object else x for x in a]
        mod = np.linalg if hasattr(np.linalg, name) else np
        r = getattr(mod, name)(*a, **k)
        if isinstance(r, tuple):
            return tuple(obj(v) for v in r)
        return obj(r)

    return f


class _Mod(types.ModuleType):
    _real = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real, name)


zeros = _creator("zeros", 0.0)
ones = _creator("ones", 1.0)
empty = _creator("zeros", 0.0)
amax = _reduce(smax, np.max)
amin = _reduce(smin, np.min)


def _wrap_generic(name):
    real = getattr(np, name)

    def f(*a, **k):
        if "dtype" in k and isfloat_dtype(k["dtype"]):
            k.pop("dtype")
        return obj(real(*a, **k))

    f.__name__ = name
    return f


NP = _Mod("numpy_proxy")
NP._real = np
LAP = _Mod("linalg_proxy")
LAP._real = np.linalg

_over = dict(
    array=array, asarray=asarray, zeros=zeros, ones=ones, empty=empty, full=full,
    zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0), full_like=full_like,
    eye=eye, identity=eye, asanyarray=asarray,
    sqrt=ew1(core.ssqrt), exp=ew1(core.sexp), log=ew1(core.slog), cos=ew1(core.scos),
    sin=ew1(core.ssin), tan=ew1(core.stan), arccos=ew1(core.sacos), arcsin=ew1(core.sasin),
    arctan=ew1(lambda v: core.satan2(v, 1.0)), abs=ew1(abs), absolute=ew1(abs), fabs=ew1(abs),
    square=ew1(lambda v: v * v), negative=ew1(lambda v: -v), sign=ew1(ssign),
    reciprocal=ew1(lambda v: 1.0 / v),
    arctan2=ew2(core.satan2), maximum=ew2(smax), minimum=ew2(smin), fmax=ew2(smax), fmin=ew2(smin),
    copysign=ew2(scopysign), hypot=hypot, power=ew2(core.spow), float_power=ew2(core.spow),
    add=ew2(lambda a, b: a + b), subtract=ew2(lambda a, b: a - b),
    multiply=ew2(lambda a, b: a * b), divide=ew2(lambda a, b: a / b), true_divide=ew2(lambda a, b: a / b),
    mod=ew2(lambda a, b: a % b), remainder=ew2(lambda a, b: a % b),
    greater=ew2(lambda a, b: a > b), less=ew2(lambda a, b: a < b),
    greater_equal=ew2(lambda a, b: a >= b), less_equal=ew2(lambda a, b: a <= b),
    equal=ew2(lambda a, b: a == b), not_equal=ew2(lambda a, b: a != b),
    logical_and=ew2(land), logical_or=ew2(lor), logical_not=ew1(lnot), invert=ew1(lnot),
    heaviside=ew2(sheaviside), floor=ew1(npfloor), round=npround, around=npround,
    isclose=isclose, allclose=allclose, array_equal=array_equal, where=where, nonzero=nonzero,
    flatnonzero=flatnonzero, count_nonzero=count_nonzero, argwhere=lambda a: np.transpose(nonzero(a)),
    all=np_all, any=np_any, max=amax, min=amin, amax=amax, amin=amin, clip=clip,
    sum=np_sum, prod=prod, mean=mean, var=var, std=std, average=average, argmin=argmin, argmax=argmax,
    linspace=linspace, arange=arange, dot=lambda a, b: _unpack0(dot(a, b)), matmul=lambda a, b: asarr(a) @ asarr(b),
    inner=lambda a, b: _unpack0(dot(a, asarr(b).T)), vdot=lambda a, b: _unpack0(dot(asarr(a).ravel(), asarr(b).ravel())),
    cross=cross, diag=diag, isnan=isnan, isinf=isinf, isfinite=isfinite, einsum=einsum,
    nan_to_num=lambda a, **k: a, deg2rad=ew1(radians), rad2deg=ew1(degrees), radians=ew1(radians),
    degrees=ew1(degrees), float64=symfloat, interp=unsupported("interp"),
    real=lambda a: a, isscalar=lambda a: is_sym(a) or np.isscalar(a),
    isreal=ew1(lambda v: True), trace=lambda m: np_sum(np.array([m[i, i] for i in range(len(m))], dtype=object)),
)
for _n in ("vstack", "hstack", "stack", "dstack", "concatenate", "tile", "outer", "copy", "append",
           "delete", "insert", "roll", "flip", "repeat", "cumsum", "squeeze", "reshape", "swapaxes",
           "transpose", "atleast_1d", "atleast_2d", "column_stack", "expand_dims", "broadcast_to", "ravel",
           "diff", "cumprod", "fliplr", "flipud", "triu", "tril", "meshgrid", "take", "moveaxis"):
    if _n not in _over and hasattr(np, _n):
        if _n == "meshgrid":
            _over[_n] = lambda *a, **k: [obj(x) for x in np.meshgrid(*a, **k)]
        else:
            _over[_n] = _wrap_generic(_n)
for _k, _v in _over.items():
    setattr(NP, _k, _v)
NP.linalg = LAP
for _k, _v in dict(norm=norm, det=det, inv=inv, pinv=pinv, solve=solve, eigh=unsupported("eigh"),
                   eig=unsupported("eig"), svd=unsupported("svd"), qr=unsupported("qr"),
                   matrix_rank=unsupported("matrix_rank"), lstsq=unsupported("lstsq"),
                   eigvals=unsupported("eigvals")).items():
    setattr(LAP, _k, _v)


MATH = _Mod("math_proxy")
MATH._real = math


def _m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not (is_sym(a) or is_sym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    m = smax(abs(a), abs(b))
    return d <= smax(rel_tol * m, abs_tol)


def _m_hypot(*a):
    return core.ssqrt(builtins.sum((v * v for v in a), 0.0))


def _m_pow(a, b):
    return core.spow(a, b)


for _k, _v in dict(cos=core.scos, sin=core.ssin, tan=core.stan, sqrt=core.ssqrt, exp=core.sexp,
                   log=core.slog, acos=core.sacos, asin=core.sasin, atan2=core.satan2,
                   atan=lambda v: core.satan2(v, 1.0), fabs=abs, copysign=scopysign,
                   isclose=_m_isclose, isnan=lambda v: False if is_sym(v) else math.isnan(v),
                   isinf=lambda v: False if is_sym(v) else math.isinf(v),
                   isfinite=lambda v: True if is_sym(v) else math.isfinite(v),
                   hypot=_m_hypot, pow=_m_pow, radians=radians, degrees=degrees,
                   floor=lambda v: (v // 1.0) if is_sym(v) else math.floor(v)).items():
    setattr(MATH, _k, _v)


# ----------------------------------------------------------------------- builtins
def b_isinstance(o, cls):
    if isinstance(o, (S, SI, SB)):
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if c is float or c is symfloat or c is np.float64:
                if isinstance(o, S):
                    return True
            if c is int and isinstance(o, SI):
                return True
            if c is bool and isinstance(o, SB):
                return True
        if isinstance(cls, types.UnionType):
            return any(b_isinstance(o, c) for c in cls.__args__)
    elif cls is symfloat:
        return isinstance(o, float)
    elif isinstance(cls, tuple) and symfloat in cls:
        return isinstance(o, cls + (float,))
    elif isinstance(cls, types.UnionType) and symfloat in cls.__args__:
        return isinstance(o, float) or isinstance(o, cls)
    return isinstance(o, cls)


def b_max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    it = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(v) for v in it):
        if any(isinstance(v, SI) for v in it) and not any(isinstance(v, S) for v in it):
            return builtins.max(it)
        return amax(np.array(it, dtype=object))
    return builtins.max(*a)


def b_min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    it = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(v) for v in it):
        if any(isinstance(v, SI) for v in it) and not any(isinstance(v, S) for v in it):
            return builtins.min(it)
        return amin(np.array(it, dtype=object))
    return builtins.min(*a)


def b_print(*a, **k):
    return None


def b_breakpoint(*a, **k):
    raise RuntimeError("breakpoint() reached")


def b_pow(a, b, *m):
    if m:
        return builtins.pow(a, b, *m)
    return a ** b
