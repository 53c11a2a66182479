"""numpy (and scipy bits) for object arrays of Terms.

`SymArr` is an ndarray subclass (dtype object inside, advertises float64);
`NP` is a proxy of the numpy module whose creation functions return SymArr, so
that the real POT code can run unmodified."""

import builtins
import math as _math
import types
from fractions import Fraction as Fr
from itertools import permutations

import numpy as np
import scipy.sparse as _sps

from . import terms as T
from .terms import SymError, Term, const, lift

F64 = np.dtype(np.float64)
OBJ = np.dtype(object)


def is_float_dtype(dt):
    if dt is None:
        return True
    if dt is symfloat or dt is builtins.float:
        return True
    try:
        d = np.dtype(dt)
    except TypeError:
        return False
    return d.kind in "fO"


_lift1 = np.frompyfunc(lambda x: _l(x), 1, 1)


def _l(x):
    if type(x) is Term:
        return x
    r = lift(x)
    return x if r is None else r


def as_sym(x):
    """any array-like -> SymArr (floats lifted); int/bool arrays unchanged."""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            return _wrap(_lift1(x) if x.size else x.astype(object), x.shape)
        if x.dtype.kind == "O":
            return _wrap(_lift1(x) if x.size else x, x.shape)
        return x
    a = np.asarray(_strip(x))
    if a.dtype.kind in "fO":
        return as_sym(a)
    return a


def _wrap(a, shape=None):
    if not isinstance(a, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = a
        a = b
    if a.dtype != OBJ:
        a = a.astype(object)
    return a.view(SymArr)


def _strip(x):
    """lists containing SymArr/Term -> lists of plain ndarrays"""
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_strip(y) for y in x]
    return x


def has_sym(x):
    if isinstance(x, (SymArr, Term)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


class SymArr(np.ndarray):
    __array_priority__ = 50.0

    @property
    def dtype(self):
        return F64

    @property
    def itemsize(self):
        return 8

    @property
    def base_arr(self):
        return self.view(np.ndarray)

    def astype(self, dt=None, *a, copy=True, **k):
        if is_float_dtype(dt):
            return self.copy() if copy else self
        d = np.dtype(dt)
        if d.kind in "iub":
            b = self.view(np.ndarray)
            if d.kind == "b":
                out = np.empty(b.shape, dtype=bool)
                for i in np.ndindex(*b.shape):
                    out[i] = bool(b[i] != 0)
                return out
            out = np.empty(b.shape, dtype=d)
            for i in np.ndindex(*b.shape):
                v = b[i]
                out[i] = int(v) if not isinstance(v, Term) or v.is_const() else _trunc(v)
            return out
        raise SymError("astype %s" % dt)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        kw.pop("dtype", None)
        if kw.get("where", True) is True:
            kw.pop("where", None)
        h = _UF.get(ufunc.__name__)
        if method == "__call__" and h is not None:
            ins = [i.view(np.ndarray) if isinstance(i, SymArr) else i for i in inputs]
            r = h(*ins)
        else:
            ins = [
                i.view(np.ndarray)
                if isinstance(i, SymArr)
                else (
                    as_sym(i).view(np.ndarray)
                    if isinstance(i, np.ndarray) and i.dtype.kind == "f"
                    else i
                )
                for i in inputs
            ]
            if out is not None:
                outs = tuple(o.view(np.ndarray) if isinstance(o, SymArr) else o for o in out)
                for o in outs:
                    if isinstance(o, np.ndarray) and o.dtype.kind == "f":
                        raise SymError("symbolic store into a float array")
                getattr(ufunc, method)(*ins, out=outs, **kw)
                return out[0]
            r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            ov = o.view(np.ndarray) if isinstance(o, SymArr) else o
            ov[...] = r
            return o
        if isinstance(r, tuple):
            return tuple(_rv(x) for x in r)
        return _rv(r)

    def __array_function__(self, func, types_, args, kwargs):
        h = _FN.get(func)
        if h is not None:
            return h(*args, **kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        return r

    def std(self, axis=None, ddof=0, **k):
        return _std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return _var(self, axis=axis, ddof=ddof)

    def mean(self, axis=None, keepdims=False, **k):
        return _mean(self, axis=axis, keepdims=keepdims)

    def round(self, *a, **k):
        return self

    def __float__(self):
        if self.size == 1:
            return float(self.view(np.ndarray).reshape(-1)[0])
        raise TypeError

    def __repr__(self):
        return "SymArr(%s)" % (self.view(np.ndarray).tolist(),)

    __str__ = __repr__

    def __reduce__(self):
        raise SymError("pickling")

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")


def _rv(r):
    if isinstance(r, np.ndarray) and r.dtype == OBJ:
        return r.view(SymArr)
    if type(r) is np.ndarray and r.dtype == bool:
        return r.view(BoolArr)
    return r


class BoolArr(np.ndarray):
    """outcome of comparisons: as numbers they are exact constants"""

    def astype(self, dt=None, *a, **k):
        if self.dtype == bool and is_float_dtype(dt):
            return as_sym(np.asarray(self).astype(np.float64))
        return np.asarray(self).astype(dt, *a, **k)


def _trunc(v):
    f = v.floor() if v >= 0 else v.ceil()
    if f.is_const():
        return int(f.cval())
    raise SymError("symbolic integer conversion")


def elem(f, nin, dtype=None):
    uf = np.frompyfunc(f, nin, 1)

    def g(*a):
        r = uf(*a)
        if dtype is not None:
            if isinstance(r, np.ndarray):
                return r.astype(dtype)
            return dtype(r)
        return r

    return g


def _isinf(x):
    return isinstance(x, (float, np.floating)) and _math.isinf(x)


def _isnan(x):
    return isinstance(x, (float, np.floating)) and _math.isnan(x)


def _max(a, b):
    if a is b:
        return a
    if _isnan(a) or _isnan(b):
        return _math.nan
    if T.lazymax():
        return T.extremum("max", [a, b])
    return a if a >= b else b


def _min(a, b):
    if a is b:
        return a
    if _isnan(a) or _isnan(b):
        return _math.nan
    if T.lazymax():
        return T.extremum("min", [a, b])
    return a if a <= b else b


def _sign(x):
    x = _l(x)
    if isinstance(x, Term):
        return const(x.sign())
    return x if x != x else (1 if x > 0 else -1)


def _fl(fn):
    def g(x):
        x = _l(x)
        return getattr(x, fn)() if isinstance(x, Term) else getattr(np, fn)(x)

    return g


_UF = {
    "exp": elem(T.exp, 1),
    "log": elem(T.log, 1),
    "log1p": elem(lambda x: T.log(_l(x) + 1), 1),
    "log2": elem(lambda x: T.log(_l(x)) / T.log(const(2)), 1),
    "expm1": elem(lambda x: T.exp(x) - 1, 1),
    "sqrt": elem(lambda x: T.power(_l(x), Fr(1, 2)), 1),
    "cbrt": elem(lambda x: T.power(_l(x), Fr(1, 3)), 1),
    "square": elem(lambda x: _l(x) * _l(x), 1),
    "power": elem(lambda x, y: T.power(_l(x), _l(y)), 2),
    "float_power": elem(lambda x, y: T.power(_l(x), _l(y)), 2),
    "isnan": elem(_isnan, 1, bool),
    "isinf": elem(_isinf, 1, bool),
    "isfinite": elem(lambda x: not (_isnan(x) or _isinf(x)), 1, bool),
    "sign": elem(_sign, 1),
    "floor": elem(_fl("floor"), 1),
    "ceil": elem(_fl("ceil"), 1),
    "rint": elem(lambda x: (_l(x) + Fr(1, 2)).floor(), 1),
    "maximum": elem(_max, 2),
    "minimum": elem(_min, 2),
    "fmax": elem(_max, 2),
    "fmin": elem(_min, 2),
    "absolute": elem(lambda x: abs(_l(x)), 1),
    "fabs": elem(lambda x: abs(_l(x)), 1),
    "arccos": elem(_fl("arccos"), 1),
    "cos": elem(_fl("cos"), 1),
    "sin": elem(_fl("sin"), 1),
    "conjugate": elem(lambda x: x, 1),
    "arctan2": elem(lambda x, y: T.uf2("arctan2", _l(x), _l(y)), 2),
    "divide": elem(lambda x, y: _divide(x, y), 2),
    "true_divide": elem(lambda x, y: _divide(x, y), 2),
    "isneginf": elem(lambda x: _isinf(x) and x < 0, 1, bool),
    "floor_divide": elem(lambda x, y: (_l(x) / _l(y)).floor(), 2),
    "remainder": elem(lambda x, y: _l(x) % _l(y), 2),
    "logical_not": elem(lambda x: not x, 1, bool),
    "logical_and": elem(lambda x, y: bool(x) and bool(y), 2, bool),
    "logical_or": elem(lambda x, y: bool(x) or bool(y), 2, bool),
    "signbit": elem(lambda x: x < 0, 1, bool),
    "equal": elem(lambda x, y: x is y or bool(x == y), 2, bool),
    "not_equal": elem(lambda x, y: not (x is y) and bool(x != y), 2, bool),
}


def _divide(x, y):
    x, y = _l(x), _l(y)
    if not isinstance(y, Term):
        if isinstance(x, Term):
            return x / y
        with np.errstate(all="ignore"):
            return float(np.float64(x) / np.float64(y))
    if not isinstance(x, Term) and not y.d:
        return x if x != x else _math.nan
    return x / y


def _axis_apply(a, axis, f, keepdims=False):
    a = as_sym(a).view(np.ndarray)
    if axis is None:
        r = f(a.reshape(-1))
        if keepdims:
            b = np.empty((1,) * a.ndim, dtype=object)
            b[(0,) * a.ndim] = r
            return b.view(SymArr)
        return r
    if isinstance(axis, tuple):
        axis = tuple(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axis]
        b = a.transpose(rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
        r = _axis_apply(b, -1, f)
        if keepdims:
            r = np.asarray(r, dtype=object).reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)]).view(SymArr)
        return r
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = f(b[i])
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return out.view(SymArr)


def _sumf(v):
    s = const(0)
    for x in v:
        s = s + _l(x)
    return s


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = as_sym(a)
    if a.dtype.kind != "f":
        a = as_sym(np.asarray(a).astype(object))
    return _axis_apply(a, axis, lambda v: _sumf(v) / len(v), keepdims)


def _var(a, axis=None, ddof=0, keepdims=False, **k):
    def f(v):
        m = _sumf(v) / len(v)
        return _sumf([(_l(x) - m).square() for x in v]) / (len(v) - ddof)

    return _axis_apply(a, axis, f, keepdims)


def _std(a, axis=None, ddof=0, keepdims=False, **k):
    r = _var(a, axis, ddof, keepdims)
    return _UF["sqrt"](r) if not isinstance(r, SymArr) else np.sqrt(r)


def _median(a, axis=None, keepdims=False, **k):
    def f(v):
        w = sort_list(list(v))
        n = len(w)
        return w[n // 2] if n % 2 else (w[n // 2 - 1] + w[n // 2]) / 2

    return _axis_apply(a, axis, f, keepdims)


def argsort_list(v):
    """stable insertion sort: few, deterministic comparisons"""
    idx = []
    for i, x in enumerate(v):
        j = len(idx)
        while j > 0 and _lt(x, v[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def _lt(x, y):
    if x is y:
        return False
    return bool(x < y)


def sort_list(v):
    return [v[i] for i in argsort_list(v)]


def _sort(a, axis=-1, **k):
    if not has_sym(a):
        return np.sort(a, axis=axis, **k)
    a = as_sym(a).view(np.ndarray)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(a.copy(), axis, -1)
    for i in np.ndindex(*b.shape[:-1]):
        s = sort_list(list(b[i]))
        for j, x in enumerate(s):
            b[i + (j,)] = x
    return np.moveaxis(b, -1, axis).view(SymArr)


def _argsort(a, axis=-1, **k):
    if not has_sym(a):
        return np.argsort(a, axis=axis, **k)
    a = as_sym(a).view(np.ndarray)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=np.int64)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = argsort_list(list(b[i]))
    return np.ascontiguousarray(np.moveaxis(out, -1, axis))


def _argext(better):
    def f(a, axis=None, **k):
        a = as_sym(a).view(np.ndarray)

        def g(v):
            b = 0
            for i in range(1, len(v)):
                if v[i] is not v[b] and better(v[i], v[b]):
                    b = i
            return b

        r = _axis_apply(a, axis, g)
        return np.int64(r) if not isinstance(r, np.ndarray) else r.view(np.ndarray).astype(np.int64)

    return f


_argmax = _argext(lambda x, y: bool(x > y))
_argmin = _argext(lambda x, y: bool(x < y))


def _amax(a, axis=None, keepdims=False, initial=None, **k):
    def f(v):
        m = v[0]
        for x in v[1:]:
            m = _max(m, x)
        return m

    return _axis_apply(a, axis, f, keepdims)


def _amin(a, axis=None, keepdims=False, **k):
    def f(v):
        m = v[0]
        for x in v[1:]:
            m = _min(m, x)
        return m

    return _axis_apply(a, axis, f, keepdims)


def _any(a, axis=None, keepdims=False, **k):
    if not has_sym(a):
        return np.any(a, axis=axis, keepdims=keepdims)
    b = as_sym(a).astype(bool)
    return np.any(b, axis=axis, keepdims=keepdims)


def _all(a, axis=None, keepdims=False, **k):
    if not has_sym(a):
        return np.all(a, axis=axis, keepdims=keepdims)
    b = as_sym(a).astype(bool)
    return np.all(b, axis=axis, keepdims=keepdims)


def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if not (has_sym(a) or has_sym(lo) or has_sym(hi)):
        return np.clip(a, lo, hi)
    r = as_sym(a)
    if lo is not None:
        r = np.maximum(r, as_sym(lo) if not np.isscalar(lo) and not isinstance(lo, Term) else lo)
    if hi is not None:
        r = np.minimum(r, as_sym(hi) if not np.isscalar(hi) and not isinstance(hi, Term) else hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _norm(x, ord=None, axis=None, keepdims=False):
    x = as_sym(x)
    if x.dtype.kind != "f":
        return np.linalg.norm(x, ord=ord, axis=axis, keepdims=keepdims)
    if ord in (None, 2, "fro") and (axis is not None or ord in (None, "fro") or x.ndim == 1):
        return _axis_apply(x, axis, lambda v: T.power(_l(_sumf([_l(e) * _l(e) for e in v])), Fr(1, 2)), keepdims)
    if ord == 1 and (axis is not None or x.ndim == 1):
        return _axis_apply(x, axis, lambda v: _sumf([abs(_l(e)) for e in v]), keepdims)
    if ord in (np.inf,) and (axis is not None or x.ndim == 1):
        return _amax(np.abs(x), axis=axis, keepdims=keepdims)
    raise SymError("norm ord=%r" % (ord,))


def _det(a):
    a = as_sym(a).view(np.ndarray)
    if a.ndim > 2:
        out = np.empty(a.shape[:-2], dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = _det(a[i])
        return out.view(SymArr)
    n = a.shape[0]
    if n == 1:
        return _l(a[0, 0])
    s = const(0)
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = _l(a[0, j])
        if isinstance(t, Term) and not t.d:
            continue
        s = s + t * _det(m) * (1 if j % 2 == 0 else -1)
    return s


def _inv(a, *k, **kw):
    a = as_sym(a).view(np.ndarray)
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = _inv(a[i]).view(np.ndarray)
        return out.view(SymArr)
    n = a.shape[0]
    d = _det(a)
    if isinstance(d, Term) and d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            c = _det(m) if n > 1 else const(1)
            out[i, j] = c / d * (1 if (i + j) % 2 == 0 else -1)
    return out.view(SymArr)


def _solve(a, b):
    return np.matmul(_inv(a), as_sym(b))


def _slogdet(a):
    d = _det(a)
    return (1 if d > 0 else -1), T.log(abs(d))


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None or aweights is not None:
        raise SymError("np.cov with weights")
    x = as_sym(m).view(np.ndarray)
    if x.ndim < 2:
        x = x.reshape(1, -1)
    elif not rowvar:
        x = x.T
    n = x.shape[1]
    x = x - np.array([sum(r[1:], r[0]) / n for r in x], dtype=object).reshape(-1, 1)
    r = np.matmul(x, x.T) / (n - (ddof if ddof is not None else 0 if bias else 1))
    return np.squeeze(r).view(SymArr)


def _contract(name):
    def f(*a, **k):
        ex = T.active()
        h = getattr(ex, "contracts", {}).get(name) if ex is not None else None
        if h is None:
            raise SymError("no symbolic model for %s" % name)
        return h(*a, **k)

    return f


def _argpartition(a, kth, axis=-1, **k):
    """one admissible partition (the sorted one); out-of-range pivots are refused as numpy does"""
    np.argpartition(np.zeros(np.shape(a)), kth, axis=axis)
    return _argsort(a, axis=axis)


def _cumsum(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if a.dtype.kind != "f":
        return np.cumsum(a, axis=axis)
    return np.add.accumulate(a.reshape(-1) if axis is None else a, axis=0 if axis is None else axis)


def _searchsorted(a, v, side="left", sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return np.searchsorted(a, v, side, sorter)
    a = [_l(x) for x in np.asarray(_strip(a), dtype=object).reshape(-1)]

    def f(x):
        x = _l(x)
        # binary search, like numpy
        lo, hi = 0, len(a)
        while lo < hi:
            mid = (lo + hi) // 2
            c = (a[mid] < x) if side == "left" else (a[mid] <= x)
            if c:
                lo = mid + 1
            else:
                hi = mid
        return lo

    if isinstance(v, np.ndarray) and v.ndim:
        b = v.view(np.ndarray) if isinstance(v, SymArr) else v
        out = np.empty(b.shape, dtype=np.int64)
        for i in np.ndindex(*b.shape):
            out[i] = f(b[i])
        return out
    return np.int64(f(v))


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a0 = as_sym(a)
    if a0.dtype.kind != "f":
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
    if axis is not None:
        raise SymError("unique axis")
    v = list(a0.view(np.ndarray).reshape(-1))
    order = argsort_list(v)
    vals, inv, idx, cnt = [], [0] * len(v), [], []
    for i in order:
        if not vals or bool(vals[-1] != v[i]):
            vals.append(v[i])
            idx.append(i)
            cnt.append(0)
        inv[i] = len(vals) - 1
        cnt[-1] += 1
    r = [mkarr(vals)]
    if return_index:
        r.append(np.array(idx))
    if return_inverse:
        r.append(np.array(inv))
    if return_counts:
        r.append(np.array(cnt))
    return r[0] if len(r) == 1 else tuple(r)


def mkarr(lst):
    a = np.empty(np.shape(_strip(lst)) if not has_sym(lst) else _shape(lst), dtype=object)
    _fill(a, lst)
    return a.view(SymArr)


def _shape(l):
    if isinstance(l, (list, tuple)):
        return (len(l),) + (_shape(l[0]) if l else ())
    if isinstance(l, np.ndarray):
        return l.shape
    return ()


def _fill(a, l):
    if isinstance(l, (list, tuple)):
        for i, x in enumerate(l):
            if a.ndim == 1:
                a[i] = _l(x if not (isinstance(x, np.ndarray) and x.ndim == 0) else x[()])
            else:
                _fill(a[i], x)
    elif isinstance(l, np.ndarray):
        a[...] = as_sym(l).view(np.ndarray) if l.dtype.kind in "fO" else l
    else:
        a[()] = _l(l)


def _close(x, y, rtol, atol):
    x, y = _l(x), _l(y)
    if not isinstance(x, Term) or not isinstance(y, Term):
        return (x == y) if not (isinstance(x, Term) or isinstance(y, Term)) else False
    return bool(abs(x - y) <= const(T.idealise(atol)) + const(T.idealise(rtol)) * abs(y))


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = elem(lambda x, y: _close(x, y, rtol, atol), 2, bool)(_strip(as_sym(a)), _strip(as_sym(b)))
    return r


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol)))


def _array_equal(a, b, **k):
    a, b = np.asarray(_strip(a)), np.asarray(_strip(b))
    if a.shape != b.shape:
        return False
    return all(x is y or bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if _isnan(e):
            return const(Fr(nan))
        if _isinf(e):
            v = (posinf if e > 0 else neginf)
            return const(Fr(v if v is not None else (10**300 if e > 0 else -(10**300))))
        return e

    return _wrap(np.frompyfunc(f, 1, 1)(as_sym(x).view(np.ndarray)))


def _where(c, *xy):
    if not xy:
        if has_sym(c):
            c = as_sym(c).astype(bool)
        return np.where(c)
    x, y = xy
    if has_sym(c):
        c = as_sym(c).astype(bool)
    if not (has_sym(x) or has_sym(y)):
        r = np.where(c, x, y)
        return as_sym(r)
    x = as_sym(x) if not isinstance(x, Term) else _wrap(x)
    y = as_sym(y) if not isinstance(y, Term) else _wrap(y)
    r = np.where(np.asarray(c), _o(x), _o(y))
    return r.view(SymArr)


def _o(x):
    return x.view(np.ndarray) if isinstance(x, SymArr) else np.asarray(x).astype(object)


def _einsum_loop(sub, ops):
    """plain loops over the letters (numpy's fast paths refuse some object layouts)"""
    import itertools

    ins, _, out = sub.replace(" ", "").partition("->")
    ins = ins.split(",")
    size = {c: n for s, o in zip(ins, ops) for c, n in zip(s, o.shape)}
    if "->" not in sub:
        out = "".join(sorted(c for c in size if "".join(ins).count(c) == 1))
    rest = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], dtype=object)
    for idx in itertools.product(*[range(size[c]) for c in out]):
        at = dict(zip(out, idx))
        t = 0
        for jdx in itertools.product(*[range(size[c]) for c in rest]):
            at.update(zip(rest, jdx))
            v = 1
            for s, o in zip(ins, ops):
                v = v * o[tuple(at[c] for c in s)]
            t = t + v
        r[idx] = t
    return r if r.ndim else r[()]


def _einsum(sub, *ops, **k):
    k.pop("optimize", None)
    if not any(has_sym(o) for o in ops):
        return as_sym(np.einsum(sub, *ops)) if isinstance(sub, str) else np.einsum(sub, *ops)
    ops = [_o(as_sym(o)) for o in ops]
    try:
        r = np.einsum(sub, *ops)
    except TypeError:
        r = _einsum_loop(sub, ops)
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r[()]
        # einsum may return a view (e.g. 'ii->i')
        return r.view(SymArr)
    return r


def _dot(a, b, out=None):
    if not (has_sym(a) or has_sym(b)):
        return as_sym(np.dot(a, b))
    a, b = _scal(a), _scal(b)
    if isinstance(a, Term) or isinstance(b, Term) or np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    return _rv(np.dot(_o(as_sym(a)), _o(as_sym(b))))


def _scal(a):
    return a


def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
    if isinstance(a, Term):
        return a
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    if isinstance(a, (list, tuple)):
        a = as_sym(mkarr(list(a)) if has_sym(a) else np.asarray(a))
    if not has_sym(a):
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            a = as_sym(a)
        else:
            return np.sum(a, axis=axis, keepdims=keepdims)
    b = _o(a)
    if b.size == 0 and axis is None:
        return const(0)
    return _rv(np.add.reduce(b, axis=axis if axis is not None else None, keepdims=keepdims))


def _prod(a, axis=None, keepdims=False, **k):
    if not has_sym(a):
        return np.prod(a, axis=axis, keepdims=keepdims)
    return _rv(np.multiply.reduce(_o(as_sym(a)), axis=axis, keepdims=keepdims))


def _trace(a, *args, **k):
    if args or k:
        raise SymError("trace args")
    return _sumf(list(np.diagonal(_o(as_sym(a)))))


def _lse(a, axis=None, b=None, keepdims=False, return_sign=False):
    a = as_sym(a)
    if a.dtype.kind != "f":
        a = as_sym(a.astype(object))
    if b is not None:
        return _axis_apply(np.exp(a) * b, axis, lambda v: T.log(_sumf(v)), keepdims)
    return _axis_apply(np.exp(a), axis, lambda v: T.log(_sumf(v)), keepdims)


def _real(x):
    return x


def _pad(a, pad_width, mode="constant", constant_values=0, **k):
    if not has_sym(a):
        return np.pad(a, pad_width, constant_values=constant_values)
    a = _o(as_sym(a))
    pw = np.broadcast_to(np.asarray(pad_width), (a.ndim, 2))
    out = np.empty([s + p[0] + p[1] for s, p in zip(a.shape, pw)], dtype=object)
    out[...] = _l(constant_values)
    out[tuple(slice(p[0], p[0] + s) for s, p in zip(a.shape, pw))] = a
    return out.view(SymArr)


def _count_nonzero(a, axis=None, **k):
    if has_sym(a):
        a = as_sym(a).astype(bool)
    return np.count_nonzero(a, axis=axis)


def _flatnonzero(a):
    if has_sym(a):
        a = as_sym(a).astype(bool)
    return np.flatnonzero(a)


def _nonzero(a):
    if has_sym(a):
        a = as_sym(a).astype(bool)
    return np.nonzero(a)


def _average(a, axis=None, weights=None, returned=False, **k):
    a = as_sym(a)
    if weights is None:
        return _mean(a, axis)
    w = as_sym(weights)
    if w.shape != a.shape and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return _sum(a * w, axis=axis) / _sum(w * as_sym(np.ones(a.shape)), axis=axis)


def _interp(x, xp, fp, **k):
    raise SymError("interp")


_FN = {
    np.sort: _sort, np.argpartition: _argpartition, np.argsort: _argsort, np.max: _amax, np.min: _amin, np.amax: _amax,
    np.amin: _amin, np.argmax: _argmax, np.argmin: _argmin, np.any: _any, np.all: _all,
    np.clip: _clip, np.linalg.norm: _norm, np.linalg.det: _det, np.linalg.inv: _inv,
    np.linalg.solve: _solve, np.linalg.slogdet: _slogdet, np.mean: _mean, np.var: _var,
    np.std: _std, np.median: _median, np.cumsum: _cumsum, np.searchsorted: _searchsorted,
    np.cov: _cov, np.unique: _unique, np.isclose: _isclose, np.allclose: _allclose,
    np.array_equal: _array_equal, np.nan_to_num: _nan_to_num, np.where: _where,
    np.einsum: _einsum, np.sum: _sum, np.prod: _prod, np.trace: _trace, np.real: _real,
    np.pad: _pad, np.count_nonzero: _count_nonzero, np.flatnonzero: _flatnonzero,
    np.nonzero: _nonzero, np.average: _average, np.dot: _dot,
    np.linalg.eigh: _contract("eigh"), np.linalg.svd: _contract("svd"),
    np.linalg.pinv: _contract("pinv"), np.linalg.qr: _contract("qr"),
    np.linalg.eig: _contract("eig"), np.linalg.eigvalsh: _contract("eigvalsh"),
}


# ------------------------------------------------------------- numpy proxy
class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(getattr(real, "__name__", "proxy"))
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def _creation(f):
    def g(*a, dtype=None, order=None, like=None, **k):
        if is_float_dtype(dtype):
            r = f(*a, **k)
            if r.dtype.kind in "fO" or dtype is not None:
                return as_sym(r.astype(float) if r.dtype.kind in "iub" else r)
            return r
        return f(*a, dtype=dtype, **k)

    return g


def _zeros(shape, dtype=None, order=None, **k):
    if is_float_dtype(dtype):
        a = np.empty(shape, dtype=object)
        a[...] = const(0)
        return a.view(SymArr)
    return np.zeros(shape, dtype=dtype)


def _ones(shape, dtype=None, order=None, **k):
    if is_float_dtype(dtype):
        a = np.empty(shape, dtype=object)
        a[...] = const(1)
        return a.view(SymArr)
    return np.ones(shape, dtype=dtype)


def _full(shape, fill_value, dtype=None, order=None, **k):
    if isinstance(fill_value, np.ndarray) and fill_value.ndim == 0:
        fill_value = fill_value[()]
    if dtype is None and isinstance(fill_value, (int, bool, np.integer, np.bool_)):
        return np.full(shape, fill_value)
    if is_float_dtype(dtype):
        a = np.empty(shape, dtype=object)
        if isinstance(fill_value, np.ndarray):
            a[...] = _o(as_sym(fill_value))
        else:
            a[...] = _l(fill_value)
        return a.view(SymArr)
    return np.full(shape, fill_value, dtype=dtype)


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        dt = dtype
        if dt is None:
            dt = a.dtype if hasattr(a, "dtype") else None
        return f(np.shape(a) if shape is None else shape, *args, dtype=dt)

    return g


def _eye(N, M=None, k=0, dtype=None, **kw):
    if is_float_dtype(dtype):
        return as_sym(np.eye(N, M, k))
    return np.eye(N, M, k, dtype=dtype)


def _array(x, dtype=None, copy=None, order=None, ndmin=0, **k):
    if isinstance(x, SymCoo):
        raise SymError("array of sparse")
    if isinstance(x, SymArr):
        if is_float_dtype(dtype):
            r = x.copy()
        else:
            r = x.astype(dtype)
        while r.ndim < ndmin:
            r = r[None]
        return r
    if has_sym(x):
        if isinstance(x, Term):
            r = _wrap(x)
        elif isinstance(x, np.ndarray):
            r = as_sym(x).copy()
        else:
            r = mkarr(x)
        if not is_float_dtype(dtype):
            r = r.astype(dtype)
        while r.ndim < ndmin:
            r = r[None]
        return r
    if dtype is symfloat:
        dtype = float
    r = np.array(x, dtype=dtype, ndmin=ndmin) if dtype is not OBJ else np.array(x, dtype=object)
    return as_sym(r)


def _asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SymArr):
        return x if is_float_dtype(dtype) else x.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype.kind not in "fO":
        if dtype is None:
            return x
        if is_float_dtype(dtype):
            return as_sym(x.astype(float))
        return np.asarray(x, dtype=dtype)
    return _array(x, dtype=dtype)


def _arange(*a, dtype=None, **k):
    if any(isinstance(x, Term) for x in a):
        a = [int(x) for x in a]
    r = np.arange(*a)
    if dtype is None:
        return as_sym(r)
    if is_float_dtype(dtype):
        return as_sym(r.astype(float))
    return r.astype(dtype)


def _linspace(start, stop, num=50, endpoint=True, dtype=None, **k):
    s, e = _l(start), _l(stop)
    n = num - 1 if endpoint else num
    a = np.empty(num, dtype=object)
    for i in range(num):
        a[i] = s + (e - s) * Fr(i, n) if n else s
    return a.view(SymArr)


def _listfn(f):
    def g(arrs, *a, **k):
        arrs = [as_sym(x) if not isinstance(x, Term) else _wrap(x) for x in arrs]
        if any(isinstance(x, SymArr) for x in arrs):
            arrs = [_o(x) for x in arrs]
            return _rv(f(arrs, *a, **k))
        return f(arrs, *a, **k)

    return g


class symfloat_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Term))


class symfloat(metaclass=symfloat_meta):
    def __new__(cls, x=0.0):
        if isinstance(x, Term):
            return x
        if isinstance(x, np.ndarray) and x.size == 1 and has_sym(x):
            return _o(x).reshape(-1)[0]
        return builtins.float(x)


def _sc(name):
    """numpy ufunc that also accepts bare Terms / floats"""
    real = getattr(np, name)
    h = _UF[name if name not in ("abs",) else "absolute"]

    def g(*a, out=None, where=True, **k):
        if any(isinstance(x, Term) for x in a):
            a2 = [_o(x) if isinstance(x, SymArr) else x for x in a]
            r = _rv(h(*a2))
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return r
        if any(isinstance(x, SymArr) for x in a):
            return real(*a) if out is None else real(*a, out=out)
        r = real(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            return as_sym(r)
        return r

    g.__name__ = name
    return g


class _Testing(types.SimpleNamespace):
    pass


def _assert_almost_equal(actual, desired, decimal=7, err_msg="", verbose=True):
    a, d = _o(as_sym(actual) if not isinstance(actual, Term) else _wrap(actual)), _o(
        as_sym(desired) if not isinstance(desired, Term) else _wrap(desired)
    )
    lim = const(Fr(3, 2) * Fr(1, 10**decimal))
    a, d = np.broadcast_arrays(a, d)
    for x, y in zip(a.reshape(-1), d.reshape(-1)):
        if not isinstance(_l(x), Term) or not isinstance(_l(y), Term):
            if not (x == y):
                raise AssertionError(err_msg)
            continue
        if not abs(_l(x) - _l(y)) < lim:
            raise AssertionError(err_msg)


def _assert_allclose(a, b, rtol=1e-7, atol=0, err_msg="", **k):
    if not _allclose(a, b, rtol, atol):
        raise AssertionError(err_msg)


class SymCoo:
    """COO container holding Terms (scipy's own refuses object data)."""

    def __new__(cls, arg=None, *a, **k):
        if isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            return _sps.coo_matrix(arg)
        return object.__new__(cls)

    format = "coo"

    def __init__(self, arg, shape=None, dtype=None, **k):
        if isinstance(arg, SymCoo):
            self.row, self.col, self.data, self.shape = arg.row, arg.col, arg.data, arg.shape
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            d, (r, c) = arg
            self.data = as_sym(d)
            self.row, self.col = np.asarray(r).astype(np.int64), np.asarray(c).astype(np.int64)
            if shape is None:
                shape = (int(self.row.max()) + 1, int(self.col.max()) + 1)
            self.shape = tuple(shape)
        elif isinstance(arg, tuple):
            self.shape = arg
            self.row = self.col = np.zeros(0, dtype=np.int64)
            self.data = _zeros(0)
        else:
            a = as_sym(arg)
            self.shape = a.shape
            nz = [(i, j) for i in range(a.shape[0]) for j in range(a.shape[1]) if bool(a[i, j] != 0)]
            self.row = np.array([i for i, _ in nz], dtype=np.int64)
            self.col = np.array([j for _, j in nz], dtype=np.int64)
            self.data = mkarr([a[i, j] for i, j in nz]) if nz else _zeros(0)
        self.ndim = 2
        self.dtype = F64

    def toarray(self):
        out = np.empty(self.shape, dtype=object)
        out[...] = const(0)
        for d, i, j in zip(_o(self.data), self.row, self.col):
            out[i, j] = out[i, j] + d
        return out.view(SymArr)

    todense = toarray

    def tocsr(self, *a, **k):
        return SymCoo(self)

    tocoo = tocsr

    def copy(self):
        return SymCoo((self.data.copy(), (self.row.copy(), self.col.copy())), shape=self.shape)

    def astype(self, *a, **k):
        return self

    def sum(self, axis=None):
        return _sum(self.toarray(), axis=axis)

    @property
    def T(self):
        return SymCoo((self.data, (self.col, self.row)), shape=self.shape[::-1])

    def transpose(self):
        return self.T

    @property
    def nnz(self):
        return len(self.data)

    @property
    def A(self):
        return self.toarray()

    def dot(self, o):
        if isinstance(o, SymCoo):
            return SymCoo(_dot(self.toarray(), o.toarray()))
        return _dot(self.toarray(), o)

    def __getitem__(self, k):
        r = self.toarray()[k]
        if not isinstance(r, np.ndarray):
            return r
        if r.ndim == 1:
            r = r[:, None] if isinstance(k, tuple) and np.ndim(k[-1]) == 0 and not isinstance(k[-1], slice) else r[None, :]
        return SymCoo(r)

    __matmul__ = dot

    def __mul__(self, o):
        if isinstance(o, SymCoo):
            o = o.toarray()
        if np.ndim(o) == 0:
            return SymCoo((self.data * o, (self.row, self.col)), shape=self.shape)
        return SymCoo((mkarr([d * as_sym(o)[i, j] for d, i, j in zip(_o(self.data), self.row, self.col)]), (self.row, self.col)), shape=self.shape)

    __rmul__ = __mul__
    multiply = __mul__

    def __truediv__(self, o):
        return SymCoo((self.data / o, (self.row, self.col)), shape=self.shape)

    def __add__(self, o):
        if isinstance(o, SymCoo):
            # one entry per position, as scipy's
            d = {}
            for z in (self, o):
                for x, i, j in zip(_o(z.data), z.row, z.col):
                    d[i, j] = d[i, j] + x if (i, j) in d else x
            ks = sorted(d)
            return SymCoo((mkarr([d[k] for k in ks]) if ks else _zeros(0), (np.array([k[0] for k in ks], dtype=np.int64), np.array([k[1] for k in ks], dtype=np.int64))), shape=self.shape)
        return self.toarray() + o

    def __radd__(self, o):
        return self + o if not (np.ndim(o) == 0 and not isinstance(o, Term) and o == 0) else self

    def eliminate_zeros(self):
        keep = [k for k, d in enumerate(_o(self.data)) if bool(d != 0)]
        self.row, self.col = self.row[keep], self.col[keep]
        self.data = self.data[keep]


def issparse(x):
    return isinstance(x, SymCoo) or _sps.issparse(x)


_concat = _listfn(np.concatenate)


def _cdist(X, Y, metric="euclidean", p=2, w=None, **k):
    """model of scipy.spatial.distance.cdist (documented formulas)"""
    X, Y = _o(as_sym(X)), _o(as_sym(Y))
    out = np.empty((X.shape[0], Y.shape[0]), dtype=object)
    w = [const(1)] * X.shape[1] if w is None else [_l(x) for x in _o(as_sym(w))]
    p = _l(p)
    for i in range(X.shape[0]):
        for j in range(Y.shape[0]):
            if callable(metric):
                out[i, j] = _l(metric(X[i].view(SymArr), Y[j].view(SymArr)))
                continue
            d = [_l(a) - _l(b) for a, b in zip(X[i], Y[j])]
            if metric == "sqeuclidean":
                v = _sumf([q * x * x for q, x in zip(w, d)])
            elif metric == "euclidean":
                v = T.power(_sumf([q * x * x for q, x in zip(w, d)]), Fr(1, 2))
            elif metric == "cityblock":
                v = _sumf([q * abs(x) for q, x in zip(w, d)])
            elif metric == "minkowski":
                v = T.power(_sumf([q * T.power(abs(x), p) for q, x in zip(w, d)]), 1 / p.cval())
            elif metric == "chebyshev":
                v = d[0]
                v = abs(v)
                for x in d[1:]:
                    v = _max(v, abs(x))
            else:
                raise SymError("cdist metric %s" % metric)
            out[i, j] = v
    return out.view(SymArr)


def _isscalar(x):
    return isinstance(x, Term) or np.isscalar(x)


def _tri(f):
    def g(a, *r, **k):
        return _rv(f(_o(as_sym(a)), *r, **k)) if has_sym(a) else f(a, *r, **k)

    return g


def _diag(a, k=0):
    if not has_sym(a):
        return as_sym(np.diag(a, k))
    a = _o(as_sym(a))
    if a.ndim == 2:
        return np.diag(a, k).copy().view(SymArr)
    n = len(a) + abs(k)
    out = np.empty((n, n), dtype=object)
    out[...] = const(0)
    for i, x in enumerate(a):
        out[i + max(0, -k), i + max(0, k)] = x
    return out.view(SymArr)


def _squeeze1(f):
    def g(x, *a, **k):
        if isinstance(x, Term):
            x = _wrap(x)
        elif not isinstance(x, np.ndarray):
            x = as_sym(x)
        return f(x, *a, **k)

    return g


def _matmul(a, b, **k):
    if has_sym(a) or has_sym(b):
        return _rv(np.matmul(_o(as_sym(a)), _o(as_sym(b))))
    return as_sym(np.matmul(a, b))


def _outer(a, b):
    return _rv(np.multiply.outer(_o(as_sym(a)).reshape(-1), _o(as_sym(b)).reshape(-1)))


LINALG = Proxy(
    np.linalg,
    dict(
        norm=_norm, det=_det, inv=_inv, solve=_solve, slogdet=_slogdet,
        eigh=_contract("eigh"), svd=_contract("svd"), pinv=_contract("pinv"),
        qr=_contract("qr"), eig=_contract("eig"), eigvalsh=_contract("eigvalsh"),
        lstsq=_contract("lstsq"),
    ),
)

TESTING = Proxy(
    np.testing,
    dict(assert_almost_equal=_assert_almost_equal, assert_allclose=_assert_allclose),
)

NP = Proxy(
    np,
    dict(
        zeros=_zeros, ones=_ones, empty=_zeros, full=_full, eye=_eye, identity=_eye,
        zeros_like=_like(_zeros), ones_like=_like(_ones), empty_like=_like(_zeros),
        full_like=_like(_full), array=_array, asarray=_asarray, asanyarray=_asarray,
        ascontiguousarray=_asarray, asfortranarray=_asarray, arange=_arange,
        linspace=_linspace, concatenate=_concat, stack=_listfn(np.stack),
        vstack=_listfn(np.vstack), hstack=_listfn(np.hstack), column_stack=_listfn(np.column_stack),
        linalg=LINALG, testing=TESTING, sort=_sort, argsort=_argsort, argpartition=_argpartition, max=_amax, min=_amin,
        amax=_amax, amin=_amin, argmax=_argmax, argmin=_argmin, any=_any, all=_all,
        clip=_clip, mean=_mean, var=_var, std=_std, median=_median, cumsum=_cumsum,
        searchsorted=_searchsorted, cov=_cov, unique=_unique, isclose=_isclose, allclose=_allclose,
        array_equal=_array_equal, nan_to_num=_nan_to_num, where=_where, einsum=_einsum,
        sum=_sum, prod=_prod, trace=_trace, real=_real, pad=_pad,
        count_nonzero=_count_nonzero, flatnonzero=_flatnonzero, nonzero=_nonzero,
        average=_average, isscalar=_isscalar, diag=_diag, dot=_dot, matmul=_matmul,
        outer=_outer,
        **{n: _sc(n) for n in (
            "exp", "log", "log1p", "log2", "expm1", "sqrt", "square", "power", "isnan", "isinf",
            "isfinite", "sign", "floor", "ceil", "maximum", "minimum", "fmax", "fmin", "abs",
            "absolute", "fabs", "arccos", "cos", "sin", "arctan2", "divide", "true_divide",
        )},
    ),
)
SPECIAL = None  # built in env.py


def math_shim():
    def w(n, h):
        r = getattr(_math, n)
        return lambda *a: h(*a) if any(isinstance(x, Term) for x in a) else r(*a)

    return Proxy(
        _math,
        dict(
            sqrt=w("sqrt", lambda x: x.sqrt()), exp=w("exp", lambda x: x.exp()),
            log=w("log", lambda x: x.log()), fabs=w("fabs", abs),
            pow=w("pow", lambda x, y: T.power(_l(x), _l(y))),
            floor=w("floor", lambda x: x.floor()), isnan=w("isnan", lambda x: False),
            isinf=w("isinf", lambda x: False), isfinite=w("isfinite", lambda x: True),
        ),
    )


def sps_fn(name):
    """scipy.sparse constructor on constant blocks"""
    def conc(x):
        if isinstance(x, (list, tuple)):
            return [conc(y) for y in x]
        if isinstance(x, SymArr):
            return np.array([float(y) for y in _o(x).reshape(-1)]).reshape(x.shape)
        return x

    def f(*a, **k):
        return getattr(_sps, name)(*[conc(x) for x in a], **k)
    return f
