"""Loads ot/backend.py with one array library enabled: a model of the library's
documented functions when executing symbolically, the library itself in replays."""

import contextlib
import importlib.util
import itertools
import os
import sys
import types
import warnings

KEYS = dict(torch="PYTORCH", jax="JAX", tf="TENSORFLOW", numpy=None)
_CACHE = {}


class DT:
    """dtype of a model tensor"""

    def __init__(self, kind):
        self.kind = kind
        self.is_floating_point = self.is_floating = kind == "f"
        self.itemsize = self.size = 8

    def __eq__(self, o):
        return isinstance(o, DT) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)


class Dev(str):
    type = "cpu"
    platform = "cpu"


def un(v):
    if isinstance(v, Ten):
        return v.x
    if isinstance(v, DT):
        return {"f": float, "i": int, "b": bool}[v.kind]
    if type(v) in (list, tuple):
        return type(v)(un(z) for z in v)
    return v


class Ten:
    """a tensor over engine arrays"""

    np = None
    mutable = True
    is_sparse = is_sparse_csr = False
    requires_grad = False
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, x):
        import numpy
        if not isinstance(x, numpy.ndarray):
            x = self.np.asarray(x)
        self.x = x

    shape = property(lambda s: tuple(s.x.shape))
    ndim = property(lambda s: s.x.ndim)
    device = property(lambda s: Dev("x/device:CPU:0"))

    @property
    def T(self):
        return type(self)(self.x.T)

    @property
    def dtype(self):
        k = self.x.dtype.kind
        return DT("f" if k in "fO" else ("b" if k == "b" else "i"))

    def __len__(self):
        return len(self.x)

    def __iter__(self):
        return iter([self[i] for i in range(len(self.x))])

    def __getitem__(self, k):
        return type(self)(self.x[un(k)])

    def __setitem__(self, k, v):
        if not self.mutable:
            raise TypeError("immutable array")
        self.x[un(k)] = un(v)

    def __bool__(self):
        return bool(self.x.reshape(-1)[0])

    def __float__(self):
        return self.x.reshape(-1)[0]

    def __int__(self):
        return int(self.x.reshape(-1)[0])

    __index__ = __int__

    def __neg__(self):
        return type(self)(-self.x)

    def __invert__(self):
        return type(self)(~self.x)

    def __abs__(self):
        return type(self)(self.np.abs(self.x))

    def item(self):
        return self.x.reshape(-1)[0]

    def sum(self, axis=None, **k):
        return type(self)(self.np.sum(self.x, axis))

    def devices(self):
        return {Dev("cpu")}


def _op(name, rev=False):
    import operator
    f = getattr(operator, name)

    def g(self, o):
        o = un(o)
        import numpy
        if isinstance(o, numpy.ndarray) and o.ndim == 0:
            o = o.reshape(-1)[0] if o.dtype.kind in "fO" else o
        return type(self)(f(o, self.x) if rev else f(self.x, o))
    return g


for _n in ("add", "sub", "mul", "truediv", "pow", "matmul"):
    setattr(Ten, "__%s__" % _n, _op(_n))
    setattr(Ten, "__r%s__" % _n, _op(_n, True))
for _n in ("lt", "le", "gt", "ge", "eq", "ne", "and_", "or_"):
    setattr(Ten, "__%s__" % _n.strip("_"), _op(_n))


def wrapped(cls, ns, special=None):
    """functions of a numpy-like namespace on model tensors"""
    special = special or {}

    class NS(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            if name in special:
                return special[name]
            f = getattr(ns, name)
            if isinstance(f, types.ModuleType):
                return wrapped(cls, f)
            if not callable(f):
                return f

            def g(*a, **k):
                return wrap(cls, f(*[un(z) for z in a], **{q: un(z) for q, z in k.items()}))
            return g
    return NS("model")


def wrap(cls, r):
    import numpy
    if isinstance(r, (list, tuple)):
        return type(r)(wrap(cls, z) for z in r) if type(r) in (list, tuple) else tuple(wrap(cls, z) for z in r)
    if isinstance(r, (bool, str)) or r is None:
        return r
    if isinstance(r, numpy.ndarray):
        return cls(r)
    return cls(numpy.asarray(r)) if isinstance(r, (int, numpy.integer, numpy.bool_)) else cls(r)


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


# ---------------------------------------------------------------- torch

def torch_model(ctx):
    np = ctx.np
    import numpy

    class Tensor(Ten):
        def __init__(self, *x):
            if x and all(type(v) is int for v in x):
                self.x = np.zeros(x)
            else:
                Ten.__init__(self, x[0] if x else [])
    Tensor.np = np
    W = lambda r: wrap(Tensor, r)

    def meth(name):
        def d(f):
            setattr(Tensor, name, f)
            return f
        return d
    for _f in ("sum", "mean", "max", "min", "prod", "any", "all", "argmax", "argmin", "amax", "amin", "std"):
        meth(_f)(lambda s, *z, _f=_f, **k: getattr(fn, _f)(s, *z, **k))
    for _f in ("abs", "exp", "log", "pow", "sign", "isnan", "isinf", "isfinite", "matmul", "sort", "argsort", "clamp", "clip", "flip", "cumsum"):
        meth(_f)(lambda s, *z, _f=_f, **k: getattr(fn, _f)(s, *z, **k))
    meth("type")(lambda s, *z: s)
    meth("float")(lambda s: s)
    meth("double")(lambda s: s)
    meth("t")(lambda s: Tensor(s.x.T))
    meth("tolist")(lambda s: s.x.tolist())
    meth("contiguous")(lambda s: s)
    meth("numel")(lambda s: s.x.size)
    meth("long")(lambda s: s)
    meth("masked_fill_")(lambda s, m, v: s.x.__setitem__(un(m), v) or s)
    meth("mul")(lambda s, o: s * o)
    meth("add")(lambda s, o: s + o)
    meth("diagonal")(lambda s, *z, **k: fn.diagonal(s, *z, **k))
    Tensor.mT = property(lambda s: Tensor(np.swapaxes(s.x, -1, -2)))
    meth("cpu")(lambda s: s)
    meth("detach")(lambda s: s)
    meth("resolve_conj")(lambda s: s)
    meth("numpy")(lambda s: s.x)
    meth("flatten")(lambda s: Tensor(s.x.reshape(-1)))
    meth("view")(lambda s, *z: Tensor(s.x.reshape(*z)))
    meth("reshape")(lambda s, *z: Tensor(s.x.reshape(*z)))
    meth("transpose")(lambda s, a, b: Tensor(np.swapaxes(s.x, a, b)))
    meth("permute")(lambda s, *ax: Tensor(np.transpose(s.x, ax[0] if len(ax) == 1 and not isinstance(ax[0], int) else ax)))
    meth("unsqueeze")(lambda s, a: Tensor(np.expand_dims(s.x, a)))
    meth("squeeze")(lambda s, a=None: Tensor(np.squeeze(s.x, a)))
    meth("sqrt")(lambda s: Tensor(np.sqrt(s.x)))
    meth("clamp_min")(lambda s, k: Tensor(np.maximum(s.x, k)))
    meth("clone")(lambda s: Tensor(s.x.copy()))
    meth("type_as")(lambda s, o: s)
    meth("to")(lambda s, *z, **k: s)
    meth("size")(lambda s, d=None: s.shape if d is None else s.shape[d])
    meth("nonzero")(lambda s: Tensor(numpy.argwhere(numpy.asarray(np.asarray(s.x != 0), dtype=bool))))
    meth("index_select")(lambda s, d, ix: Tensor(np.take(s.x, un(ix), axis=d)))
    meth("masked_fill")(lambda s, m, v: Tensor(np.where(un(m), v, s.x)))

    @meth("repeat")
    def repeat(s, *reps):
        reps = tuple(reps[0]) if len(reps) == 1 and not isinstance(reps[0], int) else reps
        if len(reps) < s.ndim:
            raise RuntimeError("number of repeats smaller than the number of dimensions")
        return Tensor(np.tile(s.x, reps))

    class Sparse(Tensor):
        is_sparse = True

        def __init__(self, ix, val, size):
            self.ix, self.val = ix, val
            self.size_ = tuple(size) if size is not None else tuple(int(ix[d].max()) + 1 for d in range(len(ix)))

        shape = property(lambda s: s.size_)
        dtype = property(lambda s: Tensor(s.val).dtype)

        def _values(self):
            return Tensor(self.val)

        def _indices(self):
            return Tensor(self.ix)

        def abs(self):
            return Sparse(self.ix, np.abs(self.val), self.size_)

        def coalesce(self):
            d = {}
            for k in range(self.ix.shape[1]):
                t = tuple(int(z) for z in self.ix[:, k])
                d[t] = d[t] + self.val[k] if t in d else self.val[k]
            ks = sorted(d)
            return Sparse(numpy.array(ks).reshape(-1, 2).T, ctx.pack([d[k] for k in ks]), self.size_)

        def to_dense(self):
            out = [[ctx.num(0)] * self.size_[1] for _ in range(self.size_[0])]
            for k in range(self.ix.shape[1]):
                i, j = (int(z) for z in self.ix[:, k])
                out[i][j] = out[i][j] + self.val[k]
            return Tensor(ctx.pack(out))

    def red(f):
        def g(a, dim=None, keepdim=False, axis=None, keepdims=None, **k):
            dim = axis if dim is None else dim
            return Tensor(f(a.x, axis=dim, keepdims=bool(keepdim or keepdims)))
        return g

    def ext(f, arg):
        def g(a, dim=None, keepdim=False, axis=None):
            dim = axis if dim is None else dim
            if isinstance(dim, Ten):
                return Tensor((np.maximum if f is np.max else np.minimum)(a.x, dim.x))
            if dim is None:
                return Tensor(f(a.x))
            return Tensor(f(a.x, axis=dim, keepdims=keepdim)), Tensor(arg(a.x, axis=dim))
        return g

    def sort(a, dim=-1, **k):
        ix = np.argsort(a.x, axis=dim)
        return Tensor(np.take_along_axis(a.x, ix, axis=dim)), Tensor(ix)

    def ss(a, v, right=False, side=None):
        right = side == "right" if side is not None else right
        s = "right" if right else "left"
        if a.ndim == 1:
            return Tensor(np.searchsorted(a.x, v.x, s))
        return Tensor(numpy.stack([numpy.asarray(np.searchsorted(p, q, s)) for p, q in zip(a.x, v.x)]))

    def quantile(a, q, dim=None, keepdim=False, interpolation="linear"):
        x = a.x.reshape(-1) if dim is None else np.moveaxis(a.x, dim, 0)
        s = np.sort(x, axis=0)
        k = q * (len(s) - 1)
        lo, hi = int(numpy.floor(k)), int(numpy.ceil(k))
        if interpolation == "midpoint":
            return Tensor((s[lo] + s[hi]) / 2)
        if interpolation == "lower":
            return Tensor(s[lo])
        if interpolation == "higher":
            return Tensor(s[hi])
        return Tensor(s[lo] + (s[hi] - s[lo]) * (k - lo))

    def pad(a, how, mode="constant", value=0):
        w = [(0, 0)] * a.ndim
        for t in range(len(how) // 2):
            w[a.ndim - 1 - t] = (how[2 * t], how[2 * t + 1])
        return Tensor(np.pad(a.x, w, constant_values=value))

    def std(a, dim=None, unbiased=True, keepdim=False, correction=None):
        c = (1 if unbiased else 0) if correction is None else correction
        n = a.x.size if dim is None else a.x.shape[dim]
        v = np.var(a.x, axis=dim)
        return Tensor(np.sqrt(v * n / (n - c)))

    def repeat_interleave(a, r, dim=None):
        return Tensor(np.repeat(a.x, un(r), dim))

    def gather(a, d, ix):
        out = np.zeros(ix.shape)
        x, y = a.x, ix.x
        L = {}
        for k in itertools.product(*[range(s) for s in y.shape]):
            t = list(k)
            t[d] = int(y[k])
            L[k] = x[tuple(t)]
        for k, v in L.items():
            out[k] = v
        return Tensor(out)

    def full(shape, v, **k):
        return Tensor(np.full(tuple(shape), un(v)))

    def size(s):
        return tuple(int(z) for z in (s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))

    def softmax(a, dim):
        e = np.exp(a.x)
        return Tensor(e / np.sum(e, axis=dim, keepdims=True))

    def meshgrid(a, b, indexing="ij"):
        return tuple(Tensor(z) for z in np.meshgrid(a.x, b.x, indexing=indexing))

    def diagonal(a, offset=0, dim1=0, dim2=1):
        n = min(a.shape[dim1], a.shape[dim2])
        x = np.moveaxis(a.x, (dim1, dim2), (-2, -1))
        return Tensor(np.stack([x[..., i, i] for i in range(n)], axis=-1))

    def nan_to_num(x, nan=0.0, posinf=None, neginf=None, out=None):
        r = np.nan_to_num(x.x, nan=nan, posinf=posinf, neginf=neginf)
        if out is not None:
            out.x[...] = r
            return out
        return Tensor(r)

    class Function:
        @classmethod
        def apply(cls, *a):
            c = types.SimpleNamespace()
            c.save_for_backward = lambda *z: setattr(c, "saved_tensors", z)
            r = cls.forward(c, *a)
            if isinstance(r, Ten):
                r = Tensor(r.x)
                r.grad_fn = (lambda go: cls.backward(c, go), a)
            return r

    class Generator:
        def __init__(self, d="cpu"):
            self.device, self.log = Dev("cpu"), []

        def seed(self):
            self.log.append(None)

        def manual_seed(self, s):
            self.log.append(s)
            return self

    def rnd(name):
        def g(*size, size_=None, generator=None, **k):
            size = k.get("size", size)
            t = Tensor(np.zeros(tuple(size)))
            t.drawn = (name, generator)
            return t
        return g

    def randperm(n, generator=None, **k):
        t = Tensor(numpy.arange(n)[::-1].copy())
        t.drawn = ("perm", generator)
        return t
    el = lambda f: lambda *a, **k: W(f(*[un(z) for z in a], **k))
    fn = module(
        "torch", Tensor=Tensor, Generator=Generator, __version__="2.5.0", float32=DT("f"), float64=DT("f"), int64=DT("i"), long=DT("i"), bool=DT("b"),
        tensor=lambda x, **k: Tensor(np.asarray(un(x))), as_tensor=lambda x, **k: Tensor(np.asarray(un(x))), from_numpy=lambda x: Tensor(x),
        zeros=lambda *s, **k: full(size(s), 0.0), ones=lambda *s, **k: full(size(s), 1.0), full=full, float=DT("f"), double=DT("f"),
        sigmoid=lambda a: Tensor(1 / (1 + np.exp(-a.x))), logit=lambda a: Tensor(np.log(a.x / (1 - a.x))), softmax=lambda a, dim: softmax(a, dim), bincount=lambda a, **k: Tensor(numpy.bincount(numpy.asarray(a.x).astype(int))), no_grad=contextlib.nullcontext, eye=lambda N, m=None, **k: Tensor(np.eye(N, m)),
        arange=lambda *a, **k: Tensor(np.arange(*a)), linspace=lambda a, b, n=None, steps=None, **k: Tensor(np.linspace(un(a), un(b), n if steps is None else steps)),
        sum=red(np.sum), prod=lambda a, dim=None, **k: Tensor(np.prod(a.x, axis=dim)), mean=red(np.mean), std=std,
        cumsum=lambda a, dim: Tensor(np.cumsum(a.x, dim)), max=ext(np.max, np.argmax), min=ext(np.min, np.argmin), amax=red(np.max), amin=red(np.min),
        maximum=el(np.maximum), minimum=el(np.minimum), sign=el(np.sign), abs=lambda a: a.abs() if a.is_sparse else W(np.abs(a.x)), exp=el(np.exp), log=el(np.log), sqrt=el(np.sqrt), pow=el(np.power),
        matmul=el(np.matmul), mm=el(np.matmul), any=el(np.any), all=el(np.all), isnan=el(np.isnan), isinf=el(np.isinf), isfinite=el(np.isfinite),
        einsum=lambda s, *o: W(np.einsum(s, *[un(z) for z in (o[0] if len(o) == 1 and isinstance(o[0], (list, tuple)) else o)])), sort=sort, argsort=lambda a, dim=-1: sort(a, dim)[1], searchsorted=ss,
        flip=lambda a, dims: Tensor(np.flip(a.x, tuple(dims))), outer=lambda a, b: Tensor(np.outer(a.x, b.x)), clamp=lambda a, min=None, max=None: Tensor(np.clip(a.x, min, max)), clip=lambda a, min=None, max=None: Tensor(np.clip(a.x, min, max)),
        real=lambda a: a, conj=lambda a: a, acos=el(np.arccos), arccos=el(np.arccos), repeat_interleave=repeat_interleave, gather=gather, take_along_dim=lambda a, ix, dim: gather(a, dim, ix),
        cat=lambda z, dim=0: Tensor(np.concatenate([un(a) for a in z], axis=dim)), stack=lambda z, dim=0: Tensor(np.stack([un(a) for a in z], axis=dim)), argmax=lambda a, dim=None: W(np.argmax(a.x, axis=dim)), argmin=lambda a, dim=None: W(np.argmin(a.x, axis=dim)),
        quantile=quantile, median=lambda a, *z: (_ for _ in ()).throw(NotImplementedError()), meshgrid=meshgrid, diag=lambda a, diagonal=0: Tensor(np.diag(a.x, diagonal)), diagonal=diagonal,
        unique=lambda a, return_inverse=False, **k: W(np.unique(a.x, return_inverse=return_inverse)), logsumexp=lambda a, dim, keepdim=False: Tensor(ctx.ot.backend.special.logsumexp(a.x, axis=dim, keepdims=keepdim)),
        reshape=lambda a, s: Tensor(np.reshape(a.x, un(s))), rand=rnd("rand"), randn=rnd("randn"), randperm=randperm,
        sparse_coo_tensor=lambda ix, v, size=None, **k: Sparse(numpy.asarray(un(ix)).astype(int), un(v), size), where=lambda c, *xy: W(np.where(un(c), *[un(z) for z in xy])), clone=lambda a: Tensor(a.x.copy()),
        allclose=lambda a, b, **k: np.allclose(a.x, b.x, **k), equal=lambda a, b: bool(np.array_equal(a.x, b.x)), squeeze=lambda a, dim=None: Tensor(np.squeeze(a.x, axis=dim)), unsqueeze=lambda a, dim: Tensor(np.expand_dims(a.x, axis=dim)),
        finfo=lambda d: types.SimpleNamespace(bits=64), tile=lambda a, r: Tensor(np.tile(a.x, r)), floor=el(np.floor), atan2=el(np.arctan2), nan_to_num=nan_to_num, permute=lambda a, d: Tensor(np.transpose(a.x, d)), transpose=lambda a, p, q: Tensor(np.swapaxes(a.x, p, q)),
        broadcast_tensors=lambda *z: [Tensor(q) for q in np.broadcast_arrays(*[un(a) for a in z])], zeros_like=lambda a: Tensor(np.zeros(a.shape)), ones_like=lambda a: Tensor(np.ones(a.shape)),
    )
    fn.cuda = types.SimpleNamespace(is_available=lambda: False)

    def norm(a, ord=None, dim=None, keepdim=False, keepdims=None):
        return Tensor(np.linalg.norm(a.x, axis=dim, keepdims=bool(keepdim or keepdims)))
    lin = wrapped(Tensor, np.linalg, dict(norm=norm))
    fn.linalg = lin
    agf = module("torch.autograd.function", once_differentiable=lambda f: f, Function=Function)
    ag = module("torch.autograd", Function=Function, function=agf)
    fn.autograd = ag
    nnf = module("torch.nn.functional", pad=pad)
    class Module:
        def __call__(self, *a, **k):
            return self.forward(*a, **k)

    class Softmax(Module):
        def __init__(self, dim=None):
            self.dim = dim

        def forward(self, x):
            return softmax(x, self.dim)

    def normal_(t, mean=0.0, std=1.0, **k):
        t.drawn = ("normal", mean, std)
        return t
    nnf.softmax = softmax
    nni = module("torch.nn.init", normal_=normal_)
    nn = module("torch.nn", functional=nnf, Module=Module, Softmax=Softmax, Parameter=lambda x, **k: x, init=nni)
    fn.nn = nn
    return {"torch": fn, "torch.autograd": ag, "torch.autograd.function": agf, "torch.nn": nn, "torch.nn.functional": nnf, "torch.nn.init": nni}, Tensor


# ---------------------------------------------------------------- jax

class Dual:
    """a value and its directional derivative"""

    def __init__(self, v, t):
        self.v, self.t = v, t

    def _o(self, o):
        return o if isinstance(o, Dual) else Dual(o, 0)

    def __add__(self, o):
        o = self._o(o)
        return Dual(self.v + o.v, self.t + o.t)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        return Dual(self.v - o.v, self.t - o.t)

    def __rsub__(self, o):
        return self._o(o) - self

    def __mul__(self, o):
        o = self._o(o)
        return Dual(self.v * o.v, self.t * o.v + self.v * o.t)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return Dual(self.v / k, self.t / k)

    def __neg__(self):
        return Dual(-self.v, -self.t)


def jax_model(ctx):
    np = ctx.np
    import numpy

    class Array(Ten):
        mutable = False
        block_until_ready = lambda s: s

        def __array__(self, *a, **k):
            return self.x
    Array.np = np

    def flat(z):
        return [q for x in z for q in flat(x)] if isinstance(z, (list, tuple)) else [z]

    def ravel(z):
        L = flat(z)
        if not L:
            return Array(np.zeros(0)), None
        f = lambda x: np.reshape(un(x), (-1,)) if isinstance(un(x), numpy.ndarray) else ctx.pack([x])
        if any(isinstance(x, Dual) for x in L):
            L = [x if isinstance(x, Dual) else Dual(x, np.zeros(numpy.shape(un(x)))) for x in L]
            return Dual(np.concatenate([f(x.v) for x in L]), np.concatenate([f(x.t) for x in L])), None
        return Array(np.concatenate([f(x) for x in L])), None

    def tmap(f, t, *r):
        if isinstance(t, (list, tuple)):
            return type(t)(tmap(f, *q) for q in zip(t, *r))
        return f(t, *r)

    def stop(z):
        return tmap(lambda x: Dual(x.v, 0 * x.t) if isinstance(x, Dual) else x, z)

    def jsum(a, axis=None, keepdims=False, **k):
        if isinstance(a, Dual):
            return Dual(np.sum(a.v, axis=axis, keepdims=keepdims), np.sum(a.t, axis=axis, keepdims=keepdims))
        return wrap(Array, np.sum(un(a), axis=axis, keepdims=keepdims))

    def jdot(a, b):
        if isinstance(a, Dual) or isinstance(b, Dual):
            return jsum(a * b)
        return wrap(Array, np.dot(un(a), un(b)))

    class CJ:
        def __init__(self, f):
            self.f, self.jvp = f, None

        def __call__(self, *a):
            return self.f(*a)

        def defjvp(self, g):
            self.jvp = g
            return g

    def jvp(f, prim, tan):
        # of the absolute value, the only function differentiated here
        (z,), (t,) = prim, tan
        return f(z), Array(np.sign(un(z)) * un(t))

    def vmap(f, in_axes=0, out_axes=0):
        def g(*a):
            r = [f(*[x[i] for x in a]) for i in range(len(a[0]))]
            return Array(numpy.stack([numpy.asarray(un(x)) for x in r]) if all(un(x).dtype.kind in "iu" for x in r) else np.stack([un(x) for x in r]))
        return g

    def rnd(name):
        def g(key, shape=(), **k):
            t = Array(np.zeros(tuple(shape)))
            t.drawn = (name, key)
            return t
        return g

    def perm(key, n):
        t = Array(numpy.arange(n)[::-1].copy())
        t.drawn = ("perm", key)
        return t

    def zlike(a):
        return Array(np.zeros(a.shape))
    jnp = wrapped(Array, np, dict(ndarray=Array, sum=jsum, dot=jdot, vdot=jdot, float32=DT("f"), float64=DT("f"), asarray=lambda a, dtype=None: Array(np.asarray(un(a))), array=lambda a, dtype=None: Array(np.array(un(a))),
                                  logical_not=lambda a: Array(np.asarray(un(a)) == 0), zeros_like=zlike, ones_like=lambda a: Array(np.ones(a.shape))))
    key = lambda s: ("key", s)
    random = module("jax.random", PRNGKey=key, split=lambda k, n=2: [(k, i) for i in range(n)], uniform=rnd("rand"), normal=rnd("randn"), permutation=perm)
    lax = module("jax.lax", stop_gradient=stop)
    tree = module("jax.tree_util", tree_map=tmap, tree_leaves=flat)
    js = module("jax.scipy.special", logsumexp=lambda a, axis=None, keepdims=False, **k: wrap(Array, ctx.ot.backend.special.logsumexp(un(a), axis=axis, keepdims=keepdims)))
    jsc = module("jax.scipy", special=js)
    eb = module("jax.extend.backend", get_backend=lambda: types.SimpleNamespace(platform="cpu"))
    ex = module("jax.extend", backend=eb)
    fu = module("jax.flatten_util", ravel_pytree=ravel)
    jax = module("jax", numpy=jnp, random=random, lax=lax, tree_util=tree, tree=module("jax.tree", map=tmap, leaves=flat), scipy=jsc, extend=ex, flatten_util=fu, custom_jvp=CJ, jvp=jvp, vmap=vmap, device_put=lambda a, d=None: a, devices=lambda *z: [], __version__="0.5.0")
    return {"jax": jax, "jax.numpy": jnp, "jax.scipy": jsc, "jax.scipy.special": js, "jax.extend": ex, "jax.extend.backend": eb, "jax.flatten_util": fu, "jax.random": random, "jax.lax": lax, "jax.tree_util": tree, "jax.tree": jax.tree}, Array


# ---------------------------------------------------------------- tensorflow

def tf_model(ctx):
    np = ctx.np
    import numpy

    class Tensor(Ten):
        mutable = False
        device = property(lambda s: "/job:localhost/device:CPU:0")

        def numpy(self):
            return self.x

        def reshape(self, *s):
            return Tensor(self.x.reshape(*s))
    Tensor.np = np
    W = lambda r: wrap(Tensor, r)

    class Sparse:
        def __init__(self, indices, values, dense_shape):
            self.indices, self.values = Tensor(numpy.asarray(un(indices)).astype(int)), values if isinstance(values, Ten) else Tensor(np.asarray(values))
            self.dense_shape = tuple(int(z) for z in (un(dense_shape) if isinstance(dense_shape, Ten) else dense_shape))
        shape = property(lambda s: s.dense_shape)

    def reorder(s):
        o = sorted(range(len(s.indices.x)), key=lambda k: tuple(s.indices.x[k]))
        return Sparse(s.indices.x[o].reshape(-1, len(s.dense_shape)), Tensor(s.values.x[o]), s.dense_shape)

    def expand(s, axis=0):
        return Sparse(numpy.insert(s.indices.x, axis, 0, axis=1), s.values, s.dense_shape[:axis] + (1,) + s.dense_shape[axis:])

    def rsum(s, axis=None):
        d = {}
        for ix, v in zip(s.indices.x, s.values.x):
            t = tuple(int(z) for z in numpy.delete(ix, axis))
            d[t] = d[t] + v if t in d else v
        sh = tuple(n for k, n in enumerate(s.dense_shape) if k != axis)
        out = [[d.get((i, j), ctx.num(0)) for j in range(sh[1])] for i in range(sh[0])]
        return Tensor(ctx.pack(out))

    def dense(s):
        ks = [tuple(int(z) for z in r) for r in s.indices.x]
        if len(set(ks)) < len(ks):
            raise ValueError("repeated indices")
        d = dict(zip(ks, s.values.x))
        return Tensor(ctx.pack([[d.get((i, j), ctx.num(0)) for j in range(s.dense_shape[1])] for i in range(s.dense_shape[0])]))

    def retain(s, m):
        k = [i for i in range(len(s.indices.x)) if bool(un(m)[i])]
        return Sparse(s.indices.x[k].reshape(-1, len(s.dense_shape)), Tensor(s.values.x[k]), s.dense_shape)

    def custom_gradient(f):
        def g(*a):
            v, gr = f(*a)
            v = Tensor(un(v))
            v.grad_fn = (gr, a)
            return v
        return g

    def matvec(a, b, transpose_a=False):
        x = un(a)
        return W(np.matmul(np.swapaxes(x, -1, -2) if transpose_a else x, un(b)))

    def ss(a, v, side="left"):
        if a.ndim == 1:
            return Tensor(numpy.asarray(np.searchsorted(a.x, v.x, side)))
        return Tensor(numpy.stack([numpy.asarray(np.searchsorted(p, q, side)) for p, q in zip(a.x, v.x)]))

    def unique(a):
        y, idx = [], []
        for v in a.x:
            for k, u in enumerate(y):
                if bool(u == v):
                    idx.append(k)
                    break
            else:
                idx.append(len(y))
                y.append(v)
        return Tensor(ctx.pack(y)), Tensor(numpy.array(idx))

    def red(f):
        return lambda a, axis=None, keepdims=False, **k: W(f(un(a), axis=axis, keepdims=keepdims))

    class Gen:
        def __init__(self, s):
            self.s = s

        from_seed = classmethod(lambda c, s: c(("seed", s)))
        from_non_deterministic_state = classmethod(lambda c: c(None))

        def _d(self, name, size):
            t = Tensor(np.zeros(tuple(size)))
            t.drawn = (name, self)
            return t

        def uniform(self, size, minval=0.0, maxval=None, dtype=None):
            t = self._d("rand", size)
            t.bounds = (minval, maxval)
            return t

        def normal(self, size, mean=0.0, stddev=1.0, dtype=None):
            return self._d("randn", size)

        def make_seeds(self, n):
            return [("local", self), 0]

    def shuffle(a, seed=None):
        t = Tensor(a.x[::-1].copy())
        t.drawn = ("perm", seed[1])
        return t
    el = lambda f: lambda *a, **k: W(f(*[un(z) for z in a]))
    lse = red(lambda a, axis, keepdims: ctx.ot.backend.special.logsumexp(a, axis=axis, keepdims=keepdims))
    eu = red(lambda a, axis, keepdims: np.sqrt(np.sum(a * a, axis=axis, keepdims=keepdims)))
    tnp = wrapped(Tensor, np)
    lin = wrapped(Tensor, np.linalg, dict(matvec=matvec, trace=lambda a: W(np.einsum("...ii", un(a)) if un(a).ndim == 2 else np.stack([np.einsum("ii", q) for q in un(a)])), matrix_transpose=lambda a, name=None: W(np.swapaxes(un(a), -1, -2)), norm=eu))
    math = module("tensorflow.math", reduce_euclidean_norm=eu, reduce_logsumexp=lse, atan2=el(np.arctan2), invert_permutation=lambda p: Tensor(numpy.argsort(p.x)), reduce_sum=red(np.sum), is_nan=el(np.isnan))
    sparse = module("tensorflow.sparse", SparseTensor=Sparse, reorder=reorder, reduce_sum=rsum, expand_dims=expand, retain=retain, to_dense=dense)
    tf = module(
        "tensorflow", Tensor=Tensor, float32=DT("f"), float64=DT("f"), int64=DT("i"), int32=DT("i"), linalg=lin, math=math, sparse=sparse, custom_gradient=custom_gradient, stop_gradient=lambda a: a,
        convert_to_tensor=lambda a, dtype=None: Tensor(np.asarray(un(a))), constant=lambda a, dtype=None: Tensor(np.asarray(un(a))), cast=lambda a, dtype=None: Tensor(np.asarray(un(a)).astype(int) if dtype is not None and dtype.kind == "i" else np.asarray(un(a))),
        reduce_sum=red(np.sum), multiply=el(np.multiply), matmul=el(np.matmul), searchsorted=ss, unique=unique, reshape=lambda a, s: W(np.reshape(un(a), s)), argsort=lambda a, **k: Tensor(numpy.asarray(np.argsort(un(a)))), gather=lambda a, ix, **k: W(np.take(un(a), un(ix), axis=0)),
        identity=lambda a: Tensor(a.x.copy()), sqrt=el(np.sqrt), einsum=lambda s, *o: W(np.einsum(s, *[un(z) for z in o])), floor=el(np.floor), transpose=lambda a, perm=None: W(np.transpose(un(a), perm)), range=lambda n, dtype=None: Tensor(numpy.arange(n)), where=lambda c, *xy: W(np.where(un(c), *[un(z) for z in xy])),
        nest=module("tensorflow.nest", map_structure=lambda f, *z: _nest(f, *z)), exp=el(np.exp), abs=el(np.abs), shape=lambda a: a.shape,
    )
    tf.random = module("tensorflow.random", Generator=Gen, experimental=module("x", stateless_shuffle=shuffle))
    ex = module("tensorflow.experimental", numpy=tnp)
    tf.experimental = ex
    return {"tensorflow": tf, "tensorflow.experimental": ex, "tensorflow.experimental.numpy": tnp}, Tensor


def _nest(f, t, *r):
    if isinstance(t, (list, tuple)):
        return type(t)(_nest(f, *q) for q in zip(t, *r))
    return f(t, *r)


# ---------------------------------------------------------------- loading

@contextlib.contextmanager
def session(ctx, kind):
    """yields (module, backend, to tensor, to array)"""
    from . import env
    saved = {}
    old = {}
    mods = {}
    cls = None
    if ctx.sym and kind != "numpy":
        mods, cls = dict(torch=torch_model, jax=jax_model, tf=tf_model)[kind](ctx)
    for k, v in mods.items():
        saved[k] = sys.modules.get(k)
        sys.modules[k] = v
    try:
        key = None if mods else kind
        if key in _CACHE:
            mod = _CACHE[key]
        else:
            for q, n in KEYS.items():
                if n:
                    n = "POT_BACKEND_DISABLE_" + n
                    old[n] = os.environ.get(n)
                    if q == kind:
                        os.environ.pop(n, None)
                    else:
                        os.environ[n] = "1"
            if not ctx.sym:
                _real(kind)
            try:
                name = "ot._backend_%s" % kind
                spec = importlib.util.spec_from_file_location(name, os.path.join(env.REPO, "ot", "backend.py"))
                mod = importlib.util.module_from_spec(spec)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    spec.loader.exec_module(mod)
                if ctx.sym:
                    env.shim_one(mod)
            finally:
                for n, v in old.items():
                    if v is None:
                        os.environ.pop(n, None)
                    else:
                        os.environ[n] = v
            if key is not None:
                _CACHE[key] = mod
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nx = mod._get_backend_instance(dict(numpy=mod.NumpyBackend, torch=mod.TorchBackend, jax=mod.JaxBackend, tf=mod.TensorflowBackend)[kind])
        yield mod, nx, to(ctx, kind, cls), back(ctx, kind)
    finally:
        for k in mods:
            if saved[k] is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = saved[k]


def _real(kind):
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "jax":
            import jax
            jax.config.update("jax_enable_x64", True)
        elif kind == "tf":
            from tensorflow.python.ops.numpy_ops import np_config
            np_config.enable_numpy_behavior()


def to(ctx, kind, cls):
    def f(x):
        import numpy
        if isinstance(x, (list, tuple)) and (not x or not hasattr(x[0], "__len__")):
            x = numpy.array(x)
        if kind == "numpy":
            return x
        if ctx.sym:
            return cls(x)
        if kind == "torch":
            import torch
            return torch.tensor(numpy.array(x))
        if kind == "jax":
            import jax.numpy
            return jax.numpy.array(x)
        import tensorflow
        return tensorflow.constant(numpy.array(x))
    return f


def back(ctx, kind):
    def f(x):
        import numpy
        if isinstance(x, Ten):
            return x.x
        if isinstance(x, (tuple, list)):
            return [f(z) for z in x]
        if kind == "numpy" or ctx.sym:
            return x
        if kind == "torch" and hasattr(x, "detach"):
            return x.detach().numpy()
        return numpy.array(x)
    return f
