"""C37 spectral-Grassmann costs and metric between operators (complex eigenvalues and eigenvectors)."""
import numpy

from symx.worker import Case
from props.c29 import tot

QUICK_WALL = 15
BOUNDS = "1-3 spectral atoms per operator in dimension 2, symbolic real or imaginary parts, weights and trade-off; exponents 1, 2, 3 and every Grassmann metric"
STUBS = ["exact transport (decided by C01, C02) is recorded and returns an arbitrary value", "complex arrays are pairs of symbolic real arrays; the backend functions act on them by their definitions"]


class CA:
    """complex array of symbolic reals"""
    __array_ufunc__ = None

    def __init__(self, ctx, re, im=None):
        self.c, self.re, self.im = ctx, re, im

    def parts(self, o):
        if isinstance(o, CA):
            return o.re, o.im
        if isinstance(o, complex):
            return self.c.num(0) if not o.real else self.c.num(str(o.real)), self.c.num(1) if o.imag == 1 else self.c.num(str(o.imag))
        return o, None

    def __add__(self, o):
        r, i = self.parts(o)
        return CA(self.c, self.re + r, self.im if i is None else i if self.im is None else self.im + i)
    __radd__ = __add__

    def __neg__(self):
        return CA(self.c, -self.re, None if self.im is None else -self.im)

    def __sub__(self, o):
        r, i = self.parts(o)
        return self + CA(self.c, -r, None if i is None else -i)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        r, i = self.parts(o)
        a, b = self.re, self.im
        if b is None and i is None:
            return CA(self.c, a * r)
        z = a * 0
        b, i = z if b is None else b, 0 if i is None else i
        return CA(self.c, a * r - b * i, a * i + b * r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        r, i = self.parts(o)
        assert i is None
        return CA(self.c, self.re / r, None if self.im is None else self.im / r)

    def __pow__(self, e):
        if self.im is not None:
            assert e == 2
            return self * self
        return CA(self.c, self.re ** e)

    def __getitem__(self, k):
        return CA(self.c, self.re[k], None if self.im is None else self.im[k])

    def __lt__(self, o):
        return self.re < o

    def __gt__(self, o):
        return self.re > o

    T = property(lambda s: CA(s.c, s.re.T, None if s.im is None else s.im.T))
    shape = property(lambda s: s.re.shape)
    ndim = property(lambda s: s.re.ndim)


class NX:
    """the backend functions on complex arrays"""
    __name__ = "numpy"

    def __init__(self, ctx):
        self.c, self.np = ctx, ctx.np

    def w(self, x):
        return x if isinstance(x, CA) else CA(self.c, x)

    def real(self, x):
        return CA(self.c, self.w(x).re)

    def imag(self, x):
        x = self.w(x)
        return CA(self.c, x.re * 0 if x.im is None else x.im)

    def conj(self, x):
        return CA(self.c, x.re, None if x.im is None else -x.im)

    def abs(self, x):
        return CA(self.c, self.np.abs(x.re) if x.im is None else (x.re * x.re + x.im * x.im) ** 0.5)

    def norm(self, x, axis=None, keepdims=False):
        s = x.re * x.re if x.im is None else x.re * x.re + x.im * x.im
        return CA(self.c, self.np.sum(s, axis=axis, keepdims=keepdims) ** 0.5)

    def dot(self, x, y):
        if x.im is None and y.im is None:
            return CA(self.c, self.np.dot(x.re, y.re))
        a, b, c, d = x.re, x.re * 0 if x.im is None else x.im, y.re, y.re * 0 if y.im is None else y.im
        f = self.np.dot
        return CA(self.c, f(a, c) - f(b, d), f(a, d) + f(b, c))

    def maximum(self, x, e):
        return CA(self.c, self.np.maximum(self.w(x).re, e.re if isinstance(e, CA) else e))

    def minimum(self, x, e):
        return CA(self.c, self.np.minimum(self.w(x).re, e.re if isinstance(e, CA) else e))

    def clip(self, x, lo, hi):
        return CA(self.c, self.np.minimum(self.np.maximum(x.re, lo), hi))

    def any(self, x):
        return bool(self.np.any(x.re if isinstance(x, CA) else x))

    def min(self, x):
        return self.np.min(x.re)

    def max(self, x):
        return self.np.max(x.re)

    def arccos(self, x):
        return CA(self.c, self.np.arccos(x.re))

    def log(self, x):
        return CA(self.c, self.np.log(x.re))

    def sqrt(self, x):
        return CA(self.c, x.re ** 0.5)

    def ones(self, shape, type_as=None):
        return CA(self.c, self.c.pack(numpy.ones(shape)))

    def sum(self, x, axis=None, keepdims=False):
        x = self.w(x)
        return CA(self.c, self.np.sum(x.re, axis=axis, keepdims=keepdims), None if x.im is None else self.np.sum(x.im, axis=axis, keepdims=keepdims))


def carr(ctx, re, im):
    if ctx.sym:
        return CA(ctx, ctx.pack(re), None if im is None else ctx.pack(im))
    return numpy.array(re, dtype=float) if im is None else numpy.array(re, dtype=float) + 1j * numpy.array(im, dtype=float)


def out(ctx, x):
    """real array out of a result"""
    if isinstance(x, CA):
        return x.re
    return numpy.real(x)


def kw(ctx):
    return dict(nx=NX(ctx)) if ctx.sym else {}


EV = [[("1", "1/2"), ("-1/2", "1"), ("0", "-1")], [("1/4", "-1"), ("1", "2"), ("-1", "1/3")]]
#: columns of right and left eigenvectors, two complex entries each
VR = [[(("1", "0"), ("1/2", "1")), (("0", "1"), ("2", "-1")), (("1", "1"), ("-1", "0"))], [(("1/2", "1"), ("1", "0")), (("1", "-1"), ("0", "1/2")), (("2", "0"), ("1", "1"))]]
VL = [[(("0", "1/2"), ("1", "1")), (("1", "0"), ("1/3", "1")), (("1", "-2"), ("1", "0"))], [(("1", "0"), ("1", "1/4")), (("-1", "1"), ("1", "1")), (("0", "1"), ("1/2", "0"))]]


def eigenvalues(ctx, side, n, free, cplx=True):
    re, im = [ctx.num(EV[side][i][0]) for i in range(n)], [ctx.num(EV[side][i][1]) for i in range(n)]
    for f in free:
        if f[0] == "st"[side]:
            (re if f[1] == "r" else im)[0] = ctx.real(f, lo=-3, hi=3)
    return re, im if cplx else None


def vectors(ctx, tab, side, n, free, tag, cplx=True):
    re = [[ctx.num(tab[side][j][i][0]) for j in range(n)] for i in range(2)]
    im = [[ctx.num(tab[side][j][i][1]) for j in range(n)] for i in range(2)]
    for f in free:
        if f[0] == tag and f[1] == "st"[side]:
            (re if f[2] == "r" else im)[0][0] = ctx.real(f, lo="1/8", hi=3)
    return re, im if cplx else None


def spectral(ctx, n, m, free, q, scale, cplx=True):
    (a, b), (c, d) = eigenvalues(ctx, 0, n, free, cplx), eigenvalues(ctx, 1, m, free, cplx)
    sr, si = (ctx.num(1), ctx.num(1)) if scale is None else [ctx.num(x) for x in scale]
    z = ctx.num(0)
    o = []
    for i in range(n):
        for j in range(m):
            x = (a[i] - c[j]) * sr
            y = ((b[i] - d[j]) if cplx else z) * si
            s = x * x + y * y
            o.append(s if q == 2 else ctx.sqrt(s) if q == 1 else s * ctx.sqrt(s))
    return (a, b), (c, d), o


def eigen_cost(ctx, n, m, q, scale=None, kind="tuple", free=("sr",), cplx=True):
    S, T, want = spectral(ctx, n, m, free, q, scale, cplx)
    sc = None
    if scale is not None:
        v = [float(ctx.num(x)) if not ctx.sym else ctx.num(x) for x in scale]
        sc = tuple(v) if kind == "tuple" else ctx.pack(v)
    C = ctx.ot.sgot.eigenvalue_cost_matrix(carr(ctx, *S), carr(ctx, *T), q=q, eigen_scaling=sc, **kw(ctx))
    ctx.check("distance of the eigenvalues", ctx.eq(out(ctx, C).reshape(-1), ctx.pack(want)))


def inner(x, y):
    """<x, y> of complex vectors given as pairs of lists (conjugate on the first)"""
    re = tot(a * c + b * d for a, b, c, d in zip(x[0], x[1], y[0], y[1]))
    im = tot(a * d - b * c for a, b, c, d in zip(x[0], x[1], y[0], y[1]))
    return re, im


def col(V, j):
    re = [r[j] for r in V[0]]
    return re, [r[j] for r in V[1]] if V[1] is not None else [0 * x for x in re]


def squared_delta(ctx, Rs, Ls, Rt, Lt, n, m):
    """squares of the similarities"""
    o = []
    for i in range(n):
        for j in range(m):
            v = ctx.num(1)
            for A, B in ((Rs, Rt), (Ls, Lt)):
                x, y = col(A, i), col(B, j)
                r, s = inner(x, y)
                v = v * (r * r + s * s) / (tot(z * z for z in x[0] + x[1]) * tot(z * z for z in y[0] + y[1]))
            o.append(v)
    return o


def delta(ctx, n, m, free=(), cplx=True):
    Rs, Rt = [vectors(ctx, VR, s, k, free, "r", cplx) for s, k in ((0, n), (1, m))]
    Ls, Lt = [vectors(ctx, VL, s, k, free, "l", cplx) for s, k in ((0, n), (1, m))]
    D = ctx.ot.sgot._delta_matrix_1d(*[carr(ctx, *v) for v in (Rs, Ls, Rt, Lt)], **kw(ctx))
    d = out(ctx, D).reshape(-1)
    want = squared_delta(ctx, Rs, Ls, Rt, Lt, n, m)
    for k, w in enumerate(want):
        ctx.check("similarity", [ctx.eq(d[k], ctx.np.minimum(ctx.np.maximum(ctx.sqrt(w), 0.0), 1.0))])


def grass(ctx, d, metric, q, eps):
    """Grassmann distance to the power q of a similarity d"""
    if metric == "geodesic":
        a = ctx.np.arccos(d)
        s = a * a
    elif metric == "chordal":
        s = 1 - d * d
    elif metric == "procrustes":
        s = 2 * (1 - d)
    else:
        s = -ctx.log(ctx.np.maximum(d * d, eps))
    return s if q == 2 else ctx.sqrt(s) if q == 1 else s * ctx.sqrt(s)


def grassmann(ctx, metric, q, eps="1/1000"):
    d = [ctx.real("d", lo="1/100", hi="99/100"), ctx.num(1 if metric != "martin" else "1/2"), ctx.num("1/4"), ctx.num("1/64")]
    e = float(ctx.num(eps)) if not ctx.sym else ctx.num(eps)
    D = ctx.pack([d[:2], d[2:]])
    G = ctx.ot.sgot._grassmann_distance_squared(CA(ctx, D) if ctx.sym else D, grassmann_metric=metric, q=q, eps=e, **kw(ctx))
    ctx.check("distance of the subspaces", [ctx.eq(x, grass(ctx, z, metric, q, e)) for x, z in zip(out(ctx, G).reshape(-1), d)])
    bad = ctx.pack([[ctx.real("o", lo="101/100", hi=2)]])
    for b in (bad, -bad):
        try:
            ctx.ot.sgot._grassmann_distance_squared(CA(ctx, b) if ctx.sym else b, grassmann_metric=metric, **kw(ctx))
            ok = False
        except ValueError:
            ok = True
        ctx.check("similarities out of range refused", [ok])


def problem(ctx, n, m, free, cplx=True):
    S, T = eigenvalues(ctx, 0, n, free, cplx), eigenvalues(ctx, 1, m, free, cplx)
    Rs, Rt = [vectors(ctx, VR, s, k, free, "r", cplx) for s, k in ((0, n), (1, m))]
    Ls, Lt = [vectors(ctx, VL, s, k, free, "l", cplx) for s, k in ((0, n), (1, m))]
    return [carr(ctx, *v) for v in (S, Rs, Ls, T, Rt, Lt)], (Rs, Ls, Rt, Lt)


def cost(ctx, n, m, p, q, metric, eta="1/4", scale=None, free=("sr",), cplx=True, eps=None):
    """the cost combines both terms; Grassmann part of the module's similarities (decided by the delta cases)"""
    args, V = problem(ctx, n, m, free, cplx)
    S, T, lam = spectral(ctx, n, m, free, q, scale, cplx)
    G = ctx.ot.sgot
    e = ctx.real("eta", lo=0, hi=1) if eta == "sym" else ctx.num(eta)
    if not ctx.sym:
        e = float(e)
    ep = ctx.num(eps or "1/1000000000000")
    ep = ep if ctx.sym else float(ep)
    sc = None if scale is None else [ctx.num(x) if ctx.sym else float(ctx.num(x)) for x in scale]
    given = []
    dl = [[ctx.real("d", lo="1/100", hi="99/100") if i + j == 0 else ctx.num("%d/7" % (1 + (i + 3 * j) % 6)) for j in range(m)] for i in range(n)]

    def similarities(Rs, Ls, Rt, Lt, nx=None, **k):
        given.append([Rs is args[1], Ls is args[2], Rt is args[4], Lt is args[5]])
        return CA(ctx, ctx.pack(dl)) if ctx.sym else ctx.pack(dl)
    ctx.patch(G, "_delta_matrix_1d", similarities)
    C = G.sgot_cost_matrix(*args, eta=e, p=p, q=q, grassmann_metric=metric, eigen_scaling=sc, **kw(ctx), **({} if eps is None else dict(eps=ep)))
    ctx.check("similarities of the eigenvectors", [all(g) for g in given])
    if given:
        ds = [d for r in dl for d in r]
    else:
        ds = [ctx.np.minimum(ctx.np.maximum(ctx.sqrt(w), 0.0), 1.0) for w in squared_delta(ctx, *V, n, m)]
    want = []
    for l, d in zip(lam, ds):
        c = e * l + (1 - e) * grass(ctx, d, metric, q, ep)
        want.append(c if p == 2 else ctx.sqrt(c) if p == 1 else c * c)
    ctx.check("cost", ctx.eq(out(ctx, C).reshape(-1), ctx.pack(want)))


def metric(ctx, n, m, p, r, wts=None, free=()):
    """optimal cost of the ground cost for the normalised weights, with both roots"""
    args, V = problem(ctx, n, m, free)
    G = ctx.ot.sgot
    asked, calls = [], []
    Cm = ctx.pack([[ctx.real("c", lo=0, hi=4) if i + j == 0 else ctx.num("%d/3" % (i + 2 * j)) for j in range(m)] for i in range(n)])
    orig = G.sgot_cost_matrix

    def cm(*a, **k):
        from props.c29 import bind
        asked.append(bind(orig, a, k))
        return CA(ctx, Cm) if ctx.sym else Cm
    ctx.patch(G, "sgot_cost_matrix", cm)
    val = ctx.real("v", lo="1/10", hi=9)

    def emd2(a, b, M, *z, **k):
        calls.append((out(ctx, a), out(ctx, b), out(ctx, M)))
        return val
    ctx.patch(ctx.ot, "emd2", emd2)
    ctx.patch(ctx.ot.lp, "emd2", emd2)
    if hasattr(G, "emd2"):
        ctx.patch(G, "emd2", emd2)
    a, b = [ctx.num(1) / n] * n, [ctx.num(1) / m] * m
    w = {}
    if wts and "s" in wts:
        a = [ctx.real("a", lo="1/10", hi=3)] + [ctx.num("%d/2" % (i + 1)) for i in range(1, n)]
        w["Ws"] = CA(ctx, ctx.pack(a)) if ctx.sym else ctx.pack(a)
    if wts and "t" in wts:
        b = [ctx.num("%d/3" % (j + 2)) for j in range(m)]
        w["Wt"] = CA(ctx, ctx.pack(b)) if ctx.sym else ctx.pack(b)
    v = G.sgot_metric(*args, eta=0.375, p=p, q=3, r=r, grassmann_metric="procrustes", eigen_scaling=(2.0, 0.5), eps=0.125, **w, **kw(ctx))
    ctx.check("one transport problem", [len(calls) == 1, len(asked) == 1])
    c, k = calls[0], asked[0]
    ctx.check("weights and cost", [ctx.eq(c[0][i] * tot(a), a[i]) for i in range(n)] + [ctx.eq(c[1][j] * tot(b), b[j]) for j in range(m)] + [ctx.eq(c[2], Cm)])
    ctx.check("operators and options", [k["Ds"] is args[0], k["Rs"] is args[1], k["Ls"] is args[2], k["Dt"] is args[3], k["Rt"] is args[4], k["Lt"] is args[5], k["eta"] == 0.375, k["p"] == p, k["q"] == 3, k["grassmann_metric"] == "procrustes", tuple(k["eigen_scaling"]) == (2.0, 0.5), k["eps"] == 0.125])
    e = p * r
    lhs = v
    for _ in range(e - 1):
        lhs = lhs * v
    ctx.check("roots", [ctx.eq(lhs, val), ctx.le(0, v)])


def refuse(ctx):
    G = ctx.ot.sgot
    args, _ = problem(ctx, 2, 2, ("sr",))
    big, _ = problem(ctx, 3, 3, ())
    bad = [[args[0][:, None]] + args[1:], args[:3] + [args[3][:, None]] + args[4:], [args[0], big[1]] + args[2:], args[:4] + [big[4], args[5]], [args[0], big[1], big[2]] + args[3:], args[:4] + big[4:]]
    for f in (G.sgot_cost_matrix, G.sgot_metric):
        for z in bad:
            try:
                f(*z, **kw(ctx))
                ok = False
            except ValueError:
                ok = True
            ctx.check("mismatched shapes refused", [ok])
    try:
        G.sgot_cost_matrix(*args, grassmann_metric="other", **kw(ctx))
        ok = False
    except ValueError:
        ok = True
    ctx.check("unknown metric refused", [ok])


CASES = []
for n, m, q, sc, kd, fr, cp in ((2, 2, 2, None, "", ("sr", "ti"), True), (2, 3, 1, None, "", ("si",), True), (1, 2, 3, ("2", "1/2"), "tuple", ("sr",), True), (3, 2, 2, ("1/4", "3"), "array", ("tr", "si"), True), (2, 2, 2, ("2", "3"), "tuple", ("sr",), False), (2, 1, 1, None, "", ("tr",), False)):
    CASES.append(Case("eig_%d%d_%d%s%s" % (n, m, q, kd[:1], "" if cp else "r"), eigen_cost, n=n, m=m, q=q, scale=sc, kind=kd, free=fr, cplx=cp))
for n, m, fr, cp in ((1, 1, ("rsr",), True), (1, 1, ("lti",), True), (2, 2, (), True), (2, 1, ("rsi",), True), (1, 2, ("ltr",), True), (2, 3, (), True), (2, 2, ("rsr",), False)):
    CASES.append(Case("delta_%d%d%s%s" % (n, m, "".join(fr), "" if cp else "_r"), delta, opt_lazymax=True, n=n, m=m, free=fr, cplx=cp))
for me in ("geodesic", "chordal", "procrustes", "martin"):
    for q in (1, 2, 3):
        CASES.append(Case("gr_%s_%d" % (me, q), grassmann, opt_lazymax=True, metric=me, q=q))
for n, m, p, q, me, eta, sc, fr, cp, ep in ((2, 2, 2, 2, "chordal", "sym", None, ("sr",), True, None), (1, 2, 1, 1, "procrustes", "1/4", None, ("sr",), True, None), (2, 1, 4, 2, "geodesic", "sym", ("2", "1/2"), (), True, None), (2, 2, 2, 2, "martin", "1/2", None, ("ti",), True, "1/8"), (2, 2, 2, 1, "chordal", "3/4", None, (), False, None), (2, 3, 2, 3, "procrustes", "sym", None, (), True, None)):
    CASES.append(Case("cost_%d%d_%d%d_%s" % (n, m, p, q, me), cost, opt_lazymax=True, n=n, m=m, p=p, q=q, metric=me, eta=eta, scale=sc, free=fr, cplx=cp, eps=ep))
for n, m, p, r, w in ((2, 2, 2, 2, None), (2, 3, 1, 2, "st"), (3, 2, 2, 1, "s"), (1, 2, 3, 1, "t"), (2, 2, 1, 1, "st")):
    CASES.append(Case("metric_%d%d_%d%d" % (n, m, p, r), metric, n=n, m=m, p=p, r=r, wts=w))
CASES.append(Case("refused", refuse))
