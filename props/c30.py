"""C30 mapping estimation: joint coupling/map estimation, MappingTransport, nearest Brenier potential problems."""
import sys
import types

import numpy

from symx.worker import Case
from props.c29 import bind, record, coupling, pts, tot, sq, bary, PTS, QTS

BOUNDS = "2-3 source and 2-3 target points in dimension 1-2; 0-3 alternations; arbitrary couplings returned by the inner solvers; the quadratic programs compared at every value of their variables"
STUBS = ["emd and cg are decided by C01 and C15: here they are recorded with their arguments and return arbitrary couplings",
         "cvxpy is replaced by a stand-in which evaluates the posed problem at arbitrary values of its variables (both modes)"]


def mul(A, B):
    return [[tot(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def rows(X):
    return [[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])]


def sub(A, B):
    return [[x - y for x, y in zip(p, q)] for p, q in zip(A, B)]


def fro(A):
    return tot(x * x for r in A for x in r)


def scal(s, A):
    return [[s * x for x in r] for r in A]


def joint(ctx, n, m, d, its, bias=False, kern=None, log=True, freeG=("g00",), fx=("00",), stop=None, fy=()):
    """block coordinate descent: exact map for the current coupling, the right
    problem for the coupling, the value of the objective at each alternation"""
    mp = ctx.ot.mapping
    Xs, Xt = pts(ctx, PTS, n, d, fx), pts(ctx, QTS, m, d, fy, "y")
    mu, eta = ctx.real("mu", lo="1/4", hi=4) if its < 2 else ctx.num("3/4"), ctx.num("1/2")
    if kern and ctx.sym:
        # distinct points: the kernel is below one (exp is increasing)
        for i in range(n):
            for j in range(i):
                q = sq([Xs[i, c] for c in range(d)], [Xs[j, c] for c in range(d)])
                k = ctx.exp(-q / (2 * ctx.num("3/2") * ctx.num("3/2")))
                ctx.assume([ctx.lt(0, q), ctx.lt(k, 1)])
    s1, s2 = ctx.snapshot(Xs), ctx.snapshot(Xt)
    G = [coupling(ctx, n, m, freeG)]
    B2 = [["1/5", "1/10", "1/3"], ["1/20", "2/5", "1/6"], ["1/9", "1/4", "1/8"]]
    for k in range(its):
        t = ctx.num(k + 1) / (k + 2)
        G.append(ctx.pack([[ctx.num(B2[i][j]) * t for j in range(m)] for i in range(n)]))
    calls = []
    record(ctx, mp, "emd", lambda z: ctx.snapshot(G[0]), calls)
    probes = []
    P = ctx.arr([["1/3", "1/7", "1/11"][:m], ["1/5", "2/9", "1/13"][:m], ["1/6", "1/4", "1/17"][:m]][:n])

    def inner(z):
        k = len(probes)
        probes.append((z["f"](P), z["df"](P)))
        return ctx.snapshot(G[k + 1])

    record(ctx, mp, "cg", inner, calls)
    kw = dict(mu=mu, eta=eta, bias=bias, numItermax=its, numInnerItermax=17, stopInnerThr=0.004, stopThr=-1 if stop is None else ctx.num(stop) if ctx.sym else float(ctx.num(stop)), log=log)
    X, Y = rows(Xs), rows(Xt)
    if kern is None:
        out = mp.joint_OT_mapping_linear(Xs, Xt, **kw)
        A = [r + [ctx.num(1)] for r in X] if bias else X
    else:
        sg = ctx.num("3/2")
        out = mp.joint_OT_mapping_kernel(Xs, Xt, kerneltype=kern, sigma=sg if ctx.sym else float(sg), **kw)
        if kern == "gaussian":
            K = [[ctx.exp(-sq(p, q) / (2 * sg * sg)) if i != j else ctx.num(1) for j, q in enumerate(X)] for i, p in enumerate(X)]
        else:
            K = mul(X, tr(X))
        A = [r + [ctx.num(1)] for r in K] if bias else K
    C = [[sq(p, q) * n for q in Y] for p in X]
    Gr, L = out[0], out[1]
    done = len(probes)
    ctx.check("start", [calls[0][0] == "emd", ctx.eq(calls[0][1]["a"], ctx.pack([ctx.num(1) / n] * n)), ctx.eq(calls[0][1]["b"], ctx.pack([ctx.num(1) / m] * m)), ctx.eq(calls[0][1]["M"], ctx.pack(C))])
    ctx.check("coupling of the last alternation", ctx.eq(Gr, G[done]))

    def target(g):
        return scal(n, mul(rows(g), Y))

    def normal(g, L):
        """the gradient in the map of the objective"""
        T = target(g)
        R = sub(mul(A, L), T)
        if kern is None:
            D = [[L[i][j] - (1 if i == j else 0) for j in range(d)] for i in range(len(L))]
            if bias:
                D[-1] = [0 * x for x in D[-1]]
            return [[x + eta * y for x, y in zip(p, q)] for p, q in zip(mul(tr(A), R), D)]
        S = mul(K, L[:n])
        if bias:
            S = S + [L[n]]
        return [[x + eta * y for x, y in zip(p, q)] for p, q in zip(mul(tr(A), R), S)]

    def value(g, L):
        R = fro(sub(mul(A, L), target(g)))
        lin = tot(g[i, j] * C[i][j] for i in range(n) for j in range(m))
        if kern is None:
            pen = tot((L[i][j] - (1 if i == j else 0)) * (L[i][j] - (1 if i == j else 0)) for i in range(d) for j in range(d))
        else:
            S = mul(K, L[:n])
            pen = tot(L[i][j] * S[i][j] for i in range(n) for j in range(d)) + (tot(x * x for x in L[n]) if bias else 0)
        return R + mu * lin + eta * pen

    Z = normal(G[done], rows(L))
    ctx.check("the map is optimal for the coupling", ctx.eq(ctx.pack(Z), ctx.pack([[ctx.num(0)] * d for _ in Z])))
    Ls = []
    if log:
        vl = out[2]["loss"]
        ctx.check("one value per alternation", [len(vl) == done + 1])
        ctx.check("last value", ctx.eq(vl[-1], value(G[done], rows(L))))
    for k in range(done):
        nm, z = calls[k + 1]
        ctx.check("inner problem", [nm == "cg", ctx.eq(z["a"], ctx.pack([ctx.num(1) / n] * n)), ctx.eq(z["b"], ctx.pack([ctx.num(1) / m] * m)), ctx.eq(z["M"], ctx.pack(C)), ctx.eq(z["reg"] * mu, 1), ctx.eq(z["G0"], G[k]), z["numItermax"] == 17, z["stopThr"] == 0.004])
    # maps of the earlier alternations, recovered by shorter runs
    for k in range(done):
        del probes[:]
        del calls[:]
        o = (mp.joint_OT_mapping_linear(Xs, Xt, **dict(kw, numItermax=k, log=False)) if kern is None else mp.joint_OT_mapping_kernel(Xs, Xt, kerneltype=kern, sigma=sg if ctx.sym else float(sg), **dict(kw, numItermax=k, log=False)))
        Lk = rows(o[1])
        if log:
            ctx.check("value of an alternation", ctx.eq(vl[k], value(G[k], Lk)))
        del probes[:]
        del calls[:]
        (mp.joint_OT_mapping_linear(Xs, Xt, **dict(kw, numItermax=k + 1, log=False)) if kern is None else mp.joint_OT_mapping_kernel(Xs, Xt, kerneltype=kern, sigma=sg if ctx.sym else float(sg), **dict(kw, numItermax=k + 1, log=False)))
        f, df = probes[k]
        R = sub(mul(A, Lk), scal(n, mul(rows(P), Y)))
        ctx.check("function of the coupling", ctx.eq(f, fro(R)))
        ctx.check("gradient of the function", ctx.eq(df, ctx.pack(scal(-2 * n, mul(R, tr(Y))))))
    if stop is not None and log:
        th = ctx.num(stop)
        small = [abs(vl[k + 1] - vl[k]) - th * abs(vl[k]) for k in range(done)]
        ctx.check("stops when the relative change is small", [small[k] >= 0 for k in range(done - 1)] + ([small[-1] < 0] if done < its else []))
    ctx.check("inputs kept", [ctx.eq(Xs, s1), ctx.eq(Xt, s2)])


def mt_fit(ctx, kern, log, bias):
    da = ctx.ot.da
    n, m, d = 2, 3, 2
    calls = []
    G, L = coupling(ctx, n, m), ctx.arr([["1", "2"], ["3", "4"]])
    for f in ("joint_OT_mapping_linear", "joint_OT_mapping_kernel"):
        record(ctx, da, f, lambda z: (G, L, {"loss": [1]}) if z["log"] else (G, L), calls)
    e = da.MappingTransport(mu=0.3, eta=0.2, bias=bias, kernel=kern, sigma=1.7, max_iter=12, tol=1e-3, max_inner_iter=9, inner_tol=1e-2, log=log)
    Xs, Xt = pts(ctx, PTS, n, free=["00"]), pts(ctx, QTS, m, free=["10"], pref="y")
    r = e.fit(Xs=Xs, Xt=Xt)
    ctx.check("one call of the solver", [len(calls) == 1, calls[0][0] == "joint_OT_mapping_" + {"linear": "linear", "gaussian": "kernel"}[kern], r is e])
    z = calls[0][1]
    want = dict(mu=0.3, eta=0.2, bias=bias, numItermax=12, stopThr=1e-3, numInnerItermax=9, stopInnerThr=1e-2, log=log)
    if kern == "gaussian":
        want.update(sigma=1.7, kerneltype="gaussian")
    for k, v in want.items():
        ctx.check("option %s" % k, [z[k] == v])
    ctx.check("samples", [ctx.eq(z["xs"], Xs), ctx.eq(z["xt"], Xt), ctx.eq(e.xs_, Xs), ctx.eq(e.xt_, Xt)])
    ctx.check("results", [ctx.eq(e.coupling_, G), ctx.eq(e.mapping_, L), e.log_ == ({"loss": [1]} if log else {})])


def mt_map(ctx, kern, bias, k, n=2, m=2, zero=None):
    """the coupling for the training samples, the map for new ones"""
    da = ctx.ot.da
    e = da.MappingTransport(kernel=kern, bias=bias, sigma=1.5)
    d = 2
    Xs, Xt = pts(ctx, PTS, n), pts(ctx, QTS, m)
    e._get_backend(Xs, None, Xt, None)
    e.xs_, e.xt_ = Xs, Xt
    G = e.coupling_ = coupling(ctx, n, m, zero=zero)
    h = (d if kern == "linear" else n) + bias
    Lv = [["1", "-2"], ["1/3", "5/2"], ["-3/4", "1/6"]]
    L = [[ctx.num(x) for x in r] for r in Lv[:h]]
    L[0][1] = ctx.real("l01", lo=-3, hi=3)
    L[h - 1][0] = ctx.real("l0", lo=-3, hi=3)
    e.mapping_ = ctx.pack(L)
    ctx.check("training samples", ctx.eq(e.transform(Xs=Xs), bary(ctx, G, Xt, 1)))
    N = pts(ctx, [["1/3", "-2"], ["-3/2", "1/5"], ["0", "1"]], k, free=["00"], pref="z")
    if kern == "linear":
        K = rows(N)
    else:
        s2 = 2 * ctx.num("3/2") * ctx.num("3/2")
        K = [[ctx.exp(-sq(p, q) / s2) for q in rows(Xs)] for p in rows(N)]
    if bias:
        K = [r + [ctx.num(1)] for r in K]
    ctx.check("new samples", ctx.eq(e.transform(Xs=N), ctx.pack(mul(K, L))))
    if k == n:
        ctx.check("one new sample among the old ones", ctx.eq(e.transform(Xs=ctx.pack(rows(N)[:1] + rows(Xs)[1:])), ctx.pack(mul(K[:1] + ([r + [ctx.num(1)] * bias for r in rows(Xs)[1:]] if kern == "linear" else [[ctx.exp(-sq(p, q) / s2) if p is not q else ctx.num(1) for q in XR] + [ctx.num(1)] * bias for XR in [rows(Xs)] for p in XR[1:]]), L))))


# ---------------------------------------------------------------- nearest Brenier potentials

class E:
    """an expression of the stand-in: its value at the chosen point"""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return E(self.v[k])

    @property
    def T(self):
        return E(self.v.T)

    def _o(self, o):
        return o.v if isinstance(o, E) else o

    def __add__(self, o):
        return E(self.v + self._o(o))

    def __radd__(self, o):
        return E(self._o(o) + self.v)

    def __sub__(self, o):
        return E(self.v - self._o(o))

    def __rsub__(self, o):
        return E(self._o(o) - self.v)

    def __mul__(self, o):
        return E(self.v * self._o(o))

    def __rmul__(self, o):
        return E(self._o(o) * self.v)

    def __truediv__(self, o):
        return E(self.v / self._o(o))

    def __neg__(self):
        return E(-self.v)

    def __matmul__(self, o):
        return E((self.v * self._o(o)).sum() if self.v.ndim == 1 else self.v @ self._o(o))

    def __rmatmul__(self, o):
        o = self._o(o)
        return E((o * self.v).sum() if self.v.ndim == 1 and o.ndim == 1 else o @ self.v)

    def __ge__(self, o):
        return ("ge", self.v - self._o(o))

    def __le__(self, o):
        return ("ge", self._o(o) - self.v)

    def __eq__(self, o):
        return ("eq", self.v - self._o(o))

    __hash__ = None


def standin(values, problems):
    """values: iterator of arrays given to the variables in order of creation"""
    cv = types.ModuleType("cvxpy")

    class Variable(E):
        def __init__(self, shape):
            super().__init__(next(values))
            want = (shape,) if isinstance(shape, int) else tuple(shape)
            assert tuple(self.v.shape) == want, (self.v.shape, want)

        @property
        def value(self):
            return self.v

    def agg(f):
        return lambda x, *a: E(f(x.v if isinstance(x, E) else x))
    cv.Variable = Variable
    cv.sum_squares = agg(lambda x: (x * x).sum())
    cv.sum = agg(lambda x: x.sum())
    cv.square = agg(lambda x: x * x)

    class Problem:
        def __init__(self, objective, constraints):
            self.objective, self.constraints = objective, constraints
            self.solver_stats = types.SimpleNamespace(solve_time=1, setup_time=2, num_iters=3)
            self.status, self.value = "optimal", 4

        def solve(self, solver=None, **k):
            problems.append((self.objective, list(self.constraints), solver))
            return 4
    cv.Problem = Problem
    cv.Minimize = lambda e: ("min", e.v)
    cv.Maximize = lambda e: ("max", e.v)
    return cv


def consts(ctx, l, L):
    c = 1 / (2 * (1 - l / L))
    return c / L, l * c, 2 * l * c / L


def gap(pi, pj, gi, gj, xi, xj, cs):
    """phi_i - phi_j - <g_j, x_i - x_j> - the quadratic bound"""
    c1, c2, c3 = cs
    dx = [a - b for a, b in zip(xi, xj)]
    dg = [a - b for a, b in zip(gi, gj)]
    return pi - pj - tot(a * b for a, b in zip(gj, dx)) - c1 * tot(a * a for a in dg) - c2 * tot(a * a for a in dx) + c3 * tot(a * b for a, b in zip(dg, dx))


def one(x):
    while hasattr(x, "shape") and x.shape:
        x = x[0]
    return x


def use(ctx, cv):
    m = sys.modules
    old = m.get("cvxpy")
    box = types.SimpleNamespace(**{"cvxpy": old})
    m["cvxpy"] = cv
    return old


def ssnb_fit(ctx, n, d, classes=None, its=1, init="barycentric", weights=False, log=False):
    mp = ctx.ot.mapping
    X = pts(ctx, PTS, n, d, ["00"])
    V = pts(ctx, QTS, n, d, ["00"], "v")
    l, Lc = ctx.num("3/5"), ctx.num("7/5")
    a = ctx.arr(["1/4", "3/8", "3/8"] if n == 3 else ["1/3", "2/3"]) if weights else None
    b = ctx.arr(["1/2", "1/8", "3/8"] if n == 3 else ["1/5", "4/5"]) if weights else None
    ua = a if a is not None else ctx.pack([ctx.num(1) / n] * n)
    ub = b if b is not None else ctx.pack([ctx.num(1) / n] * n)
    calls, problems, vals = [], [], []
    plans = [coupling(ctx, n, n, ("g01",)), coupling(ctx, n, n, ()), ctx.arr([["1/3", "1/9", "0"][:n], ["1/7", "2/5", "0"][:n], ["0", "0", "1/2"][:n]][:n])]
    record(ctx, mp, "emd", lambda z: plans[len(calls) - 1], calls)
    for k in range(its):
        ph = ctx.pack([ctx.real("p%d" % k, lo=-2, hi=2)] + [ctx.num(x) for x in ["1/3", "-2/5"]][:n - 1])
        g = pts(ctx, [["1", "2"], ["-1", "1/2"], ["1/4", "3"]], n, d, ["00", "%d%d" % (n - 1, d - 1)] if k == 0 else [], "G")
        vals += [ph, g]
    cl = None if classes is None else numpy.array(classes)
    kw = dict(X_classes=cl, a=a, b=b, strongly_convex_constant=l if ctx.sym else float(l), gradient_lipschitz_constant=Lc if ctx.sym else float(Lc), its=its, log=log, init_method=init, solver="MINE")
    old = sys.modules.get("cvxpy")
    sys.modules["cvxpy"] = standin(iter(vals), problems)
    try:
        out = mp.nearest_brenier_potential_fit(X, V, **kw)
    finally:
        if old is None:
            del sys.modules["cvxpy"]
        else:
            sys.modules["cvxpy"] = old
    XR, VR = rows(X), rows(V)
    off = 0
    prev = VR
    if init == "barycentric":
        z = calls[0][1]
        ctx.check("initial coupling", [ctx.eq(z["a"], ua), ctx.eq(z["b"], ub), ctx.eq(z["M"], ctx.pack([[sq(p, q) for q in VR] for p in XR]))])
        pl = rows(plans[0])
        prev = [[x / ua[i] for x in r] for i, r in enumerate(mul(pl, VR))]
        off = 1
    ctx.check("number of problems", [len(problems) == its, len(calls) == its + off])
    cs = consts(ctx, l, Lc)
    for k in range(its):
        z = calls[k + off][1]
        ctx.check("coupling of the images", [ctx.eq(z["a"], ua), ctx.eq(z["b"], ub), ctx.eq(z["M"], ctx.pack([[sq(p, q) for q in VR] for p in prev]))])
        ph, g = vals[2 * k], rows(vals[2 * k + 1])
        obj, cons, sol = problems[k]
        pl = plans[k + off]
        ctx.check("objective", [obj[0] == "min", ctx.eq(one(obj[1]), tot(pl[i, j] * sq(g[i], VR[j]) for i in range(n) for j in range(n))), sol == "MINE"])
        c = classes or [0] * n
        want = [gap(ph[i], ph[j], g[i], g[j], XR[i], XR[j], cs) for i in range(n) for j in range(n) if c[i] == c[j]]
        for w in want:
            ctx.check("every interpolation constraint", ctx.any([ctx.eq(one(r[1]), w) for r in cons]))
        for r in cons:
            ctx.check("no other constraint", [r[0] == "ge", ctx.any([ctx.eq(one(r[1]), w) for w in want])])
        prev = g
    ctx.check("potential and gradients of the last problem", [ctx.eq(out[0], vals[-2]), ctx.eq(out[1], vals[-1])])
    if log:
        lg = out[2]
        ctx.check("log", [len(lg["its"]) == its, len(lg["G_list"]) == its] + [ctx.eq(lg["phi_list"][k], vals[2 * k]) for k in range(its)] + [ctx.eq(lg["G_list"][k], vals[2 * k + 1]) for k in range(its)] + [x["num_iters"] == 3 and x["status"] == "optimal" and x["solve_time"] == 1 and x["setup_time"] == 2 and x["value"] == 4 for x in lg["its"]])


def ssnb_bounds(ctx, n, m, d, classes=None, yclasses=None, log=False):
    mp = ctx.ot.mapping
    X = pts(ctx, PTS, n, d, ["00"])
    Y = pts(ctx, QTS, m, d, ["00"], "y")
    phi = ctx.pack([ctx.real("phi0", lo=-2, hi=2)] + [ctx.num(x) for x in ["1/3", "-2/5"]][:n - 1])
    G = pts(ctx, [["1", "2"], ["-1", "1/2"], ["1/4", "3"]], n, d, ["00"], "G")
    l, Lc = ctx.num("3/5"), ctx.num("7/5")
    vals, problems = [], []
    for k in range(2 * m):
        vals.append(ctx.pack([ctx.real("p%d" % k, lo=-2, hi=2)]))
        vals.append(ctx.pack([ctx.real("q%d" % k, lo=-2, hi=2)] + [ctx.num("2/7")] * (d - 1)))
    old = sys.modules.get("cvxpy")
    sys.modules["cvxpy"] = standin(iter(vals), problems)
    kw = dict(X_classes=None if classes is None else numpy.array(classes), Y_classes=None if yclasses is None else numpy.array(yclasses))
    try:
        out = mp.nearest_brenier_potential_predict_bounds(X, phi, G, Y, strongly_convex_constant=l if ctx.sym else float(l), gradient_lipschitz_constant=Lc if ctx.sym else float(Lc), log=log, solver="MINE", **kw)
    finally:
        if old is None:
            del sys.modules["cvxpy"]
        else:
            sys.modules["cvxpy"] = old
    ctx.check("two problems per point", [len(problems) == 2 * m])
    cs = consts(ctx, l, Lc)
    XR, YR, GR = rows(X), rows(Y), rows(G)
    for y in range(m):
        for s in range(2):
            k = 2 * y + s
            obj, cons, sol = problems[k]
            p, g = vals[2 * k][0], [vals[2 * k + 1][t] for t in range(d)]
            ctx.check("objective", [obj[0] == ("min", "max")[s], ctx.eq(one(obj[1]), p), sol == "MINE"])
            I = [i for i in range(n) if (classes or [0] * n)[i] == (yclasses or [0] * m)[y]]
            want = [gap(p, phi[j], g, GR[j], YR[y], XR[j], cs) if s == 0 else gap(phi[j], p, GR[j], g, XR[j], YR[y], cs) for j in I]
            ctx.check("number of constraints", [len(cons) == len(want)])
            for w in want:
                ctx.check("every interpolation constraint", ctx.any([ctx.eq(one(r[1]), w) for r in cons]))
            for r in cons:
                ctx.check("no other constraint", [r[0] == "ge", ctx.any([ctx.eq(one(r[1]), w) for w in want])])
            ctx.check("bounds", [ctx.eq(out[0][s, y], p), ctx.eq(out[1][s, y], ctx.pack(g))])
    if log:
        ctx.check("log", [sorted(out[2]) == list(range(m))] + [sorted(out[2][y]) == ["l", "u"] for y in range(m)])


def nbp(ctx, log, ys):
    da = ctx.ot.da
    calls = []
    phi, G = ctx.arr(["1", "2"]), ctx.arr([["1", "2"], ["3", "4"]])
    plu, Glu = ctx.arr([["1"], ["2"]]), ctx.arr([[["1", "2"]], [["3", "5"]]])
    record(ctx, da, "nearest_brenier_potential_fit", lambda z: (phi, G, "flog") if z["log"] else (phi, G), calls)
    record(ctx, da, "nearest_brenier_potential_predict_bounds", lambda z: (plu, Glu, "plog") if z["log"] else (plu, Glu), calls)
    e = da.NearestBrenierPotential(strongly_convex_constant=0.5, gradient_lipschitz_constant=1.3, its=7, log=log)
    Xs, Xt = pts(ctx, PTS, 2, free=["00"]), pts(ctx, QTS, 2, free=["01"], pref="y")
    N = pts(ctx, [["1/3", "-2"]], 1, free=["00"], pref="z")
    Ys, Yn = (numpy.array([0, 1]), numpy.array([1])) if ys else (None, None)
    r = e.fit(Xs=Xs, ys=Ys, Xt=Xt)
    ctx.check("potential kept", [r is e, ctx.eq(e.phi, phi), ctx.eq(e.G, G)])
    out = e.transform(Xs=N, ys=Yn)
    ctx.check("calls", [len(calls) == 2, calls[0][0].endswith("fit"), calls[1][0].endswith("bounds")])
    f, p = calls[0][1], calls[1][1]
    ctx.check("samples of the fit", [ctx.eq(f["X"], Xs), ctx.eq(f["V"], Xt), f["X_classes"] is Ys, f["its"] == 7, f["log"] == log])
    for z in (f, p):
        ctx.check("constants", [z["strongly_convex_constant"] == 0.5, z["gradient_lipschitz_constant"] == 1.3])
    ctx.check("data of the prediction", [ctx.eq(p["X"], Xs), ctx.eq(p["phi"], phi), ctx.eq(p["G"], G), ctx.eq(p["Y"], N), p["X_classes"] is Ys, p["Y_classes"] is Yn])
    ctx.check("bounds of the gradients", ctx.eq(out, Glu))
    if log:
        ctx.check("logs", [e.fit_log == "flog", e.predict_log == "plog"])


CASES = []
for bias in (False, True):
    s = "_bias" * bias
    CASES += [Case("lin_221_0" + s, joint, n=2, m=2, d=1, its=0, bias=bias), Case("lin_222_1" + s, joint, n=2 + bias, m=2, d=2, its=1, bias=bias),
              Case("lin_232_2" + s, joint, n=3, m=3 - bias, d=2, its=2, bias=bias, freeG=()), Case("lin_nolog" + s, joint, n=3, m=2, d=1, its=1, bias=bias, log=False)]
    for k in ("gaussian",):
        CASES += [Case("ker_%s_0%s" % (k, s), joint, n=2, m=2, d=2, its=0, bias=bias, kern=k), Case("ker_%s_1%s" % (k, s), joint, n=2, m=3, d=2, its=1, bias=bias, kern=k, freeG=("g00",), fx=(), fy=("10",) if not bias else ()),
                  Case("ker_%s_2%s" % (k, s), joint, n=2, m=2, d=1, its=2, bias=bias, kern=k, freeG=(), fx=(), fy=("00",))]
    CASES.append(Case("ker_33" + s, joint, n=3, m=2, d=1, its=1, bias=bias, kern="gaussian", freeG=(), fx=(), fy=("00",), tier="thorough"))
    CASES.append(Case("lin_stop" + s, joint, n=3, m=2, d=1, its=3, bias=bias, freeG=(), fx=(), stop="1/10"))
    for k in ("linear", "gaussian"):
        for log in (False, True):
            CASES.append(Case("fit_%s%s%s" % (k, s, "_log" * log), mt_fit, kern=k, log=log, bias=bias))
        CASES += [Case("map_%s_1%s" % (k, s), mt_map, kern=k, bias=bias, k=1), Case("map_%s_2%s" % (k, s), mt_map, kern=k, bias=bias, k=2), Case("map_%s_3%s" % (k, s), mt_map, kern=k, bias=bias, k=3, zero=(1, 0))]
for w in (False, True):
    s = "_w" * w
    CASES += [Case("ssnb_21" + s, ssnb_fit, n=2, d=1, weights=w), Case("ssnb_22_t" + s, ssnb_fit, n=2, d=2, init="target", weights=w, log=True), Case("ssnb_21_2" + s, ssnb_fit, n=2, d=1, its=2, weights=w, log=True), Case("ssnb_32_c" + s, ssnb_fit, n=3, d=2, classes=[0, 1, 0], weights=w)]
CASES += [Case("ssnb_32", ssnb_fit, n=3, d=2), Case("ssnb_32_c2", ssnb_fit, n=3, d=1, classes=[2, 1, 2], its=2, init="target")]
CASES += [Case("bnd_211", ssnb_bounds, n=2, m=1, d=1), Case("bnd_222", ssnb_bounds, n=2, m=2, d=2, log=True), Case("bnd_321_c", ssnb_bounds, n=3, m=2, d=1, classes=[0, 1, 0], yclasses=[0, 1]), Case("bnd_322_c", ssnb_bounds, n=3, m=2, d=2, classes=[3, 1, 3], yclasses=[3, 3], log=True)]
for c in CASES:
    if c.fn is joint and c.params["its"]:
        c.opts["lazymax"] = True
for log in (False, True):
    for ys in (False, True):
        CASES.append(Case("nbp%s%s" % ("_log" * log, "_ys" * ys), nbp, log=log, ys=ys))
