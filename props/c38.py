"""C38 factored transport, the geomloss bridge and the synthetic data generators follow their definitions."""
from symx.worker import Case
from props.c29 import bind, pts, tot, sq, PTS, QTS

QUICK_WALL = 15
BOUNDS = "2-3 points per side in dimension 1-2, ranks 1-3, one to three iterations, symbolic coordinates, plans, weights, regularisation, noise or angles; 3-9 generated samples"
STUBS = ["the exact and entropic solvers (decided by C01 and C07) are recorded with their arguments and return arbitrary couplings", "geomloss is replaced by its contract: entropic transport for the cost |x-y|^p/p at temperature blur^p, with arbitrary value and potentials", "random draws are prescribed"]


def marg(ctx, k, n):
    return [ctx.num(x) for x in [["1"], ["1/4", "3/4"], ["1/2", "1/3", "1/6"]][n - 1]] if k == "p" else [ctx.num(x) for x in [["1"], ["2/3", "1/3"], ["1/5", "2/5", "2/5"]][n - 1]]


def fact(ctx, n, m, r, its, reg, d=2, weights=True, init=True, log=True, stop="never"):
    """each iteration solves both transports to the template, then moves it to the mean of the two barycentric images"""
    F = ctx.ot.factored
    Xa, Xb = pts(ctx, PTS, n, d, ["00"] if stop == "never" else []), pts(ctx, QTS, m, d, ["0%d" % (d - 1)] if stop == "never" else [], "y")
    a, b = (marg(ctx, "p", n), marg(ctx, "q", m)) if weights else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    X0 = ctx.pack([[ctx.num("%d/%d" % (i - j, 2 + i + j)) for j in range(d)] for i in range(r)])
    snap = [ctx.snapshot(z) for z in (Xa, Xb, X0)]
    calls = []
    sizes = []
    w = [ctx.num(1) / r] * r

    def plan(p, q):
        k = len(calls)
        G = [[p[i] * q[j] for j in range(len(q))] for i in range(len(p))]
        if len(p) > 1 and len(q) > 1:
            e = ctx.real("e%d" % k, lo=0, hi="1/50") if k in ((0, 1, 2 * its - 1) if stop == "never" else (0,) if stop != "sym" else ()) else ctx.num("1/%d" % (40 + k))
            G[0][0], G[1][1], G[0][1], G[1][0] = G[0][0] + e, G[1][1] + e, G[0][1] - e, G[1][0] - e
        return G

    def rec(orig, name):
        def f(*z, **k):
            d_ = bind(orig, z, k)
            d_["solver"] = name
            G = plan(a, w) if len(calls) % 2 == 0 else plan(w, b)
            calls.append(d_)
            d_["G"] = G
            lg = {"u": ("u", len(calls)), "v": ("v", len(calls))}
            if name == "emd":
                lg["cost"] = ctx.num(len(calls))
            return (ctx.pack(G), lg) if d_["log"] else ctx.pack(G)
        return f
    ctx.patch(F, "emd", rec(F.emd, "emd"))
    ctx.patch(F, "sinkhorn", rec(F.sinkhorn, "sinkhorn"))
    ctx.patch(ctx.ot.backend.NumpyBackend, "randn", lambda self, *s, type_as=None: sizes.append(s) or X0)
    rv = ctx.num(reg)
    kw = {} if reg == "0" else {"method": "sinkhorn_log"}
    thr = ctx.num(0) if stop == "never" else (ctx.real("thr", lo="1/100", hi=30) if stop == "sym" else ctx.num(stop))
    out = F.factored_optimal_transport(Xa, Xb, ctx.pack(a) if weights else None, ctx.pack(b) if weights else None, reg=0.0 if reg == "0" else (rv if ctx.sym else float(rv)), r=r, X0=X0 if init else None, stopThr=-1 if stop == "never" else (thr if ctx.sym else float(thr)), numItermax=its, log=log, **kw)
    ctx.check("plans, support and log", [len(out) == (4 if log else 3)])
    Ga, Gb, X = out[:3]
    if not init:
        ctx.check("random template", [sizes == [(r, d)]])
    cur = [[X0[i, j] for j in range(d)] for i in range(r)]
    deltas, done = [], 0
    cost = None
    for t in range(its):
        ctx.check("two problems per iteration", [len(calls) >= 2 * t + 2])
        ca, cb = calls[2 * t], calls[2 * t + 1]
        Ma = [[sq([Xa[i, c] for c in range(d)], cur[k]) for k in range(r)] for i in range(n)]
        Mb = [[sq(cur[k], [Xb[j, c] for c in range(d)]) for j in range(m)] for k in range(r)]
        L = [ctx.eq(ca["M"], ctx.pack(Ma)), ctx.eq(cb["M"], ctx.pack(Mb)), ctx.eq(ca["a"], ctx.pack(a)), ctx.eq(ca["b"], ctx.pack(w)), ctx.eq(cb["a"], ctx.pack(w)), ctx.eq(cb["b"], ctx.pack(b))]
        L += [x["solver"] == ("emd" if reg == "0" else "sinkhorn") for x in (ca, cb)]
        if reg != "0":
            L += [ctx.eq(x["reg"], rv) for x in (ca, cb)] + [x["method"] == "sinkhorn_log" for x in (ca, cb)]
        ctx.check("problems of the iteration", L)
        new = [[(tot(ca["G"][i][k] * Xa[i, c] for i in range(n)) + tot(cb["G"][k][j] * Xb[j, c] for j in range(m))) * r / 2 for c in range(d)] for k in range(r)]
        cost = (tot(ca["G"][i][k] * Ma[i][k] for i in range(n) for k in range(r)), tot(cb["G"][k][j] * Mb[k][j] for k in range(r) for j in range(m)))
        dl = tot((x - y) * (x - y) for u, v in zip(new, cur) for x, y in zip(u, v))
        cur = new
        done = t + 1
        if stop != "never" and ctx.test(dl < thr * thr):
            break
        deltas.append(dl)
    ctx.check("iterations", [len(calls) == 2 * done])
    ctx.check("template", ctx.eq(X, ctx.pack(cur)))
    ca, cb = calls[2 * done - 2], calls[2 * done - 1]
    ctx.check("plans", [ctx.eq(Ga, ctx.pack(ca["G"])), ctx.eq(Gb, ctx.pack(cb["G"]))])
    ctx.check("inputs unchanged", [ctx.eq(z, y) for z, y in zip((Xa, Xb, X0), snap)])
    if log:
        lg = out[3]
        k = 2 * done
        ctx.check("duals", [lg["ua"] == ("u", k - 1), lg["va"] == ("v", k - 1), lg["ub"] == ("u", k), lg["vb"] == ("v", k)])
        ctx.check("costs", [ctx.eq(lg["costa"], k - 1 if reg == "0" else cost[0]), ctx.eq(lg["costb"], k if reg == "0" else cost[1])])
        ctx.check("variations", [len(lg["delta_iter"]) == len(deltas)] + [c for x, y in zip(lg["delta_iter"], deltas) for c in (ctx.eq(x * x, y), ctx.le(0, x))])
        P = lg["lazy_plan"][:]
        ctx.check("composed plan", ctx.eq(P, ctx.pack([[tot(ca["G"][i][q] * cb["G"][q][j] for q in range(r)) * r for j in range(m)] for i in range(n)])))
        ctx.check("marginals of the composed plan", [ctx.eq(ctx.np.sum(P, axis=1), ctx.pack(a)), ctx.eq(ctx.np.sum(P, axis=0), ctx.pack(b))])
        ctx.check("one entry", ctx.eq(ctx.val(lg["lazy_plan"][n - 1, 0]), tot(ca["G"][n - 1][q] * cb["G"][q][0] for q in range(r)) * r))


def fact_sample(ctx, reg, lazy, its, tol):
    """ot.solve_sample hands the factored problem over and reports its plan and costs"""
    S = ctx.ot.solvers
    Xa, Xb = pts(ctx, PTS, 2, 2, ["00"]), pts(ctx, QTS, 3, 2)
    a, b = ctx.pack(marg(ctx, "p", 2)), ctx.pack(marg(ctx, "q", 3))
    calls = []
    o = S.factored_optimal_transport
    ca, cb = ctx.real("ca", lo=0, hi=5), ctx.real("cb", lo=0, hi=5)
    G = ctx.pack([[a[i] * b[j] for j in range(3)] for i in range(2)])

    def f(*z, **k):
        calls.append(bind(o, z, k))
        return G, G, "X", {"costa": ca, "costb": cb, "lazy_plan": ctx.ot.utils.LazyTensor((2, 3), lambda i, j, G: G[i, j], G=G)}
    ctx.patch(S, "factored_optimal_transport", f)
    r = S.solve_sample(Xa, Xb, a, b, reg=None if reg is None else float(reg), method="factored", rank=5, lazy=lazy, max_iter=its, tol=tol)
    ctx.check("one problem", [len(calls) == 1])
    d = calls[0]
    ctx.check("problem", [ctx.eq(d["Xa"], Xa), ctx.eq(d["Xb"], Xb), ctx.eq(d["a"], a), ctx.eq(d["b"], b), d["reg"] == (reg or 0), d["r"] == 5, d["stopThr"] == (1e-7 if tol is None else tol), d["numItermax"] == (100 if its is None else its), d["log"] is True])
    ctx.check("value", [ctx.eq(r.value, ca + cb), ctx.eq(r.value_linear, ca + cb), r.log["X"] == "X"])
    ctx.check("lazy plan", ctx.eq(r.lazy_plan[:], G))
    if not lazy:
        ctx.check("plan", ctx.eq(r.plan, G))


# ---------------------------------------------------------------- geomloss

class Tensor:
    """a torch tensor that remembers its numpy array"""

    def __init__(self, x):
        self.x, self.requires_grad = x, False

    def cpu(self):
        return self

    def detach(self):
        return self

    def numpy(self):
        return self.x

    def __imul__(self, k):
        return Tensor(self.x * k)

    def __mul__(self, k):
        return Tensor(self.x * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return Tensor(self.x / k)


def geo(ctx):
    """geomloss, by its contract"""
    G = ctx.ot.bregman._geomloss
    seen = {}

    class Torch:
        tensor = staticmethod(lambda x, **k: x if isinstance(x, Tensor) else Tensor(x))
        from_numpy = tensor
        as_tensor = tensor

    class Loss:
        def __init__(self, loss="sinkhorn", p=2, blur=0.05, reach=None, diameter=None, scaling=0.5, truncate=5, cost=None, kernel=None, cluster_scale=None, debias=True, potentials=False, verbose=False, backend="auto"):
            seen.update(loss=loss, p=p, blur=blur, reach=reach, scaling=scaling, debias=debias, backend=backend, cost=cost)

        def __call__(self, a, x, b, y):
            seen.update(a=a, x=x, b=b, y=y)
            return Tensor(ctx.real("value", lo=-3, hi=5))

    def grad(v, wrt):
        seen["wrt"] = list(wrt)
        return [Tensor(ctx.pack([ctx.real("f%d" % i, lo=-2, hi=2) if i == 0 else ctx.num("%d/3" % i) for i in range(wrt[0].x.shape[0])])), Tensor(ctx.pack([ctx.real("g%d" % i, lo=-2, hi=2) if i == 1 else ctx.num("-%d/5" % (i + 1)) for i in range(wrt[1].x.shape[0])]))]
    for k, v in (("geomloss", True), ("torch", Torch), ("SamplesLoss", Loss), ("grad", grad), ("get_backend", ctx.ot.utils.get_backend), ("LazyTensor", ctx.ot.utils.LazyTensor), ("dist", ctx.ot.utils.dist)):
        ctx.patch(G, k, v)
    return G, seen


def problem(ctx, seen, metric, reg, Xa, Xb, a, b):
    """the problem given to geomloss is the stated one, up to the scale of its cost"""
    p = 2 if metric == "sqeuclidean" else 1
    ctx.check("geomloss is called", ["y" in seen])
    ctx.check("entropic loss of the metric", [seen["loss"] == "sinkhorn", seen["p"] == p, seen["reach"] is None, seen["cost"] is None])
    ctx.check("temperature", ctx.eq((seen["blur"] * seen["blur"] * p) if p == 2 else seen["blur"], reg))
    ctx.check("measures", [ctx.eq(seen["a"].x, a), ctx.eq(seen["x"].x, Xa), ctx.eq(seen["b"].x, b), ctx.eq(seen["y"].x, Xb)])
    ctx.check("dual variables", [seen["wrt"][0] is seen["a"], seen["wrt"][1] is seen["b"]])
    return p


def gplan(ctx, metric, reg, Xa, Xb, a, b, f, g):
    n, m, d = Xa.shape[0], Xb.shape[0], Xa.shape[1]
    s = 2 if metric == "sqeuclidean" else 1
    D = [[sq([Xa[i, c] for c in range(d)], [Xb[j, c] for c in range(d)]) for j in range(m)] for i in range(n)]
    if s == 1:
        D = [[ctx.sqrt(x) for x in r] for r in D]
    return [[ctx.exp((s * f[i] + s * g[j] - D[i][j]) / reg) * a[i] * b[j] for j in range(m)] for i in range(n)]


def geomloss(ctx, metric, reg, weights, log=True, free=()):
    G, seen = geo(ctx)
    Xa, Xb = pts(ctx, PTS, 2, 1 if metric == "euclidean" else 2, free), pts(ctx, QTS, 3, 1 if metric == "euclidean" else 2, [], "y")
    a, b = (marg(ctx, "p", 2), marg(ctx, "q", 3)) if weights else ([ctx.num("1/2")] * 2, [ctx.num(1) / 3] * 3)
    A, B = ctx.pack(a), ctx.pack(b)
    rg = ctx.real("reg", lo="1/10", hi=8) if reg is None else ctx.num(reg)
    out = G.empirical_sinkhorn2_geomloss(Xa, Xb, rg if ctx.sym else float(rg), A if weights else None, B if weights else None, metric=metric, scaling=0.7, debias=False, log=log, backend="tensorized")
    p = problem(ctx, seen, metric, rg, Xa, Xb, A, B)
    ctx.check("options", [seen["scaling"] == 0.7, seen["debias"] is False, seen["backend"] == "tensorized"])
    v = out[0] if log else out
    ctx.check("value", ctx.eq(ctx.val(v), p * ctx.real("value", lo=-3, hi=5)))
    if not log:
        return
    l = out[1]
    f = [ctx.real("f0", lo=-2, hi=2), ctx.num("1/3")]
    g = [ctx.num("-1/5"), ctx.real("g1", lo=-2, hi=2), ctx.num("-3/5")]
    ctx.check("potentials", [ctx.eq(l["f"], ctx.pack(f)), ctx.eq(l["g"], ctx.pack(g)), ctx.eq(l["value"], v)])
    P = gplan(ctx, metric, rg, Xa, Xb, a, b, f, g)
    T = l["lazy_plan"]
    ctx.check("shape", [tuple(T.shape) == (2, 3)])
    ctx.check("plan", ctx.eq(T[:], ctx.pack(P)))
    ctx.check("parts of the plan", [ctx.eq(T[1, :], ctx.pack(P[1])), ctx.eq(T[:, 2], ctx.pack([P[0][2], P[1][2]])), ctx.eq(ctx.val(T[0, 1]), P[0][1]), ctx.eq(T[-1], ctx.pack(P[1])), ctx.eq(ctx.val(T[-2, -1]), P[0][2]), ctx.eq(T[0:2, 1:3], ctx.pack([r[1:] for r in P]))])


def geo_sample(ctx, method, lazy, metric, backend):
    """ot.solve_sample gives geomloss potentials as logarithms of scalings, its plan and its value"""
    S = ctx.ot.solvers
    G, seen = geo(ctx)
    Xa, Xb = pts(ctx, PTS, 2, 1), pts(ctx, QTS, 3, 1, [], "y")
    a, b = marg(ctx, "p", 2), marg(ctx, "q", 3)
    A, B = ctx.pack(a), ctx.pack(b)
    rg = ctx.num("3/2")
    r = S.solve_sample(Xa, Xb, A, B, reg=1.5, method=method, lazy=lazy, metric=metric, scaling=0.6)
    p = problem(ctx, seen, metric, rg, Xa, Xb, A, B)
    ctx.check("options", [seen["backend"] == backend, seen["scaling"] == 0.6, seen["debias"] is False])
    f = [ctx.real("f0", lo=-2, hi=2), ctx.num("1/3")]
    g = [ctx.num("-1/5"), ctx.real("g1", lo=-2, hi=2), ctx.num("-3/5")]
    P = gplan(ctx, metric, rg, Xa, Xb, a, b, f, g)
    ctx.check("value", ctx.eq(ctx.val(r.value), p * ctx.real("value", lo=-3, hi=5)))
    u, v = r.potentials
    ctx.check("scaled potentials", [ctx.eq(u[i] * rg, p * f[i]) for i in range(2)] + [ctx.eq(v[j] * rg, p * g[j]) for j in range(3)])
    ctx.check("lazy plan", ctx.eq(r.lazy_plan[:], ctx.pack(P)))
    if not lazy:
        ctx.check("plan", ctx.eq(r.plan, ctx.pack(P)))


def geo_bad(ctx):
    G, seen = geo(ctx)
    Xa, Xb = pts(ctx, PTS, 2, 1, ["00"]), pts(ctx, QTS, 3, 1, [], "y")
    err = None
    try:
        G.empirical_sinkhorn2_geomloss(Xa, Xb, 1.0, metric="cityblock")
    except ValueError:
        err = True
    ctx.check("unknown metric refused", [err is True, "y" not in seen])
    ctx.patch(G, "geomloss", False)
    err = None
    try:
        G.empirical_sinkhorn2_geomloss(Xa, Xb, 1.0)
    except ImportError:
        err = True
    ctx.check("missing library reported", [err is True])


# ---------------------------------------------------------------- data

class Gen:
    def __init__(self, ctx, n=3):
        self.ctx, self.asked, self.n = ctx, [], n

    def randn(self, *s):
        k = len(self.asked)
        self.asked.append(tuple(int(x) for x in s))
        return self.ctx.pack(self.vals(k))

    def vals(self, k):
        s = self.asked[k]
        c = self.ctx
        return [[c.real("z%d_%d%d" % (k, i, j), lo=-3, hi=3) if i < self.n else c.num("%d/%d" % (i - j, 2 + i + k)) for j in range(s[1])] for i in range(s[0])]


def seeds(ctx, g):
    """generators are made from the given state, and kept when already one"""
    D = ctx.ot.datasets
    got = []

    def f(s):
        if s is not g:
            got.append(s)
        return g
    ctx.patch(D, "check_random_state", f)
    return D, got


def gauss1(ctx, n, old=False):
    D = ctx.ot.datasets
    mv, s = ctx.real("m", lo=-2, hi=5), ctx.num("3/2")
    h = (D.get_1D_gauss if old else D.make_1D_gauss)(n, mv if ctx.sym else float(mv), s if ctx.sym else float(s))
    k = [ctx.exp(-(i - mv) * (i - mv) / (2 * s * s)) for i in range(n)]
    z = tot(k)
    ctx.check("bins", [h.shape == (n,)])
    ctx.check("gaussian histogram", [ctx.eq(h[i] * z, k[i]) for i in range(n)])
    ctx.check("sums to one", ctx.eq(tot(h[i] for i in range(n)), 1))


def gauss2(ctx, n, cov, old=False):
    g = Gen(ctx)
    D, got = seeds(ctx, g)
    mean = ctx.pack([ctx.real("m0", lo=-2, hi=2), ctx.num("1/3")])
    f = D.get_2D_samples_gauss if old else D.make_2D_samples_gauss
    if cov == "matrix":
        R = [[ctx.real("r0", lo="1/2", hi=3), ctx.num("1/4")], [ctx.num("1/4"), ctx.num("5/4")]]
        Sg = ctx.pack([[tot(R[i][k] * R[k][j] for k in range(2)) for j in range(2)] for i in range(2)])
        asked = []
        ctx.patch(D.sp.linalg, "sqrtm", lambda M, *z, **k: asked.append(M) or ctx.pack(R))
        x = f(n, mean, Sg, random_state=17)
        if asked:
            ctx.check("root of the covariance", [ctx.eq(asked[0], Sg)])
    else:
        s = ctx.real("s", lo="1/10", hi=4)
        sg = s * s
        x = f(n, mean, ctx.pack([sg]) if cov == "list" else (sg if ctx.sym else float(sg)), random_state=17)
        R = [[s, ctx.num(0)], [ctx.num(0), s]]
    ctx.check("random state", [got == [17], g.asked == [(n, 2)]])
    Z = g.vals(0)
    ctx.check("samples", ctx.eq(x, ctx.pack([[tot(Z[i][k] * R[k][j] for k in range(2)) + mean[j] for j in range(2)] for i in range(n)])))


def classif(ctx, kind, n, old=False, bias=None, p=None):
    """labels and centres of the documented data sets, with noise of the given size"""
    g = Gen(ctx, 1)
    D, got = seeds(ctx, g)
    nz = ctx.real("nz", lo=0, hi=2)
    low = kind.lower()
    if low == "gaussrot":
        s = ctx.real("sd", lo=0, hi=2)
        nz = s * s
    th = ctx.real("theta", lo=-3, hi=3) if low == "gaussrot" else ctx.num(0)
    kw = {} if bias is None else {"bias": ctx.pack([ctx.real("b0", lo=-2, hi=2), ctx.num(bias)])}
    if p is not None:
        kw["p"] = p
    f = D.get_data_classif if old else D.make_data_classif
    fl = (lambda z: z) if ctx.sym else float
    x, y = f(kind, n, fl(nz), fl(th), random_state=23, **kw)
    ctx.check("random state", [got == [23]])
    lab = [int(v) for v in y]
    if low in ("3gauss", "3gauss2"):
        want = [min(3, 3 * i // n + 1) for i in range(n)]
        cen = {"3gauss": {1: (-1, -1), 2: (-1, 1), 3: (1, 0)}, "3gauss2": {1: (-2, -2), 2: (-2, 2), 3: (2, 0)}}[low]
        sc = {"3gauss": {1: ctx.num("3/2"), 3: ctx.num(2)}, "3gauss2": {1: ctx.num(1), 3: ctx.num(2)}}[low]
        ctx.check("labels", [lab == want])
        ia, ib = [i for i in range(n) if want[i] != 3], [i for i in range(n) if want[i] == 3]
        ctx.check("draws", [g.asked == [(len(ia), 2), (len(ib), 2)]])
        exp = [None] * n
        for k, ix in enumerate((ia, ib)):
            Z = g.vals(k)
            for t, i in enumerate(ix):
                exp[i] = [cen[want[i]][c] + sc[1 if k == 0 else 3] * nz * Z[t][c] for c in (0, 1)]
    elif low == "gaussrot":
        want = [2 * i // n + 1 for i in range(n)]
        ctx.check("labels", [lab == want])
        co, si = ctx.np.cos(fl(th)), ctx.np.sin(fl(th))
        co, si = ctx.val(co), ctx.val(si)
        exp = [None] * n
        n1 = want.count(1)
        ctx.check("draws", [g.asked == [(n1, 2), (n - n1, 2)]])
        for k, (ix, m) in enumerate((([i for i in range(n) if want[i] == 1], (-1, 1)), ([i for i in range(n) if want[i] == 2], (1, -1)))):
            Z = g.vals(k)
            for t, i in enumerate(ix):
                u = [Z[t][c] * s + m[c] for c in (0, 1)]
                exp[i] = [u[0] * co - u[1] * si, u[0] * si + u[1] * co]
    else:
        pv = 0.5 if p is None else p
        n1 = int(pv * n)
        want = [1] * n1 + [0] * (n - n1)
        ctx.check("labels", [lab == want])
        ctx.check("draws", [g.asked == [(len(want), 2)]])
        Z = g.vals(0)
        bs = [0, 2] if bias is None else [ctx.real("b0", lo=-2, hi=2), ctx.num(bias)]
        exp = [[nz * Z[i][0] + bs[0], 1 - 2 * want[i] + nz * Z[i][1] + bs[1]] for i in range(len(want))]
    ctx.check("samples", ctx.eq(x, ctx.pack(exp)))


CASES = []
for n, m, r, its, reg, d, w, ini, lg, st in ((2, 2, 2, 1, "0", 2, True, True, True, "never"), (2, 3, 2, 2, "0", 2, False, True, True, "never"), (3, 2, 2, 2, "1/2", 1, True, False, True, "never"), (2, 2, 3, 2, "0", 1, True, True, False, "never"), (3, 3, 1, 2, "0", 2, True, True, True, "never"), (2, 3, 3, 2, "2", 1, False, True, True, "never"), (2, 2, 2, 3, "0", 1, True, True, True, "1/2"), (2, 2, 2, 2, "1/4", 1, True, True, True, "2"), (2, 3, 2, 3, "0", 2, True, True, True, "sym")):
    CASES.append(Case("fact_%d%d%d_%d_%s_%s%d" % (n, m, r, its, reg, st, d), fact, n=n, m=m, r=r, its=its, reg=reg, d=d, weights=w, init=ini, log=lg, stop=st))
CASES.append(Case("fact_333_3", fact, tier="thorough", n=3, m=3, r=3, its=3, reg="1/2", d=2))
for reg, lazy, its, tol in ((None, False, None, None), (0.5, True, 7, 1e-3), (2.0, None, 50, None), (0, False, None, 1e-2)):
    CASES.append(Case("fsample_%s_%s" % (reg, lazy), fact_sample, reg=reg, lazy=lazy, its=its, tol=tol))
for me in ("sqeuclidean", "euclidean"):
    for reg, w, lg, fr in ((None, True, False, ()), ("1/4", True, True, ("00",)), ("4", False, True, ()), ("1", True, True, ())):
        CASES.append(Case("geo_%s_%s" % (me, reg), geomloss, metric=me, reg=reg, weights=w, log=lg, free=fr if me == "sqeuclidean" else ()))
for k, (me, lazy, mt, bk) in enumerate([("geomloss", None, "sqeuclidean", "auto"), ("geomloss", True, "sqeuclidean", "online"), ("geomloss", False, "euclidean", "tensorized"), ("geomloss_multiscale", True, "euclidean", "multiscale"), ("geomloss_online", False, "sqeuclidean", "online")]):
    CASES.append(Case("gsample_%d" % k, geo_sample, method=me, lazy=lazy, metric=mt, backend=bk))
CASES.append(Case("geo_bad", geo_bad))
for n, old in ((2, False), (3, False), (3, True)):
    CASES.append(Case("gauss1_%d%s" % (n, "_old" if old else ""), gauss1, n=n, old=old))
for n, c, old in ((2, "scalar", False), (3, "list", False), (2, "matrix", False), (2, "scalar", True), (2, "matrix", True)):
    CASES.append(Case("gauss2_%d_%s%s" % (n, c, "_old" if old else ""), gauss2, n=n, cov=c, old=old))
for nm, n, old, b, p in (("3gauss", 6, False, None, None), ("3gauss", 5, False, None, None), ("3Gauss2", 6, False, None, None), ("3gauss2", 7, True, None, None), ("gaussrot", 4, False, None, None), ("gaussrot", 5, True, None, None), ("2gauss_prop", 4, False, None, None), ("2gauss_prop", 8, False, "1/2", 0.25), ("2gauss_prop", 6, True, "3/2", 0.5), ("2gauss_prop", 5, False, None, None), ("2gauss_prop", 7, False, "1/2", 0.3)):
    CASES.append(Case("cl_%s_%d%s_%s" % (nm, n, "_old" if old else "", b), classif, kind=nm, n=n, old=old, bias=b, p=p))
