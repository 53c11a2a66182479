"""C35 dimension reduction: Fisher and Wasserstein discriminant analysis, projection robust and entropic Wasserstein."""
import importlib
import sys
import types

import numpy

from symx.worker import Case
from props.c29 import bind, pts, tot, sq

QUICK_WALL = 15
WITNESS_TOL = 2e-5
BOUNDS = "3-5 points in dimension 2-3, two or three classes, symbolic coordinates, projections, plans or thresholds, one to three Sinkhorn or descent iterations"
STUBS = ["eigenvectors, QR factors and singular values are prescribed and the matrices they are computed from compared", "manifold optimisation: the cost, manifold and options handed over are recorded, the point returned is prescribed", "EWCA: the Sinkhorn solver (decided by C03) is recorded and returns an arbitrary plan", "PCA: the call is recorded"]
XS = [["1", "-2", "1/2"], ["0", "1", "-1"], ["-3/2", "1/2", "2"], ["2", "3/2", "-1/2"], ["1/2", "-1", "3/2"]]
CACHE = {}


def module(ctx):
    """ot.dr with its optional dependencies replaced"""
    if ctx.sym not in CACHE:
        def mod(name, **k):
            m = types.ModuleType(name)
            m.__dict__.update(k)
            return m
        dec = mod("sklearn.decomposition", PCA=None)
        man, opt = mod("pymanopt.manifolds", Stiefel=None), mod("pymanopt.optimizers", SteepestDescent=None, TrustRegions=None)
        new = {"autograd": mod("autograd", numpy=numpy), "autograd.numpy": numpy, "sklearn": mod("sklearn", decomposition=dec), "sklearn.decomposition": dec,
               "pymanopt": mod("pymanopt", manifolds=man, optimizers=opt, function=types.SimpleNamespace(autograd=lambda m: lambda f: f), Problem=None), "pymanopt.manifolds": man, "pymanopt.optimizers": opt}
        old = {k: sys.modules.get(k) for k in new}
        sys.modules.update(new)
        try:
            sys.modules.pop("ot.dr", None)
            CACHE[ctx.sym] = importlib.import_module("ot.dr")
        finally:
            for k, v in old.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        if ctx.sym:
            from symx import env
            env.shim_modules()
    return CACHE[ctx.sym]


def data(ctx, n, d, free):
    return pts(ctx, XS, n, d, free)


def outer(x, y):
    return [[p * q for q in y] for p in x]


def add(A, B):
    return [[p + q for p, q in zip(a, b)] for a, b in zip(A, B)]


def mean(X, idx, d):
    return [tot(X[i, c] for i in idx) / len(idx) for c in range(d)]


def mul(A, B):
    return [[tot(x * B[k][j] for k, x in enumerate(r)) for j in range(len(B[0]))] for r in A]


def T(A):
    return [list(x) for x in zip(*A)]


def rows(A):
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


def basis(ctx, d, p, k=0):
    B = {2: [["3/5", "-4/5"], ["4/5", "3/5"]], 3: [["2/3", "-1/3", "2/3"], ["2/3", "2/3", "-1/3"], ["-1/3", "2/3", "2/3"]]}[d]
    return ctx.pack([[ctx.num(B[i][(j + k) % d]) for j in range(p)] for i in range(d)])


def labels(y):
    return {c: [i for i, z in enumerate(y) if z == c] for c in sorted(set(y))}


def fda(ctx, y, d, p, free, reg=None, order=(0, 1, 2)):
    D = module(ctx)
    n = len(y)
    X = data(ctx, n, d, free)
    X0 = ctx.snapshot(X)
    w = numpy.array([[1.5, 0.25, 4.0][k] for k in order[:d]])
    V = basis(ctx, d, d)
    args = []

    def eig(*a, **k):
        args.append(a)
        return w, V
    ctx.contract("eig", eig)
    P, proj = D.fda(X, numpy.array(y), p, **({} if reg is None else dict(reg=reg)))
    C = labels(y)
    nc = len(C)
    mc = [mean(X0, ix, d) for ix in C.values()]
    mm = [tot(m[c] for m in mc) / nc for c in range(d)]
    Cb = Cw = [[ctx.num(0)] * d] * d
    for m in mc:
        e = [x - z for x, z in zip(m, mm)]
        Cb = add(Cb, outer(e, e))
    for (c, ix), m in zip(C.items(), mc):
        for i in ix:
            e = [X0[i, q] - m[q] for q in range(d)]
            Cw = add(Cw, [[x / ((len(ix) - 1) * nc) for x in r] for r in outer(e, e)])
    g = ctx.num("1/10000000000000000") if reg is None else ctx.num(str(reg))
    Cw = [[x + (g if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(Cw)]
    ctx.check("between-class scatter", ctx.eq(args[0][0], ctx.pack(Cb)))
    ctx.check("within-class scatter", ctx.eq(args[0][1], ctx.pack(Cw)))
    p = min(p, nc - 1)
    top = sorted(range(d), key=lambda k: w[k])[-p:]
    ctx.check("largest eigenvectors", [tuple(P.shape) == (d, p)] + [ctx.eq(P[:, k], V[:, t]) for k, t in enumerate(top)])
    Z = pts(ctx, [["1", "2", "3"], ["0", "-1", "1"]], 2, d, ["00"], "z")
    m0 = mean(X0, range(n), d)
    ctx.check("projection", ctx.eq(proj(Z), ctx.pack(mul([[Z[i, c] - m0[c] for c in range(d)] for i in range(2)], rows(P)))))
    ctx.check("input kept", ctx.eq(X, X0))


def sink(ctx, n, m, M, reg, k):
    K = [[ctx.exp(-x / reg) for x in r] for r in M]
    u = [ctx.num(1)] * n
    for _ in range(k):
        v = [ctx.num(1) / m / tot(K[i][j] * u[i] for i in range(n)) for j in range(m)]
        u = [ctx.num(1) / n / tot(K[i][j] * v[j] for j in range(m)) for i in range(n)]
    return [[u[i] * K[i][j] * v[j] for j in range(m)] for i in range(n)]


def model(w1, w2, M, reg, k):
    return [[w1[i] * w2[j] * (k + reg * (i + 1) + (j + 2) * M[i][j]) for j in range(len(w2))] for i in range(len(w1))]


def solvers(ctx, n, m, k, reg, free, log=False):
    """the Sinkhorn plans used by wda"""
    D = module(ctx)
    r = ctx.num(reg)
    K = [[ctx.num("%d/%d" % (i + 2 * j + 1, 5 + i)) for j in range(m)] for i in range(n)]
    for s in free:
        K[int(s[0])][int(s[1])] = ctx.real("k" + s, lo="1/20", hi=2)
    a = [ctx.num(2) / (n + 1)] + [ctx.num(1) / (n + 1)] * (n - 1) if n > 1 else [ctx.num(1)]
    b = [ctx.num(1) / m] * m
    M = ctx.pack([[-r * ctx.log(x) for x in y] for y in K])
    G = (D.sinkhorn_log if log else D.sinkhorn)(ctx.pack(a), ctx.pack(b), M, r if ctx.sym else float(r), k)
    u = [ctx.num(1)] * n
    for _ in range(k):
        v = [b[j] / tot(K[i][j] * u[i] for i in range(n)) for j in range(m)]
        u = [a[i] / tot(K[i][j] * v[j] for j in range(m)) for i in range(n)]
    ctx.check("plan", ctx.eq(G, ctx.pack([[u[i] * K[i][j] * v[j] for j in range(m)] for i in range(n)])))


def wda(ctx, y, d, p, free, reg="1", k=1, method="sinkhorn", solver=None, P0=False, normalize=False, at="basis"):
    D = module(ctx)
    n = len(y)
    X = data(ctx, n, d, free)
    X0 = ctx.snapshot(X)
    rec = {}
    pm = D.pymanopt
    ctx.patch(pm.manifolds, "Stiefel", lambda *a: ("stiefel",) + a)
    ctx.patch(pm, "Problem", lambda manifold, cost, **k: rec.update(manifold=manifold, cost=cost) or "problem")
    out = basis(ctx, d, p, 1)

    def optimizer(name):
        class O:
            def __init__(self, **k):
                rec.update(solver=name, options=k)

            def run(self, problem, initial_point=None):
                rec.update(problem=problem, start=initial_point)
                return types.SimpleNamespace(point=out)
        return O
    ctx.patch(pm.optimizers, "SteepestDescent", optimizer("SteepestDescent"))
    ctx.patch(pm.optimizers, "TrustRegions", optimizer("TrustRegions"))
    calls = []

    def plan(which):
        def f(w1, w2, M, reg, k):
            calls.append(which)
            return ctx.pack(model(w1, w2, M, reg, k))
        return f
    ctx.patch(D, "sinkhorn", plan("sinkhorn"))
    ctx.patch(D, "sinkhorn_log", plan("sinkhorn_log"))
    start = basis(ctx, d, p, 0) if P0 else None
    own = optimizer("own")() if solver == "own" else None
    rv = ctx.num(reg)
    Q, proj = D.wda(X, numpy.array(y), p, rv if ctx.sym else float(rv), k, solver=own if own is not None else solver, sinkhorn_method=method, maxiter=23, P0=start, normalize=normalize)
    ctx.check("point of the optimiser", [ctx.eq(Q, out), rec["problem"] == "problem", rec["manifold"] == ("stiefel", d, p), rec["solver"] == {None: "SteepestDescent", "tr": "TrustRegions", "TrustRegions": "TrustRegions", "own": "own"}[solver],
                                          own is not None or rec["options"]["max_iterations"] == 23, (rec["start"] is start)])
    m0 = mean(X0, range(n), d)
    Z = pts(ctx, [["1", "2", "3"], ["0", "-1", "1"]], 2, d, ["00"], "z")
    pz = proj(Z)
    # centred on some point: differences and linear part are exact
    ctx.check("projection", [ctx.eq(pz[0, c] - pz[1, c], tot((Z[0, q] - Z[1, q]) * out[q, c] for q in range(d))) for c in range(p)])
    ctx.check("centred projection", [ctx.eq(tot(proj(X0)[i, c] for i in range(n)), 0) for c in range(p)])
    ctx.check("input kept", ctx.eq(X, X0))
    B = basis(ctx, d, p, 2) if at == "basis" else ctx.pack([[ctx.num("1/2"), ctx.num(1)][:p] for _ in range(d)])
    got = rec["cost"](B)
    C = list(labels(y).values())

    def cost_matrix(I, J, B):
        return [[sq(mul([[X0[i, c] for c in range(d)]], rows(B))[0], mul([[X0[j, c] for c in range(d)]], rows(B))[0]) for j in J] for i in I]
    wi = be = ctx.num(0)
    for s, I in enumerate(C):
        for J in C[s:]:
            r = rv
            if P0 and normalize:
                R = cost_matrix(I, J, start)
                r = rv * tot(tot(x) for x in R) / (len(I) * len(J))
            M = cost_matrix(I, J, B)
            G = model([ctx.num(1) / len(I)] * len(I), [ctx.num(1) / len(J)] * len(J), M, r, k) if calls else sink(ctx, len(I), len(J), M, r, k)
            v = tot(x * z for a, b in zip(G, M) for x, z in zip(a, b))
            if I is J:
                wi = wi + v
            else:
                be = be + v
    ctx.check("Sinkhorn variant", [all(c == method.lower() for c in calls)])
    ctx.check("ratio of the within and between costs", ctx.eq(got * be, wi))


def wda_unknown(ctx):
    D = module(ctx)
    X = data(ctx, 4, 2, ["00"])
    try:
        D.wda(X, numpy.array([0, 0, 1, 1]), 1, sinkhorn_method="other")
        ok = False
    except ValueError:
        ok = True
    ctx.check("unknown solver refused", [ok])


def prw(ctx, n, m, d, k, free, its=1, given=True, stop=-1.0, wts=True, tau="1/4", reg="1", layout=None):
    D = module(ctx)
    X, Y = pts(ctx, XS, n, d, free), pts(ctx, [["1/2", "1", "-1"], ["-1", "1/2", "1"], ["2", "0", "1/2"]], m, d, (), "y")
    A = [[["1"], ["1/4", "3/4"], ["1/2", "1/4", "1/4"]], [["1"], ["2/3", "1/3"], ["1/5", "2/5", "2/5"]]]
    a, b = ([ctx.num(x) for x in A[0][n - 1]], [ctx.num(x) for x in A[1][m - 1]]) if wts else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    Qs = [basis(ctx, d, k, 0 if layout else t) for t in range(its + 3)]
    if layout:
        B = basis(ctx, 2, 2)
        st = {"flat": ([(0, 1), (0, -2), (0, 1)], [(1, 3), (1, 0), (-1, 1)]), "line": ([(0, 0), (1, 0)], [(0, 0), (1, 0)])}[layout]
        X, Y = [ctx.pack([[s * B[c, 0] + t * B[c, 1] for c in range(2)] for s, t in w[:z]]) for w, z in zip(st, (n, m))]
    if stop == -1.0:
        # the error does not matter
        ctx.stub(D, "max", lambda *z: ctx.num(1))
    qr, seeds = [], []

    def f(Z, *z, **kw):
        qr.append(Z)
        return Qs[len(qr) % len(Qs)], None
    ctx.contract("qr", f)
    start = Qs[0]
    if given:
        U, kw = start, dict(U0=start)
    else:
        G0 = ctx.pack([[ctx.num("%d/3" % (i - j)) for j in range(k)] for i in range(d)])
        asked = []

        class Rg:
            def randn(self, *z):
                asked.append(z)
                return G0
        ctx.patch(D, "check_random_state", lambda s: seeds.append(s) or Rg())
        U, kw = Qs[1], dict(random_state=4)
    th = ctx.real("stop", lo="1/100", hi=20) if stop == "sym" else stop
    rg, tv = ctx.num(reg), ctx.num(tau)
    P, V = D.projection_robust_wasserstein(X, Y, ctx.pack(a), ctx.pack(b), tv if ctx.sym else float(tv), reg=rg if ctx.sym else float(rg), k=k, stopThr=th if stop != -1.0 else -1.0, maxiter=its, **kw)
    if not given:
        ctx.check("random start", [seeds == [4], asked == [(d, k)], ctx.eq(qr[0], G0)])
        qr = qr[1:]
    ctx.check("iterations", [1 <= len(qr) <= its, stop == "sym" or len(qr) == its])
    u = [ctx.num(1) / n] * n
    x, yy = rows(X), rows(Y)
    for t in range(len(qr)):
        M = [[sq(mul([x[i]], rows(U))[0], mul([yy[j]], rows(U))[0]) for j in range(m)] for i in range(n)]
        K = [[ctx.exp(-z / rg) for z in r] for r in M]
        v = [b[j] / tot(K[i][j] * u[i] for i in range(n)) for j in range(m)]
        u = [a[i] / tot(K[i][j] * v[j] for j in range(m)) for i in range(n)]
        pi = [[u[i] * K[i][j] * v[j] for j in range(m)] for i in range(n)]
        S = [[ctx.num(0)] * d] * d
        for i in range(n):
            for j in range(m):
                e = [x[i][c] - yy[j][c] for c in range(d)]
                S = add(S, [[pi[i][j] * z for z in r] for r in outer(e, e)])
        G = [[2 * z / rg for z in r] for r in mul(S, rows(U))]
        H = mul(T(G), rows(U))
        xi = add(G, [[-z / 2 for z in r] for r in mul(rows(U), add(H, T(H)))])
        ctx.check("Riemannian ascent step", ctx.eq(qr[t], ctx.pack(add(rows(U), [[tv * z for z in r] for r in xi]))))
        if stop == "sym":
            g2 = tot(z * z for r in xi for z in r) * rg * rg
            e1 = tot(abs(tot(pi[i][j] for i in range(n)) - b[j]) for j in range(m))
            if t < len(qr) - 1:
                ctx.check("goes on above the tolerance", [ctx.any([ctx.lt(th * th, g2), ctx.lt(th, e1)])])
            elif len(qr) < its:
                ctx.check("stops below the tolerance", [ctx.le(g2, th * th), ctx.le(e1, th)])
        U = Qs[(t + (1 if given else 2)) % len(Qs)]
    ctx.check("plan", ctx.eq(P, ctx.pack(pi)))
    ctx.check("basis", ctx.eq(V, U))
    ctx.check("rows have the given masses", [ctx.eq(tot(P[i, j] for j in range(m)), a[i]) for i in range(n)])


def ewca(ctx, n, d, k, method="BCD", given=False, its=1, free=("00",), reg="1", sm="sinkhorn", crit=(), mm=2, lam="-1/4", stop="1/1000000"):
    D = module(ctx)
    X = data(ctx, n, d, [f for f in free if f != "p"])
    X0 = ctx.snapshot(X)
    Us = [basis(ctx, d, k, t) for t in range(4)]
    full = [basis(ctx, d, d, t) for t in range(1, 5)]
    m0 = mean(X0, range(n), d)
    Xc = [[X0[i, c] - m0[c] for c in range(d)] for i in range(n)]
    C = [[z / n for z in r] for r in mul(T(Xc), Xc)]
    ev, qr, sv, fits, calls = [], [], [], [], []
    lv = ctx.num("7/2")

    class PCA:
        def __init__(self, n_components=None, **kw):
            fits.append([n_components])

        def fit(self, Z):
            fits[-1].append(Z)
            self.components_ = Us[0].T
            self.explained_variance_ = ctx.pack([lv] + [ctx.num(1)] * (k - 1))
            return self
    ctx.patch(D, "PCA", PCA)
    outs = []

    def eigh(S, *z, **kw):
        ev.append(S)
        if method == "MM":
            return ctx.pack([ctx.num(lam)] + [ctx.num(1)] * (n - 1)), None
        return None, full[(len(ev) - 1) % 4]

    def f_qr(R, *z, **kw):
        qr.append(R)
        Q = Us[len(qr) % 4]
        outs.append(Q)
        return Q, None

    def svd(A, *z, **kw):
        sv.append(A)
        return None, numpy.array(crit[len(sv) - 1] if len(sv) <= len(crit) else [0.5] * k), None
    vals = []
    ctx.contract("eigh", eigh)
    ctx.contract("qr", f_qr)
    ctx.contract("svd", svd)
    ctx.contract("eigvalsh", lambda A, *z, **kw: vals.append(A) or ctx.pack([ctx.num(1)] * (d - 1) + [lv]))
    plans = []

    def plan():
        t = len(plans)
        G = [[ctx.num("%d/20" % (1 + (i * 2 + j * 3 + t) % 5)) for j in range(n)] for i in range(n)]
        if "p" in free and t == 0:
            G[0][1] = ctx.real("p01", lo="1/100", hi=1)
        plans.append(G)
        return ctx.pack(G)
    orig = D.sinkhorn_bregman

    def sk(*a, **kw):
        c = bind(orig, a, kw)
        calls.append(c)
        G = plan()
        return (G, {"warmstart": ("ws", len(calls))} if sm != "other" else {}) if c["log"] else G
    ctx.patch(D, "sinkhorn_bregman", sk)
    rg = ctx.num(reg)
    kw = dict(U0=Us[0]) if given else {}
    P, U = D.ewca(X, reg=rg if ctx.sym else float(rg), k=k, method=method, sinkhorn_method=sm, maxiter=its, maxiter_sink=31, maxiter_MM=mm, stopThr=float(ctx.num(stop)) if not ctx.sym else ctx.num(stop), **kw)
    N = len(calls)
    # number of iterations: the singular values give the distance between bases
    exp = 0
    for t in range(its):
        exp += 1
        s = [min(z, 1.0) for z in (crit[t] if t < len(crit) else [0.5] * k)]
        if sum(numpy.arccos(z) ** 2 for z in s) ** 0.5 <= float(ctx.num(stop) if not ctx.sym else 1e-6):
            break
    ctx.check("iterations", [N == exp, len(sv) == exp])
    ctx.check("start", [len(fits) == (0 if given else 1)] + ([] if given else [fits[0][0] == k, ctx.eq(fits[0][1], ctx.pack(Xc))]))
    cur, q = Us[0], 0
    for t in range(N):
        c = calls[t]
        Y = mul(mul(Xc, rows(cur)), T(rows(cur)))
        ctx.check("transport to the projected samples", [ctx.eq(c["M"], ctx.pack([[sq(r, s) for s in Y] for r in Xc])), ctx.eq(c["a"], ctx.pack([ctx.num(1) / n] * n)), ctx.eq(c["b"], ctx.pack([ctx.num(1) / n] * n)), ctx.eq(c["reg"], rg), c["numItermax"] == 31, c["method"] == sm,
                                                           c["warmstart"] == (("ws", t) if t and sm != "other" else None)])
        G = plans[t]
        S2 = [[G[i][j] + G[j][i] for j in range(n)] for i in range(n)]
        old = cur
        if method == "BCD":
            W = [[S2[i][j] - (ctx.num(1) / n if i == j else 0) for j in range(n)] for i in range(n)]
            ctx.check("block coordinate step", ctx.eq(ev[t], ctx.pack(mul(mul(T(Xc), W), Xc))))
            F = full[t % 4]
            cur = ctx.pack([[F[i, d - 1 - j] for j in range(k)] for i in range(d)])
        else:
            ctx.check("spectrum of the symmetrised plan", ctx.eq(ev[t] * 2, ctx.pack(S2)))
            lp = ctx.num(lam)
            al = 1 - 2 * n * lp
            for _ in range(mm):
                CU, PU = mul(C, rows(cur)), mul(mul(mul(T(Xc), S2), Xc), rows(cur))
                up = ctx.test(al > 0)
                R = [[al * (CU[i][j] - (lv * cur[i, j] if up else 0)) - PU[i][j] + 2 * lp * n * CU[i][j] for j in range(k)] for i in range(d)]
                ctx.check("gradient of the majorant", ctx.eq(qr[q], ctx.pack(R)))
                cur, q = outs[q], q + 1
        ctx.check("distance between successive bases", ctx.eq(sv[t], ctx.pack(mul(T(rows(old)), rows(cur)))))
    if given and method == "MM":
        ctx.check("largest variance", [ctx.eq(vals[0] * (n - 1), ctx.pack([[n * z for z in r] for r in C]))] if vals else [False])
    ctx.check("plan and basis", [ctx.eq(P, ctx.pack(plans[N - 1])), ctx.eq(U, cur)])
    ctx.check("input kept", ctx.eq(X, X0))


def ewca_unknown(ctx):
    D = module(ctx)
    X = data(ctx, 3, 2, ["00"])
    ctx.patch(D, "sinkhorn_bregman", lambda *a, **k: (ctx.pack([[ctx.num("1/9")] * 3] * 3), {}))
    try:
        D.ewca(X, U0=basis(ctx, 2, 1), k=1, method="other")
        ok = False
    except ValueError:
        ok = True
    ctx.check("unknown method refused", [ok])


CASES = []
for nm, y, d, p, fr, rg, od in (("22", [0, 0, 1, 1], 2, 2, ["00", "11"], None, (0, 1, 2)), ("23", [1, 0, 1, 0, 0], 2, 1, ["01"], 0.5, (1, 0, 2)), ("3", [2, 0, 2, 0, 0], 3, 5, ["02", "30"], 0.25, (2, 0, 1)), ("222", [5, 5, 3, 3, 3], 2, 2, ["20", "41"], 1.0, (0, 2, 1))):
    CASES.append(Case("fda_%s" % nm, fda, y=y, d=d, p=p, free=fr, reg=rg, order=od))
CASES.append(Case("fda_three", fda, y=[0, 0, 7, 7, 0], d=3, p=1, free=["00", "12"], reg=0.5, order=(1, 2, 0)))
for nm, y, d, p, fr, k, me, so, P0, no, rg in (("a", [0, 0, 1, 1], 2, 1, ["00"], 1, "sinkhorn", None, False, False, "1"), ("b", [1, 0, 1], 2, 1, ["00"], 2, "sinkhorn", "tr", False, False, "2"), ("c", [0, 1, 1, 2], 2, 2, [], 1, "SINKHORN_LOG", "TrustRegions", True, False, "1"),
                                            ("d", [0, 1, 1], 2, 1, ["01"], 2, "sinkhorn_log", "own", False, False, "1"), ("e", [0, 0, 1, 1], 2, 1, ["00"], 1, "sinkhorn", None, True, True, "1"), ("f", [2, 0, 2, 0], 3, 2, [], 2, "sinkhorn_log", None, True, True, "1/2"), ("g", [0, 0, 1, 1], 2, 1, [], 3, "Sinkhorn", None, False, True, "3")):
    CASES.append(Case("wda_" + nm, wda, y=y, d=d, p=p, free=fr, k=k, method=me, solver=so, P0=P0, normalize=no, reg=rg))
for n, m, k, reg, fr, lg in ((2, 2, 1, "1", ["00"], False), (2, 3, 2, "1/2", ["01"], False), (3, 2, 3, "2", [], False), (2, 2, 1, "2", ["11"], True), (3, 2, 2, "1/2", ["00"], True), (1, 2, 2, "1", ["01"], False), (2, 1, 1, "1", ["10"], True), (2, 2, 3, "1", [], True)):
    CASES.append(Case("sk_%d%d%d%s" % (n, m, k, "l" if lg else ""), solvers, opt_lazymax=lg, n=n, m=m, k=k, reg=reg, free=fr, log=lg))
CASES.append(Case("wda_unknown", wda_unknown))
for n, m, d, k, fr, its, gi, st, w, rg in ((2, 2, 2, 1, ["00"], 1, True, -1.0, True, "1"), (2, 2, 2, 1, [], 2, True, -1.0, True, "1/2"), (3, 2, 2, 1, [], 1, True, -1.0, False, "1/2"), (2, 3, 3, 2, [], 1, False, -1.0, False, "2"), (2, 2, 3, 2, ["00"], 1, True, -1.0, True, "1"), (2, 1, 2, 1, ["11"], 2, True, -1.0, True, "4")):
    CASES.append(Case("prw_%d%d%d%d_%d%s%s" % (n, m, d, k, its, "r" if not gi else "", "s" if st == "sym" else ""), prw, opt_lazymax=True, n=n, m=m, d=d, k=k, free=fr, its=its, given=gi, stop=st, wts=w, reg=rg))
for n, m, its, lay, rg in ((2, 3, 2, "flat", "1"), (3, 2, 2, "flat", "2"), (2, 2, 1, "line", "1"), (2, 2, 2, "line", "2")):
    CASES.append(Case("prw_%s_%d%d_%d" % (lay, n, m, its), prw, n=n, m=m, d=2, k=1, free=[], its=its, stop="sym", layout=lay, reg=rg))
for n, d, k, me, gi, its, fr, rg, sm, cr, lam in ((3, 2, 1, "BCD", False, 2, ("00", "p"), "1", "sinkhorn", ((0.5,), (0.25,)), "0"), (3, 3, 2, "BCD", True, 3, ("12",), "1/2", "sinkhorn_log", ((0.5, 1.5), (1.0, 1.25)), "0"), (4, 2, 1, "MM", False, 2, ("00", "p"), "2", "sinkhorn", ((0.0,), (1.0,)), "-1/4"),
                                           (3, 2, 1, "MM", True, 1, ("11",), "1", "other", (), "1/5"), (3, 3, 2, "MM", True, 2, ("00",), "1", "sinkhorn", (), "-1/4"), (3, 2, 1, "MM", False, 1, ("00",), "1", "sinkhorn", (), "1/6")):
    CASES.append(Case("ewca_%s%d%d%d_%d%s%s" % (me, n, d, k, its, "g" if gi else "", lam.replace("/", "")), ewca, n=n, d=d, k=k, method=me, given=gi, its=its, free=[f for f in fr], reg=rg, sm=sm, crit=cr, lam=lam))
CASES.append(Case("ewca_unknown", ewca_unknown))
