"""C29 domain adaptation transports: fitted couplings, barycentric and out-of-sample maps, label propagation."""
import inspect

from symx.worker import Case

BOUNDS = "2-3 source and 2-3 target points in dimension 1-2, several symbolic coupling entries, coordinates or labels patterns, batches of 1, 2 and 128 points"
STUBS = ["the solvers called by fit are decided by their own properties: here they are recorded with the arguments they receive (bound to their signatures) and return an arbitrary coupling"]
PTS = [["0", "1"], ["2", "-1"], ["-1", "1/2"]]
QTS = [["1", "1/2"], ["-1/2", "2"], ["3/2", "-2"]]


def tot(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return 0 if r is None else r


def coupling(ctx, n, m, free=("g00", "g11"), zero=None):
    V = [["1/8", "1/4", "1/16"], ["1/3", "1/5", "1/9"], ["1/7", "1/6", "1/10"]]
    G = [[ctx.num(V[i][j]) for j in range(m)] for i in range(n)]
    for s in free:
        i, j = int(s[1]), int(s[2])
        if i < n and j < m:
            G[i][j] = ctx.real(s, lo=0)
    if zero is not None:
        k, ax = zero
        for i in range(n):
            for j in range(m):
                if (i, j)[ax] == k:
                    G[i][j] = ctx.num(0)
    return ctx.pack(G)


def pts(ctx, T, n, d=2, free=(), pref="x"):
    X = [[ctx.num(z) for z in r[:d]] for r in T[:n]]
    for s in free:
        X[int(s[0])][int(s[1])] = ctx.real(pref + s, lo=-3, hi=3)
    return ctx.pack(X)


def ready(ctx, est, n, m, G=None, free=("g00", "g11"), zero=None):
    Xs, Xt = pts(ctx, PTS, n), pts(ctx, QTS, m)
    est._get_backend(Xs, None, Xt, None)
    est.xs_, est.xt_ = Xs, Xt
    est.coupling_ = coupling(ctx, n, m, free, zero) if G is None else G
    return Xs, Xt


def bary(ctx, G, Y, axis):
    """barycentric projection of the rows (axis 1) or the columns (axis 0), zero where there is no mass"""
    n, m, d = G.shape[0], G.shape[1], Y.shape[1]
    out = []
    for i in range(n if axis == 1 else m):
        w = [G[i, j] for j in range(m)] if axis == 1 else [G[k, i] for k in range(n)]
        t = tot(w)
        if ctx.test(t == 0):
            out.append([ctx.num(0)] * d)
        else:
            out.append([tot(w[k] * Y[k, c] for k in range(len(w))) / t for c in range(d)])
    return ctx.pack(out)


def sq(x, y):
    return tot((p - q) * (p - q) for p, q in zip(x, y))


def nearest(ctx, x, Z):
    k = 0
    for i in range(1, Z.shape[0]):
        if ctx.test(sq(x, Z[i]) < sq(x, Z[k])):
            k = i
    return k


MAPS = {"emd": lambda o: o.da.EMDTransport(), "sink": lambda o: o.da.SinkhornTransport(out_of_sample_map="ferradans"), "l1l2": lambda o: o.da.SinkhornL1l2Transport(), "uot": lambda o: o.da.UnbalancedSinkhornTransport()}


def in_sample(ctx, n, m, est="emd", inv=False, zero=None):
    e = MAPS[est](ctx.ot)
    Xs, Xt = ready(ctx, e, n, m, zero=zero)
    G = e.coupling_
    s = ctx.snapshot(G)
    if not inv:
        ctx.check("barycentric map", ctx.eq(e.transform(Xs=Xs), bary(ctx, G, Xt, 1)))
        ctx.check("same points, another array", ctx.eq(e.transform(Xs=ctx.snapshot(Xs)), bary(ctx, G, Xt, 1)))
    else:
        ctx.check("inverse barycentric map", ctx.eq(e.inverse_transform(Xt=Xt), bary(ctx, G, Xs, 0)))
    ctx.check("coupling kept", ctx.eq(G, s))


def out_sample(ctx, n, m, k, bs, est="emd", inv=False, zero=None):
    e = MAPS[est](ctx.ot)
    Xs, Xt = ready(ctx, e, n, m, free=("g01",), zero=zero)
    G = e.coupling_
    N = pts(ctx, [["1/3", "-2"], ["-3/2", "1/5"], ["5/2", "1/7"]], k, free=["00"] if k == 1 else ["%d0" % (k - 1)], pref="z")
    Z, B = (Xs, bary(ctx, G, Xt, 1)) if not inv else (Xt, bary(ctx, G, Xs, 0))
    out = e.transform(Xs=N, batch_size=bs) if not inv else e.inverse_transform(Xt=N, batch_size=bs)
    exp = []
    for i in range(k):
        j = nearest(ctx, N[i], Z)
        exp.append([B[j, c] + N[i, c] - Z[j, c] for c in range(2)])
    ctx.check("displacement of the nearest sample", ctx.eq(out, ctx.pack(exp)))


def labels(ctx, n, m, ys, inv=False, zero=None):
    e = ctx.ot.da.EMDTransport()
    ready(ctx, e, n, m, zero=zero)
    G = e.coupling_
    import numpy as np

    y = np.array(ys)
    c = sorted(set(ys))
    out = e.transform_labels(ys=y) if not inv else e.inverse_transform_labels(yt=y)
    k, l = (n, m) if not inv else (m, n)
    H = G if not inv else ctx.pack([[G[i, j] for i in range(n)] for j in range(m)])
    exp = []
    for j in range(l):
        t = tot(H[i, j] for i in range(k))
        if ctx.test(t == 0):
            exp.append([ctx.num(0)] * len(c))
        else:
            exp.append([tot(H[i, j] for i in range(k) if ys[i] == z) / t if any(ys[i] == z for i in range(k)) else ctx.num(0) for z in c])
    ctx.check("share of the mass of every class", ctx.eq(out, ctx.pack(exp)))
    ctx.check("labels kept", [bool((y == np.array(ys)).all())])


# ---------------------------------------------------------------- fit

def bind(f, z, k):
    b = inspect.signature(f).bind(*z, **k)
    b.apply_defaults()
    return dict(b.arguments, **b.arguments.get("kwargs", {}))


def record(ctx, mod, name, ret, calls):
    orig = getattr(mod, name)

    def f(*z, **k):
        d = bind(orig, z, k)
        calls.append((name, d))
        return ret(d)

    ctx.patch(mod, name, f)


def dist_est(ctx, X):
    n = X.shape[0]
    return ctx.pack([ctx.num("%d/%d" % (2 * i + 1, n * n)) for i in range(n)])


EST = {
    "emd": ("EMDTransport", "emd", dict(max_iter=77), dict(numItermax=77)),
    "sink": ("SinkhornTransport", "sinkhorn", dict(reg_e=0.75, method="sinkhorn", max_iter=33, tol=1e-3, out_of_sample_map="ferradans"), dict(reg=0.75, method="sinkhorn", numItermax=33, stopThr=1e-3)),
    "sinkc": ("SinkhornTransport", "sinkhorn", dict(reg_e=0.75, max_iter=33, tol=1e-3), dict(reg=0.75, method="sinkhorn_log", numItermax=33, stopThr=1e-3)),
    "lpl1": ("SinkhornLpl1Transport", "sinkhorn_lpl1_mm", dict(reg_e=0.75, reg_cl=0.3, max_iter=5, max_inner_iter=44, tol=1e-3), dict(reg=0.75, eta=0.3, numItermax=5, numInnerItermax=44, stopInnerThr=1e-3)),
    "l1l2": ("SinkhornL1l2Transport", "sinkhorn_l1l2_gl", dict(reg_e=0.75, reg_cl=0.3, max_iter=5, max_inner_iter=44, tol=1e-3), dict(reg=0.75, eta=0.3, numItermax=5, numInnerItermax=44, stopInnerThr=1e-3)),
    "lap": ("EMDLaplaceTransport", "emd_laplace", dict(reg_type="disp", reg_lap=0.4, reg_src=0.2, similarity="gauss", similarity_param=2, max_iter=6, tol=1e-3, max_inner_iter=55, inner_tol=1e-4), dict(reg="disp", eta=0.4, alpha=0.2, sim="gauss", sim_param=2, numItermax=6, stopThr=1e-3, numInnerItermax=55, stopInnerThr=1e-4)),
    "uot": ("UnbalancedSinkhornTransport", "sinkhorn_unbalanced", dict(reg_e=0.75, reg_m=0.6, method="sinkhorn_stabilized", max_iter=21, tol=1e-3), dict(reg=0.75, reg_m=0.6, method="sinkhorn_stabilized", numItermax=21, stopThr=1e-3)),
}
METRIC = {"sqeuclidean": lambda p, q: sq(p, q), "cityblock": lambda p, q: tot(abs(x - y) for x, y in zip(p, q))}


def fit(ctx, est, n=2, m=3, metric="sqeuclidean", norm=None, log=False, de=True, ys=None, yt=None, twice=False):
    import numpy as np

    cls, fn, kw, want = EST[est]
    da = ctx.ot.da
    calls = []
    G = coupling(ctx, n, m, ("g00",))
    lg = {"log_u": ctx.arr(["1/2"] * n), "log_v": ctx.arr(["1/3"] * m), "k": 1}
    record(ctx, da, fn, lambda d: (G, lg) if d["log"] else G, calls)
    k = dict(kw, metric=metric, norm=norm, log=log)
    if de:
        k["distribution_estimation"] = lambda X: dist_est(ctx, X)
    e = getattr(da, cls)(**k)
    Xs, Xt = pts(ctx, PTS, n, free=["00"]), pts(ctx, QTS, m, free=["11"] if norm != "max" else [], pref="y")
    sx, sy = ctx.snapshot(Xs), ctx.snapshot(Xt)
    Y = {}
    if ys is not None or est in ("lpl1", "l1l2"):
        Y["ys"] = np.array(ys if ys is not None else [0, 1, 0][:n])
    if yt is not None:
        Y["yt"] = np.array(yt)
    r = e.fit(Xs=Xs, Xt=Xt, **Y)
    if twice:
        r = e.fit(Xs=Xs, Xt=Xt, **Y)
    ctx.check("one solver call", [len(calls) == 1 + twice])
    ctx.check("returns itself", [r is e])
    d = calls[-1][1]
    f = METRIC[metric]
    C = ctx.pack([[f(Xs[i], Xt[j]) for j in range(m)] for i in range(n)])
    if norm == "max":
        C = C / ctx.val(ctx.np.max(C))
    elif norm == "log":
        C = ctx.log(C + 1)
    ctx.check("cost given to the solver", ctx.eq(d["M"], C))
    ctx.check("cost kept", ctx.eq(e.cost_, C))
    a = dist_est(ctx, Xs) if de else ctx.pack([ctx.num(1) / n] * n)
    b = dist_est(ctx, Xt) if de else ctx.pack([ctx.num(1) / m] * m)
    ctx.check("weights given to the solver", [ctx.eq(d["a"], a), ctx.eq(d["b"], b)])
    ctx.check("weights kept", [ctx.eq(e.mu_s, a), ctx.eq(e.mu_t, b)])
    for x, y in want.items():
        ctx.check("option %s given to the solver" % x, [d[x] == y])
    if est in ("lpl1", "l1l2"):
        ctx.check("labels given to the solver", [bool((np.array(d["labels_a"]) == Y["ys"]).all())])
    if est == "lap":
        ctx.check("samples given to the solver", [ctx.eq(d["xs"], Xs), ctx.eq(d["xt"], Xt)])
    ctx.check("coupling kept", ctx.eq(e.coupling_, G))
    ctx.check("samples kept", [ctx.eq(e.xs_, sx), ctx.eq(e.xt_, sy), ctx.eq(Xs, sx), ctx.eq(Xt, sy)])
    ctx.check("log kept", [(e.log_ == {}) if not d["log"] else e.log_ is lg, d["log"] or not log])
    ctx.check("fit_transform", ctx.eq(getattr(da, cls)(**k).fit_transform(Xs=Xs, Xt=Xt, **Y), e.transform(Xs=Xs)))
    if ys is not None or yt is not None:
        for x, y in (("ys", ys), ("yt", yt)):
            if y is not None:
                ctx.check("labels kept", [bool((Y[x] == np.array(y)).all())])


def semi(ctx, est, limit, ys, yt):
    """semi-supervised fit: pairs of different known classes cost the limit"""
    import numpy as np

    cls, fn, kw, want = EST[est]
    calls = []
    n, m = len(ys), len(yt)
    G = coupling(ctx, n, m, ())
    record(ctx, ctx.ot.da, fn, lambda d: (G, {}) if d["log"] else G, calls)
    e = getattr(ctx.ot.da, cls)(**dict(kw, limit_max=limit))
    Xs, Xt = pts(ctx, PTS, n, free=["00"]), pts(ctx, QTS, m)
    e.fit(Xs=Xs, ys=np.array(ys), Xt=Xt, yt=np.array(yt))
    M = calls[0][1]["M"]
    C = ctx.pack([[sq(Xs[i], Xt[j]) for j in range(m)] for i in range(n)])
    top = ctx.val(ctx.np.max(C))
    same, diff = [], []
    for i in range(n):
        for j in range(m):
            if -1 in (ys[i], yt[j]) or ys[i] == yt[j]:
                same.append(ctx.eq(M[i, j], C[i, j]))
            else:
                diff.append(ctx.le(limit * top, M[i, j]))
    if same:
        ctx.check("other costs unchanged", same)
    if diff:
        ctx.check("different classes cost the limit", diff)


# ---------------------------------------------------------------- continuous Sinkhorn map

def continuous(ctx, n, m, k, bs, inv=False, norm=None):
    reg = ctx.real("reg", lo="1/2", hi=4)
    da = ctx.ot.da
    G = coupling(ctx, n, m, ())
    lu = ctx.pack([ctx.num(0)] + [ctx.real("u%d" % i) for i in range(1, n)])
    lv = ctx.pack([ctx.num(0)] + [ctx.real("v%d" % i) for i in range(1, m)])
    calls = []
    record(ctx, da, "sinkhorn", lambda d: (G, {"log_u": lu, "log_v": lv}) if d["log"] else G, calls)
    e = da.SinkhornTransport(reg_e=reg, norm=norm)
    Xs, Xt = pts(ctx, PTS, n), pts(ctx, QTS, m)
    e.fit(Xs=Xs, Xt=Xt)
    N = pts(ctx, [["1/3", "-2"], ["-3/2", "1/5"], ["5/2", "1/7"]], k)
    Z, p = (Xt, lv) if not inv else (Xs, lu)
    out = e.transform(Xs=N, batch_size=bs) if not inv else e.inverse_transform(Xt=N, batch_size=bs)
    c = ctx.num(1)
    if norm == "max":
        c = max(sq(Xs[i], Xt[j]) for i in range(n) for j in range(m))
    exp = []
    for i in range(k):
        w = [ctx.exp(p[j] - sq(N[i], Z[j]) / c / reg) for j in range(Z.shape[0])]
        exp.append([tot(w[j] * Z[j, q] for j in range(len(w))) / tot(w) for q in range(2)])
    ctx.check("entropic map", ctx.eq(out, ctx.pack(exp)))


def continuous_fit(ctx, it, n=2, m=2):
    """after Sinkhorn iterations the continuous map extends the barycentric projection of the plan"""
    e = ctx.ot.da.SinkhornTransport(reg_e=1.0, max_iter=it, tol=-1.0)
    K = [[ctx.real("k00", lo="1/4", hi=4), ctx.num("1/2")], [ctx.num("3/4"), ctx.num(2)]]
    C = ctx.pack([[-ctx.log(K[i][j]) for j in range(m)] for i in range(n)])
    ctx.patch(ctx.ot.da, "dist", lambda x, y, metric=None, **k: C)
    Xt = pts(ctx, QTS, m)
    Xs = pts(ctx, PTS, n)
    e.fit(Xs=Xs, Xt=Xt)
    ctx.check("extends the plan", ctx.eq(e.transform(Xs=Xs), bary(ctx, e.coupling_, Xt, 1)))


# ---------------------------------------------------------------- linear transports

def linear(ctx, d, log=False, bias=True):
    da = ctx.ot.da
    if d == 1:
        A = ctx.pack([[ctx.real("s", lo="1/4", hi=4)]])
    else:
        A = ctx.pack([[ctx.real("s", lo="1/4", hi=4), ctx.num("1/3")], [ctx.num("-1/2"), ctx.num(2)]])
    B = ctx.pack([[ctx.real("t%d" % i) for i in range(d)]])
    calls = []
    record(ctx, da, "empirical_bures_wasserstein_mapping", lambda q: (A, B, {"l": 1}) if q["log"] else (A, B), calls)
    e = da.LinearTransport(reg=0.25, bias=bias, log=log, distribution_estimation=lambda X: dist_est(ctx, X))
    Xs, Xt = pts(ctx, PTS, 3, d), pts(ctx, QTS, 2, d)
    e.fit(Xs=Xs, Xt=Xt)
    q = calls[0][1]
    ctx.check("samples", [ctx.eq(q["xs"], Xs), ctx.eq(q["xt"], Xt)])
    ctx.check("weights", [ctx.eq(q["ws"], ctx.np.reshape(dist_est(ctx, Xs), (3, 1))), ctx.eq(q["wt"], ctx.np.reshape(dist_est(ctx, Xt), (2, 1)))])
    ctx.check("options", [q["reg"] == 0.25, q["bias"] == bias])
    ctx.check("log kept", [e.log_ == ({"l": 1} if log else {})])
    N = pts(ctx, [["1/3", "-2"], ["-3/2", "1/5"]], 2, d, free=["00"], pref="z")
    T = e.transform(Xs=N)
    ctx.check("affine map", ctx.eq(T, ctx.pack([[tot(N[i, k] * A[k, c] for k in range(d)) + B[0, c] for c in range(d)] for i in range(2)])))
    ctx.check("inverse map", ctx.eq(e.inverse_transform(Xt=T), N))
    ctx.check("map of the inverse", ctx.eq(e.transform(Xs=e.inverse_transform(Xt=N)), N))


def linear_gw(ctx, log=False, signs=None):
    da = ctx.ot.da
    A = [ctx.pack([[ctx.real("s%d" % k), ctx.num("1/3")], [ctx.num("-1/2"), ctx.num(2)]]) for k in range(2)]
    B = [ctx.pack([[ctx.real("t%d" % k), ctx.num(1)]]) for k in range(2)]
    calls = []
    record(ctx, da, "empirical_gaussian_gromov_wasserstein_mapping", lambda q: (A[len(calls) - 1], B[len(calls) - 1], {"l": len(calls)})[:3 if q["log"] else 2], calls)
    e = da.LinearGWTransport(log=log, sign_eigs=signs, distribution_estimation=lambda X: dist_est(ctx, X))
    Xs, Xt = pts(ctx, PTS, 3), pts(ctx, QTS, 2)
    e.fit(Xs=Xs, Xt=Xt)
    for k, (x, y) in enumerate(((Xs, Xt), (Xt, Xs))):
        q = calls[k][1]
        ctx.check("samples", [ctx.eq(q["xs"], x), ctx.eq(q["xt"], y)])
        ctx.check("weights", [ctx.eq(q["ws"][:, 0], dist_est(ctx, x)), ctx.eq(q["wt"][:, 0], dist_est(ctx, y))])
        ctx.check("signs", [q["sign_eigs"] is signs])
        T = e.transform(Xs=x) if k == 0 else e.inverse_transform(Xt=x)
        ctx.check("affine map", ctx.eq(T, ctx.pack([[tot(x[i, l] * A[k][l, c] for l in range(2)) + B[k][0, c] for c in range(2)] for i in range(x.shape[0])])))


# ---------------------------------------------------------------- class regularised solvers

def lpl1(ctx, its, ys, m=2, log=False, part="cost"):
    """majorisation-minimisation of the group lasso penalty"""
    import numpy as np

    da = ctx.ot.da
    n = len(ys)
    plans = []
    for t in range(its):
        V = [["1/8", "1/4", "1/16"], ["1/3", "1/5", "1/9"], ["1/7", "1/6", "1/10"]]
        P = [[ctx.num(V[(i + t) % 3][j]) for j in range(m)] for i in range(n)]
        P[0][t % m] = ctx.real("p%d" % t, lo=0, hi=1)
        plans.append(ctx.pack(P))
    calls = []
    record(ctx, da, "sinkhorn", lambda d: (plans[len(calls) - 1], {"it": len(calls)}) if d["log"] else plans[len(calls) - 1], calls)
    M = ctx.pack([[ctx.real("m%d%d" % (i, j)) if (i, j) == (0, 0) else ctx.num(i + 2 * j) for j in range(m)] for i in range(n)])
    a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    eta = ctx.real("eta", lo=0, hi=3)
    s = ctx.snapshot(M)
    out = da.sinkhorn_lpl1_mm(a, np.array(ys), b, M, 0.5, eta=eta, numItermax=its, numInnerItermax=17, stopInnerThr=1e-3, log=log)
    if log:
        ctx.check("log of the last problem", [out[1].get("it") == its])
        out = out[0]
    ctx.check("number of steps", [len(calls) == its])
    ctx.check("last plan", ctx.eq(out, plans[-1]))
    eps = 1e-3
    for t in range(its):
        d = calls[t][1]
        ctx.check("weights and options", [ctx.eq(d["a"], a), ctx.eq(d["b"], b), d["reg"] == 0.5, d["numItermax"] == 17, d["stopThr"] == 1e-3])
        if t == 0:
            exp = M
        else:
            P = plans[t - 1]
            exp = ctx.pack([[M[i, j] + eta * ctx.num("1/2") / ctx.sqrt(tot(P[k, j] for k in range(n) if ys[k] == ys[i]) + eps) for j in range(m)] for i in range(n)])
        ctx.check("cost is the tangent of the penalty", ctx.eq(d["M"], exp))
    ctx.check("input kept", ctx.eq(M, s))


def l1l2(ctx, ys, m=2, what="grad"):
    import numpy as np

    da = ctx.ot.da
    n = len(ys)
    calls = []
    G = coupling(ctx, n, m, ())
    record(ctx, da, "gcg", lambda d: (G, {"l": 1}) if d["log"] else G, calls)
    M = ctx.arr([[str(i + 2 * j) for j in range(m)] for i in range(n)])
    a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    out = da.sinkhorn_l1l2_gl(a, np.array(ys), b, M, 0.5, eta=0.3, numItermax=9, numInnerItermax=17, stopInnerThr=1e-3)
    d = calls[0][1]
    ctx.check("plan", ctx.eq(out, G))
    ctx.check("problem", [ctx.eq(d["a"], a), ctx.eq(d["b"], b), ctx.eq(d["M"], M), d["reg1"] == 0.5, d["reg2"] == 0.3, d["numItermax"] == 9, d["numInnerItermax"] == 17, d["stopThr"] == 1e-3])
    V = [["1/8", "1/4", "1/16"], ["1/3", "1/5", "1/9"], ["1/7", "1/6", "1/10"]]
    P = [[ctx.num(V[i][j]) for j in range(m)] for i in range(n)]
    P[0][0], P[1][1] = ctx.real("p0", lo="1/20", hi=1), ctx.real("p1", lo="1/20", hi=1)
    P = ctx.pack(P)
    cl = sorted(set(ys))
    nrm = lambda c, j: ctx.sqrt(tot(P[i, j] * P[i, j] for i in range(n) if ys[i] == c))
    ctx.check("penalty", ctx.eq(d["f"](P), tot(nrm(c, j) for c in cl for j in range(m))))
    ctx.check("gradient", ctx.eq(d["df"](P), ctx.pack([[P[i, j] / nrm(ys[i], j) for j in range(m)] for i in range(n)])))


def laplace(ctx, n, m, sim, reg="pos", d=1, what="grad"):
    da = ctx.ot.da
    calls = []
    G0 = coupling(ctx, n, m, ())
    record(ctx, da, "cg", lambda q: (G0, {}) if q["log"] else G0, calls)
    xs, xt = pts(ctx, PTS, n, d, free=["00"]), pts(ctx, QTS, m, d, free=["10"], pref="y")
    W = {}
    if sim == "knn":
        import sklearn.neighbors as SN
        import numpy as np

        def graph(X, n_neighbors=None, **k):
            kk = X.shape[0]
            W.setdefault("k", []).append(n_neighbors)
            A = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]], dtype=float)[:kk, :kk]

            class R:
                def toarray(self):
                    return A

            return R()

        ctx.patch(SN, "kneighbors_graph", graph)
        A = [[0, 1, 0], [0, 0, 1], [1, 0, 0]]
        S = lambda X: [[ctx.num("%d/2" % (A[i][j] + A[j][i])) for j in range(X.shape[0])] for i in range(X.shape[0])]
        sp = 2
    else:
        sp = 2
        S = lambda X: [[ctx.exp(-sq(X[i], X[j]) / (2 * sp * sp)) for j in range(X.shape[0])] for i in range(X.shape[0])]
    M = ctx.arr([[str(i + 2 * j) for j in range(m)] for i in range(n)])
    a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    s = ctx.snapshot(M)
    al, eta = "1/4", 0.5
    out = da.emd_laplace(a, b, xs, xt, M, sim=sim, sim_param=sp, reg=reg, eta=eta, alpha=0.25, numItermax=9, stopThr=1e-3, numInnerItermax=17, stopInnerThr=1e-4)
    q = calls[0][1]
    al = ctx.num(al)
    ctx.check("plan", ctx.eq(out, G0))
    ctx.check("cost kept", ctx.eq(M, s))
    ctx.check("problem", [ctx.eq(q["a"], a), ctx.eq(q["b"], b), q["reg"] == eta, q["numItermax"] == 9, q["numItermaxEmd"] == 17, q["stopThr"] == 1e-3, q["stopThr2"] == 1e-4])
    if sim == "knn":
        ctx.check("neighbours", [W["k"] == [sp, sp]])
    P = [[ctx.num(z) for z in r[:m]] for r in [["1/8", "1/4", "1/16"], ["1/3", "1/5", "1/9"], ["1/7", "1/6", "1/10"]][:n]]
    P[0][0], P[1][1] = ctx.real("p0", lo=0, hi=1), ctx.real("p1", lo=0, hi=1)
    P = ctx.pack(P)
    Ss, St = S(xs), S(xt)

    def omega(G, disp):
        """half the weighted squared differences of the (displaced) barycentric images"""
        T = [[tot(G[i, j] * xt[j, c] for j in range(m)) - (xs[i, c] / n if disp else 0) for c in range(d)] for i in range(n)]
        U = [[tot(G[i, j] * xs[i, c] for i in range(n)) - (xt[j, c] / m if disp else 0) for c in range(d)] for j in range(m)]
        o = lambda Z, S: tot(S[i][k] * sq(Z[i], Z[k]) for i in range(len(Z)) for k in range(len(Z))) / 2
        return al * o(T, Ss) + (1 - al) * o(U, St)

    if reg == "pos":
        ctx.check("cost", ctx.eq(q["M"], M))
        ctx.check("penalty", ctx.eq(q["f"](P), omega(P, False)))
    else:
        Z = ctx.pack([[ctx.num(0)] * m for _ in range(n)])
        lin = tot((q["M"][i, j] - M[i, j]) * P[i, j] for i in range(n) for j in range(m))
        ctx.check("penalty of the displacements", ctx.eq(eta * ctx.val(ctx.pack([q["f"](P)])) + lin, eta * (omega(P, True) - omega(Z, True))))
    g = q["df"](P)
    gs = [g[0, 0], g[1, 1]]
    ctx.check_grad("gradient", q["f"], [P[0, 0], P[1, 1]], gs, val=q["f"](P)) if ctx.sym else None
    if not ctx.sym:
        fd = []
        for i, j in ((0, 0), (1, 1)):
            h = 1e-6
            E = ctx.np.zeros((n, m))
            E[i, j] = h
            fd.append((q["f"](P + E) - q["f"](P - E)) / (2 * h))
        ctx.check("gradient", [abs(x - y) < 1e-5 * (1 + abs(y)) for x, y in zip(fd, gs)])


# ---------------------------------------------------------------- multi-source

def jc_ready(ctx, log, ret=None):
    import numpy as np

    da = ctx.ot.da
    Xs = [pts(ctx, PTS, 2, free=["00"]), pts(ctx, PTS[::-1], 3)]
    Xt = pts(ctx, QTS, 2)
    ys = [np.array([0, 1]), np.array([1, 0, 1])]
    G = [coupling(ctx, 2, 2, ("g00",)), coupling(ctx, 3, 2, ())]
    D1 = [ctx.arr([["1", "0"], ["0", "1"]]), ctx.arr([["0", "1", "0"], ["1", "0", "1"]])]
    h = ctx.arr(["1/4", "3/4"])
    calls = []
    record(ctx, da, "jcpot_barycenter", lambda d: (h, {"gamma": G, "D1": D1}) if d["log"] else h, calls)
    e = da.JCPOTTransport(reg_e=0.75, max_iter=44, tol=1e-3, log=log)
    e.fit(Xs=Xs, ys=ys, Xt=Xt)
    return e, Xs, ys, Xt, G, h, calls


def jc_fit(ctx, log):
    e, Xs, ys, Xt, G, h, calls = jc_ready(ctx, log)
    d = calls[0][1]
    ctx.check("problem", [ctx.eq(x, y) for x, y in zip(d["Xs"], Xs)] + [ctx.eq(d["Xt"], Xt), d["reg"] == 0.75, d["metric"] == "sqeuclidean", d["stopThr"] == 1e-3])
    ctx.check("iteration limit", [d["numItermax"] == 44])
    ctx.check("couplings", [ctx.eq(x, y) for x, y in zip(e.coupling_, G)])
    ctx.check("proportions", ctx.eq(e.proportions_, h))


def jc_map(ctx, log, what):
    import numpy as np

    e, Xs, ys, Xt, G, h, calls = jc_ready(ctx, log)
    if what == "in":
        out = e.transform(Xs=Xs)
        ctx.check("barycentric maps", [len(out) == 2] + [ctx.eq(o, bary(ctx, g, Xt, 1)) for o, g in zip(out, G)])
    elif what.startswith("out"):
        N = pts(ctx, [["1/3", "-2"], ["-3/2", "1/5"], ["5/2", "1/7"]], 3, free=["20"], pref="z")
        out = e.transform(Xs=N, batch_size=int(what[3:]))
        Z = ctx.pack([list(r) for X in Xs for r in X])
        B = ctx.pack([list(r) for g in G for r in bary(ctx, g, Xt, 1)])
        exp = []
        for i in range(3):
            j = nearest(ctx, N[i], Z)
            exp.append([B[j, c] + N[i, c] - Z[j, c] for c in range(2)])
        ctx.check("displacement of the nearest sample of any domain", ctx.eq(out, ctx.pack(exp)))
    elif what == "labels":
        out = e.transform_labels(ys)
        exp = [[0, 0], [0, 0]]
        for g, y in zip(G, ys):
            for i in range(g.shape[0]):
                t = tot(g[i, j] for j in range(2))
                for j in range(2):
                    exp[j][y[i]] = exp[j][y[i]] + g[i, j] / t / 2
        ctx.check("votes of the source classes", ctx.eq(out, ctx.pack(exp)))
    else:
        out = e.inverse_transform_labels(np.array([4, 3]))
        for o, g in zip(out, G):
            ctx.check("votes of the target classes", ctx.eq(o, ctx.pack([[g[i, j] / tot(g[i, k] for k in range(2)) for j in (1, 0)] for i in range(g.shape[0])])))


def refit(ctx, est):
    """a transport fitted again (other samples, other sizes) forgets its first fit"""
    import numpy as np

    da = ctx.ot.da
    sizes = [(2, 3), (3, 2)]
    if est == "linear":
        As = [ctx.arr([["2", "1/3"], ["-1/2", "1"]]), ctx.pack([[ctx.real("s", lo=1, hi=4), ctx.num("1/4")], [ctx.num("1/2"), ctx.num(3)]])]
        Bs = [ctx.arr([["1", "2"]]), ctx.pack([[ctx.real("t"), ctx.num("1/5")]])]
        calls = []
        record(ctx, da, "empirical_bures_wasserstein_mapping", lambda q: (As[len(calls) - 1], Bs[len(calls) - 1], {"l": len(calls)})[:3 if q["log"] else 2], calls)
        e = da.LinearTransport()
    elif est == "jcpot":
        Gs = [[coupling(ctx, 2, 2, ()), coupling(ctx, 3, 2, ())], [coupling(ctx, 3, 3, ("g00",)), coupling(ctx, 2, 3, ())]]
        calls = []
        record(ctx, da, "jcpot_barycenter", lambda d: (ctx.arr(["1/4", "3/4"]), {"gamma": Gs[len(calls) - 1]}), calls)
        e = da.JCPOTTransport()
    else:
        cls, fn, kw, want = EST[est]
        Gs = [coupling(ctx, 2, 3, ()), coupling(ctx, 3, 2, ("g00",))]
        ls = [{"log_u": ctx.arr(["1/2", "-1", "3/2"][:n]), "log_v": ctx.arr(["1/3", "1", "-1/2"][:m])} for n, m in sizes]
        calls = []
        record(ctx, da, fn, lambda d: (Gs[len(calls) - 1], ls[len(calls) - 1]) if d["log"] else Gs[len(calls) - 1], calls)
        e = getattr(da, cls)(**kw)
    N = pts(ctx, [["1/3", "-2"], ["-3/2", "1/5"]], 2)
    for t in (0, 1):
        n, m = sizes[t]
        P, Q = (PTS, QTS) if t == 0 else (QTS, PTS)
        Xs, Xt = pts(ctx, P, n), pts(ctx, Q, m)
        if est == "jcpot":
            Xs = [pts(ctx, P, 2 + t), pts(ctx, P[::-1], 3 - t)]
            Xt = pts(ctx, Q, 2 + t)
            e.fit(Xs=Xs, ys=[np.array([0, 1, 0][:2 + t]), np.array([1, 0, 1][:3 - t])], Xt=Xt)
            ins = e.transform(Xs=Xs)
            out = e.transform(Xs=N)
            lab = e.inverse_transform_labels(np.array([0, 1, 1][:2 + t]))
            if t == 0:
                continue
            ctx.check("samples of the last fit", [ctx.eq(o, bary(ctx, g, Xt, 1)) for o, g in zip(ins, Gs[1])])
            Z = ctx.pack([list(r) for X in Xs for r in X])
            B = ctx.pack([list(r) for g in Gs[1] for r in bary(ctx, g, Xt, 1)])
            js = [nearest(ctx, N[i], Z) for i in range(2)]
            ctx.check("new samples", ctx.eq(out, ctx.pack([[B[j, c] + N[i, c] - Z[j, c] for c in range(2)] for i, j in enumerate(js)])))
            ctx.check("labels", [ctx.eq(o, ctx.pack([[g[i, 0] / tot(g[i, k] for k in range(3)), (g[i, 1] + g[i, 2]) / tot(g[i, k] for k in range(3))] for i in range(g.shape[0])])) for o, g in zip(lab, Gs[1])])
            continue
        e.fit(Xs=Xs, Xt=Xt)
        ins, inv = e.transform(Xs=Xs), e.inverse_transform(Xt=Xt)
        out, oinv = e.transform(Xs=N), e.inverse_transform(Xt=N)
        if est == "linear":
            if t:
                A, B = As[1], Bs[1]
                f = lambda X: ctx.pack([[tot(X[i, k] * A[k, c] for k in range(2)) + B[0, c] for c in range(2)] for i in range(X.shape[0])])
                ctx.check("samples of the last fit", ctx.eq(ins, f(Xs)))
                ctx.check("new samples", ctx.eq(out, f(N)))
                ctx.check("inverse map", [ctx.eq(f(inv), Xt), ctx.eq(f(oinv), N)])
            continue
        yl = e.transform_labels(ys=np.array([0, 1, 1][:n]))
        yi = e.inverse_transform_labels(yt=np.array([0, 1, 1][:m]))
        if t == 0:
            continue
        G = Gs[1]
        if est == "sinkc":
            for o, X, Z, p in ((ins, Xs, Xt, ls[1]["log_v"]), (out, N, Xt, ls[1]["log_v"]), (inv, Xt, Xs, ls[1]["log_u"]), (oinv, N, Xs, ls[1]["log_u"])):
                W = [[ctx.exp(p[j] - sq(X[i], Z[j]) / ctx.num("3/4")) for j in range(Z.shape[0])] for i in range(X.shape[0])]
                ctx.check("entropic map of the last fit", ctx.eq(o, ctx.pack([[tot(w[j] * Z[j, q] for j in range(len(w))) / tot(w) for q in range(2)] for w in W])))
        else:
            for o, q, X, Z, ax, nm in ((ins, out, Xs, Xt, 1, "source"), (inv, oinv, Xt, Xs, 0, "target")):
                B = bary(ctx, G, Z, ax)
                ctx.check("%s samples of the last fit" % nm, ctx.eq(o, B))
                js = [nearest(ctx, N[i], X) for i in range(2)]
                ctx.check("new %s samples" % nm, ctx.eq(q, ctx.pack([[B[j, c] + N[i, c] - X[j, c] for c in range(2)] for i, j in enumerate(js)])))
        ctx.check("labels", [ctx.eq(yl, ctx.pack([[G[0, j] / tot(G[i, j] for i in range(n)), (G[1, j] + G[2, j]) / tot(G[i, j] for i in range(n))] for j in range(m)])),
                             ctx.eq(yi, ctx.pack([[G[i, 0] / tot(G[i, j] for j in range(m)), G[i, 1] / tot(G[i, j] for j in range(m))] for i in range(n)]))])


CASES = []
CASES += [Case("refit_%s" % e, refit, est=e) for e in ("emd", "sink", "sinkc", "uot", "lap", "linear", "jcpot")]
for n, m in ((1, 2), (2, 2), (2, 3), (3, 2)):
    for inv in (False, True):
        CASES.append(Case("in_%d%d%s" % (n, m, "_inv" * inv), in_sample, n=n, m=m, inv=inv))
for est in ("sink", "l1l2", "uot"):
    CASES.append(Case("in_%s" % est, in_sample, n=2, m=2, est=est))
    CASES.append(Case("in_%s_inv" % est, in_sample, n=2, m=2, est=est, inv=True))
CASES += [Case("in_zero_row", in_sample, n=2, m=2, zero=(1, 0)), Case("in_zero_col", in_sample, n=2, m=2, zero=(0, 1), inv=True)]
for k, bs in ((1, 128), (2, 1), (3, 2), (3, 128), (2, 2)):
    for inv in (False, True):
        CASES.append(Case("out_%d_%d%s" % (k, bs, "_inv" * inv), out_sample, n=2 + inv, m=3 - inv, k=k, bs=bs, inv=inv))
CASES += [Case("out_sink", out_sample, n=2, m=2, k=3, bs=2, est="sink"), Case("out_sink_inv", out_sample, n=2, m=2, k=3, bs=2, est="sink", inv=True), Case("out_zero", out_sample, n=2, m=2, k=2, bs=1, zero=(0, 0))]
for nm, ys in (("01", [0, 1]), ("12", [1, 2]), ("neg", [-1, 1]), ("one", [3, 3]), ("gap", [0, 2]), ("three", [2, 0, 1]), ("two", [1, 0, 1])):
    for inv in (False, True):
        n, m = (len(ys), 2) if not inv else (2, len(ys))
        CASES.append(Case("labels_%s%s" % (nm, "_inv" * inv), labels, n=n, m=m, ys=ys, inv=inv))
CASES += [Case("labels_zero", labels, n=2, m=2, ys=[0, 1], zero=(1, 1)), Case("labels_zero_inv", labels, n=2, m=2, ys=[0, 1], inv=True, zero=(1, 0))]
for est in EST:
    CASES.append(Case("fit_%s" % est, fit, est=est))
    CASES.append(Case("fit_%s_unif" % est, fit, est=est, de=False, log=True))
CASES += [Case("fit_city", fit, est="emd", metric="cityblock"), Case("fit_max", fit, est="sink", norm="max"), Case("fit_log", fit, est="uot", norm="log"), Case("fit_twice", fit, est="emd", twice=True)]
CASES += [Case("fit_ys_%s" % e, fit, est=e, ys=[0, 1]) for e in ("emd", "sink", "uot", "lap")]
for est in ("emd", "l1l2", "uot", "lap"):
    CASES.append(Case("fit_unlabelled_%s" % est, fit, est=est, ys=[0, 1], yt=[-1, -1, -1]))
CASES.append(Case("semi_same", semi, est="emd", limit=10, ys=[0, 0], yt=[0, -1], opt_lazymax=True))
CASES.append(Case("semi_diff", semi, est="emd", limit=10, ys=[0, 1], yt=[0, 1], opt_lazymax=True))
for k, bs in ((1, 128), (2, 1), (3, 2)):
    for inv in (False, True):
        CASES.append(Case("cont_%d_%d%s" % (k, bs, "_inv" * inv), continuous, n=2 + inv, m=3 - inv, k=k, bs=bs, inv=inv))
CASES += [Case("cont_max", continuous, n=2, m=2, k=2, bs=128, norm="max"), Case("cont_max_inv", continuous, n=2, m=2, k=2, bs=128, norm="max", inv=True)]
for it in (1, 2):
    CASES.append(Case("cont_fit_%d" % it, continuous_fit, it=it, opt_lazymax=True))
CASES += [Case("lin_1", linear, d=1), Case("lin_2", linear, d=2), Case("lin_2_log", linear, d=2, log=True, bias=False), Case("lingw", linear_gw), Case("lingw_log", linear_gw, log=True, signs="skewness")]
for its in (1, 2, 3):
    CASES.append(Case("lpl1_%d" % its, lpl1, its=its, ys=[0, 1, 0]))
CASES += [Case("lpl1_log", lpl1, its=2, ys=[1, 5], m=3, log=True), Case("lpl1_one", lpl1, its=2, ys=[2, 2]), Case("lpl1_unsorted", lpl1, its=2, ys=[7, 3, 7])]
for nm, ys in (("010", [0, 1, 0]), ("01", [0, 1]), ("11", [4, 4]), ("201", [2, 0, 1])):
    CASES.append(Case("l1l2_%s" % nm, l1l2, ys=ys))
CASES.append(Case("l1l2_m3", l1l2, ys=[1, 0], m=3))
for reg in ("pos", "disp"):
    CASES += [Case("lap_knn_%s" % reg, laplace, n=3, m=3, sim="knn", reg=reg), Case("lap_knn2_%s" % reg, laplace, n=3, m=2, sim="knn", reg=reg, d=2), Case("lap_gauss_%s" % reg, laplace, n=2, m=2, sim="gauss", reg=reg), Case("lap_gauss32_%s" % reg, laplace, n=3, m=2, sim="gauss", reg=reg)]
for lg in (False, True):
    CASES.append(Case("jc_fit%s" % ("_log" * lg), jc_fit, log=lg))
    for w in ("in", "out1", "out2", "out128", "labels", "invlabels"):
        CASES.append(Case("jc_%s%s" % (w, "_log" * lg), jc_map, log=lg, what=w))
