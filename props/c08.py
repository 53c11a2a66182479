"""C08 other balanced entropic solvers: greedy, screened, low-rank kernel, on samples."""
from symx.worker import Case
from props.c07 import INF, reference


def setup_k(ctx, n, m, ab="c"):
    """cost given through its Gibbs kernel: M = -reg*log(K), K free positive"""
    K = ctx.mat("K", n, m, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((K > 1e-9).all()))
    M = -ctx.np.log(K)
    if ab == "c":
        a = ctx.arr({2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"]}[n])
        b = ctx.arr({2: ["2/5", "3/5"], 3: ["1/5", "3/10", "1/2"]}[m])
    else:
        a, b = ctx.weights("a", n, pos=True), ctx.weights("b", m, pos=True)
    return a, b, M, K


def viol(ctx, G, a, b):
    n, m = G.shape
    r = [sum(G[i, j] for j in range(m)) - a[i] for i in range(n)]
    c = [sum(G[i, j] for i in range(n)) - b[j] for j in range(m)]
    return r, c


def greedy(ctx, n, m, it, ab="c", start=False, fixk=False):
    a, b, M, K = setup_k(ctx, n, m, ab)
    if fixk:
        K = ctx.arr([["1/2", "1/3", "1/5"][:m], ["1/7", "2/3", "3/4"][:m], ["3/5", "1/6", "4/7"][:m]][:n])
        M = -ctx.np.log(K)
    kw = dict(method="greenkhorn", stopThr=-1, log=True, warn=False)
    if start:
        # any scalings reached before: one greedy step from there
        u0, v0 = ctx.vec("u", n, pos=True, hi=4), ctx.vec("v", m, pos=True, hi=4)
        ws = (ctx.np.log(u0), ctx.np.log(v0))
        G0 = u0[:, None] * K * v0[None, :]
        kw["warmstart"] = ws
        if it > 1:
            G0, _ = ctx.ot.sinkhorn(a, b, M, 1, numItermax=it - 1, **kw)
            G0 = ctx.snapshot(G0)
    elif it == 1:
        G0 = K / (n * m)
    else:
        G0, _ = ctx.ot.sinkhorn(a, b, M, 1, numItermax=it - 1, **kw)
        G0 = ctx.snapshot(G0)
    G, log = ctx.ot.sinkhorn(a, b, M, 1, numItermax=it, **kw)
    ctx.check("potentials give the plan", ctx.eq(log["u"][:, None] * K * log["v"][None, :], G))
    r, c = viol(ctx, G0, a, b)
    mag = [abs(x) for x in r + c]
    alts = []
    for k in range(n + m):
        T = [[G0[i, j] for j in range(m)] for i in range(n)]
        if k < n:
            s = sum(T[k])
            T[k] = [x * a[k] / s for x in T[k]]
        else:
            s = sum(T[i][k - n] for i in range(n))
            for i in range(n):
                T[i][k - n] = T[i][k - n] * b[k - n] / s
        T = ctx.pack(T)
        if ctx.ident(G, T):
            ctx.check("the most violated marginal is projected", [ctx.le(q, mag[k]) for q in mag])
            return
        alts.append(ctx.all([ctx.eq(G, T)] + [ctx.le(q, mag[k]) for q in mag]))
    ctx.check("one exact projection of the most violated marginal", ctx.any(alts))


def greedy_stop(ctx, n, m):
    a, b, M, K = setup_k(ctx, n, m)
    thr = ctx.num("1/10")
    G, log = ctx.ot.sinkhorn(a, b, M, 1, method="greenkhorn", stopThr=thr, numItermax=3, log=True, warn=False)
    it = log["n_iter"]
    if it > 0:
        # it went on: the state before the previous iteration was not converged
        if it == 1:
            r, c = viol(ctx, K / (n * m), a, b)
            ctx.check("went on although converged", ctx.any([ctx.lt(thr * thr, x * x) for x in r + c]))
    else:
        r, c = viol(ctx, K / (n * m), a, b)
        ctx.check("stopped although not converged", [ctx.le(x * x, thr * thr) for x in r + c])


def greedy_default(ctx, n, m):
    a, b, M, K = setup_k(ctx, n, m)
    G = ctx.ot.sinkhorn([], [], M, 1, method="greenkhorn", numItermax=2, stopThr=-1, warn=False)
    H = ctx.ot.sinkhorn(ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m), M, 1, method="greenkhorn", numItermax=2, stopThr=-1, warn=False)
    ctx.check("empty weights mean uniform", ctx.eq(G, H))


def lrk(ctx, n, m, r, it, default=False):
    K1 = ctx.mat("P", n, r, pos=True, hi=2)
    K2 = ctx.mat("Q", m, r, pos=True, hi=2)
    if default:
        a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    else:
        a, b = ctx.weights("a", n, pos=True), ctx.weights("b", m, pos=True)
    kw = {} if default else dict(a=a, b=b)
    u, v, log = ctx.ot.lowrank.sinkhorn_low_rank_kernel(K1, K2, numItermax=it, stopThr=-1, log=True, warn=False, **kw)
    u2, v2 = ctx.ot.lowrank.sinkhorn_low_rank_kernel(K1, K2, numItermax=it, stopThr=-1, warn=False, **kw)
    K = [[sum(K1[i, k] * K2[j, k] for k in range(r)) for j in range(m)] for i in range(n)]
    x = [ctx.num(1) / n] * n
    first = None
    for t in range(it):
        y = [b[j] / sum(K[i][j] * x[i] for i in range(n)) for j in range(m)]
        x = [a[i] / sum(K[i][j] * y[j] for j in range(m)) for i in range(n)]
        if t == 0:
            first = [sum(x[i] * K[i][j] * y[j] for i in range(n)) - b[j] for j in range(m)]
    ctx.check("scalings", [ctx.eq(u, ctx.pack(x)), ctx.eq(v, ctx.pack(y)), ctx.eq(u2, u), ctx.eq(v2, v)])
    P = log["lazy_plan"][:]
    ctx.check("lazy plan", ctx.eq(P, ctx.pack([[x[i] * K[i][j] * y[j] for j in range(m)] for i in range(n)])))
    ctx.check("reported error", ctx.eq(log["err"][0] * log["err"][0], sum(d * d for d in first)))
    w = (ctx.np.log(u), ctx.np.log(v))
    u3, v3 = ctx.ot.lowrank.sinkhorn_low_rank_kernel(K1, K2, numItermax=1, stopThr=-1, warn=False, warmstart=w, **kw)
    u4, v4 = ctx.ot.lowrank.sinkhorn_low_rank_kernel(K1, K2, numItermax=it + 1, stopThr=-1, warn=False, **kw)
    ctx.check("continuation", [ctx.eq(u3, u4), ctx.eq(v3, v4)])


def sq(ctx, X, Y):
    return ctx.pack([[sum((X[i, k] - Y[j, k]) * (X[i, k] - Y[j, k]) for k in range(X.shape[1])) for j in range(Y.shape[0])] for i in range(X.shape[0])])


def empirical(ctx, n, m, it, batch, default=False):
    C = ctx.mat("C", n, m, lo=0, hi=3)
    X, Y, metric = ctx.index_cost(C)
    if default:
        a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    else:
        a, b = ctx.weights("a", n, pos=True), ctx.weights("b", m, pos=True)
    A, B = (None, None) if default else (a, b)
    reg = ctx.num("1/2")
    E = ctx.ot.bregman
    kw = dict(metric=metric, numIterMax=it, stopThr=-1, warn=False)
    lz = dict(isLazy=True, batchSize=batch, **kw)
    f, g = E.empirical_sinkhorn(X, Y, reg, A, B, **lz)
    # lazy order: rows first, then columns; mirror of the dense iteration on the transpose
    R, v, u = reference(ctx, b, a, C.T, reg, it, u=[ctx.num(1)] * m)
    P = ctx.np.exp(f[:, None] + g[None, :] - C / reg)
    ctx.check("lazy potentials", ctx.eq(P, R.T))
    ctx.check("columns", ctx.eq(ctx.np.sum(P, axis=0), b))
    f, g, log = E.empirical_sinkhorn(X, Y, reg, A, B, log=True, **lz)
    ctx.check("lazy plan", ctx.eq(log["lazy_plan"][:], R.T))
    c = E.empirical_sinkhorn2(X, Y, reg, A, B, **lz)
    val = sum(R[j, i] * C[i, j] for i in range(n) for j in range(m))
    ctx.check("lazy cost", ctx.eq(c, val))
    c, _ = E.empirical_sinkhorn2(X, Y, reg, A, B, log=True, **lz)
    ctx.check("lazy cost (log)", ctx.eq(c, val))
    # one more lazy iteration from the returned potentials
    f2, g2 = E.empirical_sinkhorn(X, Y, reg, A, B, warmstart=(f, g), **dict(lz, numIterMax=1))
    R2, v, u = reference(ctx, b, a, C.T, reg, it + 1, u=[ctx.num(1)] * m)
    ctx.check("lazy continuation", ctx.eq(ctx.np.exp(f2[:, None] + g2[None, :] - C / reg), R2.T))
    G = E.empirical_sinkhorn(X, Y, reg, A, B, **kw)
    D, u, v = reference(ctx, a, b, C, reg, it)
    ctx.check("dense plan", ctx.eq(G, D))
    c = E.empirical_sinkhorn2(X, Y, reg, A, B, **kw)
    ctx.check("dense cost", ctx.eq(c, ctx.np.sum(D * C)))


def lazy_err(ctx):
    """lazy stopping rule after ten iterations speaks about the returned plan"""
    x = ctx.real("x", lo=0, hi=1)
    z = ctx.num(0)
    X = ctx.pack([[z], [x]])
    a = ctx.arr(["1/2", "1/2"])
    b = ctx.arr(["1/4", "3/4"])
    thr = ctx.num("1/50")
    f, g, log = ctx.ot.bregman.empirical_sinkhorn(X, X, 1, a, b, numIterMax=11, stopThr=thr, isLazy=True, log=True, warn=False)
    C = sq(ctx, X, X)
    P = ctx.np.exp(f[:, None] + g[None, :] - C)
    if log["niter"] < 10:
        e = [P[i, 0] + P[i, 1] - a[i] for i in range(2)]
        ctx.check("converged", [ctx.le(e[0] + e[1], thr), ctx.le(e[0] - e[1], thr), ctx.le(e[1] - e[0], thr), ctx.le(-e[0] - e[1], thr)])
    else:
        ctx.check("columns", ctx.eq(ctx.np.sum(P, axis=0), b))


def divergence(ctx, n, m, it):
    N = n + m
    D = ctx.mat("C", N, N, lo=0, hi=3)
    Z, _, metric = ctx.index_cost(D)
    X, Y = Z[:n], Z[n:]
    a, b = ctx.weights("a", n, pos=True), ctx.weights("b", m, pos=True)
    reg = ctx.num("1/2")
    E = ctx.ot.bregman
    kw = dict(metric=metric, numIterMax=it, stopThr=-1, warn=False)
    r, log = E.empirical_sinkhorn_divergence(X, Y, reg, a, b, log=True, **kw)
    r2 = E.empirical_sinkhorn_divergence(X, Y, reg, a, b, **kw)

    def cost(p, q, C):
        return ctx.np.sum(reference(ctx, p, q, C, reg, it)[0] * C)

    ab, aa, bb = cost(a, b, D[:n, n:]), cost(a, a, D[:n, :n]), cost(b, b, D[n:, n:])
    ctx.check("terms", [ctx.eq(log["sinkhorn_loss_ab"], ab), ctx.eq(log["sinkhorn_loss_a"], aa), ctx.eq(log["sinkhorn_loss_b"], bb)])
    h = log["sinkhorn_loss_ab"] - (log["sinkhorn_loss_a"] + log["sinkhorn_loss_b"]) / 2
    ctx.check("value", ctx.eq(r, ctx.np.maximum(0, h)))
    ctx.check("value without log", ctx.eq(r2, r))


def screen(ctx, n, m, restricted, uniform=False):
    """full budget: for every optimiser output the plan is the normalised scaling"""
    a, b, M, K = setup_k(ctx, n, m, "sym" if not uniform else "c")
    if uniform:
        a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    th = ctx.vec("t", n + m, pos=True, hi=3)
    box = {}

    def opt(func=None, x0=None, bounds=None, **k):
        box["x0"], box["f"] = x0, func
        return th, 0, {}

    S = ctx.ot.bregman._screenkhorn
    ctx.contract("fmin_l_bfgs_b", opt, where=[(S, "fmin_l_bfgs_b")])
    G, log = ctx.ot.bregman.screenkhorn(a, b, M, 1, ns_budget=n, nt_budget=m, uniform=uniform, restricted=restricted, log=True)
    u, v = th[:n], th[n:]
    P = u[:, None] * K * v[None, :]
    ctx.check("plan", ctx.eq(G * ctx.np.sum(P), P))
    ctx.check("scalings", [ctx.eq(log["u"], u), ctx.eq(log["v"], v)])
    f, gr = box["f"](th)
    val = ctx.np.sum(P) - sum(a[i] * ctx.np.log(u[i]) for i in range(n)) - sum(b[j] * ctx.np.log(v[j]) for j in range(m))
    ctx.check("dual objective", ctx.eq(f, val))
    gu = [sum(K[i, j] * v[j] for j in range(m)) - a[i] / u[i] for i in range(n)]
    gv = [sum(K[i, j] * u[i] for i in range(n)) - b[j] / v[j] for j in range(m)]
    ctx.check("dual gradient", ctx.eq(gr, ctx.pack(gu + gv)))
    x0 = box["x0"]
    P0 = x0[:n][:, None] * K * x0[n:][None, :]
    ctx.check("start has the row marginals", ctx.eq(ctx.np.sum(P0, axis=1), a))


CASES = [
    Case("greedy22_1", greedy, n=2, m=2, it=1, ab="sym"),
    Case("greedy22_2", greedy, n=2, m=2, it=2),
    Case("greedy22_3", greedy, n=2, m=2, it=3),
    Case("greedy23_1", greedy, n=2, m=3, it=1),
    Case("greedy23_2", greedy, n=2, m=3, it=2),
    Case("greedy22_any", greedy, n=2, m=2, it=1, start=True),
    Case("greedy23_any", greedy, n=2, m=3, it=1, start=True, fixk=True),
    Case("greedy22_any2", greedy, n=2, m=2, it=2, start=True, fixk=True),
    Case("greedy22_any3", greedy, n=2, m=2, it=3, start=True, fixk=True),
    Case("greedy22_ab3", greedy, n=2, m=2, it=3, ab="sym", fixk=True),
    Case("greedy33_ab2", greedy, n=3, m=3, it=2, ab="sym", fixk=True),
    Case("greedy_stop", greedy_stop, n=2, m=2),
    Case("greedy_default", greedy_default, n=2, m=2),
    Case("lrk23", lrk, n=2, m=3, r=2, it=2, opt_lazymax=True),
    Case("lrk22_default", lrk, n=2, m=2, r=2, it=1, default=True, opt_lazymax=True),
    Case("emp_b100", empirical, n=2, m=3, it=2, batch=100, opt_lazymax=True),
    Case("emp_b1", empirical, n=3, m=2, it=2, batch=1, opt_lazymax=True),
    Case("emp_b12", empirical, n=2, m=3, it=1, batch=(1, 2), opt_lazymax=True),
    Case("emp_default", empirical, n=3, m=2, it=2, batch=2, default=True, opt_lazymax=True),
    Case("lazy_err", lazy_err, opt_lazymax=True),
    Case("divergence", divergence, n=2, m=2, it=2, opt_lazymax=True),
    Case("screen_r", screen, n=2, m=2, restricted=True, opt_lazymax=True),
    Case("screen_n", screen, n=2, m=3, restricted=False, opt_lazymax=True),
    Case("screen_u", screen, n=2, m=2, restricted=True, uniform=True, opt_lazymax=True),
]
