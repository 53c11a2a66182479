"""C23 entropic barycenters: every method returns the iterate of the iterative Bregman projections."""
from symx.worker import Case

INF = float("inf")
WT = {2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"], 1: ["1"]}


def setup(ctx, n, k, sym=True, sw=False, A="full"):
    if A == "full":
        A = ctx.mat("A", n, k, pos=True, hi=2)
    else:
        x, y = ctx.real("a0", pos=True, hi=2), ctx.real("a1", pos=True, hi=2)
        A = ctx.pack([[x if (i, j) == (0, 0) else y if (i, j) == (n - 1, k - 1) else ctx.num("1/%d" % (i + 2 * j + 2)) for j in range(k)] for i in range(n)])
    if sym:
        K = ctx.sym_mat("K", n, pos=True, hi=2)
    else:
        K = ctx.mat("K", n, n, pos=True, hi=2)
    if sw is None:
        w, W = None, [ctx.num(1) / k] * k
    elif sw:
        w = ctx.weights("w", k, pos=True)
        W = [w[i] for i in range(k)]
    else:
        w = ctx.arr(WT[k])
        W = [ctx.num(x) for x in WT[k]]
    if not ctx.sym:
        ctx.assume(bool((K > 1e-6).all() and (A > 1e-6).all()))
    return A, K, w, W


def gm(ctx, W, xs):
    """weighted geometric mean"""
    return ctx.exp(sum(w * ctx.log(x) for w, x in zip(W, xs)))


def reference(ctx, A, K, W, its, v=None):
    """iterative Bregman projections of Benamou et al.: (u, K'u, barycenter) after each iteration"""
    n, k = A.shape
    if v is None:
        v = [[ctx.num(1)] * k for _ in range(n)]
    for _ in range(its):
        u = [[A[i, l] / sum(K[i, j] * v[j][l] for j in range(n)) for l in range(k)] for i in range(n)]
        ktu = [[sum(K[i, j] * u[i][l] for i in range(n)) for l in range(k)] for j in range(n)]
        q = [gm(ctx, W, ktu[j]) for j in range(n)]
        vo, v = v, [[q[j] / ktu[j][l] for l in range(k)] for j in range(n)]
    return u, vo, ktu, q, v


def agree(ctx, n, k, it, method, sym=True, sw=False, A="full", eps=False):
    A, K, w, W = setup(ctx, n, k, sym, sw, A)
    reg = ctx.num("1/2")
    M = -reg * ctx.np.log(K)
    A0, M0 = ctx.snapshot(A), ctx.snapshot(M)
    kw = {"tau": INF} if method == "sinkhorn_stabilized" else {}
    call = it - 1 if method == "sinkhorn" else it
    v = [[ctx.num(1) / n] * k for _ in range(n)] if method == "sinkhorn_stabilized" and it == 1 else None
    u, vo, ktu, q, v = reference(ctx, A, K, W, it, v)
    b, log = ctx.ot.bregman.barycenter(A, M, reg, weights=w, method=method, numItermax=call, stopThr=-1, log=True, warn=False, **kw)
    ctx.check("barycenter is the projection iterate", ctx.eq(b, ctx.pack(q)))
    b2 = ctx.ot.bregman.barycenter(A, M, reg, weights=w, method=method, numItermax=call, stopThr=-1, warn=False, **kw)
    ctx.check("log flag", ctx.eq(b2, b))
    ctx.check("inputs kept", [ctx.eq(A, A0), ctx.eq(M, M0)])
    ctx.check("iteration count", log["niter"] == call - 1)
    if method == "sinkhorn_stabilized":
        ctx.check("one error per check", len(log["err"]) == 1)


def absorb(ctx, n, k, it, A="few"):
    """the absorbed scalings leave the barycenter unchanged"""
    A, K, w, W = setup(ctx, n, k, A=A)
    reg = ctx.num("1/2")
    M = -reg * ctx.np.log(K)
    tau = ctx.real("tau", lo=ctx.num("1/10"), hi=10)
    b = ctx.ot.bregman.barycenter(A, M, reg, weights=w, method="sinkhorn_stabilized", numItermax=it, tau=tau, stopThr=-1, warn=False)
    ctx.check("barycenter is the projection iterate", ctx.eq(b, ctx.pack(reference(ctx, A, K, W, it)[3])))


def fixpoint(ctx, n, k, method):
    """a stopping rule met exactly: every marginal K'u*v equals the barycenter, and the barycenter is fixed"""
    # one common histogram: the projections have converged after one step, whatever the weights
    a = ctx.vec("a", n, pos=True, hi=2)
    K = ctx.sym_mat("K", n, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((K > 1e-6).all() and (a > 1e-6).all()))
    A = ctx.pack([[a[i]] * k for i in range(n)])
    reg = ctx.num("1/2")
    M = -reg * ctx.np.log(K)
    W = [ctx.num(x) for x in WT[k]]
    w = ctx.arr(WT[k])
    kw = {"tau": INF} if method == "sinkhorn_stabilized" else {}
    b, log = ctx.ot.bregman.barycenter(A, M, reg, weights=w, method=method, numItermax=9, stopThr=ctx.num("1e-7"), log=True, warn=False, **kw)
    q = reference(ctx, A, K, W, 1)[3]
    if method != "sinkhorn_stabilized":
        ctx.check("stops at the first check", log["niter"] == 1)
        ctx.check("reported error", ctx.eq(log["err"][0], 0))
    ctx.check("barycenter of equal histograms", ctx.eq(b, ctx.pack(q)) if method != "sinkhorn_stabilized" else ctx.eq(ctx.np.sum(b), sum(a)))


def err(ctx, n, k, method, A="few"):
    """the reported error is the spread of the marginals over the histograms"""
    A, K, w, W = setup(ctx, n, k, A=A)
    reg = ctx.num("1/2")
    M = -reg * ctx.np.log(K)
    _, log = ctx.ot.bregman.barycenter(A, M, reg, weights=w, method=method, numItermax=2, stopThr=-1, log=True, warn=False)
    # (iterate, scaling in force when the marginals are compared)
    it = 3 if method == "sinkhorn" else 2
    u, vo, ktu, q, v = reference(ctx, A, K, W, it)
    e = 0
    for j in range(n):
        m = [vo[j][l] * ktu[j][l] for l in range(k)]
        mean = sum(m) / k
        dev = [x - mean for x in m]
        e = e + ctx.sqrt(sum(t * t for t in dev) / k)
    ctx.check("one error", len(log["err"]) == 1)
    ctx.check("error", ctx.eq(log["err"][0], e))


def debiased(ctx, n, k, it, method, A="few", inner=1):
    A, K, w, W = setup(ctx, n, k, A=A)
    reg = ctx.num("1/2")
    M = -reg * ctx.np.log(K)
    A0, M0 = ctx.snapshot(A), ctx.snapshot(M)
    B = ctx.ot.bregman._barycenter if hasattr(ctx.ot.bregman, "_barycenter") else None
    if method == "sinkhorn_log":
        # the correction loop runs a constant number (10) of fixed point steps; it is shortened
        ctx.patch(B, "range", lambda *x: range(inner) if x == (10,) else range(*x))
        v = None
    else:
        inner = 1
        ktu0 = [[sum(K[i, j] * (A[j, l] / sum(K[m, j] for m in range(n))) for j in range(n)) for l in range(k)] for i in range(n)]
        v = [[gm(ctx, [ctx.num(1) / k] * k, ktu0[i]) / ktu0[i][l] for l in range(k)] for i in range(n)]
    if v is None:
        v = [[ctx.num(1)] * k for _ in range(n)]
    c = [ctx.num(1)] * n
    for _ in range(it):
        u = [[A[i, l] / sum(K[i, j] * v[j][l] for j in range(n)) for l in range(k)] for i in range(n)]
        ktu = [[sum(K[i, j] * u[i][l] for i in range(n)) for l in range(k)] for j in range(n)]
        q = [c[j] * gm(ctx, W, ktu[j]) for j in range(n)]
        v = [[q[j] / ktu[j][l] for l in range(k)] for j in range(n)]
        for _ in range(inner):
            c = [ctx.sqrt(c[j] * q[j] / sum(K[j, i] * c[i] for i in range(n))) for j in range(n)]
    b, log = ctx.ot.bregman.barycenter_debiased(A, M, reg, weights=w, method=method, numItermax=it, stopThr=-1, log=True, warn=False)
    ctx.check("debiased iterate", ctx.eq(b, ctx.pack(q)))
    b2 = ctx.ot.bregman.barycenter_debiased(A, M, reg, weights=w, method=method, numItermax=it, stopThr=-1, warn=False)
    ctx.check("log flag", ctx.eq(b2, b))
    ctx.check("inputs kept", [ctx.eq(A, A0), ctx.eq(M, M0)])


def img_kernel(ctx, width, height, reg):
    """Gibbs kernel of the squared distances on the unit grid"""
    px = [(i, j) for i in range(width) for j in range(height)]
    g1 = [ctx.num(i) / (width - 1) if width > 1 else ctx.num(0) for i in range(width)]
    g2 = [ctx.num(i) / (height - 1) if height > 1 else ctx.num(0) for i in range(height)]
    return px, ctx.pack([[ctx.exp(-((g1[p[0]] - g1[r[0]]) ** 2 + (g2[p[1]] - g2[r[1]]) ** 2) / reg) for r in px] for p in px])


def conv(ctx, width, height, k, it, method, deb=False, inner=1):
    """convolutional barycenters are the barycenters for the squared distances on the grid"""
    reg = ctx.num("1/2")
    px, K = img_kernel(ctx, width, height, reg)
    n = len(px)
    x, y = ctx.real("a0", pos=True, lo=ctx.num("1/100"), hi=2), ctx.real("a1", pos=True, lo=ctx.num("1/100"), hi=2)
    A = ctx.pack([[[x if (l, i, j) == (0, 0, 0) else y if (l, i, j) == (k - 1, width - 1, 0) else ctx.num("1/%d" % (2 + l + 2 * i + 3 * j))
                    for j in range(height)] for i in range(width)] for l in range(k)])
    A0 = ctx.snapshot(A)
    F = ctx.pack([[A[l, p[0], p[1]] for l in range(k)] for p in px])
    w, W = ctx.arr(WT[k]), [ctx.num(t) for t in WT[k]]
    mod = ctx.ot.bregman._convolutional
    ctx.patch(mod, "range", lambda *z: range(inner) if z == (10,) else range(*z))
    v = [[ctx.num(1)] * k for _ in range(n)]
    G1 = [[ctx.exp(-(ctx.num(i - r) / (width - 1)) ** 2 / reg) for r in range(width)] for i in range(width)]
    G2 = [[ctx.exp(-(ctx.num(i - r) / (height - 1)) ** 2 / reg) for r in range(height)] for i in range(height)]

    def smooth(x):
        """Gibbs kernel applied to the image, along the rows and then the columns in the log domain"""
        if method == "sinkhorn":
            return [sum(K[i, j] * x[j] for j in range(n)) for i in range(n)]
        x = [ctx.log(t) for t in x]
        r = [[ctx.log(sum(G1[i][s] * ctx.exp(x[px.index((s, j))]) for s in range(width))) for j in range(height)] for i in range(width)]
        return [ctx.exp(ctx.log(sum(G2[p[1]][s] * ctx.exp(r[p[0]][s]) for s in range(height)))) for p in px]

    def each(f, y):
        r = [f([y[i][l] for i in range(n)]) for l in range(k)]
        return [[r[l][i] for l in range(k)] for i in range(n)]
    if method == "sinkhorn":
        ku = [[sum(K[i, j] for j in range(n)) for l in range(k)] for i in range(n)]
        v = [[ctx.num(1) / n / ku[i][l] for l in range(k)] for i in range(n)]
    c = [ctx.num(1)] * n
    for _ in range(it):
        kv = each(smooth, v)
        u = [[F[i, l] / kv[i][l] for l in range(k)] for i in range(n)]
        ktu = each(smooth, u)
        q = [c[j] * gm(ctx, W, ktu[j]) for j in range(n)]
        v = [[q[j] / ktu[j][l] for l in range(k)] for j in range(n)]
        if deb:
            for _ in range(inner):
                kc = smooth(c)
                c = [ctx.sqrt(c[j] * q[j] / kc[j]) for j in range(n)]
    f = ctx.ot.bregman.convolutional_barycenter2d_debiased if deb else ctx.ot.bregman.convolutional_barycenter2d
    b, log = f(A, reg, weights=w, method=method, numItermax=it, stopThr=-1, log=True, warn=False)
    ctx.check("barycenter is the projection iterate on the grid", ctx.eq(b, ctx.pack([[q[px.index((i, j))] for j in range(height)] for i in range(width)])))
    b2 = f(A, reg, weights=w, method=method, numItermax=it, stopThr=-1, warn=False)
    ctx.check("log flag", ctx.eq(b2, b))
    ctx.check("inputs kept", ctx.eq(A, A0))


def jcpot(ctx, n1, n2, m, it):
    """target class proportions by alternating projections"""
    np = ctx.np
    pts = [ctx.real("x%d" % i, lo=0, hi=1) for i in range(2)]
    X1 = ctx.pack([[pts[0] if i == 0 else ctx.num("%d/3" % i)] for i in range(n1)])
    X2 = ctx.pack([[ctx.num("%d/4" % i)] for i in range(n2)])
    Xt = ctx.pack([[pts[1] if i == 0 else ctx.num("%d/5" % (3 * i))] for i in range(m)])
    Y1 = ctx.arr([0] * (n1 - 1) + [1])
    Y2 = ctx.arr([0] + [1] * (n2 - 1))
    reg = ctx.num("1/2")
    ks = [ctx.real("k%d" % i, lo=ctx.num("1/10"), hi=2) for i in range(2)]
    K = [ctx.pack([[ks[d] if (i, j) == (0, 0) else ctx.num("1/%d" % (1 + (i + 2 * j + d) % 5)) for j in range(m)] for i in range(n)]) for d, n in enumerate((n1, n2))]
    calls = []

    def rec(x, y, metric=None):
        calls.append((x, y, metric))
        return -reg * ctx.np.log(K[len(calls) - 1])
    ctx.patch(ctx.ot.bregman._barycenter, "dist", rec)
    snap = [ctx.snapshot(z) for z in (X1, X2, Xt, Y1, Y2)]
    h, log = ctx.ot.bregman.jcpot_barycenter([X1, X2], [Y1, Y2], Xt, reg, numItermax=it, stopThr=-1, log=True, warn=False)
    Ks, lab = [], []
    for d, (X, Y) in enumerate(((X1, Y1), (X2, Y2))):
        ctx.check("costs of domain %d" % d, [ctx.eq(calls[d][0], X), ctx.eq(calls[d][1], Xt), calls[d][2] == "sqeuclidean"])
        Ks.append([[K[d][i, j] for j in range(m)] for i in range(X.shape[0])])
        lab.append([int(Y[i]) for i in range(X.shape[0])])
    for _ in range(it):
        p = []
        for d in range(2):
            K = Ks[d]
            col = [ctx.np.maximum(sum(r[j] for r in K), 1e-10) for j in range(m)]
            Ks[d] = K = [[r[j] / col[j] / m for j in range(m)] for r in K]
            p.append([sum(sum(K[i]) for i in range(len(K)) if lab[d][i] == c) for c in (0, 1)])
        q = [ctx.exp(sum(ctx.log(p[d][c]) for d in range(2)) / 2) for c in (0, 1)]
        for d in range(2):
            K = Ks[d]
            Ks[d] = [[r[j] / ctx.np.maximum(sum(r), 1e-10) * q[lab[d][i]] / lab[d].count(lab[d][i]) for j in range(m)] for i, r in enumerate(K)]
    ctx.check("class proportions", ctx.eq(h, ctx.pack([x / (q[0] + q[1]) for x in q])))
    ctx.check("couplings", [ctx.eq(log["gamma"][d], ctx.pack(Ks[d])) for d in range(2)])
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip((X1, X2, Xt, Y1, Y2), snap)])


def unmixing(ctx, n, ka, it):
    """unmix: alternating projections of Schmitz et al."""
    a = ctx.weights("a", n, pos=True)
    h0 = ctx.weights("h", ka, pos=True)
    D = ctx.pack([[ctx.num(x) for x in r] for r in ([["3/5", "1/4"], ["2/5", "3/4"]] if n == 2 else [["3/5", "1/4"], ["1/5", "1/2"], ["1/5", "1/4"]])])
    K = ctx.mat("K", n, n, pos=True, hi=2) if n == 2 else ctx.pack([[ctx.num("1/%d" % (1 + abs(i - j))) for j in range(n)] for i in range(n)])
    K0 = ctx.mat("L", ka, ka, pos=True, hi=2) if n == 2 and it == 1 else ctx.arr([["1", "1/3"], ["1/2", "1"]])
    if not ctx.sym:
        ctx.assume(bool((K > 1e-6).all() and (K0 > 1e-6).all() and (a > 1e-6).all() and (h0 > 1e-6).all()))
    reg, reg0, al = ctx.num("1/2"), ctx.num(2), ctx.num("1/4")
    M, M0 = -reg * ctx.np.log(K), -reg0 * ctx.np.log(K0)
    snap = [ctx.snapshot(z) for z in (a, D, M, M0, h0)]
    h, log = ctx.ot.bregman.unmix(a, D, M, M0, h0, reg, reg0, al, numItermax=it, stopThr=-1, log=True, warn=False)
    P = [[K[i, j] for j in range(n)] for i in range(n)]
    Q = [[K0[i, j] for j in range(ka)] for i in range(ka)]
    for _ in range(it):
        s = [sum(r[j] for r in P) for j in range(n)]
        P = [[r[j] * a[j] / s[j] for j in range(n)] for r in P]
        s = [sum(r[j] for r in Q) for j in range(ka)]
        Q = [[r[j] * h0[j] / s[j] for j in range(ka)] for r in Q]
        new = [sum(r) for r in Q]
        inv = [sum(D[i, l] * new[l] for l in range(ka)) for i in range(n)]
        oth = [sum(r) for r in P]
        de = [ctx.exp(al * ctx.log(oth[i]) + (1 - al) * ctx.log(inv[i])) for i in range(n)]
        P = [[x * de[i] / oth[i] for x in P[i]] for i in range(n)]
        Q = [[x * sum(D[i, l] * de[i] / inv[i] for i in range(n)) for x in Q[l]] for l in range(ka)]
    ctx.check("weights of the dictionary", ctx.eq(h, ctx.pack([sum(r) for r in Q])))
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip((a, D, M, M0, h0), snap)])


def free_support(ctx, k, n1, n2, d):
    """each support point moves to the weighted mean of the barycentric projections of the given couplings"""
    X = ctx.mat("X", k, d, lo=-2, hi=2)
    Z = [ctx.mat("Z%d" % i, n, d, lo=-2, hi=2) for i, n in enumerate((n1, n2))]
    a = [ctx.weights("a%d" % i, n, pos=True) for i, n in enumerate((n1, n2))]
    b = ctx.weights("b", k, pos=True)
    w = ctx.weights("w", 2)
    G = [ctx.mat("G%d" % i, k, n, lo=0, hi=1) for i, n in enumerate((n1, n2))]
    reg = ctx.num("1/3")
    if not ctx.sym:
        ctx.assume(bool((b > 1e-6).all()))
    calls = []

    def rec(*args, **kw):
        calls.append((args, kw))
        return G[(len(calls) - 1) % 2]
    ctx.patch(ctx.ot.bregman._barycenter, "sinkhorn", rec)
    snap = [ctx.snapshot(z) for z in [X, b, w] + Z + a]
    Y, log = ctx.ot.bregman.free_support_sinkhorn_barycenter(Z, a, X, reg, b=b, weights=w, numItermax=1, numInnerItermax=7, stopThr=-1, log=True, method="sinkhorn_log")
    for i in range(2):
        args, kw = calls[i]
        C = ctx.pack([[sum((X[s, c] - Z[i][t, c]) * (X[s, c] - Z[i][t, c]) for c in range(d)) for t in range(Z[i].shape[0])] for s in range(k)])
        ctx.check("problem %d" % i, [ctx.eq(args[0], b), ctx.eq(args[1], a[i]), ctx.eq(args[2], C), ctx.eq(kw["reg"], reg)])
        ctx.check("options %d" % i, kw["numItermax"] == 7 and kw.get("method") == "sinkhorn_log")
    new = [[sum(w[i] * sum(G[i][s, t] * Z[i][t, c] for t in range(Z[i].shape[0])) for i in range(2)) / b[s] for c in range(d)] for s in range(k)]
    ctx.check("support update", ctx.eq(Y, ctx.pack(new)))
    ctx.check("displacement", ctx.eq(log["displacement_square_norms"][0], sum((new[s][c] - X[s, c]) ** 2 for s in range(k) for c in range(d))))
    Y2 = ctx.ot.bregman.free_support_sinkhorn_barycenter(Z, a, X, reg, b=b, weights=w, numItermax=1, stopThr=-1)
    ctx.check("log flag", ctx.eq(Y2, Y))
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip([X, b, w] + Z + a, snap)])


CASES = []
for me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
    for it in (1, 2, 3):
        if me == "sinkhorn" and it == 1:
            continue
        CASES.append(Case("agree_%s_22_%d" % (me[8:], it), agree, n=2, k=2, it=it, method=me, A="few" if it > 1 else "full", opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
        CASES.append(Case("agree_%s_23_%d" % (me[8:], it), agree, n=2, k=3, it=it, method=me, A="few", opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
        CASES.append(Case("agree_%s_32_%d" % (me[8:], it), agree, n=3, k=2, it=it, method=me, A="few", opt_lazymax=True, tier="quick" if it < 2 else "thorough"))
        CASES.append(Case("agree_%s_defw_%d" % (me[8:], it), agree, n=2, k=3, it=it, method=me, A="few", sw=None, opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
        if me != "sinkhorn":
            CASES.append(Case("agree_%s_asym_%d" % (me[8:], it), agree, n=2, k=2, it=it, method=me, A="few", sym=False, opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
        CASES.append(Case("agree_%s_symw_%d" % (me[8:], it), agree, n=2, k=2, it=it, method=me, A="few", sw=True, opt_lazymax=True, tier="quick" if it < 2 else "thorough"))
    CASES.append(Case("equal_%s" % me[8:], fixpoint, n=2, k=2, method=me, opt_lazymax=True))
    if me != "sinkhorn_stabilized":
        CASES.append(Case("err_%s" % me[8:], err, n=2, k=2, method=me, opt_lazymax=True))
for it in (2, 3):
    CASES.append(Case("absorb_%d" % it, absorb, n=2, k=2, it=it, opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
for me in ("sinkhorn", "sinkhorn_log"):
    for it in (1, 2, 3):
        CASES.append(Case("debiased_%s_%d" % (me[8:], it), debiased, n=2, k=2, it=it, method=me, opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
        for deb in (False, True):
            CASES.append(Case("conv_%s_%s_%d" % (me[8:], "deb" if deb else "std", it), conv, width=2, height=2, k=2, it=it, method=me, deb=deb, opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
            CASES.append(Case("conv32_%s_%s_%d" % (me[8:], "deb" if deb else "std", it), conv, width=3, height=2, k=2, it=it, method=me, deb=deb, opt_lazymax=True, tier="quick" if it < 2 else "thorough"))
    CASES.append(Case("debiased_%s_inner" % me[8:], debiased, n=2, k=2, it=2, inner=2, method=me, opt_lazymax=True))
for it in (1, 2):
    CASES.append(Case("jcpot_%d" % it, jcpot, n1=3, n2=2, m=2, it=it, opt_lazymax=True))
    CASES.append(Case("unmix_%d" % it, unmixing, n=2, ka=2, it=it, opt_lazymax=True))
    CASES.append(Case("unmix3_%d" % it, unmixing, n=3, ka=2, it=it, opt_lazymax=True, tier="quick" if it < 2 else "thorough"))
CASES.append(Case("free_support_1", free_support, k=2, n1=2, n2=2, d=1))
CASES.append(Case("free_support_2", free_support, k=2, n1=3, n2=2, d=2))
BOUNDS = "histograms of two or three bins (all kernels, two symbolic masses from the second iteration on), two or three histograms, weights (1/4, 3/4), (1/2, 1/3, 1/6) or uniform, one to three iterations; 2x2 and 3x2 images"
