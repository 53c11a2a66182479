"""C11 entropic unbalanced OT: every method performs / fixes the generalised scaling iteration."""
from symx.worker import Case

INF = float("inf")


def frac(ctx, x):
    return INF if x == INF else ctx.num(x)


def data(ctx, n, m, mode, hi=2):
    """-> a, b, M, kwargs, K (reference measure included)"""
    a = ctx.vec("a", n, pos=True, hi=3)
    b = ctx.vec("b", m, pos=True, hi=3)
    Kc = ctx.mat("K", n, m, pos=True, hi=hi)
    if not ctx.sym:
        ctx.assume(bool((Kc > 1e-9).all() and (a > 1e-6).all() and (b > 1e-6).all()))
    M = -ctx.np.log(Kc)
    kw = {}
    K = Kc
    if mode == "kl":
        K = Kc * (a[:, None] * b[None, :])
    elif mode == "entropy":
        kw["reg_type"] = "entropy"
    elif mode == "c":
        c = ctx.mat("c", n, m, pos=True, hi=2)
        if not ctx.sym:
            ctx.assume(bool((c > 1e-6).all()))
        kw["c"] = c
        K = Kc * c
    return a, b, M, K, kw


def fi(r):
    return 1 if r == INF else r / (r + 1)


def ref(ctx, a, b, K, r1, r2, it, v=None):
    n, m = K.shape
    v = [ctx.num(1)] * m if v is None else v
    for _ in range(it):
        u = [(a[i] / sum(K[i, j] * v[j] for j in range(m))) ** fi(r1) for i in range(n)]
        v = [(b[j] / sum(K[i, j] * u[i] for i in range(n))) ** fi(r2) for j in range(m)]
    return ctx.pack([[u[i] * K[i, j] * v[j] for j in range(m)] for i in range(n)]), u, v


def pair(r1, r2):
    return r1 if r1 == r2 else (r1, r2)


def agree(ctx, n, m, it, r1, r2, mode, methods=("sinkhorn", "sinkhorn_stabilized"), tau=INF):
    r1, r2 = frac(ctx, r1), frac(ctx, r2)
    a, b, M, K, kw = data(ctx, n, m, mode)
    R, u, v = ref(ctx, a, b, K, r1, r2, it)
    for me in methods:
        k2 = dict(kw, tau=tau) if me == "sinkhorn_stabilized" else kw
        a0, b0, M0 = ctx.snapshot(a), ctx.snapshot(b), ctx.snapshot(M)
        G, log = ctx.ot.unbalanced.sinkhorn_unbalanced(a, b, M, 1, pair(r1, r2), method=me, numItermax=it, stopThr=-1, log=True, **k2)
        ctx.check(me + ": plan is the iterate", ctx.eq(G, R))
        ctx.check(me + ": potentials give the plan", ctx.eq(ctx.np.exp(log["logu"][:, None] + log["logv"][None, :]) * K, G))
        ctx.check(me + ": linear cost", ctx.eq(log["cost"], ctx.np.sum(G * M)))
        if r2 == INF:
            ctx.check(me + ": hard column marginal", ctx.eq(ctx.np.sum(G, axis=0), b))
        c = ctx.snapshot(G) * 0 + 1 if mode == "entropy" else kw.get("c", a[:, None] * b[None, :])
        tot = ctx.np.sum(G * M) + ctx.np.sum(G * ctx.np.log(G / c)) - ctx.np.sum(G)
        if mode != "entropy":
            tot = tot + ctx.np.sum(c)
        g1, g2 = ctx.np.sum(G, axis=1), ctx.np.sum(G, axis=0)
        if r1 != INF:
            tot = tot + r1 * ctx.np.sum(g1 * ctx.np.log(g1 / a) - g1 + a)
        if r2 != INF:
            tot = tot + r2 * ctx.np.sum(g2 * ctx.np.log(g2 / b) - g2 + b)
        ctx.check(me + ": total cost", ctx.eq(log["total_cost"], tot))
        ctx.check(me + ": inputs kept", [ctx.eq(a, a0), ctx.eq(b, b0), ctx.eq(M, M0)])


def loss2(ctx, n, m, r1, r2, method, mode="kl", warm=False):
    """the loss function returns the linear / total cost of the plan, for every
    option of the plan function"""
    r1, r2 = frac(ctx, r1), frac(ctx, r2)
    a, b, M, K, kw = data(ctx, n, m, mode)
    un = ctx.ot.unbalanced
    k2 = dict(kw, numItermax=1, stopThr=-1, method=method)
    if warm:
        x, y = ctx.vec("x", n, pos=True, hi=2), ctx.vec("y", m, pos=True, hi=2)
        if not ctx.sym:
            ctx.assume(bool((x > 1e-3).all() and (y > 1e-3).all()))
        k2["warmstart"] = (ctx.np.log(x), ctx.np.log(y))
    G, log = un.sinkhorn_unbalanced(a, b, M, 1, pair(r1, r2), log=True, **k2)
    lin, log2 = un.sinkhorn_unbalanced2(a, b, M, 1, pair(r1, r2), log=True, **k2)
    ctx.check("linear", ctx.eq(lin, ctx.np.sum(G * M)))
    ctx.check("potentials", [ctx.eq(log2["logu"], log["logu"]), ctx.eq(log2["logv"], log["logv"])])
    if INF not in (r1, r2):
        tot = un.sinkhorn_unbalanced2(a, b, M, 1, pair(r1, r2), returnCost="total", **k2)
        ctx.check("total", ctx.eq(tot, log["total_cost"]))


def absorb(ctx, n, m, it, r, mode="entropy"):
    """potentials absorbed at any point: same iterate"""
    r = frac(ctx, r)
    a, b, M, K, kw = data(ctx, n, m, mode)
    tau = ctx.real("tau", lo=ctx.num("1/10"), hi=10)
    R, u, v = ref(ctx, a, b, K, r, r, it)
    G, log = ctx.ot.unbalanced.sinkhorn_unbalanced(a, b, M, 1, r, method="sinkhorn_stabilized", numItermax=it, stopThr=-1, log=True, tau=tau, **kw)
    ctx.check("plan is the iterate", ctx.eq(G, R))


def fixpoint(ctx, n, m, r1, r2, method, it=1, square=1):
    """started at the optimum, a method stays there; weights chosen so that
    the given scalings are optimal"""
    r1, r2 = frac(ctx, r1), frac(ctx, r2)
    K = ctx.mat("K", n, m, pos=True, hi=2)
    # scalings as powers, so that the weights are polynomial
    x, y = ctx.vec("x", n, pos=True, hi=2), ctx.vec("y", m, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((K > 1e-5).all() and (x > 1e-3).all() and (y > 1e-3).all()))
    u, v = x ** square, y ** square
    e1 = 1 if r1 == INF else (r1 + 1) / r1
    e2 = 1 if r2 == INF else (r2 + 1) / r2
    a = u ** e1 * ctx.np.dot(K, v)
    b = v ** e2 * ctx.np.dot(K.T, u)
    P = u[:, None] * K * v[None, :]
    M = -ctx.np.log(K)
    G, log = ctx.ot.unbalanced.sinkhorn_unbalanced(
        a, b, M, 1, pair(r1, r2), method=method, reg_type="entropy", warmstart=(ctx.np.log(u), ctx.np.log(v)), numItermax=it, stopThr=-1, log=True)
    ctx.check("the optimum is kept", ctx.eq(G, P))
    ctx.check("potentials", ctx.eq(log["logu"][:, None] + log["logv"][None, :], ctx.np.log(u)[:, None] + ctx.np.log(v)[None, :]))


def ti_shift(ctx, n, m, r1, r2):
    """translation invariance: a warm start shifted by a constant gives the same iterate"""
    r1, r2 = frac(ctx, r1), frac(ctx, r2)
    a, b, M, K, kw = data(ctx, n, m, "entropy")
    t = ctx.real("t", pos=True, hi=4)
    if not ctx.sym:
        ctx.assume(t > 1e-3)
    y = ctx.vec("y", m, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((y > 1e-3).all()))
    un = ctx.ot.unbalanced
    out = []
    for s in (1, t):
        v = y * s
        G = un.sinkhorn_unbalanced(a, b, M, 1, pair(r1, r2), method="sinkhorn_translation_invariant", reg_type="entropy",
                                   warmstart=(ctx.np.log(v[:1]) * ctx.np.log(a) * 0, ctx.np.log(v)), numItermax=1, stopThr=-1)
        out.append(G)
    ctx.check("the iterate does not depend on the shift", ctx.eq(out[0], out[1]))


def multi(ctx, n, m, k, it, r, method):
    """several targets at once: the linear loss of each (entropy regularisation)"""
    r = frac(ctx, r)
    a = ctx.vec("a", n, pos=True, hi=3)
    B = ctx.mat("b", m, k, pos=True, hi=3)
    Kc = ctx.mat("K", n, m, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((Kc > 1e-6).all() and (a > 1e-6).all() and (B > 1e-6).all()))
        ctx.assume(bool((Kc < 0.999).all()))
    M = -ctx.np.log(Kc)
    if ctx.sym:
        ctx.assume([ctx.lt(Kc, ctx.num("99/100"))])
    un = ctx.ot.unbalanced
    kw = dict(method=method, reg_type="entropy", numItermax=it, stopThr=-1)
    if method == "sinkhorn_stabilized":
        kw["tau"] = INF
    L = un.sinkhorn_unbalanced2(a, B, M, 1, r, **kw)
    for j in range(k):
        G = un.sinkhorn_unbalanced(a, ctx.snapshot(B[:, j]), M, 1, r, **kw)
        ctx.check("loss of target", ctx.eq(L[j], ctx.np.sum(G * M)))


def warm(ctx, n, m, k, l, r1, r2, method):
    """continuing from the returned potentials equals running longer"""
    r1, r2 = frac(ctx, r1), frac(ctx, r2)
    a, b, M, K, kw = data(ctx, n, m, "entropy")
    un = ctx.ot.unbalanced
    kw.update(method=method, stopThr=-1, log=True)
    if method == "sinkhorn_stabilized":
        kw["tau"] = INF
    G1, l1 = un.sinkhorn_unbalanced(a, b, M, 1, pair(r1, r2), numItermax=k, **kw)
    G2, _ = un.sinkhorn_unbalanced(a, b, M, 1, pair(r1, r2), numItermax=l, warmstart=(l1["logu"], l1["logv"]), **kw)
    R, _, _ = ref(ctx, a, b, K, r1, r2, k + l)
    ctx.check("continuation", ctx.eq(G2, R))


def multi_warm(ctx, n, m, k, r, method):
    """warm start with several targets: the losses of the continued runs"""
    r = frac(ctx, r)
    a = ctx.vec("a", n, pos=True, hi=3)
    B = ctx.mat("b", m, k, pos=True, hi=3)
    Kc = ctx.mat("K", n, m, pos=True, hi=2)
    V = ctx.mat("V", m, k, pos=True, hi=2)
    U = ctx.mat("U", n, k, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((Kc > 1e-6).all() and (a > 1e-6).all() and (B > 1e-6).all() and (V > 1e-6).all() and (U > 1e-6).all()))
        ctx.assume(bool((Kc < 0.999).all()))
    else:
        ctx.assume([ctx.lt(Kc, ctx.num("99/100"))])
    M = -ctx.np.log(Kc)
    un = ctx.ot.unbalanced
    kw = dict(method=method, reg_type="entropy", numItermax=1, stopThr=-1)
    if method == "sinkhorn_stabilized":
        kw["tau"] = INF
    lu, lv = ctx.np.log(U), ctx.np.log(V)
    L = un.sinkhorn_unbalanced2(a, B, M, 1, r, warmstart=(lu, lv), **kw)
    for j in range(k):
        G = un.sinkhorn_unbalanced(a, ctx.snapshot(B[:, j]), M, 1, r, warmstart=(ctx.snapshot(lu[:, j]), ctx.snapshot(lv[:, j])), **kw)
        ctx.check("loss of target", ctx.eq(L[j], ctx.np.sum(G * M)))


def err(ctx, n, m, r, method):
    """stops exactly when the reported change of the scalings is below the threshold"""
    r = frac(ctx, r)
    a, b, M, K, kw = data(ctx, n, m, "entropy")
    _, u1, v1 = ref(ctx, a, b, K, r, r, 1)
    _, u2, v2 = ref(ctx, a, b, K, r, r, 2)
    if method == "sinkhorn_stabilized":
        kw["tau"] = INF
    G, log = ctx.ot.unbalanced.sinkhorn_unbalanced(a, b, M, 1, r, method=method, numItermax=2, stopThr=-1, log=True, **kw)

    def rel(p, q):
        d = max([abs(x - y) for x, y in zip(p, q)])
        return d / max([abs(x) for x in p] + [abs(x) for x in q] + [1])

    if method == "sinkhorn":
        ctx.check("error", ctx.eq(log["err"][1], (rel(u2, u1) + rel(v2, v1)) / 2))
    ctx.check("count", len(log["err"]) == (2 if method == "sinkhorn" else 1))


def bary(ctx, n, k, it, r, method, absorb=False, few=False):
    r = ctx.num(r)
    if few:
        # one histogram whose scalings are rational, so that several absorptions can be followed
        K = ctx.arr([["1", "1/2", "1/4", "1/4"], ["1/3", "1", "1/3", "1/3"], ["1/2", "1", "1/5", "3/10"], ["1/6", "1/2", "1/3", "1"]])
        y = [ctx.real("y", lo=ctx.num("1/8"), hi=8), ctx.num(2), ctx.real("z", lo=ctx.num("1/8"), hi=8), ctx.num("1/4")]
        A, w = ctx.pack([[2 * y[i] * y[i]] for i in range(4)]), ctx.arr(["4"])
    else:
        A = ctx.mat("A", n, k, pos=True, hi=3)
        K = ctx.mat("K", n, n, pos=True, hi=2)
        w = ctx.weights("w", k, pos=True)
    if not ctx.sym:
        ctx.assume(bool((K > 1e-6).all() and (A > 1e-6).all() and (w > 1e-6).all()))
    M = -ctx.np.log(K)
    f = fi(r)
    s = ctx.num(1) / n if method == "sinkhorn_stabilized" else ctx.num(1)
    v = [[s] * k for _ in range(n)]
    for _ in range(it):
        u = [[(A[i, l] / sum(K[i, j] * v[j][l] for j in range(n))) ** f for l in range(k)] for i in range(n)]
        KTu = [[sum(K[i, j] * u[i][l] for i in range(n)) for l in range(k)] for j in range(n)]
        q = [sum(w[l] * KTu[j][l] ** (1 - f) for l in range(k)) ** (1 / (1 - f)) for j in range(n)]
        v = [[(q[j] / KTu[j][l]) ** f for l in range(k)] for j in range(n)]
    kw = {}
    if method == "sinkhorn_stabilized":
        kw["tau"] = ctx.real("tau", lo=ctx.num("1/10"), hi=10) if absorb and not few else absorb if few else INF
    Q, log = ctx.ot.unbalanced.barycenter_unbalanced(A, M, 1, r, method=method, weights=w, numItermax=it, stopThr=-1, log=True, **kw)
    ctx.check("barycenter iterate", ctx.eq(Q, ctx.pack(q)))


CASES = []
for n, m in ((2, 2), (2, 3)):
    for r1, r2 in (("1", "1"), ("1", "2"), ("1/2", INF), (INF, "1/2"), (INF, INF)):
        for mode in ("kl", "entropy", "c"):
            for it in (1, 2):
                q = (n, m) == (2, 2) and (it == 1 or r1 == r2 or mode == "entropy") or (n, m, it, mode) == (2, 3, 1, "kl")
                CASES.append(Case("agree_%d%d_%s_%s_%s_%d" % (n, m, str(r1).replace("/", ""), str(r2).replace("/", ""), mode, it), agree,
                                  n=n, m=m, it=it, r1=r1, r2=r2, mode=mode, opt_lazymax=True, tier="quick" if q else "thorough"))
for me in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    CASES.append(Case("loss_" + me[8:], loss2, n=2, m=2, r1="1", r2="2" if me != "sinkhorn_translation_invariant" else INF, method=me, opt_lazymax=True))
    for mode in ("c", "entropy"):
        CASES.append(Case("loss_%s_%s" % (mode, me[8:]), loss2, n=2, m=2, r1="1", r2="2" if me != "sinkhorn_translation_invariant" else INF, method=me, mode=mode, opt_lazymax=True))
    CASES.append(Case("loss_warm_" + me[8:], loss2, n=2, m=2, r1="1", r2="1", method=me, mode="entropy", warm=True, opt_lazymax=True))
CASES.append(Case("loss_reg_scaling", loss2, n=2, m=2, r1="1", r2="2", method="sinkhorn_reg_scaling", mode="c", opt_lazymax=True))
for me in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    for r1, r2, sq in (("1", "1", 2), ("1", "2", 4), ("2", "1", 4), ("1/2", INF, 2), (INF, "1/2", 2), (INF, INF, 1)):
        CASES.append(Case("fix_%s_%s_%s" % (me[8:], str(r1).replace("/", ""), str(r2).replace("/", "")), fixpoint, n=2, m=2, r1=r1, r2=r2, method=me, square=sq, opt_lazymax=True))
    CASES.append(Case("multi_" + me[8:], multi, n=2, m=2, k=2, it=1, r="1", method=me, opt_lazymax=True))
    CASES.append(Case("multi_warm_" + me[8:], multi_warm, n=2, m=2, k=2, r="1", method=me, opt_lazymax=True))
    CASES.append(Case("multi_warm3_" + me[8:], multi_warm, n=3, m=2, k=2, r="1", method=me, opt_lazymax=True, tier="thorough"))
    if me != "sinkhorn_translation_invariant":
        CASES.append(Case("warm_" + me[8:], warm, n=2, m=2, k=1, l=1, r1="1", r2="2", method=me, opt_lazymax=True))
        CASES.append(Case("err_" + me[8:], err, n=2, m=2, r="1", method=me, opt_lazymax=True))
for r1, r2 in (("1", "2"), ("1", "1"), (INF, "1")):
    CASES.append(Case("shift_%s_%s" % (r1, r2), ti_shift, n=2, m=2, r1=r1, r2=r2, opt_lazymax=True))
for it in (1, 2, 3):
    CASES.append(Case("absorb_%d" % it, absorb, n=2, m=2, it=it, r="1", opt_lazymax=True, tier="quick" if it < 3 else "thorough"))
for me in ("sinkhorn", "sinkhorn_stabilized"):
    for it in (1, 2):
        CASES.append(Case("bary_%s_%d" % (me[8:], it), bary, n=2, k=2, it=it, r="1", method=me, opt_lazymax=True))
CASES += [Case("bary_absorb_%s_%d" % (t, i), bary, n=4, k=1, it=i, r="1", method="sinkhorn_stabilized", absorb=t, few=True) for t in (0.125, 4.5) for i in (2, 3)]
CASES.append(Case("bary_absorb", bary, tier="thorough", n=2, k=2, it=2, r="1", method="sinkhorn_stabilized", absorb=True, opt_lazymax=True))
QUICK_WALL = 12
