"""C34 stochastic and weak transport: (partial) gradients, updates, potentials, plans and losses."""
import itertools

from symx.worker import Case
from props.c29 import bind, pts, tot, sq, PTS, QTS

QUICK_WALL = 15
BOUNDS = "2-3 source and target points, symbolic potentials, costs or weights (kernels exp(-M/reg) symbolic), one to three stochastic steps, every draw or batch for the expectations"
STUBS = ["random draws are prescribed (all of them for the expectations)", "weak transport: the conditional gradient (decided by C12) is recorded and returns an arbitrary plan"]
MV = [["1/2", "1", "3"], ["2", "1/4", "3/2"], ["1/3", "2", "1"]]
AV = [[["1"], ["1/4", "3/4"], ["1/2", "1/3", "1/6"]], [["1"], ["2/3", "1/3"], ["1/5", "2/5", "2/5"]]]
KV = [["1/2", "1/3", "1/5"], ["1/4", "2/3", "3/4"], ["3/5", "1/6", "2/5"]]


def wts(ctx, n, k, free=False):
    w = [ctx.num(x) for x in AV[k][n - 1]]
    if free:
        w[0] = ctx.real("ab"[k], lo="1/10", hi="9/10" if n < 3 else "1/2")
        w[1] = 1 - w[0] - tot(w[2:]) if n > 2 else 1 - w[0]
    return w


def kernel(ctx, n, m, reg, free=("00",)):
    """costs whose kernel exp(-M / reg) is a number"""
    K = [[ctx.num(KV[i][j]) for j in range(m)] for i in range(n)]
    for s in free:
        K[int(s[0])][int(s[1])] = ctx.real("k" + s, lo="1/20", hi=1)
    return K, ctx.pack([[-reg * ctx.log(x) for x in r] for r in K])


class Rng:
    def __init__(self, seq, np):
        self.seq, self.np, self.asked = list(seq), np, []

    def randint(self, *z):
        self.asked.append(z)
        return self.seq[len(self.asked) - 1]

    def choice(self, a, size=None, replace=True, **k):
        self.asked.append((a, size, replace) + tuple(k.items()))
        return self.np.array(self.seq[len(self.asked) - 1])


def semi_grad(E, b, beta_reg, i, ctx):
    """gradient of the semi-dual at sample i; E: kernel, beta_reg: beta / reg"""
    z = [E[i][j] * ctx.exp(beta_reg[j]) * b[j] for j in range(len(b))]
    s = tot(z)
    return [b[j] - z[j] / s for j in range(len(b))]


def coordinate(ctx, n, m, reg, free):
    S = ctx.ot.stochastic
    r = ctx.num(reg)
    K, M = kernel(ctx, n, m, r)
    b = wts(ctx, m, 1, "b" in free)
    be = [ctx.real("be%d" % j, lo=-1, hi=1) if j == 0 else ctx.num("%d/5" % j) for j in range(m)]
    bp, beta = ctx.pack(b), ctx.pack(be)
    for i in range(n):
        g = S.coordinate_grad_semi_dual(bp, M, r if ctx.sym else float(r), beta, i)
        ctx.check("gradient of the semi-dual", [ctx.eq(g, ctx.pack(semi_grad(K, b, [x / r for x in be], i, ctx))), ctx.eq(tot([g[j] for j in range(m)]), 0)])


def transform(ctx, n, m, reg):
    """soft c-transform: the plan of the potentials has the source marginal"""
    S = ctx.ot.stochastic
    r = ctx.num(reg)
    K, M = kernel(ctx, n, m, r)
    b = wts(ctx, m, 1, True)
    be = [ctx.num("%d/5" % (2 * j - 1)) for j in range(m)]
    al = S.c_transform_entropic(ctx.pack(b), M, r if ctx.sym else float(r), ctx.pack(be))
    # exp(alpha_i / reg) * sum_j exp((beta_j - M_ij) / reg) b_j = 1
    ctx.check("soft c-transform", [ctx.eq(ctx.exp(al[i] / r) * tot(K[i][j] * ctx.exp(be[j] / r) * b[j] for j in range(m)), 1) for i in range(n)])


def expected_first(ctx, n, m, reg, which, free):
    """averaged over the draws, the first step is along the gradient of the semi-dual with the source weights"""
    import numpy
    S = ctx.ot.stochastic
    r = ctx.num(reg)
    K, M = kernel(ctx, n, m, r, free)
    a, b = wts(ctx, n, 0, "a" in free or True), wts(ctx, m, 1)
    ap, bp = ctx.pack(a), ctx.pack(b)
    E = [ctx.num(0)] * m
    for i in range(n):
        g = Rng([i], numpy)
        ctx.patch(S, "check_random_state", lambda s: g)
        f = S.sag_entropic_transport if which == "sag" else S.averaged_sgd_entropic_transport
        be = f(ap, bp, M, r if ctx.sym else float(r), numItermax=1, lr=0.5)
        ctx.check("uniform draws", [g.asked == [(n,)]])
        E = [x + be[j] / n for j, x in enumerate(E)]
    G = [semi_grad(K, b, [ctx.num(0)] * m, i, ctx) for i in range(n)]
    D = [tot(a[i] * G[i][j] for i in range(n)) for j in range(m)]
    s = ctx.num("1/2") / (n * n) if which == "sag" else ctx.num("1/2")
    ctx.check("expected step", [ctx.eq(E[j], s * D[j]) for j in range(m)])


def steps(ctx, n, m, reg, which, seq, lr=True, free=("00",), fa=False, method=None, log=True):
    """the iterates for given draws, and the plan of the averaged solution"""
    import numpy
    S = ctx.ot.stochastic
    r = ctx.num(reg)
    K, M = kernel(ctx, n, m, r, free)
    a, b = wts(ctx, n, 0, fa), wts(ctx, m, 1)
    ap, bp = ctx.pack(a), ctx.pack(b)
    keep = [ctx.snapshot(x) for x in (ap, bp, M)]
    g = Rng(seq, numpy)
    seeds = []
    ctx.patch(S, "check_random_state", lambda s: seeds.append(s) or g)
    rv = r if ctx.sym else float(r)
    if lr:
        step, kw = ctx.num("1/2"), dict(lr=0.5)
    else:
        # one over the largest weight over reg
        k = 0
        for i in range(1, n):
            if ctx.test(a[i] > a[k]):
                k = i
        step, kw = r / a[k], {}
    be, ave = [ctx.num(0)] * m, [ctx.num(0)] * m
    st = [[ctx.num(0)] * m for _ in range(n)]
    for t, i in enumerate(seq):
        G = semi_grad(K, b, [x / r for x in be], i, ctx)
        if which == "sag":
            st[i] = [a[i] * x for x in G]
            be = [x + step / n * tot(st[u][j] for u in range(n)) for j, x in enumerate(be)]
        else:
            be = [x + step / ctx.sqrt(ctx.num(t + 1)) * n * a[i] * G[j] for j, x in enumerate(be)]
            ave = [(x + t * y) / (t + 1) for x, y in zip(be, ave)]
    want = be if which == "sag" else ave
    if method is None:
        f = S.sag_entropic_transport if which == "sag" else S.averaged_sgd_entropic_transport
        out = f(ap, bp, M, rv, numItermax=len(seq), random_state=5, **kw)
        ctx.check("seed", [seeds == [5]])
        ctx.check("potential", ctx.eq(out, ctx.pack(want)))
    else:
        res = S.solve_semi_dual_entropic(ap, bp, M, rv, method, numItermax=len(seq), log=log, **kw)
        P = res[0] if log else res
        if log:
            ctx.check("potential", ctx.eq(res[1]["beta"], ctx.pack(want)))
        Z = [tot(K[i][j] * ctx.exp(want[j] / r) * b[j] for j in range(m)) for i in range(n)]
        ctx.check("plan", [ctx.eq(P[i, j] * Z[i], a[i] * b[j] * K[i][j] * ctx.exp(want[j] / r)) for i in range(n) for j in range(m)])
        ctx.check("source marginal", ctx.eq(ctx.np.sum(P, axis=1), ap))
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in zip((ap, bp, M), keep)])


def unknown_method(ctx):
    S = ctx.ot.stochastic
    ctx.patch(S, "print", lambda *z: None)
    K, M = kernel(ctx, 2, 2, ctx.num(1))
    ctx.check("unknown methods give nothing", [S.solve_semi_dual_entropic(ctx.pack(wts(ctx, 2, 0)), ctx.pack(wts(ctx, 2, 1)), M, 1.0, "other") is None])


def batch(ctx, n, m, reg, free):
    """averaged over the batches, the partial gradients are the scaled gradient of the dual"""
    S = ctx.ot.stochastic
    import numpy
    r = ctx.num(reg)
    K, M = kernel(ctx, n, m, r, free)
    a, b = wts(ctx, n, 0, True), wts(ctx, m, 1)
    al, be = [ctx.num("%d/4" % i) for i in range(n)], [ctx.num("%d/3" % (1 - j)) for j in range(m)]
    x = [[K[i][j] * ctx.exp((al[i] + be[j]) / r) * a[i] * b[j] for j in range(m)] for i in range(n)]
    for s in range(1, min(n, m) + 1):
        EA, EB = [ctx.num(0)] * n, [ctx.num(0)] * m
        U, V = list(itertools.combinations(range(n), s)), list(itertools.combinations(range(m), s))
        for u in U:
            for v in V:
                ga, gb = S.batch_grad_dual(ctx.pack(a), ctx.pack(b), M, r if ctx.sym else float(r), ctx.pack(al), ctx.pack(be), s, numpy.array(u), numpy.array(v))
                ctx.check("partial gradients", [ctx.eq(ga[i], (a[i] * ctx.num(s) / m - tot(x[i][j] for j in v)) if i in u else 0) for i in range(n)] + [ctx.eq(gb[j], (b[j] * ctx.num(s) / n - tot(x[i][j] for i in u)) if j in v else 0) for j in range(m)])
                EA, EB = [e + ga[i] for i, e in enumerate(EA)], [e + gb[j] for j, e in enumerate(EB)]
        # every pair (i, j) is drawn |U||V| s^2 / (n m) times
        f = ctx.num(len(U) * len(V) * s * s) / (n * m)
        ctx.check("expected gradients", [ctx.eq(EA[i], f * (a[i] - tot(x[i]))) for i in range(n)] + [ctx.eq(EB[j], f * (b[j] - tot(x[i][j] for i in range(n)))) for j in range(m)])


def dual_steps(ctx, n, m, reg, size, seq, solve=False, log=True, free=("00",), fa=False):
    import numpy
    S = ctx.ot.stochastic
    r = ctx.num(reg)
    K, M = kernel(ctx, n, m, r, free)
    a, b = wts(ctx, n, 0, fa), wts(ctx, m, 1)
    ap, bp = ctx.pack(a), ctx.pack(b)
    g = Rng([z for t in seq for z in t], numpy)
    seeds = []
    ctx.patch(S, "check_random_state", lambda s: seeds.append(s) or g)
    rv = r if ctx.sym else float(r)
    al, be = [ctx.num(0)] * n, [ctx.num(0)] * m
    for t, (u, v) in enumerate(seq):
        x = [[K[i][j] * ctx.exp((al[i] + be[j]) / r) * a[i] * b[j] for j in range(m)] for i in range(n)]
        h = ctx.num("1/2") / ctx.sqrt(ctx.num(t + 1))
        al, be = [al[i] + (h * (a[i] * ctx.num(size) / m - tot(x[i][j] for j in v)) if i in u else 0) for i in range(n)], [be[j] + (h * (b[j] * ctx.num(size) / n - tot(x[i][j] for i in u)) if j in v else 0) for j in range(m)]
    if not solve:
        A, B = S.sgd_entropic_regularization(ap, bp, M, rv, size, len(seq), 0.5, 5)
        ctx.check("seed", [seeds == [5]])
        ctx.check("potentials", [ctx.eq(A, ctx.pack(al)), ctx.eq(B, ctx.pack(be))])
    else:
        res = S.solve_dual_entropic(ap, bp, M, rv, size, len(seq), 0.5, log)
        P = res[0] if log else res
        ctx.check("plan", ctx.eq(P, ctx.pack([[K[i][j] * ctx.exp((al[i] + be[j]) / r) * a[i] * b[j] for j in range(m)] for i in range(n)])))
        if log:
            ctx.check("potentials", [ctx.eq(res[1]["alpha"], ctx.pack(al)), ctx.eq(res[1]["beta"], ctx.pack(be))])
    ctx.check("batches", [g.asked == [z for _ in seq for z in ((n, size, False), (m, size, False))]])


def losses(ctx, n, m, which, reg, weights=True, metric="sqeuclidean", fu=True):
    """dual losses, their plans, and the plan as the gradient of the loss"""
    S = ctx.ot.stochastic
    r = ctx.num(reg) if reg != "sym" else ctx.real("reg", lo="1/4", hi=2)
    d = 1 if weights or metric == "cityblock" else 4
    X, Y = pts(ctx, [r + ["1", "1/3"] for r in PTS], n, d, [] if fu else ["00"]), pts(ctx, [r + ["1/2", "1"] for r in QTS], m, d)
    a, b = (wts(ctx, n, 0), wts(ctx, m, 1)) if weights else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    u = [ctx.real("u%d" % i, lo=-2, hi=4) for i in range(n)]
    v = [ctx.real("v%d" % j, lo=-2, hi=4) if j == 0 else ctx.num("%d/3" % j) for j in range(m)]
    up, vp = ctx.pack(u), ctx.pack(v)
    M = [[sq([X[i, c] for c in range(d)], [Y[j, c] for c in range(d)]) for j in range(m)] for i in range(n)]
    kw = dict(reg=r if ctx.sym else float(r))
    if weights:
        kw.update(ws=ctx.pack(a), wt=ctx.pack(b))
    if metric == "call":
        M = [[2 * x + 1 for x in y] for y in M]
        kw["metric"] = lambda p, q: 2 * (p - q.T) * (p - q.T) + 1
    elif metric == "cityblock":
        M = [[abs(X[i, 0] - Y[j, 0]) for j in range(m)] for i in range(n)]
        kw["metric"] = metric
    loss, plan = (S.loss_dual_entropic, S.plan_dual_entropic) if which == "ent" else (S.loss_dual_quadratic, S.plan_dual_quadratic)
    L, P = loss(up, vp, X, Y, **kw), plan(up, vp, X, Y, **kw)
    pen = 0
    Q = []
    for i in range(n):
        for j in range(m):
            s = u[i] + v[j] - M[i][j]
            if which == "ent":
                e = ctx.exp(s / r)
                pen = pen - r * e * a[i] * b[j]
                Q.append(a[i] * b[j] * e)
            else:
                e = s if ctx.test(s > 0) else 0
                pen = pen - e * e / (4 * r) * a[i] * b[j]
                Q.append(a[i] * b[j] * e / (2 * r))
    ctx.check("loss", ctx.eq(L, tot(x * y for x, y in zip(u, a)) + tot(x * y for x, y in zip(v, b)) + pen))
    ctx.check("plan", [ctx.eq(P[i, j], Q[i * m + j]) for i in range(n) for j in range(m)])
    ctx.check_grad("marginals are the gradient", lambda z: loss(z, vp, X, Y, **kw), up, ctx.pack(a) - ctx.np.sum(P, axis=1), val=L)


def weak(ctx, n, m, d, weights=True, G0=False, log=False, zero=False, free=("t",)):
    W = ctx.ot.weak
    X, Y = pts(ctx, PTS, n, d, ["00"]), pts(ctx, QTS, m, d, ["%d%d" % (m - 1, d - 1)], "y")
    a, b = (wts(ctx, n, 0, "a" in free), wts(ctx, m, 1)) if weights else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    if zero:
        a = [ctx.num(0)] + [x / (1 - a[0]) for x in a[1:]]
    ap, bp = ctx.pack(a), ctx.pack(b)
    calls = []
    out = ctx.pack([[ctx.num("%d/9" % (i + j + 1)) for j in range(m)] for i in range(n)])
    orig = W.cg

    def cg(*z, **k):
        calls.append(bind(orig, z, k))
        return (out, {"u": ap, "v": bp, "loss": 3}) if k.get("log") else out
    ctx.patch(W, "cg", cg)
    T0 = ctx.pack([[ctx.num("%d/7" % (2 * i + j + 1)) for j in range(m)] for i in range(n)])
    kw = dict(G0=T0) if G0 else {}
    if weights:
        kw.update(a=ap, b=bp)
    r = W.weak_optimal_transport(X, Y, log=log, verbose=False, numItermax=17, stopThr=1e-3, **kw)
    c = calls[0]
    P = r[0] if log else r
    ctx.check("result of the solver", [ctx.eq(P, out), len(calls) == 1] + ([ctx.eq(r[1]["u"], ap), ctx.eq(r[1]["v"], bp), r[1]["loss"] == 3] if log else []))
    ctx.check("problem", [ctx.eq(c["a"], ap), ctx.eq(c["b"], bp), ctx.eq(c["M"], 0) if not hasattr(c["M"], "shape") else ctx.eq(c["M"], ctx.np.zeros((n, m))), c["reg"] == 1, ctx.eq(c["G0"], T0 if G0 else ctx.pack([[x * y for y in b] for x in a])), c["numItermax"] == 17, c["stopThr"] == 1e-3])
    # at a plan with the given source marginal
    T = [[a[i] * b[j] for j in range(m)] for i in range(n)]
    e = ctx.real("t", lo=0, hi="1/50") if "t" in free else ctx.num("1/40")
    k = 1 if zero else 0
    if n > k + 1:
        T[k][0], T[k][1], T[k + 1][0], T[k + 1][1] = T[k][0] + e, T[k][1] - e, T[k + 1][0] - e, T[k + 1][1] + e
    Tp = ctx.pack(T)
    v, g = c["f"](Tp), c["df"](Tp)
    obj, grad = 0, []
    for i in range(n):
        # a_i |x_i - bary_i|^2 = |a_i x_i - T_i y|^2 / a_i
        R = [a[i] * X[i, c_] - tot(T[i][j] * Y[j, c_] for j in range(m)) for c_ in range(d)]
        if ctx.test(a[i] > 0):
            obj = obj + tot(x * x for x in R) / a[i]
            grad.append([-2 * tot(R[c_] * Y[j, c_] for c_ in range(d)) / a[i] for j in range(m)])
        else:
            grad.append(None)
    ctx.check("objective", ctx.eq(v, obj))
    ctx.check("gradient", [ctx.eq(g[i, j], grad[i][j]) for i in range(n) for j in range(m) if grad[i] is not None])
    ctx.check("finite", [ctx.eq(g[i, j], g[i, j]) for i in range(n) for j in range(m)])


CASES = []
for n, m, reg, f in ((2, 2, "1", ("00",)), (2, 3, "1/2", ("b",)), (3, 2, "2", ("b",))):
    CASES.append(Case("grad_%d%d_%s" % (n, m, reg), coordinate, n=n, m=m, reg=reg, free=f))
for n, m, reg in ((2, 2, "1"), (2, 3, "1/2"), (3, 3, "2")):
    CASES.append(Case("ctr_%d%d_%s" % (n, m, reg), transform, n=n, m=m, reg=reg))
for w in ("sag", "asgd"):
    for n, m, reg in ((2, 2, "1"), (3, 2, "1/2"), (2, 3, "2")):
        CASES.append(Case("exp_%s_%d%d" % (w, n, m), expected_first, n=n, m=m, reg=reg, which=w, free=("00",)))
    for n, m, reg, seq, lr, fr, fa in ((2, 2, "1", (0,), False, ("00",), True), (2, 2, "1", (0, 1), True, ("00",), False), (2, 3, "1/2", (1, 1) if w == "sag" else (1,), True, ("10",) if w == "sag" else (), False), (3, 2, "2", (2, 0, 2), True, (), False), (3, 2, "1/2", (1, 0), False, (), False), (2, 2, "1", (1, 0, 1, 0), True, (), False)):
        CASES.append(Case("it_%s_%d%d_%s" % (w, n, m, "".join(map(str, seq))), steps, n=n, m=m, reg=reg, which=w, seq=seq, lr=lr, free=fr, fa=fa))
for me, w, n, m, reg, seq, lr, fr, lg in (("SAG", "sag", 2, 2, "1", (0, 1), True, ("00",), True), ("asgd", "asgd", 2, 3, "1/2", (1,), True, (), True), ("asgd", "asgd", 2, 2, "1", (0,), True, ("01",), True), ("sag", "sag", 3, 2, "1", (2,), False, (), False), ("ASGD", "asgd", 2, 2, "1", (1,), True, (), False)):
    CASES.append(Case("sol_%s_%d%d_%d" % (me, n, m, len(seq)), steps, n=n, m=m, reg=reg, which=w, seq=seq, lr=lr, free=fr, method=me, log=lg))
CASES.append(Case("unknown", unknown_method))
for n, m, reg in ((2, 2, "1"), (3, 2, "1/2"), (2, 3, "2")):
    CASES.append(Case("bat_%d%d" % (n, m), batch, n=n, m=m, reg=reg, free=("00",)))
for n, m, reg, s, seq, so, lg, fa in ((2, 2, "1", 1, [((0,), (1,))], False, False, True), (2, 3, "1/2", 2, [((1, 0), (2, 0))], False, False, False), (2, 2, "1", 1, [((0,), (1,)), ((1,), (0,))], False, False, False), (2, 3, "1", 1, [((0,), (1,)), ((0,), (0,))], False, False, False),
                                       (3, 2, "1", 1, [((2,), (0,))], True, True, False), (2, 2, "1", 1, [((1,), (0,))], True, False, False), (3, 2, "2", 2, [((0, 2), (1, 0))], True, True, False)):
    CASES.append(Case("dual_%d%d_%d_%d%s%d" % (n, m, s, len(seq), "s" if so else "", seq[-1][0][0]), dual_steps, n=n, m=m, reg=reg, size=s, seq=seq, solve=so, log=lg, fa=fa))
for w in ("ent", "quad"):
    for n, m, reg, wt, me, fu in ((2, 2, "1", True, "sqeuclidean", True), (2, 3, "1/2", False, "sqeuclidean", True), (3, 2, "2", True, "call", True), (2, 2, "1/4", False, "cityblock", True)):
        CASES.append(Case("loss_%s_%d%d_%s" % (w, n, m, me), losses, n=n, m=m, which=w, reg=reg, weights=wt, metric=me, fu=fu))
for n, m, d, wt, g0, lg, z, fr in ((2, 2, 1, True, False, True, False, ("t",)), (2, 3, 2, False, True, False, False, ("t",)), (3, 2, 1, False, False, True, False, ("t",)), (3, 2, 2, True, False, True, False, ("a",)), (3, 3, 1, True, True, False, False, ("t",)), (3, 2, 1, True, False, True, True, ("t",)), (2, 2, 2, True, False, False, True, ())):
    CASES.append(Case("weak_%d%d_%d%s%s" % (n, m, d, "_g" if g0 else "", "_z" if z else ""), weak, n=n, m=m, d=d, weights=wt, G0=g0, log=lg, zero=z, free=fr))
