"""C36 unbalanced transport on the line and on slices: reweighted marginals, Frank-Wolfe potentials, costs."""
import numpy

from symx.worker import Case
from props.c29 import bind, tot

QUICK_WALL = 15
WITNESS_TOL = 2e-6
BOUNDS = "2-3 points per side, one to three slices, one to three Frank-Wolfe steps, symbolic weights, relaxations or potentials"
STUBS = ["the balanced one-dimensional problems (decided by C05): dual potentials and costs are prescribed, the sorted values and the weights they are computed from are compared", "the numpy backend stands for torch and jax, whose automatic differentiation only enters the balanced potentials"]
XV = [["1", "1/2", "-1"], ["-1", "2", "0"], ["3/2", "-1/2", "2"]]
YV = [["1/2", "1", "-2"], ["2", "-1", "1"], ["-1/2", "0", "1/2"]]
AV = [["1/4", "1/2", "1/8"], ["3/4", "1/3", "3/8"]]
BV = [["1/3", "1/6", "1/4"], ["2/3", "1/4", "1/2"]]
KV = [["1/2", "3/4", "1/3"], ["2", "1/3", "5/4"], ["4/5", "3/2", "2/3"]]
INF = float("inf")


def backend(ctx, *mods):
    nx0 = type(ctx.ot.backend.NumpyBackend())

    class NX(nx0):
        __name__ = "torch"
    nx = NX(*[])
    for m in mods:
        ctx.patch(m, "get_backend", lambda *a: nx)
    return nx


def sort_perm(ctx, col):
    ix = list(range(len(col)))
    for i in range(1, len(ix)):
        j = i
        while j and ctx.test(col[ix[j]] < col[ix[j - 1]]):
            ix[j], ix[j - 1] = ix[j - 1], ix[j]
            j -= 1
    return ix


def power(ctx, x, e):
    return ctx.exp(e * ctx.log(x))


def translation(ctx, f, g, a, b, r1, r2):
    """potential shift that equalises the reweighted masses"""
    if r1 == INF and r2 == INF:
        return ctx.num(0)
    A = tot(a) if r1 == INF else tot(x * ctx.exp(-z / r1) for x, z in zip(a, f))
    B = tot(b) if r2 == INF else tot(x * ctx.exp(-z / r2) for x, z in zip(b, g))
    t = r2 if r1 == INF else r1 if r2 == INF else r1 * r2 / (r1 + r2)
    return t * (ctx.log(A) - ctx.log(B))


def reweighted(ctx, w, f, r):
    return list(w) if r == INF else [x * ctx.exp(-z / r) for x, z in zip(w, f)]


def kl(ctx, p, q):
    return tot(x * ctx.log(x / y) - x + y for x, y in zip(p, q))


def reg(ctx, which):
    """pair of relaxations and the argument that stands for them"""
    v = {"1": 1.0, "1/2": 0.5, "2": 2.0}
    if isinstance(which, str):
        r = ctx.num(which)
        return r, r, v[which]
    r1, r2 = [INF if w is None else ctx.num(w) for w in which]
    return r1, r2, tuple(INF if w is None else v[w] for w in which)


class Balanced:
    """prescribed potentials and costs of the balanced problems; keeps what it is asked"""

    def __init__(self, ctx, mod, n, m, K, rs, steps, free):
        self.duals, self.costs = [], []
        self.pot = []
        for t in range(steps):
            P = []
            for side, (N, r) in enumerate(((n, rs[0]), (m, rs[1]))):
                r = ctx.num(1) if r == INF else r
                k = [[ctx.num(KV[(i + t) % 3][(s + side) % 3]) for s in range(K)] for i in range(N)]
                if free and t == 0:
                    k[0][0] = ctx.real("k%d" % side, lo="1/5", hi=2)
                P.append([[-r * ctx.log(z) for z in row] for row in k])
            self.pot.append(P)
        self.cost = [ctx.num("%d/4" % (s + 3)) for s in range(K)]
        o1, o2 = mod.emd_1d_dual_backprop, mod.wasserstein_1d

        def dual(*a, **k):
            c = bind(o1, a, k)
            self.duals.append(c)
            f, g = self.pot[len(self.duals) - 1]
            return ctx.pack(f), ctx.pack(g), None

        def w1(*a, **k):
            self.costs.append(bind(o2, a, k))
            return ctx.pack(self.cost)
        ctx.patch(mod, "emd_1d_dual_backprop", dual)
        ctx.patch(mod, "wasserstein_1d", w1)


def weights(ctx, V, n, K, how, free, name):
    """how: None (uniform), 1 (shared), 2 (one column per slice)"""
    if how is None:
        return [[ctx.num(1) / n] * n for _ in range(K)], None
    if how == 1:
        w = [ctx.num(x) for x in V[0][:n]]
        if free:
            w[0] = ctx.real(name, lo="1/10", hi=1)
        return [w] * K, ctx.pack(w)
    W = [[ctx.num(V[s % 2][(i + s) % 3]) for i in range(n)] for s in range(K)]
    if free:
        W[0][0] = ctx.real(name, lo="1/10", hi=1)
    return W, ctx.pack([[W[s][i] for s in range(K)] for i in range(n)])


def line(ctx, n, m, K, which, its=1, how=1, sort=True, cost="linear", log=False, free=("k",), p=2):
    M = ctx.ot.unbalanced._solver_1d
    backend(ctx, M)
    r1, r2, arg = reg(ctx, which)
    S = Balanced(ctx, M, n, m, K, (r1, r2), its, "k" in free)
    X, Y = [[ctx.num(XV[i][s]) for s in range(K)] for i in range(n)], [[ctx.num(YV[i][s]) for s in range(K)] for i in range(m)]
    if "x" in free:
        X[0][0] = ctx.real("x", lo=-2, hi=3)
    A, ap = weights(ctx, AV, n, K, how, "a" in free, "a")
    B, bp = weights(ctx, BV, m, K, how, "b" in free, "b")
    cx, cy = [[r[s] for r in X] for s in range(K)], [[r[s] for r in Y] for s in range(K)]
    if sort:
        px, py = [sort_perm(ctx, c) for c in cx], [sort_perm(ctx, c) for c in cy]
    else:
        px, py = [list(range(n))] * K, [list(range(m))] * K
    Xp, Yp = ctx.pack(X), ctx.pack(Y)
    X0, Y0 = ctx.snapshot(Xp), ctx.snapshot(Yp)
    kw = {} if how is None else dict(u_weights=ap, v_weights=bp)
    res = M.uot_1d(Xp, Yp, arg, p=p, require_sort=sort, numItermax=its, returnCost=cost, log=log, **kw)
    U, V, L = res[:3]
    ctx.check("balanced problems solved", [len(S.duals) == its, len(S.costs) == 1])
    for s in range(K):
        a, b = [A[s][i] for i in px[s]], [B[s][j] for j in py[s]]
        f, g = [ctx.num(0)] * n, [ctx.num(0)] * m

        def call(c, u, v):
            return [ctx.eq(c["u_values"][:, s], ctx.pack([cx[s][i] for i in px[s]])), ctx.eq(c["v_values"][:, s], ctx.pack([cy[s][j] for j in py[s]])), c["p"] == p, c["require_sort"] is False] + \
                [ctx.eq(c["u_weights"][i, s] * tot(u), u[i]) for i in range(n)] + [ctx.eq(c["v_weights"][j, s] * tot(v), v[j]) for j in range(m)]
        for t in range(its + 1):
            tr = translation(ctx, f, g, a, b, r1, r2)
            f, g = [z + tr for z in f], [z - tr for z in g]
            u, v = reweighted(ctx, a, f, r1), reweighted(ctx, b, g, r2)
            if t == its:
                break
            ctx.check("balanced problem of the step", call(S.duals[t], u, v))
            h = ctx.num(2) / (2 + t)
            F, G = S.pot[t]
            f, g = [z + h * (F[i][s] - z) for i, z in enumerate(f)], [z + h * (G[j][s] - z) for j, z in enumerate(g)]
        ctx.check("balanced problem of the end", call(S.costs[0], u, v))
        mass = tot(u)
        ctx.check("reweighted marginals", [ctx.eq(U[i, s], u[px[s].index(i)]) for i in range(n)] + [ctx.eq(V[j, s] * tot(v), v[py[s].index(j)] * mass) for j in range(m)])
        if (r1, r2) != (INF, INF):
            ctx.check("equal masses", [ctx.eq(tot(U[i, s] for i in range(n)), tot(V[j, s] for j in range(m)))])
        lin = S.cost[s] * mass
        total = lin
        if r1 != INF:
            total = total + r1 * kl(ctx, [U[i, s] for i in range(n)], A[s])
        if r2 != INF:
            total = total + r2 * kl(ctx, [V[j, s] for j in range(m)], B[s])
        ctx.check("cost", ctx.eq(L[s], lin if cost == "linear" else total))
        if log:
            d = res[3]
            ctx.check("log", [ctx.eq(d["linear_cost"][s], lin), ctx.eq(d["total_cost"][s], total)] + [ctx.eq(d["f"][i, s], f[px[s].index(i)]) for i in range(n)] + [ctx.eq(d["g"][j, s], g[py[s].index(j)]) for j in range(m)])
    ctx.check("inputs kept", [ctx.eq(Xp, X0), ctx.eq(Yp, Y0)])


DIR = [["3/5", "1", "0"], ["4/5", "0", "-1"]]
XS = [["1", "-1"], ["1/2", "2"], ["-3/2", "1/4"]]
YS = [["2", "1/2"], ["-1", "1"], ["0", "-2"]]


def clouds(ctx, n, m, free):
    X, Y = [[ctx.num(z) for z in XS[i]] for i in range(n)], [[ctx.num(z) for z in YS[j]] for j in range(m)]
    if "x" in free:
        X[0][0] = ctx.real("x", lo=-2, hi=3)
    return X, Y


def project(P, D, K):
    return [[tot(x[c] * D[c][s] for c in range(2)) for s in range(K)] for x in P]


def sliced(ctx, n, m, K, which, wts=True, log=False, given=True, p=2):
    """sliced unbalanced transport: the mean of the unbalanced costs of the slices"""
    M = ctx.ot.unbalanced._sliced
    backend(ctx, M)
    r1, r2, arg = reg(ctx, which)
    X, Y = clouds(ctx, n, m, ("x",))
    D = [[ctx.num(z) for z in r[:K]] for r in DIR]
    Dp = ctx.pack(D)
    asked, calls = [], []
    ctx.patch(M, "get_random_projections", lambda d, k, seed=None, backend=None, type_as=None: asked.append((d, k, seed)) or Dp)
    orig = M.uot_1d
    out = [ctx.pack([[ctx.num(1)] * K] * n), ctx.pack([[ctx.num(2)] * K] * m), ctx.pack([ctx.real("l%d" % s, lo=0, hi=9) for s in range(K)])]

    def uot(*a, **k):
        calls.append(bind(orig, a, k))
        return tuple(out)
    ctx.patch(M, "uot_1d", uot)
    kw = dict(projections=Dp) if given else dict(n_projections=K, seed=5)
    A, B = [ctx.num(x) for x in AV[0][:n]], [ctx.num(x) for x in BV[0][:m]]
    if wts:
        kw.update(a=ctx.pack(A), b=ctx.pack(B))
    else:
        A, B = [ctx.num(1) / n] * n, [ctx.num(1) / m] * m
    r = M.sliced_unbalanced_ot(ctx.pack(X), ctx.pack(Y), arg, numItermax=7, p=p, log=log, **kw)
    v = r[0] if log else r
    ctx.check("mean of the slices", ctx.eq(v * K, tot(out[2][s] for s in range(K))))
    c = calls[0]
    w1, w2 = c["u_weights"], c["v_weights"]
    ctx.check("slices", [len(calls) == 1, asked == ([] if given else [(2, K, 5)]), ctx.eq(c["u_values"], ctx.pack(project(X, D, K))), ctx.eq(c["v_values"], ctx.pack(project(Y, D, K))), ctx.eq(w1, ctx.pack(A)), ctx.eq(w2, ctx.pack(B)), c["p"] == p, c["numItermax"] == 7, c["returnCost"] == "total", c["reg_m"] == arg, c["require_sort"] is True, c["log"] is False])
    if log:
        ctx.check("log", [ctx.eq(r[1]["projections"], Dp), ctx.eq(r[1]["projected_uots"], out[2]), ctx.eq(r[1]["a_reweighted"], out[0]), ctx.eq(r[1]["b_reweighted"], out[1])])


def usot(ctx, n, m, K, which, its=1, wts=True, log=False, given=True, free=("k",), p=2):
    """unbalanced sliced transport: one reweighting shared by all slices"""
    M = ctx.ot.unbalanced._sliced
    backend(ctx, M)
    r1, r2, arg = reg(ctx, which)
    S = Balanced(ctx, M, n, m, K, (r1, r2), its, "k" in free)
    X, Y = clouds(ctx, n, m, free)
    D = [[ctx.num(z) for z in r[:K]] for r in DIR]
    Dp = ctx.pack(D)
    asked = []
    ctx.patch(M, "get_random_projections", lambda d, k, seed=None, backend=None, type_as=None: asked.append((d, k, seed)) or Dp)
    kw = dict(projections=Dp) if given else dict(n_projections=K, seed=5)
    A, B = [ctx.num(x) for x in AV[0][:n]], [ctx.num(x) for x in BV[0][:m]]
    if "a" in free:
        A[0] = ctx.real("a", lo="1/10", hi=1)
    if wts:
        kw.update(a=ctx.pack(A), b=ctx.pack(B))
    else:
        A, B = [ctx.num(1) / n] * n, [ctx.num(1) / m] * m
    PX, PY = project(X, D, K), project(Y, D, K)
    px, py = [sort_perm(ctx, [r[s] for r in PX]) for s in range(K)], [sort_perm(ctx, [r[s] for r in PY]) for s in range(K)]
    r = M.unbalanced_sliced_ot(ctx.pack(X), ctx.pack(Y), arg, numItermax=its, p=p, log=log, **kw)
    U, V, L = r[:3]
    ctx.check("directions", [asked == ([] if given else [(2, K, 5)])])
    ctx.check("balanced problems solved", [len(S.duals) == its, len(S.costs) == 1])
    f, g = [ctx.num(0)] * n, [ctx.num(0)] * m

    def call(c, u, v):
        o = [c["p"] == p, c["require_sort"] is False]
        for s in range(K):
            o += [ctx.eq(c["u_values"][:, s], ctx.pack([PX[i][s] for i in px[s]])), ctx.eq(c["v_values"][:, s], ctx.pack([PY[j][s] for j in py[s]]))]
            o += [ctx.eq(c["u_weights"][k, s] * tot(u), u[i]) for k, i in enumerate(px[s])] + [ctx.eq(c["v_weights"][k, s] * tot(v), v[j]) for k, j in enumerate(py[s])]
        return o
    for t in range(its + 1):
        tr = translation(ctx, f, g, A, B, r1, r2)
        f, g = [z + tr for z in f], [z - tr for z in g]
        u, v = reweighted(ctx, A, f, r1), reweighted(ctx, B, g, r2)
        if t == its:
            break
        ctx.check("balanced problem of the step", call(S.duals[t], u, v))
        h = ctx.num(2) / (2 + t)
        F, G = S.pot[t]
        mf = [tot(F[px[s].index(i)][s] for s in range(K)) / K for i in range(n)]
        mg = [tot(G[py[s].index(j)][s] for s in range(K)) / K for j in range(m)]
        f, g = [z + h * (y - z) for z, y in zip(f, mf)], [z + h * (y - z) for z, y in zip(g, mg)]
    ctx.check("balanced problem of the end", call(S.costs[0], u, v))
    ctx.check("reweighted marginals", [ctx.eq(U, ctx.pack(u)), ctx.eq(V, ctx.pack(v))])
    if (r1, r2) != (INF, INF):
        ctx.check("equal masses", [ctx.eq(tot(u), tot(v))])
    sot = tot(S.cost) * tot(u) / K
    total = sot
    if r1 != INF:
        total = total + r1 * kl(ctx, u, A)
    if r2 != INF:
        total = total + r2 * kl(ctx, v, B)
    ctx.check("cost", ctx.eq(L, total))
    if log:
        ctx.check("log", [ctx.eq(r[3]["projections"], Dp), ctx.eq(r[3]["sot_loss"], sot), ctx.eq(r[3]["1d_losses"], ctx.pack(S.cost)), ctx.eq(r[3]["full_mass"], ctx.pack([tot(u)] * K))])


def refuse(ctx):
    M = ctx.ot.unbalanced._sliced
    backend(ctx, M)
    for f in (M.sliced_unbalanced_ot, M.unbalanced_sliced_ot):
        try:
            f(ctx.pack([[ctx.real("x")] * 2]), ctx.pack([[ctx.num(1)] * 3]), 1.0)
            ok = False
        except ValueError:
            ok = True
        ctx.check("different dimensions refused", [ok])


CASES = []
REG = {"1": "1", "h": "1/2", "12": ("1", "2"), "1i": ("1", None), "i2": (None, "2"), "ii": (None, None), "h1": ("1/2", "1")}
for n, m, K, w, its, how, so, co, lg, fr in ((2, 2, 1, "1", 1, 1, True, "linear", True, ("k",)), (2, 3, 2, "12", 1, 2, True, "total", True, ("k",)), (3, 2, 2, "1i", 1, 1, True, "total", True, ("a",)), (2, 2, 2, "i2", 2, 1, True, "total", False, ("b",)), (2, 2, 2, "h", 1, None, False, "total", True, ("k",)),
                                            (2, 3, 2, "1i", 1, 1, False, "linear", True, ("k",)), (2, 2, 1, "ii", 2, 1, True, "total", True, ("x",)), (3, 2, 2, "ii", 1, 2, True, "linear", False, ("a",)), (2, 2, 1, "12", 2, 1, True, "total", False, ()), (3, 3, 2, "i2", 1, None, True, "total", True, ("k",)),
                                            (2, 2, 2, "h1", 0, 1, True, "total", True, ("a", "b")), (3, 2, 1, "1", 1, 1, True, "total", False, ("x",)), (2, 2, 1, "1", 3, None, False, "linear", True, ())):
    CASES.append(Case("line_%d%d%d_%s_%d%s%s%s" % (n, m, K, w, its, how or "u", "" if so else "n", co[0]), line, opt_lazymax=True, n=n, m=m, K=K, which=REG[w], its=its, how=how, sort=so, cost=co, log=lg, free=fr))
for n, m, K, w, wt, lg, gi in ((2, 3, 2, "1", True, True, True), (3, 2, 3, "12", False, False, True), (2, 2, 1, "1i", True, True, False), (3, 3, 2, "h", False, False, False)):
    CASES.append(Case("suot_%d%d%d_%s" % (n, m, K, w), sliced, n=n, m=m, K=K, which=REG[w], wts=wt, log=lg, given=gi))
for n, m, K, w, its, wt, lg, gi, fr in ((2, 2, 1, "1", 1, True, True, True, ("k",)), (2, 3, 2, "12", 1, True, True, True, ("k",)), (3, 2, 2, "1i", 1, True, True, False, ("a",)), (2, 2, 3, "i2", 2, True, False, True, ()), (3, 2, 2, "ii", 1, True, True, True, ("x",)), (2, 2, 2, "h", 1, False, False, False, ("x",)), (2, 2, 2, "1", 2, True, True, True, ())):
    CASES.append(Case("usot_%d%d%d_%s_%d" % (n, m, K, w, its), usot, opt_lazymax=True, n=n, m=m, K=K, which=REG[w], its=its, wts=wt, log=lg, given=gi, free=fr))
CASES.append(Case("dimensions", refuse))
