"""C04 sparse and lazy exact solvers agree with the dense one."""
from symx.worker import Case
from props.lib import couplings, fr, pair_cost
from props.otlib import certified, dense, plan_ok
from props.gwlib import record_gradients

NEEDS_CPP = True
AB = {
    "gen22": (["1/4", "3/4"], ["2/5", "3/5"]),
    "deg22": (["1/2", "1/2"], ["1/2", "1/2"]),
    "gen23": (["1/4", "3/4"], ["1/6", "1/2", "1/3"]),
    "gen32": (["1/5", "2/5", "2/5"], ["2/3", "1/3"]),
    "zero23": (["1/3", "2/3"], ["2/5", "0", "3/5"]),
    "zero33": (["1/3", "2/3", "0"], ["0", "2/5", "3/5"]),
    "gen33": (["1/2", "1/3", "1/6"], ["1/5", "3/10", "1/2"]),
}


def coo(ctx, edges, costs, shape):
    nx = ctx.ot.backend.NumpyBackend()
    import numpy as np
    r = np.array([e[0] for e in edges], dtype=np.int64)
    c = np.array([e[1] for e in edges], dtype=np.int64)
    return nx.coo_matrix(costs, r, c, shape=shape, type_as=costs)


def sparse(ctx, ab, edges, f="emd", lo=-2, order=1):
    """cheapest plan on the allowed edges, or a report that there is none"""
    A, B = AB[ab]
    n, m = len(A), len(B)
    if edges == "all":
        edges = [(i, j) for i in range(n) for j in range(m)]
    edges = edges[::order]
    a, b = ctx.arr(A), ctx.arr(B)
    cost = ctx.vec("c", len(edges), lo=lo, hi=3)
    S = coo(ctx, edges, cost, (n, m))
    best = [P for P in couplings(fr(*A), fr(*B)) if all(not P[i][j] or (i, j) in edges for i in range(n) for j in range(m))]
    D = {e: cost[k] for k, e in enumerate(edges)}

    class _M:
        def __getitem__(self, ij):
            return D[ij]
    M = _M()
    rec = record_gradients(ctx)
    if f == "emd":
        G, log = ctx.ot.emd(a, b, S, log=True)
        c = log["cost"]
    else:
        c, log = ctx.ot.emd2(a, b, S, log=True, return_matrix=True)
        G = log["G"]
    if not best:
        ctx.check("no plan exists: reported", log["warning"] is not None)
        return
    ctx.check("solved", log["warning"] is None)
    G = dense(ctx, G)
    ctx.check("only allowed edges", [ctx.eq(G[i, j], 0) for i in range(n) for j in range(m) if (i, j) not in edges])
    R, C = [i for i in range(n) if A[i] != "0"], [j for j in range(m) if B[j] != "0"]
    certified(ctx, G, M, a, b, log["u"], log["v"], rows=R, cols=C, edges=edges)
    v = sum(G[i, j] * D[i, j] for i, j in edges)
    ctx.check("value", ctx.eq(c, v))
    ctx.check("not above any plan on the edges", [x for P in best for x in ctx.le(c, sum(ctx.num(P[i][j]) * D[i, j] for i, j in edges if P[i][j]))])
    if f != "emd":
        val, inp, gr = rec[0]
        gM = dense(ctx, gr[2])
        ctx.check("gradient in the edge costs", [ctx.eq(gM[i, j], G[i, j]) for i, j in edges])
        ctx.check("gradient in a", [ctx.eq(gr[0][i] - log["u"][i], gr[0][0] - log["u"][0]) for i in range(1, n)])
    elif len(edges) == n * m:
        Md = ctx.pack([[D[i, j] for j in range(m)] for i in range(n)])
        ctx.check("all edges allowed: dense value", ctx.eq(c, ctx.ot.emd2(a, b, Md)))


def sparse_w(ctx, n, m, edges):
    """all weights on given edges"""
    a, b = ctx.simplex("a", n), ctx.simplex("b", m)
    cost = ctx.arr([(3 * k + 1) % 4 for k in range(len(edges))])
    S = coo(ctx, edges, cost, (n, m))
    D = {e: cost[k] for k, e in enumerate(edges)}
    G, log = ctx.ot.emd(a, b, S, log=True)
    P = ctx.mat("P", n, m, lo=0, hi=1)
    C = [ctx.eq(ctx.np.sum(P, axis=1), a), ctx.eq(ctx.np.sum(P, axis=0), b)] + [ctx.eq(P[i, j], 0) for i in range(n) for j in range(m) if (i, j) not in edges]
    if log["warning"] is not None:
        # reported as unsolved: no plan exists on the edges
        ctx.check("reported only when there is no plan", ctx.neg(ctx.all(C)))
        return
    G = dense(ctx, G)
    plan_ok(ctx, G, a, b)
    ctx.check("only allowed edges", [ctx.eq(G[i, j], 0) for i in range(n) for j in range(m) if (i, j) not in edges])
    if ctx.sym:
        ctx.assume(C)
    else:
        ctx.assume(abs(P.sum(1) - a).max() < 1e-9 and abs(P.sum(0) - b).max() < 1e-9 and all(P[i, j] < 1e-9 for i in range(n) for j in range(m) if (i, j) not in edges))
    ctx.check("cheapest", ctx.le(log["cost"], sum(P[e] * D[e] for e in edges)))


def metric_cost(ctx, X, Y, metric):
    n, m = X.shape[0], Y.shape[0]
    R = []
    for i in range(n):
        row = []
        for j in range(m):
            d = [X[i, k] - Y[j, k] for k in range(X.shape[1])]
            if metric == "cityblock":
                row.append(sum(abs(z) for z in d))
            else:
                s = sum(z * z for z in d)
                row.append(s if metric == "sqeuclidean" else (abs(d[0]) if len(d) == 1 else ctx.sqrt(s)))
        R.append(row)
    return ctx.pack(R)


def lazy(ctx, ab, dim, metric, warm=False, vary=None):
    A, B = AB[ab]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    if vary is None:
        X, Y = ctx.mat("X", n, dim, lo=-3, hi=3), ctx.mat("Y", m, dim, lo=-3, hi=3)
    else:
        # one moving point on each side
        X = ctx.arr([[(2 * i + 3 * k) % 5 for k in range(dim)] for i in range(n)])
        Y = ctx.arr([[(3 * i + k + 1) % 4 for k in range(dim)] for i in range(m)])
        X = ctx.np.concatenate([ctx.mat("X", 1, dim, lo=-3, hi=3), X[1:]])
        Y = ctx.np.concatenate([ctx.mat("Y", 1, dim, lo=-3, hi=3), Y[1:]])
    X0, Y0 = ctx.snapshot(X), ctx.snapshot(Y)
    kw = dict(potentials_init=(ctx.arr([2, -1, 3][:n]), ctx.arr([0, 4, -3][:m]))) if warm else {}
    rec = record_gradients(ctx)
    c, log = ctx.ot.lp.emd2_lazy(X, Y, a, b, metric=metric, log=True, **kw)
    ctx.check("solved", log["warning"] is None)
    G = dense(ctx, log["G"])
    M = metric_cost(ctx, X, Y, metric)
    R, C = [i for i in range(n) if A[i] != "0"], [j for j in range(m) if B[j] != "0"]
    certified(ctx, G, M, a, b, log["u"], log["v"], rows=R, cols=C)
    ctx.check("value", ctx.eq(c, ctx.np.sum(G * M)))
    gr = rec[0][2]
    ctx.check("gradient in a", [ctx.eq(gr[0][i] - log["u"][i], gr[0][R[0]] - log["u"][R[0]]) for i in R])
    ctx.check("gradient in b", [ctx.eq(gr[1][j] - log["v"][j], gr[1][C[0]] - log["v"][C[0]]) for j in C])
    ctx.check("samples kept", [ctx.eq(X, X0), ctx.eq(Y, Y0)])
    ctx.check("plain value", ctx.eq(ctx.ot.lp.emd2_lazy(X, Y, a, b, metric=metric, return_matrix=False), c))


def lazy_front(ctx):
    X, Y = ctx.mat("X", 2, 1, lo=-3, hi=3), ctx.mat("Y", 2, 1, lo=-3, hi=3)
    h = ctx.arr(["1/2", "1/2"])
    f = ctx.ot.lp.emd2_lazy
    c = f(X, Y, h, h, return_matrix=False)
    ctx.check("uniform by default", [ctx.eq(f(X, Y, return_matrix=False), c), ctx.eq(f(X, Y, a=h, return_matrix=False), c)])
    for bad, e in ((lambda: f(X, ctx.mat("Z", 2, 2)), ValueError), (lambda: f(X, Y, h[:1], h), AssertionError), (lambda: f(X, Y, h, h, metric="chebyshev"), ValueError)):
        try:
            bad()
            ok = False
        except e:
            ok = True
        ctx.check("refused", ok)


def lazy_weights(ctx, n, m):
    """all weights; negative ones are reported"""
    a, b = ctx.vec("a", n, lo=-1, hi=2), ctx.vec("b", m, lo=-1, hi=2)
    ctx.assume([ctx.le(ctx.num("1/10"), sum(a))])
    if ctx.sym:
        ctx.assume(ctx.eq(sum(a), sum(b)))
    else:
        ctx.assume(abs(sum(a) - sum(b)) < 1e-9)
    X, Y = ctx.arr([[0], [3], [1]][:n]), ctx.arr([[2], [1], [5]][:m])
    c, log = ctx.ot.lp.emd2_lazy(X, Y, a, b, log=True)
    if any(ctx.test(x < 0) for x in list(a) + list(b)):
        ctx.check("negative weights are reported", log["warning"] is not None)
        return
    ctx.check("solved", log["warning"] is None)
    M = metric_cost(ctx, X, Y, "sqeuclidean")
    plan_ok(ctx, dense(ctx, log["G"]), a, b)
    ctx.check("dense value", ctx.eq(c, ctx.ot.emd2(a, b, M)))


E22 = [[(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0)], [(0, 0), (1, 0), (1, 1)], [(0, 1), (1, 0), (1, 1)], "all"]
E23 = [[(0, 0), (0, 1), (1, 1), (1, 2)], [(0, 2), (1, 0), (1, 1), (1, 2)], [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1)], [(0, 0), (1, 1), (1, 2)], "all"]
E33 = [[(0, 0), (0, 2), (1, 1), (1, 2), (2, 2), (2, 1)], [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2)], "all"]
CASES = []
for ab in AB:
    n, m = len(AB[ab][0]), len(AB[ab][1])
    ES = {4: E22, 6: E23 if n == 2 else [[(j, i) for i, j in e] if e != "all" else e for e in E23], 9: E33}[n * m]
    for k, e in enumerate(ES):
        for f in ("emd", "emd2"):
            q = n * m <= 6 and (f == "emd2" or e == "all") or (n * m == 9 and k == 0 and f == "emd2")
            CASES.append(Case("sparse_%s_%d_%s" % (ab, k, f), sparse, ab=ab, edges=e, f=f, order=1 if f == "emd" else -1, tier="quick" if q else "thorough"))
for k, e in enumerate([[(0, 0), (0, 1), (1, 0)], [(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)]]):
    CASES.append(Case("sparsew_22_%d" % k, sparse_w, n=2, m=2, edges=e))
for k, e in enumerate(E23[:3]):
    CASES.append(Case("sparsew_23_%d" % k, sparse_w, n=2, m=3, edges=e))
for ab in AB:
    n, m = len(AB[ab][0]), len(AB[ab][1])
    for me in ("sqeuclidean", "euclidean", "cityblock"):
        CASES.append(Case("lazy_%s_1_%s" % (ab, me), lazy, ab=ab, dim=1, metric=me, tier="quick" if n * m <= 4 or (n * m <= 6 and me != "cityblock") else "thorough"))
        CASES.append(Case("lazy_%s_2_%s" % (ab, me), lazy, ab=ab, dim=2, metric=me, vary=1, tier="quick" if n * m <= 4 or (ab == "zero23" and me == "sqeuclidean") else "thorough"))
    CASES.append(Case("lazywarm_" + ab, lazy, ab=ab, dim=1, metric="sqeuclidean", warm=True, vary=1, tier="quick" if n * m <= 6 else "thorough"))
CASES += [Case("lazyfront", lazy_front), Case("lazyw_22", lazy_weights, n=2, m=2), Case("lazyw_23", lazy_weights, n=2, m=3, tier="thorough")]
QUICK_WALL = 8
