"""C05 one-dimensional exact OT: monotone coupling, quantile costs."""
from symx.worker import Case
from props.lib import couplings, fr, pair_cost, tot

NEEDS_CPP = True
WT = {
    "gen22": (["1/4", "3/4"], ["2/5", "3/5"]),
    "eq22": (["1/2", "1/2"], ["1/2", "1/2"]),
    "zero22": (["0", "1"], ["1/3", "2/3"]),
    "gen23": (["1/4", "3/4"], ["1/6", "1/2", "1/3"]),
    "eqlev23": (["1/2", "1/2"], ["1/4", "1/4", "1/2"]),
    "gen32": (["1/5", "2/5", "2/5"], ["2/3", "1/3"]),
    "gen33": (["1/5", "1/2", "3/10"], ["1/6", "1/2", "1/3"]),
    "zero33": (["1/2", "0", "1/2"], ["1/3", "2/3", "0"]),
}
METRICS = {"sqeuclidean": 2, "euclidean": 1, "cityblock": 1}


def ground(ctx, x, y, p):
    D = ctx.np.abs(x[:, None] - y[None, :])
    R = D
    for _ in range(p - 1):
        R = R * D
    return R


def plan_ok(ctx, G, a, b):
    ctx.check("nonnegative", ctx.le(0, G))
    ctx.check("rows", ctx.eq(ctx.np.sum(G, axis=1), a))
    ctx.check("columns", ctx.eq(ctx.np.sum(G, axis=0), b))


def optimal(ctx, c, A, B, M):
    ctx.check("minimal cost", [x for P in couplings(fr(*A), fr(*B)) for x in ctx.le(c, pair_cost(ctx, P, M))])


def emd1d(ctx, w, metric, p, shape2=False):
    A, B = WT[w]
    a, b = ctx.arr(A), ctx.arr(B)
    x, y = ctx.vec("x", len(A), lo=-3, hi=3), ctx.vec("y", len(B), lo=-3, hi=3)
    x0, y0 = ctx.snapshot(x), ctx.snapshot(y)
    kw = dict(metric=metric)
    if metric == "minkowski":
        kw["p"] = p
    lp = ctx.ot.lp
    G, log = lp.emd_1d(x[:, None] if shape2 else x, y[:, None] if shape2 else y, a, b, log=True, **kw)
    plan_ok(ctx, G, a, b)
    M = ground(ctx, x, y, p)
    c = tot(G, M)
    ctx.check("reported cost", ctx.eq(log["cost"], c))
    optimal(ctx, c, A, B, M)
    c2 = lp.emd2_1d(x, y, a, b, **kw)
    ctx.check("loss", ctx.eq(c2, c))
    c3, l3 = lp.emd2_1d(x, y, a, b, log=True, **kw)
    ctx.check("plan of the loss", [ctx.eq(c3, c), ctx.eq(l3["G"], G)])
    ctx.check("inputs kept", [ctx.eq(x, x0), ctx.eq(y, y0), ctx.eq(a, ctx.arr(A)), ctx.eq(b, ctx.arr(B))])


POS = {"a22": ([0, 2], [1, 5]), "b22": ([3, 1], [1, 1]), "a33": ([0, 4, 1], [2, 1, 7]), "b33": ([1, 1, 0], [1, 0, 0]), "a23": ([5, 0], [1, 6, 3])}


def emd1d_w(ctx, pos, p):
    """all weights, given positions: against any other plan"""
    X, Y = POS[pos]
    n, m = len(X), len(Y)
    x, y = ctx.arr(X), ctx.arr(Y)
    a, b = ctx.simplex("a", n), ctx.simplex("b", m)
    lp = ctx.ot.lp
    G, log = lp.emd_1d(x, y, a, b, metric="minkowski", p=p, log=True)
    M = ground(ctx, x, y, p)
    plan_ok(ctx, G, a, b)
    ctx.check("reported cost", ctx.eq(log["cost"], tot(G, M)))
    W = lp.wasserstein_1d(x, y, a, b, p=p)
    ctx.check("quantile cost", ctx.eq(W, log["cost"]))
    P = ctx.mat("P", n, m, lo=0, hi=1)
    if ctx.sym:
        ctx.assume([ctx.eq(ctx.np.sum(P, axis=1), a), ctx.eq(ctx.np.sum(P, axis=0), b)])
    else:
        ctx.assume(abs(P.sum(1) - a).max() < 1e-9 and abs(P.sum(0) - b).max() < 1e-9)
    ctx.check("minimal cost", ctx.le(tot(G, M), tot(P, M)))


def mass(ctx, n):
    """weights of different mass are refused; those accepted give a plan of the source mass"""
    x, y = ctx.arr([0, 2, 1][:n]), ctx.arr([1, 0, 4][:n])
    a, b = ctx.vec("a", n, lo=0, hi=2), ctx.vec("b", n, lo=0, hi=2)
    ctx.assume([ctx.le(ctx.num("1/10"), sum(a)), ctx.le(ctx.num("1/10"), sum(b))])
    d = sum(a) - sum(b)
    ctx.assume(ctx.any([ctx.eq(d, 0), ctx.le(d, ctx.num("-1/1000")), ctx.le(ctx.num("1/1000"), d)]))
    try:
        G = ctx.ot.lp.emd_1d(x, y, a, b)
    except AssertionError:
        ctx.check("equal masses accepted", ctx.ne(d, 0))
        return
    ctx.check("different masses refused", [ctx.le(d, ctx.num("1/100000")), ctx.le(-d, ctx.num("1/100000"))])
    G = ctx.ot.lp.emd_1d(x, y, a, b, check_marginals=False)
    ctx.check("rows", ctx.eq(ctx.np.sum(G, axis=1), a))


def quant(ctx, w, p, layout):
    """quantile-based distance = cheapest coupling, column by column"""
    A, B = WT[w]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    x, y = ctx.vec("x", n, lo=-3, hi=3), ctx.vec("y", m, lo=-3, hi=3)
    W1 = ctx.ot.lp.wasserstein_1d
    kw = {}
    if layout == "flat":
        W = W1(x, y, a, b, p=p)
    elif layout == "sorted":
        ctx.assume([ctx.le(x[i], x[i + 1]) for i in range(n - 1)] + [ctx.le(y[i], y[i + 1]) for i in range(m - 1)])
        W = W1(x, y, a, b, p=p, require_sort=False)
    else:
        # the second column holds other values (and weights)
        x2 = ctx.arr([(5 * i + 1) % 4 for i in range(n)])
        y2 = ctx.arr([(3 * i + 2) % 5 for i in range(m)])
        X, Y = ctx.np.stack([x, x2], axis=1), ctx.np.stack([y, y2], axis=1)
        a2, b2 = (a[::-1], b[::-1]) if layout == "cols2" else (a, b)
        if layout == "cols2":
            V = W1(X, Y, ctx.np.stack([a, a2], axis=1), ctx.np.stack([b, b2], axis=1), p=p)
        else:
            V = W1(X, Y, a, b, p=p)
        W = V[0]
        ctx.check("other column", ctx.eq(V[1], W1(x2, y2, a2, b2, p=p)))
        ctx.check("columns", V.shape == (2,))
    M = ground(ctx, x, y, p)
    cs = [pair_cost(ctx, P, M) for P in couplings(fr(*A), fr(*B))]
    ctx.check("not above any coupling", [z for c in cs for z in ctx.le(W, c)])
    ctx.check("cost of a coupling", ctx.any([ctx.eq(W, c) for c in cs]))


def uniform(ctx, n, m, p):
    """no weights given = uniform weights"""
    x, y = ctx.vec("x", n, lo=-3, hi=3), ctx.vec("y", m, lo=-3, hi=3)
    a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    lp = ctx.ot.lp
    ctx.check("quantiles", ctx.eq(lp.wasserstein_1d(x, y, p=p), lp.wasserstein_1d(x, y, a, b, p=p)))
    ctx.check("quantiles, one side", ctx.eq(lp.wasserstein_1d(x, y, None, b, p=p), lp.wasserstein_1d(x, y, a, None, p=p)))
    ctx.check("plan", ctx.eq(lp.emd_1d(x, y), lp.emd_1d(x, y, a, b)))


def plans(ctx, w, p, layout):
    """plans returned with the quantile distance"""
    A, B = WT[w]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    x, y = ctx.vec("x", n, lo=-3, hi=3), ctx.vec("y", m, lo=-3, hi=3)
    srt = layout != "sorted"
    if not srt:
        ctx.assume([ctx.le(x[i], x[i + 1]) for i in range(n - 1)] + [ctx.le(y[i], y[i + 1]) for i in range(m - 1)])
    X, Y = (x, y) if layout == "flat" else (x[:, None], y[:, None])
    W, pl = ctx.ot.lp.wasserstein_1d(X, Y, a, b, p=p, require_sort=srt, return_plans="coo_tuple")
    ctx.check("one plan", len(pl) == 1)
    G = [[ctx.num(0)] * m for _ in range(n)]
    for v, i, j in zip(pl[0].data, pl[0].rows, pl[0].cols):
        G[int(i)][int(j)] = G[int(i)][int(j)] + v
    G = ctx.pack(G)
    plan_ok(ctx, G, a, b)
    M = ground(ctx, x, y, p)
    c = tot(G, M)
    ctx.check("cost of the plan", ctx.eq(W if layout == "flat" else W[0], c))
    optimal(ctx, c, A, B, M)


CASES = []
for w in WT:
    for me, p in (("sqeuclidean", 2), ("euclidean", 1), ("cityblock", 1), ("minkowski", 1), ("minkowski", 2), ("minkowski", 3)):
        big = w[-2:] == "33"
        q = (me in ("sqeuclidean", "euclidean")) if big else (p < 3)
        CASES.append(Case("emd1d_%s_%s%d" % (w, me, p), emd1d, w=w, metric=me, p=p, shape2=(w == "gen23"), tier="quick" if q else "thorough"))
    for p in (1, 2, 3):
        for lay in ("flat", "sorted", "cols", "cols2"):
            q = p < 3 and (w[-2:] != "33" or lay in ("flat", "sorted"))
            CASES.append(Case("quant_%s_%d_%s" % (w, p, lay), quant, w=w, p=p, layout=lay, tier="quick" if q else "thorough"))
        for lay in ("flat", "sorted", "cols"):
            CASES.append(Case("plans_%s_%d_%s" % (w, p, lay), plans, w=w, p=p, layout=lay, tier="quick" if p < 3 and w in ("gen22", "zero22", "gen23", "eqlev23") else "thorough"))
for pos in POS:
    for p in (1, 2):
        CASES.append(Case("weights_%s_%d" % (pos, p), emd1d_w, pos=pos, p=p))
for n, m in ((2, 2), (2, 3), (3, 3)):
    CASES.append(Case("uniform_%d%d" % (n, m), uniform, n=n, m=m, p=1))
    CASES.append(Case("uniform_%d%d_2" % (n, m), uniform, n=n, m=m, p=2, tier="quick" if n + m < 6 else "thorough"))
CASES += [Case("mass_2", mass, n=2), Case("mass_3", mass, n=3)]
QUICK_WALL = 12
