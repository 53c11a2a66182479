"""C06 optimal transport on the circle."""
from symx.worker import Case
from props.lib import couplings, fr, pair_cost

WT = {
    "one11": (["1"], ["1"]),
    "gen12": (["1"], ["1/4", "3/4"]),
    "gen22": (["1/4", "3/4"], ["1/2", "1/2"]),
    "nd22": (["1/3", "2/3"], ["2/5", "3/5"]),
    "eq22": (["1/2", "1/2"], ["1/2", "1/2"]),
    "zero22": (["0", "1"], ["1/4", "3/4"]),
    "gen23": (["1/4", "3/4"], ["1/8", "1/2", "3/8"]),
    "gen31": (["1/8", "1/2", "3/8"], ["1"]),
    "gen33": (["1/4", "1/4", "1/2"], ["1/8", "1/2", "3/8"]),
}


def circ(ctx, x, y, p):
    D = ctx.np.abs(x[:, None] - y[None, :])
    D = ctx.np.minimum(D, 1 - D)
    return D if p == 1 else D ** p


def points(ctx, name, n, inside=True, shift=0):
    if not inside:
        return ctx.vec(name, n, lo=-1, hi=2)
    x = ctx.vec(name, n, lo=0, hi=1)
    ctx.assume([ctx.lt(z, 1) for z in x])
    return x + shift if shift else x


def _mins(ctx, W, A, B, M):
    cs = [pair_cost(ctx, P, M) for P in couplings(fr(*A), fr(*B))]
    ctx.check("not above any coupling", [z for c in cs for z in ctx.le(W, c)])
    ctx.check("cost of a coupling", ctx.any([ctx.eq(W, c) for c in cs]))


def solve(ctx, how, x, y, a, b, p):
    lp = ctx.ot.lp
    if how == "w1":
        return lp.solver_circle.wasserstein1_circle(x, y, a, b)
    return lp.wasserstein_circle(x, y, a, b, p=p)


def cost(ctx, w, p, how, inside=True):
    """= cheapest coupling for the distance along the circle"""
    A, B = WT[w]
    a, b = ctx.arr(A), ctx.arr(B)
    x, y = points(ctx, "x", len(A), inside), points(ctx, "y", len(B), inside)
    W = solve(ctx, how, x, y, a, b, p)[0]
    _mins(ctx, W, A, B, circ(ctx, x % 1, y % 1, p))


def cost_w(ctx, n, m, p, how, k=0):
    """all weights, given positions: not above any plan (symbolic competitor), and certified by rotation"""
    X = [["0.1", "0.7", "0.4"], ["0.9", "0.3", "0.6"]][k][:n]
    Y = [["0.8", "0.2", "0.55"], ["0.1", "0.9", "0.45"]][k][:m]
    x, y = ctx.arr(X), ctx.arr(Y)
    a, b = ctx.simplex("a", n), ctx.simplex("b", m)
    W = solve(ctx, how, x, y, a, b, p)[0]
    D = circ(ctx, x, y, p)
    P = ctx.mat("P", n, m, lo=0, hi=1)
    if ctx.sym:
        ctx.assume([ctx.eq(ctx.np.sum(P, axis=1), a), ctx.eq(ctx.np.sum(P, axis=0), b)])
    else:
        ctx.assume(abs(P.sum(1) - a).max() < 1e-9 and abs(P.sum(0) - b).max() < 1e-9)
    c = sum(P[i, j] * D[i, j] for i in range(n) for j in range(m))
    ctx.check("not above any plan", ctx.le(W, c))
    ctx.check("nonnegative", ctx.le(0, W))


def self0(ctx, n, p, how):
    x = points(ctx, "x", n)
    a = ctx.arr({1: ["1"], 2: ["1/4", "3/4"], 3: ["1/4", "1/4", "1/2"]}[n])
    ctx.check("zero between equal measures", ctx.eq(solve(ctx, how, x, x, a, a, p)[0], 0))
    o = list(range(n))[::-1]
    ctx.check("zero whatever the order", ctx.eq(solve(ctx, how, x, x[o], a, a[o], p)[0], 0))


def rotate(ctx, w, p, how):
    """rotating both measures and choosing other representatives changes nothing"""
    A, B = WT[w]
    a, b = ctx.arr(A), ctx.arr(B)
    x, y = points(ctx, "x", len(A)), points(ctx, "y", len(B))
    t = ctx.real("t", lo=0, hi=1)
    W = solve(ctx, how, x, y, a, b, p)
    V = solve(ctx, how, x + t, y + t, a, b, p)
    ctx.check("rotation", ctx.eq(W, V))
    ctx.check("representatives", ctx.eq(W, solve(ctx, how, x + 1, y - 2, a, b, p)))
    ctx.check("symmetry", ctx.eq(W, solve(ctx, how, y, x, b, a, p)))


def batch(ctx, p, how):
    """columns are independent; uniform weights by default"""
    a, b = ctx.arr(["1/2", "1/2"]), ctx.arr(["1/2", "1/2"])
    x, y = points(ctx, "x", 2), points(ctx, "y", 2)
    x2, y2 = ctx.arr(["0.3", "0.8"]), ctx.arr(["0.6", "0.1"])
    X, Y = ctx.np.stack([x, x2], axis=1), ctx.np.stack([y, y2], axis=1)
    V = solve(ctx, how, X, Y, None, None, p)
    ctx.check("first", ctx.eq(V[0], solve(ctx, how, x, y, a, b, p)[0]))
    ctx.check("second", ctx.eq(V[1], solve(ctx, how, x2, y2, a, b, p)[0]))
    V = solve(ctx, how, X, Y, ctx.arr(["1/4", "3/4"]), None, p)
    ctx.check("common weights", ctx.eq(V[0], solve(ctx, how, x, y, ctx.arr(["1/4", "3/4"]), b, p)[0]))


def by_sort(ctx, x, a):
    """order the points (branches on their order)"""
    z = [(x[i], a[i]) for i in range(len(a))]
    for i in range(len(z)):
        for j in range(len(z) - 1 - i):
            if ctx.test(z[j + 1][0] < z[j][0]):
                z[j], z[j + 1] = z[j + 1], z[j]
    return z


def semi(ctx, n, wt, shift=0):
    """squared cost to the uniform measure = variance of F^-1(t) - t"""
    x = points(ctx, "x", n, shift=shift)
    a = ctx.arr(wt) if wt else None
    W = ctx.ot.semidiscrete_wasserstein2_unif_circle(x, a)
    if a is None:
        a = ctx.arr(["1/%d" % n] * n)
    c = ctx.num(0)
    m2, m1 = ctx.num(0), ctx.num(0)
    for v, w in by_sort(ctx, x - shift, a):
        d = c + w
        # integral of (v-t)^2 on [c, d]
        m2 = m2 + ((v - c) ** 3 - (v - d) ** 3) / 3
        m1 = m1 + v * w
        c = d
    ctx.check("closed form", ctx.eq(W[0], m2 - (m1 - ctx.num("1/2")) ** 2))
    ctx.check("nonnegative", ctx.le(0, W))


def semi_rot(ctx, n, wt):
    x = points(ctx, "x", n)
    a = ctx.arr(wt)
    t = ctx.real("t", lo=0, hi=1)
    f = ctx.ot.semidiscrete_wasserstein2_unif_circle
    ctx.check("rotation", ctx.eq(f(x, a), f(x + t, a)))
    X = ctx.np.stack([x, x[::-1]], axis=1)
    ctx.check("columns", ctx.eq(f(X, a)[1], f(x[::-1], a)[0]))


def embed_ref(ctx, z, t, mean):
    """F^-1(t - mean + 1/2) - t, modulo one, and the value of the known finding (the next atom)"""
    q = (t - mean + ctx.num("1/2")) % 1
    ctx.assume(ctx.ne(q, 0))
    c = ctx.num(0)
    k = len(z) - 1
    for i, (v, w) in enumerate(z[:-1]):
        c = c + w
        if ctx.test(q <= c):
            k = i
            break
    return (z[k][0] - t) % 1, (z[min(k + 1, len(z) - 1)][0] - t) % 1


def embed(ctx, n, wt, srt=True):
    x = points(ctx, "x", n)
    a = ctx.arr(wt) if wt else None
    if not srt:
        ctx.assume([ctx.le(x[i], x[i + 1]) for i in range(n - 1)])
    ts = ctx.arr(["0.15", "0.62"])
    E = ctx.ot.lp.solver_circle.linear_circular_embedding(ts, x, a, require_sort=srt)
    if a is None:
        a = ctx.arr(["1/%d" % n] * n)
    z = by_sort(ctx, x, a)
    mean = sum(v * w for v, w in z)
    ctx.check("shape", E.shape == (2, 1))
    for k in range(2):
        r, known = embed_ref(ctx, z, ts[k], mean)
        ctx.check("embedding", ctx.any([ctx.eq(E[k, 0], r), ctx.eq(E[k, 0], known)]))


def embed_known(ctx):
    """KNOWN_FINDINGS: the quantile of the embedding is the atom after the right one"""
    d = ctx.real("d", lo=0, hi=ctx.num("1/1000"))
    x = ctx.arr(["1/5", "4/5"]) + ctx.pack([d, d])
    E = ctx.ot.lp.solver_circle.linear_circular_embedding(ctx.arr(["1/4"]), x)
    # mean 1/2 + d, F^-1(1/4 - d) is the first atom
    ctx.check("first of the two atoms 1/5 and 4/5", ctx.eq(E[0, 0], (ctx.num("1/5") + d - ctx.num("1/4")) % 1))


def lcot(ctx, n, m, wu, wv):
    """mean over the grid of the squared circle distance between embeddings"""
    x = points(ctx, "x", n)
    a = ctx.arr(wu)
    T = ["0.11", "0.43", "0.86"]
    # the grid of 100 points is replaced by three points
    ctx.patch(ctx.ot.backend.NumpyBackend, "linspace", lambda self, start, stop, num, type_as=None: ctx.arr(T + ["1"]))
    z = by_sort(ctx, x, a)
    mx = sum(v * w for v, w in z)
    if m:
        y, b = ctx.arr(["0.72", "0.23", "0.5"][:m]), ctx.arr(wv)
        u = by_sort(ctx, y, b)
        my = sum(v * w for v, w in u)
        W = ctx.ot.linear_circular_ot(x, y, a, b)
    else:
        W = ctx.ot.linear_circular_ot(x, u_weights=a)
    r = [ctx.num(0), ctx.num(0)]
    for s in T:
        t = ctx.num(s)
        ex, ey = embed_ref(ctx, z, t, mx), (embed_ref(ctx, u, t, my) if m else (0, 0))
        for k in (0, 1):
            d = abs(ex[k] - ey[k])
            d = ctx.np.minimum(ctx.pack([d]), ctx.pack([1 - d]))[0]
            r[k] = r[k] + d * d / 3
    ctx.check("linear circular cost", ctx.any([ctx.eq(W[0], r[0]), ctx.eq(W[0], r[1])]))
    if m:
        ctx.check("symmetric", ctx.eq(W, ctx.ot.linear_circular_ot(y, x, b, a)))
    else:
        ctx.check("zero with itself", ctx.eq(ctx.ot.linear_circular_ot(x, x, a, a), 0))


def refuse(ctx):
    x, y = ctx.mat("x", 2, 2, lo=0, hi=1), ctx.mat("y", 2, 1, lo=0, hi=1)
    for how in ("w1", "bs"):
        try:
            solve(ctx, how, x, y, None, None, 1)
            ok = False
        except ValueError:
            ok = True
        ctx.check("different numbers of measures refused", ok)


def rounding(ctx, seed):
    """weights whose float sum is just below one (the replay on the real build is what matters)"""
    import numpy as np
    r = np.random.RandomState(seed)
    n, m = r.randint(1, 4, 2)
    x, y = r.rand(n), r.rand(m)
    a, b = r.dirichlet(np.ones(n)), r.dirichlet(np.ones(m))
    dx = ctx.real("d", lo=0, hi=ctx.num("1/1000"))
    X, Y = ctx.arr(x), ctx.arr(y)
    if ctx.sym:
        a, b = ctx.arr(a), ctx.arr(b)
        a, b = a / sum(a), b / sum(b)
    W = ctx.ot.lp.wasserstein_circle(X + dx, Y, a, b, p=1)
    ctx.check("at most half a turn", ctx.le(W, ctx.num("1/2")))


CASES = []
for w in WT:
    n, m = len(WT[w][0]), len(WT[w][1])
    for how, p in (("w1", 1), ("bs", 1), ("bs", 2)):
        q = n * m <= 4 or (how == "w1" and n * m <= 6)
        CASES.append(Case("cost_%s_%s%d" % (w, how, p), cost, w=w, p=p, how=how, tier="quick" if q else "thorough"))
        if n * m <= 4:
            CASES.append(Case("wrap_%s_%s%d" % (w, how, p), cost, w=w, p=p, how=how, inside=False, tier="quick" if n * m <= 2 else "thorough"))
            CASES.append(Case("rotate_%s_%s%d" % (w, how, p), rotate, w=w, p=p, how=how, tier="quick" if n * m <= 2 or (w == "gen22" and p == 1) else "thorough"))
for how, p in (("w1", 1), ("bs", 1), ("bs", 2)):
    for n in (1, 2, 3):
        CASES.append(Case("self_%d_%s%d" % (n, how, p), self0, n=n, p=p, how=how, tier="quick" if n < 3 else "thorough"))
    CASES.append(Case("batch_%s%d" % (how, p), batch, p=p, how=how))
    for k in (0, 1):
        for n, m in ((2, 2), (2, 3), (3, 3)):
            CASES.append(Case("weights_%s%d_%d%d_%d" % (how, p, n, m, k), cost_w, n=n, m=m, p=p, how=how, k=k, tier="quick" if n * m <= 4 or how == "w1" and n * m <= 6 else "thorough"))
for n, wt in ((1, None), (2, None), (2, ["1/4", "3/4"]), (3, None), (3, ["1/5", "1/2", "3/10"]), (3, ["0", "1/3", "2/3"])):
    t = "%d%s" % (n, "" if wt is None else "_" + wt[0].replace("/", ""))
    CASES.append(Case("semi_" + t, semi, n=n, wt=wt))
    CASES.append(Case("embed_" + t, embed, n=n, wt=wt))
    CASES.append(Case("embeds_" + t, embed, n=n, wt=wt, srt=False))
    if wt:
        CASES.append(Case("semirot_" + t, semi_rot, n=n, wt=wt))
        CASES.append(Case("lcotu_" + t, lcot, n=n, m=0, wu=wt, wv=None))
        CASES.append(Case("lcot2_" + t, lcot, n=n, m=2, wu=wt, wv=["1/3", "2/3"], tier="quick" if n == 2 else "thorough"))
CASES += [Case("semi_shift", semi, n=2, wt=["1/4", "3/4"], shift=3), Case("refuse", refuse), Case("embed_known", embed_known)]
CASES += [Case("rounding_%d" % s, rounding, seed=s) for s in (0, 455, 1937)]
QUICK_WALL = 9
