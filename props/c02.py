"""C02 exact loss (emd2): value, several targets, gradients."""
from symx.worker import Case
from props.gwlib import record_gradients
from props.otlib import certified, dense, plan_ok

NEEDS_CPP = True
AB = {
    "gen22": (["1/4", "3/4"], ["2/5", "3/5"]),
    "gen23": (["1/4", "3/4"], ["1/6", "1/2", "1/3"]),
    "deg22": (["1/2", "1/2"], ["1/2", "1/2"]),
    "zero23": (["1/3", "2/3"], ["2/5", "0", "3/5"]),
    "zero32": (["1/3", "0", "2/3"], ["2/5", "3/5"]),
    "zero33": (["1/3", "2/3", "0"], ["0", "2/5", "3/5"]),
    "gen33": (["1/2", "1/3", "1/6"], ["1/5", "3/10", "1/2"]),
}


def const_shift(ctx, g, u):
    """g = u + constant"""
    return [ctx.eq(g[i] - u[i], g[0] - u[0]) for i in range(1, len(u))]


def value(ctx, ab, center, mode, lo=-4):
    A, B = AB[ab]
    a, b = ctx.arr(A), ctx.arr(B)
    M = ctx.mat("M", len(A), len(B), lo=lo, hi=4)
    a0, b0, M0 = ctx.snapshot(a), ctx.snapshot(b), ctx.snapshot(M)
    rec = record_gradients(ctx)
    kw = dict(center_dual=center)
    if mode == "plain":
        c = ctx.ot.emd2(a, b, M, **kw)
        G, log = ctx.ot.emd(a, b, M, log=True, **kw)
    else:
        c, log = ctx.ot.emd2(a, b, M, log=True, return_matrix=True, **kw)
        G = log["G"]
        ctx.check("cost in log", ctx.eq(log["cost"], c))
    u, v = log["u"], log["v"]
    certified(ctx, G, M, a, b, u, v)
    ctx.check("value", ctx.eq(c, ctx.np.sum(G * M)))
    val, inp, gr = rec[0]
    ctx.check("value that carries the gradients", ctx.eq(val, c))
    ctx.check("gradients are for the arguments", [inp[0] is a, inp[1] is b, inp[2] is M])
    ctx.check("gradient in a", const_shift(ctx, gr[0], u))
    ctx.check("gradient in b", const_shift(ctx, gr[1], v))
    ctx.check("gradient in M", ctx.eq(gr[2], G))
    # perturbations that keep the mass: sum-zero gradients
    ctx.check("centred gradients", [ctx.eq(ctx.np.sum(gr[0]), 0), ctx.eq(ctx.np.sum(gr[1]), 0)])
    ctx.check("inputs kept", [ctx.eq(a, a0), ctx.eq(b, b0), ctx.eq(M, M0)])


def subgrad(ctx, ab):
    """the recorded gradients support the value function: any other problem (of the same mass) is above"""
    A, B = AB[ab]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    M = ctx.mat("M", n, m, lo=-1, hi=4)
    rec = record_gradients(ctx)
    c = ctx.ot.emd2(a, b, M)
    val, inp, (ga, gb, gM) = rec[0]
    # competitor: weights a2, b2 with a plan P of them: value(a2,b2) <= <P,M>
    P = ctx.mat("P", n, m, lo=0, hi=1)
    if ctx.sym:
        ctx.assume(ctx.eq(ctx.np.sum(P), 1))
    else:
        ctx.assume(abs(P.sum() - 1) < 1e-9)
    a2, b2 = ctx.np.sum(P, axis=1), ctx.np.sum(P, axis=0)
    lin = sum(ga[i] * (a2[i] - a[i]) for i in range(n)) + sum(gb[j] * (b2[j] - b[j]) for j in range(m))
    ctx.check("supports the value", ctx.le(c + lin, sum(P[i, j] * M[i, j] for i in range(n) for j in range(m))))


def several(ctx, ab, B2, uniform=False):
    """several targets in columns: each value, log and gradient is the one of its own problem"""
    A, B = AB[ab]
    n, m = len(A), len(B)
    a = ctx.arr(A)
    T = ctx.np.stack([ctx.arr(B), ctx.arr(B2)], axis=1)
    M = ctx.mat("M", n, m, lo=-1, hi=4)
    T0, M0 = ctx.snapshot(T), ctx.snapshot(M)
    rec = record_gradients(ctx)
    out = ctx.ot.emd2([] if uniform else a, T, M, log=True, return_matrix=True)
    if uniform:
        a = ctx.arr(["1/%d" % n] * n)
    ctx.check("one result per target", len(out) == 2)
    for k, bk in enumerate((B, B2)):
        c, log = out[k]
        certified(ctx, log["G"], M, a, ctx.arr(bk), log["u"], log["v"])
        ctx.check("value", ctx.eq(c, ctx.np.sum(log["G"] * M)))
        ctx.check("gradient in M", ctx.eq(rec[k][2][2], log["G"]))
        ctx.check("gradient in a", const_shift(ctx, rec[k][2][0], log["u"]))
    l2 = ctx.ot.emd2([] if uniform else a, T, M)
    ctx.check("plain values", [ctx.eq(l2[k], out[k][0]) for k in range(2)])
    ctx.check("inputs kept", [ctx.eq(T, T0), ctx.eq(M, M0)])


def weights(ctx, n, m, Mn):
    """all weights, given costs: value below any plan, equals the plan's cost"""
    a, b = ctx.simplex("a", n), ctx.simplex("b", m)
    M = ctx.arr([[(i * 7 + j * 3 + i * j * Mn) % 5 - Mn for j in range(m)] for i in range(n)])
    c, log = ctx.ot.emd2(a, b, M, log=True, return_matrix=True)
    G = log["G"]
    plan_ok(ctx, G, a, b)
    ctx.check("value", ctx.eq(c, ctx.np.sum(G * M)))
    u, v = log["u"], log["v"]
    ctx.check("potentials feasible", ctx.le(u[:, None] + v[None, :], M))
    ctx.check("potentials attain", ctx.eq(ctx.np.sum(u * a) + ctx.np.sum(v * b), c))


def front(ctx, n, m):
    M = ctx.mat("M", n, m, lo=-1, hi=4)
    a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    f = ctx.ot.emd2
    c = f(a, b, M)
    ctx.check("empty weights are uniform", [ctx.eq(f([], [], M), c), ctx.eq(f(a, [], M), c), ctx.eq(f([], b, M), c)])
    ctx.check("processes are ignored", ctx.eq(f(a, b, M, processes=1), c))
    ctx.check("mass scales the value", ctx.eq(f(2 * a, 2 * b, M), 2 * c))
    for bad in ((a, b[:1], M), (a[:1], b, M)):
        try:
            f(*bad)
            ok = False
        except AssertionError:
            ok = True
        ctx.check("wrong sizes refused", ok)


CASES = []
for ab in AB:
    big = len(AB[ab][0]) * len(AB[ab][1]) > 6
    for center in (True, False):
        for mode in ("plain", "log"):
            CASES.append(Case("value_%s_%d_%s" % (ab, center, mode), value, ab=ab, center=center, mode=mode, tier="thorough" if big and (mode == "plain" or not center) else "quick"))
    CASES.append(Case("subgrad_" + ab, subgrad, ab=ab, tier="thorough" if big else "quick"))
CASES += [
    Case("several_22", several, ab="gen22", B2=["1/2", "1/2"]),
    Case("several_22u", several, ab="gen22", B2=["1/3", "2/3"], uniform=True),
    Case("several_22z", several, ab="gen22", B2=["0", "1"]),
    Case("several_23", several, ab="gen23", B2=["0", "1/3", "2/3"]),
    Case("several_33", several, ab="zero33", B2=["1/3", "0", "2/3"], tier="thorough"),
    Case("weights_22", weights, n=2, m=2, Mn=2), Case("weights_23", weights, n=2, m=3, Mn=1),
    Case("weights_33", weights, n=3, m=3, Mn=1, tier="thorough"),
    Case("front_22", front, n=2, m=2), Case("front_23", front, n=2, m=3),
]
QUICK_WALL = 10
