"""C01 exact OT: plan feasible, optimal, duals certify."""
from symx.worker import Case

NEEDS_CPP = True


def ot_plan(ctx, a, b, M, G, pref=""):
    n, m = len(a), len(b)
    ctx.check(pref + "plan nonnegative", ctx.le(0, G))
    ctx.check(pref + "row marginals", ctx.eq(ctx.np.sum(G, axis=1), a))
    ctx.check(pref + "column marginals", ctx.eq(ctx.np.sum(G, axis=0), b))


def duals(ctx, a, b, M, G, u, v, pref=""):
    n, m = len(a), len(b)
    ctx.check(pref + "dual feasible", ctx.le(u[:, None] + v[None, :], M))
    ctx.check(pref + "strong duality", ctx.eq(sum(u[i] * a[i] for i in range(n)) + sum(v[j] * b[j] for j in range(m)),
              sum(G[i, j] * M[i, j] for i in range(n) for j in range(m))))


def emd_sym_M(ctx, n, m):
    ot = ctx.ot
    a = ctx.simplex("a", n, pos=True) if n == 2 else ctx.arr(["1/2", "1/3", "1/6"])
    b = ctx.arr(["1/%d" % m] * m)
    M = ctx.mat("M", n, m, lo=-4, hi=4)
    G, log = ot.emd(a, b, M, log=True)
    ot_plan(ctx, a, b, M, G)
    duals(ctx, a, b, M, G, log["u"], log["v"])
    ctx.check("cost", ctx.eq(log["cost"], ctx.np.sum(G * M)))


def emd_sym_ab(ctx, n, m):
    ot = ctx.ot
    a = ctx.simplex("a", n)
    b = ctx.simplex("b", m)
    M = ctx.arr([[(i * 7 + j * 3 + i * j * 2) % 5 for j in range(m)] for i in range(n)])
    G, log = ot.emd(a, b, M, log=True)
    ot_plan(ctx, a, b, M, G)


def emd_zero(ctx, A, B, center):
    """empty points on both sides: the potentials still certify the plan, for them too"""
    a, b = ctx.arr(A), ctx.arr(B)
    M = ctx.mat("M", len(A), len(B), lo=-4, hi=4)
    G, log = ctx.ot.emd(a, b, M, log=True, center_dual=center)
    ot_plan(ctx, a, b, M, G)
    duals(ctx, a, b, M, G, log["u"], log["v"])
    ctx.check("cost", ctx.eq(log["cost"], ctx.np.sum(G * M)))
    ctx.check("nothing moves from or to empty points", [ctx.eq(G[i, j], 0) for i in range(len(A)) for j in range(len(B)) if A[i] == "0" or B[j] == "0"])


def emd_front(ctx, n, m):
    """default weights, refusals, inputs kept"""
    ot = ctx.ot
    M = ctx.mat("M", n, m, lo=-1, hi=4)
    M0 = ctx.snapshot(M)
    u = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    ctx.check("empty weights are uniform", ctx.eq(ot.emd([], [], M), ot.emd(u[0], u[1], M)))
    ctx.check("cost kept", ctx.eq(M, M0))


def emd_scaled(ctx, n, m):
    """total mass other than one; the target is brought to the source mass within the accepted tolerance"""
    a = ctx.arr(["3/2", "1/2", "1"][:n])
    b = ctx.arr(["1", "3/4", "1/4"][:m])
    b = b * (sum(a) / sum(b))
    M = ctx.mat("M", n, m, lo=-4, hi=4)
    G, log = ctx.ot.emd(a, b, M, log=True)
    ot_plan(ctx, a, b, M, G)
    duals(ctx, a, b, M, G, log["u"], log["v"])


def emd_refuse(ctx, n, m):
    a = ctx.vec("a", n, lo=-1, hi=1)
    b = ctx.vec("b", m, lo=-1, hi=1)
    ctx.assume(ctx.le(ctx.num("1/10"), sum(b)))
    M = ctx.arr([[(i * 7 + j * 3) % 5 for j in range(m)] for i in range(n)])
    d = sum(a) - sum(b)
    try:
        G, log = ctx.ot.emd(a, b, M, log=True)
    except AssertionError:
        # refused: the masses differ
        ctx.check("equal masses are not refused", ctx.ne(d, 0))
        return
    ctx.check("weights of different mass are refused", [ctx.le(d, ctx.num("1/100000")), ctx.le(-d, ctx.num("1/100000"))])
    if any(ctx.test(x < 0) for x in list(a) + list(b)):
        ctx.check("negative weights are reported", log["warning"] is not None)
    else:
        ctx.check("no warning", log["warning"] is None)
        ot_plan(ctx, a, b * (sum(a) / sum(b)), M, G)


CASES = [
    Case("emd_zero33", emd_zero, A=["1/3", "2/3", "0"], B=["0", "2/5", "3/5"], center=True),
    Case("emd_zero33n", emd_zero, A=["1/3", "2/3", "0"], B=["0", "2/5", "3/5"], center=False),
    Case("emd_zero32", emd_zero, A=["1/3", "0", "2/3"], B=["2/5", "3/5"], center=True),
    Case("emd_zero23", emd_zero, A=["1/3", "2/3"], B=["2/5", "0", "3/5"], center=True),
    Case("emd_front", emd_front, n=2, m=2),
    Case("emd_scaled", emd_scaled, n=2, m=2),
    Case("emd_refuse", emd_refuse, n=2, m=2),
    Case("emd_M22", emd_sym_M, n=2, m=2),
    Case("emd_M23", emd_sym_M, n=2, m=3),
    Case("emd_M33", emd_sym_M, n=3, m=3),
    Case("emd_ab23", emd_sym_ab, n=2, m=3),
    Case("emd_ab33", emd_sym_ab, n=3, m=3),
]
