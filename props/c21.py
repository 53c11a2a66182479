"""C21 smooth and sparsity-constrained OT: dual and semi-dual objectives, gradients, plans."""
from itertools import combinations

from symx.worker import Case
from props.lib import W, W2

NEEDS_CPP = False


def setup(ctx, n, m, k):
    seen = {}

    class Res:
        pass

    def model(fun, x0, method=None, jac=None, bounds=None, tol=None, options=None):
        seen.update(fun=fun, x0=x0, jac=jac, method=method, tol=tol, options=options)
        r = Res()
        r.x = k
        r.fun = fun(k)[0]
        return r
    ctx.contract("minimize", model)
    return seen


def pos(ctx, x):
    return ctx.np.maximum(x, 0)


def supports(n, nz):
    return [set(S) for S in combinations(range(n), min(nz, n))]


def dual(ctx, n, m, kind, reg, nz=None, names=("l2",), Y=True):
    a, b = ctx.arr(W[n]), ctx.arr(W2[m])
    C = ctx.mat("C", n, m, lo=-2, hi=3)
    X = ctx.vec("X", n + m, lo=-2, hi=3)
    seen = setup(ctx, n, m, X)
    g = ctx.num(reg)
    kw = dict(reg_type=kind, method="CG", stopThr=1 / 8, numItermax=17, log=True)
    if nz:
        kw["max_nz"] = nz
    keep = [ctx.snapshot(x) for x in (a, b, C)]
    T, log = ctx.ot.smooth.smooth_ot_dual(a, b, C, g if ctx.sym else float(g), **kw)
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in zip((a, b, C), keep)])
    ctx.check("options", seen["method"] == "CG" and seen["tol"] == 1 / 8 and seen["options"]["maxiter"] == 17 and seen["jac"] is True)
    ctx.check("start", [ctx.eq(seen["x0"], ctx.np.zeros(n + m))])
    ctx.check("potentials", [ctx.eq(log["alpha"], X[:n]), ctx.eq(log["beta"], X[n:])])
    v, gr = seen["fun"](X)
    Z = [[X[i] + X[n + j] - C[i, j] for j in range(m)] for i in range(n)]
    base = sum(X[i] * a[i] for i in range(n)) + sum(X[n + j] * b[j] for j in range(m))
    ctx.check("gradient is the marginal violation", [ctx.eq(gr[:n], ctx.np.sum(T, axis=1) - a), ctx.eq(gr[n:], ctx.np.sum(T, axis=0) - b)])
    ctx.check("nonnegative", ctx.le(0, T))
    if kind in ("entropic", "kl", "negentropy"):
        E = [[ctx.exp(Z[i][j] / g - 1) for j in range(m)] for i in range(n)]
        ctx.check("plan", ctx.eq(T, ctx.pack(E)))
        ctx.check("objective", ctx.eq(-v, base - g * sum(sum(r) for r in E)))
        return
    # Fenchel equality at the plan, and no other admissible column does better
    om = g / 2 * sum(T[i, j] * T[i, j] for i in range(n) for j in range(m))
    lin = sum(Z[i][j] * T[i, j] for i in range(n) for j in range(m))
    ctx.check("objective", ctx.eq(-v, base - lin + om))
    if nz:
        for j in range(m):
            ctx.check("column sparsity", ctx.any([ctx.all([ctx.eq(T[i, j], 0) for i in range(n) if i not in S]) for S in supports(n, nz)]))
    for j in range(m):
        c = sum(Z[i][j] * T[i, j] - g / 2 * T[i, j] * T[i, j] for i in range(n))
        best = [sum(pos(ctx, Z[i][j]) * pos(ctx, Z[i][j]) for i in S) / (2 * g) for S in (supports(n, nz) if nz else [range(n)])]
        ctx.check("conjugate", [ctx.le(z, c) for z in best] + [ctx.any([ctx.all(ctx.eq(z, c)) for z in best])])


def semi(ctx, n, m, kind, reg, nz=None):
    a, b = ctx.arr(W[n]), ctx.arr(W2[m])
    C = ctx.mat("C", n, m, lo=-2, hi=3)
    X = ctx.vec("X", n, lo=-2, hi=3)
    seen = setup(ctx, n, m, X)
    g = ctx.num(reg)
    kw = dict(reg_type=kind, method="CG", stopThr=1 / 8, numItermax=17, log=True)
    if nz:
        kw["max_nz"] = nz
    keep = [ctx.snapshot(x) for x in (a, b, C)]
    T, log = ctx.ot.smooth.smooth_ot_semi_dual(a, b, C, g if ctx.sym else float(g), **kw)
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in zip((a, b, C), keep)])
    ctx.check("options", seen["method"] == "CG" and seen["tol"] == 1 / 8 and seen["options"]["maxiter"] == 17 and seen["jac"] is True)
    ctx.check("start", ctx.eq(seen["x0"], ctx.np.zeros(n)))
    ctx.check("potentials", ctx.eq(log["alpha"], X))
    v, gr = seen["fun"](X)
    Z = [[X[i] - C[i, j] for j in range(m)] for i in range(n)]
    ctx.check("nonnegative", ctx.le(0, T))
    ctx.check("column marginals", ctx.eq(ctx.np.sum(T, axis=0), b))
    ctx.check("gradient is the marginal violation", ctx.eq(gr, ctx.np.sum(T, axis=1) - a))
    base = sum(X[i] * a[i] for i in range(n))
    if kind in ("entropic", "kl", "negentropy"):
        S = [sum(ctx.exp(Z[i][j] / g) for i in range(n)) for j in range(m)]
        ctx.check("plan", [ctx.eq(T[i, j] * S[j], b[j] * ctx.exp(Z[i][j] / g)) for i in range(n) for j in range(m)])
        ctx.check("objective", ctx.eq(-v, base - sum(b[j] * g * (ctx.log(S[j]) - ctx.log(b[j])) for j in range(m))))
        return
    lin = sum(Z[i][j] * T[i, j] for i in range(n) for j in range(m))
    om = g / 2 * sum(T[i, j] * T[i, j] for i in range(n) for j in range(m))
    ctx.check("objective", ctx.eq(-v, base - lin + om))
    for j in range(m):
        # optimality of the column: one multiplier for all positive entries, larger scores nowhere else (within each support)
        S = supports(n, nz) if nz else [set(range(n))]
        k = []
        for s in S:
            c = [ctx.eq(T[i, j], 0) for i in range(n) if i not in s]
            for i in s:
                for l in s:
                    c.append(ctx.any([ctx.all(ctx.eq(T[i, j], 0)), ctx.all(ctx.le(Z[l][j] - g * T[l, j], Z[i][j] - g * T[i, j]))]))
            c += [ctx.le(Z[i][j], Z[l][j]) for l in s for i in range(n) if i not in s]
            k.append(ctx.all(c))
        ctx.check("optimal column", ctx.any(k))


def gap(ctx, kind, n=2, m=2):
    """dual point with zero gradient: the plan is feasible and primal = dual"""
    a, b = ctx.arr(W[n]), ctx.arr(W2[m])
    S = ctx.ot.smooth
    g = ctx.num("1/2")
    R = (S.SquaredL2 if kind == "l2" else S.NegEntropy)(g if ctx.sym else float(g))
    C = ctx.mat("C", n, m, lo=0, hi=2)
    T = ctx.arr([["1/5", "1/20"], ["1/5", "11/20"]])
    al, be = ctx.vec("al", n, lo=-1, hi=1), ctx.vec("be", m, lo=-1, hi=1)
    # costs for which (al, be) are optimal potentials of T
    D = al[:, None] + be[None, :] - (g * T if kind == "l2" else g * (ctx.log(T) + 1))
    o, ga, gb = S.dual_obj_grad(al, be, a, b, D, R)
    ctx.check("stationary", [ctx.eq(ga, 0), ctx.eq(gb, 0)])
    P = S.get_plan_from_dual(al, be, D, R)
    ctx.check("plan", ctx.eq(P, T))
    ctx.check("no gap", ctx.eq(o, ctx.np.sum(T * D) + R.Omega(T)))
    o2, g2 = S.semi_dual_obj_grad(al, a, b, D, R)
    ctx.check("semi-dual stationary", ctx.eq(g2, 0))
    ctx.check("semi-dual plan", ctx.eq(S.get_plan_from_semi_dual(al, b, D, R), T))
    ctx.check("semi-dual value", ctx.eq(o2, ctx.np.sum(T * D) + R.Omega(T)))


CASES = []
for n, m in ((2, 2), (2, 3), (3, 2), (3, 3)):
    t = "quick" if n * m <= 6 else "thorough"
    for kind in ("l2", "squaredl2", "kl", "negentropy", "entropic"):
        if kind in ("squaredl2", "negentropy", "entropic") and (n, m) != (2, 2):
            continue
        CASES += [Case("dual_%s_%d%d" % (kind, n, m), dual, n=n, m=m, kind=kind, reg="1/2" if kind != "l2" else "2/3", tier=t),
                  Case("semi_%s_%d%d" % (kind, n, m), semi, n=n, m=m, kind=kind, reg="1/2" if kind != "l2" else "2/3", tier=t, opt_lazymax=True)]
    for nz in (1, 2, 3):
        if nz > n + 1 or (n == 3 and m == 3):
            continue
        CASES += [Case("dual_sp%d_%d%d" % (nz, n, m), dual, n=n, m=m, kind="sparsity_constrained", reg="1/2", nz=nz, tier="quick" if m == 2 else "thorough"),
                  Case("semi_sp%d_%d%d" % (nz, n, m), semi, n=n, m=m, kind="sparsity-constrained", reg="1/2", nz=nz, tier="quick" if m == 2 else "thorough")]
CASES += [Case("gap_" + k, gap, kind=k, opt_lazymax=True) for k in ("l2", "kl")]
BOUNDS = "all costs and dual variables of 2x2, 2x3 and 3x2 problems (3x3 thorough), fixed weights, one to three nonzeros per column"
