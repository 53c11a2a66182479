"""C12 unregularised / generally regularised unbalanced OT: MM steps, objective and gradient given to L-BFGS-B."""
from symx.worker import Case


def kl(ctx, p, q):
    return ctx.np.sum(p * ctx.np.log(p / q)) + ctx.np.sum(q - p)


def objective(ctx, G, a, b, M, r1, r2, marg, reg=0, rdiv=None, c=None):
    g1, g2 = ctx.np.sum(G, axis=1), ctx.np.sum(G, axis=0)
    f = ctx.np.sum(G * M)
    if marg == "kl":
        f = f + r1 * kl(ctx, g1, a) + r2 * kl(ctx, g2, b)
    elif marg == "l2":
        f = f + r1 / 2 * ctx.np.sum((g1 - a) ** 2) + r2 / 2 * ctx.np.sum((g2 - b) ** 2)
    else:
        f = f + r1 * ctx.np.sum(abs(g1 - a)) + r2 * ctx.np.sum(abs(g2 - b))
    if rdiv == "kl":
        f = f + reg * kl(ctx, G, c)
    elif rdiv == "l2":
        f = f + reg / 2 * ctx.np.sum((G - c) ** 2)
    elif rdiv == "entropy":
        f = f + reg * (ctx.np.sum(G * ctx.np.log(G)) - ctx.np.sum(G))
    return f


def mm_step(ctx, n, m, div, r1, r2, reg, it=1, cdef=False, twocost=False):
    """one MM step exactly minimises the majorisation at the current plan"""
    a, b = ctx.vec("a", n, pos=True, hi=3), ctx.vec("b", m, pos=True, hi=3)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    G0 = ctx.mat("G", n, m, pos=True, hi=2)
    c = a[:, None] * b[None, :] if cdef else ctx.mat("c", n, m, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((a > 1e-4).all() and (b > 1e-4).all() and (G0 > 1e-4).all() and (c > 1e-4).all()))
    r1, r2, reg = ctx.num(r1), ctx.num(r2), ctx.num(reg)
    kw = {} if cdef else dict(c=c)
    un = ctx.ot.unbalanced
    rm = r1 if ctx.val(r1) == ctx.val(r2) else (r1, r2)
    G00 = ctx.snapshot(G0)
    G, log = un.mm_unbalanced(a, b, M, rm, reg=reg, div=div, G0=G0, numItermax=it, stopThr=-1, log=True, **kw)
    ctx.check("start kept", ctx.eq(G0, G00))
    P = G0 if it == 1 else log["G"][it - 2]
    p1, p2 = ctx.np.sum(P, axis=1), ctx.np.sum(P, axis=0)
    # derivative of the separable majorisation (Jensen) of the objective
    conds = []
    for i in range(n):
        for j in range(m):
            g = G[i, j]
            if div == "kl":
                d = M[i, j] + r1 * ctx.log(p1[i] * g / P[i, j] / a[i]) + r2 * ctx.log(p2[j] * g / P[i, j] / b[j])
                if ctx.val(reg) != 0:
                    d = d + reg * ctx.log(g / c[i, j])
                conds += ctx.eq(d, 0)
            else:
                d = M[i, j] + r1 * (p1[i] * g / P[i, j] - a[i]) + r2 * (p2[j] * g / P[i, j] - b[j])
                if ctx.val(reg) != 0:
                    d = d + reg * (g - c[i, j])
                conds += ctx.le(0, g)
                conds += ctx.le(0, d)
                conds.append(ctx.any([ctx.all(ctx.eq(g, 0)), ctx.all(ctx.eq(d, 0))]))
    ctx.check("the step minimises the majorisation", conds)
    lin = ctx.np.sum(G * M)
    ctx.check("linear cost", ctx.eq(log["cost"], lin))
    if div == "kl" or twocost:
        tot = objective(ctx, G, a, b, M, r1, r2, div, reg, div if ctx.val(reg) != 0 else None, c)
        ctx.check("total cost", ctx.eq(log["total_cost"], tot))
    for rc, v in (("linear", log["cost"]), ("total", log["total_cost"])):
        w = un.mm_unbalanced2(a, b, M, rm, reg=reg, div=div, G0=G0, numItermax=it, stopThr=-1, returnCost=rc, **kw)
        ctx.check("returned " + rc + " cost", ctx.eq(w, v))


def mm_defaults(ctx, n, m, div):
    """empty weights mean uniform ones, the default start is the product plan"""
    M = ctx.mat("M", n, m, lo=0, hi=1)
    un = ctx.ot.unbalanced
    a, b = ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)
    G1 = un.mm_unbalanced([], [], M, 1, div=div, numItermax=1, stopThr=-1)
    G2 = un.mm_unbalanced(a, b, M, 1, div=div, G0=a[:, None] * b[None, :], numItermax=1, stopThr=-1)
    ctx.check("defaults", ctx.eq(G1, G2))


def mm_stop(ctx, div):
    """stops exactly when the plan moved less than the threshold"""
    a, b = ctx.arr(["1/2", "1"]), ctx.arr(["3/4", "1/2"])
    M = ctx.mat("M", 2, 2, lo=0, hi=ctx.num("1/2"))
    thr = ctx.real("thr", pos=True, lo=ctx.num("1/100"), hi=1)
    un = ctx.ot.unbalanced
    _, l2 = un.mm_unbalanced(a, b, M, 1, div=div, numItermax=2, stopThr=-1, log=True)
    G, log = un.mm_unbalanced(a, b, M, 1, div=div, numItermax=2, stopThr=thr, log=True)
    d = l2["G"][0] - a[:, None] * b[None, :]
    e2 = ctx.val(ctx.np.sum(d * d))
    if len(log["G"]) == 1:
        ctx.check("stopped although it moved", ctx.le(e2, thr * thr))
        ctx.check("first plan", ctx.eq(G, l2["G"][0]))
    else:
        ctx.check("went on although it did not move", ctx.le(thr * thr, e2))
        ctx.check("second plan", ctx.eq(G, l2["G"][1]))


def lbfgs(ctx, n, m, marg, rdiv, reg, r1, r2, cdef=False, start=False, symreg=False):
    """value and gradient handed to the optimiser are those of the documented objective, and what it returns is reported"""
    a, b = ctx.vec("a", n, pos=True, hi=3), ctx.vec("b", m, pos=True, hi=3)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    X = ctx.mat("X", n, m, pos=True, hi=2)
    c = a[:, None] * b[None, :] if cdef else ctx.mat("c", n, m, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((a > 1e-3).all() and (b > 1e-3).all() and (X > 1e-3).all() and (c > 1e-3).all()))
    r1, r2, reg = ctx.num(r1), ctx.num(r2), ctx.num(reg)
    kw = {} if cdef else dict(c=c)
    if start:
        kw["G0"] = ctx.mat("S", n, m, pos=True, hi=2)
    seen = {}

    class Res:
        pass

    def model(fun, x0, method=None, jac=None, bounds=None, tol=None, options=None):
        seen.update(fun=fun, x0=x0, jac=jac, bounds=bounds, method=method, tol=tol, options=options)
        r = Res()
        r.x = X.reshape(-1)
        r.fun = fun(r.x)[0]
        return r

    ctx.contract("minimize", model)
    un = ctx.ot.unbalanced
    rm = r1 if ctx.val(r1) == ctx.val(r2) else (r1, r2)
    G, log = un.lbfgsb_unbalanced(a, b, M, reg, rm, reg_div=rdiv, regm_div=marg, log=True, **kw)
    if marg == "tv":
        # differentiable points
        for g, t in ((ctx.np.sum(X, axis=1), a), (ctx.np.sum(X, axis=0), b)):
            for p, q in zip(g, t):
                ctx.assume(ctx.neg(ctx.eq(p, q)))
                if not ctx.sym:
                    ctx.assume(bool(abs(p - q) > 1e-3))
    f = lambda Y: objective(ctx, Y.reshape(n, m), a, b, M, r1, r2, marg, reg, rdiv if ctx.val(reg) != 0 else None, c)
    v, g = seen["fun"](X.reshape(-1))
    ctx.check("objective value", ctx.eq(v, f(X)))
    ctx.check_grad("gradient", f, X.reshape(-1), g)
    ctx.check("analytic gradient used", seen["jac"] is True)
    lo, hi = seen["bounds"].lb, seen["bounds"].ub
    ctx.check("non-negativity bounds", [ctx.eq(lo, 0), bool(ctx.np.all(hi == float("inf")))])
    ctx.check("start", ctx.eq(seen["x0"], (kw["G0"] if start else a[:, None] * b[None, :]).reshape(-1)))
    ctx.check("the optimiser's point is returned", ctx.eq(G, X))
    ctx.check("linear cost", ctx.eq(log["cost"], ctx.np.sum(X * M)))
    ctx.check("total cost", ctx.eq(log["total_cost"], f(X)))
    for rc, w in (("linear", log["cost"]), ("total", log["total_cost"])):
        z = un.lbfgsb_unbalanced2(a, b, M, reg, rm, reg_div=rdiv, regm_div=marg, returnCost=rc, **kw)
        ctx.check("returned " + rc + " cost", ctx.eq(z, w))


CASES = []
for n, m in ((2, 2), (2, 3)):
    for div in ("kl", "l2"):
        for r1, r2, reg in (("1", "1", "0"), ("1", "2", "0"), ("1", "1", "2"), ("2", "1", "1/2")):
            for it in (1, 2):
                q = (n, m) == (2, 2) and it == 1 or (n, m, it) == (2, 3, 1) and div == "l2"
                CASES.append(Case("mm_%s_%d%d_%s%s%s_%d" % (div, n, m, r1, r2, reg.replace("/", ""), it), mm_step, n=n, m=m, div=div, r1=r1, r2=r2, reg=reg, it=it,
                                  twocost=(n, m, it) == (2, 2, 1), tier="quick" if q else "thorough", opt_lazymax=True))
    for div in ("kl", "l2"):
        CASES.append(Case("mmdef_%s_%d%d" % (div, n, m), mm_defaults, n=n, m=m, div=div, opt_lazymax=True))
        CASES.append(Case("mmcdef_%s_%d%d" % (div, n, m), mm_step, n=n, m=m, div=div, r1="1", r2="2", reg="1", cdef=True, opt_lazymax=True))
    for marg in ("kl", "l2", "tv"):
        for rdiv in ("kl", "l2", "entropy"):
            for reg in ("0", "3/2"):
                CASES.append(Case("lbfgs_%s_%s_%s_%d%d" % (marg, rdiv, reg[0], n, m), lbfgs, n=n, m=m, marg=marg, rdiv=rdiv, reg=reg, r1="1", r2="1/2" if reg != "0" else "1",
                                  cdef=(rdiv == "l2" and marg == "kl"), start=(marg == "l2"), tier="quick" if n == m and (reg != "0" or rdiv == "kl") else "thorough"))
for div in ("kl", "l2"):
    CASES.append(Case("mmstop_" + div, mm_stop, div=div, opt_lazymax=True))
QUICK_WALL = 12
