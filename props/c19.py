"""C19 Entropic Gromov-Wasserstein: proximal and Bregman projected gradient steps."""
import warnings

from symx.worker import Case
from props.c14 import feats, mats
from props.gwlib import fgw_obj, gw_grad
from props.lib import W, W2

QUICK_WALL = 6


def setup(ctx, cs, kind, fused, default):
    C1, C2 = mats(ctx, 2, 2, cs, kind)
    p, q = (ctx.arr(["1/2", "1/2"]), ctx.arr(["1/2", "1/2"])) if default else (ctx.arr(W[2]), ctx.arr(W2[2]))
    M, al = (feats(ctx, 2, 2), ctx.num(fused)) if fused else (None, 1)
    return C1, C2, p, q, M, al


def num(ctx, x):
    return ctx.num(x) if ctx.sym else float(ctx.num(x))


def prox(ctx, cs, kind, fused=None, solver="PGD", iters=2, default=False, g0=False, warm=False, val=False, symmetric=None):
    """each iteration solves an entropic problem whose cost is the gradient at the iterate"""
    G, mod = ctx.ot.gromov, ctx.ot.gromov._bregman
    C1, C2, p, q, M, al = setup(ctx, cs, kind, fused, default)
    eps = "1/3"
    plans = [ctx.arr([["1/5", "1/20"], ["1/5", "11/20"]]), ctx.arr([["1/10", "3/20"], ["3/10", "9/20"]])]
    if default:
        plans = [ctx.arr([["1/5", "3/10"], ["3/10", "1/5"]]), ctx.arr([["2/5", "1/10"], ["1/10", "2/5"]])]
    seen = []

    def sinkhorn(a, b, C, reg, method="sinkhorn", log=False, warmstart=None, **kw):
        k = len(seen)
        u, v = ctx.arr([k + 1, k + 2]), ctx.arr([k + 3, k + 1])
        seen.append(dict(a=a, b=b, C=ctx.snapshot(C), reg=reg, warm=warmstart, u=u, v=v, kw=kw))
        T = plans[k % 2]
        return (T, {"u": u, "v": v}) if log else T
    ctx.patch(mod, "sinkhorn", sinkhorn)
    kw = dict(loss_fun=kind, epsilon=num(ctx, eps), max_iter=iters, tol=-1, solver=solver, log=True, warmstart=warm)
    if symmetric is not None:
        kw["symmetric"] = symmetric
    if not default:
        kw.update(p=p, q=q)
    T0 = p[:, None] * q[None, :]
    if g0:
        T0 = ctx.arr([["3/20", "1/10"], ["1/4", "1/2"]])
        kw["G0"] = T0
    name = "entropic_fused_gromov_wasserstein" if fused else "entropic_gromov_wasserstein"
    args = (M, C1, C2) if fused else (C1, C2)
    if fused:
        kw["alpha"] = num(ctx, fused)
    if val:
        v, log = getattr(G, name + "2")(*args, **kw)
        T = log["T"]
    else:
        T, log = getattr(G, name)(*args, **kw)
        v = log["fgw_dist" if fused else "gw_dist"]
    ctx.check("number of subproblems", len(seen) == iters)
    cur = T0
    for k, s in enumerate(seen):
        g = gw_grad(ctx, M, C1, C2, cur, al, kind)
        if solver == "PPA":
            g = g - ctx.num(eps) * ctx.log(cur)
        ctx.check("marginals and regularisation", [ctx.eq(s["a"], p), ctx.eq(s["b"], q), ctx.eq(s["reg"], ctx.num(eps))])
        ctx.check("cost of the step", ctx.eq(s["C"], g))
        cur = plans[k % 2]
    ctx.check("plan", ctx.eq(T, cur))
    ctx.check("value is the objective", ctx.eq(v, fgw_obj(ctx, M, C1, C2, T, al, kind)))
    if val and fused:
        lin = sum(T[i, j] * M[i, j] for i in range(2) for j in range(2))
        ctx.check("parts", [ctx.eq(log["lin_loss"], (1 - al) * lin), ctx.eq(log["quad_loss"], v - (1 - al) * lin)])


def bapg(ctx, cs, kind, fused=None, marginal=False, default=False, g0=False, val=False, symmetric=None):
    """one row and one column Bregman projection"""
    G = ctx.ot.gromov
    C1, C2, p, q, M, al = setup(ctx, cs, kind, fused, default)
    eps = "1/2"
    kw = dict(loss_fun=kind, epsilon=num(ctx, eps), max_iter=1, tol=-1, marginal_loss=marginal, log=True)
    if symmetric is not None:
        kw["symmetric"] = symmetric
    if not default:
        kw.update(p=p, q=q)
    T0 = p[:, None] * q[None, :]
    if g0:
        T0 = ctx.arr([["3/20", "1/10"], ["1/4", "1/2"]])
        kw["G0"] = T0
    if fused:
        kw["alpha"] = num(ctx, fused)
    name = "BAPG_fused_gromov_wasserstein" if fused else "BAPG_gromov_wasserstein"
    args = (M, C1, C2) if fused else (C1, C2)
    seen = []
    np_, exp_ = ctx.np, None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if val:
            v, log = getattr(G, name + "2")(*args, **kw)
            T = log["T"]
        else:
            T, log = getattr(G, name)(*args, **kw)
            v = log["fgw_dist" if fused else "gw_dist"]
    e = ctx.num(eps)
    # first half step: rows normalised, exponent the gradient up to constants per row and column
    g = gw_grad(ctx, M, C1, C2, T0, al, kind)
    if not marginal:
        g = g - const(ctx, C1, C2, T0, al, kind)
    R = T0 * ctx.exp(-1 * g / e)
    H = ctx.pack([[p[i] * R[i, j] / (R[i, 0] + R[i, 1]) for j in range(2)] for i in range(2)])
    ctx.check("column marginal", ctx.eq([T[0, 0] + T[1, 0], T[0, 1] + T[1, 1]], q))
    g2 = gw_grad(ctx, M, C1, C2, H, al, kind)
    if not marginal:
        g2 = g2 - const(ctx, C1, C2, H, al, kind)
    R2 = H * ctx.exp(-1 * g2 / e)
    for j in range(2):
        ctx.check("step", ctx.eq(T[0, j] * R2[1, j], T[1, j] * R2[0, j]))
    ctx.check("value is the objective", [] if val is None else ctx.eq(v, fgw_val(ctx, M, C1, C2, T, al, kind, p, q)))
    if val and fused:
        lin = sum(T[i, j] * M[i, j] for i in range(2) for j in range(2))
        ctx.check("parts", [ctx.eq(log["lin_loss"], (1 - al) * lin), ctx.eq(log["quad_loss"], v - (1 - al) * lin)])


def const(ctx, C1, C2, T, al, kind):
    """part of the gradient that only depends on the marginals"""
    n = range(2)
    p, q = [T[i, 0] + T[i, 1] for i in n], [T[0, j] + T[1, j] for j in n]
    if kind == "square_loss":
        f1, f2 = (lambda x: x * x), (lambda x: x * x)
    else:
        f1, f2 = (lambda x: x * ctx.log(x) - x), (lambda x: x)
    # the cross term keeps its own constants, only these two are dropped
    R = [[sum((f1(C1[i, k]) + f1(C1[k, i])) * p[k] for k in n) + sum((f2(C2[j, l]) + f2(C2[l, j])) * q[l] for l in n) for j in n] for i in n]
    return al * ctx.pack(R)


def fgw_val(ctx, M, C1, C2, T, al, kind, p, q):
    """objective with the constant part at the prescribed marginals (T meets only one of them)"""
    n = range(2)
    if kind == "square_loss":
        f1, f2, h1, h2 = (lambda x: x * x), (lambda x: x * x), (lambda x: x), (lambda x: 2 * x)
    else:
        f1, f2, h1, h2 = (lambda x: x * ctx.log(x) - x), (lambda x: x), (lambda x: x), (lambda x: ctx.log(x))
    r = ctx.num(0)
    for i in n:
        for j in n:
            t = sum(f1(C1[i, k]) * p[k] for k in n) + sum(f2(C2[j, l]) * q[l] for l in n) - sum(h1(C1[i, k]) * T[k, l] * h2(C2[j, l]) for k in n for l in n)
            r = r + t * T[i, j]
    r = al * r
    if M is not None:
        r = r + (1 - al) * sum(T[i, j] * M[i, j] for i in n for j in n)
    return r


CASES = []
for kn, kd in (("sq", "square_loss"), ("kl", "kl_loss")):
    for c in ("sym1", "sym2", "gen1", "gen2"):
        CASES += [Case("pgd_%s_%s" % (kn, c), prox, cs=c, kind=kd), Case("fpgd_%s_%s" % (kn, c), prox, cs=c, kind=kd, fused="1/3"), Case("bapg_%s_%s" % (kn, c), bapg, cs=c, kind=kd), Case("bapgm_%s_%s" % (kn, c), bapg, cs=c, kind=kd, marginal=True)]
    CASES += [Case("ppa_%s" % kn, prox, cs="gen1", kind=kd, solver="PPA"), Case("fppa_%s" % kn, prox, cs="sym2", kind=kd, solver="PPA", fused="2/3"),
              Case("pgdval_%s" % kn, prox, cs="gen2", kind=kd, val=True, g0=True), Case("fpgdval_%s" % kn, prox, cs="sym1", kind=kd, val=True, fused="1/3", default=True), Case("pgdwarm_%s" % kn, prox, cs="sym2", kind=kd, warm=True), Case("fpgdwarm_%s" % kn, prox, cs="gen2", kind=kd, warm=True, fused="1/3", val=True),
              Case("fbapg_%s" % kn, bapg, cs="gen1", kind=kd, fused="1/3"), Case("fbapgs_%s" % kn, bapg, cs="sym2", kind=kd, fused="2/3", val=True), Case("fbapgm_%s" % kn, bapg, cs="sym1", kind=kd, fused="1/3", marginal=True, val=True), Case("fbapgmg_%s" % kn, bapg, cs="gen2", kind=kd, fused="1/3", marginal=True),
              Case("bapgval_%s" % kn, bapg, cs="gen2", kind=kd, val=True, g0=True), Case("bapgdef_%s" % kn, bapg, cs="sym1", kind=kd, default=True)]
CASES += [Case("pgd_flag", prox, cs="sym1", kind="square_loss", symmetric=True), Case("pgd_flagf", prox, cs="sym1", kind="square_loss", symmetric=False), Case("fpgd_flag", prox, cs="sym2", kind="square_loss", symmetric=True, fused="1/3"), Case("bapg_flag", bapg, cs="sym2", kind="square_loss", symmetric=False)]
BOUNDS = "2x2 structures with two symbolic entries, fixed weights; two proximal steps (one row and one column projection for the alternated scheme); the entropic subproblem is replaced by a recorder returning given couplings (its own property is C07)"
STUBS = ["ot.gromov._bregman.sinkhorn"]
