"""C14 (fused) Gromov-Wasserstein: objective, gradient, steps."""
from symx.worker import Case
from props.gwlib import options, emd_contract, fgw_obj, gw_grad, loss_fn, record_gradients
from props.lib import W, W2, couplings, fr, pair_cost

NEEDS_CPP = True
QUICK_WALL = 12


def feats(ctx, n, m):
    x, y = ctx.real("f", lo=0, hi=2), ctx.real("g", lo=0, hi=2)
    R = [[ctx.num(z) for z in r[:m]] for r in [["0", "1", "1/2"], ["3/4", "1/3", "2"], ["1", "1/2", "5/4"]][:n]]
    R[0][0], R[1][0] = x, y
    return ctx.pack(R)


def mats(ctx, n, m, cs, kind):
    lo = 0 if kind == "square_loss" else ctx.num("1/10")
    if cs in ("sym1", "sym2", "gen1", "gen2", "gen1x", "gen2x"):
        # one or two entries of one structure vary, the rest is fixed
        F = [["1/2", "2", "3/2"], ["2", "1/3", "1"], ["3/2", "1", "3/4"]] if cs[:3] == "sym" else [["1/2", "2", "3/2"], ["1/3", "1", "3/4"], ["2", "1/4", "1"]]
        H = [["1", "1/4", "5/4"], ["1/4", "3/2", "2"], ["5/4", "2", "1/2"]] if cs[:3] == "sym" else [["1", "1/4", "2"], ["3/2", "1/2", "1/5"], ["2/3", "5/4", "1"]]
        x, y = ctx.real("x", lo=lo, hi=3), ctx.num("4/5") if cs[4:] else ctx.real("y", lo=lo, hi=3)

        def mk(R, k, var):
            R = [[ctx.num(z) for z in r[:k]] for r in R[:k]]
            if var:
                R[0][0], R[0][1] = x, y
                if cs[:3] == "sym":
                    R[1][0] = y
            return ctx.pack(R)
        return mk(F, n, cs[3] == "1"), mk(H, m, cs[3] == "2")
    if cs == "sym":
        return ctx.sym_mat("C", n, lo=lo, hi=3), ctx.sym_mat("D", m, lo=lo, hi=3)
    if cs == "dist":
        return ctx.sym_mat("C", n, diag0=True, lo=0, hi=3), ctx.sym_mat("D", m, diag0=True, lo=0, hi=3)
    if cs == "gen":
        return ctx.mat("C", n, n, lo=lo, hi=3), ctx.mat("D", m, m, lo=lo, hi=3)
    if cs == "half":
        # one symmetric, one not
        return ctx.sym_mat("C", n, lo=lo, hi=3), ctx.arr([["1/2", "2"], ["1/3", "1"]])
    if cs == "genfix":
        return ctx.arr([["1/2", "2"], ["1/3", "1"]]), ctx.mat("D", m, m, lo=lo, hi=3)
    raise KeyError(cs)


def step(ctx, n, m, cs, kind="square_loss", symmetric=None, fused=None, iters=1, g0=None, default=False, armijo=False, exact=True, real=False):
    """one conditional gradient step: descent, exact line search, best linearised vertex; log consistent"""
    G = ctx.ot.gromov
    if not real:
        emd_contract(ctx, (ctx.ot.optim, "emd"))
    C1, C2 = mats(ctx, n, m, cs, kind)
    A, B = (["1/%d" % n] * n, ["1/%d" % m] * m) if default else (W[n], W2[m])
    p, q = ctx.arr(A), ctx.arr(B)
    kw = dict(loss_fun=kind, log=True, max_iter=iters, tol_rel=-1, tol_abs=-1, armijo=armijo)
    if symmetric is not None:
        kw["symmetric"] = symmetric
    T0 = p[:, None] * q[None, :]
    if g0 == "sym":
        t = ctx.real("t", lo=0, hi=ctx.num("1/4"))
        T0 = ctx.pack([[t, p[0] - t], [q[0] - t, p[1] - q[0] + t]])
        ctx.assume([ctx.le(0, x) for x in T0.reshape(-1)])
        kw["G0"] = T0
    if default:
        pq = ()
    else:
        pq = (p, q)
    snaps = [(x, ctx.snapshot(x)) for x in (C1, C2, p, q, T0)]
    M, al = None, 1
    if fused is not None:
        M = feats(ctx, n, m)
        al = ctx.num(fused) if fused != "sym" else ctx.real("al", lo=0, hi=1)
        kw["alpha"] = al if ctx.sym else float(al)
        T, log = G.fused_gromov_wasserstein(M, C1, C2, *pq, **kw)
        val = log["fgw_dist"]
    else:
        T, log = G.gromov_wasserstein(C1, C2, *pq, **kw)
        val = log["gw_dist"]
    obj = lambda X: fgw_obj(ctx, M, C1, C2, X, al, kind)
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in snaps])
    ctx.check("nonnegative", ctx.le(0, T))
    ctx.check("marginals", [ctx.eq(ctx.np.sum(T, axis=1), p), ctx.eq(ctx.np.sum(T, axis=0), q)])
    f0, f1 = obj(T0), obj(T)
    ctx.check("initial loss", ctx.eq(log["loss"][0], f0))
    ctx.check("reported loss is the objective", [ctx.eq(val, f1), ctx.eq(log["loss"][-1], val)])
    ctx.check("one loss per iteration", len(log["loss"]) == iters + 1)
    for k in range(iters):
        ctx.check("loss never increases", ctx.le(log["loss"][k + 1], log["loss"][k]))
    if iters > 1 or not exact:
        return
    V = [ctx.arr([[x for x in r] for r in P]) for P in couplings(fr(*A), fr(*B))]
    grad = gw_grad(ctx, M, C1, C2, T0, al, kind)
    lin = [sum(P[i, j] * grad[i, j] for i in range(n) for j in range(m)) for P in V]
    s = ctx.real("s", lo=0, hi=1)
    conds = []
    alts = []
    for P, l in zip(V, lin):
        X = T0 + s * (P - T0)
        alts.append(ctx.all([ctx.le(l, x) for x in lin] + ctx.le(f1, obj(X))))
    ctx.check("best point towards the best vertex", ctx.any(alts))


def value(ctx, n, m, cs, kind, fused=None, numalpha=True):
    """value = objective of the plan; gradients of the objective at that plan"""
    G = ctx.ot.gromov
    C1, C2 = mats(ctx, n, m, cs, kind)
    p, q = ctx.arr(W[n]), ctx.arr(W2[m])
    emd_contract(ctx, (ctx.ot.optim, "emd"))
    rec = record_gradients(ctx)
    kw = dict(loss_fun=kind, log=True, max_iter=1, tol_rel=-1, tol_abs=-1)
    M, al = None, 1
    if fused:
        M = feats(ctx, n, m)
        al = ctx.num(fused) if fused != "sym" else ctx.real("al", lo=ctx.num("1/100"), hi=1)
        if not ctx.sym:
            al = float(al) if numalpha else np_array(al)
        kw["alpha"] = al
        v, log = G.fused_gromov_wasserstein2(M, C1, C2, p, q, **kw)
    else:
        v, log = G.gromov_wasserstein2(C1, C2, p, q, **kw)
    T = log["T"]
    ctx.check("value", ctx.eq(v, fgw_obj(ctx, M, C1, C2, T, al, kind)))
    if fused:
        lin = sum(T[i, j] * M[i, j] for i in range(n) for j in range(m))
        ctx.check("parts", [ctx.eq(log["lin_loss"], (1 - al) * lin), ctx.eq(log["quad_loss"], v - (1 - al) * lin)])
        v2 = G.fused_gromov_wasserstein2(M, C1, C2, p, q, **dict(kw, log=False))
    else:
        v2 = G.gromov_wasserstein2(C1, C2, p, q, **dict(kw, log=False))
    ctx.check("log flag", ctx.eq(v2, v))
    inp, gr = rec[0][1], rec[0][2]
    ctx.check("gradients for every input", len(inp) == len(gr))
    by = {}
    for x, g in zip(inp, gr):
        for nm, y in (("C1", C1), ("C2", C2), ("M", M), ("p", p), ("q", q)):
            if x is y:
                by[nm] = g
    Ts = ctx.snapshot(T)
    L = loss_fn(ctx, kind)
    sq = kind == "square_loss"
    w = al
    e1 = []
    for i in range(n):
        for k in range(n):
            if sq:
                g = sum(2 * (C1[i, k] - C2[j, l]) * T[i, j] * T[k, l] for j in range(m) for l in range(m))
            else:
                g = sum((ctx.log(C1[i, k]) - ctx.log(C2[j, l])) * T[i, j] * T[k, l] for j in range(m) for l in range(m))
            e1 += ctx.eq(by["C1"][i, k], w * g)
    ctx.check("gradient for the first structure", e1)
    e2 = []
    for j in range(m):
        for l in range(m):
            if sq:
                g = sum(2 * (C2[j, l] - C1[i, k]) * T[i, j] * T[k, l] for i in range(n) for k in range(n))
            else:
                g = sum((1 - C1[i, k] / C2[j, l]) * T[i, j] * T[k, l] for i in range(n) for k in range(n))
            e2 += ctx.eq(by["C2"][j, l], w * g)
    ctx.check("gradient for the second structure", e2)
    if fused:
        ctx.check("gradient for the features", ctx.eq(by["M"], (1 - al) * T))
        if len(inp) == 6:
            gw = fgw_obj(ctx, None, C1, C2, T, 1, kind)
            ctx.check("gradient for alpha", ctx.eq(gr[5], gw - lin))
    for nm, k in (("p", n), ("q", m)):
        ctx.check("centred potentials", ctx.eq(sum(by[nm]), 0))


def np_array(x):
    import numpy as np
    return np.array(float(x))


def potentials(ctx, n, m, cs, kind, fused=None):
    """gradients for the weights = centred dual potentials of the linearised problem at a stationary plan"""
    G = ctx.ot.gromov
    C1, C2 = mats(ctx, n, m, cs, kind)
    p, q = ctx.arr(W[n]), ctx.arr(W2[m])
    M, al = None, 1
    kw = dict(loss_fun=kind, log=True, max_iter=1, tol_rel=-1, tol_abs=-1)
    T0 = p[:, None] * q[None, :]
    if fused:
        M = feats(ctx, n, m)
        al = ctx.num(fused)
        T, log = G.fused_gromov_wasserstein(M, C1, C2, p, q, alpha=al if ctx.sym else float(al), **kw)
    else:
        T, log = G.gromov_wasserstein(C1, C2, p, q, **kw)
    grad = gw_grad(ctx, M, C1, C2, T0, al, kind)
    u, v = log["u"], log["v"]
    ctx.check("dual feasible for the linearised problem", ctx.le(u[:, None] + v[None, :], grad))
    d = sum(u[i] * p[i] for i in range(n)) + sum(v[j] * q[j] for j in range(m))
    lin = [pair_cost(ctx, P, grad) for P in couplings(fr(*W[n]), fr(*W2[m]))]
    ctx.check("dual value is the linearised optimum", ctx.any([ctx.all(ctx.eq(d, x)) for x in lin]))


def objective(ctx, n, m, cs, kind):
    """the factored objective and gradient = the four-index definitions, for every plan"""
    G = ctx.ot.gromov
    C1, C2 = mats(ctx, n, m, cs, kind)
    T = ctx.mat("T", n, m, lo=0, hi=1)
    p, q = ctx.np.sum(T, axis=1), ctx.np.sum(T, axis=0)
    cC, h1, h2 = G.init_matrix(C1, C2, p, q, kind)
    ctx.check("loss", ctx.eq(G.gwloss(cC, h1, h2, T), fgw_obj(ctx, None, C1, C2, T, 1, kind)))
    if cs in ("sym", "dist"):
        ctx.check("gradient", ctx.eq(G.gwggrad(cC, h1, h2, T), gw_grad(ctx, None, C1, C2, T, 1, kind)))
    else:
        L = loss_fn(ctx, kind)
        R = ctx.pack([[sum(L(C1[i, k], C2[j, l]) * T[k, l] for k in range(n) for l in range(m)) for j in range(m)] for i in range(n)])
        ctx.check("tensor product", ctx.eq(G.tensor_product(cC, h1, h2, T), R))


KS = {"sq": "square_loss", "kl": "kl_loss"}
CASES = []
for kn, kd in KS.items():
    CASES += [Case("obj_%s22" % kn, objective, n=2, m=2, cs="gen", kind=kd), Case("obj_%s23" % kn, objective, n=2, m=3, cs="sym", kind=kd)]
    for c in ("sym1", "sym2", "gen1", "gen2"):
        CASES += [Case("val_%s22_%s" % (kn, c), value, n=2, m=2, cs=c, kind=kd), Case("step_%s22_%s" % (kn, c), step, n=2, m=2, cs=c, kind=kd),
                  Case("fstep_%s22_%s" % (kn, c), step, n=2, m=2, cs=c, kind=kd, fused="1/3"),
                  Case("step_%s22_%s_f" % (kn, c), step, n=2, m=2, cs=c, kind=kd, symmetric=c[:3] == "sym"),
                  Case("step_%s23_%s" % (kn, c), step, n=2, m=3, cs=c, kind=kd, exact=False), Case("step_%s22_%s_it2" % (kn, c), step, n=2, m=2, cs=c, kind=kd, iters=2)]
    CASES += [Case("fval_%s22" % kn, value, n=2, m=2, cs="sym1", kind=kd, fused="1/3"), Case("fval_%s22a" % kn, value, n=2, m=2, cs="gen2", kind=kd, fused="sym", numalpha=False)]
    CASES += [Case("pot_%s22" % kn, potentials, n=2, m=2, cs="sym1", kind=kd), Case("fpot_%s22" % kn, potentials, n=2, m=2, cs="gen2", kind=kd, fused="2/3")]
for w in ("gromov_wasserstein", "fused_gromov_wasserstein"):
    CASES += [Case("options_%s%s_%d" % (w, "2" if two else "", lg), options, modname="_gw", fname=w, two=two, log=lg) for two in (False, True) for lg in (True, False)]
CASES += [
    Case("step_22_default", step, n=2, m=2, cs="sym1", default=True),
    Case("step_22_g0", step, n=2, m=2, cs="dist", g0="sym"),
    Case("fstep_22_al", step, n=2, m=2, cs="dist", fused="sym"),
    Case("step_23", step, n=2, m=3, cs="sym1", exact=False),
    Case("fstep_23", step, n=2, m=3, cs="sym1", fused="1/2", exact=False),
    Case("step_22_real", step, n=2, m=2, cs="sym1", real=True),
    Case("fstep_22_real", step, n=2, m=2, cs="dist", fused="1/2", real=True),
    Case("step_33", step, n=3, m=3, cs="sym1", exact=False),
    Case("arm_22", step, n=2, m=2, cs="dist", armijo=True, exact=False),
]
