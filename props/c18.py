"""C18 ot.solve / solve_gromov / solve_sample: results describe the documented problem."""
import warnings

from symx.worker import Case
from props.c12 import objective
from props.c14 import feats, mats
from props.c16 import uncap
from props.gwlib import emd_contract, fgw_obj, gw_grad, record_gradients
from props.lib import W, W2, couplings, fr, pair_cost

NEEDS_CPP = True
QUICK_WALL = 6
INF = float("inf")


def fl(ctx, x):
    return ctx.num(x) if ctx.sym else float(ctx.num(x))


def wts(ctx, n, m, default):
    if default:
        return ["1/%d" % n] * n, ["1/%d" % m] * m
    return W[n], W2[m]


def same_result(ctx, res, plan, nx=None):
    """views of the plan are consistent"""
    np_ = ctx.np
    ctx.check("result marginals", [ctx.eq(res.marginal_a, np_.sum(plan, axis=1)), ctx.eq(res.marginal_b, np_.sum(plan, axis=0)), ctx.eq(res.marginals[0], res.marginal_a), ctx.eq(res.marginals[1], res.marginal_b)])
    if res.potentials is not None:
        ctx.check("result potentials", [ctx.eq(res.potential_a, res.potentials[0]), ctx.eq(res.potential_b, res.potentials[1])])
    else:
        ctx.check("no potentials", res.potential_a is None and res.potential_b is None)


def exact(ctx, n, m, default=False):
    A, B = wts(ctx, n, m, default)
    M = ctx.mat("M", n, m, lo=-2, hi=2)
    kw = {} if default else dict(a=ctx.arr(A), b=ctx.arr(B))
    res = ctx.ot.solve(M, **kw)
    T = res.plan
    ctx.check("a plan is returned", T is not None)
    cost = sum(T[i, j] * M[i, j] for i in range(n) for j in range(m))
    ctx.check("value", [ctx.eq(res.value, cost), ctx.eq(res.value_linear, cost)])
    ctx.check("plan", [ctx.le(0, T), ctx.eq(ctx.np.sum(T, axis=1), ctx.arr(A)), ctx.eq(ctx.np.sum(T, axis=0), ctx.arr(B))])
    u, v = res.potentials
    ctx.check("dual feasible", [ctx.le(u[i] + v[j], M[i, j]) for i in range(n) for j in range(m)])
    ctx.check("dual value", ctx.eq(sum(u[i] * ctx.num(A[i]) for i in range(n)) + sum(v[j] * ctx.num(B[j]) for j in range(m)), cost))
    ctx.check("status", res.status == "Converged")
    same_result(ctx, res, T)


def xlogx(ctx, T):
    n, m = T.shape
    return sum(T[i, j] * ctx.log(T[i, j]) for i in range(n) for j in range(m))


def gibbs(ctx, a, b, K, it, u=None):
    n, m = K.shape
    u = [ctx.num(1) / n] * n if u is None else u
    for _ in range(it):
        v = [b[j] / sum(K[i, j] * u[i] for i in range(n)) for j in range(m)]
        u = [a[i] / sum(K[i, j] * v[j] for j in range(m)) for i in range(n)]
    return ctx.pack([[u[i] * K[i, j] * v[j] for j in range(m)] for i in range(n)]), u, v


def sink(ctx, n, m, it, kind, grad="autodiff", default=False, ref=False, warm=False, reg="1/2"):
    """the Sinkhorn iterate, its documented value, envelope gradients"""
    A, B = wts(ctx, n, m, default)
    K = ctx.mat("K", n, m, lo="1/100", hi=1)
    a, b = ctx.arr(A), ctx.arr(B)
    r = ctx.num(reg)
    M = -r * ctx.log(K)
    kw = {} if default else dict(a=a, b=b)
    c = None
    if ref:
        c = ctx.arr([["1/2", "1/3", "1"], ["2", "1/4", "1/5"]]) if m == 3 else ctx.arr([["1/2", "1/3"], ["2", "1/4"]])
        kw["c"] = c
    u0 = None
    if warm:
        e = ctx.arr(["2", "1/3", "5"])[:n]
        u0 = [e[i] for i in range(n)]
        kw["potentials_init"] = (ctx.log(e), ctx.log(ctx.arr(["3", "1/2", "7"])[:m]))
    if n != m or warm:
        pass
    rec = record_gradients(ctx)
    res = ctx.ot.solve(M, reg=fl(ctx, reg), reg_type=kind, max_iter=it, tol=-1, grad=grad, **kw)
    Kc = ctx.pack([[K[i, j] * c[i, j] for j in range(m)] for i in range(n)]) if ref and kind.lower() == "kl" else K
    R, u, v = gibbs(ctx, a, b, Kc, it, u0)
    T = res.plan
    ctx.check("a plan is returned", T is not None)
    ctx.check("plan is the iterate", ctx.eq(T, R))
    lin = sum(T[i, j] * M[i, j] for i in range(n) for j in range(m))
    ctx.check("linear value", ctx.eq(res.value_linear, lin))
    lx = xlogx(ctx, T)
    if kind.lower() == "entropy":
        val = lin + r * lx
    else:
        cc = c if ref else ctx.pack([[a[i] * b[j] for j in range(m)] for i in range(n)])
        val = lin + r * (lx - sum(T[i, j] * ctx.log(cc[i, j]) for i in range(n) for j in range(m)) - sum(T[i, j] - cc[i, j] for i in range(n) for j in range(m)))
    ctx.check("value is the objective", ctx.eq(res.value, val))
    f, g = res.potentials
    ctx.check("potentials give the plan", ctx.eq(ctx.exp(f[:, None] + g[None, :]) * Kc, T))
    same_result(ctx, res, T)
    if grad == "envelope":
        vv, ins, gr = rec[-1]
        by = {}
        for x, z in zip(ins, gr):
            if x is M:
                by["M"] = z
            if not default and x is kw["a"]:
                by["a"] = z
            if not default and x is kw["b"]:
                by["b"] = z
        ctx.check("gradient for the cost", ctx.eq(by["M"], T))
        if not default:
            # d value / d a_i up to a constant, at a pair of scalings satisfying the optimality conditions
            sub = kind.lower() == "kl" and not ref
            for key, s, w in (("a", u, A), ("b", v, B)):
                z = by[key]
                e = [r * (ctx.log(s[i]) - (ctx.log(ctx.num(w[i])) if sub else 0)) for i in range(len(w))]
                ctx.check("gradient for the weights", [ctx.eq(z[i] - z[0], e[i] - e[0]) for i in range(1, len(w))])


def general(ctx, n, m, default=False, it=1, init=False):
    """conditional gradient with a given regulariser"""
    A, B = wts(ctx, n, m, default)
    emd_contract(ctx, (ctx.ot.optim, "emd"))
    x, y = ctx.real("x", lo=0, hi=2), ctx.real("y", lo=0, hi=2)
    R = [[x, ctx.num("1/2"), ctx.num(1)][:m], [ctx.num("1/3"), y, ctx.num(2)][:m]]
    M = ctx.pack(R)
    a, b = ctx.arr(A), ctx.arr(B)
    kw = {} if default else dict(a=a, b=b)
    reg = "3/2"
    f = lambda G: ctx.np.sum(G ** 2) / 2
    df = lambda G: G
    if init:
        P = couplings(fr(*A), fr(*B))[0]
        kw["plan_init"] = (ctx.arr(P) + a[:, None] * b[None, :]) / 2
    res = ctx.ot.solve(M, reg=fl(ctx, reg), reg_type=(f, df), max_iter=it, tol=-1, **kw)
    T = res.plan
    ctx.check("a plan is returned", T is not None)
    obj = lambda G: sum(G[i, j] * M[i, j] for i in range(n) for j in range(m)) + ctx.num(reg) / 2 * sum(G[i, j] ** 2 for i in range(n) for j in range(m))
    ctx.check("marginals", [ctx.eq(ctx.np.sum(T, axis=1), a), ctx.eq(ctx.np.sum(T, axis=0), b), ctx.le(0, T)])
    ctx.check("linear value", ctx.eq(res.value_linear, sum(T[i, j] * M[i, j] for i in range(n) for j in range(m))))
    ctx.check("value is the objective", ctx.eq(res.value, obj(T)))
    T0 = kw["plan_init"] if init else a[:, None] * b[None, :]
    ctx.check("no worse than the start", ctx.le(res.value, obj(T0)))
    same_result(ctx, res, T)


def quad(ctx, n, m, default=False):
    """quadratic regularisation: plan of the dual point the optimiser stops at, value of the plan"""
    A, B = wts(ctx, n, m, default)
    M = ctx.mat("M", n, m, lo=0, hi=2)
    X = ctx.vec("X", n + m, lo=-1, hi=3)

    class Res:
        pass

    def model(fun, x0, method=None, jac=None, bounds=None, tol=None, options=None):
        r = Res()
        r.x = X
        r.fun = fun(X)[0]
        r.nit, r.success, r.message = 1, True, ""
        return r
    ctx.contract("minimize", model)
    kw = {} if default else dict(a=ctx.arr(A), b=ctx.arr(B))
    res = ctx.ot.solve(M, reg=fl(ctx, "1/2"), reg_type="L2", **kw)
    T = res.plan
    ctx.check("a plan is returned", T is not None)
    r = ctx.num("1/2")
    for i in range(n):
        for j in range(m):
            z = (X[i] + X[n + j] - M[i, j]) / r
            ctx.check("plan of the dual point", ctx.any([ctx.all(ctx.eq(T[i, j], z) + ctx.le(0, z)), ctx.all(ctx.eq(T[i, j], 0) + ctx.le(z, 0))]))
    lin = sum(T[i, j] * M[i, j] for i in range(n) for j in range(m))
    ctx.check("linear value", ctx.eq(res.value_linear, lin))
    ctx.check("value is the objective", ctx.eq(res.value, lin + r / 2 * sum(T[i, j] ** 2 for i in range(n) for j in range(m))))
    ctx.check("potentials", [ctx.eq(res.potential_a, X[:n]), ctx.eq(res.potential_b, X[n:])])


def unbal(ctx, n, m, marg, rdiv, reg, r1, r2, default=False, cref=True, init=False):
    """unbalanced problems: value is the penalised objective of the plan"""
    A, B = wts(ctx, n, m, default)
    K = ctx.mat("K", n, m, lo="1/20", hi=1)
    a, b = ctx.arr(A), ctx.arr(B)
    rg = ctx.num(reg)
    M = -rg * ctx.log(K) if reg != "0" and rdiv == "kl" and marg == "kl" else K
    X = ctx.arr([["1/5", "1/3", "1/7"], ["1/4", "1/2", "1/6"]])[:n, :m]

    class Res:
        pass

    def model(fun, x0, method=None, jac=None, bounds=None, tol=None, options=None):
        r = Res()
        r.x = X.reshape(-1)
        r.fun = fun(r.x)[0]
        model.x0 = x0
        return r
    ctx.contract("minimize", model)
    kw = {} if default else dict(a=a, b=b)
    c = a[:, None] * b[None, :]
    if cref:
        c = ctx.arr([["1/3", "1/5", "1/4"], ["1/2", "2/3", "1/7"]])[:n, :m]
        kw["c"] = c
    if init:
        kw["plan_init"] = ctx.arr([["1/9", "1/8", "1/4"], ["1/7", "1/3", "1/5"]])[:n, :m]
    s1, s2 = [INF if z == "inf" else fl(ctx, z) for z in (r1, r2)]
    res = ctx.ot.solve(M, reg=fl(ctx, reg) if reg != "0" else None, reg_type=rdiv if rdiv else "KL", unbalanced=s1 if r1 == r2 else (s1, s2), unbalanced_type=marg.upper(), max_iter=1, tol=-1, **kw)
    T = res.plan
    ctx.check("a plan is returned", T is not None)
    q1, q2 = [ctx.num(0) if z == "inf" else ctx.num(z) for z in (r1, r2)]
    val = objective(ctx, T, a, b, M, q1, q2, marg, rg, rdiv, c)
    ctx.check("linear value", ctx.eq(res.value_linear, ctx.np.sum(T * M)))
    ctx.check("value is the objective", ctx.eq(res.value, val))
    if init and not (reg == "0" and marg in ("kl", "l2")):
        ctx.check("start", ctx.eq(model.x0, kw["plan_init"].reshape(-1)))
    same_result(ctx, res, T)


def gw(ctx, cs, kind, fused=None, kindp="exact", mass=None, default=False, init=False, solver=None, it=1, symmetric=None):
    """solve_gromov: the plan of the specialised solver, values of the objective"""
    S, G = ctx.ot, ctx.ot.gromov
    C1, C2 = mats(ctx, 2, 2, cs, kind)
    A, B = (["1/2", "1/2"], ["1/2", "1/2"]) if default else (W[2], W2[2])
    a, b = ctx.arr(A), ctx.arr(B)
    M, al = (feats(ctx, 2, 2), ctx.num(fused)) if fused else (None, 1)
    kw = {} if default else dict(a=a, b=b)
    eps = "1/3"
    ent = kindp in ("ebal", "esemi", "epartial")
    seen = []
    plan = ctx.arr([["1/5", "1/20"], ["1/5", "11/20"]]) if not default else ctx.arr([["1/5", "3/10"], ["3/10", "1/5"]])
    if ent:
        kw["reg"] = fl(ctx, eps)
    if kindp == "exact":
        emd_contract(ctx, (ctx.ot.optim, "emd"))
    if kindp == "partial":
        uncap(ctx)
    if kindp == "ebal":
        def sinkhorn(a_, b_, C, reg, *z, **k):
            seen.append((a_, b_, ctx.snapshot(C), reg))
            return plan
        ctx.patch(G._bregman, "sinkhorn", sinkhorn)
    if kindp == "epartial":
        def psolver(a_, b_, C, reg, m=None, **k):
            seen.append((a_, b_, ctx.snapshot(C), reg, m))
            return pplan
        pplan = ctx.arr([["1/10", "1/20"], ["1/5", "3/20"]])
        ctx.patch(G._partial, "entropic_partial_wasserstein", psolver)
    if kindp.endswith("semi"):
        kw["unbalanced_type"] = "semirelaxed"
    if kindp.endswith("partial"):
        kw.update(unbalanced_type="partial", unbalanced=fl(ctx, mass))
    T0 = a[:, None] * b[None, :]
    if kindp.endswith("semi"):
        T0 = a[:, None] * ctx.arr(["1/2", "1/2"])[None, :]
    if init:
        T0 = {"exact": ctx.arr([["3/20", "1/10"], ["1/4", "1/2"]]), "ebal": ctx.arr([["3/20", "1/10"], ["1/4", "1/2"]]), "semi": a[:, None] * ctx.arr([["1/4", "3/4"], ["2/3", "1/3"]]), "esemi": a[:, None] * ctx.arr([["1/4", "3/4"], ["2/3", "1/3"]])}[kindp]
        kw["plan_init"] = T0
    if solver:
        kw["method"] = solver
    if symmetric is not None:
        kw["symmetric"] = symmetric
    args = (C1, C2, M) if fused else (C1, C2)
    if fused:
        kw["alpha"] = fl(ctx, fused)
    loss = "L2" if kind == "square_loss" else "KL"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = S.solve_gromov(*args, loss=loss, max_iter=it, tol=-1, **kw)
    T = res.plan
    ctx.check("a plan is returned", T is not None)
    obj = fgw_obj(ctx, M, C1, C2, T, al, kind)
    lin = sum(T[i, j] * M[i, j] for i in range(2) for j in range(2)) * (1 - al) if fused else None
    ctx.check("value is the objective", ctx.eq(res.value, obj + (ctx.num(eps) * xlogx(ctx, T) if ent else 0)))
    if fused:
        ctx.check("linear part", ctx.eq(res.value_linear, lin))
        ctx.check("quadratic part", ctx.eq(res.value_quad, obj - lin))
    else:
        ctx.check("quadratic part", ctx.eq(res.value_quad, obj))
        ctx.check("no linear part", res.value_linear is None or bool(ctx.val(res.value_linear) == 0) if res.value_linear is not None else True)
    rows, cols = ctx.np.sum(T, axis=1), ctx.np.sum(T, axis=0)
    ctx.check("nonnegative", ctx.le(0, T))
    if kindp == "exact":
        ctx.check("marginals", [ctx.eq(rows, a), ctx.eq(cols, b)])
        ctx.check("no worse than the start", ctx.le(obj, fgw_obj(ctx, M, C1, C2, T0, al, kind)))
    if kindp == "ebal":
        ctx.check("plan of the subproblem", ctx.eq(T, plan))
        g = gw_grad(ctx, M, C1, C2, T0, al, kind)
        if solver == "PPA":
            g = g - ctx.num(eps) * ctx.log(T0)
        a_, b_, C, reg = seen[0]
        ctx.check("subproblem", [ctx.eq(a_, a), ctx.eq(b_, b), ctx.eq(C, g), ctx.eq(reg, ctx.num(eps))])
    if kindp == "semi":
        ctx.check("marginals", ctx.eq(rows, a))
        ctx.check("no worse than the start", ctx.le(obj, fgw_obj(ctx, M, C1, C2, T0, al, kind)))
    if kindp == "esemi":
        g = gw_grad(ctx, M, C1, C2, T0, al, kind)
        ctx.check("marginals", ctx.eq(rows, a))
        for i in range(2):
            ctx.check("mirror step", ctx.eq(T[i, 0] * T0[i, 1], T[i, 1] * T0[i, 0] * ctx.exp((g[i, 1] - g[i, 0]) / ctx.num(eps))))
    if kindp.endswith("partial"):
        ctx.check("mass", ctx.eq(ctx.np.sum(T), ctx.num(mass)))
        if kindp == "epartial" and seen:
            g = gw_grad(ctx, M, C1, C2, T0 * ctx.num(mass), al, kind)
            a_, b_, C, reg, m_ = seen[0]
            ctx.check("subproblem", [ctx.eq(a_, a), ctx.eq(b_, b), ctx.eq(C, g), ctx.eq(reg, ctx.num(eps)), ctx.eq(m_, ctx.num(mass))])
            ctx.check("plan of the subproblem", ctx.eq(T, pplan))
        if kindp == "partial":
            ctx.check("marginals not exceeded", [ctx.le(rows, a), ctx.le(cols, b)])
    same_result(ctx, res, T)


def gw_wass(ctx, ent):
    """a zero trade-off is plain optimal transport"""
    M = ctx.mat("M", 2, 2, lo="0", hi=2)
    C = ctx.arr([["0", "1"], ["1", "0"]])
    a, b = ctx.arr(W[2]), ctx.arr(W2[2])
    kw = dict(reg=fl(ctx, "1/2"), max_iter=1, tol=-1) if ent else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = ctx.ot.solve_gromov(C, C, M, a, b, alpha=0, **kw)
        s = ctx.ot.solve(M, a, b, reg_type="entropy", **kw)
    ctx.check("same plan", ctx.eq(r.plan, s.plan))
    ctx.check("same value", [ctx.eq(r.value, s.value), ctx.eq(r.value_linear, s.value_linear)])
    ctx.check("same potentials", [ctx.eq(r.potential_a, s.potential_a), ctx.eq(r.potential_b, s.potential_b)])


def sample(ctx, metric, d=2, conf="exact"):
    """solving from samples is solving with the cost matrix"""
    n, m = 2, 2
    X = ctx.pack([[ctx.real("x%d" % i) if i == 0 else ctx.num("1/2") * k for i in range(d)] for k in range(n)])
    Y = ctx.pack([[ctx.real("y%d" % i) if i == 0 else ctx.num(1) - k for i in range(d)] for k in range(m)])
    a, b = ctx.arr(W[2]), ctx.arr(W2[2])
    calls = []
    orig = ctx.ot.solve
    tok = object()

    def rec(*z, **k):
        calls.append(bind(orig, z, k))
        return tok
    ctx.patch(ctx.ot.solvers, "solve", rec)
    c = ctx.arr([["1/3", "1/5"], ["1/2", "2/3"]])
    P = ctx.arr([["1/9", "1/8"], ["1/7", "1/3"]])
    pots = (ctx.arr(["1", "2"]), ctx.arr(["3", "4"]))
    kw = dict(reg=fl(ctx, "1/3"), c=c, reg_type="L2", unbalanced=fl(ctx, "2"), unbalanced_type="TV", method="mm", n_threads=3, max_iter=17, plan_init=P, potentials_init=pots, tol=fl(ctx, "1/8"), verbose=False, grad="envelope")
    res = ctx.ot.solve_sample(X, Y, a, b, metric=metric, **kw)
    ctx.check("one problem", len(calls) == 1 and res is tok)
    k = calls[0]
    for nm in ("reg", "c", "reg_type", "unbalanced", "unbalanced_type", "method", "n_threads", "max_iter", "plan_init", "potentials_init", "tol", "verbose", "grad"):
        ctx.check("parameter " + nm, k[nm] is kw[nm])
    ctx.check("weights", [ctx.eq(k["a"], a), ctx.eq(k["b"], b)])
    for i in range(n):
        for j in range(m):
            df = [X[i, t] - Y[j, t] for t in range(d)]
            v = k["M"][i, j]
            if metric == "sqeuclidean":
                ctx.check("cost", ctx.eq(v, sum(z * z for z in df)))
            elif metric == "euclidean":
                ctx.check("cost", [ctx.eq(v * v, sum(z * z for z in df)), ctx.le(0, v)])
            else:
                ctx.check("cost", ctx.eq(v, sum(abs(z) for z in df)))


def bind(f, z, k):
    import inspect
    b = inspect.signature(f).bind(*z, **k)
    b.apply_defaults()
    return b.arguments


def methods(ctx, method, default=False):
    """samples, weights and parameters reach the lazy solvers and their values are returned"""
    S = ctx.ot.solvers
    X = ctx.mat("X", 2, 2, lo=-2, hi=2)
    Y = ctx.mat("Y", 2, 2, lo=-2, hi=2)
    a, b = (None, None) if default else (ctx.arr(W[2]), ctx.arr(W2[2]))
    calls = []
    P = ctx.arr([["1/9", "1/8"], ["1/7", "1/3"]])

    class Lazy:
        blur = 2

        def __getitem__(self, k):
            return P
    lz = Lazy()
    val, lin = ctx.real("val", lo=0), ctx.real("lin", lo=0)
    spec = {"gaussian": ("empirical_bures_wasserstein_distance", lambda: (val, {})),
            "factored": ("factored_optimal_transport", lambda: (P, P, X, {"costa": val, "costb": lin, "lazy_plan": lz})),
            "lowrank": ("lowrank_sinkhorn", lambda: (P, P, P, {"value": val, "value_linear": lin, "lazy_plan": lz})),
            "nystroem": ("empirical_sinkhorn_nystroem2", lambda: (val, {"lazy_plan": lz})),
            "1d": ("wasserstein_1d", lambda: val)}[method]
    orig = getattr(S, spec[0])

    def rec(*z, **k):
        calls.append(bind(orig, z, k))
        return spec[1]()
    ctx.patch(S, spec[0], rec)
    kw = dict(method=method)
    if method != "1d":
        kw.update(reg=fl(ctx, "1/3"))
    if method in ("factored", "lowrank", "nystroem"):
        kw.update(rank=2, max_iter=7, tol=fl(ctx, "1/8"))
    for metric in (("sqeuclidean", "euclidean", "cityblock") if method == "1d" else ("sqeuclidean",)):
        calls.clear()
        res = ctx.ot.solve_sample(X, Y, a, b, metric=metric, **kw)
        k = calls[0]
        al = {"gaussian": ("xs", "xt", "ws", "wt"), "factored": ("Xa", "Xb", "a", "b"), "lowrank": ("X_s", "X_t", "a", "b"), "nystroem": ("X_s", "X_t", "a", "b"), "1d": ("u_values", "v_values", "u_weights", "v_weights")}[method]
        ctx.check("samples", [ctx.eq(k[al[0]], X), ctx.eq(k[al[1]], Y)])
        if default:
            ctx.check("weights", k[al[2]] is None and k[al[3]] is None)
        else:
            ctx.check("weights", [ctx.eq(k[al[2]].reshape(-1), a), ctx.eq(k[al[3]].reshape(-1), b)])
        if method == "1d":
            ctx.check("power", k["p"] == (2 if metric == "sqeuclidean" else 1))
            ctx.check("value", ctx.eq(res.value, val))
            continue
        ctx.check("regularisation", ctx.eq(k["reg"], ctx.num("1/3")))
        if method != "gaussian":
            ctx.check("rank", k["anchors" if method == "nystroem" else "r" if method == "factored" else "rank"] == 2)
            ctx.check("iterations", [k["numItermax"] == 7, ctx.eq(k["stopThr"], ctx.num("1/8"))])
            ctx.check("plan", ctx.eq(res.plan, P))
            ctx.check("lazy plan", res.lazy_plan is lz)
        if method == "gaussian":
            ctx.check("value", [ctx.eq(res.value, val * val), ctx.eq(res.value_linear, val * val)])
        if method == "factored":
            ctx.check("value", ctx.eq(res.value_linear, val + lin))
        if method == "lowrank":
            ctx.check("value", [ctx.eq(res.value, val), ctx.eq(res.value_linear, lin)])
        if method == "nystroem":
            pass


def lazy_exact(ctx, metric, default=False, warm=False, its=None, warning=None):
    """lazy exact problem: coordinates, weights and options reach the solver, its results are returned"""
    S = ctx.ot.solvers
    X = ctx.mat("X", 2, 2, lo=-2, hi=2)
    Y = ctx.mat("Y", 3, 2, lo=-2, hi=2)
    a, b = (None, None) if default else (ctx.arr(W[2]), ctx.arr(W2[3]))
    val = ctx.real("val", lo=0)
    u, v = ctx.vec("u", 2, lo=-1, hi=1), ctx.vec("v", 3, lo=-1, hi=1)
    G = ctx.arr([["1/9", "1/8", "0"], ["1/7", "0", "1/3"]])
    w0 = (ctx.arr(["1", "2"]), ctx.arr(["3", "4", "5"])) if warm else None
    calls = []
    orig = S.emd2_lazy

    def rec(*z, **k):
        c = bind(orig, z, k)
        calls.append(c)
        return (val, dict(u=u, v=v, G=G, warning=warning)) if c["log"] else val
    ctx.patch(S, "emd2_lazy", rec)
    kw = {} if its is None else dict(max_iter=its)
    if warm:
        kw["potentials_init"] = w0
    res = ctx.ot.solve_sample(X, Y, a, b, metric=metric, lazy=True, **kw)
    if not calls:
        return
    k = calls[0]
    ctx.check("coordinates", [ctx.eq(k["X_a"], X), ctx.eq(k["X_b"], Y)])
    ctx.check("weights", [ctx.eq(k["a"], a), ctx.eq(k["b"], b)])
    ctx.check("options", [k["metric"] == metric, k["numItermax"] == (100000 if its is None else its), k["potentials_init"] is w0])
    ctx.check("values", [ctx.eq(res.value, val), ctx.eq(res.value_linear, val)])
    ctx.check("potentials", [ctx.eq(res.potentials[0], u), ctx.eq(res.potentials[1], v), ctx.eq(res.potential_a, u), ctx.eq(res.potential_b, v)])
    ctx.check("plan", [res.sparse_plan is G, ctx.eq(res.plan, G)])
    ctx.check("marginals of a sparse plan", [ctx.eq(res.marginal_a, ctx.np.sum(G, axis=1)), ctx.eq(res.marginal_b, ctx.np.sum(G, axis=0)), res.marginals is not None and len(res.marginals) == 2])
    ctx.check("status", res.status == (warning or "Converged"))


def lazy(ctx, it=1, bs=None, default=False):
    """lazy entropic solver: a scaling of the kernel, its marginals and linear value"""
    x = ctx.real("x", lo=-2, hi=2)
    X = ctx.pack([[x], [ctx.num(1)], [ctx.num("1/2")]])
    Y = ctx.arr([["0"], ["3/2"]])
    a, b = ctx.arr(W[3]), ctx.arr(W2[2])
    kw = {} if default else dict(a=a, b=b)
    r = ctx.ot.solve_sample(X, Y, reg=fl(ctx, "1"), lazy=True, max_iter=it, tol=-1, batch_size=bs, **kw)
    P = r.lazy_plan[:]
    M = ctx.ot.dist(X, Y)
    ctx.check("shape", tuple(P.shape) == (3, 2))
    ctx.check("scaled kernel", [ctx.eq(P[i, 0] * P[k, 1] * ctx.exp(M[i, 0] + M[k, 1] - M[i, 1] - M[k, 0]), P[i, 1] * P[k, 0]) for i, k in ((0, 1), (0, 2), (1, 2))])
    ctx.check("last projection", ctx.any([ctx.all(ctx.eq(ctx.np.sum(P, axis=0), ctx.arr(["1/2", "1/2"]) if default else b)), ctx.all(ctx.eq(ctx.np.sum(P, axis=1), ctx.arr(["1/3"] * 3) if default else a))]))
    ctx.check("linear value", ctx.eq(r.value_linear, ctx.np.sum(P * M)))
    ctx.check("marginals", [ctx.eq(r.marginal_a, ctx.np.sum(P, axis=1)), ctx.eq(r.marginal_b, ctx.np.sum(P, axis=0))])
    ctx.check("pair of marginals", r.marginals is not None)
    if r.marginals is not None:
        ctx.check("pair of marginals", [ctx.eq(r.marginals[0], ctx.np.sum(P, axis=1)), ctx.eq(r.marginals[1], ctx.np.sum(P, axis=0))])


CASES = [Case("exact_22", exact, n=2, m=2), Case("exact_23", exact, n=2, m=3), Case("exact_def", exact, n=2, m=2, default=True), Case("exact_33", exact, n=3, m=3, tier="thorough", wall=60)]
for n, m in ((2, 2), (2, 3)):
    for kind in ("KL", "entropy"):
        for gr in ("autodiff", "last_step", "envelope", "detach"):
            t = "quick" if (n, m) == (2, 2) or gr == "last_step" else "thorough"
            CASES.append(Case("sink_%s_%s_%d%d" % (kind, gr, n, m), sink, n=n, m=m, it=1 if (n, m) == (2, 3) else 2, kind=kind, grad=gr, opt_lazymax=True, tier=t))
CASES += [Case("sink_def_" + k, sink, n=2, m=3, it=1, kind=k, default=True, opt_lazymax=True) for k in ("KL", "entropy")]
CASES += [Case("sink_ref_" + g, sink, n=2, m=2, it=1 if g == "autodiff" else 2, kind="KL", ref=True, grad=g, opt_lazymax=True) for g in ("autodiff", "last_step", "envelope")]
CASES += [Case("sink_refent", sink, n=2, m=2, it=1, kind="entropy", ref=True, opt_lazymax=True)]
CASES += [Case("sink_warm_" + g, sink, n=2, m=2, it=1, kind="KL", warm=True, grad=g, opt_lazymax=True) for g in ("autodiff", "last_step")]
CASES += [Case("cg_22", general, n=2, m=2), Case("cg_def", general, n=2, m=2, default=True), Case("cg_23", general, n=2, m=3, tier="thorough"), Case("cg_init", general, n=2, m=2, init=True), Case("cg_it", general, n=2, m=2, it=2, tier="thorough")]
CASES += [Case("quad_22", quad, n=2, m=2), Case("quad_23", quad, n=2, m=3, tier="thorough"), Case("quad_def", quad, n=2, m=2, default=True)]
for marg in ("kl", "l2", "tv"):
    for rdiv, reg in ((None, "0"), ("kl", "1/2"), ("l2", "1/2"), ("entropy", "1/2")):
        for nm, kw in (("", {}), ("_def", dict(default=True, cref=False)), ("_pair", dict(r1="1", r2="2", init=True)), ("_inf", dict(r1="inf", r2="1"))):
            if nm == "_inf" and not (marg == "kl" and rdiv == "kl"):
                continue
            if nm == "_pair" and marg == "kl" and rdiv == "kl":
                kw = dict(kw, init=False)
            if rdiv == "entropy" and nm == "_def":
                continue
            k = dict(n=2, m=2 if nm else 3, marg=marg, rdiv=rdiv, reg=reg, r1="1", r2="1")
            k.update(kw)
            CASES.append(Case("unb_%s_%s%s" % (marg, rdiv, nm), unbal, opt_lazymax=True, **k))
for kind, t in (("square_loss", "sq"), ("kl_loss", "kl")):
    for nm, cs in (("exact", "sym1"), ("ebal", "sym1"), ("semi", "sym1"), ("esemi", "sym1"), ("partial", "sym1"), ("epartial", "sym1")):
        for fu in (None, "1/4"):
            mass = "1/2" if nm.endswith("partial") else None
            CASES.append(Case("gw_%s_%s%s" % (nm, t, "_f" if fu else ""), gw, cs=cs, kind=kind, fused=fu, kindp=nm, mass=mass))
CASES += [Case("gw_def", gw, cs="sym1", kind="square_loss", default=True), Case("gw_def_ebal", gw, cs="sym1", kind="square_loss", kindp="ebal", fused="1/3", default=True),
          Case("gw_ppa", gw, cs="sym1", kind="square_loss", kindp="ebal", solver="PPA"), Case("gw_ppa_f", gw, cs="sym1", kind="square_loss", kindp="ebal", solver="PPA", fused="1/3"),
          Case("gw_init", gw, cs="sym1", kind="square_loss", init=True), Case("gw_init_f", gw, cs="sym1", kind="square_loss", fused="1/3", init=True), Case("gw_init_e", gw, cs="sym1", kind="square_loss", kindp="ebal", init=True),
          Case("gw_init_s", gw, cs="sym1", kind="square_loss", kindp="semi", init=True), Case("gw_init_es", gw, cs="sym1", kind="square_loss", kindp="esemi", init=True, fused="1/3"),
          Case("gw_gen", gw, cs="gen1", kind="square_loss", symmetric=False, kindp="ebal"), Case("gw_one", gw, cs="sym1", kind="square_loss", fused="1", kindp="exact"), Case("gw_one_e", gw, cs="sym1", kind="square_loss", fused="1", kindp="ebal"),
          Case("gw_wass", gw_wass, ent=False), Case("gw_wass_e", gw_wass, ent=True, opt_lazymax=True)]
CASES += [Case("sample_" + me, sample, metric=me) for me in ("sqeuclidean", "euclidean", "cityblock")]
CASES += [Case("method_" + me, methods, method=me) for me in ("gaussian", "factored", "lowrank", "nystroem", "1d")]
CASES += [Case("method_def_" + me, methods, method=me, default=True) for me in ("gaussian", "factored", "lowrank", "nystroem", "1d")]
CASES += [Case("lazyx_" + me, lazy_exact, metric=me) for me in ("sqeuclidean", "euclidean", "cityblock")] + [Case("lazyx_def", lazy_exact, metric="sqeuclidean", default=True, its=7), Case("lazyx_warm", lazy_exact, metric="sqeuclidean", warm=True, warning="limit")]
CASES += [Case("lazy", lazy, opt_lazymax=True), Case("lazy_b", lazy, bs=2, opt_lazymax=True), Case("lazy_d", lazy, default=True, opt_lazymax=True), Case("lazy_2", lazy, it=2, bs=2, opt_lazymax=True)]
BOUNDS = "2x2 to 2x3 problems (3x3 thorough), one or two iterations, fixed weights; two symbolic entries in the quadratic problems"
