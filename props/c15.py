"""C15 Conditional gradient solvers and their line searches."""
from symx.worker import Case
from props.gwlib import emd_contract
from props.lib import W, W2, couplings, fr

QUICK_WALL = 12
NEEDS_CPP = True


def cost(ctx, n, m, var=True):
    R = [[ctx.num(z) for z in r[:m]] for r in [["0", "1", "1/2"], ["3/4", "1/3", "2"], ["1", "1/2", "5/4"]][:n]]
    if var:
        R[0][0], R[1][0] = ctx.real("c", lo=-1, hi=3), ctx.real("d", lo=-1, hi=3)
    return ctx.pack(R)


def reg_fn(ctx, n, m, kind):
    """regulariser written twice: as handed to the solver and as an oracle"""
    if kind == "l2":
        return lambda G: 0.5 * ctx.np.sum(G ** 2), lambda G: G
    if kind == "concave":
        return lambda G: -ctx.np.sum(G ** 2), lambda G: -2 * G
    if kind == "cubic":
        return lambda G: ctx.np.sum(G ** 3), lambda G: 3 * G ** 2
    H = ctx.arr([[["1", "1/2", "2"], ["1/3", "1", "1/4"], ["2", "1", "3/2"]][i][:m] for i in range(n)])
    if kind == "quad":
        # not separable: (sum H G)^2
        return lambda G: ctx.np.sum(H * G) ** 2, lambda G: 2 * ctx.np.sum(H * G) * H
    raise KeyError(kind)


def objective(ctx, M, reg, f, G, reg2=None):
    n, m = G.shape
    r = reg * f(G)
    if not isinstance(M, int):
        r = r + sum(M[i, j] * G[i, j] for i in range(n) for j in range(m))
    if reg2 is not None:
        r = r + reg2 * sum(G[i, j] * ctx.log(G[i, j]) for i in range(n) for j in range(m))
    return r


def start(ctx, p, q, n, m, g0):
    if g0 == "line":
        # plans between two couplings
        V = couplings(*[fr(*x) for x in (W[n], W2[m])])
        t = ctx.real("t", lo=ctx.num("1/20"), hi=1)
        return ctx.arr(V[0]) * (1 - t) + t * p[:, None] * q[None, :]
    return p[:, None] * q[None, :]


def recorder(ctx, f, df):
    its = []

    def g(G):
        its.append(ctx.snapshot(G))
        return df(G)
    return its, f, g


def check_log(ctx, its, G, log, M, reg, f, iters, reg2=None, descent=True):
    X = its + [G]
    ctx.check("one loss per iteration", len(log["loss"]) == iters + 1 and len(X) == iters + 1)
    ctx.check("logged loss is the objective of the iterate", [ctx.eq(l, objective(ctx, M, reg, f, x, reg2)) for l, x in zip(log["loss"], X)])
    if descent:
        for k in range(iters):
            ctx.check("loss never increases", ctx.le(log["loss"][k + 1], log["loss"][k]))


def run_cg(ctx, n, m, kind, iters=1, g0=None, M0=False, real=False):
    """conditional gradient with the default line search"""
    if not real:
        emd_contract(ctx, (ctx.ot.optim, "emd"))
    p, q = ctx.arr(W[n]), ctx.arr(W2[m])
    M = 0 if M0 else cost(ctx, n, m)
    reg = ctx.num("1/2")
    if M0:
        f0, df0 = reg_fn(ctx, n, m, kind)
        Z = cost(ctx, n, m)
        f1, df1 = (lambda G: f0(G) + ctx.np.sum(Z * G)), (lambda G: df0(G) + Z)
    else:
        f1, df1 = reg_fn(ctx, n, m, kind)
    its, f, df = recorder(ctx, f1, df1)
    T0 = start(ctx, p, q, n, m, g0)
    keep = ctx.snapshot(T0)
    kw = dict(G0=T0) if g0 else {}
    G, log = ctx.ot.optim.cg(p, q, M, reg, f, df, numItermax=iters, stopThr=-1, stopThr2=-1, log=True, **kw)
    ctx.check("start kept", ctx.eq(T0, keep))
    ctx.check("starts at G0", ctx.eq(its[0], T0))
    ctx.check("nonnegative", ctx.le(0, G))
    ctx.check("marginals", [ctx.eq(ctx.np.sum(G, axis=1), p), ctx.eq(ctx.np.sum(G, axis=0), q)])
    check_log(ctx, its, G, log, M, reg, f1, iters)
    if iters == 1:
        V = [ctx.arr(P) for P in couplings(fr(*W[n]), fr(*W2[m]))]
        D = reg * df1(T0) + (0 if M0 else M)
        lin = [sum((P[i, j] - T0[i, j]) * D[i, j] for i in range(n) for j in range(m)) for P in V]
        alts = []
        for P, l in zip(V, lin):
            best = [ctx.le(l, x) for x in lin]
            # the step goes towards the best vertex, by at most one
            d0 = P - T0
            e = G - T0
            par = [ctx.eq(e[i, j] * d0[k, h], e[k, h] * d0[i, j]) for i in range(n) for j in range(m) for k in range(n) for h in range(m) if (i, j) < (k, h)]
            s1 = sum(x * x for x in d0.reshape(-1))
            s2 = sum(x * y for x, y in zip(d0.reshape(-1), e.reshape(-1)))
            alts.append(ctx.all(best + par + [ctx.le(0, s2), ctx.le(s2, s1)]))
        ctx.check("step towards a best vertex", ctx.any(alts))
    G2 = ctx.ot.optim.cg(p, q, M, reg, f1, df1, numItermax=iters, stopThr=-1, stopThr2=-1, **kw)
    ctx.check("log flag", ctx.eq(G2, G))


def stop(ctx, n, m, how, level=20):
    """stops exactly when the decrease of the objective is below the thresholds"""
    emd_contract(ctx, (ctx.ot.optim, "emd"))
    p, q = ctx.arr(W[n]), ctx.arr(W2[m])
    M = cost(ctx, n, m, False) + ctx.num(1)
    V = [ctx.arr(P) for P in couplings(fr(*W[n]), fr(*W2[m]))]
    c = [ctx.real("s%d" % k, lo=0, hi=6) for k in range(3)]
    seen = []

    def line_search(cost_, G, deltaG, Mi, cost_G, df_G, **kw):
        # prescribed decrease
        seen.append(cost_G)
        return 0, 1, cost_G - c[len(seen) - 1]
    kw = dict(stopThr=ctx.num("1/10"), stopThr2=-1) if how == "rel" else dict(stopThr=-1, stopThr2=ctx.num("1/5"))
    G, log = ctx.ot.optim.cg(p, q, M, ctx.num(1), lambda G: ctx.num(level), lambda G: 0 * G, line_search=line_search, numItermax=3, log=True, **kw)
    L = log["loss"]
    k = 0
    for k in range(3):
        if len(L) <= k + 1:
            # stopped although the decrease (with a margin) was not small
            d, nxt = c[k - 1], abs(L[k])
            far = d >= ctx.num("1/5") * nxt if how == "rel" else d >= ctx.num("3/10")
            ctx.check("no early stop", ctx.neg(far))
            return
        d, nxt = abs(L[k + 1] - L[k]), L[k + 1]
        small = d < ctx.num("1/10") * abs(nxt) if how == "rel" else d < ctx.num("1/5")
        if ctx.test(small):
            break
    ctx.check("number of iterations", len(L) == k + 2 and len(seen) == k + 1)
    ctx.check("losses", [ctx.eq(L[j + 1], L[j] - c[j]) for j in range(k + 1)])


def armijo(ctx, kind, a0=None, lim=None):
    """sufficient decrease, value and count returned"""
    x = ctx.arr(["1/2", "1/4"])
    pk = ctx.arr(["1", "-1/2"])
    q2, q1 = ctx.num("3/2") if lim else ctx.real("q2", lo=-3, hi=3), ctx.real("q1", lo=-3, hi=3)
    calls = []

    def phi(z):
        t = (z[0] - x[0])
        v = q2 * t * t + q1 * t + 1
        return v + t * t * t if kind == "cubic" else v

    def f(z):
        calls.append(1)
        return phi(z)
    g = ctx.pack([q1 * ctx.num("4/5"), -q1 * ctx.num("2/5")])
    kw = {}
    if a0:
        kw["alpha0"] = ctx.num(a0) if ctx.sym else float(ctx.num(a0))
    if lim:
        kw["alpha_max"] = ctx.num(lim) if ctx.sym else float(ctx.num(lim))
    al, fc, val = ctx.ot.optim.line_search_armijo(f, x, pk, g, phi(x), **kw)
    al, val = ctx.val(al), ctx.val(val)
    ctx.check("number of evaluations", fc == len(calls))
    ctx.check("step at most alpha0 and not negative", [ctx.le(0, al), ctx.le(al, ctx.num(a0 or "99/100"))])
    if lim:
        ctx.check("step within the limit", ctx.le(al, ctx.num(lim)))
    slope = q1
    if ctx.test(slope < 0):
        ctx.check("sufficient decrease", ctx.le(phi(x + al * pk), phi(x) + ctx.num("1/10000") * al * slope))
        ctx.check("value of the step", ctx.eq(val, phi(x + al * pk)))
        c2 = []
        al2, fc2, val2 = ctx.ot.optim.line_search_armijo(f, x, pk, g, None, **kw)
        ctx.check("unknown start value", [ctx.eq(al2, al), ctx.eq(val2, val)])


def clip(ctx, none=False):
    """what the scalar search is given and what is made of its answer"""
    x, pk = ctx.arr([["1/2", "1/4"]]), ctx.arr([["1", "-1/2"]])
    g = ctx.mat("g", 1, 2, lo=-3, hi=3)
    al = ctx.real("al", lo=-1, hi=2)
    f = lambda z: z[0, 0] * z[0, 0] + 3 * z[0, 1]
    seen = []

    def search(phi, phi0, der, c1=None, alpha0=None, amin=None):
        seen.append((phi0, der, c1, alpha0, amin))
        v = phi(al)
        return (None if none else al), v
    ctx.patch(ctx.ot.optim, "scalar_search_armijo", search)
    r, fc, v = ctx.ot.optim.line_search_armijo(f, x, pk, g, f(x), alpha_max=1)
    phi0, der, c1, alpha0, amin = seen[0]
    ctx.check("start value, slope and constants", [ctx.eq(phi0, f(x)), ctx.eq(der, g[0, 0] - g[0, 1] / 2), ctx.eq(c1, ctx.num("1/10000")), ctx.eq(alpha0, ctx.num("99/100"))])
    if none:
        ctx.check("no step found", [ctx.eq(r, 0), ctx.eq(v, f(x))])
        return
    e = al
    if ctx.test(al < 0):
        e = ctx.num(0)
    elif ctx.test(al > 1):
        e = ctx.num(1)
    ctx.check("clipped step", ctx.eq(r, e))
    ctx.check("value at the clipped step", ctx.eq(v, f(x + e * pk)))


def quad(ctx):
    """minimiser of a t^2 + b t on [0, 1]"""
    a, b = ctx.real("a", lo=-5, hi=5), ctx.real("b", lo=-5, hi=5)
    t = ctx.ot.optim.solve_1d_linesearch_quad(a, b)
    ctx.check("within [0, 1]", [ctx.le(0, t), ctx.le(t, 1)])
    s = ctx.real("s", lo=0, hi=1)
    ctx.check("minimal", ctx.le(a * t * t + b * t, a * s * s + b * s))


def semi(ctx, n, m, kind, iters=1, g0=False):
    """semi-relaxed: only the first marginal is kept; rowwise best vertices"""
    p = ctx.arr(W[n])
    q = ctx.arr(W2[m])
    M = cost(ctx, n, m)
    reg = ctx.num("1/2")
    f1, df1 = reg_fn(ctx, n, m, kind)
    its, f, df = recorder(ctx, f1, df1)
    T0 = p[:, None] * q[None, :]
    kw = {}
    if g0:
        t = ctx.real("t", lo=0, hi=1)
        Q = ctx.pack([[t, 1 - t] + [ctx.num(0)] * (m - 2)] * n)
        T0 = p[:, None] * Q
        kw["G0"] = T0
    G, log = ctx.ot.optim.semirelaxed_cg(p, q, M, reg, f, df, numItermax=iters, stopThr=-1, stopThr2=-1, log=True, **kw)
    ctx.check("starts at G0", ctx.eq(its[0], T0))
    ctx.check("nonnegative", ctx.le(0, G))
    ctx.check("first marginal", ctx.eq(ctx.np.sum(G, axis=1), p))
    check_log(ctx, its, G, log, M, reg, f1, iters)
    if iters == 1:
        D = M + reg * df1(T0)
        # the linearised cost of the direction is the rowwise minimum
        d = G - T0
        lin = sum(d[i, j] * D[i, j] for i in range(n) for j in range(m))
        best = ctx.num(0)
        for i in range(n):
            lo = D[i, 0]
            for j in range(1, m):
                if ctx.test(D[i, j] < lo):
                    lo = D[i, j]
            best = best + p[i] * lo
        cur = sum(T0[i, j] * D[i, j] for i in range(n) for j in range(m))
        # lin = step * (best - cur), 0 <= step <= 1; all rows move by the same fraction
        ctx.check("direction of best rows", [ctx.le(best - cur, lin), ctx.le(lin, 0)])
        for i in range(n):
            li = sum(d[i, j] * D[i, j] for j in range(m))
            lo = D[i, 0]
            for j in range(1, m):
                if ctx.test(D[i, j] < lo):
                    lo = D[i, j]
            bi = p[i] * lo - sum(T0[i, j] * D[i, j] for j in range(m))
            ctx.check("every row moves to its best entries", ctx.eq(li * (best - cur), bi * lin))


def gen(ctx, n, m, kind, iters=1):
    """generalised conditional gradient: inner entropic problem on the linearised cost, objective with both terms"""
    p, q = ctx.arr(W[n]), ctx.arr(W2[m])
    M = cost(ctx, n, m, False)
    r1, r2 = ctx.real("r1", lo=ctx.num("1/4"), hi=2, pos=True), ctx.num("1/2")
    f1, df1 = reg_fn(ctx, n, m, kind)
    its, f, df = recorder(ctx, f1, df1)
    t = ctx.real("t", lo=ctx.num("1/10"), hi=1)
    V = couplings(fr(*W[n]), fr(*W2[m]))
    inner = ctx.arr(V[0]) * (1 - t) + t * p[:, None] * q[None, :]
    calls = []

    def sink(a, b, C, reg, **kw):
        calls.append((a, b, ctx.snapshot(C), reg, kw))
        return inner, {"u": 1}

    steps = []

    def armijo_(cost_, G, d, Mi, c0, *a, **kw):
        steps.append((ctx.snapshot(G), d, Mi, c0, kw))
        al = ctx.num("1/2")
        return al, 1, cost_(G + al * d)
    ctx.patch(ctx.ot.optim, "sinkhorn", sink)
    ctx.patch(ctx.ot.optim, "line_search_armijo", armijo_)
    G, log = ctx.ot.optim.gcg(p, q, M, r1, r2, f, df, numItermax=iters, stopThr=-1, stopThr2=-1, log=True)
    X = its
    for (a, b, C, reg, kw), x in zip(calls, X):
        ctx.check("inner problem", [ctx.eq(a, p), ctx.eq(b, q), ctx.eq(reg, r1), ctx.eq(C, M + r2 * df1(x))])
    ctx.check("inner calls", len(calls) == iters)
    x = X[0]
    ctx.check("moves between iterate and inner plan", ctx.eq(steps[0][1], inner - x))
    ctx.check("marginals", [ctx.eq(ctx.np.sum(G, axis=1), p), ctx.eq(ctx.np.sum(G, axis=0), q)])
    check_log(ctx, its, G, log, M, r2, f1, iters, reg2=r1, descent=False)
    # slope handed to the line search: derivative of the objective
    Mi = steps[0][2]
    ctx.check("slope", ctx.eq(Mi, M + r2 * df1(x) + r1 * (1 + ctx.log(x))))


def partial(ctx, n, m, mass, kind, nb=1, iters=1):
    """partial problems: the requested mass, marginals not exceeded"""
    p, q = ctx.arr(W[n]), ctx.arr(W2[m])
    mm = ctx.num(mass)
    M = cost(ctx, n, m) + ctx.num("11/10")
    reg = ctx.num("1/2")
    f1, df1 = reg_fn(ctx, n, m, kind)
    its, f, df = recorder(ctx, f1, df1)
    T0 = p[:, None] * q[None, :] * mm
    pe = ctx.pack(list(p) + [(1 - mm) / nb] * nb)
    qe = ctx.pack(list(q) + [(1 - mm) / nb] * nb)
    emd_contract(ctx, (ctx.ot.optim, "emd"))
    solve = ctx.ot.optim.emd
    # the iteration cap is shared with the inner solver: not capped here
    ctx.patch(ctx.ot.optim, "emd", lambda a, b, C, cap, log=False: solve(a, b, C, log=log))
    G, log = ctx.ot.optim.partial_cg(p, q, pe, qe, M, reg, f, df, G0=T0, line_search=lambda cost, G, d, Mi, c, dfG, **kw: ctx.ot.optim.line_search_armijo(cost, G, d, Mi, c),
                                     numItermax=iters, stopThr=-1, stopThr2=-1, log=True)
    ctx.check("nonnegative", ctx.le(0, G))
    ctx.check("marginals not exceeded", [ctx.le(ctx.np.sum(G, axis=1), p), ctx.le(ctx.np.sum(G, axis=0), q)])
    ctx.check("mass", ctx.eq(ctx.np.sum(G), mm))
    check_log(ctx, its, G, log, M, reg, f1, iters)


CASES = [Case("quad", quad), Case("clip", clip), Case("noclip", clip, none=True)]
for kind in ("l2", "quad", "concave", "cubic"):
    CASES.append(Case("cg_22_" + kind, run_cg, n=2, m=2, kind=kind))
    CASES.append(Case("cgline_22_" + kind, run_cg, n=2, m=2, kind=kind, g0="line"))
    CASES.append(Case("cg2_22_" + kind, run_cg, n=2, m=2, kind=kind, iters=2, tier="quick" if kind in ("l2", "concave") else "thorough"))
    CASES.append(Case("cg_23_" + kind, run_cg, n=2, m=3, kind=kind, tier="quick" if kind == "l2" else "thorough"))
    CASES.append(Case("cg0_22_" + kind, run_cg, n=2, m=2, kind=kind, M0=True, tier="quick" if kind == "quad" else "thorough"))
    CASES.append(Case("semi_22_" + kind, semi, n=2, m=2, kind=kind))
    CASES.append(Case("semi_23_" + kind, semi, n=2, m=3, kind=kind, tier="quick" if kind in ("quad", "l2") else "thorough"))
    CASES.append(Case("semig_22_" + kind, semi, n=2, m=2, kind=kind, g0=True))
    CASES.append(Case("semi2_22_" + kind, semi, n=2, m=2, kind=kind, iters=2, tier="quick" if kind == "l2" else "thorough"))
CASES += [Case("cgreal_22", run_cg, n=2, m=2, kind="l2", real=True), Case("stop_rel", stop, n=2, m=2, how="rel"), Case("stop_abs", stop, n=2, m=2, how="abs"),
          Case("stop_rel_neg", stop, n=2, m=2, how="rel", level=-20), Case("stop_abs_neg", stop, n=2, m=2, how="abs", level=-20)]
for kind in ("quad", "cubic"):
    CASES += [Case("armijo_" + kind, armijo, kind=kind), Case("armijo1_" + kind, armijo, kind=kind, a0="1"), Case("armijol_" + kind, armijo, kind=kind, lim="1/3", tier="thorough")]
CASES += [Case("gen_22", gen, n=2, m=2, kind="l2"), Case("gen2_22", gen, n=2, m=2, kind="quad", iters=2, tier="thorough"), Case("gen_23", gen, n=2, m=3, kind="l2")]
CASES += [Case("partial_22", partial, n=2, m=2, mass="1/2", kind="l2"), Case("partial_23", partial, n=2, m=3, mass="3/4", kind="l2"), Case("partialnb_22", partial, n=2, m=2, mass="2/3", kind="quad", nb=2, tier="thorough"),
          Case("partial2_22", partial, n=2, m=2, mass="1/2", kind="concave", iters=2)]
BOUNDS = "2x2 to 2x3 plans with fixed weights, one or two iterations, two symbolic cost entries (or the start, the decreases, the regularisation); quadratic, concave and cubic regularisers"
