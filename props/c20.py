"""C20 Gromov-Wasserstein barycenters: block-coordinate steps, stopping, returned values."""
import inspect

from symx.worker import Case
from props.lib import W, W2

QUICK_WALL = 6

def plans_for(ctx, p, ps, k, semi):
    """coupling number k between p (N) and ps (n), oriented (N, n) or (n, N)"""
    a, b, c = [("1/3", "1/5", "1/2"), ("1/7", "3/5", "1/4"), ("2/5", "1/10", "1/6")][k % 3]
    N, n = len(p), len(ps)
    if semi:  # (n, N): rows sum to ps only
        R = []
        for i in range(n):
            t = ctx.num([a, b, c][i % 3])
            w = [t] + [(1 - t) / (N - 1)] * (N - 1)
            R.append([ps[i] * x for x in w])
        return ctx.pack(R)
    T = [[p[i] * ps[j] for j in range(n)] for i in range(N)]
    e = ctx.num(a) * min_(ctx, [T[0][1], T[1][0]])
    T[0][0], T[1][1] = T[0][0] + e, T[1][1] + e
    T[0][1], T[1][0] = T[0][1] - e, T[1][0] - e
    if n > 2:
        f = ctx.num(b) * min_(ctx, [T[0][2], T[1][0]])
        T[0][2], T[1][0] = T[0][2] - f, T[1][0] - f
        T[0][0], T[1][2] = T[0][0] + f, T[1][2] + f
    return ctx.pack(T)


def struct(ctx, name, n, cs, kind):
    lo = "1/10" if kind == "kl_loss" else -5
    if cs == "full":
        return ctx.mat(name, n, n, lo=lo, hi=5)
    return ctx.sym_mat(name, n, lo=lo, hi=5)


def min_(ctx, xs):
    m = xs[0]
    for x in xs[1:]:
        if ctx.test(x < m):
            m = x
    return m


def cost(ctx, X, Y):
    return ctx.pack([[sum((X[i, d] - Y[j, d]) * (X[i, d] - Y[j, d]) for d in range(X.shape[1])) for j in range(Y.shape[0])] for i in range(X.shape[0])])


def struct_foc(ctx, C, Ts, Cs, lam, kind, semi):
    """derivative of the weighted sum of the losses in each entry of C vanishes"""
    N = C.shape[0]
    out = []
    for i in range(N):
        for j in range(N):
            g = ctx.num(0)
            for T, D, l in zip(Ts, Cs, lam):
                n = D.shape[0]
                for k in range(n):
                    for m in range(n):
                        w = l * (T[k, i] * T[m, j] if semi else T[i, k] * T[j, m])
                        if kind == "square_loss":
                            g = g + w * (C[i, j] - D[k, m])
                        elif semi:
                            g = g + w * (C[i, j] - D[k, m])
                        else:
                            g = g + w * (ctx.log(C[i, j]) - ctx.log(D[k, m]))
            out.append(ctx.eq(g, 0))
    return out


def feat_foc(ctx, X, Ts, Ys, lam, semi):
    out = []
    for i in range(X.shape[0]):
        for d in range(X.shape[1]):
            g = ctx.num(0)
            for T, Y, l in zip(Ts, Ys, lam):
                for k in range(Y.shape[0]):
                    g = g + l * (T[k, i] if semi else T[i, k]) * (X[i, d] - Y[k, d])
            out.append(ctx.eq(g, 0))
    return out


FUN = {
    "gw": ("_gw", "gromov_barycenters", "gromov_wasserstein"),
    "fgw": ("_gw", "fgw_barycenters", "fused_gromov_wasserstein"),
    "egw": ("_bregman", "entropic_gromov_barycenters", "entropic_gromov_wasserstein"),
    "efgw": ("_bregman", "entropic_fused_gromov_barycenters", "entropic_fused_gromov_wasserstein"),
    "srgw": ("_semirelaxed", "semirelaxed_gromov_barycenters", "semirelaxed_gromov_wasserstein"),
    "srfgw": ("_semirelaxed", "semirelaxed_fgw_barycenters", "semirelaxed_fused_gromov_wasserstein"),
}


def bary(ctx, which, kind="square_loss", cs="sym", sizes=(2, 2), iters=2, fixed=None, stop="barycenter", warm=False,
         default=False, conv=False, lamv=("1/3", "2/3"), initx=True, losses=None, sym=None, g0=None, armijo=None):
    modname, fname, inner = FUN[which]
    G = ctx.ot.gromov
    mod = getattr(G, modname)
    fused, semi, ent = which.endswith("fgw"), which.startswith("sr"), which.startswith("e")
    N, d = 2, 1
    S = len(sizes)
    Cs = []
    for s, n in enumerate(sizes):
        Cs.append(struct(ctx, "C%d" % s, n, cs, kind))
    lo = "1/10" if kind == "kl_loss" else -5
    init = ctx.sym_mat("I", N, lo=lo, hi=5) if kind != "kl_loss" else ctx.arr([[1, 2], [2, 3]])
    if default:
        p = ctx.arr(["1/2", "1/2"])
        ps = [ctx.arr([ctx.num(1) / n] * n) for n in sizes]
        lam = [ctx.num(1) / S] * S
    else:
        p = ctx.arr(W2[2])
        ps = [ctx.arr((W if s else W2)[n]) for s, n in enumerate(sizes)]
        lam = [ctx.num(x) for x in lamv]
    sig = inspect.signature(getattr(mod, inner))
    calls = []

    def solver(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        k = len(calls)
        s, it = k % S, k // S
        T = plans_for(ctx, p, ps[s], (0 if conv else it) + s, semi)
        calls.append(dict(b.arguments, T=T, snapM=ctx.snapshot(b.arguments["M"]) if fused else None))
        if b.arguments["log"]:
            key = {"gw": "gw_dist", "egw": "gw_dist", "fgw": "fgw_dist", "efgw": "fgw_dist", "srgw": "srgw_dist", "srfgw": "srfgw_dist"}[which]
            return T, {key: ctx.num(losses[min(it, len(losses) - 1)])}
        return T
    ctx.patch(mod, inner, solver)
    tol = -1 if not conv else "1/100"
    fnum = (lambda x: ctx.num(x)) if ctx.sym else (lambda x: float(ctx.num(x)))
    kw = dict(loss_fun=kind, max_iter=iters, tol=fnum(tol), stop_criterion=stop, warmstartT=warm, log=True, init_C=init)
    if sym is not None:
        kw["symmetric"] = sym
    if not default:
        kw["ps"] = ps
        kw["lambdas"] = [fnum(x) for x in lamv]
        if not semi:
            kw["p"] = p
    if armijo is not None:
        kw["armijo"] = armijo
    starts = []
    if semi:
        kw["G0"] = g0 or "product"
    if g0:
        # the start is deduced from (arbitrary) starting plans
        kw["init_C"] = None
        kw["random_state"] = 3
        isig = inspect.signature(mod.semirelaxed_init_plan)

        def start(*a, **k):
            b = isig.bind(*a, **k)
            b.apply_defaults()
            v = b.arguments
            i = [j for j in range(S) if v["C1"] is Cs[j]][0]
            starts.append(dict(v, i=i, seen=ctx.snapshot(v["C2"]), T=plans_for(ctx, p, ps[i], 2 + i, True)))
            return starts[-1]["T"]
        ctx.patch(mod, "semirelaxed_init_plan", start)
    if ent:
        kw["epsilon"] = fnum("1/3")
    Ys, X0 = None, None
    if fused:
        Ys = [ctx.mat("Y%d" % s, n, d, lo=-5, hi=5) for s, n in enumerate(sizes)]
        kw["alpha"] = fnum("1/4")
        if fixed:
            kw["fixed_" + fixed] = True
        if initx:
            X0 = ctx.mat("X", N, d, lo=-5, hi=5)
            kw["init_Y" if which == "efgw" else "init_X"] = X0
        elif not semi:
            X0 = ctx.arr([[0], [0]])
        X, C, log = getattr(G, fname)(N, Ys, Cs, **kw)
    else:
        C, log = getattr(G, fname)(N, Cs, **kw)
        X = None
    nit = len(calls) // S
    ctx.check("whole iterations", len(calls) == nit * S and 1 <= nit <= iters)
    # iterates as the inner problems saw them, the last one as returned
    its = []
    for it in range(nit):
        row = calls[it * S:(it + 1) * S]
        cur = None
        for s, c in enumerate(row):
            Cin, Din = ("C2", "C1") if semi else ("C1", "C2")
            ctx.check("inner problem", [ctx.eq(c[Din], Cs[s]), c["loss_fun"] == kind])
            if semi:
                ctx.check("marginals", ctx.eq(c["p"], ps[s]))
            else:
                ctx.check("marginals", [ctx.eq(c["p"], p), ctx.eq(c["q"], ps[s])])
            if fused:
                ctx.check("trade-off", ctx.eq(c["alpha"], ctx.num("1/4")))
            if ent:
                ctx.check("regularisation", ctx.eq(c["epsilon"], ctx.num("1/3")))
            if sym is not None:
                ctx.check("symmetry flag", c["symmetric"] == sym)
            if armijo is not None:
                ctx.check("line search", c["armijo"] == armijo)
            if not semi and not warm:
                ctx.check("no start given", c["G0"] is None)
            if warm and it == 0 and not semi:
                ctx.check("no start given", c["G0"] is None)
            if warm and it > 0:
                ctx.check("warm start", ctx.eq(c["G0"], calls[(it - 1) * S + s]["T"]))
            cur = c[Cin]
            ctx.check("same structure", ctx.eq(cur, row[0][Cin]))
        its.append(cur)
    its.append(C)
    if g0:
        ctx.check("one starting plan per measure", sorted(c["i"] for c in starts) == list(range(S)))
        ctx.check("starting plans", [c["method"] == g0 and c["random_state"] == 3 and ctx.eq(c["p"], ps[c["i"]]) for c in starts])
        byi = {c["i"]: c["T"] for c in starts}
        ctx.check("start minimises the objective of the starting plans", struct_foc(ctx, its[0], [byi[i] for i in range(S)], Cs, lam, kind, True))
        big = [i for i in range(S) if sizes[i] > N]
        for c in starts:
            if g0 == "random" or c["i"] in big or not big:
                ctx.check("no structure before the start", ctx.eq(c["seen"], ctx.arr([[0] * N] * N)))
            else:
                ctx.check("small graphs start from the larger ones", struct_foc(ctx, c["seen"], [byi[i] for i in big], [Cs[i] for i in big], [lam[i] for i in big], kind, True))
        for s in range(S):
            if warm:
                ctx.check("first warm start", ctx.eq(calls[s]["G0"], byi[s]))
            else:
                ctx.check("inner start", calls[s]["G0"] == g0)
    else:
        ctx.check("start", ctx.eq(its[0], init))
    last = [c["T"] for c in calls[-S:]]
    for it in range(nit):
        Ts = [c["T"] for c in calls[it * S:(it + 1) * S]]
        if fixed == "structure":
            ctx.check("fixed structure", ctx.eq(its[it + 1], init))
        else:
            ctx.check("structure minimises the objective", struct_foc(ctx, its[it + 1], Ts, Cs, lam, kind, semi))
    Xs = None
    if fused:
        # features implied by the previous plans
        if X0 is None:  # semi-relaxed with product plans
            q = ctx.arr(["1/2", "1/2"])
            T0 = [ctx.pack([[ps[s][i] * q[j] for j in range(N)] for i in range(n)]) for s, n in enumerate(sizes)]
            tot = [sum(lam[s] * T0[s][i, j] for s in range(S) for i in range(sizes[s])) for j in range(N)]
            X0 = ctx.pack([[sum(lam[s] * T0[s][i, j] * Ys[s][i, 0] for s in range(S) for i in range(sizes[s])) / tot[j]] for j in range(N)])
        Xs = [X0]
        for it in range(nit):
            Ts = [c["T"] for c in calls[it * S:(it + 1) * S]]
            for s in range(S):
                D = cost(ctx, Ys[s], Xs[-1]) if semi else cost(ctx, Xs[-1], Ys[s])
                ctx.check("feature cost of the inner problem", ctx.eq(calls[it * S + s]["snapM"], D))
            if fixed == "features":
                Xs.append(X0)
                continue
            den = [sum(lam[s] * (Ts[s][k, i] if semi else Ts[s][i, k]) for s in range(S) for k in range(sizes[s])) for i in range(N)]
            Xs.append(ctx.pack([[sum(lam[s] * (Ts[s][k, i] if semi else Ts[s][i, k]) * Ys[s][k, 0] for s in range(S) for k in range(sizes[s])) / den[i]] for i in range(N)]))
        ctx.check("features", ctx.eq(X, Xs[-1]))
        ctx.check("returned costs", [ctx.eq(log["Ms"][s], cost(ctx, Ys[s], X) if semi else cost(ctx, X, Ys[s])) for s in range(S)])
    ctx.check("returned plans", [ctx.eq(log["T"][s], last[s]) for s in range(S)])
    if not semi:
        ctx.check("returned weights", ctx.eq(log["p"], p))
    else:
        ctx.check("returned weights", [ctx.eq(log["p"][s], ctx.pack([sum(last[s][i, j] for i in range(sizes[s])) for j in range(N)])) for s in range(S)])
    if stop == "barycenter":
        t2 = ctx.num("1/10000")

        def small(it):
            dC = sum((its[it + 1][i, j] - its[it][i, j]) ** 2 for i in range(N) for j in range(N))
            r = [ctx.le(dC, t2)]
            if fused:
                r.append(ctx.le(sum((Xs[it + 1][i, 0] - Xs[it][i, 0]) ** 2 for i in range(N)), t2))
            return ctx.all(r)
        if conv:
            if nit < iters:
                ctx.check("stops when everything has converged", small(nit - 1))
        else:
            ctx.check("iterations", nit == iters)
    else:
        ls = [float(ctx.num(x)) for x in losses]
        want = iters
        for k in range(1, iters):
            if abs(ls[min(k, len(ls) - 1)] - ls[k - 1]) / ls[k - 1] <= 0.01:
                want = k + 1
                break
        ctx.check("iterations", nit == (want if conv else iters))


def step(ctx, target=True, kind="square_loss", pk="none", S=2, feature=False, n=2, vary="T"):
    """the update functions on arbitrary plans"""
    U = ctx.ot.gromov
    N = 2
    lam = [ctx.num("1/3"), ctx.num("2/3")][:S] if S == 2 else [ctx.num(1)]
    Ts, Cs = [], []
    for s in range(S):
        shp = (n, N) if target else (N, n)
        if vary == "T":
            T = ctx.mat("T%d" % s, *shp, lo="1/20", hi=1) if s == 0 else ctx.arr([["1/5", "1/20"], ["1/4", "1/2"]][:shp[0]])
        else:
            T = ctx.arr([["1/5", "1/20"], ["1/4", "1/2"]]) if s == 0 else ctx.arr([["1/10", "3/10"], ["2/5", "1/5"]])
        Ts.append(T)
        if feature:
            Cs.append(ctx.mat("Y%d" % s, n, 1, lo=-5, hi=5) if vary != "T" or s == 0 else ctx.arr([[1], [3]]))
        elif vary == "T":
            Cs.append(ctx.arr([[1, 2], [3, 1]] if s else [[2, 1], [4, 3]]))
        else:
            Cs.append(ctx.mat("C%d" % s, n, n, lo=-5 if kind == "square_loss" else "1/10", hi=5))
    marg = [[sum(T[i, j] for i in range(n)) if target else sum(T[j, i] for i in range(n)) for j in range(N)] for T in Ts]
    kw = {}
    if pk == "list":
        kw["p"] = ctx.pack(marg)
    if pk == "shared":
        kw["p"] = ctx.arr(["1/3", "2/3"])
        Ts = [ctx.pack([[T[i, j] * kw["p"][j] / marg[s][j] if target else T[i, j] * kw["p"][i] / marg[s][i] for j in range(T.shape[1])] for i in range(T.shape[0])]) for s, T in enumerate(Ts)]
    fl = lam if ctx.sym else [float(x) for x in lam]
    if feature:
        X = U.update_barycenter_feature(Ts, Cs, fl, target=target, nx=ctx.ot.backend.NumpyBackend(), **kw)
        ctx.check("features minimise the objective", feat_foc(ctx, X, Ts, Cs, lam, target))
    else:
        C = U.update_barycenter_structure(Ts, Cs, fl, loss_fun=kind, target=target, nx=ctx.ot.backend.NumpyBackend(), **kw)
        ctx.check("structure minimises the objective", struct_foc(ctx, C, Ts, Cs, lam, kind, target))


CASES = []
for w in FUN:
    f = w.endswith("fgw")
    CASES.append(Case("%s_sq" % w, bary, which=w))
    CASES.append(Case("%s_kl" % w, bary, which=w, kind="kl_loss", iters=1))
    CASES.append(Case("%s_sizes" % w, bary, which=w, sizes=(2, 3), warm=True))
    CASES.append(Case("%s_default" % w, bary, which=w, default=True, sizes=(3, 2), iters=1))
    CASES.append(Case("%s_conv" % w, bary, which=w, conv=True, iters=3))
    CASES.append(Case("%s_loss" % w, bary, which=w, stop="loss", conv=True, iters=4, losses=["4", "3", "2999/1000", "1"], default=True))
    CASES.append(Case("%s_loss_warm" % w, bary, which=w, stop="loss", iters=3, warm=True, losses=["4", "3", "2"]))
    if f:
        CASES.append(Case("%s_fixed_structure" % w, bary, which=w, fixed="structure"))
        CASES.append(Case("%s_fixed_features" % w, bary, which=w, fixed="features"))
        CASES.append(Case("%s_fixed_structure_conv" % w, bary, which=w, fixed="structure", conv=True, iters=3))
        CASES.append(Case("%s_fixed_features_conv" % w, bary, which=w, fixed="features", conv=True, iters=3))
        CASES.append(Case("%s_noinit" % w, bary, which=w, initx=False))
    CASES.append(Case("%s_three" % w, bary, which=w, sizes=(2, 2, 2), lamv=("1/6", "1/3", "1/2"), iters=3, tier="thorough"))
    CASES.append(Case("%s_asym" % w, bary, which=w, sym=False, cs="full", iters=1))
    CASES.append(Case("%s_asym_warm" % w, bary, which=w, sym=False, cs="full", iters=2, warm=True, armijo=True if w in ("gw", "fgw") else None))
    if w.startswith("sr"):
        for g in ("random", "kmeans", "spectral_soft"):
            CASES.append(Case("%s_start_%s" % (w, g), bary, which=w, sizes=(2, 3, 3), lamv=("1/6", "1/3", "1/2"), iters=1, g0=g, warm=g != "kmeans"))
        CASES.append(Case("%s_start_small" % w, bary, which=w, sizes=(2, 2), iters=1, g0="fluid"))
    else:
        CASES.append(Case("%s_asym_armijo" % w, bary, which=w, sym=False, cs="full", iters=1, armijo=True if w in ("gw", "fgw") else None))
for t in (True, False):
    for pk in ("none", "list", "shared"):
        nm = "%s_%s" % ("target" if t else "source", pk)
        CASES.append(Case("step_sq_T_" + nm, step, target=t, pk=pk))
        CASES.append(Case("step_sq_C_" + nm, step, target=t, pk=pk, vary="C"))
        CASES.append(Case("step_kl_C_" + nm, step, target=t, pk=pk, vary="C", kind="kl_loss"))
        CASES.append(Case("step_kl_T_" + nm, step, target=t, pk=pk, kind="kl_loss"))
        CASES.append(Case("step_feat_" + nm, step, target=t, pk=pk, feature=True))
        CASES.append(Case("step_feat_Y_" + nm, step, target=t, pk=pk, feature=True, vary="C"))
