"""C17 CO-optimal transport and unbalanced (fused) Gromov-Wasserstein / COOT."""
import warnings

from symx.worker import Case
from props.gwlib import record_gradients
from props.lib import W, W2, couplings, fr

QUICK_WALL = 8


def quartic(X, Y, P, Q):
    n, m = P.shape
    k, l = Q.shape
    return sum((X[i, a] - Y[j, b]) * (X[i, a] - Y[j, b]) * P[i, j] * Q[a, b] for i in range(n) for j in range(m) for a in range(k) for b in range(l))


def inner(P, M):
    n, m = P.shape
    return sum(P[i, j] * M[i, j] for i in range(n) for j in range(m))


def xlog(ctx, x):
    return x * ctx.log(x)


def kl(ctx, P, R):
    r = ctx.num(0)
    for x, y in zip(P, R):
        r = r + x * (ctx.log(x) - ctx.log(y)) - x + y
    return r


def half(P, R):
    return sum((x - y) * (x - y) for x, y in zip(P, R)) / 2


def div(ctx, kind, P, R):
    return kl(ctx, P, R) if kind == "kl" else half(P, R)


def lst(P):
    return list(P.reshape(-1))


def marg(P, ax):
    n, m = P.shape
    return [sum(P[i, j] for j in range(m)) for i in range(n)] if ax == 0 else [sum(P[i, j] for i in range(n)) for j in range(m)]


def outer(u, v):
    return [x * y for x in u for y in v]


def kl_prod(ctx, u, v, a, b):
    """KL of the product measures u x v and a x b, entry by entry"""
    r = ctx.num(0)
    for x, p in zip(u, a):
        for y, q in zip(v, b):
            r = r + x * y * (ctx.log(x) + ctx.log(y) - ctx.log(p) - ctx.log(q)) - x * y + p * q
    return r


def div_prod(ctx, kind, u, v, a, b):
    return kl_prod(ctx, u, v, a, b) if kind == "kl" else half(outer(u, v), outer(a, b))


def data(ctx, which):
    n, m, k, l = 2, 2, 2, 2
    v = lambda nm: ctx.real(nm, lo=0, hi=2)
    if which == 0:
        X, Y = ctx.pack([[v("x0"), ctx.num(1)], [ctx.num("1/3"), v("x1")]]), ctx.arr([["1/2", "2"], ["0", "1"]])
    elif which == 1:
        X, Y = ctx.arr([["1", "2"], ["0", "1/2"]]), ctx.pack([[ctx.num("3/2"), v("x0")], [v("x1"), ctx.num("1/4")]])
    else:
        X, Y = ctx.pack([[v("x0"), ctx.num(1)], [ctx.num("1/3"), ctx.num(0)]]), ctx.pack([[ctx.num("1/2"), ctx.num(1)], [v("x1"), ctx.num(2)]])
    return X, Y


def coot(ctx, which, eps, al, iters=1, warm=False, default=False, vals=False):
    C = ctx.ot.coot
    X, Y = data(ctx, which)
    wxs, wxf, wys, wyf = (ctx.arr(["1/2", "1/2"]),) * 4 if default else (ctx.arr(W[2]), ctx.arr(W2[2]), ctx.arr(["1/3", "2/3"]), ctx.arr(["3/10", "7/10"]))
    es, ef = eps if isinstance(eps, tuple) else (eps, eps)
    as_, af = al if isinstance(al, tuple) else (al, al)
    num = lambda x: ctx.num(x) if ctx.sym else float(ctx.num(x))
    M = ctx.pack([[ctx.real("m0", lo=0, hi=2), ctx.num(1)], [ctx.num(2), ctx.num("1/2")]])
    N = ctx.pack([[ctx.num(1), ctx.real("m1", lo=0, hi=2)], [ctx.num(0), ctx.num("3/2")]])
    calls = []

    def plan(a, b, t):
        # a coupling of a and b: first entry t*min
        x = t * a[0] * b[0]
        return ctx.pack([[x, a[0] - x], [b[0] - x, a[1] - b[0] + x]])

    def emd(a, b, M, numItermax=1, log=False):
        t = ctx.num(("1/2", "4/5", "9/10", "2/5")[len(calls) % 4])
        P = plan(a, b, t)
        u, v = ctx.arr([1, len(calls) + 2]), ctx.arr([3, 2 * len(calls) + 1])
        calls.append(dict(a=a, b=b, M=ctx.snapshot(M), P=P, reg=0, u=u, v=v))
        return P, {"u": u, "v": v}

    def sinkhorn(a, b, M, reg, method=None, numItermax=0, stopThr=0, log=False, warmstart=None):
        t = ctx.num(("1/2", "4/5", "9/10", "2/5")[len(calls) % 4])
        P = plan(a, b, t)
        u, v = ctx.arr(["3/2", len(calls) + 2]), ctx.arr([3, 2 * len(calls) + 1])
        calls.append(dict(a=a, b=b, M=ctx.snapshot(M), P=P, reg=reg, u=u, v=v, warm=warmstart))
        return P, {"u": u, "v": v}
    ctx.patch(C, "emd", emd)
    ctx.patch(C, "sinkhorn", sinkhorn)
    kw = dict(epsilon=tuple(num(x) for x in eps) if isinstance(eps, tuple) else num(eps), alpha=tuple(num(x) for x in al) if isinstance(al, tuple) else num(al), M_samp=M, M_feat=N, nits_bcd=iters, tol_bcd=-1, early_stopping_tol=-1)
    if eps == 0:
        kw["epsilon"] = 0
    if al == 0:
        kw["alpha"] = 0
    es, ef, as_, af = (ctx.num(x) for x in (es, ef, as_, af))
    P0 = wxs[:, None] * wys[None, :]
    Q0 = wxf[:, None] * wyf[None, :]
    if warm:
        P0, Q0 = plan(wxs, wys, ctx.num("3/4")), plan(wxf, wyf, ctx.num("1/4"))
        ds, df = (ctx.arr([1, 2]), ctx.arr([0, "1/2"])), (ctx.arr([2, 1]), ctx.arr(["1/3", 1]))
        kw["warmstart"] = dict(pi_sample=P0, pi_feature=Q0, duals_sample=ds, duals_feature=df)
    if not default:
        kw.update(wx_samp=wxs, wx_feat=wxf, wy_samp=wys, wy_feat=wyf)
    if vals:
        rec = record_gradients(ctx)
        val, log = C.co_optimal_transport2(X, Y, log=True, **kw)
        P, Q = calls[-2]["P"], calls[-1]["P"]
    else:
        P, Q, log = C.co_optimal_transport(X, Y, log=True, **kw)
    ctx.check("alternating calls", len(calls) == 2 * iters)

    def F(P, Q):
        r = quartic(X, Y, P, Q)
        r = r + as_ * inner(P, M) + af * inner(Q, N)
        return r
    Pc, Qc = P0, Q0
    s, t = ctx.real("s", lo=0, hi=1), ctx.real("t", lo=0, hi=1)
    for it in range(iters):
        c = calls[2 * it]
        A, B = plan(wxs, wys, s), plan(wxs, wys, t)
        ctx.check("sample weights", [ctx.eq(c["a"], wxs), ctx.eq(c["b"], wys), ctx.eq(c["reg"], es)])
        ctx.check("sample cost is the objective with features fixed", ctx.eq(inner(A, c["M"]) - inner(B, c["M"]), F(A, Qc) - F(B, Qc)))
        Pc = c["P"]
        c = calls[2 * it + 1]
        A, B = plan(wxf, wyf, s), plan(wxf, wyf, t)
        ctx.check("feature weights", [ctx.eq(c["a"], wxf), ctx.eq(c["b"], wyf), ctx.eq(c["reg"], ef)])
        ctx.check("feature cost is the objective with samples fixed", ctx.eq(inner(A, c["M"]) - inner(B, c["M"]), F(Pc, A) - F(Pc, B)))
        Qc = c["P"]
        full = F(Pc, Qc)
        if eps != 0:
            full = full + es * kl(ctx, lst(Pc), lst(wxs[:, None] * wys[None, :])) + ef * kl(ctx, lst(Qc), lst(wxf[:, None] * wyf[None, :]))
        ctx.check("recorded distance is the objective", ctx.eq(log["distances"][it], full))
    if warm and eps != 0:
        for c, d in ((calls[0], ds), (calls[1], df)):
            if "warm" in c:
                ctx.check("warm start", [ctx.eq(c["warm"][0], d[0]), ctx.eq(c["warm"][1], d[1])])
    if eps != 0 and iters > 1:
        for k in range(2, len(calls)):
            if "warm" in calls[k]:
                ctx.check("duals carried over", [ctx.eq(calls[k]["warm"][0], ctx.log(calls[k - 2]["u"])), ctx.eq(calls[k]["warm"][1], ctx.log(calls[k - 2]["v"]))])
    ctx.check("plans", [ctx.eq(P, Pc), ctx.eq(Q, Qc)])
    if not vals:
        for nm, c, e in (("duals_sample", calls[-2], es), ("duals_feature", calls[-1], ef)):
            f = ctx.log if c["reg"] is not 0 and "warm" in c else (lambda x: x)
            ctx.check("duals", [ctx.eq(log[nm][0], f(c["u"])), ctx.eq(log[nm][1], f(c["v"]))])
    if vals:
        ctx.check("value", ctx.eq(val, log["distances"][-1]))
        v, ins, gr = rec[0]
        by = {}
        for x, g in zip(ins, gr):
            for nm, y in (("X", X), ("Y", Y)):
                if x is y:
                    by[nm] = g
        gx = ctx.pack([[sum(2 * (X[i, k] - Y[j, l]) * P[i, j] * Q[k, l] for j in range(2) for l in range(2)) for k in range(2)] for i in range(2)])
        gy = ctx.pack([[sum(2 * (Y[j, l] - X[i, k]) * P[i, j] * Q[k, l] for i in range(2) for k in range(2)) for l in range(2)] for j in range(2)])
        ctx.check("gradient for X", ctx.eq(by["X"], gx))
        ctx.check("gradient for Y", ctx.eq(by["Y"], gy))
        # weights: derivative of the optimal value, up to a constant
        for w, c, e, k in ((wxs, calls[-2], es, "u"), (wxf, calls[-1], ef, "u"), (wys, calls[-2], es, "v"), (wyf, calls[-1], ef, "v")):
            g = next((g for x, g in zip(ins, gr) if x is w), None)
            if g is None:
                g = gr[{"u": 0, "v": 2}[k] + (0 if c is calls[-2] else 1)]
            want = c[k] if "warm" not in c else e * (ctx.log(c[k]) - ctx.log(w))
            ctx.check("gradient for the weights", ctx.eq(g[0] - g[1], want[0] - want[1]))


class Res:
    pass


def ub(ctx, kind, reg_type, which=0, rho=("1/2", "3/2"), eps=("1/4", "1/3"), al=("1/2", "2/3"), iters=1, rescale=True, solver=None, initpi=False, api=None, fixed=False):
    """alternating minimisation of the unbalanced objective: each call of the
    solver of the subproblem gets the full objective up to a constant"""
    U = ctx.ot.gromov._unbalanced
    X, Y = data(ctx, which)
    num = lambda x: (float("inf") if x == "inf" else ctx.num(x)) if ctx.sym else (float("inf") if x == "inf" else float(ctx.num(x)))
    if api == "fugw":
        wxs = wxf = ctx.arr(["1/2", "3/4"])
        wys = wyf = ctx.arr(["2/5", "1/2"])
    else:
        wxs, wxf, wys, wyf = ctx.arr(["1/2", "3/4"]), ctx.arr(["1/4", "1/2"]), ctx.arr(["2/5", "1/2"]), ctx.arr(["1/5", "3/5"])
    rx, ry = (num(x) for x in rho)
    es, ef = (ctx.num(x) for x in eps)
    if reg_type == "joint":
        ef = es
    M = ctx.arr([[1, "1/2"], [2, 0]])
    N = M if api == "fugw" else ctx.arr([[0, "1/3"], [1, 1]])
    as_, af = (ctx.num(x) for x in al)
    calls = []
    fix = [[["1/4", "1/3"], ["1/8", "1/2"]], [["1/5", "1/6"], ["1/2", "1/3"]], [["1/3", "1/7"], ["1/6", "2/5"]], [["1/9", "1/2"], ["1/5", "1/4"]]]

    if fixed or initpi:
        # masses with rational rescaling factors from 9/8 on
        fix = [[["1/8", "1/12"], ["1/24", "1/4"]], [["1/3", "2/3"], ["3/2", "1/2"]], [["1/3", "1/6"], ["1/4", "3/4"]], [["1/3", "1/6"], ["3/4", "1/4"]]]

    def solve(M=None, a=None, b=None, reg=None, c=None, unbalanced=None, plan_init=None, potentials_init=None, **kw):
        k = len(calls)
        P = ctx.arr(fix[k % 4])
        if k == 0 and not (fixed or initpi):
            P = ctx.pack([[ctx.real("p0", lo=ctx.num("1/10"), hi=1), P[0, 1]], [P[1, 0], P[1, 1]]])
        r = Res()
        r.plan, r.potentials = P, (ctx.arr([k, k + 1]), ctx.arr([k + 2, k + 3]))
        calls.append(dict(M=ctx.snapshot(M), a=a, b=b, reg=reg, c=c, un=unbalanced, init=plan_init, pot=potentials_init, P=P, kw=kw, res=r))
        return r
    ctx.patch(ctx.ot, "solve", solve)
    solver = solver or ("mm" if kind == "l2" else "sinkhorn")
    e_arg = tuple(ctx.num(x) if ctx.sym else float(ctx.num(x)) for x in eps)
    a_arg = tuple(ctx.num(x) if ctx.sym else float(ctx.num(x)) for x in al)
    kw = dict(reg_marginals=(rx, ry), divergence=kind, unbalanced_solver=solver, max_iter=iters, tol=-1, log=True)
    P0 = wxs[:, None] * wys[None, :]
    Q0 = wxf[:, None] * wyf[None, :]
    if initpi:
        P0, Q0 = ctx.arr([["1/8", "1/3"], ["5/12", "1/4"]]), ctx.arr([["1/3", "1/4"], ["1/6", "1/2"]])
        if api == "fugw":
            Q0 = P0
        kw["init_pi"] = P0 if api == "fugw" else (P0, Q0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if api == "fugw":
            rec = record_gradients(ctx)
            val, log = U.fused_unbalanced_gromov_wasserstein2(X, Y, wx=wxs, wy=wys, epsilon=e_arg[0], alpha=a_arg[0], M=M, **kw)
            as_ = af = as_ / 2
        elif api == "ucoot":
            rec = record_gradients(ctx)
            val, log = U.unbalanced_co_optimal_transport2(X, Y, wx_samp=wxs, wx_feat=wxf, wy_samp=wys, wy_feat=wyf, epsilon=e_arg, alpha=a_arg, M_samp=M, M_feat=N, rescale_plan=rescale, **kw)
        else:
            P, Q, log = U.fused_unbalanced_across_spaces_divergence(X, Y, wx_samp=wxs, wx_feat=wxf, wy_samp=wys, wy_feat=wyf, epsilon=e_arg, reg_type=reg_type, alpha=a_arg, M_samp=M, M_feat=N, rescale_plan=rescale, **kw)

    def F(P, Q):
        r = quartic(X, Y, P, Q) + as_ * inner(P, M) + af * inner(Q, N)
        for ax, rho_, ws, wf in ((0, rx, wxs, wxf), (1, ry, wys, wyf)):
            if rho_ != float("inf"):
                r = r + rho_ * div_prod(ctx, kind, marg(P, ax), marg(Q, ax), list(ws), list(wf))
        rs, rf = lst(wxs[:, None] * wys[None, :]), lst(wxf[:, None] * wyf[None, :])
        if reg_type == "joint":
            if eps[0] != "0":
                r = r + es * div_prod(ctx, kind, lst(P), lst(Q), rs, rf)
        else:
            if eps[0] != "0":
                r = r + es * div(ctx, kind, lst(P), rs)
            if eps[1] != "0":
                r = r + ef * div(ctx, kind, lst(Q), rf)
        return r

    def sub(c, P):
        r = inner(P, c["M"])
        if c["reg"] is not 0:
            r = r + c["reg"] * div(ctx, kind, lst(P), lst(c["c"]))
        for ax, rho_, w in ((0, c["un"][0], c["a"]), (1, c["un"][1], c["b"])):
            if ctx.sym and isinstance(rho_, float) and rho_ == float("inf") or not ctx.sym and rho_ == float("inf"):
                continue
            r = r + rho_ * div(ctx, kind, marg(P, ax), list(w))
        return r
    if eps == ("0", "0"):
        for c in calls:
            c["reg"] = 0
    ctx.check("alternating calls", len(calls) == 2 * iters)
    A = ctx.pack([[ctx.real("a0", lo=ctx.num("1/10"), hi=1), ctx.num("1/3")], [ctx.num("1/4"), ctx.num("1/2")]])
    B = ctx.pack([[ctx.num("1/5"), ctx.num("1/2")], [ctx.num("1/6"), ctx.num("2/7")]])
    Pc, Qc = P0, Q0
    for it in range(iters):
        for side in ("feature", "sample"):
            c = calls[2 * it + (side == "sample")]
            # with an infinite penalty the marginals are those of the reference, on which the divergence is affine
            if side == "feature":
                lhs, rhs = sub(c, A) - sub(c, B), F(Pc, A) - F(Pc, B)
            else:
                lhs, rhs = sub(c, A) - sub(c, B), F(A, Qc) - F(B, Qc)
            ctx.check("%s subproblem is the objective with the other plan fixed" % side, ctx.eq(lhs, rhs))
            ctx.check("solver options", [c["kw"].get("reg_type") == kind, c["kw"].get("unbalanced_type") == kind, c["kw"].get("method") == solver])
            ctx.check("initial plan", ctx.eq(c["init"], Qc if side == "feature" else Pc))
            if it > 0:
                ctx.check("initial potentials", [ctx.eq(x, y) for x, y in zip(c["pot"], calls[2 * it - 2 + (side == "sample")]["res"].potentials)])
            new = c["P"]
            if rescale:
                mass = sum(lst(Pc if side == "feature" else Qc))
                new = ctx.sqrt(mass / sum(lst(new))) * new
            if side == "feature":
                Qc = new
            else:
                Pc = new
    if api is None:
        ctx.check("plans", [ctx.eq(P, Pc), ctx.eq(Q, Qc)])
        ctx.check("linear cost", ctx.eq(log["linear_cost"], quartic(X, Y, Pc, Qc)))
        ctx.check("total cost is the objective", ctx.eq(log["ucoot_cost"], F(Pc, Qc)))
        return
    ctx.check("value is the objective", ctx.eq(val, F(Pc, Qc)))
    if kind != "kl":
        return
    v, ins, gr = rec[0]

    def grad(y):
        return next(g for x, g in zip(ins, gr) if x is y)
    gx = ctx.pack([[sum(2 * (X[i, k] - Y[j, l]) * Pc[i, j] * Qc[k, l] for j in range(2) for l in range(2)) for k in range(2)] for i in range(2)])
    gy = ctx.pack([[sum(2 * (Y[j, l] - X[i, k]) * Pc[i, j] * Qc[k, l] for i in range(2) for k in range(2)) for l in range(2)] for j in range(2)])
    ctx.check("gradient for X", ctx.eq(grad(X), gx))
    ctx.check("gradient for Y", ctx.eq(grad(Y), gy))
    p, q, r, s = marg(Pc, 0), marg(Qc, 0), marg(Pc, 1), marg(Qc, 1)

    def dkl(u, v, a, b):
        """derivative in a of KL(u x v | a x b)"""
        return [sum(b) - u[i] * sum(v) / a[i] for i in range(len(a))]
    gxs = [rx * z for z in dkl(p, q, wxs, wxf)]
    gxf = [rx * z for z in dkl(q, p, wxf, wxs)]
    gys = [ry * z for z in dkl(r, s, wys, wyf)]
    gyf = [ry * z for z in dkl(s, r, wyf, wys)]
    if reg_type == "independent":
        gxs = [z + es * (sum(wys) - p[i] / wxs[i]) for i, z in enumerate(gxs)]
        gys = [z + es * (sum(wxs) - r[i] / wys[i]) for i, z in enumerate(gys)]
        gxf = [z + ef * (sum(wyf) - q[i] / wxf[i]) for i, z in enumerate(gxf)]
        gyf = [z + ef * (sum(wxf) - s[i] / wyf[i]) for i, z in enumerate(gyf)]
        for nm, w, g in (("wxs", wxs, gxs), ("wxf", wxf, gxf), ("wys", wys, gys), ("wyf", wyf, gyf)):
            ctx.check("gradient for " + nm, ctx.eq(grad(w), ctx.pack(g)))
    else:
        ms, mt = sum(lst(Pc)), sum(lst(Qc))
        G1 = [gxs[i] + gxf[i] + es * (2 * sum(wxs) * sum(wys) ** 2 - (mt * p[i] + ms * q[i]) / wxs[i]) for i in range(2)]
        G2 = [gys[i] + gyf[i] + es * (2 * sum(wys) * sum(wxs) ** 2 - (mt * r[i] + ms * s[i]) / wys[i]) for i in range(2)]
        ctx.check("gradient for wx", ctx.eq(grad(wxs), ctx.pack(G1)))
        ctx.check("gradient for wy", ctx.eq(grad(wys), ctx.pack(G2)))
        ctx.check("gradient for M", ctx.eq(grad(M), as_ * (Pc + Qc)))


CASES = []
for w in (0, 1, 2):
    CASES += [Case("coot_%d" % w, coot, which=w, eps=0, al=0), Case("coot_a_%d" % w, coot, which=w, eps=0, al=("1/2", "2/3")), Case("coot_e_%d" % w, coot, which=w, eps=("1/2", "1/3"), al=("1/2", "2/3")),
              Case("coot2_%d" % w, coot, which=w, eps=0, al=("1/2", "2/3"), vals=True), Case("coot2_e_%d" % w, coot, which=w, eps=("1/2", "1/3"), al=0, vals=True)]
CASES += [Case("coot_it", coot, which=0, eps=0, al=("1/2", "2/3"), iters=2), Case("coot_it_e", coot, which=1, eps=("1/2", "1/3"), al=0, iters=2), Case("coot_warm", coot, which=0, eps=("1/2", "1/3"), al="1/2", warm=True, iters=2),
          Case("coot_def", coot, which=2, eps="1/2", al=0, default=True), Case("coot_half", coot, which=2, eps=("0", "1/2"), al=("1/2", "0")), Case("coot_half2", coot, which=1, eps=("1/2", "0"), al=("0", "1/2"))]
for kind in ("kl", "l2"):
    for rt in ("joint", "independent"):
        n = "%s_%s" % (kind, rt[:3])
        CASES += [Case("ub_%s" % n, ub, kind=kind, reg_type=rt), Case("ub_%s_1" % n, ub, kind=kind, reg_type=rt, which=1), Case("ub_%s_init" % n, ub, kind=kind, reg_type=rt, which=2, initpi=True),
                  Case("ub_%s_raw" % n, ub, kind=kind, reg_type=rt, which=2, rescale=False, iters=2, fixed=True), Case("ub_%s_0" % n, ub, kind=kind, reg_type=rt, eps=("0", "0"), solver="mm"),
                  Case("ub_%s_it" % n, ub, kind=kind, reg_type=rt, iters=2, fixed=True)]
    CASES += [Case("fugw_%s" % kind, ub, kind=kind, reg_type="joint", api="fugw"), Case("fugw_%s_init" % kind, ub, kind=kind, reg_type="joint", api="fugw", initpi=True, which=1), Case("ucoot_%s" % kind, ub, kind=kind, reg_type="independent", api="ucoot"), Case("ucoot_%s_1" % kind, ub, kind=kind, reg_type="independent", api="ucoot", which=1, rescale=False)]
CASES += [Case("ub_inf", ub, kind="kl", reg_type="independent", rho=("inf", "1/2"), eps=("1/4", "1/3")), Case("ub_sink_log", ub, kind="kl", reg_type="joint", solver="sinkhorn_log")]
BOUNDS = "2x2 matrices with two symbolic entries, fixed weights, one or two alternations; the solver of the subproblem is replaced by a recorder that returns arbitrary plans"
STUBS = ["ot.solve", "ot.coot.emd", "ot.coot.sinkhorn"]
