"""C07 balanced entropic OT: every algorithm returns the Sinkhorn iterate."""
from symx.worker import Case

INF = float("inf")
ALL3 = ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized")


def setup(ctx, n, m, ab="sym"):
    if ab == "sym":
        a = ctx.weights("a", n, pos=True)
        b = ctx.weights("b", m, pos=True)
    else:
        a = ctx.arr({2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"]}[n])
        b = ctx.arr({2: ["2/5", "3/5"], 3: ["1/5", "3/10", "1/2"]}[m])
    M = ctx.mat("M", n, m, lo=0, hi=3)
    return a, b, M


def reference(ctx, a, b, M, reg, it, u=None):
    """textbook Sinkhorn-Knopp iterate (v first, then u)"""
    K = ctx.np.exp(-M / reg)
    n, m = M.shape
    if u is None:
        u = [ctx.num(1) / n] * n
    for _ in range(it):
        v = [b[j] / sum(K[i, j] * u[i] for i in range(n)) for j in range(m)]
        u = [a[i] / sum(K[i, j] * v[j] for j in range(m)) for i in range(n)]
    return ctx.pack([[u[i] * K[i, j] * v[j] for j in range(m)] for i in range(n)]), u, v


def plan_of_log(ctx, me, log, M, reg):
    if me == "sinkhorn":
        u, v = log["u"], log["v"]
        return u[:, None] * ctx.np.exp(-M / reg) * v[None, :]
    if me == "sinkhorn_log":
        f, g = log["log_u"], log["log_v"]
        return ctx.np.exp(f[:, None] + g[None, :] - M / reg)
    f, g = log["alpha"], log["beta"]
    return ctx.np.exp((f[:, None] + g[None, :] - M) / reg)


def agree(ctx, n, m, it, ab="sym", methods=ALL3, reg="1/2", default=False):
    a, b, M = setup(ctx, n, m, ab)
    reg = ctx.num(reg) if reg != "sym" else ctx.real("reg", pos=True, lo=ctx.num("1/10"), hi=5)
    if default:
        R, u, v = reference(ctx, ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m), M, reg, it)
    else:
        R, u, v = reference(ctx, a, b, M, reg, it)
    for me in methods:
        a0, b0, M0 = ctx.snapshot(a), ctx.snapshot(b), ctx.snapshot(M)
        A, B = ([], []) if default else (a, b)
        G, log = ctx.ot.sinkhorn(A, B, M, reg, method=me, numItermax=it, stopThr=-1, log=True, tau=INF, warn=False)
        ctx.check(me + ": plan is the iterate", ctx.eq(G, R))
        if not default:
            ctx.check(me + ": rows", ctx.eq(ctx.np.sum(G, axis=1), a))
        ctx.check(me + ": potentials give the plan", ctx.eq(plan_of_log(ctx, me, log, M, reg), G))
        ctx.check(me + ": inputs kept", [ctx.eq(a, a0), ctx.eq(b, b0), ctx.eq(M, M0)])
        e = log["err"][0]
        ctx.check(me + ": one reported error per check", len(log["err"]) == 1)
        R1 = R if it == 1 else reference(ctx, *( (ctx.arr(["1/%d" % n] * n), ctx.arr(["1/%d" % m] * m)) if default else (a, b)), M, reg, 1)[0]
        bb = ctx.arr(["1/%d" % m] * m) if default else b
        d = [sum(R1[i, j] for i in range(n)) - bb[j] for j in range(m)]
        ctx.check(me + ": error is the marginal violation", [ctx.eq(e * e, sum(x * x for x in d)), ctx.le(0, e)])
        G2 = ctx.ot.sinkhorn(A, B, M, reg, method=me, numItermax=it, stopThr=-1, tau=INF, warn=False)
        ctx.check(me + ": log flag", ctx.eq(G2, G))
        c = ctx.ot.sinkhorn2(A, B, M, reg, method=me, numItermax=it, stopThr=-1, tau=INF, warn=False) if not default else None
        if c is not None:
            ctx.check(me + ": sinkhorn2 value", ctx.eq(c, sum(R[i, j] * M[i, j] for i in range(n) for j in range(m))))
            c, _ = ctx.ot.sinkhorn2(A, B, M, reg, method=me, numItermax=it, stopThr=-1, tau=INF, warn=False, log=True)
            ctx.check(me + ": sinkhorn2 value (log)", ctx.eq(c, sum(R[i, j] * M[i, j] for i in range(n) for j in range(m))))


def absorb(ctx, n, m, it, ab="c"):
    """absorbing the scalings into the potentials leaves the iterates unchanged"""
    a, b, M = setup(ctx, n, m, ab)
    reg = ctx.num("1/2")
    G, log = ctx.ot.sinkhorn(a, b, M, reg, method="sinkhorn_stabilized", numItermax=it, stopThr=-1, tau=0, log=True, warn=False)
    R, u, v = reference(ctx, a, b, M, reg, it)
    ctx.check("iterate", ctx.eq(G, R))
    ctx.check("potentials give the plan", ctx.eq(plan_of_log(ctx, "sinkhorn_stabilized", log, M, reg), G))


def absorb_hists(ctx, n, m, it):
    a = ctx.arr(["1/4", "3/4"])
    B = ctx.np.stack([ctx.arr(["2/5", "3/5"]), ctx.arr(["1/7", "6/7"])], axis=1)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    reg = ctx.num("1/2")
    r, log = ctx.ot.sinkhorn2(a, B, M, reg, method="sinkhorn_stabilized", numItermax=it, stopThr=-1, tau=0, log=True, warn=False)
    for k in range(2):
        R, u, v = reference(ctx, a, B[:, k], M, reg, it)
        ctx.check("cost of histogram %d" % k, ctx.eq(r[k], sum(R[i, j] * M[i, j] for i in range(n) for j in range(m))))


def hist1(ctx, n, m, method):
    """a single histogram given as a column"""
    a = ctx.weights("a", n, pos=True)
    b = ctx.weights("b", m, pos=True)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    reg = ctx.num("1/2")
    r = ctx.ot.sinkhorn2(a, b[:, None], M, reg, method=method, numItermax=1, stopThr=-1, tau=INF, warn=False)
    R, u, v = reference(ctx, a, b, M, reg, 1)
    ctx.check("cost", ctx.eq(r, ctx.pack([sum(R[i, j] * M[i, j] for i in range(n) for j in range(m))])))


def hists(ctx, n, m, it, method):
    a = ctx.weights("a", n, pos=True)
    B = ctx.np.stack([ctx.weights("b", m, pos=True), ctx.weights("c", m, pos=True)], axis=1)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    reg = ctx.num("1/2")
    r, log = ctx.ot.sinkhorn2(a, B, M, reg, method=method, numItermax=it, stopThr=-1, tau=INF, log=True, warn=False)
    r2 = ctx.ot.sinkhorn2(a, B, M, reg, method=method, numItermax=it, stopThr=-1, tau=INF, warn=False)
    for k in range(2):
        R, u, v = reference(ctx, a, B[:, k], M, reg, it)
        val = sum(R[i, j] * M[i, j] for i in range(n) for j in range(m))
        ctx.check("cost of histogram %d" % k, [ctx.eq(r[k], val), ctx.eq(r2[k], val)])
        if method == "sinkhorn":
            u, v = log["u"], log["v"]
        elif method == "sinkhorn_log":
            u, v = log["u"], log["v"]
        else:
            u, v = ctx.np.exp(log["logu"]), ctx.np.exp(log["logv"])
        P = u[:, k][:, None] * ctx.np.exp(-M / reg) * v[:, k][None, :]
        ctx.check("scalings of histogram %d" % k, ctx.eq(P, R))


def hists_err(ctx, n, m, method):
    """the batched run stops only when every histogram is converged"""
    a = ctx.weights("a", n, pos=True)
    B = ctx.np.stack([ctx.weights("b", m, pos=True), ctx.weights("c", m, pos=True)], axis=1)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    reg = ctx.num("1/2")
    r, log = ctx.ot.sinkhorn2(a, B, M, reg, method=method, numItermax=1, stopThr=-1, log=True, warn=False)
    tot = 0
    for k in range(2):
        R, u, v = reference(ctx, a, B[:, k], M, reg, 1)
        for j in range(m):
            d = sum(R[i, j] for i in range(n)) - B[j, k]
            tot = tot + d * d
    e = log["err"][0]
    ctx.check("batched error covers every histogram", ctx.eq(e * e, tot))


def warm(ctx, n, m, method, k1, k2):
    """continuing from the returned potentials = one longer run"""
    a, b, M = setup(ctx, n, m, "sym" if n * m <= 4 else "c")
    reg = ctx.num("1/2")
    kw = dict(method=method, stopThr=-1, log=True, tau=INF, warn=False) if method != "greenkhorn" else dict(method=method, stopThr=-1, log=True, warn=False)
    G1, l1 = ctx.ot.sinkhorn(a, b, M, reg, numItermax=k1, **kw)
    if method == "sinkhorn":
        ws = (ctx.np.log(l1["u"]), ctx.np.log(l1["v"]))
    elif method == "sinkhorn_log":
        ws = (l1["log_u"], l1["log_v"])
    else:
        ws = l1["warmstart"]
    w0 = [ctx.snapshot(w) for w in ws]
    G2, l2 = ctx.ot.sinkhorn(a, b, M, reg, numItermax=k2, warmstart=ws, **kw)
    G3, l3 = ctx.ot.sinkhorn(a, b, M, reg, numItermax=k1 + k2, **kw)
    ctx.check("continuation", ctx.eq(G2, G3))
    ctx.check("warm start kept", [ctx.eq(x, y) for x, y in zip(ws, w0)])


def warm_hists(ctx, n, m, method, it):
    """several histograms, each from its own starting potentials"""
    a = ctx.arr({2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"]}[n])
    bs = [ctx.arr(["2/5", "3/5"]), ctx.arr(["1/7", "6/7"])]
    B = ctx.np.stack(bs, axis=1)
    M = ctx.mat("M", n, m, lo=0, hi=3)
    reg = ctx.num("1/2")
    us = [ctx.vec("u%d" % k, n, pos=True, lo=ctx.num("1/10"), hi=3) for k in range(2)]
    vs = [ctx.vec("v%d" % k, m, pos=True, lo=ctx.num("1/10"), hi=3) for k in range(2)]
    lu, lv = [ctx.np.log(x) for x in us], [ctx.np.log(x) for x in vs]
    if method == "sinkhorn_log":
        ws = list(zip(lu, lv))
    elif method == "sinkhorn":
        ws = (ctx.np.stack(lu, axis=1), ctx.np.stack(lv, axis=1))
    else:
        us = [us[0], us[0]]
        ws = (lu[0] * reg, lv[0] * reg)
    r = ctx.ot.sinkhorn2(a, B, M, reg, method=method, numItermax=it, stopThr=-1, tau=INF, warmstart=ws, warn=False)
    for k in range(2):
        u0 = us[k]
        R, u, v = reference(ctx, a, bs[k], M, reg, it, u=[u0[i] for i in range(n)])
        ctx.check("cost of histogram %d" % k, ctx.eq(r[k], sum(R[i, j] * M[i, j] for i in range(n) for j in range(m))))


def eps_scaling(ctx, n, m, inner):
    a, b, M = setup(ctx, n, m, "c")
    reg = ctx.num("1/2")
    G, log = ctx.ot.sinkhorn(a, b, M, reg, method="sinkhorn_epsilon_scaling", numItermax=1, epsilon0=reg, numInnerItermax=inner, stopThr=-1, tau=INF, log=True, warn=False)
    N = (log["niter"] + 1) * inner
    R, u, v = reference(ctx, a, b, M, reg, N)
    ctx.check("constant schedule = plain iterations", ctx.eq(G, R))
    ctx.check("rows", ctx.eq(ctx.np.sum(G, axis=1), a))
    ctx.check("potentials give the plan", ctx.eq(plan_of_log(ctx, "sinkhorn_stabilized", log, M, reg), G))


def stop_rule(ctx, n, m, method):
    """returning early means the marginal violation is below the threshold"""
    a = ctx.arr(["1/2"] * 2)
    b = ctx.arr(["1/4", "3/4"])
    x = ctx.real("x", lo=0, hi=3)
    z = ctx.num(0)
    M = ctx.pack([[x, z], [z, x]])
    reg = ctx.num(1)
    thr = ctx.num("1/20")
    G, log = ctx.ot.sinkhorn(a, b, M, reg, method=method, numItermax=11, stopThr=thr, log=True, tau=INF, warn=False)
    it = log.get("niter", log.get("n_iter"))
    d = [G[0, j] + G[1, j] - b[j] for j in range(2)]
    if it < 10:
        ctx.check("converged", ctx.le(d[0] * d[0] + d[1] * d[1], thr * thr))
    else:
        R, u, v = reference(ctx, a, b, M, reg, 1)
        d = [R[0, j] + R[1, j] - b[j] for j in range(2)]
        ctx.check("not stopped although converged", ctx.le(thr * thr, d[0] * d[0] + d[1] * d[1]))


CASES = [Case("agree22_%d" % k, agree, n=2, m=2, it=k, opt_lazymax=True) for k in (1, 2, 3)]
CASES += [Case("agree23_%d" % k, agree, n=2, m=3, it=k, opt_lazymax=True) for k in (1, 3)]
CASES += [Case("agree33", agree, n=3, m=3, it=2, opt_lazymax=True), Case("agree32_c", agree, n=3, m=2, it=3, ab="c", opt_lazymax=True)]
CASES += [Case("agree23_reg", agree, n=2, m=3, it=2, reg="sym", opt_lazymax=True)]
CASES += [Case("agree23_default", agree, n=2, m=3, it=2, default=True, opt_lazymax=True)]
CASES += [Case("absorb22", absorb, n=2, m=2, it=2, opt_lazymax=True), Case("absorb23", absorb, n=2, m=3, it=2, opt_lazymax=True)]
CASES += [Case("absorb_hists%d" % k, absorb_hists, n=2, m=2, it=k, opt_lazymax=True) for k in (1, 2)]
CASES += [Case("hist1_%s" % me, hist1, n=2, m=2, method=me, opt_lazymax=True) for me in ALL3]
CASES += [Case("hists_%s" % me, hists, n=2, m=3, it=2, method=me, opt_lazymax=True) for me in ALL3]
CASES += [Case("hists_err", hists_err, n=2, m=2, method="sinkhorn", opt_lazymax=True)]
CASES += [Case("warm_%s_%d%d" % (me, i, j), warm, n=2, m=3, method=me, k1=i, k2=j, opt_lazymax=True) for me in ALL3 for i, j in ((1, 1), (2, 1), (1, 2))]
CASES += [Case("eps_scaling", eps_scaling, n=2, m=2, inner=1, opt_lazymax=True)]
CASES += [Case("stop_%s" % me, stop_rule, n=2, m=2, method=me, opt_lazymax=True) for me in ALL3]
CASES += [Case("warmh_%s_%d" % (me, k), warm_hists, n=2, m=2, method=me, it=k, opt_lazymax=True) for me in ALL3 for k in (1, 2)]
