"""Gromov-Wasserstein objective and steps, written from the definition."""


def loss_fn(ctx, kind):
    if kind == "square_loss":
        return lambda x, y: (x - y) * (x - y)
    return lambda x, y: x * (ctx.log(x) - ctx.log(y)) - x + y


def gw_obj(ctx, C1, C2, T, kind="square_loss"):
    L = loss_fn(ctx, kind)
    n, m = T.shape
    r = ctx.num(0)
    for i in range(n):
        for k in range(n):
            for j in range(m):
                for l in range(m):
                    r = r + L(C1[i, k], C2[j, l]) * T[i, j] * T[k, l]
    return r


def fgw_obj(ctx, M, C1, C2, T, alpha, kind="square_loss"):
    r = alpha * gw_obj(ctx, C1, C2, T, kind) if not (isinstance(alpha, int) and alpha == 1) else gw_obj(ctx, C1, C2, T, kind)
    if M is not None:
        n, m = T.shape
        r = r + (1 - alpha) * sum(T[i, j] * M[i, j] for i in range(n) for j in range(m))
    return r


def gw_grad(ctx, M, C1, C2, T, alpha, kind="square_loss"):
    """gradient in T of the objective, all four-index sums"""
    L = loss_fn(ctx, kind)
    n, m = T.shape
    R = []
    for i in range(n):
        row = []
        for j in range(m):
            g = sum((L(C1[i, k], C2[j, l]) + L(C1[k, i], C2[l, j])) * T[k, l] for k in range(n) for l in range(m))
            if M is not None:
                g = alpha * g + (1 - alpha) * M[i, j]
            row.append(g)
        R.append(row)
    return ctx.pack(R)


def record_gradients(ctx):
    """collect what is handed to set_gradients"""
    rec = []

    def sg(self, val, inputs, grads):
        rec.append((val, list(inputs), list(grads)))
        return val

    ctx.patch(ctx.ot.backend.NumpyBackend, "set_gradients", sg)
    return rec


def emd_contract(ctx, *wheres):
    """model of the exact solver (its own property is C01): a vertex of the
    coupling polytope minimising the cost; replays use the real solver"""
    from props.lib import couplings, pair_cost
    calls = []

    def emd(a, b, M, numItermax=100000, log=False, *args, **kw):
        fa, fb = [x.cval() for x in a.reshape(-1)], [x.cval() for x in b.reshape(-1)]
        calls.append(M)
        best = None
        for P in couplings(fa, fb):
            c = pair_cost(ctx, P, M)
            if best is None or ctx.test(c < best[0]):
                best = (c, P)
        G = ctx.arr(best[1])
        if log:
            n, m = len(fa), len(fb)
            return G, {"cost": best[0], "u": ctx.arr(list(range(1, n + 1))), "v": ctx.arr(list(range(2, m + 2))), "warning": None, "result_code": 1}
        return G

    for mod, name in wheres:
        ctx.stub(mod, name, emd)
    return calls


def options(ctx, modname, fname, log=True, two=False):
    """stopping parameters, start and trade-off reach the conditional gradient solver as given"""
    import inspect
    G = ctx.ot.gromov
    mod = getattr(G, modname)
    cgn = {"_gw": "cg", "_semirelaxed": "semirelaxed_cg", "_partial": "partial_cg"}[modname]
    fused, part = "fused" in fname, modname == "_partial"
    C1, C2 = ctx.sym_mat("A", 2, lo=-3, hi=3), ctx.sym_mat("B", 2, lo=-3, hi=3)
    p, q = ctx.arr(["1/3", "2/3"]), ctx.arr(["1/4", "3/4"])
    rel, ab = ctx.real("rel", lo=ctx.num("1/100"), hi=1), ctx.real("abs", lo=ctx.num("1/100"), hi=1)
    al = ctx.real("al", lo=ctx.num("1/10"), hi=ctx.num("9/10"))
    T = ctx.arr([["1/12", "1/4"], ["1/6", "1/2"]])
    sig = inspect.signature(getattr(mod, cgn))
    calls = []

    def rec(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments, extra=dict(b.arguments.get("kwargs", {}))))
        R = T
        if not b.arguments["log"]:
            return R
        z = ctx.arr([0, 0])
        d = {"loss": [ctx.num(2), ctx.num(1)], "u": z, "v": z}
        return R, d
    ctx.patch(mod, cgn, rec)
    kw = dict(symmetric=True, log=log)
    if part:
        kw.update(numItermax=37, tol=rel, m=ctx.num("1/2") if ctx.sym else 0.5, thres=ctx.num(0) if ctx.sym else 0.0)
    else:
        kw.update(max_iter=37, tol_rel=rel, tol_abs=ab)
    args = [C1, C2, p] + ([] if modname == "_semirelaxed" else [q])
    M = None
    if fused:
        M = ctx.mat("M", 2, 2, lo=0, hi=3)
        args = [M] + args
        kw["alpha"] = al
    if not part:
        kw["G0"] = T
    if modname == "_gw":
        kw["armijo"] = False
        kw["numItermaxEmd"] = 4321
    getattr(G, fname + ("2" if two else ""))(*args, **kw)
    if len(calls) != 1:
        return  # the solver is not run through this function: decided by the other cases
    c = calls[0]
    ctx.check("iterations", c["numItermax"] == 37)
    ctx.check("relative tolerance", ctx.eq(c["stopThr"], rel))
    if not part:
        ctx.check("absolute tolerance", ctx.eq(c["stopThr2"], ab))
    ctx.check("source weights", ctx.eq(c["a"], p))
    if not part:
        ctx.check("start", ctx.eq(c["G0"], T))
    if modname == "_gw":
        ctx.check("further options", [c["numItermaxEmd"] == 4321, ctx.eq(c["b"], q)])
    if fused:
        ctx.check("trade-off", [ctx.eq(c["reg"], al), ctx.eq(c["M"], (1 - al) * M)])
    else:
        ctx.check("trade-off", ctx.eq(c["reg"], 1))
