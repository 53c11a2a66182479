"""C26 batched solvers: every problem of a batch gets its own documented solution."""
from symx.worker import Case


def ten(ctx, name, *shape, few=None, **k):
    """array of symbolic entries (only `few` of them when given, the others constant)"""
    def build(pre, sh):
        if not sh:
            if few is not None and count[0] % few:
                count[0] += 1
                return ctx.num("%d/%d" % (count[0] % 5 + 1, count[0] % 3 + 3))
            count[0] += 1
            return ctx.real(pre, **k)
        return [build("%s_%d" % (pre, i), sh[1:]) for i in range(sh[0])]
    count = [0]
    return ctx.pack(build(name, shape))


def wts(ctx, name, B, n):
    return ctx.pack([list(ctx.weights("%s%d" % (name, b), n, pos=True)) for b in range(B)])


CW = {2: [["1/4", "3/4"], ["2/3", "1/3"]], 3: [["1/2", "1/3", "1/6"], ["1/5", "2/5", "2/5"]]}


def cw(ctx, B, n):
    return ctx.pack([[ctx.num(x) for x in CW[n][b]] for b in range(B)])


def dist(ctx, metric, B=2, n=2, m=2, d=2, single=False, few=None):
    ob = ctx.ot.batch
    pos = metric == "kl"
    X = ten(ctx, "x", B, n, d, pos=pos, lo=None if pos else -2, hi=2) if pos else ten(ctx, "x", B, n, d, few=few, lo=-2, hi=2)
    Y = X if single else (ten(ctx, "y", B, m, d, pos=True, hi=2) if pos else ten(ctx, "y", B, m, d, few=few, lo=-2, hi=2))
    m = n if single else m
    if not ctx.sym and pos:
        ctx.assume(bool((X > 1e-3).all() and (Y > 1e-3).all()))
    X0, Y0 = ctx.snapshot(X), ctx.snapshot(Y)
    a2 = () if single else (Y,)

    def sq(b, i, j):
        return sum((X[b, i, k] - Y[b, j, k]) ** 2 for k in range(d))
    R = [(b, i, j) for b in range(B) for i in range(n) for j in range(m)]
    if metric == "sqeuclidean":
        M = ob.dist_batch(X, *a2)
        ctx.check("squared distances", [ctx.eq(M[r], sq(*r)) for r in R])
        M = ob.dist_batch(X, *a2, metric="SqEuclidean")
        ctx.check("case of the metric ignored", [ctx.eq(M[r], sq(*r)) for r in R])
    elif metric == "euclidean":
        M = ob.dist_batch(X, *a2, metric="euclidean")
        ctx.check("distances", [ctx.all([ctx.eq(M[r] * M[r], sq(*r)), ctx.le(0, M[r])]) for r in R])
    elif metric == "minkowski":
        M = ob.dist_batch(X, *a2, metric="minkowski", p=1)
        ctx.check("l1 distances", [ctx.eq(M[b, i, j], sum(abs(X[b, i, k] - Y[b, j, k]) for k in range(d))) for b, i, j in R])
        M = ob.dist_batch(X, *a2, metric="minkowski")
        ctx.check("l2 distances", [ctx.all([ctx.eq(M[r] * M[r], sq(*r)), ctx.le(0, M[r])]) for r in R])
        M = ob.dist_batch(X, *a2, metric="minkowski", p=3)
        ctx.check("l3 distances", [ctx.all([ctx.eq(M[b, i, j] ** 3, sum(abs(X[b, i, k] - Y[b, j, k]) ** 3 for k in range(d))), ctx.le(0, M[b, i, j])]) for b, i, j in R])
        M = ctx.ot.batch._linear.dist_lp_batch(X, Y, p=2, q=2)
        ctx.check("powers of distances", [ctx.eq(M[r], sq(*r)) for r in R])
        M = ctx.ot.batch._linear.dist_lp_batch(X, Y, p=1, q=2)
        ctx.check("squares of l1 distances", [ctx.eq(M[b, i, j], sum(abs(X[b, i, k] - Y[b, j, k]) for k in range(d)) ** 2) for b, i, j in R])
    else:
        def kl(b, i, j):
            return sum(Y[b, j, k] * (ctx.log(Y[b, j, k]) - ctx.log(X[b, i, k])) for k in range(d))
        eps = 0 if ctx.sym else 1e-12
        M = ctx.ot.batch._linear.dist_kl_batch(X, Y, eps=eps) if not single else ctx.ot.batch._linear.dist_kl_batch(X, X, eps=eps)
        ctx.check("divergences", [ctx.eq(M[r], kl(*r)) for r in R])
        M = ob.dist_batch(X, *a2, metric="kl")
        e = ctx.num("1/10000000000")
        ctx.check("divergences by name", [ctx.eq(M[b, i, j], sum(Y[b, j, k] * (ctx.log(Y[b, j, k] + e) - ctx.log(X[b, i, k] + e)) for k in range(d))) for b, i, j in R])
        M = ctx.ot.batch._linear.dist_kl_batch(ctx.np.log(X), Y, logits_X=True, eps=eps)
        ctx.check("divergences from logits", [ctx.eq(M[r], kl(*r)) for r in R])
    ctx.check("inputs kept", [ctx.eq(X, X0), ctx.eq(Y, Y0)])


def scal(ctx, K, a, b, its, n, m):
    """Sinkhorn scalings of one problem"""
    v = [ctx.num(1)] * m
    for _ in range(its):
        u = [a[i] / sum(K[i][j] * v[j] for j in range(m)) for i in range(n)]
        v = [b[j] / sum(K[i][j] * u[i] for i in range(n)) for j in range(m)]
    return u, v


def sinkhorn(ctx, solver, its, n=2, m=2, B=2, given=True, reg_type="entropy", grad="envelope", few=None):
    K = ten(ctx, "K", B, n, m, few=few, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((K > 1e-3).all()))
    if given == "sym":
        a, b = wts(ctx, "a", B, n), cw(ctx, B, m)
        if not ctx.sym:
            ctx.assume(bool((a > 1e-3).all()))
    elif given:
        a, b = cw(ctx, B, n), cw(ctx, B, m)
    else:
        a = b = None
    A = a if a is not None else ctx.pack([[ctx.num(1) / n] * n] * B)
    Bw = b if b is not None else ctx.pack([[ctx.num(1) / m] * m] * B)
    reg = ctx.num("1/2")
    M = -reg * ctx.np.log(K)
    M0 = ctx.snapshot(M)
    res = ctx.ot.batch.solve_batch(M, reg, a, b, max_iter=its, tol=-1, solver=solver, reg_type=reg_type, grad=grad)
    P, pots = res.plan, res.potentials
    for k in range(B):
        u, v = scal(ctx, [[K[k, i, j] for j in range(m)] for i in range(n)], [A[k, i] for i in range(n)], [Bw[k, j] for j in range(m)], its, n, m)
        ref = [[u[i] * K[k, i, j] * v[j] for j in range(m)] for i in range(n)]
        ctx.check("plan of problem %d" % k, ctx.eq(P[k], ctx.pack(ref)))
        lin = sum(M[k, i, j] * ref[i][j] for i in range(n) for j in range(m))
        ctx.check("linear value of problem %d" % k, ctx.eq(res.value_linear[k], lin))
        if reg_type.lower() == "entropy":
            pen = sum(ref[i][j] * ctx.log(ref[i][j]) for i in range(n) for j in range(m))
        else:
            pen = sum(ref[i][j] * (ctx.log(ref[i][j]) - ctx.log(A[k, i] * Bw[k, j])) for i in range(n) for j in range(m))
        ctx.check("value of problem %d" % k, ctx.eq(res.value[k], lin + reg * pen))
        if solver == "sinkhorn":
            ctx.check("scalings of problem %d" % k, [ctx.eq(pots[0][k], ctx.pack(u)), ctx.eq(pots[1][k], ctx.pack(v))])
        else:
            ctx.check("log scalings of problem %d" % k, [ctx.eq(ctx.np.exp(pots[0][k]), ctx.pack(u)), ctx.eq(ctx.np.exp(pots[1][k]), ctx.pack(v))])
    ctx.check("number of iterations", res.log["n_iter"] == its - 1)
    ctx.check("costs kept", ctx.eq(M, M0))


def samples(ctx, solver):
    """solving from samples is solving with the batched cost"""
    X, Y = ten(ctx, "x", 2, 2, 1, few=3, lo=-1, hi=1), ten(ctx, "y", 2, 2, 1, few=3, lo=-1, hi=1)
    a, b = cw(ctx, 2, 2), cw(ctx, 2, 2)
    seen = []
    mod = ctx.ot.batch._linear
    out = object()
    ctx.patch(mod, "solve_batch", lambda M, reg, **k: seen.append((M, reg, k)) or out)
    res = mod.solve_sample_batch(X, Y, ctx.num("1/2"), a=a, b=b, metric="minkowski", p=1, max_iter=1, tol=-1, solver=solver, reg_type="kl", grad="detach")
    M, reg, k = seen[0]
    ctx.check("cost of the samples", [ctx.eq(M[t, i, j], abs(X[t, i, 0] - Y[t, j, 0])) for t in range(2) for i in range(2) for j in range(2)])
    ctx.check("options handed over", reg == ctx.num("1/2") and k["max_iter"] == 1 and k["tol"] == -1 and k["solver"] == solver and k["reg_type"] == "kl" and k["grad"] == "detach" and k["a"] is a and k["b"] is b)
    ctx.check("its result", res is out)


def stop(ctx, solver, n=2):
    """iterations end only when every problem of the batch satisfies its marginals"""
    B = 2
    k0, k1 = ctx.real("k0", pos=True, hi=2), ctx.real("k1", pos=True, hi=2)
    K = ctx.pack([[[k0, ctx.num(1)], [ctx.num("1/2"), ctx.num(1)]], [[ctx.num(1), ctx.num(1)], [ctx.num("1/3"), k1]]])
    if not ctx.sym:
        ctx.assume(bool((K > 1e-3).all()))
    a, b = cw(ctx, B, n), cw(ctx, B, n)
    tol = ctx.num("1/20")
    reg = ctx.num(1)
    M = -reg * ctx.np.log(K)
    res = ctx.ot.batch.solve_batch(M, reg, a, b, max_iter=3, tol=tol, solver=solver)
    it = res.log["n_iter"]
    errs = []
    for k in range(B):
        Kk, ak, bk = [[K[k, i, j] for j in range(n)] for i in range(n)], [a[k, i] for i in range(n)], [b[k, j] for j in range(n)]
        u, v = scal(ctx, Kk, ak, bk, 1, n, n)
        errs.append(sum((sum(u[i] * Kk[i][j] * v[j] for j in range(n)) - ak[i]) ** 2 for i in range(n)))
        u, v = scal(ctx, Kk, ak, bk, it + 1, n, n)
        ctx.check("plan %d after the reported iterations" % k, ctx.eq(res.plan[k], ctx.pack([[u[i] * Kk[i][j] * v[j] for j in range(n)] for i in range(n)])))
    if it == 0:
        ctx.check("stopped when all problems are solved", [ctx.le(e, tol * tol) for e in errs])
    else:
        ctx.check("went on while a problem is not solved", ctx.any([ctx.le(tol * tol, e) for e in errs]))
        ctx.check("iteration limit", it == 2)


def loss_l(ctx, kind, x, y):
    """x, y: lists of features"""
    if kind == "sqeuclidean":
        return sum((p - q) ** 2 for p, q in zip(x, y))
    if kind == "logits":
        return sum(q * (ctx.log(q) - p) for p, q in zip(x, y))
    return sum(q * (ctx.log(q) - ctx.log(p)) for p, q in zip(x, y))


def feats(C, t, i, j):
    return [C[t, i, j]] if C.ndim == 3 else [C[t, i, j, k] for k in range(C.shape[3])]


def structures(ctx, kind, B, n, m, d, symmetric, few):
    sh = () if d is None else (d,)
    pos = kind == "kl"
    kw1 = dict(pos=True, hi=2) if pos else dict(lo=-2, hi=2)
    kw2 = dict(pos=True, hi=2) if kind in ("kl", "logits") else dict(lo=-2, hi=2)
    C1, C2 = ten(ctx, "c", B, n, n, *sh, few=few, **kw1), ten(ctx, "e", B, m, m, *sh, few=few, **kw2)
    if symmetric:
        C1, C2 = [ctx.pack([[[C[t, min(i, j), max(i, j)] if d is None else list(C[t, min(i, j), max(i, j)]) for j in range(C.shape[1])] for i in range(C.shape[1])] for t in range(B)]) for C in (C1, C2)]
    if not ctx.sym and kind in ("kl", "logits"):
        ctx.assume(bool((C2 > 1e-3).all()) and (kind != "kl" or bool((C1 > 1e-3).all())))
    return C1, C2


def product(ctx, kind, C1, C2, T, t, i, j, n, m):
    """(L x T)_ij, symmetrised over the two positions of the pair"""
    return sum((loss_l(ctx, kind, feats(C1, t, i, k), feats(C2, t, j, l)) + loss_l(ctx, kind, feats(C1, t, k, i), feats(C2, t, l, j))) * T[t, k, l] for k in range(n) for l in range(m)) / 2


def tensor(ctx, kind, n=2, m=2, d=None, symmetric=False, marg=True, few=None, B=2):
    """the cost tensor and its product with any plan"""
    q = ctx.ot.batch._quadratic
    C1, C2 = structures(ctx, kind, B, n, m, d, symmetric, few)
    T = ten(ctx, "t", B, n, m, few=few, lo=0, hi=1)
    a, b = (ctx.np.sum(T, axis=2), ctx.np.sum(T, axis=1)) if marg else (wts(ctx, "a", B, n), wts(ctx, "b", B, m))
    C10, C20, T0 = ctx.snapshot(C1), ctx.snapshot(C2), ctx.snapshot(T)
    loss, logits = ("sqeuclidean", None) if kind == "sqeuclidean" else ("kl", kind == "logits")
    L = q.tensor_batch(a, b, C1, C2, symmetric=symmetric, loss=loss, logits=logits)
    ref = [[[product(ctx, kind, C1, C2, T, t, i, j, n, m) for j in range(m)] for i in range(n)] for t in range(B)]
    P = q.tensor_product_batch(L, T, symmetric=symmetric, recompute_const=not marg)
    ctx.check("tensor product", ctx.eq(P, ctx.pack(ref)))
    val = [sum(ref[t][i][j] * T[t, i, j] for i in range(n) for j in range(m)) for t in range(B)]
    ctx.check("quadratic loss", ctx.eq(q.loss_quadratic_batch(L, T, recompute_const=not marg, symmetric=symmetric), ctx.pack(val)))
    ctx.check("quadratic loss of samples", ctx.eq(q.loss_quadratic_samples_batch(a, b, C1, C2, T, loss=loss, logits=logits, recompute_const=not marg), ctx.pack(val)))
    ctx.check("inputs kept", [ctx.eq(C1, C10), ctx.eq(C2, C20), ctx.eq(T, T0)])


def gromov(ctx, kind="sqeuclidean", its=1, d=None, sym=False, fused=False, start=True, given=True, n=2, m=2, few=None):
    """each outer step is the proximal problem at the current plan; values are those of the returned plan"""
    q = ctx.ot.batch._quadratic
    B = 2
    C1, C2 = structures(ctx, kind, B, n, m, d, sym, few)
    if not sym:
        # clearly asymmetric or exactly symmetric: the automatic test has a relative tolerance of 1e-5
        x, y = (C1[0, 0, 1], C1[0, 1, 0]) if C1.ndim == 3 else (C1[0, 0, 1, 0], C1[0, 1, 0, 0])
        ctx.assume(ctx.any([ctx.le(x + ctx.num("1/10"), y), ctx.le(y + ctx.num("1/10"), x)]))
    a, b = (cw(ctx, B, n), cw(ctx, B, m)) if given else (None, None)
    A = a if given else ctx.pack([[ctx.num(1) / n] * n] * B)
    Bw = b if given else ctx.pack([[ctx.num(1) / m] * m] * B)
    M = ten(ctx, "M", B, n, m, few=few, lo=0, hi=2) if fused else None
    alpha = ctx.real("alpha", lo=0, hi=1) if fused else None
    reg = ctx.num("1/2")
    T0 = ten(ctx, "s", B, n, m, few=2, pos=True, hi=1) if start else None
    if not ctx.sym and start:
        ctx.assume(bool((T0 > 1e-3).all()))
    calls = []

    def inner(K, a, b, nx=None, max_iter=None, tol=None, grad=None):
        k = len(calls)
        logs = ten(ctx, "g%d" % k, B, n, m, few=2, pos=True, hi=1)
        out = {"T": logs, "log_T": ctx.np.log(logs), "n_iters": 3, "potentials": ("f%d" % k, "g%d" % k)}
        calls.append((K, a, b, max_iter, tol, grad, logs))
        return out
    ctx.patch(q, "bregman_log_projection_batch", inner)
    tol = -1 if its > 1 else ctx.num("1/100")
    loss, logits = ("sqeuclidean", None) if kind == "sqeuclidean" else ("kl", kind == "logits")
    ins = [C1, C2] + [x for x in (M, T0) if x is not None]
    keep = [ctx.snapshot(x) for x in ins]
    res = q.solve_gromov_batch(C1, C2, reg=reg, a=a, b=b, loss=loss, M=M, alpha=alpha, T_init=T0, max_iter=its, tol=tol, max_iter_inner=7, tol_inner=ctx.num("1/8"), grad="detach", logits=logits)
    ctx.check("number of steps", len(calls) == its and res.log["n_iter"] == its - 1)
    T = T0 if start else ctx.pack([[[A[t, i] * Bw[t, j] for j in range(m)] for i in range(n)] for t in range(B)])
    al = alpha if fused else ctx.num(1)
    for k, (K, ca, cb, mi, tl, gr, new) in enumerate(calls):
        ctx.check("step %d: options" % k, [mi == 7, ctx.eq(tl, ctx.num("1/8")), gr == "detach", ctx.eq(ca, A), ctx.eq(cb, Bw)])
        conds = []
        for t in range(B):
            for i in range(n):
                for j in range(m):
                    # constants of the decomposable loss use the prescribed marginals
                    quad = -product_h(ctx, kind, C1, C2, T, t, i, j, n, m) + const(ctx, kind, C1, C2, A, Bw, t, i, j, n, m)
                    g = 2 * al * quad + ((1 - al) * M[t, i, j] if fused else 0)
                    conds.append(ctx.eq(K[t, i, j], -g / reg + ctx.log(T[t, i, j])))
        ctx.check("step %d: linearised cost" % k, conds)
        T = new
    ctx.check("last plan", ctx.eq(res.plan, T))
    for t in range(B):
        quad = sum(product(ctx, kind, C1, C2, T, t, i, j, n, m) * T[t, i, j] for i in range(n) for j in range(m))
        lin = sum(M[t, i, j] * T[t, i, j] for i in range(n) for j in range(m)) if fused else ctx.num(0)
        ctx.check("values of problem %d" % t, [ctx.eq(res.value_quad[t], al * quad), ctx.eq(res.value_linear[t], (1 - al) * lin), ctx.eq(res.value[t], al * quad + (1 - al) * lin)])
    ctx.check("potentials of the last step", res.potentials == ("f%d" % (its - 1), "g%d" % (its - 1)))
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in zip(ins, keep)])


def hh(ctx, kind, x, y):
    if kind == "sqeuclidean":
        return sum(2 * p * q for p, q in zip(x, y))
    if kind == "logits":
        return sum(p * q for p, q in zip(x, y))
    return sum(ctx.log(p) * q for p, q in zip(x, y))


def product_h(ctx, kind, C1, C2, T, t, i, j, n, m):
    return sum((hh(ctx, kind, feats(C1, t, i, k), feats(C2, t, j, l)) + hh(ctx, kind, feats(C1, t, k, i), feats(C2, t, l, j))) * T[t, k, l] for k in range(n) for l in range(m)) / 2


def const(ctx, kind, C1, C2, A, Bw, t, i, j, n, m):
    def f1(x):
        return sum(p * p for p in x) if kind == "sqeuclidean" else 0

    def f2(y):
        return sum(p * p for p in y) if kind == "sqeuclidean" else sum(p * ctx.log(p) for p in y)
    return sum((f1(feats(C1, t, i, k)) + f1(feats(C1, t, k, i))) * A[t, k] for k in range(n)) / 2 + sum((f2(feats(C2, t, j, l)) + f2(feats(C2, t, l, j))) * Bw[t, l] for l in range(m)) / 2


def gromov_stop(ctx):
    """the outer loop ends only when no plan of the batch moved on average by the tolerance"""
    q = ctx.ot.batch._quadratic
    C = ctx.pack([[[0, 1], [1, 0]], [[0, 2], [2, 0]]]) * ctx.num(1)
    S = ctx.pack([[["1/4", "1/4"], ["1/4", "1/4"]]] * 2) if False else ctx.pack([[[ctx.num("1/4")] * 2] * 2] * 2)
    N = ten(ctx, "g", 2, 2, 2, pos=True, hi=1)
    if not ctx.sym:
        ctx.assume(bool((N > 1e-3).all()))
    n = [0]

    def inner(K, a, b, **k):
        n[0] += 1
        return {"T": N, "log_T": ctx.np.log(N), "n_iters": 0, "potentials": None}
    ctx.patch(q, "bregman_log_projection_batch", inner)
    tol = ctx.num("1/10")
    res = q.solve_gromov_batch(C, C, reg=ctx.num(1), symmetric=True, T_init=S, max_iter=5, tol=tol)
    moved = [sum(abs(N[t, i, j] - S[t, i, j]) for i in range(2) for j in range(2)) / 4 for t in range(2)]
    if n[0] == 1:
        ctx.check("every plan is stable", [ctx.le(x, tol) for x in moved])
    else:
        ctx.check("some plan moved", ctx.any([ctx.le(tol, x) for x in moved]))
        ctx.check("stable at the second step", n[0] == 2)
    ctx.check("iteration count", res.log["n_iter"] == n[0] - 1)


CASES = []
for me in ("sqeuclidean", "euclidean", "minkowski", "kl"):
    CASES += [Case("dist_" + me, dist, metric=me, few=3 if me == "minkowski" else None), Case("dist_%s_23" % me, dist, metric=me, B=1, n=2, m=3, d=1), Case("dist_%s_self" % me, dist, metric=me, single=True, d=1 if me == "minkowski" else 2)]
for sv in ("sinkhorn", "log_sinkhorn"):
    o = dict(opt_lazymax=False)
    CASES += [Case("%s_1" % sv, sinkhorn, solver=sv, its=1, **o), Case("%s_1_23" % sv, sinkhorn, solver=sv, its=1, n=2, m=3, few=2, **o), Case("%s_1_32" % sv, sinkhorn, solver=sv, its=1, n=3, m=2, few=2, given=False, **o),
              Case("%s_2" % sv, sinkhorn, solver=sv, its=2, few=3, **o), Case("%s_3" % sv, sinkhorn, solver=sv, its=3, few=7, tier="thorough", **o), Case("%s_w" % sv, sinkhorn, solver=sv, its=1, given="sym", few=3, **o),
              Case("%s_kl" % sv, sinkhorn, solver=sv, its=1, reg_type="KL", few=2, **o), Case("%s_detach" % sv, sinkhorn, solver=sv, its=1, grad="detach", few=4, **o),
              Case("%s_samples" % sv, samples, solver=sv, **o), Case("%s_stop" % sv, stop, solver=sv, **o)]
for kd in ("sqeuclidean", "kl", "logits"):
    dd = None if kd == "sqeuclidean" else 1
    CASES += [Case("tensor_%s" % kd, tensor, kind=kd, d=dd, B=1), Case("tensor_%s_sym" % kd, tensor, kind=kd, d=dd, symmetric=True, B=1), Case("tensor_%s_free" % kd, tensor, kind=kd, d=dd, marg=False, few=2),
              Case("tensor_%s_d2" % kd, tensor, kind=kd, d=2, few=3), Case("tensor_%s_23" % kd, tensor, kind=kd, d=dd, n=2, m=3, few=3),
              Case("gw_%s" % kd, gromov, kind=kd, d=dd, few=2), Case("gw_%s_sym" % kd, gromov, kind=kd, d=dd, sym=True, few=2), Case("fgw_%s" % kd, gromov, kind=kd, d=dd, fused=True, few=2), Case("gw_%s_2" % kd, gromov, kind=kd, d=dd, its=2, few=3),
              Case("gw_%s_init" % kd, gromov, kind=kd, d=dd, start=False, few=2), Case("gw_%s_unif" % kd, gromov, kind=kd, d=dd, start=False, given=False, fused=True, few=3), Case("gw_%s_23" % kd, gromov, kind=kd, d=dd, n=2, m=3, few=4), Case("gw_%s_d2" % kd, gromov, kind=kd, d=2, few=3)]
CASES.append(Case("gw_stop", gromov_stop))
for c in CASES:
    if c.name.startswith(("gw_", "fgw_", "dist_mink")):
        c.opts["lazymax"] = True
BOUNDS = "batches of one or two problems of size 2x2, 2x3 and 3x2, edge features of dimension 1 and 2, one to three inner or outer iterations"
STUBS = ["the inner Bregman projection of the batched Gromov-Wasserstein solver is a recorder returning free positive plans; it is itself checked in the sinkhorn cases"]
