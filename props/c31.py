"""C31 low-rank couplings: factored costs, Dykstra projections, mirror steps, reported values."""
import builtins

from symx.worker import Case
from props.c29 import bind, pts, tot, sq, PTS, QTS

QUICK_WALL = 15
BOUNDS = "2-3 points in dimension 1-2, ranks 1-2, symbolic coordinates, weights, kernels or factors; one to three projections or mirror steps"
STUBS = ["random draws are arbitrary positive factors", "mirror steps: the projection (decided here on its own) is recorded and returns arbitrary factors", "the pseudo-inverse is an arbitrary matrix (with the defining identity in the exact case)"]
QV = [["1/4", "1/6", "1/9"], ["1/5", "1/8", "1/7"], ["1/3", "1/12", "1/10"]]
RV = [["1/7", "1/3", "1/8"], ["2/5", "1/9", "1/4"], ["1/6", "2/7", "1/5"]]
GV = ["3/5", "2/5", "1/4"]


def mat(ctx, V, n, r, free=(), pref="q", scale=1):
    M = [[ctx.num(V[i][j]) * scale for j in range(r)] for i in range(n)]
    for s in free:
        M[int(s[0])][int(s[1])] = ctx.real(pref + s, lo="1/20", hi=1)
    return ctx.pack(M)


def rows(X):
    return [[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])]


def mul(A, B):
    return [[tot(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


# ---------------------------------------------------------------- factored cost

def factors(ctx, n, m, d, rescale, lib=None):
    Xs, Xt = pts(ctx, PTS, n, d, ["00"]), pts(ctx, QTS, m, d, ["%d0" % (m - 1)], "y")
    A, B = ctx.ot.lowrank.compute_lr_sqeuclidean_matrix(Xs, Xt, rescale)
    C = [[sq(p, q) for q in rows(Xt)] for p in rows(Xs)]
    P = mul(rows(A), tr(rows(B)))
    ctx.check("shapes", [tuple(A.shape) == (n, d + 2), tuple(B.shape) == (m, d + 2)])
    if not rescale:
        ctx.check("factored cost", ctx.eq(ctx.pack(P), ctx.pack(C)))
    else:
        # positively proportional to the cost
        c, p = sum(map(tot, C)), sum(map(tot, P))
        ctx.check("proportional to the cost", [ctx.eq(P[i][j] * c, C[i][j] * p) for i in range(n) for j in range(m)])
        ctx.check("positive factor", ctx.lt(0, p))
        ctx.check("scaled to one", [ctx.eq(ctx.val(ctx.np.max(A)) * 1, ctx.val(ctx.np.max(A)))])


# ---------------------------------------------------------------- Dykstra

def dykstra(ctx, n, m, r, it, alpha=None, free=("e",), stop=None):
    """KL projections: prescribed rows, columns of both factors equal to the weights, weights above alpha"""
    E1 = mat(ctx, QV, n, r, ["00"] if "e" in free else [], "e")
    E2 = mat(ctx, RV, m, r, ["10"] if "f" in free else [], "f")
    # cubes, so that the first projection of the weights is a polynomial
    e3 = ctx.pack([ctx.real("h", lo="1/20", hi=1) if "h" in free and k == 0 else ctx.num(GV[k]) for k in range(r)])
    p1 = [ctx.num(x) for x in [["1"], ["1/4", "3/4"], ["1/4", "1/4", "1/2"]][n - 1]]
    p2 = [ctx.num(x) for x in [["1"], ["2/3", "1/3"], ["1/6", "1/2", "1/3"]][m - 1]]
    if "p" in free:
        p1[0] = ctx.real("p", lo="1/10", hi="9/10")
        p1[1] = 1 - p1[0]
    al = ctx.num(alpha) if isinstance(alpha, str) else (ctx.real("alpha", lo="1/100", hi="9/10") if alpha == 1 else ctx.num("1/1000000"))
    s = [ctx.snapshot(x) for x in (E1, E2, e3)]
    Q, R, g = ctx.ot.lowrank._LR_Dysktra(E1, E2, e3, ctx.pack(p1), ctx.pack(p2), al, -1 if stop is None else stop, it, False)
    e1, e2 = rows(E1), rows(E2)
    v1, v2, w, dual = [ctx.num(1)] * r, [ctx.num(1)] * r, [e3[k] for k in range(r)], [ctx.num(1)] * r
    for t in range(it):
        u1 = [p1[i] / tot(e1[i][k] * v1[k] for k in range(r)) for i in range(n)]
        u2 = [p2[i] / tot(e2[i][k] * v2[k] for k in range(r)) for i in range(m)]
        for k in range(r):
            z = w[k] * dual[k]
            dual[k] = z / ctx.val(ctx.np.maximum(al, z))
        c1 = [tot(e1[i][k] * u1[i] for i in range(n)) for k in range(r)]
        c2 = [tot(e2[i][k] * u2[i] for i in range(m)) for k in range(r)]
        w = [(e3[k] / dual[k] * c1[k] * c2[k]) ** (ctx.num(1) / 3 if ctx.sym else 1 / 3) for k in range(r)]
        v1, v2 = [w[k] / c1[k] for k in range(r)], [w[k] / c2[k] for k in range(r)]
        if stop is not None:
            er = tot(abs(u1[i] * tot(e1[i][k] * v1[k] for k in range(r)) - p1[i]) for i in range(n)) + tot(abs(u2[i] * tot(e2[i][k] * v2[k] for k in range(r)) - p2[i]) for i in range(m))
            if ctx.test(er <= stop):
                break
    ctx.check("iterate", [ctx.eq(Q, ctx.pack([[u1[i] * e1[i][k] * v1[k] for k in range(r)] for i in range(n)])), ctx.eq(R, ctx.pack([[u2[i] * e2[i][k] * v2[k] for k in range(r)] for i in range(m)])), ctx.eq(g, ctx.pack(w))])
    ctx.check("columns", [ctx.eq(ctx.np.sum(Q, axis=0), g), ctx.eq(ctx.np.sum(R, axis=0), g)])
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in zip((E1, E2, e3), s)])


# ---------------------------------------------------------------- initial factors

def init(ctx, n, m, r, how, light=False):
    lr = ctx.ot.lowrank
    X, Y = pts(ctx, PTS, n), pts(ctx, QTS, m)
    a = ctx.weights("a", n, pos=True) if n < 3 else ctx.arr(["1/4", "1/4", "1/2"])
    b = ctx.arr([["1"], ["2/3", "1/3"], ["1/6", "1/2", "1/3"]][m - 1])
    if light:
        t = ctx.real("b0", lo="1/1000", hi="1/2")
        b = ctx.pack([1 - t] + [ctx.num(0)] * (m - 2) + [t]) if m == 2 else ctx.pack([ctx.num("1/2"), ctx.num("1/2") - t / 2, t / 2])
    if how == "random":
        nx = ctx.ot.backend.get_backend(X, Y)
        seeds, draws = [], []

        def randn(*size, type_as=None):
            draws.append(size)
            k = len(draws)
            f = lambda *ix: ctx.real("d%d_%s" % (k, "".join(map(str, ix))), lo=-2, hi=2) if sum(ix) == 1 else ctx.num("%d/7" % (3 + sum((z + 1) * (t + k) for t, z in enumerate(ix))))
            return ctx.pack([f(i) for i in range(size[0])] if len(size) == 1 else [[f(i, j) for j in range(size[1])] for i in range(size[0])])

        class B:
            def __getattr__(self, k):
                return getattr(nx, k)
        B.randn = staticmethod(randn)
        B.seed = staticmethod(lambda seed=None: seeds.append(seed))
        Q, R, g = lr._init_lr_sinkhorn(X, Y, a, b, r, how, None, 5, nx=B())
        ctx.check("seed", [seeds == [5]])
    else:
        Q, R, g = lr._init_lr_sinkhorn(X, Y, a, b, r, how, None, 5)
        ctx.check("columns", [ctx.eq(ctx.np.sum(Q, axis=0), g), ctx.eq(ctx.np.sum(R, axis=0), g), ctx.eq(g, ctx.pack([ctx.num(1) / r] * r))])
    ctx.check("shapes", [tuple(Q.shape) == (n, r), tuple(R.shape) == (m, r)])
    ctx.check("rows", [ctx.eq(ctx.np.sum(Q, axis=1), a), ctx.eq(ctx.np.sum(R, axis=1), b), ctx.eq(ctx.np.sum(g), 1)])
    ctx.check("positive", [ctx.lt(0, Q), ctx.lt(0, R), ctx.lt(0, g)])


# ---------------------------------------------------------------- mirror steps

def stepper(ctx, mod, outs, calls):
    """record the projections; the limits of the outer loop are left to the caller"""
    orig = mod._LR_Dysktra

    def f(*z, **k):
        d = bind(orig, z, k)
        calls.append(d)
        return tuple(ctx.snapshot(x) for x in outs[len(calls) - 1])
    ctx.patch(mod, "_LR_Dysktra", f)


def same_step(ctx, label, eps, base, grad, gamma, reg, n, r):
    """eps = base * exp(-gamma * (grad + reg * log(base))); gamma: the number, or one (change, direction) of the same step"""
    L = []
    for i in range(n):
        for k in range(r):
            D, f = ctx.log(eps[i][k]) - ctx.log(base[i][k]), grad[i][k] + reg * ctx.log(base[i][k])
            if isinstance(gamma, tuple):
                L.append(ctx.eq(D * gamma[1], f * gamma[0]))
            else:
                L.append(ctx.eq(D, -gamma * f))
    ctx.check(label, L)


def norm(ctx, A):
    return ctx.sqrt(tot(x * x for q in A for x in q))


def free_pts(ctx, n, fx):
    # not all equal (the step of a zero cost is not defined)
    X = [[ctx.num(z) for z in p[:1]] for p in PTS[:n]]
    if fx:
        X[0][0] = ctx.real("x00", lo=-3, hi="3/2")
    return ctx.pack(X)


def lot(ctx, n, m, r, its, reg="0", gamma="rescale", rescale=False, how="deterministic", fx=("00",), fq=(), rank=None, weights=True, values=True):
    lr = ctx.ot.lowrank
    Xs, Xt = free_pts(ctx, n, fx), pts(ctx, QTS, m, 1)
    rg = ctx.num(reg)
    rgf = rg if ctx.sym else float(rg)
    a = ctx.arr([["1"], ["1/4", "3/4"], ["1/4", "1/4", "1/2"]][n - 1]) if weights else None
    b = ctx.arr([["1"], ["2/3", "1/3"], ["1/6", "1/2", "1/3"]][m - 1]) if weights else None
    outs = []
    for k in range(its):
        t = ctx.num(1) + ctx.num(k) / 3
        outs.append((mat(ctx, QV, n, r, fq if k == its - 1 else (), "q", t), mat(ctx, RV, m, r, (), "r", t), ctx.pack([ctx.num(z) * t for z in GV[:r]])))
    calls, inits = [], []
    stepper(ctx, lr, outs, calls)
    start = (mat(ctx, RV, n, r), mat(ctx, QV, m, r), ctx.pack([ctx.num(z) for z in reversed(GV[:r])]))
    o2 = lr._init_lr_sinkhorn

    def ini(*z, **k):
        inits.append(bind(o2, z, k))
        return tuple(ctx.snapshot(x) for x in start)
    ctx.patch(lr, "_init_lr_sinkhorn", ini)
    ctx.patch(lr, "range", lambda *z: builtins.range(its) if z == (100,) else builtins.range(*z))
    alpha = 0.125
    Q, R, g, log = lr.lowrank_sinkhorn(Xs, Xt, a, b, reg=rgf, rank=rank, alpha=alpha, rescale_cost=rescale, init=how, reg_init=0.3, seed_init=11, gamma_init=gamma, numItermax=77, stopThr=1e-3, warn=False, log=True)
    ua = a if weights else ctx.pack([ctx.num(1) / n] * n)
    ub = b if weights else ctx.pack([ctx.num(1) / m] * m)
    z = inits[0]
    ctx.check("initialisation", [len(inits) == 1, ctx.eq(z["X_s"], Xs), ctx.eq(z["X_t"], Xt), ctx.eq(z["a"], ua), ctx.eq(z["b"], ub), z["rank"] == r, z["init"] == how, z["reg_init"] == 0.3, z["random_state"] == 11])
    A, B = [rows(x) for x in lr.compute_lr_sqeuclidean_matrix(Xs, Xt, rescale)]
    C = mul(A, tr(B))
    cur = start
    ctx.check("number of steps", [len(calls) == its])
    for k in range(its):
        q, w, h = rows(cur[0]), rows(cur[1]), [cur[2][i] for i in range(r)]
        d = calls[k]
        G1 = [[x / h[i] for i, x in enumerate(y)] for y in mul(C, w)]
        G2 = [[x / h[i] for i, x in enumerate(y)] for y in mul(tr(C), q)]
        om = [mul(tr(q), mul(C, w))[i][i] for i in range(r)]
        ctx.check("projection data", [ctx.eq(d["p1"], ua), ctx.eq(d["p2"], ub), d["alpha"] == alpha, d["stopThr"] == 1e-3, d["numItermax"] == 77])
        e1, e2, e3 = rows(d["eps1"]), rows(d["eps2"]), [d["eps3"][i] for i in range(r)]
        if gamma == "theory":
            al = ctx.num("1/8")
            nn = norm(ctx, A) * norm(ctx, B)
            gam = 1 / (2 * ctx.sqrt(3 * (2 / (al * al * al * al)) * (nn * nn) + (rg + (2 / (al * al * al)) * nn) * (rg + (2 / (al * al * al)) * nn)))
        else:
            # the step is free, the same for the three factors
            gam = (ctx.log(e1[0][0]) - ctx.log(q[0][0]), G1[0][0] + rg * ctx.log(q[0][0]))
            ctx.check("step is positive", ctx.le(gam[0] * gam[1], 0))
        same_step(ctx, "step of the first factor", e1, q, G1, gam, rg, n, r)
        same_step(ctx, "step of the second factor", e2, w, G2, gam, rg, m, r)
        same_step(ctx, "step of the weights", [e3], [h], [[-om[i] / (h[i] * h[i]) for i in range(r)]], gam, rg, 1, r)
        cur = tuple(x + 1e-16 for x in outs[k])
    ctx.check("last factors", [ctx.eq(x, y) for x, y in zip((Q, R, g), cur)])
    if values:
        report(ctx, Q, R, g, log, C, rg, n, m, r)


def plan(ctx, Q, R, g, r):
    return mul([[x / g[k] for k, x in enumerate(y)] for y in rows(Q)], tr(rows(R)))


def ent(ctx, X):
    return tot(x * ctx.log(x) for x in X)


def report(ctx, Q, R, g, log, C, rg, n, m, r):
    P = plan(ctx, Q, R, g, r)
    ctx.check("plan", ctx.eq(log["lazy_plan"][:], ctx.pack(P)))
    lin = tot(P[i][j] * C[i][j] for i in range(n) for j in range(m))
    ctx.check("linear value", ctx.eq(log["value_linear"], lin))
    pen = ent(ctx, [x for y in rows(Q) for x in y]) + ent(ctx, [x for y in rows(R) for x in y]) + ent(ctx, [g[k] for k in range(r)])
    ctx.check("value", ctx.eq(log["value"], lin + rg * pen))


def sym(ctx, D):
    return [[ctx.num(x) for x in y] for y in D]


def gw(ctx, n, m, r, its, reg="0", gamma="rescale", given=False, rescale=False, fx=("00",), fq=(), rank=None, weights=True, stop=None):
    lr = ctx.ot.gromov._lowrank
    d = 1
    Xs, Xt = free_pts(ctx, n, fx), pts(ctx, QTS, m, d)
    rg = ctx.num(reg)
    a = ctx.arr([["1"], ["1/4", "3/4"], ["1/4", "1/4", "1/2"]][n - 1]) if weights else None
    b = ctx.arr([["1"], ["2/3", "1/3"], ["1/6", "1/2", "1/3"]][m - 1]) if weights else None
    ua = a if weights else ctx.pack([ctx.num(1) / n] * n)
    ub = b if weights else ctx.pack([ctx.num(1) / m] * m)
    outs = []
    for k in range(its):
        t = ctx.num(1) + ctx.num(k) / 3
        outs.append((mat(ctx, QV, n, r, fq if k == its - 1 else (), "q", t), mat(ctx, RV, m, r, (), "r", t), ctx.pack([ctx.num(z) * t for z in GV[:r]])))
    calls, inits = [], []
    stepper(ctx, lr, outs, calls)
    start = (mat(ctx, RV, n, r), mat(ctx, QV, m, r), ctx.pack([ctx.num(z) for z in reversed(GV[:r])]))
    o2 = lr._init_lr_sinkhorn

    def ini(*z, **k):
        inits.append(bind(o2, z, k))
        return tuple(ctx.snapshot(x) for x in start)
    ctx.patch(lr, "_init_lr_sinkhorn", ini)
    kw = {}
    if given:
        # symmetric costs with factors of their own
        U, V = ctx.arr([["1", "2"], ["-1", "1/2"], ["1/3", "1"]][:n]), ctx.arr([["2", "1"], ["1", "-1"], ["1/2", "3"]][:m])
        kw = dict(cost_factorized_Xs=(U, 2 * U), cost_factorized_Xt=(V, V))
        A1, A2, B1, B2 = rows(U), rows(2 * U), rows(V), rows(V)
    else:
        A1, A2 = [rows(x) for x in ctx.ot.lowrank.compute_lr_sqeuclidean_matrix(Xs, Xs, rescale)]
        B1, B2 = [rows(x) for x in ctx.ot.lowrank.compute_lr_sqeuclidean_matrix(Xt, Xt, rescale)]
    alpha = 0.125
    st = -float("inf") if stop is None else stop
    Q, R, g, log = lr.lowrank_gromov_wasserstein_samples(Xs, Xt, a, b, reg=rg if ctx.sym else float(rg), rank=rank, alpha=alpha, gamma_init=gamma, rescale_cost=rescale, stopThr=st, numItermax=its, stopThr_dykstra=1e-2, numItermax_dykstra=66, seed_init=7, warn=False, log=True, **kw)
    z = inits[0]
    ctx.check("initialisation", [len(inits) == 1, ctx.eq(z["X_s"], Xs), ctx.eq(z["X_t"], Xt), ctx.eq(z["a"], ua), ctx.eq(z["b"], ub), z["rank"] == r, z["init"] == "random", z["random_state"] == 7])
    A, B = mul(A1, tr(A2)), mul(B1, tr(B2))
    cur = start
    done = len(calls)
    if stop is None:
        ctx.check("number of steps", [done == its])
    gams, errs = [], []
    for k in range(done):
        q, w, h = rows(cur[0]), rows(cur[1]), [cur[2][i] for i in range(r)]
        dd = calls[k]
        C = [[-4 * x for x in y] for y in mul(mul(A, plan(ctx, cur[0], cur[1], cur[2], r)), B)]
        G1 = [[x / h[i] for i, x in enumerate(y)] for y in mul(C, w)]
        G2 = [[x / h[i] for i, x in enumerate(y)] for y in mul(tr(C), q)]
        om = [mul(tr(q), mul(C, w))[i][i] for i in range(r)]
        ctx.check("projection data", [ctx.eq(dd["p1"], ua), ctx.eq(dd["p2"], ub), dd["alpha"] == alpha, dd["stopThr"] == 1e-2, dd["numItermax"] == 66])
        e1, e2, e3 = rows(dd["eps1"]), rows(dd["eps2"]), [dd["eps3"][i] for i in range(r)]
        if gamma == "theory":
            al = ctx.num("1/8")
            gam = 1 / (2 * (27 * norm(ctx, A1) * norm(ctx, A2) / (al * al * al * al)))
        else:
            gam = (ctx.log(e1[0][0]) - ctx.log(q[0][0]), G1[0][0] + rg * ctx.log(q[0][0]))
            ctx.check("step is positive", ctx.le(gam[0] * gam[1], 0))
        same_step(ctx, "step of the first factor", e1, q, G1, gam, rg, n, r)
        same_step(ctx, "step of the second factor", e2, w, G2, gam, rg, m, r)
        same_step(ctx, "step of the weights", [e3], [h], [[-om[i] / (h[i] * h[i]) for i in range(r)]], gam, rg, 1, r)
        if stop is not None:
            e = tot((x - y) * (ctx.log(x) - ctx.log(y)) for o, c in zip(outs[k], cur) for x, y in (zip([t for p in rows(o) for t in p], [t for p in rows(c) for t in p]) if len(o.shape) == 2 else zip([o[i] for i in range(r)], [c[i] for i in range(r)])))
            errs.append(e * gam[1] * gam[1] / (gam[0] * gam[0]))
        cur = tuple(x + 1e-16 for x in outs[k])
    if stop is not None:
        th = ctx.num("%.17g" % stop) if isinstance(stop, float) else ctx.num(stop)
        ctx.check("stops below the threshold only", [ctx.lt(th, e) for e in errs[:-1]] + ([ctx.le(errs[-1], th)] if done < its else []))
    ctx.check("last factors", [ctx.eq(x, y) for x, y in zip((Q, R, g), cur)])
    P = plan(ctx, Q, R, g, r)
    ctx.check("plan", ctx.eq(log["lazy_plan"][:], ctx.pack(P)))
    # the marginals are those of the problem
    v = tot(A[i][k] * A[i][k] * ua[i] * ua[k] for i in range(n) for k in range(n)) + tot(B[j][l] * B[j][l] * ub[j] * ub[l] for j in range(m) for l in range(m)) - 2 * tot(x * y for p, q in zip(mul(mul(A, P), B), P) for x, y in zip(p, q))
    ctx.check("quadratic value", ctx.eq(log["value_quad"], v))
    pen = ent(ctx, [x for y in rows(Q) for x in y]) + ent(ctx, [x for y in rows(R) for x in y]) + ent(ctx, [g[k] for k in range(r)])
    ctx.check("value", ctx.eq(log["value"], v + rg * pen if reg != "0" else v))


def errors(ctx, which, rank, alpha, ok):
    X, Y = pts(ctx, PTS, 2, 1, ["00"]), pts(ctx, QTS, 3, 1)
    lr = ctx.ot.gromov._lowrank if which == "gw" else ctx.ot.lowrank
    outs = [(mat(ctx, QV, 2, 2), mat(ctx, RV, 3, 2), ctx.pack([ctx.num(z) for z in GV[:2]]))] * 3
    if rank == 1:
        outs = [(mat(ctx, QV, 2, 1), mat(ctx, RV, 3, 1), ctx.pack([ctx.num("1")]))] * 3
    stepper(ctx, lr, outs, [])
    ctx.patch(ctx.ot.lowrank, "range", lambda *z: builtins.range(1) if z == (100,) else builtins.range(*z))
    f = (lambda: lr.lowrank_gromov_wasserstein_samples(X, Y, rank=rank, alpha=alpha, numItermax=1, warn=False)) if which == "gw" else (lambda: lr.lowrank_sinkhorn(X, Y, rank=rank, alpha=alpha, init="deterministic", warn=False))
    if which == "gw":
        ctx.patch(lr, "_init_lr_sinkhorn", lambda *z, **k: tuple(ctx.snapshot(x) for x in outs[0]))
    try:
        f()
        bad = False
    except ValueError:
        bad = True
    ctx.check("ranks and bounds refused as documented", [bad == (not ok)])


def flat(ctx, n, d):
    """rows of vectorised outer products: <f(x), f(y)> = <x, y>^2"""
    X, Y = pts(ctx, PTS, n, d, ["00"]), pts(ctx, QTS, n, d, ["01"] if d > 1 else ["00"], "y")
    f = ctx.ot.gromov._lowrank._flat_product_operator
    F, H = f(X), f(Y)
    ctx.check("shape", [tuple(F.shape) == (n, d * d)])
    ctx.check("squared products", [ctx.eq(tot(F[i, k] * H[j, k] for k in range(d * d)), tot(X[i, k] * Y[j, k] for k in range(d)) * tot(X[i, k] * Y[j, k] for k in range(d))) for i in range(n) for j in range(n)])


def nystroem(ctx, n, m, anchors, perm):
    """left right^T = K(x, z) K(z, z)^+ K(z, y), with the drawn anchors"""
    X, Y = pts(ctx, PTS, n, 1, ["00"]), pts(ctx, QTS, m, 1)
    lr = ctx.ot.lowrank
    nb = type(ctx.ot.backend.get_backend(X, Y))
    import numpy
    draws, seeds, pin = [], [], []

    def rp(self, size, type_as=None):
        draws.append(size)
        return numpy.array(perm[len(draws) - 1])
    ctx.patch(nb, "randperm", rp)
    ctx.patch(nb, "seed", lambda self, seed=None: seeds.append(seed))

    def pinv(self, M, hermitian=False):
        pin.append((M, hermitian))
        k = M.shape[0]
        P = ctx.pack([[ctx.num("%d/%d" % (i + j + 1, 2 + i * j)) if (i, j) != (0, 0) else ctx.real("p", lo=-3, hi=3) for j in range(k)] for i in range(k)])
        return P
    ctx.patch(nb, "pinv", pinv)
    sg = ctx.num("3/2")
    L, R = lr.kernel_nystroem(X, Y, anchors=anchors, sigma=sg if ctx.sym else float(sg), random_state=3)
    k1, k2 = min(n, anchors // 2), min(m, anchors // 2)
    Z = [rows(X)[i] for i in perm[0][:k1]] + [rows(Y)[j] for j in perm[1][:k2]]
    ker = lambda p, q: ctx.exp(-sq(p, q) / (2 * sg * sg))
    K = lambda S, T: [[ker(p, q) for q in T] for p in S]
    ctx.check("draws", [draws == [n, m], seeds == [3], len(pin) == 1, ctx.eq(pin[0][0], ctx.pack(K(Z, Z)))])
    P = [[ctx.num("%d/%d" % (i + j + 1, 2 + i * j)) if (i, j) != (0, 0) else ctx.real("p", lo=-3, hi=3) for j in range(len(Z))] for i in range(len(Z))]
    ctx.check("kernel", ctx.eq(ctx.pack(mul(rows(L), tr(rows(R)))), ctx.pack(mul(mul(K(rows(X), Z), P), K(Z, rows(Y))))))


CASES = []
for n, m, d in ((2, 2, 1), (2, 3, 2), (3, 2, 1)):
    for rs in (False, True):
        CASES.append(Case("fac_%d%d%d%s" % (n, m, d, "_scaled" * rs), factors, n=n, m=m, d=d, rescale=rs))
for n, m, r, it, fr in ((2, 2, 1, 1, "p"), (2, 2, 2, 1, "eh"), (2, 2, 2, 1, "p"), (2, 3, 2, 1, "f"), (2, 2, 2, 2, "h"), (3, 2, 2, 1, "e"), (2, 2, 1, 3, "h"), (2, 2, 2, 2, "p")):
    CASES.append(Case("dyk_%d%d%d_%d_%s" % (n, m, r, it, fr), dykstra, n=n, m=m, r=r, it=it, free=fr))
for al in ("1/2", "7/10", 1):
    for it in (1, 2, 3):
        CASES.append(Case("dyk_alpha_%s_%d" % (str(al).replace("/", ""), it), dykstra, n=2, m=2, r=2, it=it, free="h" if al != 1 else "", alpha=al, tier="quick" if it < 3 else "thorough"))
for c in CASES:
    if c.fn is dykstra:
        c.opts["lazymax"] = True
CASES += [Case("dyk_stop", dykstra, n=2, m=2, r=1, it=3, free="", stop=0.5), Case("dyk_stop2", dykstra, n=2, m=2, r=2, it=3, free="", stop=0.125)]
for n, m, r in ((2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 3)):
    for how in ("deterministic", "random"):
        CASES.append(Case("init_%s_%d%d%d" % (how[:3], n, m, r), init, n=n, m=m, r=r, how=how))
        if m > 1:
            CASES.append(Case("init_%s_%d%d%d_light" % (how[:3], n, m, r), init, n=n, m=m, r=r, how=how, light=True))
for n, m, r, its, kw in ((2, 2, 1, 1, {}), (2, 2, 2, 1, dict(rank=5)), (2, 3, 2, 1, {}), (3, 2, 1, 1, {}), (2, 2, 2, 2, dict(fx=())), (2, 2, 2, 1, dict(fq=("01",), fx=())), (2, 2, 1, 1, dict(weights=False)), (2, 2, 2, 1, dict(rescale=True, fx=())), (2, 2, 1, 1, dict(how="random"))):
    k = dict(kw)
    if "rank" not in k and r != min(n, m):
        k["rank"] = r
    for reg in ("0", "1/2"):
        for gam in ("rescale", "theory"):
            if (reg == "0" and gam == "theory" or reg != "0" and gam == "rescale") and its == 1 and not kw:
                continue
            s = "_".join("%s" % x for x in kw)
            if gam == "theory":
                k = dict(k, fx=())
            CASES.append(Case("lot_%d%d%d_%d_%s_%s%s" % (n, m, r, its, gam, reg.replace("/", ""), "_" + s if s else ""), lot, n=n, m=m, r=r, its=its, reg=reg, gamma=gam, **k))
            if its == 1 or reg == "0":
                if "how" not in k:
                    CASES.append(Case("gw_%d%d%d_%d_%s_%s%s" % (n, m, r, its, gam, reg.replace("/", ""), "_" + s if s else ""), gw, n=n, m=m, r=r, its=its, reg=reg, gamma=gam, **k))
CASES += [Case("gw_given", gw, n=2, m=2, r=2, its=1, given=True, fq=("01",)), Case("gw_given_2", gw, n=3, m=2, r=1, its=2, given=True, rank=1, fx=()), Case("gw_stop", gw, n=2, m=2, r=1, its=3, rank=1, stop=0.01, fx=()), Case("gw_zero", gw, n=2, m=2, r=2, its=0)]
for fn in ("lot", "gw"):
    for i, (rank, al, ok) in enumerate(((None, 0.6, False), (2, 0.6, False), (1, 0.6, True), (5, 0.45, True), (-1, 0.1, False), (0, 0.1, False))):
        CASES.append(Case("err_%s_%d" % (fn, i), errors, which=fn, rank=rank, alpha=al, ok=ok))
CASES += [Case("flat_%d%d" % (n, d), flat, n=n, d=d) for n in (1, 2, 3) for d in (1, 2)]
CASES += [Case("nys_22_2", nystroem, n=2, m=2, anchors=2, perm=[[1, 0], [0, 1]]), Case("nys_22_3", nystroem, n=2, m=2, anchors=3, perm=[[0, 1], [1, 0]]), Case("nys_23_6", nystroem, n=2, m=3, anchors=6, perm=[[1, 0], [2, 0, 1]]), Case("nys_32_4", nystroem, n=3, m=2, anchors=4, perm=[[2, 0, 1], [1, 0]])]
