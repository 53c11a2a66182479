"""C25 Gaussian and Gaussian-mixture OT: closed forms, mappings, barycenters."""
import math

from symx.worker import Case

PI = math.pi


class Roots:
    """model of the matrix square root: known positive definite roots, a fresh root otherwise"""

    def __init__(self, ctx):
        self.ctx, self.known, self.calls = ctx, [], []
        if ctx.sym:
            ctx.stub(ctx.ot.backend.NumpyBackend, "sqrtm", lambda nx, A: self.root(A))

    def add(self, A, R):
        self.known.append((A, R))

    def root(self, A):
        ctx = self.ctx
        if A.ndim > 2:
            return ctx.pack([[list(r) for r in self.root(A[i])] if A.ndim == 3 else [[list(r) for r in self.root(A[i][j])] for j in range(A.shape[1])] for i in range(A.shape[0])])
        n = A.shape[0]
        for B, R in self.known:
            if B.shape == A.shape and ctx.ident(A, B):
                return R
        if n == 1:
            return ctx.pack([[ctx.sqrt(A[0, 0])]])
        if all(ctx.ident(A[i, j], ctx.num(0)) for i in range(n) for j in range(n) if i != j):
            return ctx.pack([[ctx.sqrt(A[i, i]) if i == j else ctx.num(0) for j in range(n)] for i in range(n)])
        k = len(self.calls)
        R = ctx.pack(spd(ctx, "root%d_" % k, hi=4))
        ctx.assume(ctx.eq(mm(R, R), A))
        self.calls.append((A, R))
        return R


def mm(*X):
    r = X[0]
    for y in X[1:]:
        r = [[sum(r[i][k] * y[k][j] for k in range(len(y))) for j in range(len(y[0]))] for i in range(len(r))]
    return r


def tr(X):
    return sum(X[i][i] for i in range(len(X)))


def inv2(X):
    d = X[0][0] * X[1][1] - X[0][1] * X[1][0]
    return [[X[1][1] / d, -X[0][1] / d], [-X[1][0] / d, X[0][0] / d]]


def rows(A):
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


def spd(ctx, name, lo="1/2", hi=2):
    """positive definite 2x2 matrix; well conditioned so that replays on the real code are accurate"""
    a, c = ctx.real(name + "a", lo=ctx.num(lo), hi=hi), ctx.real(name + "c", lo=ctx.num(lo), hi=hi)
    b = ctx.real(name + "b", lo=ctx.num("-2/5"), hi=ctx.num("2/5"))
    return [[a, b], [b, c]]


def pair(ctx, roots, name, fixed=False):
    """covariances Cs = S^2 and Ct = T S^2 T: every pair of positive definite matrices is of this form,
    T being the optimal map; the roots are then polynomial"""
    S = spd(ctx, name + "S") if not fixed else [[ctx.num(1), ctx.num("1/3")], [ctx.num("1/3"), ctx.num("3/4")]]
    T = spd(ctx, name + "T")
    Cs, Ct = mm(S, S), mm(T, S, S, T)
    roots.add(ctx.pack(Cs), ctx.pack(S))
    roots.add(ctx.pack(mm(S, Ct, S)), ctx.pack(mm(S, T, S)))
    return S, T, Cs, Ct


def bures2(S, T, Cs, Ct):
    return tr(Cs) + tr(Ct) - 2 * tr(mm(S, T, S))


def mapping(ctx):
    r = Roots(ctx)
    S, T, Cs, Ct = pair(ctx, r, "")
    ms, mt = ctx.vec("ms", 2, lo=-2, hi=2), ctx.vec("mt", 2, lo=-2, hi=2)
    A, b, log = ctx.ot.gaussian.bures_wasserstein_mapping(ms, mt, ctx.pack(Cs), ctx.pack(Ct), log=True)
    ctx.check("linear part is the optimal map", ctx.eq(A, ctx.pack(T)))
    ctx.check("means are mapped", ctx.eq(ctx.pack([sum(ms[k] * A[k, j] for k in range(2)) + b[j] for j in range(2)]), mt))
    ctx.check("logged root", ctx.eq(log["Cs12"], ctx.pack(S)))
    A2, b2 = ctx.ot.gaussian.bures_wasserstein_mapping(ms, mt, ctx.pack(Cs), ctx.pack(Ct))
    ctx.check("log flag", [ctx.eq(A2, A), ctx.eq(b2, b)])


def distance(ctx, mode):
    r = Roots(ctx)
    g = ctx.ot.gaussian
    n = 1 if mode == "single" else 2
    P = [pair(ctx, r, "p%d" % i, fixed=(i == 1)) for i in range(n)]
    ms, mt = ctx.mat("ms", n, 2, lo=-2, hi=2), ctx.mat("mt", n, 2, lo=-2, hi=2)

    def dm(i, j):
        return sum((ms[i, c] - mt[j, c]) * (ms[i, c] - mt[j, c]) for c in range(2))
    if mode == "single":
        Cs, Ct = ctx.pack(P[0][2]), ctx.pack(P[0][3])
        B, log = g.bures_distance(Cs, Ct, log=True)
        w, logw = g.bures_wasserstein_distance(ms[0], mt[0], Cs, Ct, log=True)
        w2, B2 = g.bures_wasserstein_distance(ms[0], mt[0], Cs, Ct), g.bures_distance(Cs, Ct)
        e = bures2(*P[0])
        ctx.check("Bures distance", [ctx.eq(B * B, e), ctx.le(0, B)])
        ctx.check("Bures-Wasserstein distance", [ctx.eq(w * w, e + dm(0, 0)), ctx.le(0, w)])
        ctx.check("log flag", [ctx.eq(w2, w), ctx.eq(B2, B), ctx.eq(logw["Cs12"], ctx.pack(P[0][0]))])
        return
    Cs, Ct = ctx.pack([P[0][2], P[1][2]]), ctx.pack([P[0][3], P[1][3]])
    if mode == "paired":
        B = g.bures_distance(Cs, Ct, paired=True)
        w = g.bures_wasserstein_distance(ms, mt, Cs, Ct, paired=True)
        ctx.check("shapes", B.shape == (2,) and w.shape == (2,))
        for i in range(2):
            ctx.check("paired Bures %d" % i, [ctx.eq(B[i] * B[i], bures2(*P[i])), ctx.le(0, B[i])])
            ctx.check("paired distance %d" % i, [ctx.eq(w[i] * w[i], bures2(*P[i]) + dm(i, i)), ctx.le(0, w[i])])
        return


def distance_all(ctx, n, m):
    """all pairs of commuting covariances (diagonal)"""
    Roots(ctx)
    g = ctx.ot.gaussian
    s = ctx.mat("s", n, 2, lo=ctx.num("1/4"), hi=2)
    t = ctx.mat("t", m, 2, lo=ctx.num("1/4"), hi=2)
    ms, mt = ctx.mat("ms", n, 2, lo=-2, hi=2), ctx.mat("mt", m, 2, lo=-2, hi=2)
    Cs = ctx.pack([[[s[i, 0] ** 2, ctx.num(0)], [ctx.num(0), s[i, 1] ** 2]] for i in range(n)])
    Ct = ctx.pack([[[t[i, 0] ** 2, ctx.num(0)], [ctx.num(0), t[i, 1] ** 2]] for i in range(m)])
    w = g.bures_wasserstein_distance(ms, mt, Cs, Ct)
    B = g.bures_distance(Cs, Ct)
    D = ctx.ot.gmm.dist_bures_squared(ms, mt, Cs, Ct)
    ctx.check("shapes", w.shape == (n, m) and B.shape == (n, m) and D.shape == (n, m))
    for i in range(n):
        for j in range(m):
            e = sum((s[i, c] - t[j, c]) ** 2 for c in range(2))
            d = sum((ms[i, c] - mt[j, c]) ** 2 for c in range(2))
            ctx.check("distance %d,%d" % (i, j), [ctx.eq(w[i, j] * w[i, j], e + d), ctx.eq(B[i, j] * B[i, j], e), ctx.eq(D[i, j], e + d), ctx.le(0, w[i, j]), ctx.le(0, B[i, j])])


def dist_mixture(ctx):
    """squared Bures-Wasserstein costs between the components"""
    r = Roots(ctx)
    P = pair(ctx, r, "p")
    ms, mt = ctx.mat("ms", 1, 2, lo=-2, hi=2), ctx.mat("mt", 1, 2, lo=-2, hi=2)
    D = ctx.ot.gmm.dist_bures_squared(ms, mt, ctx.pack([P[2]]), ctx.pack([P[3]]))
    ctx.check("cost", ctx.eq(D[0, 0], bures2(*P) + sum((ms[0, c] - mt[0, c]) ** 2 for c in range(2))))


def moments(ctx, x, w, reg, bias):
    n = x.shape[0]
    W = [ctx.num(1) / n] * n if w is None else [(w[i, 0] if w.ndim == 2 else w[i]) / sum((w[k, 0] if w.ndim == 2 else w[k]) for k in range(n)) for i in range(n)]
    d = x.shape[1]
    m = [sum(W[i] * x[i, c] for i in range(n)) if bias else ctx.num(0) for c in range(d)]
    C = [[sum(W[i] * (x[i, c] - m[c]) * (x[i, e] - m[e]) for i in range(n)) + (reg if c == e else 0) for e in range(d)] for c in range(d)]
    return m, C


def samples(ctx, n, m, wt, d=1):
    xs, xt = ctx.mat("x", n, d, lo=-1, hi=1), ctx.mat("y", m, d, lo=-1, hi=1)
    if wt is None:
        return xs, xt, None, None
    ws = ctx.pack([ctx.real("ws", lo=ctx.num("1/10"), hi=2)] + [ctx.num("%d/3" % (i + 1)) for i in range(n - 1)])
    wtt = ctx.pack([ctx.num("%d/2" % (i + 1)) for i in range(m - 1)] + [ctx.real("wt", lo=ctx.num("1/10"), hi=2)])
    if d == 1:
        # half of the coordinates are enough next to free weights
        xs = ctx.pack([[xs[i, 0] if i < 1 else ctx.num("-%d/4" % i)] for i in range(n)])
        xt = ctx.pack([[xt[i, 0] if i < 1 else ctx.num("%d/3" % i)] for i in range(m)])
    if wt == "col":
        return xs, xt, ctx.np.reshape(ws, (n, 1)), ctx.np.reshape(wtt, (m, 1))
    return xs, xt, ws, wtt


def empirical1(ctx, n, m, wt, bias):
    """one-dimensional samples: scalar closed forms from the weighted moments"""
    Roots(ctx)
    g = ctx.ot.gaussian
    xs, xt, ws, wtt = samples(ctx, n, m, wt)
    reg = ctx.num("1/5")
    snap = [None if z is None else ctx.snapshot(z) for z in (xs, xt, ws, wtt)]
    (m1, C1), (m2, C2) = moments(ctx, xs, ws, reg, bias), moments(ctx, xt, wtt, reg, bias)
    s1, s2 = ctx.sqrt(C1[0][0]), ctx.sqrt(C2[0][0])
    w, log = g.empirical_bures_wasserstein_distance(xs, xt, reg=reg, ws=ws, wt=wtt, bias=bias, log=True)
    ctx.check("distance", [ctx.eq(w * w, (m1[0] - m2[0]) ** 2 + (s1 - s2) ** 2), ctx.le(0, w)])
    ctx.check("covariances", [ctx.eq(log["Cs"], ctx.pack(C1)), ctx.eq(log["Ct"], ctx.pack(C2))])
    ctx.check("log flag", ctx.eq(g.empirical_bures_wasserstein_distance(xs, xt, reg=reg, ws=ws, wt=wtt, bias=bias), w))
    if wt != "flat":
        A, b, log = g.empirical_bures_wasserstein_mapping(xs, xt, reg=reg, ws=ws, wt=wtt, bias=bias, log=True)
        ctx.check("map", [ctx.eq(A[0, 0], s2 / s1), ctx.eq(b[0, 0], m2[0] - m1[0] * s2 / s1), A.shape == (1, 1) and b.shape == (1, 1)])
        ctx.check("map covariances", [ctx.eq(log["Cs"], ctx.pack(C1)), ctx.eq(log["Ct"], ctx.pack(C2))])
        A2, b2 = g.empirical_bures_wasserstein_mapping(xs, xt, reg=reg, ws=ws, wt=wtt, bias=bias)
        ctx.check("map log flag", [ctx.eq(A2, A), ctx.eq(b2, b)])
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip((xs, xt, ws, wtt), snap) if z is not None])


def empirical2(ctx, wt, bias):
    """covariances of two-dimensional samples"""
    g = ctx.ot.gaussian
    xs, xt, ws, wtt = samples(ctx, 3, 2, wt, d=2)
    reg = ctx.num("1/5")
    got = []
    ctx.patch(g, "bures_wasserstein_mapping", lambda ms, mt, Cs, Ct, log=False: got.append((ms, mt, Cs, Ct)) or ((ctx.arr([[1]]), ctx.arr([1]), {}) if log else (ctx.arr([[1]]), ctx.arr([1]))))
    g.empirical_bures_wasserstein_mapping(xs, xt, reg=reg, ws=ws, wt=wtt, bias=bias)
    (m1, C1), (m2, C2) = moments(ctx, xs, ws, reg, bias), moments(ctx, xt, wtt, reg, bias)
    q = got[0]
    ctx.check("moments", [ctx.eq(q[0], ctx.pack([m1])), ctx.eq(q[1], ctx.pack([m2])), ctx.eq(q[2], ctx.pack(C1)), ctx.eq(q[3], ctx.pack(C2))])


def bary1(ctx, k, method, wn, it=2, half=True):
    """one-dimensional Gaussians: the barycenter has the mean of the deviations"""
    Roots(ctx)
    g = ctx.ot.gaussian
    s = ctx.vec("s", k, lo=ctx.num("1/4"), hi=2)
    m = ctx.mat("m", k, 1, lo=-2, hi=2)
    w = ctx.arr({2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"]}[k]) if wn else None
    W = [w[i] for i in range(k)] if wn else [ctx.num(1) / k] * k
    C = ctx.pack([[[s[i] ** 2]] for i in range(k)])
    snap = [ctx.snapshot(z) for z in (m, C)]
    ms = sum(W[i] * s[i] for i in range(k))
    mb, Cb = g.bures_wasserstein_barycenter(m, C, weights=w, method=method, num_iter=it, eps=-1)
    ctx.check("mean", ctx.eq(mb, ctx.pack([sum(W[i] * m[i, 0] for i in range(k))])))
    if method == "gradient_descent":
        ctx.check("a unit step reaches the barycenter", ctx.eq(Cb[0, 0], ms * ms))
        if not half:
            return
        mb, Cb = g.bures_wasserstein_barycenter(m, C, weights=w, method=method, num_iter=1, eps=-1, step_size=ctx.num("1/2"))
        c0 = ctx.sqrt(sum(W[i] * s[i] ** 2 for i in range(k)) / k)
        ctx.check("half step", ctx.eq(Cb[0, 0], ((c0 + ms) / 2) ** 2))
    else:
        # x -> sqrt(x) * ms, from any start: after n steps x_n = ms^(2 - 2^(1-n)) x_0^(2^-n)
        mb, C1 = g.bures_wasserstein_barycenter(m, C, weights=w, method=method, num_iter=1, eps=-1)
        ctx.check("fixed point iteration", ctx.eq(Cb[0, 0] * Cb[0, 0], C1[0, 0] * ms * ms))
        mb, C3, log = g.bures_wasserstein_barycenter(m, C, weights=w, method=method, num_iter=7, eps=9, log=True)
        ctx.check("stops when it no longer moves", [log["num_iter"] == 0, ctx.le(log["final_diff"], 9), ctx.le(0, log["final_diff"])])
        # equal measures are their own barycenter
        mb, Ce = g.bures_wasserstein_barycenter(m, ctx.pack([[[s[0] ** 2]]] * k), weights=w, method=method, num_iter=1, eps=-1)
        c0 = s[0] ** 2 / k
        ctx.check("equal measures", ctx.eq(Ce[0, 0] * Ce[0, 0], c0 * s[0] * s[0]))
    ctx.check("inputs kept", [ctx.eq(z, q) for z, q in zip((m, C), snap)])


def bary_stationary(ctx, method):
    """the barycenter of maps averaging to the identity is the common source"""
    r = Roots(ctx)
    g = ctx.ot.gaussian
    B = spd(ctx, "B", lo="3/4", hi="3/2")
    e1, e2, e3 = (ctx.real("e%d" % i, lo=ctx.num("-1/4"), hi=ctx.num("1/4")) for i in range(3))
    T = [[[1 + e1, e2], [e2, 1 + e3]], [[1 - e1 / 3, -e2 / 3], [-e2 / 3, 1 - e3 / 3]]]
    w = ctx.arr(["1/4", "3/4"])
    Cb = mm(B, B)
    C = [mm(t, Cb, t) for t in T]
    r.add(ctx.pack(Cb), ctx.pack(B))
    for t, c in zip(T, C):
        r.add(ctx.pack(mm(B, c, B)), ctx.pack(mm(B, t, B)))
    # start from the barycenter itself: the mean used as a start is replaced by it
    nx = ctx.ot.backend.NumpyBackend
    start = []

    def mean(self, a, axis=None):
        if not start and len(a.shape) == 3:
            start.append(1)
            return ctx.pack(Cb)
        return ctx.np.mean(a, axis=axis)
    ctx.patch(nx, "mean", mean)
    f = g.bures_barycenter_fixpoint if method == "fixed_point" else g.bures_barycenter_gradient_descent
    out, log = f(ctx.pack(C), weights=w, num_iter=3, eps=ctx.num("1/1000000"), log=True)
    ctx.check("stationary", [ctx.eq(out, ctx.pack(Cb)), log["num_iter"] == 0, ctx.eq(log["final_diff"], 0)])


def bary_step(ctx, method, wn=True):
    """one two-dimensional step: the new iterate is the documented image of the start"""
    g = ctx.ot.gaussian
    r = Roots(ctx)
    S = spd(ctx, "S", lo="3/4", hi="3/2")
    T = [spd(ctx, "T%d" % i, lo="3/4", hi="3/2") for i in range(2)]
    w = ctx.arr(["1/4", "3/4"])
    C0 = mm(S, S)
    C = [mm(t, C0, t) for t in T]
    r.add(ctx.pack(C0), ctx.pack(S))
    for t, c in zip(T, C):
        r.add(ctx.pack(mm(S, c, S)), ctx.pack(mm(S, t, S)))
    start = []

    def mean(self, a, axis=None):
        if not start and len(a.shape) == 3:
            start.append(1)
            return ctx.pack(C0)
        return ctx.np.mean(a, axis=axis)
    ctx.patch(ctx.ot.backend.NumpyBackend, "mean", mean)
    Tm = [[(T[0][i][j] + 3 * T[1][i][j]) / 4 for j in range(2)] for i in range(2)]
    if method == "fixed_point":
        out = g.bures_barycenter_fixpoint(ctx.pack(C), weights=w, num_iter=1, eps=-1)
        ctx.check("fixed point step", ctx.eq(out, ctx.pack(mm(S, Tm, S))))
    else:
        st = ctx.num("1/2")
        out = g.bures_barycenter_gradient_descent(ctx.pack(C), weights=w, num_iter=1, eps=-1, step_size=st)
        E = [[(Tm[i][j] + (1 if i == j else 0)) / 2 for j in range(2)] for i in range(2)]
        ctx.check("exponential map along the mean of the maps", ctx.eq(out, ctx.pack(mm(E, C0, E))))


def bary_emp(ctx, wt, bias):
    """empirical barycenter of one-dimensional samples"""
    Roots(ctx)
    g = ctx.ot.gaussian
    xs, xt, ws, wtt = samples(ctx, 3, 2, wt)
    reg = ctx.num("1/5")
    (m1, C1), (m2, C2) = moments(ctx, xs, ws, reg, bias), moments(ctx, xt, wtt, reg, bias)
    w = ctx.arr(["1/4", "3/4"])
    got = []
    f = g.bures_wasserstein_barycenter

    def rec(m, C, **kw):
        got.append((m, C, kw))
        return (ctx.arr([1]), ctx.arr([[2]]), {}) if kw.get("log") else (ctx.arr([1]), ctx.arr([[2]]))
    ctx.patch(g, "bures_wasserstein_barycenter", rec)
    g.empirical_bures_wasserstein_barycenter([xs, xt], reg=reg, weights=w, w=None if ws is None else [ws, wtt], bias=bias, num_iter=17)
    m, C, kw = got[0]
    ctx.check("moments", [ctx.eq(m, ctx.pack([m1, m2])), ctx.eq(C, ctx.pack([C1, C2])), ctx.eq(kw["weights"], w), kw["num_iter"] == 17])


def eigs(ctx, n, name, mode="sort", dl=None):
    """covariance with a given spectrum and eigenbasis (rotation by a rational parametrisation)"""
    d = [ctx.real("%sd%d" % (name, i), lo=ctx.num("%d/2" % (i + 1)), hi=ctx.num("%d/2" % (i + 1)) + ctx.num("1/4")) for i in range(n)]
    if n == 1:
        U = [[ctx.num(1)]]
    else:
        t = ctx.real(name + "t", lo=ctx.num("1/10"), hi=ctx.num("9/10"))
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        U = [[c, -s], [s, c]]
    C = [[sum(U[i][k] * d[k] * U[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return d, U, ctx.pack(C)


def eig_contract(ctx, known):
    def eigh(A):
        for C, d, U in known:
            if A.shape == C.shape and ctx.ident(A, C):
                return ctx.pack(d), ctx.pack(U)
        if A.shape == (1, 1):
            return ctx.pack([A[0, 0]]), ctx.arr([[1]])
        raise AssertionError("unexpected matrix")
    if ctx.sym:
        ctx.contract("eigh", eigh)


def sqrtm_model(ctx):
    """the matrix square root of the backend, from the eigendecomposition"""
    d, U, C = eigs(ctx, 2, "a")
    eig_contract(ctx, [(C, d, U)])
    R = ctx.ot.backend.NumpyBackend().sqrtm(C)
    ctx.check("square", ctx.eq(ctx.pack(mm(rows(R), rows(R))), C))
    ctx.check("symmetric", ctx.eq(R[0, 1], R[1, 0]))
    ctx.check("positive", [ctx.le(0, R[0, 0] + R[1, 1]), ctx.le(0, R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0])])


def ggw_distance(ctx, n, m):
    """Gaussian Gromov-Wasserstein distance from the ordered spectra"""
    a, U, Cs = eigs(ctx, n, "a")
    b, V, Ct = eigs(ctx, m, "b")
    eig_contract(ctx, [(Cs, a, U), (Ct, b, V)])
    D, log = ctx.ot.gaussian.gaussian_gromov_wasserstein_distance(Cs, Ct, log=True)
    A, B = a[::-1], b[::-1]
    k = min(n, m)
    e = 4 * (sum(A) - sum(B)) ** 2 + 8 * sum((A[i] - B[i]) ** 2 for i in range(k)) + 8 * sum(x ** 2 for x in A[k:] + B[k:])
    ctx.check("distance", [ctx.eq(D * D, e), ctx.le(0, D)])
    D2 = ctx.ot.gaussian.gaussian_gromov_wasserstein_distance(Ct, Cs)
    ctx.check("symmetric", ctx.eq(D2 * D2, e))


def ggw_map(ctx, n, m, sg):
    a, U, Cs = eigs(ctx, n, "a")
    b, V, Ct = eigs(ctx, m, "b")
    eig_contract(ctx, [(Cs, a, U), (Ct, b, V)])
    mu, nu = ctx.vec("mu", n, lo=-2, hi=2), ctx.vec("nu", m, lo=-2, hi=2)
    sign = ctx.arr([1, -1][:min(n, m)]) if sg else None
    A, bb, log = ctx.ot.gaussian.gaussian_gromov_wasserstein_mapping(mu, nu, Cs, Ct, sign_eigs=sign, log=True)
    AA = rows(A)
    push = mm([list(r) for r in zip(*AA)], rows(Cs), AA)
    if n >= m:
        ctx.check("pushes the covariance", ctx.eq(ctx.pack(push), Ct))
    else:
        top = [[b[-1] * V[i][m - 1] * V[j][m - 1] for j in range(m)] for i in range(m)]
        ctx.check("pushes to the leading direction", ctx.eq(ctx.pack(push), ctx.pack(top)))
    # ordered spectra are matched: the map sends the k-th source direction to the k-th target direction
    k = min(n, m)
    for i in range(k):
        u = [U[r][n - 1 - i] for r in range(n)]
        img = [sum(u[r] * AA[r][c] for r in range(n)) for c in range(m)]
        v = [V[r][m - 1 - i] for r in range(m)]
        for c in range(m):
            for e in range(m):
                ctx.check("direction %d" % i, ctx.eq(img[c] * img[e] * a[n - 1 - i], b[m - 1 - i] * v[c] * v[e]))
    ctx.check("means are mapped", ctx.eq(ctx.pack([sum(mu[r] * A[r, c] for r in range(n)) + bb[c] for c in range(m)]), nu))
    A2, b2 = ctx.ot.gaussian.gaussian_gromov_wasserstein_mapping(mu, nu, Cs, Ct, sign_eigs=sign)
    ctx.check("log flag", [ctx.eq(A2, A), ctx.eq(b2, bb)])


def ggw_emp(ctx, sg, wt):
    """empirical one-dimensional Gromov-Wasserstein distance and map"""
    g = ctx.ot.gaussian
    eig_contract(ctx, [])
    xs, xt, ws, wtt = samples(ctx, 3, 3, wt)
    if sg == "skew":
        xs, xt = ctx.pack([[ctx.num(1)], [xs[0, 0]], [ctx.num("-1/2")]]), ctx.pack([[ctx.num("3/4")], [ctx.num("-1/3")], [ctx.num("1/5")]])
        if wt is not None:
            ws, wtt = ctx.arr([["1/2"], [1], ["1/3"]]), ctx.arr([[1], [2], [1]])
    else:
        ctx.assume(ctx.le(ctx.num("1/4"), xs[0, 0] - xs[1, 0]))
        ctx.assume(ctx.le(ctx.num("1/4"), xt[0, 0] - xt[1, 0]))
    (m1, C1), (m2, C2) = moments(ctx, xs, ws, 0, True), moments(ctx, xt, wtt, 0, True)
    v1, v2 = C1[0][0], C2[0][0]
    if sg is None:
        D, log = g.empirical_gaussian_gromov_wasserstein_distance(xs, xt, ws=ws, wt=wtt, log=True)
        ctx.check("distance", ctx.eq(D * D, 12 * (v1 - v2) ** 2))
        ctx.check("covariances", [ctx.eq(log["Cov_s"], ctx.pack(C1)), ctx.eq(log["Cov_t"], ctx.pack(C2))])
    sign = {"skew": "skewness", "neg": ctx.arr([-1]), None: None}[sg]
    A, b, log = g.empirical_gaussian_gromov_wasserstein_mapping(xs, xt, ws=ws, wt=wtt, sign_eigs=sign, log=True)
    W = [[ctx.num("1/3")] * 3] * 2 if ws is None else [[w[i, 0] for i in range(3)] for w in (ws, wtt)]
    k = [sum(W[q][i] * (x[i, 0] - m[0]) ** 3 for i in range(3)) for q, (x, m) in enumerate(((xs, m1), (xt, m2)))]
    if sg == "skew":
        # two free coordinates are enough here
        ctx.assume(ctx.any([ctx.le(ctx.num("1/50"), k[0] * k[1]), ctx.le(k[0] * k[1], ctx.num("-1/50"))]))
        ctx.check("sign", ctx.le(0, A[0, 0] * k[0] * k[1]))
    else:
        ctx.check("sign", ctx.le(0, A[0, 0] * (-1 if sg == "neg" else 1)))
    ctx.check("scale", ctx.eq(A[0, 0] * A[0, 0] * v1, v2))
    ctx.check("shift", ctx.eq(b[0, 0] + m1[0] * A[0, 0], m2[0]))


def gauss(x, m, C, ctx):
    """density of a Gaussian without its (2 pi) factor"""
    d = len(m)
    if d == 1:
        det, q = C[0][0], (x[0] - m[0]) ** 2 / C[0][0]
    else:
        det = C[0][0] * C[1][1] - C[0][1] * C[1][0]
        I = inv2(C)
        q = sum((x[i] - m[i]) * I[i][j] * (x[j] - m[j]) for i in range(2) for j in range(2))
    return det, q


def density(ctx, d, k):
    """log densities, densities and mixture densities"""
    G = ctx.ot.gmm
    x = ctx.mat("x", 2, d, lo=-1, hi=1)
    m = ctx.mat("m", k, d, lo=-1, hi=1)
    S = [[[ctx.real("c%d" % i, lo=ctx.num("1/2"), hi=2)]] for i in range(k)] if d == 1 else [spd(ctx, "C%d" % i) for i in range(k)]
    w = ctx.simplex("w", k)
    l2pi = ctx.num(0) + float(ctx.np.log(2 * PI)) if not ctx.sym else ctx.np.log(2 * ctx.np.pi)
    tot = [0, 0]
    for c in range(k):
        L = G.gaussian_logpdf(x, m[c], ctx.pack(S[c]))
        p = G.gaussian_pdf(x, m[c], ctx.pack(S[c]))
        for r in range(2):
            det, q = gauss(x[r], m[c], S[c], ctx)
            l = -(d * l2pi + ctx.log(det) + q) / 2
            ctx.check("log density", ctx.eq(L[r], l))
            ctx.check("density", ctx.eq(p[r], ctx.exp(l)))
            tot[r] = tot[r] + w[c] * ctx.exp(l)
    P = G.gmm_pdf(x, m, ctx.pack(S), w)
    ctx.check("mixture density", ctx.eq(P, ctx.pack(tot)))


def mix(ctx, ks, kt, d=1):
    ms, mt = ctx.mat("ms", ks, d, lo=-1, hi=1), ctx.mat("mt", kt, d, lo=-1, hi=1)
    s = [ctx.real("s%d" % i, lo=ctx.num("1/2"), hi=2) if i == 0 else ctx.num("3/%d" % (i + 1)) for i in range(ks)]
    t = [ctx.real("t%d" % i, lo=ctx.num("1/2"), hi=2) if i == 0 else ctx.num("4/%d" % (i + 2)) for i in range(kt)]
    Cs, Ct = ctx.pack([[[x * x]] for x in s]), ctx.pack([[[x * x]] for x in t])
    return ms, mt, s, t, Cs, Ct


def mixture(ctx, ks, kt):
    """mixture distance and plan solve OT between components with squared Bures-Wasserstein costs"""
    G = ctx.ot.gmm
    Roots(ctx)
    ms, mt, s, t, Cs, Ct = mix(ctx, ks, kt)
    ws, wt = ctx.weights("ws", ks), ctx.weights("wt", kt)
    got = []
    ctx.patch(G, "emd", lambda *a, **k: got.append(a) or "plan")
    ctx.patch(G, "emd2", lambda *a, **k: got.append(a) or "cost")
    D = ctx.pack([[(ms[i, 0] - mt[j, 0]) ** 2 + (s[i] - t[j]) ** 2 for j in range(kt)] for i in range(ks)])
    ctx.check("results", G.gmm_ot_loss(ms, mt, Cs, Ct, ws, wt) == "cost" and G.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt) == "plan")
    for a in got:
        ctx.check("problem", [ctx.eq(a[0], ws), ctx.eq(a[1], wt), ctx.eq(a[2], D)])


def apply_map(ctx, ks, kt, pat, method="bary", given=True):
    """barycentric map: conditional expectation of the affine maps under the plan density"""
    G = ctx.ot.gmm
    Roots(ctx)
    ms, mt, s, t, Cs, Ct = mix(ctx, ks, kt)
    P = [[ctx.real("p%d%d" % (i, j), lo=ctx.num("1/20"), hi=1) if pat[i][j] else ctx.num(0) for j in range(kt)] for i in range(ks)]
    ws, wt = ctx.pack([sum(r) for r in P]), ctx.pack([sum(P[i][j] for i in range(ks)) for j in range(kt)])
    x = ctx.mat("x", 2, 1, lo=-1, hi=1)
    if not given:
        ctx.patch(G, "emd", lambda *a, **k: ctx.pack(P))
    out = G.gmm_ot_apply_map(x, ms, mt, Cs, Ct, ws, wt, plan=ctx.pack(P) if given else None, method=method)
    for r in range(2):
        # densities relative to component 0
        dens = []
        for i in range(ks):
            e = -(x[r, 0] - ms[i, 0]) ** 2 / (s[i] * s[i]) / 2 + (x[r, 0] - ms[0, 0]) ** 2 / (s[0] * s[0]) / 2
            dens.append(ctx.exp(e) * s[0] / s[i])
        den = sum(ws[i] * dens[i] for i in range(ks))
        num = sum(P[i][j] * dens[i] * (mt[j, 0] + t[j] / s[i] * (x[r, 0] - ms[i, 0])) for i in range(ks) for j in range(kt) if pat[i][j])
        ctx.check("map of point %d" % r, ctx.eq(out[r, 0] * den, num))


def map_rand(ctx):
    """random map: the chosen pair is drawn from the plan conditioned on the point, and its affine map applied"""
    G = ctx.ot.gmm
    Roots(ctx)
    ms, mt, s, t, Cs, Ct = mix(ctx, 2, 2)
    P = [[ctx.num("1/4"), ctx.num("1/8")], [ctx.num("1/8"), ctx.num("1/2")]]
    ws, wt = ctx.arr(["3/8", "5/8"]), ctx.arr(["3/8", "5/8"])
    x = ctx.mat("x", 2, 1, lo=-1, hi=1)
    got = []

    class Rng:
        def __init__(self, seed=None):
            self.seed = seed

        def choice(self, n, p=None, **k):
            got.append((n, p))
            return [2, 1][len(got) - 1]
    ctx.patch(ctx.ot.gmm.np.random, "RandomState", Rng)
    out = G.gmm_ot_apply_map(x, ms, mt, Cs, Ct, ws, wt, plan=ctx.pack(P), method="rand", seed=3)
    for r, (i, j) in enumerate(((1, 0), (0, 1))):
        dens = []
        for q in range(2):
            e = -(x[r, 0] - ms[q, 0]) ** 2 / (s[q] * s[q]) / 2 + (x[r, 0] - ms[0, 0]) ** 2 / (s[0] * s[0]) / 2
            dens.append(ctx.exp(e) * s[0] / s[q])
        den = sum(ws[q] * dens[q] for q in range(2))
        n, p = got[r]
        ctx.check("number of pairs", n == 4)
        ctx.check("probabilities %d" % r, [ctx.eq(p[a * 2 + b] * den, P[a][b] * dens[a]) for a in range(2) for b in range(2)])
        ctx.check("map %d" % r, ctx.eq(out[r, 0], mt[j, 0] + t[j] / s[i] * (x[r, 0] - ms[i, 0])))


def gmm_bary(ctx, proj):
    """one update of the mixture barycenter (one-dimensional components)"""
    G = ctx.ot.gmm
    Roots(ctx)
    m = [ctx.mat("m%d" % k, n, 1, lo=-1, hi=1) for k, n in enumerate((2, 1))]
    s = [[ctx.real("s", lo=ctx.num("1/2"), hi=2), ctx.num("3/2")], [ctx.real("t", lo=ctx.num("1/2"), hi=2)]]
    C = [ctx.pack([[[x * x]] for x in r]) for r in s]
    w = [ctx.arr(["1/3", "2/3"]), ctx.arr([1])]
    mi, Ci = ctx.mat("mi", 2, 1, lo=-1, hi=1), ctx.pack([[[ctx.num(1)]], [[ctx.num("1/4")]]])
    wb = ctx.arr(["1/4", "3/4"])
    lam = ctx.arr(["2/5", "3/5"])
    P = [ctx.arr([["1/4", 0], ["1/12", "2/3"]]), ctx.arr([["1/4"], ["3/4"]])]
    m0 = ctx.snapshot(mi)
    got, calls = [], []

    def emd(a, b, D, **k):
        got.append((a, b, D))
        return P[len(got) - 1]

    def bary(mm_, CC, ww=None, *a, **k):
        ww = k.get("weights", ww)
        calls.append((ctx.snapshot(mm_), ctx.snapshot(CC), ww))
        return ctx.pack([sum(ww[i] * mm_[i, 0] for i in range(len(mm_)))]), ctx.pack([[sum(ww[i] * CC[i, 0, 0] for i in range(len(mm_)))]])
    ctx.patch(G, "emd", emd)
    ctx.patch(G, "bures_wasserstein_barycenter", bary)
    mean, cov, log = G.gmm_barycenter_fixed_point(m, C, w, mi, Ci, lam, w_bar=wb, iterations=1, log=True, barycentric_proj_method=proj)
    sd = [ctx.num(1), ctx.num("1/2")]
    for k in range(2):
        ctx.check("problem %d" % k, [ctx.eq(got[k][0], wb), ctx.eq(got[k][1], w[k]),
                                     ctx.eq(got[k][2], ctx.pack([[(m0[i, 0] - m[k][j, 0]) ** 2 + (sd[i] - s[k][j]) ** 2 for j in range(len(s[k]))] for i in range(2)]))])
    # the stand-in averages means and covariances: the result is the double average
    for i in range(2):
        ctx.check("mean %d" % i, ctx.eq(mean[i, 0], sum(lam[k] * sum(P[k][i, j] / wb[i] * m[k][j, 0] for j in range(len(s[k]))) for k in range(2))))
        ctx.check("covariance %d" % i, ctx.eq(cov[i, 0, 0], sum(lam[k] * sum(P[k][i, j] / wb[i] * s[k][j] ** 2 for j in range(len(s[k]))) for k in range(2))))
    ctx.check("iterates", [len(log["means_its"]) == 2, ctx.eq(log["means_its"][0], m0), ctx.eq(log["means_its"][1], mean), ctx.eq(log["covs_its"][1], cov)])


CASES = [Case("mapping", mapping), Case("dist_single", distance, mode="single"), Case("dist_paired", distance, mode="paired"), Case("dist_mixture", dist_mixture), Case("sqrtm", sqrtm_model)]
CASES += [Case("dist_all_%d%d" % (n, m), distance_all, n=n, m=m) for n, m in ((1, 2), (2, 2), (2, 3))]
for wt in (None, "col", "flat"):
    for bias in (True, False):
        CASES.append(Case("emp_%s_%s" % (wt, bias), empirical1, n=3, m=2, wt=wt, bias=bias))
        CASES.append(Case("emp_bary_%s_%s" % (wt, bias), bary_emp, wt=wt, bias=bias))
        if wt != "flat":
            CASES.append(Case("emp2_%s_%s" % (wt, bias), empirical2, wt=wt, bias=bias))
for me in ("fixed_point", "gradient_descent"):
    CASES += [Case("bary1_%s_%d%s" % (me, k, "w" if wn else ""), bary1, k=k, method=me, wn=wn, half=(k == 2 or not wn)) for k in (2, 3) for wn in (True, False)]
    CASES += [Case("bary_stat_%s" % me, bary_stationary, method=me), Case("bary_step_%s" % me, bary_step, method=me)]
CASES += [Case("ggw_%d%d" % (n, m), ggw_distance, n=n, m=m) for n, m in ((1, 1), (2, 2), (2, 1), (1, 2))]
CASES += [Case("ggw_map_%d%d%s" % (n, m, "s" if sg else ""), ggw_map, n=n, m=m, sg=sg) for n, m in ((2, 2), (2, 1), (1, 2)) for sg in (False, True)]
CASES += [Case("ggw_emp_%s_%s" % (sg, wt), ggw_emp, sg=sg, wt=wt) for sg in (None, "neg", "skew") for wt in (None, "col")]
CASES += [Case("density_%d%d" % (d, k), density, d=d, k=k) for d, k in ((1, 1), (1, 2), (2, 1), (2, 2))]
CASES += [Case("mixture_%d%d" % (a, b), mixture, ks=a, kt=b) for a, b in ((1, 2), (2, 2), (2, 3))]
CASES += [Case("map_full", apply_map, ks=2, kt=2, pat=((1, 1), (1, 1))), Case("map_diag", apply_map, ks=2, kt=2, pat=((1, 0), (1, 1)), given=False), Case("map_12", apply_map, ks=1, kt=2, pat=((1, 1),)),
          Case("map_21", apply_map, ks=2, kt=1, pat=((1,), (1,))), Case("map_rand", map_rand)]
CASES += [Case("gmm_bary_%s" % p, gmm_bary, proj=p) for p in ("euclidean", "bures")]
BOUNDS = "all pairs of 2x2 covariances (through their root and optimal map), diagonal batches of up to three, one-dimensional samples of two or three weighted points, mixtures of up to three one-dimensional components, one or two barycenter steps"
