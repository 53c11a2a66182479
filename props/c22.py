"""C22 cost matrices, normalisations, simplex projections and lazy tensors."""
from itertools import combinations

from symx.worker import Case
from props.lib import W, W2

NEEDS_CPP = False


def pts(ctx, n, d, name, k=2):
    """points with k symbolic coordinates per cloud"""
    F = [["1/2", "-1", "2"], ["3/2", "1/3", "-1/4"], ["-2", "1", "1/5"]] if name == "x" else [["1", "2/3", "-1/2"], ["-1/3", "5/4", "1"], ["2", "-3/2", "3/4"]]
    R = [[ctx.num(z) for z in r[:d]] for r in F[:n]]
    R[0][0] = ctx.real(name + "0", lo=-3, hi=3)
    if k > 1:
        R[-1][-1] = ctx.real(name + "1", lo=-3, hi=3)
    return ctx.pack(R)


def absd(ctx, x):
    return abs(x)


def metric(ctx, mt, n=2, m=3, d=2, p=None, w=None, tensor=False, same=False):
    X = pts(ctx, n, d, "x")
    Y = X if same else pts(ctx, m, d, "y")
    m = n if same else m
    keep = [(z, ctx.snapshot(z)) for z in (X, Y)]
    kw = {}
    if p is not None:
        kw["p"] = p
    if w is not None:
        kw["w"] = ctx.arr(w)
    if tensor:
        kw["use_tensor"] = True
    D = ctx.ot.dist(X, **dict(kw, metric=mt)) if same else ctx.ot.dist(X, Y, metric=mt, **kw)
    ctx.check("inputs kept", [ctx.eq(a, b) for a, b in keep])
    ctx.check("shape", tuple(D.shape) == (n, m))
    wt = [ctx.num(z) for z in w] if w else [1] * d
    for i in range(n):
        for j in range(m):
            df = [X[i, k] - Y[j, k] for k in range(d)]
            v = D[i, j]
            if same and i == j and mt != "correlation":
                ctx.check("zero diagonal", ctx.eq(v, 0))
            if mt == "sqeuclidean":
                ctx.check("distance", ctx.eq(v, sum(z * z for z in df)))
            elif mt == "euclidean":
                ctx.check("distance", [ctx.eq(v * v, sum(z * z for z in df)), ctx.le(0, v)])
            elif mt == "cityblock":
                ctx.check("distance", ctx.eq(v, sum(abs(z) for z in df)))
            elif mt == "minkowski":
                s = 0
                for z, c in zip(df, wt):
                    t = c
                    for _ in range(p):
                        t = t * abs(z)
                    s = s + t
                r = 1
                for _ in range(p):
                    r = r * v
                ctx.check("distance", [ctx.eq(r, s), ctx.le(0, v)])
            else:
                x, y = [X[i, k] for k in range(d)], [Y[j, k] for k in range(d)]
                if mt == "correlation":
                    mx, my = sum(x) / d, sum(y) / d
                    x, y = [z - mx for z in x], [z - my for z in y]
                xx, yy, xy = sum(z * z for z in x), sum(z * z for z in y), sum(a * b for a, b in zip(x, y))
                ctx.assume([ctx.lt(ctx.num("1/4"), xx)])
                ctx.assume([ctx.lt(ctx.num("1/4"), yy)])
                c = 1 - v
                ctx.check("distance", [ctx.eq(c * c * xx * yy, xy * xy), ctx.le(0, c * xy)])
    if same:
        ctx.check("symmetric", ctx.eq(D, D.T))


def sparse(ctx, mt, weights, bs, p=2):
    """cost of a sparse plan = sum over its pairs of weight times distance, whatever the batches"""
    X, Y = pts(ctx, 3, 2, "x", 1), pts(ctx, 3, 2, "y", 1)
    np_ = ctx.np
    import numpy
    I, J = numpy.array([0, 0, 2, 1]), numpy.array([1, 2, 0, 1])
    w = ctx.vec("w", 4, lo=0, hi=2) if weights else None
    v = ctx.ot.utils.sparse_ot_dist(X, Y, I, J, w, metric=mt, batch_size=bs, p=p)
    D = ctx.ot.dist(X, Y, metric=mt, p=p)
    ctx.check("cost of the pairs", ctx.eq(v, sum((w[k] if weights else ctx.num("1/4")) * D[I[k], J[k]] for k in range(4))))


def normal(ctx, norm, given=False):
    C = ctx.mat("C", 2, 3, lo="1/10", hi=4)
    S = ctx.snapshot(C)
    val = ctx.real("v", lo="1/2", hi=2) if given else None
    out, v = ctx.ot.utils.cost_normalization(C, norm, return_value=True, value=val)
    # callers reuse their matrix: one normalisation, never two
    flat = [S[i, j] for i in range(2) for j in range(3)]
    if norm in ("max", "median"):
        if given:
            c = val
        elif norm == "max":
            c = ctx.np.max(S)
            ctx.check("largest entry", [ctx.le(x, c) for x in flat] + [ctx.any([ctx.all(ctx.eq(x, c)) for x in flat])])
        else:
            c = ctx.np.median(S)
        ctx.check("value", ctx.eq(v, c))
        ctx.check("scaled", ctx.eq(out * c, S))
    elif norm == "log":
        ctx.check("log", ctx.eq(ctx.exp(out), 1 + S))
    elif norm == "loglog":
        ctx.check("loglog", ctx.eq(out, ctx.log(1 + ctx.log(1 + S))))
    else:
        ctx.check("kept", ctx.eq(out, S))
    ctx.check("input kept", ctx.eq(C, S))


def proj_opt(ctx, x, y, z, label):
    """y is the projection of x on the simplex of size z (optimality conditions)"""
    n = len(x)
    ctx.check(label + ": on the simplex", [ctx.le(0, y[i]) for i in range(n)] + [ctx.eq(sum(y), z)])
    c = []
    for i in range(n):
        for j in range(n):
            c.append(ctx.any([ctx.all(ctx.eq(y[i], 0)), ctx.all(ctx.le(x[j] - y[j], x[i] - y[i]))]))
    ctx.check(label + ": closest point", c)


def simplex(ctx, which, n, d=1, z="1"):
    x = ctx.mat("x", n, d, lo=-2, hi=3) if d > 1 else ctx.vec("x", n, lo=-2, hi=3)
    zz = ctx.num(z)
    S = ctx.snapshot(x)
    if which == "utils":
        y = ctx.ot.utils.proj_simplex(x, zz if ctx.sym else float(zz))
    elif which == "axis1":
        x = x.T
        y = ctx.ot.smooth.projection_simplex(x, zz, axis=1).T
        x = x.T
    elif which == "axis0":
        y = ctx.ot.smooth.projection_simplex(x, ctx.arr([z, "2"])[:d], axis=0)
    else:
        y = ctx.ot.smooth.projection_simplex(x, zz)
    ctx.check("input kept", ctx.eq(x, S))
    if d == 1:
        proj_opt(ctx, x, y, zz, "projection")
    else:
        for k in range(d):
            proj_opt(ctx, x[:, k], y[:, k], ctx.num("2") if which == "axis0" and k == 1 else zz, "projection %d" % k)


def sparse_simplex(ctx, n, nz, axis, z="1"):
    x = ctx.vec("x", n, lo=-2, hi=3)
    zz = ctx.num(z)
    f = ctx.ot.utils.projection_sparse_simplex
    zf = zz if ctx.sym else float(zz)
    if axis == "vec":
        y = f(x, nz, zf)
    elif axis == 1:
        Y = f(ctx.pack([[x[i] for i in range(n)], [ctx.num(i) for i in range(n)]]), nz, ctx.pack([zz, ctx.num(1)]), axis=1)
        y = Y[0]
        ctx.check("other row", ctx.eq(sum(Y[1]), 1))
    elif axis == 0:
        Y = f(ctx.pack([[x[i], ctx.num(i)] for i in range(n)]), nz, zf, axis=0)
        y = Y[:, 0]
    else:
        y = f(x[None, :], nz, zf)
    ctx.check("on the simplex", [ctx.le(0, y[i]) for i in range(n)] + [ctx.eq(sum(y[i] for i in range(n)), zz)])
    alts = []
    for s in combinations(range(n), min(nz, n)):
        c = [ctx.eq(y[i], 0) for i in range(n) if i not in s]
        c += [ctx.any([ctx.all(ctx.eq(y[i], 0)), ctx.all(ctx.le(x[l] - y[l], x[i] - y[i]))]) for i in s for l in s]
        c += [ctx.le(x[i], x[l]) for l in s for i in range(n) if i not in s]
        alts.append(ctx.all(c))
    ctx.check("closest sparse point", ctx.any(alts))


def labels(ctx, start):
    x = [ctx.real("l%d" % i) for i in range(3)]
    y = ctx.pack(x)
    z = ctx.ot.utils.label_normalization(y, start=start)
    ctx.check("smallest label", [ctx.le(start, z), ctx.any([ctx.all(ctx.eq(z[i], start)) for i in range(3)])])
    ctx.check("shift only", [ctx.eq(z[i] - z[0], y[i] - y[0]) for i in range(3)])
    M = ctx.ot.utils.labels_to_masks(y)
    k = M.shape[1]
    ctx.check("one label each", [ctx.eq(ctx.np.sum(M, axis=1), 1)] + [ctx.any([ctx.all(ctx.eq(M[i, j], 0)), ctx.all(ctx.eq(M[i, j], 1))]) for i in range(3) for j in range(k)])
    for i in range(3):
        for j in range(3):
            dot = sum(M[i, c] * M[j, c] for c in range(k))
            ctx.check("same mask for the same label", ctx.any([ctx.all(ctx.eq(y[i], y[j]) + ctx.eq(dot, 1)), ctx.all([ctx.neg(ctx.eq(y[i], y[j]))] + ctx.eq(dot, 0))]))
    ctx.check("every label used", [ctx.le(1, ctx.np.sum(M, axis=0))])


def flat(ctx, x):
    return ctx.np.reshape(x, (-1,)) if x.size else None


def num(ctx, x):
    if not getattr(x, "shape", ()):
        return ctx.val(x)
    return x.reshape(-1)[0] if x.size == 1 else None


def potentials(ctx, metric, n, m):
    """entries of the lazy entropic plan under every kind of index"""
    X, Y = ctx.mat("X", n, 1, lo=-2, hi=2), ctx.mat("Y", m, 1, lo=-2, hi=2)
    f, g = ctx.vec("f", n, lo=-2, hi=2), ctx.vec("g", m, lo=-2, hi=2)
    reg = ctx.real("reg", lo="1/4", hi=4)
    T = ctx.ot.bregman._empirical.get_sinkhorn_lazytensor(X, Y, f, g, metric, reg if ctx.sym else float(reg))

    def cost(x, y):
        d = x - y
        return d * d if metric == "sqeuclidean" else ctx.np.maximum(d, -d)
    P = ctx.pack([[ctx.exp(f[i] + g[j] - cost(X[i, 0], Y[j, 0]) / reg) for j in range(m)] for i in range(n)])
    ctx.check("shape", tuple(T.shape) == (n, m))
    ctx.check("all", ctx.eq(T[:], P))
    ctx.check("places", [ctx.eq(num(ctx, T[i, j]), P[i % n, j % m]) for i, j in ((0, 1), (n - 1, 0), (-1, 0), (0, -m), (-n, -1))])
    ctx.check("lines", [ctx.eq(flat(ctx, T[i]), P[i % n]) for i in (1, -1)] + [ctx.eq(flat(ctx, T[:, j]), P[:, j % m]) for j in (1, -m)])
    ctx.check("blocks", [ctx.eq(T[0:1, 1:m], P[0:1, 1:m]), ctx.eq(T[1:n], P[1:n])])


def lazy(ctx, bs, d=False):
    Q, R = ctx.mat("Q", 3, 2, lo=-2, hi=2), ctx.mat("R", 2, 2, lo=-2, hi=2)
    dd = ctx.vec("d", 2, lo=-2, hi=2) if d else None
    U = ctx.ot.utils
    T = U.get_lowrank_lazytensor(Q, R, dd)
    D = ctx.pack([[sum(Q[i, k] * R[j, k] * (dd[k] if d else 1) for k in range(2)) for j in range(2)] for i in range(3)])
    nx = ctx.ot.backend.NumpyBackend()
    ctx.check("shape", T.shape == (3, 2))
    ctx.check("all", ctx.eq(T[:], D))
    ctx.check("rows", [ctx.eq(T[1:3], D[1:3]), ctx.eq(T[0:1, 1:2], D[0:1, 1:2])])
    ctx.check("places", [ctx.eq(num(ctx, T[i, j]), D[i % 3, j % 2]) for i, j in ((0, 1), (2, 0), (-1, 0), (1, -2), (-3, -1))] if not d else [])
    ctx.check("lines", [ctx.eq(flat(ctx, T[i]), D[i % 3]) for i in (1, -1)] + [ctx.eq(flat(ctx, T[:, j]), D[:, j % 2]) for j in (1, -2)])
    ctx.check("reductions", [ctx.eq(U.reduce_lazytensor(T, nx.sum, axis=None, nx=nx, batch_size=bs), ctx.np.sum(D)),
                             ctx.eq(U.reduce_lazytensor(T, nx.sum, axis=0, nx=nx, batch_size=bs), ctx.np.sum(D, axis=0)),
                             ctx.eq(U.reduce_lazytensor(T, nx.sum, axis=1, nx=nx, batch_size=bs), ctx.np.sum(D, axis=1))])


def scaler(ctx, norm, joint):
    U = ctx.ot.utils
    A = ctx.mat("A", 2, 2, lo=-2, hi=2)
    B = ctx.arr([["1", "1/2"], ["-1", "2"]])
    s = U.DataScaler(norm=norm).fit([A, B] if joint else A)
    out = s.transform([A, B])
    ctx.check("list in, list out", len(out) == 2)
    rows = [A[0], A[1]] + ([B[0], B[1]] if joint else [])
    n = len(rows)
    for k in range(2):
        col = [r[k] for r in rows]
        if norm == "standard":
            mu = sum(col) / n
            var = sum((c - mu) * (c - mu) for c in col) / n
            for X, Z in ((A, out[0]), (B, out[1])):
                for i in range(2):
                    z = Z[i, k]
                    ctx.check("standard", ctx.any([ctx.all(ctx.eq(var, 0) + ctx.eq(z, X[i, k] - mu)), ctx.all([ctx.lt(0, var)] + ctx.eq(z * z * var, (X[i, k] - mu) * (X[i, k] - mu)) + ctx.le(0, z * (X[i, k] - mu)))]))
        elif norm == "minmax":
            got = (out[0], out[1]) if joint else (out[0],)
            z = [Z[i, k] for Z in got for i in range(2)]
            ctx.check("range", [ctx.le(0, z), ctx.le(z, 1), ctx.any([ctx.all(ctx.eq(x, 0)) for x in z])])
            ctx.check("unit span", ctx.any([ctx.all(ctx.eq(x, 1)) for x in z] + [ctx.all([ctx.eq(c, col[0]) for c in col])]))
            ctx.check("affine", [ctx.eq((z[i] - z[0]) * (col[1] - col[0]), (z[1] - z[0]) * (col[i] - col[0])) for i in range(n)])
    if norm == "l2":
        for X, Z in ((A, out[0]), (B, out[1])):
            for i in range(2):
                q = sum(X[i, k] * X[i, k] for k in range(2))
                ctx.check("unit rows", ctx.any([ctx.all(ctx.eq(q, 0) + ctx.eq(Z[i], X[i])), ctx.all(ctx.eq(sum(Z[i, k] * Z[i, k] for k in range(2)), 1) + ctx.eq(Z[i, 0] * X[i, 1], Z[i, 1] * X[i, 0]) + ctx.le(0, Z[i] * X[i]))]))
    ctx.check("refit", [ctx.eq(U.DataScaler(norm=norm).fit_transform(A), U.DataScaler(norm=norm).fit(A).transform(A))])
    x, y = U.apply_scaler(A, B, s)
    ctx.check("apply", [ctx.eq(x, out[0]), ctx.eq(y, out[1])])
    x, y = U.apply_scaler(A, B, None)
    ctx.check("no scaler", x is A and y is B)
    x, y = U.apply_scaler(A, B, lambda v: 2 * v + 1)
    ctx.check("callable", [ctx.eq(x, 2 * A + 1), ctx.eq(y, 2 * B + 1)])


def small(ctx):
    U = ctx.ot.utils
    x = ctx.mat("x", 2, 2, lo=-2, hi=2)
    y = ctx.arr([["1", "0"], ["1/2", "-1"]])
    K = U.kernel(x, y, sigma=2)
    ctx.check("kernel", [ctx.eq(K[i, j], ctx.exp(-sum((x[i, k] - y[j, k]) * (x[i, k] - y[j, k]) for k in range(2)) / 8)) for i in range(2) for j in range(2)])
    A = ctx.sym_mat("A", 3, diag0=True, lo=0, hi=2)
    L = U.laplacian(A)
    ctx.check("laplacian", [ctx.eq(L[i, j], (sum(A[i, k] for k in range(3)) if i == j else 0) - A[i, j]) for i in range(3) for j in range(3)])
    D = U.dist0(4)
    ctx.check("grid cost", [ctx.eq(D[i, j], (i - j) ** 2) for i in range(4) for j in range(4)])
    S, E = ctx.sym_mat("S", 2, lo=-2, hi=2), ctx.sym_mat("E", 2, lo=-2, hi=2)
    P = U.exp_bures(E, S)
    C = [[S[i, j] + (1 if i == j else 0) for j in range(2)] for i in range(2)]
    ctx.check("exponential map", [ctx.eq(P[i, j], sum(C[i][k] * E[k, l] * C[l][j] for k in range(2) for l in range(2))) for i in range(2) for j in range(2)])
    a, b = ctx.arr(["0", "1/2", "1/2"]), ctx.arr(["1/3", "0", "2/3"])
    M = ctx.mat("M", 3, 3)
    a2, b2, M2 = U.clean_zeros(a, b, M)
    ctx.check("zeros removed", [ctx.eq(a2, a[1:]), ctx.eq(b2, ctx.pack([b[0], b[2]])), ctx.eq(M2, ctx.pack([[M[i, j] for j in (0, 2)] for i in (1, 2)]))])
    ctx.check("product", ctx.eq(U.dots(x, y, x), x @ (y @ x)))
    ctx.check("pairs", [U.get_parameter_pair(2.0) == (2.0, 2.0), U.get_parameter_pair([3.0]) == (3.0, 3.0), U.get_parameter_pair((1.0, 2.0)) == (1.0, 2.0)])
    ctx.check("uniform", [ctx.eq(U.unif(3), ctx.num("1/3")), ctx.eq(U.unif(2, type_as=x), ctx.num("1/2"))])


def psd(ctx, batch, vmin=0):
    """projection on matrices with bounded-below spectrum: spectrum clipped in the same basis"""
    c, s = ctx.num("3/5"), ctx.num("4/5")
    w = ctx.vec("w", 2, lo=-2, hi=2)
    ctx.assume(ctx.le(w[0], w[1]))
    V = [[c, s], [s, -c]]

    def build(e):
        return [[sum(V[i][k] * e[k] * V[j][k] for k in range(2)) for j in range(2)] for i in range(2)]
    S = ctx.pack(build(w))
    I = ctx.arr([["2", "0"], ["0", "3"]])
    A = ctx.pack([build(w), [[ctx.num(2), ctx.num(0)], [ctx.num(0), ctx.num(3)]]]) if batch else S

    def eigh(X):
        if len(X.shape) == 3:
            return ctx.pack([[w[0], w[1]], [ctx.num(2), ctx.num(3)]]), ctx.pack([V, [[ctx.num(1), ctx.num(0)], [ctx.num(0), ctx.num(1)]]])
        return w, ctx.pack(V)
    if ctx.sym:
        ctx.contract("eigh", eigh)
    P = ctx.ot.utils.proj_SDP(A, vmin=vmin) if vmin else ctx.ot.utils.proj_SDP(A)
    R = ctx.pack(build([ctx.np.maximum(w[0], vmin), ctx.np.maximum(w[1], vmin)]))
    if batch:
        ctx.check("clipped spectrum", [ctx.eq(P[0], R), ctx.eq(P[1], I)])
    else:
        ctx.check("clipped spectrum", ctx.eq(P, R))


CASES = []
for nm in ("sqeuclidean", "euclidean", "cityblock", "cosine", "correlation"):
    d = 3 if nm == "correlation" else 2
    CASES += [Case("dist_" + nm, metric, mt=nm, d=d), Case("dist_%s_same" % nm, metric, mt=nm, n=3, d=d, same=True)]
CASES += [Case("dist_city_tensor", metric, mt="cityblock", tensor=True)]
for p in (1, 2, 3):
    for w in (None, ["1/2", "3"]):
        for t in (False, True):
            CASES.append(Case("dist_mink%d%s%s" % (p, "w" if w else "", "t" if t else ""), metric, mt="minkowski", p=p, w=w, tensor=t))
for nm in ("sqeuclidean", "euclidean", "cityblock", "minkowski"):
    for wt in (False, True):
        CASES.append(Case("sparse_%s%s" % (nm, "_w" if wt else ""), sparse, mt=nm, weights=wt, bs=None, p=3))
    CASES.append(Case("sparse_%s_b" % nm, sparse, mt=nm, weights=True, bs=3, p=3))
for nm in ("median", "max", "log", "loglog", None):
    CASES.append(Case("norm_%s" % nm, normal, norm=nm, opt_lazymax=False))
CASES += [Case("norm_given_" + nm, normal, norm=nm, given=True) for nm in ("median", "max")]
CASES += [Case("proj_%d" % n, simplex, which="utils", n=n) for n in (2, 3)] + [Case("proj_4", simplex, which="utils", n=4, tier="thorough", wall=60), Case("proj_z", simplex, which="utils", n=3, z="5/2"), Case("proj_2d", simplex, which="utils", n=2, d=2),
          Case("proj_ax1", simplex, which="axis1", n=2, d=2, z="3/2"), Case("proj_ax0", simplex, which="axis0", n=2, d=2, z="1/2"), Case("proj_flat", simplex, which="flat", n=3)]
for n, nz in ((2, 1), (3, 1), (3, 2), (3, 3), (2, 3)):
    CASES.append(Case("sproj_%d_%d" % (n, nz), sparse_simplex, n=n, nz=nz, axis="vec"))
CASES += [Case("sproj_ax%s" % a, sparse_simplex, n=3, nz=2, axis=a, z="3/2") for a in (1, 0, None)]
CASES += [Case("labels_%d" % s, labels, start=s) for s in (0, 1, -1)]
CASES += [Case("potentials_%s_%d%d" % (mt, n, m), potentials, metric=mt, n=n, m=m, opt_lazymax=mt == "cityblock") for mt, n, m in (("sqeuclidean", 2, 3), ("sqeuclidean", 3, 2), ("cityblock", 2, 2))]
CASES += [Case("lazy_%d%s" % (bs, "d" if d else ""), lazy, bs=bs, d=d) for bs in (1, 2, 3, 100) for d in (False, True)]
CASES += [Case("scaler_%s_%d" % (nm, j), scaler, norm=nm, joint=bool(j)) for nm in ("standard", "minmax", "l2") for j in (0, 1)]
CASES += [Case("small", small), Case("psd", psd, batch=False), Case("psd_b", psd, batch=True), Case("psd_v", psd, batch=False, vmin=0.5)]
QUICK_WALL = 12
BOUNDS = "two or three points in dimension two or three with one or two symbolic coordinates per cloud, simplex projections up to dimension 3 (4 thorough), every batch size"
