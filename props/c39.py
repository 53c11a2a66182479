"""C39 every array backend computes the same documented operations, with the gradients it is given."""
import inspect

from symx.backends import session, Dual, Ten
from symx.worker import Case
from props.c29 import tot

QUICK_WALL = 25
BOUNDS = "matrices 2x3, batches of two 2x2 matrices, vectors of 2-4 entries, up to 5 sparse entries with repeated positions; all entries symbolic; backends numpy, torch, jax, tensorflow"
STUBS = ["the array libraries are replaced by models of their documented functions over symbolic arrays (symx/backends.py); replays use the libraries themselves", "random draws are recorded with the generator they use"]
KINDS = ["numpy", "torch", "jax", "tf"]


def sc(ctx, x):
    """number or zero-dimensional array -> number"""
    import numpy
    return x.reshape(-1)[0] if isinstance(x, numpy.ndarray) and x.size == 1 else x


def same(ctx, got, want):
    """equal values and equal shapes"""
    import numpy
    w = want if isinstance(want, numpy.ndarray) else ctx.pack(want) if isinstance(want, list) else want
    gs, ws = tuple(numpy.shape(got)), tuple(numpy.shape(w))
    if gs != ws:
        return False
    return ctx.eq(sc(ctx, got), sc(ctx, w)) if ws == () else ctx.eq(got, w)


def ints(got, want):
    import numpy
    g = numpy.asarray(got)
    return g.shape == numpy.shape(want) and [int(x) for x in g.reshape(-1)] == [int(x) for x in numpy.asarray(want).reshape(-1)]


def grid(ctx, name, n, m, lo=-5, hi=5):
    return [[ctx.real("%s%d%d" % (name, i, j), lo=lo, hi=hi) for j in range(m)] for i in range(n)]


def vec(ctx, name, n, lo=-5, hi=5):
    return [ctx.real("%s%d" % (name, i), lo=lo, hi=hi) for i in range(n)]


# ------------------------------------------------------------------ families

def sums(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a = grid(ctx, "a", 2, 3)
        t = T(ctx.pack(a))
        al = tot(x for r in a for x in r)
        rows, cols = [tot(r) for r in a], [a[0][j] + a[1][j] for j in range(3)]
        L = [same(ctx, A(nx.sum(t)), al), same(ctx, A(nx.sum(t, axis=0)), cols), same(ctx, A(nx.sum(t, axis=1)), rows), same(ctx, A(nx.sum(t, axis=-1)), rows),
             same(ctx, A(nx.sum(t, axis=1, keepdims=True)), [[x] for x in rows]), same(ctx, A(nx.sum(t, axis=0, keepdims=True)), [cols])]
        ctx.check("sums", L)
        ctx.check("full sum that keeps dimensions", [same(ctx, A(nx.sum(t, keepdims=True)), [[al]])])
        ctx.check("sum over two axes", [same(ctx, A(nx.sum(t, axis=(0, 1))), al)])
        ctx.check("means", [same(ctx, A(nx.mean(t)), al / 6), same(ctx, A(nx.mean(t, axis=0)), [x / 2 for x in cols]), same(ctx, A(nx.mean(t, axis=1)), [x / 3 for x in rows])])
        cs = [tot([x for r in a for x in r][: k + 1]) for k in range(6)]
        ctx.check("cumulative sums", [same(ctx, A(nx.cumsum(t)), cs), same(ctx, A(nx.cumsum(t, axis=0)), [a[0], cols]), same(ctx, A(nx.cumsum(t, axis=1)), [[tot(r[: k + 1]) for k in range(3)] for r in a])])
        ctx.check("products", [same(ctx, A(nx.prod(t, axis=0)), [a[0][j] * a[1][j] for j in range(3)]), same(ctx, A(nx.prod(t)), [a[0][j] * a[1][j] for j in range(3)]), same(ctx, A(nx.prod(t, axis=1)), [r[0] * r[1] * r[2] for r in a])])
        c = [[[ctx.real("c%d%d%d" % (k, i, j), lo=-3, hi=3) for j in range(2)] for i in range(2)] for k in range(2)]
        ctx.check("traces", [same(ctx, A(nx.trace(T(ctx.pack(c)))), [q[0][0] + q[1][1] for q in c]), same(ctx, A(nx.trace(T(ctx.pack(c[0])))), c[0][0][0] + c[0][1][1])])


def norms(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a = grid(ctx, "a", 2, 2, lo="1/4")
        t = T(ctx.pack(a))
        sq = lambda v: ctx.sqrt(tot(x * x for x in v))
        ctx.check("norms", [same(ctx, A(nx.norm(t)), sq([x for r in a for x in r])), same(ctx, A(nx.norm(t, axis=1)), [sq(r) for r in a]), same(ctx, A(nx.norm(t, axis=0, keepdims=True)), [[sq([a[0][j], a[1][j]]) for j in range(2)]])])

        def sd(v):
            m = tot(v) / len(v)
            return ctx.sqrt(tot((x - m) * (x - m) for x in v) / len(v))
        r = [[a[0][0], a[0][1] - 6], [a[1][0], a[1][1] - 6]]
        ctx.check("standard deviations", [same(ctx, A(nx.std(T(ctx.pack(r)), axis=1)), [sd(v) for v in r]), same(ctx, A(nx.std(T(ctx.pack(r[0])))), sd(r[0]))])


def logs(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a = grid(ctx, "a", 2, 2, lo="1/4", hi=3)
        t = T(ctx.pack(a))
        f = lambda v: ctx.log(tot(ctx.exp(x) for x in v))
        ctx.check("log-sum-exp", [same(ctx, A(nx.logsumexp(t, axis=0)), [f([a[0][j], a[1][j]]) for j in range(2)]), same(ctx, A(nx.logsumexp(t, axis=1)), [f(r) for r in a])])
        ctx.check("full log-sum-exp", [same(ctx, A(nx.logsumexp(t)), f([x for r in a for x in r]))])
        ctx.check("parameter for kept dimensions", ["keepdims" in inspect.signature(nx.logsumexp).parameters])
        ctx.check("log-sum-exp that keeps dimensions", [same(ctx, A(nx.logsumexp(t, axis=1, keepdims=True)), [[f(r)] for r in a])])


def kls(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        p, q = grid(ctx, "p", 2, 2, lo="1/4", hi=3), grid(ctx, "q", 2, 2, lo="1/4", hi=3)
        e = ctx.num(1e-16)
        k = [[p[i][j] * ctx.log(p[i][j] / q[i][j] + e) for j in range(2)] for i in range(2)]
        m = [[k[i][j] + q[i][j] - p[i][j] for j in range(2)] for i in range(2)]
        P, Q = T(ctx.pack(p)), T(ctx.pack(q))
        al = lambda z: tot(x for r in z for x in r)
        ctx.check("divergence", [same(ctx, A(nx.kl_div(P, Q)), al(k)), same(ctx, A(nx.kl_div(P, Q, axis=1)), [tot(r) for r in k])])
        ctx.check("divergence with masses", [same(ctx, A(nx.kl_div(P, Q, mass=True)), al(m)), same(ctx, A(nx.kl_div(P, Q, True, axis=0)), [m[0][j] + m[1][j] for j in range(2)])])


def elem(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        np = ctx.np
        u, v = ctx.pack(vec(ctx, "u", 3)), ctx.pack(vec(ctx, "v", 3))
        U, V = T(u), T(v)
        ctx.check("extrema of two arrays", [same(ctx, A(nx.maximum(U, V)), np.maximum(u, v)), same(ctx, A(nx.minimum(U, V)), np.minimum(u, v))])
        one = ctx.num("1/2")
        f = 0.5
        ctx.check("extrema with a number", [same(ctx, A(nx.maximum(U, f)), np.maximum(u, one)), same(ctx, A(nx.maximum(0.5, U)), np.maximum(u, one)), same(ctx, A(nx.minimum(U, f)), np.minimum(u, one)), same(ctx, A(nx.minimum(0, U)), np.minimum(u, ctx.num(0)))])
        ctx.check("clipping", [same(ctx, A(nx.clip(U, -1.0, 2.0)), np.minimum(np.maximum(u, ctx.num(-1)), ctx.num(2))), same(ctx, A(nx.clip(U, 0.5)), np.maximum(u, one)), same(ctx, A(nx.clip(U, a_max=0.5)), np.minimum(u, one))])
        ctx.check("absolute value", [same(ctx, A(nx.abs(U)), np.maximum(u, -u))])
        x = [ctx.real("w%d" % k, lo="1/4", hi=3) for k in range(2)]
        X = T(ctx.pack(x))
        ctx.check("functions", [same(ctx, A(nx.exp(X)), [ctx.exp(z) for z in x]), same(ctx, A(nx.log(X)), [ctx.log(z) for z in x]), same(ctx, A(nx.sqrt(X)), [ctx.sqrt(z) for z in x]), same(ctx, A(nx.power(X, 2)), [z * z for z in x])])
        ctx.check("selection", [same(ctx, A(nx.where(U > V, U, V)), np.maximum(u, v))])


def products(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        u, v = vec(ctx, "u", 3), vec(ctx, "v", 2)
        a, b = grid(ctx, "a", 2, 3), grid(ctx, "b", 3, 2)
        w = vec(ctx, "w", 3)
        U, V, M, N, W = (T(ctx.pack(z)) for z in (u, v, a, b, w))
        mm = [[tot(a[i][k] * b[k][j] for k in range(3)) for j in range(2)] for i in range(2)]
        ctx.check("dot products", [same(ctx, A(nx.dot(U, W)), tot(x * y for x, y in zip(u, w))), same(ctx, A(nx.dot(M, U)), [tot(a[i][k] * u[k] for k in range(3)) for i in range(2)]),
                                   same(ctx, A(nx.dot(V, M)), [v[0] * a[0][k] + v[1] * a[1][k] for k in range(3)]), same(ctx, A(nx.dot(M, N)), mm)])
        ctx.check("matrix products", [same(ctx, A(nx.matmul(M, N)), mm), same(ctx, A(nx.outer(U, V)), [[x * y for y in v] for x in u])])
        ctx.check("einsum", [same(ctx, A(nx.einsum("ij,j->i", M, U)), [tot(a[i][k] * u[k] for k in range(3)) for i in range(2)]), same(ctx, A(nx.einsum("ij,jk->ik", M, N)), mm), same(ctx, A(nx.einsum("ij,ji", M, N)), mm[0][0] + mm[1][1])])


def order(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a = vec(ctx, "a", 3)
        for i in range(3):
            for j in range(i):
                ctx.assume(ctx.ne(a[i], a[j]))
        t = T(ctx.pack(a))
        o = sorted(range(3), key=lambda i: sum(1 for j in range(3) if j != i and ctx.test(a[j] < a[i])))
        s = [a[i] for i in o]
        ctx.check("sort", [same(ctx, A(nx.sort(t)), s), ints(A(nx.argsort(t)), o)])
        s2, i2 = nx.sort2(t)
        ctx.check("sort with positions", [same(ctx, A(s2), s), ints(A(i2), o)])
        ctx.check("extremal entries", [ints(A(nx.argmax(t)), o[2]), ints(A(nx.argmin(t)), o[0]), same(ctx, A(nx.max(t)), s[2]), same(ctx, A(nx.min(t)), s[0])])
        ctx.check("median of three", [same(ctx, A(nx.median(t)), s[1])])
        m = T(ctx.pack([a, [-x for x in a]]))
        neg = [-x for x in s[::-1]]
        ctx.check("sorted rows", [same(ctx, A(nx.sort(m, axis=1)), [s, neg]), same(ctx, A(nx.sort(m)), [s, neg]), ints(A(nx.argsort(m, axis=-1)), [o, o[::-1]]), ints(A(nx.argmax(m, axis=1)), [o[2], o[0]]), ints(A(nx.argmin(m, axis=1)), [o[0], o[2]])])
        ctx.check("extrema of rows", [same(ctx, A(nx.max(m, axis=1)), [s[2], -s[0]]), same(ctx, A(nx.min(m, axis=1, keepdims=True)), [[s[0]], [-s[2]]]), same(ctx, A(nx.max(m, axis=-1, keepdims=True)), [[s[2]], [-s[0]]])])
        ctx.check("medians of rows", [same(ctx, A(nx.median(m, axis=1)), [s[1], -s[1]])])
        ctx.check("entries taken", [same(ctx, A(nx.take_along_axis(m, nx.argsort(m, axis=1), 1)), [s, neg]), same(ctx, A(nx.take_along_axis(t, nx.argsort(t), 0)), s)])


def median4(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        x = [ctx.real("x%d" % k, lo=0, hi=2) for k in range(4)]
        a = [x[0] + x[1] + 1, x[0], x[0] + x[1] + x[2] + 2, x[0] + x[1]]
        ctx.check("median of an even number", [same(ctx, A(nx.median(T(ctx.pack(a)))), (a[0] + a[3]) / 2)])
        # columns of a matrix
        m = [[a[0], a[1]], [a[1], a[0]], [a[2], a[3]]]
        ctx.check("medians of columns", [same(ctx, A(nx.median(T(ctx.pack(m)), axis=0)), [a[0], a[3]])])


def places(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        x = [ctx.real("x%d" % k, lo=0, hi=2) for k in range(2)]
        g = [x[0], x[0] + x[1] + 1]
        v = [ctx.real("v%d" % k, lo=-1, hi=7) for k in range(2)]
        G, V = T(ctx.pack(g)), T(ctx.pack(v))

        def left(q, grid):
            return sum(1 for z in grid if ctx.test(z < q))

        def right(q, grid):
            return sum(1 for z in grid if ctx.test(z <= q))
        ctx.check("insertion to the left", [ints(A(nx.searchsorted(G, V)), [left(q, g) for q in v]), ints(A(nx.searchsorted(G, V, side="left")), [left(q, g) for q in v])])
        ctx.check("insertion to the right", [ints(A(nx.searchsorted(G, V, side="right")), [right(q, g) for q in v])])
        if kind not in ("numpy",):
            h = [[g[0], g[1]], [g[0] - 1, g[1] - 2]]
            w = [[v[0]], [v[1]]]
            H, W = T(ctx.pack(h)), T(ctx.pack(w))
            ctx.assume(ctx.lt(1, x[1]))
            ctx.check("insertion in rows", [ints(A(nx.searchsorted(H, W)), [[left(w[i][0], h[i])] for i in range(2)]), ints(A(nx.searchsorted(H, W, side="right")), [[right(w[i][0], h[i])] for i in range(2)])])


def distinct(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a = vec(ctx, "a", 3, lo=0, hi=2)
        t = T(ctx.pack(a))
        vals = []
        for x in a:
            if not any(ctx.test(x == y) for y in vals):
                vals.append(x)
        vals = sorted(vals, key=lambda z: sum(1 for y in vals if y is not z and ctx.test(y < z)))
        inv = [next(k for k, y in enumerate(vals) if ctx.test(x == y)) for x in a]
        ctx.check("distinct values", [same(ctx, A(nx.unique(t)), vals)])
        y, i = nx.unique(t, return_inverse=True)
        ctx.check("positions among distinct values", [same(ctx, A(y), vals), ints(A(i), inv)])


def shapes(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a, b = grid(ctx, "a", 2, 3), grid(ctx, "b", 2, 3)
        u, v = vec(ctx, "u", 2), vec(ctx, "v", 3)
        M, N, U, V = (T(ctx.pack(z)) for z in (a, b, u, v))
        tr = [[a[i][j] for i in range(2)] for j in range(3)]
        ctx.check("reshaping", [same(ctx, A(nx.reshape(M, (3, 2))), [[a[0][0], a[0][1]], [a[0][2], a[1][0]], [a[1][1], a[1][2]]]), same(ctx, A(nx.transpose(M)), tr), same(ctx, A(nx.transpose(M, (1, 0))), tr)])
        three = [a, b]
        ctx.check("axes", [same(ctx, A(nx.transpose(T(ctx.pack(three)), (0, 2, 1))), [[[z[i][j] for i in range(2)] for j in range(3)] for z in three]), same(ctx, A(nx.transpose(T(ctx.pack(three)))), [[[three[k][i][j] for k in range(2)] for i in range(2)] for j in range(3)]),
                           same(ctx, A(nx.unsqueeze(U, 1)), [[x] for x in u]), same(ctx, A(nx.squeeze(nx.unsqueeze(M, 0), axis=0)), a), same(ctx, A(nx.squeeze(nx.unsqueeze(nx.unsqueeze(U, 0), 0))), u)])
        ctx.check("joining", [same(ctx, A(nx.concatenate([M, N], axis=0)), a + b), same(ctx, A(nx.concatenate([M, N], axis=1)), [x + y for x, y in zip(a, b)]), same(ctx, A(nx.concatenate([U, V])), u + v),
                              same(ctx, A(nx.stack([M, N])), [a, b]), same(ctx, A(nx.stack([M, N], axis=1)), [[a[i], b[i]] for i in range(2)])])
        ctx.check("reversal", [same(ctx, A(nx.flip(V)), v[::-1]), same(ctx, A(nx.flip(M, axis=0)), a[::-1]), same(ctx, A(nx.flip(M, axis=1)), [r[::-1] for r in a]), same(ctx, A(nx.flip(M)), [r[::-1] for r in a[::-1]])]+ ([] if kind == "tf" else [same(ctx, A(nx.flip(M, axis=(0, 1))), [r[::-1] for r in a[::-1]])]))
        ctx.check("repetition", [same(ctx, A(nx.repeat(U, 2)), [u[0], u[0], u[1], u[1]]), same(ctx, A(nx.repeat(M, 2, axis=0)), [a[0], a[0], a[1], a[1]]), same(ctx, A(nx.repeat(M, 2, axis=1)), [[x for x in r for _ in range(2)] for r in a]),
                                 same(ctx, A(nx.tile(U, (2,))), u + u), same(ctx, A(nx.tile(M, (2, 1))), a + a), same(ctx, A(nx.tile(U, (2, 1))), [u, u])])
        z = ctx.num(0)
        f = ctx.num("3/2")
        ctx.check("padding", [same(ctx, A(nx.zero_pad(V, [(1, 2)])), [z] + v + [z, z]), same(ctx, A(nx.zero_pad(M, [(1, 0), (0, 2)])), [[z] * 5] + [r + [z, z] for r in a]), same(ctx, A(nx.zero_pad(M, ((0, 0), (1, 0)), value=1.5)), [[f] + r for r in a])])
        X, Y = nx.meshgrid(U, V)
        ctx.check("grids", [same(ctx, A(X), [u] * 3), same(ctx, A(Y), [[y, y] for y in v])])
        s = [[u[i] if i == j else z for j in range(2)] for i in range(2)]
        ctx.check("diagonals", [same(ctx, A(nx.diag(U)), s), same(ctx, A(nx.diag(T(ctx.pack([[u[0], v[0]], [v[1], u[1]]])))), u), same(ctx, A(nx.diag(T(ctx.pack([[u[0], v[0]], [v[1], u[1]]])), k=1)), [v[0]]), same(ctx, A(nx.diag(V, k=-1)), [[z] * 4] + [[v[i] if i == j else z for j in range(3)] + [z] for i in range(3)])])


def creation(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        import numpy
        x = ctx.real("x", lo=-3, hi=3)
        U = T(ctx.pack([x, x + 1]))
        z, o = ctx.num(0), ctx.num(1)
        ctx.check("constants", [same(ctx, A(nx.zeros((2, 1), type_as=U)), [[z], [z]]), same(ctx, A(nx.zeros(2, type_as=U)), [z, z]), same(ctx, A(nx.ones((2,), type_as=U)), [o, o]), same(ctx, A(nx.ones(3)), [o] * 3), same(ctx, A(nx.zeros((2, 2))), [[z, z], [z, z]]), same(ctx, A(nx.full((2, 2), 1.5, type_as=U)), [[ctx.num("3/2")] * 2] * 2)])
        ctx.check("identity", [same(ctx, A(nx.eye(2, type_as=U)), [[o, z], [z, o]]), same(ctx, A(nx.eye(2, 3)), [[o, z, z], [z, o, z]])])
        ctx.check("ranges", [ints(A(nx.arange(3)), [0, 1, 2]), ints(A(nx.arange(5, 1, 2)), [1, 3]), ints(A(nx.arange(4, start=1, type_as=U)), [1, 2, 3]), same(ctx, A(nx.linspace(0, 1, 5, type_as=U)), [ctx.num("%d/4" % k) for k in range(5)])])
        W = nx.copy(U)
        ctx.check("copy", [same(ctx, A(W), [x, x + 1])])
        if kind in ("numpy", "torch"):
            W[0] = 7.0
            ctx.check("independent copy", [same(ctx, A(U), [x, x + 1]), same(ctx, A(W), [ctx.num(7), x + 1])])
        arr = ctx.pack([x, x + 1])
        ctx.check("conversion", [same(ctx, nx.to_numpy(nx.from_numpy(arr)), arr), same(ctx, nx.to_numpy(nx.from_numpy(arr, type_as=U)), arr), same(ctx, A(nx.from_numpy(arr, type_as=U)), arr)])
        ctx.check("several conversions", [len(nx.to_numpy(U, W)) == 2, len(nx.from_numpy(arr, arr, type_as=U)) == 2])
        ctx.check("detached", [same(ctx, A(nx.detach(U)), arr), len(nx.detach(U, U)) == 2])
        ctx.check("types", [nx.is_floating_point(U) or ctx.sym, nx.dtype_device(U)[0] == U.dtype, nx.bitsize(U) == 64, nx.device_type(U) == "CPU"] if kind != "numpy" else [nx.device_type(U) == "CPU"])
        nx.assert_same_dtype_device(U, W)
        Z = ctx.pack([x, x + 1, x + 2, x + 3])
        Z[0], Z[1], Z[2] = float("nan"), float("inf"), -float("inf")
        ctx.check("replaced values", same(ctx, A(nx.nan_to_num(T(Z), nan=2.5, posinf=7.0, neginf=-4.0)), [ctx.num("5/2"), ctx.num(7), ctx.num(-4), x + 3]))
        ctx.check("nan replaced by zero", same(ctx, A(nx.nan_to_num(T(Z))[0]), z))
        ctx.check("finiteness", [bool(numpy.all(numpy.asarray(A(nx.isfinite(U)), dtype=bool))), not numpy.any(numpy.asarray(A(nx.isnan(U)), dtype=bool)), not numpy.any(numpy.asarray(A(nx.isinf(U)), dtype=bool))])


def select(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        import numpy
        a = grid(ctx, "a", 2, 2)
        t = T(ctx.pack(a))
        pos = [(i, j) for i in range(2) for j in range(2) if ctx.test(a[i][j] > 0)]
        i, j = nx.where(t > 0)
        ctx.check("positions", [ints(A(i), [p[0] for p in pos]), ints(A(j), [p[1] for p in pos])])
        ctx.check("any", [bool(numpy.asarray(A(nx.any(t > 0))).reshape(-1)[0]) == (len(pos) > 0)])


def sparse(ctx, kind, dup=True):
    with session(ctx, kind) as (B, nx, T, A):
        import numpy
        v = vec(ctx, "v", 4, lo="1/2")
        rows, cols = ([0, 2, 0, 1], [1, 0, 1, 2]) if dup else ([2, 0, 1, 0], [0, 1, 2, 0])
        d = [[ctx.num(0)] * 3 for _ in range(3)]
        for x, i, j in zip(v, rows, cols):
            d[i][j] = d[i][j] + x
        I = lambda z: T(numpy.array(z))
        S = nx.coo_matrix(T(ctx.pack(v)), I(rows), I(cols), shape=(3, 3), type_as=T(ctx.pack(v)))
        ctx.check("sparse matrix", [same(ctx, A(nx.todense(S)), d)])
        S2 = nx.coo_matrix(T(ctx.pack(v)), I(rows), I(cols))
        ctx.check("deduced shape", [same(ctx, A(nx.todense(S2)), d)])
        D = T(ctx.pack(d))
        ctx.check("dense matrix", [same(ctx, A(nx.todense(D)), d), not nx.issparse(D), nx.issparse(S) if kind in ("numpy", "torch") else True])
        if kind in ("numpy", "torch"):
            r, c, w, sh = nx.sparse_coo_data(S)
            e = [[ctx.num(0)] * 3 for _ in range(3)]
            for x, i, j in zip(A(w), A(r), A(c)):
                e[int(i)][int(j)] = e[int(i)][int(j)] + x
            ctx.check("coordinates", [same(ctx, ctx.pack(e), d), tuple(sh) == (3, 3)])
            if kind == "torch":
                ctx.check("distinct coordinates", [len({(int(i), int(j)) for i, j in zip(A(r), A(c))}) == len(A(r))])


def zeros(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        import numpy
        v = vec(ctx, "v", 3)
        rows, cols = [0, 1, 1], [1, 0, 1]
        keep = [ctx.num(0) if ctx.test(x <= 0.5) and ctx.test(x >= -0.5) else x for x in v]
        d = lambda w: [[ctx.num(0), w[0]], [w[1], w[2]]]
        I = lambda z: T(numpy.array(z))
        S = nx.coo_matrix(T(ctx.pack(v)), I(rows), I(cols), shape=(2, 2), type_as=T(ctx.pack(v)))
        ctx.check("small entries of a sparse matrix", [same(ctx, A(nx.todense(nx.eliminate_zeros(S, threshold=0.5))), d(keep))])
        S = nx.coo_matrix(T(ctx.pack(v)), I(rows), I(cols), shape=(2, 2), type_as=T(ctx.pack(v)))
        ctx.check("zero entries", [same(ctx, A(nx.todense(nx.eliminate_zeros(S))), d(v))])
        ctx.check("small entries of a dense matrix", [same(ctx, A(nx.eliminate_zeros(T(ctx.pack(d(v))), threshold=0.5)), d(keep))])


def linear(ctx, kind):
    with session(ctx, kind) as (B, nx, T, A):
        a = [[ctx.real("a", lo=1, hi=3), ctx.real("b", lo="-1/2", hi="1/2")], [ctx.real("c", lo="-1/2", hi="1/2"), ctx.num(2)]]
        r = [[x] for x in vec(ctx, "r", 2)]
        det = a[0][0] * a[1][1] - a[0][1] * a[1][0]
        M = T(ctx.pack(a))
        X = A(nx.solve(M, T(ctx.pack(r))))
        ctx.check("linear system", [ctx.eq(tot(a[i][k] * X[k, 0] for k in range(2)), r[i][0]) for i in range(2)])
        V = A(nx.inv(M))
        ctx.check("inverse", [ctx.eq(tot(a[i][k] * V[k, j] for k in range(2)), ctx.num(int(i == j))) for i in range(2) for j in range(2)])
        ctx.check("determinant", [same(ctx, A(nx.det(M)), det)])


def eig(ctx, V, s):
    """[matrix with eigenvectors V and eigenvalues s**2, ...] and the matching eigh model"""
    n = len(s)
    return [[tot(V[i][k] * s[k] * s[k] * V[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def roots(ctx, kind, batch=False, zero=False):
    with session(ctx, kind) as (B, nx, T, A):
        c, d = ctx.num("3/5"), ctx.num("4/5")
        Vs = [[[c, -d], [d, c]], [[d, c], [-c, d]]][: 2 if batch else 1]
        ss = [[ctx.num(0) if zero else ctx.real("s%d" % k, lo="1/4", hi=1), ctx.real("t%d" % k, lo="5/4", hi=3)] for k in range(len(Vs))]
        mats = [eig(ctx, V, s) for V, s in zip(Vs, ss)]
        asked = []

        def eigh(x, *z, **k):
            asked.append(x)
            L = ctx.pack([[y * y for y in s] for s in ss])
            W = ctx.pack(Vs)
            return (L, W) if batch else (L[0], W[0])
        if ctx.sym:
            ctx.contract("eigh", eigh)
        want = [[[tot(V[i][k] * s[k] * V[j][k] for k in range(2)) for j in range(2)] for i in range(2)] for V, s in zip(Vs, ss)]
        pick = lambda z: ctx.pack(z if batch else z[0])
        M = T(pick(mats))
        if kind == "torch":
            M.requires_grad = True
        Y = nx.sqrtm(M)
        if ctx.sym:
            if not asked:
                return
            ctx.check("matrix decomposed", [ctx.eq(A(asked[0]), pick(mats))])
        ctx.check("square root", [same(ctx, A(Y), pick(want))])
        if kind == "torch":
            G = [[[ctx.real("g%d%d%d" % (k, i, j), lo=-2, hi=2) for j in range(2)] for i in range(2)] for k in range(len(Vs))]
            if ctx.sym:
                X = Y.grad_fn[0](T(pick(G)))
                X = (X[0] if isinstance(X, tuple) else X).x
            else:
                Y.backward(T(pick(G)))
                X = M.grad.numpy()
            X = X if batch else [X]
            L = []
            for k in range(len(Vs)):
                gs = [[(G[k][i][j] + G[k][j][i]) / 2 for j in range(2)] for i in range(2)]
                xs = [[X[k][i, j] for j in range(2)] for i in range(2)]
                if zero:
                    # only the reachable part: compare in the eigenbasis
                    V = Vs[k]
                    h = lambda z, p, q: tot(V[i][p] * z[i][j] * V[j][q] for i in range(2) for j in range(2))
                    L += [ctx.eq(h(xs, p, q) * (ss[k][p] + ss[k][q]), h(gs, p, q)) for p, q in ((0, 1), (1, 0), (1, 1))] + [ctx.eq(h(xs, 0, 0), 0)]
                else:
                    L += [ctx.eq(tot(want[k][i][l] * xs[l][j] + xs[i][l] * want[k][l][j] for l in range(2)), gs[i][j]) for i in range(2) for j in range(2)]
            ctx.check("gradient of the square root", L)


def gradient(ctx, kind, parts=2, scaled=True, moving=False):
    """the value keeps its content and has the given gradients"""
    with session(ctx, kind) as (B, nx, T, A):
        val = ctx.real("val", lo=-4, hi=4)
        xs = [ctx.pack(vec(ctx, "x%d" % k, 2)) for k in range(parts)]
        gs = [3 * x for x in xs] if moving else [ctx.pack(vec(ctx, "g%d" % k, 2)) for k in range(parts)]
        u = ctx.real("up", lo=-3, hi=3) if scaled else ctx.num(1)
        if ctx.sym:
            v = T(ctx.pack([val]))
            ins, grads = tuple(T(x) for x in xs), tuple(T(g) for g in gs)
            if kind == "jax":
                out = []
                for k in range(parts):
                    for i in range(2):
                        tans = [ctx.pack([ctx.num(int(k == q and i == j)) for j in range(2)]) for q in range(parts)]
                        ds = tuple(Dual(x, t) for x, t in zip(xs, tans))
                        gr = tuple(Dual(3 * x, 3 * t) for x, t in zip(xs, tans)) if moving else grads
                        r = nx.set_gradients(Dual(ctx.pack([val]), ctx.pack([ctx.num(0)])), ds, gr)
                        out.append(sc(ctx, A(r.t)) * u)
                        ctx.check("value", [ctx.eq(sc(ctx, A(r.v)), val)])
                got = [out[2 * k: 2 * k + 2] for k in range(parts)]
            else:
                r = nx.set_gradients(v, ins, grads)
                ctx.check("value", [ctx.eq(sc(ctx, A(r)), val)])
                if not hasattr(r, "grad_fn"):
                    ctx.check("no gradient", [kind == "numpy"])
                    return
                back = r.grad_fn[0](T(ctx.pack([u])))
                if kind == "torch":
                    ctx.check("untracked arguments", [back[0] is None, back[1] is None])
                    back = back[2:]
                if kind == "tf" and len(back) == 1 and isinstance(back[0], (tuple, list)):
                    back = back[0]
                got = [[A(z)[i] for i in range(2)] for z in back]
        elif kind == "numpy":
            ctx.check("value", [ctx.eq(nx.set_gradients(val, xs, gs), val)])
            return
        elif kind == "torch":
            import torch
            v = torch.tensor(float(val), dtype=torch.float64)
            ins = [torch.tensor(x, requires_grad=True) for x in xs]
            r = nx.set_gradients(v, ins, [3 * x for x in ins] if moving else [torch.tensor(g) for g in gs])
            ctx.check("value", [ctx.eq(float(r), val)])
            (r * float(u)).backward()
            got = [x.grad.numpy() for x in ins]
        elif kind == "jax":
            import jax
            import jax.numpy as jnp

            def f(ins):
                return nx.set_gradients(jnp.array(float(val)), ins, tuple(3 * x for x in ins) if moving else tuple(jnp.array(g) for g in gs)) * float(u)
            ins = tuple(jnp.array(x) for x in xs)
            got = [B.np.array(g) for g in jax.grad(f)(ins)]
            ctx.check("value", [ctx.eq(float(nx.set_gradients(jnp.array(float(val)), ins, tuple(jnp.array(g) for g in gs))), val)])
        else:
            import tensorflow as tf
            ins = tuple(tf.constant(x) for x in xs)
            with tf.GradientTape() as tape:
                for x in ins:
                    tape.watch(x)
                r = nx.set_gradients(tf.constant(float(val), dtype=tf.float64), ins, tuple(3 * x for x in ins) if moving else tuple(tf.constant(g) for g in gs))
                w = r * float(u)
            ctx.check("value", [ctx.eq(float(r), val)])
            got = [z.numpy() for z in tape.gradient(w, ins)]
        ctx.check("gradients", [ctx.eq(got[k][i], u * gs[k][i]) for k in range(parts) for i in range(2)])


def draws(ctx, kind):
    """draws come from the backend's seeded generator only"""
    with session(ctx, kind) as (B, nx, T, A):
        import numpy
        x = ctx.real("x", lo=0, hi=1)
        U = T(ctx.pack([x, x]))
        fs = [("rand", lambda: nx.rand(2, 3, type_as=U)), ("rand", lambda: nx.rand(2, 3)), ("randn", lambda: nx.randn(2, 3, type_as=U)), ("randn", lambda: nx.randn(2, 3)), ("perm", lambda: nx.randperm(4)), ("perm", lambda: nx.randperm(4, type_as=U))]
        if ctx.sym:
            used = []
            for s in (7, 11):
                nx.seed(s)
                for nm, f in fs:
                    r = f()
                    d = getattr(r, "drawn", None)
                    if d is None:
                        return
                    ctx.check("kind of draw", [d[0] == nm, tuple(r.shape) == ((4,) if nm == "perm" else (2, 3))])
                    if kind == "torch":
                        ctx.check("seeded generator", [d[1] is not None and d[1].log and d[1].log[-1] == s])
                    elif kind == "jax":
                        k = d[1]
                        used.append(repr(k))
                        while isinstance(k[0], tuple):
                            k = k[0]
                        ctx.check("seeded generator", [k == ("key", s)])
                    else:
                        ctx.check("seeded generator", [(d[1][1] if isinstance(d[1], tuple) else d[1]).s == ("seed", s)])
                        if nm == "rand":
                            ctx.check("unit interval", [r.bounds == (0.0, 1.0)])
            ctx.check("fresh draws", [len(set(used)) == len(used)])
        else:
            def go():
                nx.seed(7)
                return [numpy.array(A(f())) for _, f in fs for _ in range(2)]
            p = go()
            numpy.random.seed(0)
            if kind == "torch":
                import torch
                torch.manual_seed(3)
            if kind == "tf":
                import tensorflow as tf
                tf.random.set_seed(5)
            q = go()
            ctx.check("seeded generator", [all(numpy.array_equal(a, b) for a, b in zip(p, q))])
            ctx.check("fresh draws", [not numpy.array_equal(p[2 * k], p[2 * k + 1]) for k in range(4)])
            ctx.check("unit interval", [all((p[k] >= 0).all() and (p[k] <= 1).all() for k in range(4))])
            ctx.check("kind of draw", [all((abs(p[k]) <= 6).all() for k in range(4, 8)) and sorted(int(z) for z in p[8]) == [0, 1, 2, 3] and any((p[k] < 0).any() for k in range(4, 8))])


def detect(ctx, kind):
    """the backend is the one of the given arrays"""
    with session(ctx, kind) as (B, nx, T, A):
        import numpy
        x = ctx.real("x", lo=0, hi=1)
        a = ctx.pack([x, x + 1])
        U = T(a)
        ctx.check("backend of the arrays", [B.get_backend(U) is nx, B.get_backend(U, U) is nx, B.get_backend(None, U, None) is nx])

        def refused(*z):
            try:
                B.get_backend(*z)
                return False
            except ValueError:
                return True
        ctx.check("nothing to detect", [refused(), refused(None, None)])
        ctx.check("unknown containers", [refused([1.0, 2.0]), refused(1.0)])
        if kind != "numpy":
            ctx.check("mixed arrays", [refused(U, a), refused(a, U)])
            ctx.check("numpy arrays", [B.get_backend(a) is not nx])
            r = B.to_numpy(U, a)
            ctx.check("conversion of mixed arrays", [len(r) == 2, same(ctx, r[0], a), same(ctx, r[1], a), same(ctx, B.to_numpy(U), a)])
        if kind == "torch":
            S = nx.coo_matrix(U, T(numpy.array([0, 1])), T(numpy.array([1, 0])), shape=(2, 2), type_as=U)
            ctx.check("sparse and dense", [B.get_backend(S, U) is nx])


def absgrad(ctx, kind="jax"):
    """the derivative of the absolute value is the sign, and zero at a zero array"""
    with session(ctx, "jax") as (B, nx, T, A):
        x = ctx.real("x", lo=-3, hi=3)
        t = ctx.real("t", lo=-3, hi=3)
        s = 1 if ctx.test(x > 0) else (-1 if ctx.test(x < 0) else 0)
        if ctx.sym:
            f = B.norm_1d_jax
            if getattr(f, "jvp", None) is None:
                return
            p, d = f.jvp((T(ctx.pack([x])),), (T(ctx.pack([t])),))
            ctx.check("absolute value", [ctx.eq(A(p)[0], s * x)])
            ctx.check("derivative", [ctx.eq(A(d)[0], s * t)])
        else:
            import jax
            import jax.numpy as jnp
            p, d = jax.jvp(nx.abs, (jnp.array([float(x)]),), (jnp.array([float(t)]),))
            ctx.check("absolute value", [ctx.eq(float(p[0]), s * x)])
            ctx.check("derivative", [ctx.eq(float(d[0]), s * t)])


CASES = []
for k in KINDS:
    for f, o in ((sums, {}), (norms, {}), (logs, {}), (kls, {}), (elem, {"opt_lazymax": True}), (products, {}), (order, {}), (median4, {}), (places, {}), (distinct, {}), (shapes, {}), (creation, {}), (select, {}), (sparse, {}), (zeros, {}), (linear, {}), (roots, {}), (detect, {})):
        CASES.append(Case("%s_%s" % (f.__name__, k), f, kind=k, **o))
    CASES.append(Case("sparse_nodup_%s" % k, sparse, kind=k, dup=False))
    CASES.append(Case("roots_batch_%s" % k, roots, kind=k, batch=True))
    CASES.append(Case("gradient_%s" % k, gradient, kind=k))
    CASES.append(Case("gradient_one_%s" % k, gradient, kind=k, parts=1, scaled=False))
    CASES.append(Case("gradient_moving_%s" % k, gradient, kind=k, parts=1, moving=True))
for k in KINDS[1:]:
    CASES.append(Case("draws_%s" % k, draws, kind=k))
CASES.append(Case("roots_zero_torch", roots, kind="torch", zero=True))
CASES.append(Case("absgrad_jax", absgrad))
