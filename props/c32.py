"""C32 sampled and quantized Gromov-Wasserstein: unbiased estimates, sampled updates, plans glued from local couplings."""
import builtins
import itertools

from symx.worker import Case
from props.c29 import bind, pts, tot, sq, PTS, QTS

QUICK_WALL = 15
BOUNDS = "2-4 nodes per space, 1-3 partitions, symbolic structures, plans, weights or features; every sequence of column draws for the expectation (up to 2^6), prescribed draws elsewhere"
STUBS = ["random draws are prescribed (all of them for the expectation)", "solvers decided by other properties (1D transport, Sinkhorn, EMD, Gromov-Wasserstein on the representants) are recorded with their arguments and return arbitrary couplings", "graph partitioning, page rank and k-means of third-party libraries return arbitrary labels"]
CV = [["1/5", "1", "3"], ["2", "1/2", "5/3"], ["7/3", "4", "1/7"]]
DV = [["3/2", "2/3", "1/4"], ["5", "1/3", "6/5"], ["1/6", "7/2", "2"]]


def mat(ctx, V, n, m, free=(), pref="c"):
    M = [[ctx.num(V[i][j]) for j in range(m)] for i in range(n)]
    for s in free:
        M[int(s[0])][int(s[1])] = ctx.real(pref + s, lo=0, hi=6)
    return ctx.pack(M)


def loss(x, y):
    d = x - 2 * y
    return d * d


def rows(X):
    return [[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])]


class Draws:
    """prescribed draws; remembers what was asked"""

    def __init__(self, seq, np, coins=()):
        self.seq, self.asked, self.np, self.coins = list(seq), [], np, list(coins)

    def choice(self, a, size=None, p=None, replace=True):
        self.asked.append((a, size, p, replace))
        return self.np.array(self.seq[len(self.asked) - 1])

    def rand(self, *z):
        return self.np.array([self.coins.pop(0)])


def plan(ctx, n, m, uniform_rows, free=2):
    """a plan whose larger side is uniform"""
    k = max(n, m)
    R = []
    for i in range(k):
        x = ctx.real("t%d" % i, lo="1/50", hi="1/%d" % (2 * k)) if i < free else ctx.num("1/%d" % (4 * k + i))
        R.append([x, ctx.num(1) / k - x] if min(n, m) == 2 else [x, ctx.num("1/%d" % (3 * k)), ctx.num(1) / k - x - ctx.num("1/%d" % (3 * k))])
    return R if uniform_rows else [list(c) for c in zip(*R)]


def expectation(ctx, n, m, ij, sparse=False, std=False):
    """the mean over the column draws of the estimate is the Gromov-Wasserstein objective"""
    import numpy
    E = ctx.ot.gromov._estimators
    ctx.patch(E, "check_random_state", lambda s: s)
    C1, C2 = mat(ctx, CV, n, n, ["01"], "c"), mat(ctx, DV, m, m, ["10"], "d")
    T = plan(ctx, n, m, n >= m, free=2 if max(n, m) == 2 else 1)
    p, q = [tot(r) for r in T], [tot(c) for c in zip(*T)]
    k, s = max(n, m), min(n, m)
    L = T if n >= m else [list(c) for c in zip(*T)]
    out = 0
    for d in itertools.product(range(s), repeat=2 * k):
        seq = [ij[0], ij[1]]
        pr = 1
        for i in range(k):
            seq += [[d[2 * i]], [d[2 * i + 1]]]
        g = Draws([numpy.array(z) for z in seq], numpy)
        e = E.GW_distance_estimation(C1, C2, ctx.pack(p), ctx.pack(q), loss, ctx.pack(T), std=False, random_state=g)
        ctx.check("draws", [len(g.asked) == 2 + 2 * k, g.asked[0][0] == k, g.asked[0][1] == k, g.asked[0][3] is False, g.asked[1][3] is False, ctx.eq(g.asked[0][2], ctx.pack(p if n >= m else q)), ctx.eq(g.asked[1][2], ctx.pack(p if n >= m else q))])
        for i in range(k):
            for t in (0, 1):
                z = g.asked[2 + 2 * i + t]
                ctx.check("column draws", [z[0] == s, z[1] == 1, z[3] is True])
                pr = pr * z[2][d[2 * i + t]]
        out = out + pr * e
    obj = tot(loss(C1[i, j], C2[a, b]) * T[i][a] * T[j][b] for i in range(n) for j in range(n) for a in range(m) for b in range(m))
    ctx.check("unbiased", ctx.eq(out, obj))


def estimate(ctx, n, m, np_, nq, std, I, J, K, sparse=False):
    """one draw: mean and deviation of the losses of the drawn pairs"""
    import numpy
    E = ctx.ot.gromov._estimators
    ctx.patch(E, "check_random_state", lambda s: s)
    C1, C2 = mat(ctx, CV, n, n, ["01"], "c"), mat(ctx, DV, m, m, ["10"], "d")
    T = [[ctx.num(1) / ((i + 2) * (j + 3)) for j in range(m)] for i in range(n)]
    T[0][1] = ctx.real("t", lo="1/10", hi=1)
    p, q = [tot(r) for r in T], [tot(c) for c in zip(*T)]
    TT = ctx.pack(T)
    if sparse:
        import scipy.sparse
        TT = ctx.ot.backend.get_backend(TT).tocsr(TT)
    want = min(np_ or max(n, m), max(n, m))
    a, w = max(n, m), max(2, nq or 1) if std else (nq or 1)
    seq = [I[:want], J[:want]]
    for i in range(want):
        seq += [K[2 * i][:w], K[2 * i + 1][:w]]
    g = Draws([numpy.array(z) for z in seq], numpy)
    r = E.GW_distance_estimation(C1, C2, ctx.pack(p), ctx.pack(q), loss, TT, nb_samples_p=np_, nb_samples_q=nq, std=std, random_state=g)
    L = T if n >= m else [list(c) for c in zip(*T)]
    ctx.check("first draws", [z[0] == a and z[1] == want and z[3] is False for z in g.asked[:2]] + [ctx.eq(z[2], ctx.pack(p if n >= m else q)) for z in g.asked[:2]])
    for i in range(want):
        for t, ix in ((0, I), (1, J)):
            z = g.asked[2 + 2 * i + t]
            row = L[ix[i]]
            ctx.check("conditional draws", [z[0] == min(n, m), z[1] == w, z[3] is True, ctx.eq(ctx.pack([z[2][k] * tot(row) for k in range(len(row))]), ctx.pack(row))])
    V = [[[loss(C1[I[i], J[j]], C2[K[2 * i][s], K[2 * j + 1][s]]) if n >= m else loss(C1[K[2 * i][s], K[2 * j + 1][s]], C2[I[i], J[j]]) for s in range(w)] for j in range(want)] for i in range(want)]
    mean = tot(x for r_ in V for c in r_ for x in c) / (want * want * w)
    if not std:
        ctx.check("estimate", ctx.eq(r, mean))
        return
    ctx.check("estimate", ctx.eq(r[0], mean))
    var = 0
    for r_ in V:
        for c in r_:
            mu = tot(c) / w
            var = var + tot((x - mu) * (x - mu) for x in c) / w
    ctx.check("deviation", [ctx.eq(r[1] * r[1] * want ** 4, var), ctx.le(0, r[1])])


def marg(ctx, n, m):
    return ctx.arr([["1"], ["1/4", "3/4"], ["1/2", "1/3", "1/6"]][n - 1]), ctx.arr([["1"], ["2/3", "1/3"], ["1/5", "2/5", "2/5"]][m - 1])


def coup(ctx, p, q, k, x=None):
    """couplings of p and q: the product shifted by (symbolic) x on a 2x2 minor"""
    G = [[p[i] * q[j] for j in range(q.shape[0])] for i in range(p.shape[0])]
    e = ctx.num("1/%d" % (40 + k)) if x is None else x
    if p.shape[0] > 1 and q.shape[0] > 1:
        i, j = (k % (p.shape[0] - 1)), (k // 2) % (q.shape[0] - 1)
        for a, b, s in ((i, j, 1), (i + 1, j + 1, 1), (i, j + 1, -1), (i + 1, j, -1)):
            G[a][b] = G[a][b] + s * e
    return G


def pointwise(ctx, n, m, its, alpha, thr="0", log=False):
    """each step mixes the 1D coupling of the two drawn rows; the best estimated plan is returned"""
    import numpy
    E = ctx.ot.gromov._estimators
    nx = None
    C1, C2 = mat(ctx, CV, n, n, ["01"], "c"), mat(ctx, DV, m, m, ["10"], "d")
    p, q = marg(ctx, n, m)
    nx = ctx.ot.backend.get_backend(C1, C2)
    rk = [(t * 2 + 1) % n for t in range(its + 1)]
    ck = [(t + 1) % m for t in range(its + 1)]
    seq = [v for t in range(its + 1) for v in ([rk[t]], [ck[t]])]
    g = Draws([numpy.array(z) for z in seq], numpy)
    ctx.patch(E, "check_random_state", lambda s: s)
    G = [coup(ctx, p, q, t, ctx.real("e", lo=0, hi="1/50") if t == 1 else None) for t in range(its + 1)]
    calls, est = [], []
    orig = ctx.ot.lp.emd_1d

    def f(*z, **k):
        calls.append(bind(orig, z, k))
        return nx.coo_matrix(ctx.pack([x for r in G[len(calls) - 1] for x in r]), [i for i in range(n) for j in range(m)], [j for i in range(n) for j in range(m)], shape=(n, m))
    ctx.patch(E, "emd_1d", f)
    o2 = E.GW_distance_estimation
    vals = [ctx.real("v%d" % t, lo=0, hi=3) for t in range(4)]

    def ge(*z, **k):
        d = bind(o2, z, k)
        d["T"] = nx.todense(d["T"])
        est.append(d)
        return vals[len(est) - 1] if d["std"] is False else (ctx.num(9), ctx.num(8))
    ctx.patch(E, "GW_distance_estimation", ge)
    al = ctx.num(alpha)
    if thr == "0":
        tv = 0
    else:
        tv = ctx.num(thr)
    r = E.pointwise_gromov_wasserstein(C1, C2, p, q, loss, alpha=1 if alpha == "1" else (al if ctx.sym else float(al)), max_iter=its, threshold_plan=tv, log=log, random_state=g)
    T = r[0] if log else r
    ctx.check("1D problems", [len(calls) == its + 1] + [c for t, d in enumerate(calls) for c in (ctx.eq(d["x_a"], ctx.pack([C1[rk[t], j] for j in range(n)])), ctx.eq(d["x_b"], ctx.pack([C2[ck[t], j] for j in range(m)])), ctx.eq(d["a"], p), ctx.eq(d["b"], q), d["metric"] == "sqeuclidean")])
    # iterates
    cur, its_ = G[0], []
    pr = [("first", 0, p, n), ("first", 1, q, m)]
    L = [z[0] == c and z[1] == 1 for z, (_, _, _, c) in zip(g.asked[:2], pr)] + [ctx.eq(g.asked[0][2], p), ctx.eq(g.asked[1][2], q)]
    for t in range(1, its + 1):
        z1, z2 = g.asked[2 * t], g.asked[2 * t + 1]
        row = cur[rk[t]]
        L += [z1[0] == n, ctx.eq(z1[2], p), z2[0] == m] + [ctx.eq(z2[2][j] * tot(row), row[j]) for j in range(m)]
        cur = G[t] if alpha == "1" else [[(1 - al) * x + al * y for x, y in zip(a, b)] for a, b in zip(cur, G[t])]
        if alpha != "1":
            cur = [[ctx.num(0) if thr != "0" and ctx.test(abs(x) <= ctx.num(thr)) else x for x in a] for a in cur]
        its_.append(cur)
    ctx.check("draws", L)
    when = [t for t in range(its) if t % 10 == 0 or t == its - 1]
    ctx.check("estimated plans", [len(est) == len(when) + (1 if log else 0)] + [ctx.eq(d["T"], ctx.pack(its_[t])) for d, t in zip(est, when)] + [d["random_state"] is g for d in est])
    k = 0
    for i in range(1, len(when)):
        if ctx.test(vals[i] < vals[k]):
            k = i
    ctx.check("best plan", ctx.eq(nx.todense(T), ctx.pack(its_[when[k]])))
    if log:
        ctx.check("log", [ctx.eq(est[-1]["T"], ctx.pack(its_[when[k]])), ctx.eq(r[1]["gw_dist_estimated"], 9), ctx.eq(r[1]["gw_dist_std"], 8)])
    if thr == "0":
        ctx.check("marginals", [ctx.eq(ctx.np.sum(nx.todense(T), axis=1), p), ctx.eq(ctx.np.sum(nx.todense(T), axis=0), q)])


def sampled(ctx, n, m, its, nb, eps, symmetric=True, coins=(), log=False, stuck=False, free=("01",)):
    """each step moves along the gradient averaged over the drawn rows, scaled by its largest entry"""
    import numpy
    E = ctx.ot.gromov._estimators
    if symmetric:
        A = [[ctx.num(CV[min(i, j)][max(i, j)]) for j in range(n)] for i in range(n)]
        B = [[ctx.num(DV[min(i, j)][max(i, j)]) for j in range(m)] for i in range(m)]
        A[0][1] = A[1][0] = ctx.real("c01", lo=1, hi=6) if "01" in free else A[0][1]
        C1, C2 = ctx.pack(A), ctx.pack(B)
    else:
        C1, C2 = mat(ctx, CV, n, n, [], "c"), mat(ctx, DV, m, m, ["00"], "d")
    p, q = marg(ctx, n, m)
    ctx.patch(E, "check_random_state", lambda s: s)
    if isinstance(nb, int):
        bp, bq = (n, nb // n) if nb > n else (nb, 1)
    else:
        bp, bq = nb
    R = [[(t + i) % n for i in range(bp)] for t in range(its)]
    K = [[[(t + i + s) % m for s in range(bq)] for i in range(bp)] for t in range(its)]
    g = Draws([numpy.array(z) for t in range(its) for z in [R[t]] + K[t]], numpy, coins)
    cs = list(coins)
    G = [coup(ctx, p, q, t, ctx.real("e", lo=0, hi="1/50") if t == 0 else None) for t in range(its)]
    calls, est = [], []

    def rec(orig):
        def f(*z, **k):
            calls.append(bind(orig, z, k))
            return ctx.pack(G[len(calls) - 1])
        return f
    ctx.patch(E, "sinkhorn", rec(E.sinkhorn))
    ctx.patch(E, "emd", rec(E.emd))
    o2 = E.GW_distance_estimation

    def ge(*z, **k):
        est.append(bind(o2, z, k))
        return ctx.num(9), ctx.num(8)
    ctx.patch(E, "GW_distance_estimation", ge)
    ev = ctx.num(eps)
    # true of every positive number below one used here
    ctx.assume(ctx.all([ctx.lt(-150, ctx.log(x)) for t in range(its - 1) for y in G[t] for x in y]))
    r = E.sampled_gromov_wasserstein(C1, C2, p, q, loss, nb_samples_grad=nb, epsilon=0 if eps == "0" else (ev if ctx.sym else float(ev)), max_iter=its, log=log, random_state=g)
    T = r[0] if log else r
    cur = [[p[i] * q[j] for j in range(m)] for i in range(n)]
    pos = 0
    ctx.check("one problem per step", [len(calls) == its])
    for t in range(its):
        z = g.asked[pos]
        ctx.check("drawn rows", [z[0] == n, z[1] == bp, z[3] is False, ctx.eq(z[2], p)])
        D = [[ctx.num(0)] * m for _ in range(n)]
        for i in range(bp):
            row = cur[R[t][i]]
            z = g.asked[pos + 1 + i]
            ctx.check("drawn columns", [z[0] == m, z[1] == bq, z[3] is False] + [ctx.eq(z[2][j] * tot(row), row[j]) for j in range(m)])
            flip = not symmetric and cs.pop(0) > 0.5
            for a in range(n):
                for b in range(m):
                    for s in range(bq):
                        k = K[t][i][s]
                        D[a][b] = D[a][b] + (loss(C1[a, R[t][i]], C2[b, k]) if flip else loss(C1[R[t][i], a], C2[k, b])) / bq
        pos += 1 + bp
        mx = ctx.val(ctx.np.max(ctx.pack(D)))
        d = calls[t]
        ctx.check("solver of the step", [("reg" in d) == (eps != "0")])
        ctx.check("marginals of the step", [ctx.eq(d["a"], p), ctx.eq(d["b"], q)])
        if eps == "0":
            ctx.check("cost of the step", [ctx.eq(d["M"][i, j] * mx, D[i][j]) for i in range(n) for j in range(m)])
        else:
            ctx.check("cost of the step", [ctx.eq((d["M"][i, j] + ev * ctx.log(cur[i][j])) * mx, D[i][j]) for i in range(n) for j in range(m)] + [ctx.eq(d.get("reg"), ev)])
        cur = G[t]
    ctx.check("last plan", ctx.eq(T, ctx.pack(G[-1])))
    if log:
        d = est[0]
        ctx.check("log", [len(est) == 1, ctx.eq(d["T"], ctx.pack(G[-1])), ctx.eq(d["C1"], C1), ctx.eq(d["C2"], C2), ctx.eq(d["p"], p), ctx.eq(d["q"], q), ctx.eq(r[1]["gw_dist_estimated"], 9), ctx.eq(r[1]["gw_dist_std"], 8)])


# ---------------------------------------------------------------- quantized

PARTS = {"a": [0, 1, 0], "b": [1, 0, 1], "c": [0, 0, 0], "d": [2, 0, 1], "e": [1, 0], "f": [0, 1], "g": [0, 1, 0, 1], "h": [1, 1, 0], "i": [0, 0]}


def groups(part):
    return [[i for i, x in enumerate(part) if x == k] for k in sorted(set(part))]


def stub_gw(ctx, zero, calls):
    Q = ctx.ot.gromov._quantized

    def rec(orig, name):
        def f(*z, **k):
            d = bind(orig, z, k)
            d["name"] = name
            calls.append(d)
            a, b = d["p"], d["q"]
            if zero and a.shape[0] == 2 and b.shape[0] == 2:
                # a plan with zeros: the north-west corner
                x = a[0] if ctx.test(a[0] <= b[0]) else b[0]
                G = [[x, a[0] - x], [b[0] - x, a[1] - (b[0] - x)]]
            else:
                G = coup(ctx, a, b, 3, None)
            calls[-1]["T"] = G
            return (ctx.pack(G), {"gw_dist": ctx.num("7/5"), "fgw_dist": ctx.num("9/5")}) if d["log"] else ctx.pack(G)
        return f
    ctx.patch(Q, "gromov_wasserstein", rec(Q.gromov_wasserstein, "gw"))
    ctx.patch(Q, "fused_gromov_wasserstein", rec(Q.fused_gromov_wasserstein, "fgw"))


def stub_1d(ctx, calls):
    Q = ctx.ot.gromov._quantized
    orig = Q.emd_1d

    def f(*z, **k):
        d = bind(orig, z, k)
        d["T"] = coup(ctx, d["a"], d["b"], 5 + len(calls))
        calls.append(d)
        return (ctx.pack(d["T"]), {"cost": ctx.num(len(calls)) / 3}) if d["log"] else ctx.pack(d["T"])
    ctx.patch(Q, "emd_1d", f)


def wts(ctx, n, free, pref="p"):
    V = [["1"], ["2/5", "3/5"], ["1/2", "1/3", "1/6"], ["1/10", "2/5", "3/10", "1/5"]][n - 1]
    w = [ctx.num(x) for x in V]
    if free:
        w[0] = ctx.real(pref, lo="1/20", hi="9/20")
        w[1] = w[1] + ctx.num(V[0]) - w[0]
    return w


def assemble(ctx, gl, P1, P2, TG, loc, n, m):
    """plan between nodes: block (i, j) is the local coupling scaled by the plan of the representants"""
    T = [[ctx.num(0)] * m for _ in range(n)]
    k = 0
    for i, A in enumerate(P1):
        for j, B in enumerate(P2):
            if ctx.test(TG[i][j] != 0):
                for x, u in enumerate(A):
                    for y, v in enumerate(B):
                        T[u][v] = TG[i][j] * loc[k]["T"][x][y]
                k += 1
    return T, k


def partitioned(ctx, s1, s2, alpha, build=True, log=False, zero=False, free=True):
    Q = ctx.ot.gromov._quantized
    P1, P2 = groups(PARTS[s1]), groups(PARTS[s2])
    n, m = len(PARTS[s1]), len(PARTS[s2])
    p, q = wts(ctx, n, free, "p"), wts(ctx, m, False, "q")
    R1 = [ctx.pack([ctx.real("r%d" % u, lo=0, hi=4) if u == 0 else ctx.num("%d/3" % (u + 1)) for u in A]) for A in P1]
    R2 = [ctx.pack([ctx.num("%d/4" % (3 * u + 1)) for u in B]) for B in P2]
    CR1, CR2 = mat(ctx, CV, len(P1), len(P1)), mat(ctx, DV, len(P2), len(P2))
    MR = None if alpha == "1" else mat(ctx, CV, len(P1), len(P2), ["00"], "m")
    calls, loc = [], []
    stub_gw(ctx, zero, calls)
    stub_1d(ctx, loc)
    al = 1.0 if alpha == "1" else (ctx.num(alpha) if ctx.sym else float(ctx.num(alpha)))
    r = Q.quantized_fused_gromov_wasserstein_partitioned(CR1, CR2, R1, R2, [ctx.pack([p[u] for u in A]) for A in P1], [ctx.pack([q[u] for u in B]) for B in P2], MR, al, build_OT=build, log=log, armijo=True, max_iter=55, tol_rel=1e-3, tol_abs=1e-4)
    TG, TL, T = r[:3]
    c = calls[0]
    pa, qa = [tot(p[u] for u in A) for A in P1], [tot(q[u] for u in B) for B in P2]
    ctx.check("problem of the representants", [len(calls) == 1, c["name"] == ("gw" if alpha == "1" else "fgw"), ctx.eq(c["p"], ctx.pack(pa)), ctx.eq(c["q"], ctx.pack(qa)), ctx.eq(c["C1"], CR1), ctx.eq(c["C2"], CR2), c["loss_fun"] == "square_loss", c["armijo"] is True, c["max_iter"] == 55, c["tol_rel"] == 1e-3, c["tol_abs"] == 1e-4] + ([ctx.eq(c["M"], MR), ctx.eq(c["alpha"], al)] if alpha != "1" else []))
    ctx.check("plan of the representants", ctx.eq(TG, ctx.pack(c["T"])))
    k, L = 0, []
    for i, A in enumerate(P1):
        for j, B in enumerate(P2):
            if ctx.test(c["T"][i][j] != 0):
                d = loc[k]
                L += [ctx.eq(d["x_a"], R1[i]), ctx.eq(d["x_b"], R2[j]), d["metric"] == "sqeuclidean"]
                L += [ctx.eq(d["a"][x] * pa[i], p[u]) for x, u in enumerate(A)] + [ctx.eq(d["b"][y] * qa[j], q[v]) for y, v in enumerate(B)]
                L += [(i, j) in TL, ctx.eq(TL[(i, j)], ctx.pack(d["T"]))] if (i, j) in TL else [False]
                if log:
                    L.append(ctx.eq(r[3]["local dist (%d,%d)" % (i, j)], ctx.num(k + 1) / 3))
                k += 1
            else:
                L.append((i, j) not in TL)
    ctx.check("local problems", L + [len(loc) == k])
    if log:
        ctx.check("value of the representants", ctx.eq(r[3]["global dist"], ctx.num("7/5" if alpha == "1" else "9/5")))
    if not build:
        ctx.check("no plan", [T is None])
        return
    # stacked partition by partition
    o1, o2 = [u for A in P1 for u in A], [v for B in P2 for v in B]
    want, _ = assemble(ctx, None, P1, P2, c["T"], loc, n, m)
    ctx.check("plan", ctx.eq(T, ctx.pack([[want[u][v] for v in o2] for u in o1])))
    ctx.check("marginals", [ctx.eq(ctx.np.sum(T, axis=1), ctx.pack([p[u] for u in o1])), ctx.eq(ctx.np.sum(T, axis=0), ctx.pack([q[v] for v in o2]))])


def bad_alpha(ctx, alpha):
    Q = ctx.ot.gromov._quantized
    stub_gw(ctx, False, [])
    stub_1d(ctx, [])
    one = ctx.pack([ctx.num(1)])
    try:
        Q.quantized_fused_gromov_wasserstein_partitioned(mat(ctx, CV, 1, 1), mat(ctx, DV, 1, 1), [one], [one], [one], [one], mat(ctx, DV, 1, 1), float(ctx.num(alpha)) if not ctx.sym else ctx.num(alpha))
        bad = False
    except ValueError:
        bad = True
    ctx.check("refused", [bad])


def symm(ctx, V, n, free, pref):
    A = [[ctx.num(0) if i == j else ctx.num(V[min(i, j)][max(i, j)]) for j in range(n)] for i in range(n)]
    if free:
        A[0][1] = A[1][0] = ctx.real(pref, lo="1/2", hi=5)
    return A


def graph(ctx, s1, s2, alpha, method="spectral", rep="random", log=True, aux=False, weights=True, zero=False):
    """node plans follow the node order, have the node weights as marginals and their value is the fused objective"""
    Q = ctx.ot.gromov._quantized
    L1, L2 = PARTS[s1], PARTS[s2]
    n, m = len(L1), len(L2)
    P1, P2 = groups(L1), groups(L2)
    C1, C2 = symm(ctx, CV, n, True, "c"), symm(ctx, DV, m, False, "d")
    feats = alpha != "1" or "fused" in method or "fused" in rep
    F1 = pts(ctx, PTS, n, 1, ["00"]) if feats else None
    F2 = pts(ctx, QTS, m, 1, [], "y") if feats else None
    p, q = (wts(ctx, n, True, "p"), wts(ctx, m, False, "q")) if weights else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    A1, A2 = (mat(ctx, DV, n, n), mat(ctx, CV, m, m)) if aux else (None, None)
    ctx.patch(Q, "networkx_import", True)
    ctx.patch(Q, "sklearn_import", True)
    calls, loc, pc, rc = [], [], [], []
    stub_gw(ctx, zero, calls)
    stub_1d(ctx, loc)
    o1, o2 = Q.get_graph_partition, Q.get_graph_representants

    def part(*z, **k):
        pc.append(bind(o1, z, k))
        return ctx.arr([str(x) for x in (L1 if len(pc) == 1 else L2)])

    reps = [[A[-1] for A in P1], [B[0] for B in P2]]

    def repf(*z, **k):
        rc.append(bind(o2, z, k))
        return list(reps[len(rc) - 1])
    ctx.patch(Q, "get_graph_partition", part)
    ctx.patch(Q, "get_graph_representants", repf)
    al = 1.0 if alpha == "1" else (ctx.num(alpha) if ctx.sym else float(ctx.num(alpha)))
    av = ctx.num(alpha)
    r = Q.quantized_fused_gromov_wasserstein(ctx.pack(C1), ctx.pack(C2), 2, 3, ctx.pack(p) if weights else None, ctx.pack(q) if weights else None, A1, A2, F1, F2, al, method, rep, log, True, 44, 1e-3, 1e-4, 7, symmetric=True)
    TG, TL, T = r[:3]
    D1 = [[sq([F1[i, 0]], [F1[j, 0]]) for j in range(n)] for i in range(n)] if feats else None
    D2 = [[sq([F2[i, 0]], [F2[j, 0]]) for j in range(m)] for i in range(m)] if feats else None
    B1, B2 = (rows(A1), rows(A2)) if aux else (C1, C2)
    mix = lambda B, D: [[av * x + (1 - av) * y for x, y in zip(a, b)] for a, b in zip(B, D)]
    W = [mix(B1, D1), mix(B2, D2)] if "fused" in method else [B1, B2]
    V = [mix(B1, D1), mix(B2, D2)] if "fused" in rep else [B1, B2]
    base = lambda s: s[:-6] if s.endswith("_fused") else s
    ctx.check("partition problems", [len(pc) == 2] + [c for d, w, k in zip(pc, W, (2, 3)) for c in (ctx.eq(d["C"], ctx.pack(w)), d["npart"] == k, d["part_method"] == base(method), d["random_state"] == 7)])
    ctx.check("representant problems", [len(rc) == 2] + [c for d, w, l in zip(rc, V, (L1, L2)) for c in (ctx.eq(d["C"], ctx.pack(w)), ctx.eq(d["part"], ctx.arr([str(x) for x in l])), d["rep_method"] == base(rep), d["random_state"] == 7)])
    c = calls[0]
    ctx.check("options of the solver", [c["armijo"] is True, c["max_iter"] == 44, c["tol_rel"] == 1e-3, c["tol_abs"] == 1e-4, c["symmetric"] is True])
    r1, r2 = reps
    ctx.check("problem of the representants", [ctx.eq(c["C1"], ctx.pack([[C1[i][j] for j in r1] for i in r1])), ctx.eq(c["C2"], ctx.pack([[C2[i][j] for j in r2] for i in r2]))] + ([ctx.eq(c["M"], ctx.pack([[sq([F1[i, 0]], [F2[j, 0]]) for j in r2] for i in r1]))] if alpha != "1" else []))
    X1, X2 = (C1, C2) if alpha == "1" else (mix(C1, D1), mix(C2, D2))
    k, L = 0, []
    for i, A in enumerate(P1):
        for j, B in enumerate(P2):
            if ctx.test(c["T"][i][j] != 0):
                L += [ctx.eq(loc[k]["x_a"], ctx.pack([X1[r1[i]][u] for u in A])), ctx.eq(loc[k]["x_b"], ctx.pack([X2[r2[j]][v] for v in B]))]
                k += 1
    ctx.check("local problems", L)
    want, _ = assemble(ctx, None, P1, P2, c["T"], loc, n, m)
    finish(ctx, r, T, want, p, q, C1, C2, av, F1, F2, n, m, log)


def finish(ctx, r, T, want, p, q, C1, C2, av, F1, F2, n, m, log):
    ctx.check("plan", ctx.eq(T, ctx.pack(want)))
    ctx.check("marginals", [ctx.eq(ctx.np.sum(T, axis=1), ctx.pack(p)), ctx.eq(ctx.np.sum(T, axis=0), ctx.pack(q))])
    if log:
        S = tot(C1[i][j] * C1[i][j] * p[i] * p[j] for i in range(n) for j in range(n)) + tot(C2[i][j] * C2[i][j] * q[i] * q[j] for i in range(m) for j in range(m))
        CT = [[tot(C1[i][k] * want[k][j] for k in range(n)) for j in range(m)] for i in range(n)]
        S = S - 2 * tot(CT[i][b] * C2[b][j] * want[i][j] for i in range(n) for j in range(m) for b in range(m))
        lin = tot(want[i][j] * sq([F1[i, k] for k in range(F1.shape[1])], [F2[j, k] for k in range(F2.shape[1])]) for i in range(n) for j in range(m)) if not isinstance(av, int) and F1 is not None else 0
        ctx.check("value", ctx.eq(r[3]["qFGW_dist"], av * S + (1 - av) * lin))


def samples(ctx, s1, s2, alpha, method="kmeans", log=True, weights=True, zero=False):
    Q = ctx.ot.gromov._quantized
    L1, L2 = PARTS[s1], PARTS[s2]
    n, m = len(L1), len(L2)
    P1, P2 = groups(L1), groups(L2)
    X1, X2 = pts(ctx, PTS, n, 1, ["10"]), pts(ctx, QTS, m, 1, [], "y")
    feats = alpha != "1"
    F1 = pts(ctx, [z[::-1] for z in QTS], n, 1, ["00"] if not weights else [], "f") if feats else None
    F2 = pts(ctx, [z[::-1] for z in PTS], m, 1, [], "g") if feats else None
    p, q = (wts(ctx, n, False, "p"), wts(ctx, m, False, "q")) if weights else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    ctx.patch(Q, "sklearn_import", True)
    calls, loc, pc = [], [], []
    stub_gw(ctx, zero, calls)
    stub_1d(ctx, loc)
    reps = [[A[-1] for A in P1], [B[0] for B in P2]]
    o = Q.get_partition_and_representants_samples

    def part(*z, **k):
        pc.append(bind(o, z, k))
        i = len(pc) - 1
        return ctx.arr([str(x) for x in (L1, L2)[i]]), list(reps[i])
    ctx.patch(Q, "get_partition_and_representants_samples", part)
    av = ctx.num(alpha)
    al = 1.0 if alpha == "1" else (av if ctx.sym else float(av))
    r = Q.quantized_fused_gromov_wasserstein_samples(X1, X2, 2, 3, ctx.pack(p) if weights else None, ctx.pack(q) if weights else None, F1, F2, al, method, log, True, 44, 1e-3, 1e-4, 7, symmetric=True)
    TG, TL, T = r[:3]
    Y = [X1, X2]
    if "fused" in method and feats:
        Y = [ctx.pack([[av * X[i, 0], (1 - av) * F[i, 0]] for i in range(X.shape[0])]) for X, F in ((X1, F1), (X2, F2))]
    ctx.check("partition problems", [len(pc) == 2] + [c for d, w, k in zip(pc, Y, (2, 3)) for c in (ctx.eq(d["X"], w), d["npart"] == k, d["method"] == (method[:-6] if "fused" in method and feats else method), d["random_state"] == 7)])
    c = calls[0]
    r1, r2 = reps
    dd = lambda X, i, Z, j: sq([X[i, 0]], [Z[j, 0]])
    ctx.check("options of the solver", [c["armijo"] is True, c["max_iter"] == 44, c["tol_rel"] == 1e-3, c["tol_abs"] == 1e-4, c["symmetric"] is True])
    ctx.check("problem of the representants", [ctx.eq(c["C1"], ctx.pack([[dd(X1, i, X1, j) for j in r1] for i in r1])), ctx.eq(c["C2"], ctx.pack([[dd(X2, i, X2, j) for j in r2] for i in r2]))] + ([ctx.eq(c["M"], ctx.pack([[dd(F1, i, F2, j) for j in r2] for i in r1]))] if feats else []))
    k, L = 0, []
    rel = lambda X, F, u, v: av * dd(X, u, X, v) + ((1 - av) * dd(F, u, F, v) if feats else 0)
    for i, A in enumerate(P1):
        for j, B in enumerate(P2):
            if ctx.test(c["T"][i][j] != 0):
                xa, xb = ctx.np.reshape(loc[k]["x_a"], (-1,)), ctx.np.reshape(loc[k]["x_b"], (-1,))
                L += [ctx.eq(xa, ctx.pack([rel(X1, F1, r1[i], u) for u in A])), ctx.eq(xb, ctx.pack([rel(X2, F2, r2[j], v) for v in B]))]
                k += 1
    ctx.check("local problems", L)
    want, _ = assemble(ctx, None, P1, P2, c["T"], loc, n, m)
    C1 = [[dd(X1, i, X1, j) for j in range(n)] for i in range(n)]
    C2 = [[dd(X2, i, X2, j) for j in range(m)] for i in range(m)]
    finish(ctx, r, T, want, p, q, C1, C2, av, F1, F2, n, m, log)


def representants(ctx, s, how):
    """one node per partition, in the order of the identifiers"""
    import numpy
    Q = ctx.ot.gromov._quantized
    part = PARTS[s]
    n = len(part)
    C = mat(ctx, CV + [["1", "2", "3"]], 3, 3) if n == 3 else (mat(ctx, CV, 2, 2) if n == 2 else ctx.pack([[ctx.num("%d/%d" % (1 + i * j, 2 + i + j)) for j in range(4)] for i in range(4)]))
    P = groups(part)
    seen, seeds = [], []
    if how == "pagerank":
        ctx.patch(Q, "from_numpy_array", lambda A: A)

        def pr(A):
            k = len(seen)
            seen.append(A)
            return {i: ctx.real("w%d_%d" % (k, i), lo=0, hi=1) for i in range(A.shape[0])}
        ctx.patch(Q, "pagerank", pr)
    else:
        class R:
            seed = staticmethod(lambda s: seeds.append(s))

            @staticmethod
            def choice(ix):
                seen.append([int(ctx.val(x)) if not ctx.sym else int(x) for x in ix])
                return ix[len(ix) - 1]
        ctx.patch(Q, "random", R)
    out = Q.get_graph_representants(C, ctx.arr([str(x) for x in part]), how, 5)
    out = [int(x) for x in out]
    if len(P) == n:
        ctx.check("singletons", [part[u] == k for k, u in enumerate(out)])
    elif how == "random":
        ctx.check("random representants", [seen == P, seeds == [5], out == [A[-1] for A in P]])
    else:
        ctx.check("sub-graphs", [ctx.eq(A, ctx.pack([[C[u, v] for v in G] for u in G])) for A, G in zip(seen, P)] + [len(seen) == len(P)])
        L = []
        for k, G in enumerate(P):
            L.append(out[k] in G)
            w = [ctx.real("w%d_%d" % (k, i), lo=0, hi=1) for i in range(len(G))]
            if out[k] in G:
                L += [ctx.le(x, w[G.index(out[k])]) for x in w]
        ctx.check("most central node", L + [len(out) == len(P)])


def partition(ctx, n, npart, method):
    import numpy
    Q = ctx.ot.gromov._quantized
    C = mat(ctx, CV, n, n, ["01"])
    sets = [{2, 0}, {1}] if n == 3 else [{0}, {1}]
    calls = []
    ctx.patch(Q, "from_numpy_array", lambda A: A)
    ctx.patch(Q, "louvain_communities", lambda A, seed=None: calls.append((A, None, seed)) or sets)
    ctx.patch(Q, "asyn_fluidc", lambda A, k, seed=None: calls.append((A, k, seed)) or iter(sets))

    class R:
        seed = staticmethod(lambda s: calls.append((None, "seed", s)))
        choices = staticmethod(lambda z, k: [int(z[(2 * i + 1) % len(z)]) for i in range(k)])
    ctx.patch(Q, "random", R)

    class S:
        def __init__(self, n_clusters=None, random_state=None, affinity=None):
            self.a = (n_clusters, random_state, affinity)

        def fit(self, A):
            calls.append((A, self.a[0], self.a[1]))
            calls.append(self.a[2])
            self.labels_ = numpy.array([1, 0, 1][:n])
            return self
    ctx.patch(Q, "SpectralClustering", S)
    out = Q.get_graph_partition(C, npart, method, random_state=9)
    out = [int(out[i]) for i in range(n)]
    if npart >= n:
        ctx.check("one part per node", [sorted(out) == list(range(n))])
    elif npart == 1:
        ctx.check("one part", [out == [0] * n])
    elif method == "random":
        ctx.check("random labels", [out == [(2 * i + 1) % npart for i in range(n)], calls == [(None, "seed", 9)]])
    elif method == "spectral":
        ctx.check("spectral labels", [out == [1, 0, 1][:n], calls[0][1:] == (npart, 9), calls[1] == "precomputed", ctx.eq(calls[0][0], C)])
    else:
        ctx.check("labels of the communities", [all((out[i] == out[j]) == any(i in s and j in s for s in sets) for i in range(n) for j in range(n)), len(calls) == 1, calls[0][2] == 9, calls[0][1] == (npart if method == "fluid" else None), ctx.eq(calls[0][0], C)])


def sample_parts(ctx, n, npart, method):
    import numpy
    Q = ctx.ot.gromov._quantized
    X = pts(ctx, PTS, n, 2, ["00"])
    calls = []

    class R:
        seed = staticmethod(lambda s: calls.append(("seed", s)))
        choices = staticmethod(lambda z, k: [int(z[(2 * i + 1) % len(z)]) for i in range(k)])
        choice = staticmethod(lambda ix: ix[len(ix) - 1])
    ctx.patch(Q, "random", R)
    lab = [1, 0, 1][:n]
    cen = ctx.pack([[ctx.num("1/2"), ctx.real("k", lo=-1, hi=1)], [ctx.num("1/3"), ctx.num("1/5")]])

    class S:
        def __init__(self, n_clusters=None, random_state=None):
            calls.append((n_clusters, random_state))

        def fit(self, A):
            calls.append(A)
            self.labels_ = numpy.array(lab)
            self.cluster_centers_ = cen
            return self
    ctx.patch(Q, "KMeans", S)
    part, rep = Q.get_partition_and_representants_samples(X, npart, method, 9)
    part, rep = [int(part[i]) for i in range(n)], [int(x) for x in rep]
    P = groups(part)
    ctx.check("one representant per part", [len(rep) == len(P)] + [u in A for u, A in zip(rep, P)])
    if npart >= n:
        ctx.check("one part per point", [sorted(part) == list(range(n))])
    elif npart == 1:
        ctx.check("one part", [part == [0] * n])
    elif method == "kmeans":
        ctx.check("labels", [part == lab, calls[0] == (npart, 9), ctx.eq(calls[1], X)])
        ctx.check("closest to the centre", [ctx.le(sq([X[u, 0], X[u, 1]], [cen[k, 0], cen[k, 1]]), sq([X[v, 0], X[v, 1]], [cen[k, 0], cen[k, 1]])) for k, u in enumerate(rep) for v in P[k]])
    else:
        ctx.check("random labels", [part == [(2 * i + 1) % npart for i in range(n)], calls[0] == ("seed", 9)])


def fallback(ctx, method, rep, nw, sk, want):
    """third-party methods are replaced by random ones only when the library is missing"""
    Q = ctx.ot.gromov._quantized
    ctx.patch(Q, "networkx_import", nw)
    ctx.patch(Q, "sklearn_import", sk)
    calls, loc, seen = [], [], []
    stub_gw(ctx, False, calls)
    stub_1d(ctx, loc)
    o1, o2 = Q.get_graph_partition, Q.get_graph_representants
    ctx.patch(Q, "get_graph_partition", lambda *z, **k: seen.append(bind(o1, z, k)["part_method"]) or ctx.arr(["1", "0"]))
    ctx.patch(Q, "get_graph_representants", lambda *z, **k: seen.append(bind(o2, z, k)["rep_method"]) or [1, 0])
    C1, C2 = ctx.pack(symm(ctx, CV, 2, True, "c")), ctx.pack(symm(ctx, DV, 2, False, "d"))
    F = pts(ctx, PTS, 2, 1)
    Q.quantized_fused_gromov_wasserstein(C1, C2, 1, 1, F1=F, F2=F, alpha=0.5, part_method=method, rep_method=rep)
    ctx.check("methods used", [seen == [want[0]] * 2 + [want[1]] * 2])


CASES = []
for n, m in ((2, 2), (3, 2), (2, 3)):
    k = max(n, m)
    for x, ij in enumerate([(list(range(k)), list(range(k))[::-1]), (list(range(1, k)) + [0], list(range(k)))]):
        CASES.append(Case("exp_%d%d_%d" % (n, m, x), expectation, tier="quick" if x == 0 else "thorough", n=n, m=m, ij=ij))
KK = [[1, 0, 1], [0, 0, 1], [1, 1, 0], [0, 1, 1], [0, 1, 0], [1, 0, 0]]
for n, m, np_, nq, std, sp in ((3, 2, None, None, True, False), (3, 2, 2, 2, True, False), (2, 3, 2, 3, True, False), (2, 2, None, 3, False, False), (2, 3, None, None, False, False), (3, 2, 7, 2, False, False), (3, 2, 2, 2, True, True), (2, 3, 2, 2, False, True), (2, 2, 1, None, True, True)):
    CASES.append(Case("est_%d%d_%s%s%d%d" % (n, m, np_, nq, std, sp), estimate, n=n, m=m, np_=np_, nq=nq, std=std, sparse=sp, I=[1, 0, 2], J=[0, 1, 2] if max(n, m) == 2 else [2, 0, 1], K=KK))
for n, m, its, al, thr, lg in ((2, 2, 1, "1", "0", True), (2, 3, 2, "1/2", "0", True), (3, 2, 3, "1/4", "0", False), (2, 2, 12, "1/2", "0", True), (3, 3, 2, "1/2", "0", True), (2, 2, 2, "1/2", "1/5", True), (2, 2, 11, "1", "0", False)):
    CASES.append(Case("pw_%d%d_%d_%s_%s" % (n, m, its, al, thr), pointwise, n=n, m=m, its=its, alpha=al, thr=thr, log=lg))
for n, m, its, nb, eps, s, coins, lg in ((2, 2, 1, 1, "0", True, (), True), (2, 3, 2, 4, "0", True, (), False), (3, 2, 1, (2, 2), "0", True, (), True), (2, 2, 2, 2, "1/2", True, (), True), (2, 3, 2, (1, 2), "1", True, (), False), (2, 2, 1, 2, "0", False, (0.3, 0.7), True), (3, 2, 2, 2, "1", False, (0.7, 0.7, 0.2, 0.9), True)):
    CASES.append(Case("sg_%d%d_%d_%s_%s%s" % (n, m, its, str(nb).replace(" ", ""), eps, "" if s else "_asym"), sampled, n=n, m=m, its=its, nb=nb, eps=eps, symmetric=s, coins=coins, log=lg))
for s1, s2, al, bd, lg, z in (("a", "e", "1", True, True, False), ("b", "h", "1/2", True, True, False), ("b", "f", "1", True, False, True), ("g", "a", "1/4", True, True, True), ("d", "c", "1", True, True, False), ("c", "d", "1/2", False, True, False), ("h", "a", "1", False, False, True)):
    CASES.append(Case("part_%s%s_%s%s" % (s1, s2, al, "z" if z else ""), partitioned, s1=s1, s2=s2, alpha=al, build=bd, log=lg, zero=z))
for al in ("0", "-1/2", "3/2"):
    CASES.append(Case("alpha_%s" % al, bad_alpha, alpha=al))
for s1, s2, al, me, re, lg, ax, w, z in (("a", "e", "1", "spectral", "random", True, False, True, False), ("b", "h", "1/2", "fluid", "pagerank", True, False, True, False), ("b", "f", "1", "louvain", "random", True, True, True, True), ("h", "b", "1/4", "fluid_fused", "pagerank_fused", True, True, False, False), ("b", "e", "1/2", "spectral_fused", "pagerank", False, False, True, True), ("d", "b", "1/2", "louvain", "random_fused", True, True, True, False), ("b", "h", "1", "random", "random", False, False, False, False)):
    CASES.append(Case("graph_%s%s_%s_%s_%s" % (s1, s2, al, me, re), graph, s1=s1, s2=s2, alpha=al, method=me, rep=re, log=lg, aux=ax, weights=w, zero=z))
for s1, s2, al, me, lg, w, z in (("a", "e", "1", "kmeans", True, True, False), ("b", "h", "1/2", "kmeans", True, True, False), ("b", "f", "1/4", "kmeans_fused", True, False, True), ("h", "b", "1", "kmeans_fused", False, True, False) if False else ("h", "b", "1", "random", True, False, False)):
    CASES.append(Case("samples_%s%s_%s_%s" % (s1, s2, al, me), samples, s1=s1, s2=s2, alpha=al, method=me, log=lg, weights=w, zero=z))
for s in ("a", "b", "d", "e", "g", "h"):
    for how in ("random", "pagerank"):
        CASES.append(Case("rep_%s_%s" % (s, how), representants, s=s, how=how))
for n, k, me in ((3, 2, "random"), (3, 2, "louvain"), (3, 2, "fluid"), (3, 2, "spectral"), (3, 4, "fluid"), (2, 2, "random"), (3, 1, "louvain")):
    CASES.append(Case("gp_%d%d_%s" % (n, k, me), partition, n=n, npart=k, method=me))
for n, k, me in ((3, 2, "random"), (3, 2, "kmeans"), (3, 3, "kmeans"), (3, 1, "random")):
    CASES.append(Case("sp_%d%d_%s" % (n, k, me), sample_parts, n=n, npart=k, method=me))
for x, (me, re, nw, sk, want) in enumerate([("fluid", "pagerank", True, True, ("fluid", "pagerank")), ("louvain_fused", "random", True, False, ("louvain", "random")), ("fluid", "random", False, True, ("random", "random")), ("spectral", "pagerank", True, True, ("spectral", "pagerank")), ("spectral", "random", True, False, ("random", "random")), ("spectral", "pagerank", False, True, ("random", "random"))]):
    CASES.append(Case("fall_%d" % x, fallback, method=me, rep=re, nw=nw, sk=sk, want=want))
