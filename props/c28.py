"""C28 regularization path of (semi-)relaxed L2 unbalanced OT."""
from symx.worker import Case

BOUNDS = "problems from 1x2 to 3x3 with one or two symbolic parameters (a cost, a mass, the final or the queried regularisation)"
W1 = {1: ["1"], 2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"]}
W2 = {1: ["1"], 2: ["2/5", "3/5"], 3: ["1/5", "3/10", "1/2"]}
CC = {
    "tied": [["1", "2"], ["1", "1"]],
    "gen": [["1", "3/2", "2/3"], ["7/4", "5/7", "6/5"], ["4/3", "9/8", "3/7"]],
    "ties": [["1", "2", "1"], ["2", "1", "2"], ["1", "2", "3"]],
    "line": [["1/2", "3/2", "9/2"], ["3/2", "1/2", "3/2"], ["9/2", "3/2", "1/2"]],
    "wide": [["1", "1", "1"], ["3", "2", "3/2"], ["5", "4", "2"]],
}
TOL = "1/1000000"


def kkt(ctx, a, b, C, g, t, semi, label):
    """optimality conditions of min 1/2 |H t - y|^2 + g <c, t> over t >= 0 (and t'1 = b)"""
    n, m = C.shape
    tol = ctx.num(TOL)
    T = [[t[i * m + j] for j in range(m)] for i in range(n)]
    row = [sum(T[i]) - a[i] for i in range(n)]
    col = [sum(T[i][j] for i in range(n)) - b[j] for j in range(m)]
    ok = [ctx.le(-tol, T[i][j]) for i in range(n) for j in range(m)]
    if semi:
        ok += [ctx.le(-tol, z) for z in col] + [ctx.le(z, tol) for z in col]
    G = [[row[i] + g * C[i, j] + (0 if semi else col[j]) for j in range(m)] for i in range(n)]
    for i in range(n):
        for j in range(m):
            if semi:
                for k in range(n):
                    if k != i:
                        ok.append(ctx.le(T[i][j] * (G[i][j] - G[k][j]), tol))
            else:
                ok.append(ctx.le(-tol, G[i][j]))
                ok.append(ctx.le(T[i][j] * G[i][j], tol))
    ctx.check(label, ok)


def apart(ctx, M, i, j):
    """no tie between the costs of a column (see the known finding on tied minima)"""
    d = ctx.num("1/1000")
    for k in range(len(M)):
        if k != i:
            ctx.assume(ctx.any([ctx.le(M[i][j] + d, M[k][j]), ctx.le(M[k][j] + d, M[i][j])]))


def path(ctx, n, m, C, semi, free, reg="1/20", uni=False, query=False):
    """every breakpoint, the queried and the final plans are optimal for their regularisation"""
    cc = [[z for z in r[:m]] for r in CC[C][:n]]
    A = ["1/%d" % n] * n if uni else W1[n]
    B = ["1/%d" % m] * m if uni else W2[m]
    M = [[ctx.num(z) for z in r] for r in cc]
    a, b = [ctx.num(z) for z in A], [ctx.num(z) for z in B]
    r = ctx.num(reg)
    if free[0] == "c":
        i, j = int(free[1]), int(free[2])
        M[i][j] = ctx.real("c", lo="1/2", hi=3)
        if semi:
            apart(ctx, M, i, j)
    elif free[0] == "a":
        a[int(free[1])] = ctx.real("a", lo="1/10", hi=2)
    elif free == "reg":
        r = ctx.real("reg", lo="1/50", hi=3)
    M, a, b = ctx.pack(M), ctx.pack(a), ctx.pack(b)
    s = [ctx.snapshot(z) for z in (M, a, b)]
    R = ctx.ot.regpath
    t, tl, gl = R.regularization_path(a, b, M, reg=r, semi_relaxed=semi, itmax=60)
    ctx.check("inputs kept", [ctx.eq(z, w) for z, w in zip((M, a, b), s)])
    ctx.check("ends at the regularisation", ctx.eq(gl[-1], r))
    ctx.check("decreasing", [ctx.le(gl[k + 1], gl[k]) for k in range(len(gl) - 1)])
    ctx.check("lists", [len(tl) == len(gl), all(ctx.ident(x, y) for x, y in zip(t, tl[-1]))])
    for k in range(len(gl)):
        kkt(ctx, a, b, M, gl[k], tl[k], semi, "optimal at each breakpoint")
    if query:
        g = ctx.real("g", lo="1/50", hi=3)
        ctx.assume(ctx.le(r, g))
        P = R.compute_transport_plan(g, gl, tl)
        kkt(ctx, a, b, M, g, P, semi, "optimal at the queried regularisation")
    else:
        for k in range(len(gl) - 1):
            h = (gl[k] + gl[k + 1] * 3) / 4
            kkt(ctx, a, b, M, h, R.compute_transport_plan(h, gl, tl), semi, "optimal between breakpoints")
        kkt(ctx, a, b, M, gl[0] * 2, R.compute_transport_plan(gl[0] * 2, gl, tl), semi, "optimal before the first breakpoint")


def stopped(ctx, n, m, C, semi, it):
    """an interrupted path only holds optimal plans"""
    M = [[ctx.num(z) for z in r[:m]] for r in CC[C][:n]]
    M[0][0] = ctx.real("c", lo="1/2", hi=3)
    if semi:
        apart(ctx, M, 0, 0)
    M, a, b = ctx.pack(M), ctx.arr(W1[n]), ctx.arr(W2[m])
    t, tl, gl = ctx.ot.regpath.regularization_path(a, b, M, reg=ctx.num("1/1000"), semi_relaxed=semi, itmax=it)
    ctx.check("lists", len(tl) == len(gl))
    for k in range(len(gl)):
        kkt(ctx, a, b, M, gl[k], tl[k], semi, "optimal at each breakpoint")


def interp(ctx, K):
    """linear between two breakpoints, constant outside"""
    gl = [ctx.num(z) for z in ["3", "2", "1/2", "1/4"][:K]]
    tl = [ctx.vec("t%d_" % k, 2, lo=0, hi=2) for k in range(K)]
    g = ctx.real("g", lo="0", hi=4)
    P = ctx.ot.regpath.compute_transport_plan(g, gl, tl)
    for k in range(K - 1):
        Q = tl[k] + (tl[k + 1] - tl[k]) * (gl[k] - g) / (gl[k] - gl[k + 1])
        ctx.check("linear", ctx.implies(ctx.all([ctx.le(gl[k + 1], g), ctx.le(g, gl[k])]) if not ctx.sym else ctx.Cond("and", [ctx.le(gl[k + 1], g), ctx.le(g, gl[k])]), ctx.all([ctx.eq(P, Q)]) if not ctx.sym else ctx.Cond("and", [ctx.eq(P, Q)])))
    if ctx.test(g >= gl[0]):
        ctx.check("constant before", ctx.eq(P, tl[0]))
    if ctx.test(g <= gl[-1]):
        ctx.check("constant after", ctx.eq(P, tl[-1]))


def recast(ctx, n, m):
    """design matrices: marginals of the flattened plan"""
    R = ctx.ot.regpath
    C, T = ctx.mat("c", n, m, lo=1, hi=2), ctx.mat("t", n, m, lo=0, hi=2)
    a, b = ctx.vec("a", n, lo=0, hi=1), ctx.vec("b", m, lo=0, hi=1)
    t = ctx.pack([T[i, j] for i in range(n) for j in range(m)])
    f = ctx.pack([C[i, j] for i in range(n) for j in range(m)])
    rows = ctx.pack([sum(T[i, j] for j in range(m)) for i in range(n)])
    cols = ctx.pack([sum(T[i, j] for i in range(n)) for j in range(m)])
    H, y, c = R.recast_ot_as_lasso(a, b, C)
    ctx.check("marginals", ctx.eq(H.dot(t), ctx.np.concatenate((rows, cols))))
    ctx.check("target and cost", [ctx.eq(y, ctx.np.concatenate((a, b))), ctx.eq(c, f)])
    Hr, Hc, c = R.recast_semi_relaxed_as_lasso(a, b, C)
    ctx.check("each marginal", [ctx.eq(Hr.dot(t), rows), ctx.eq(Hc.dot(t), cols), ctx.eq(c, f)])


def schur(ctx, k, how, pop=0):
    """inverse of the Gram matrix after adding or removing a row and column"""
    R = ctx.ot.regpath
    # A = L L' with a symbolic entry
    x = ctx.real("x", lo=-2, hi=2)
    base = [["2", "1", "-1"], ["1", "3", "1/2"], ["-1", "1/2", "4"]]
    A = [[ctx.num(z) for z in r[:k]] for r in base[:k]]
    if k > 1:
        A[0][1] = A[1][0] = A[0][1] + x / 3
    A = ctx.pack(A)
    I = ctx.pack([[ctx.num(int(i == j)) for j in range(k)] for i in range(k)])
    if how == "pop":
        o = [i for i in range(k) if i != pop]
        B = R.complement_schur(ctx.np.linalg.inv(A), None, 0, pop)
        S = ctx.pack([[A[i, j] for j in o] for i in o])
        ctx.check("inverse without the point", ctx.eq(ctx.np.dot(S, B), I[: k - 1, : k - 1]))
    else:
        if k > 1:
            o = list(range(k - 1))
            S = ctx.pack([[A[i, j] for j in o] for i in o])
            B = R.complement_schur(ctx.np.linalg.inv(S), ctx.pack([[A[i, k - 1]] for i in o]), A[k - 1, k - 1], -1)
        else:
            B = R.complement_schur(ctx.pack([[]]) if ctx.sym is False else ctx.np.zeros((1, 0)), ctx.np.zeros((0,)), ctx.num(2), -1)
        ctx.check("inverse with the point", ctx.eq(ctx.np.dot(A, B), I))


CASES = []
for semi in (False, True):
    s = "semi" if semi else "full"
    for n, m, C, free in ((2, 2, "gen", "c00"), (2, 2, "gen", "c10"), (2, 2, "gen", "a0"), (1, 2, "gen", "c00"), (2, 1, "gen", "c10"), (2, 3, "gen", "c01"), (3, 2, "gen", "c10"), (2, 3, "gen", "a1"), (3, 3, "gen", "c11"), (3, 3, "gen", "a2")):
        CASES.append(Case("%s_%d%d_%s" % (s, n, m, free), path, n=n, m=m, C=C, semi=semi, free=free, tier="quick" if n * m <= 6 else "thorough"))
    for n, m, C in ((2, 2, "gen"), (2, 3, "gen"), (3, 2, "gen"), (3, 3, "gen")):
        CASES.append(Case("%s_%d%d_reg" % (s, n, m), path, n=n, m=m, C=C, semi=semi, free="reg", tier="quick" if n * m <= 6 else "thorough"))
        CASES.append(Case("%s_%d%d_query" % (s, n, m), path, n=n, m=m, C=C, semi=semi, free="none", query=True))
    for n, m, C in ((2, 2, "ties"), (2, 3, "ties"), (3, 2, "ties"), (3, 3, "line"), (1, 3, "ties"), (3, 2, "wide"), (3, 3, "wide")):
        if semi and C == "ties" and n == 3:
            continue
        CASES.append(Case("%s_%s%d%d_reg" % (s, C, n, m), path, n=n, m=m, C=C, semi=semi, free="reg", uni=True))
        CASES.append(Case("%s_%s%d%d_query" % (s, C, n, m), path, n=n, m=m, C=C, semi=semi, free="none", uni=True, query=True))
    CASES.append(Case("%s_ties_c" % s, path, n=2, m=2, C="ties", semi=semi, free="c00" if not semi else "c01", uni=True))
    CASES += [Case("%s_stop%d" % (s, it), stopped, n=2, m=3, C="gen", semi=semi, it=it) for it in (2, 3, 5)]
CASES.append(Case("semi_tiedmin", path, n=2, m=1, C="tied", semi=True, free="reg", uni=True, query=False))
CASES += [Case("interp_%d" % k, interp, K=k) for k in (1, 2, 3, 4)]
CASES += [Case("recast_%d%d" % (n, m), recast, n=n, m=m) for n, m in ((1, 2), (2, 2), (2, 3), (3, 2))]
CASES += [Case("schur_add%d" % k, schur, k=k, how="add") for k in (1, 2, 3)] + [Case("schur_pop%d_%d" % (k, p), schur, k=k, how="pop", pop=p) for k in (2, 3) for p in range(k)]
