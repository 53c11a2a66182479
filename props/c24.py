"""C24 linear-program, free-support and generic-cost barycenters, gluing of plans, Monge multi-marginal OT."""
from itertools import product

from symx.worker import Case


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        return self.__dict__[k]


def sqd(X, Y):
    d = X.shape[1]
    return [[sum((X[i, c] - Y[j, c]) * (X[i, c] - Y[j, c]) for c in range(d)) for j in range(Y.shape[0])] for i in range(X.shape[0])]


def lp(ctx, n, k, solver, uni=False):
    """the linear program of the fixed-support barycenter: feasible points are the plans with a
    common second marginal, the cost is the weighted transport cost"""
    A = ctx.pack([list(r) for r in zip(*[list(ctx.simplex("a%d" % l, n)) for l in range(k)])])
    M = ctx.mat("M", n, n, lo=0, hi=2)
    w = None if uni else ctx.simplex("w", k)
    W = [ctx.num(1) / k] * k if uni else [w[l] for l in range(k)]
    S = ctx.ot.lp._barycenter_solvers
    calls = []
    snap = [ctx.snapshot(z) for z in (A, M)]

    def solve(c, Aeq, beq):
        Aeq = Aeq.toarray() if hasattr(Aeq, "toarray") else Aeq
        N = k * n * n + n
        ctx.check("number of variables", Aeq.shape[1] == N and len(c) == N and Aeq.shape[0] == len(beq))
        # plans with a common marginal: T_l[i, j] = A[i, l] * b[j] + perturbations preserving the marginals
        b = ctx.simplex("b", n)
        T = [[[A[i, l] * b[j] for j in range(n)] for i in range(n)] for l in range(k)]
        for l in range(k):
            for i in range(1, n):
                for j in range(1, n):
                    t = ctx.real("t%d_%d_%d" % (l, i, j), lo=-1, hi=1)
                    T[l][i][j] = T[l][i][j] + t
                    T[l][0][0] = T[l][0][0] + t
                    T[l][0][j] = T[l][0][j] - t
                    T[l][i][0] = T[l][i][0] - t
        x = [T[l][i][j] for l in range(k) for i in range(n) for j in range(n)] + [b[j] for j in range(n)]
        ctx.check("plans with a common marginal are feasible",
                  ctx.eq(ctx.pack([sum(ctx.num(Aeq[r, s]) * x[s] for s in range(N) if Aeq[r, s] != 0) for r in range(Aeq.shape[0])]), beq))
        ctx.check("objective is the weighted transport cost",
                  ctx.eq(sum(c[s] * x[s] for s in range(N)), sum(W[l] * M[i, j] * T[l][i][j] for l in range(k) for i in range(n) for j in range(n))))
        # rank: no further feasible point
        import numpy as np
        ctx.check("nothing else is feasible", bool(N - np.linalg.matrix_rank(np.array(Aeq, dtype=float)) == k * (n - 1) ** 2 + n - 1))
        ctx.check("feasible total", ctx.eq(sum(b[j] for j in range(n)), 1))
        calls.append(b)
        return ctx.pack(x)
    if solver == "cvx":
        class Sol:
            @staticmethod
            def lp(c, G, h, A=None, b=None, solver=None):
                import numpy as np
                G = G.toarray() if hasattr(G, "toarray") else G
                ctx.check("non-negative variables", [bool(np.array_equal(np.array(G, dtype=float), -np.eye(len(c)))), ctx.eq(h, ctx.arr([0] * len(c)))])
                return {"x": solve(c, A, b)}
        ctx.patch(S, "matrix", lambda x: x)
        ctx.patch(S, "scipy_sparse_to_spmatrix", lambda x: x)
        ctx.patch(S, "solvers", Sol)
        ctx.patch(S, "cvxopt", True)
        q = "glpk"
    else:
        def model(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), method=None, options=None, **kw):
            ctx.check("non-negative variables", A_ub is None and b_ub is None and bounds in ((0, None), None, (0, float("inf"))))
            ctx.check("method", method == solver)
            return Obj(x=solve(c, A_eq, b_eq), fun=ctx.num(0))
        ctx.contract("linprog", model)
        q = solver
    b, log = ctx.ot.lp.barycenter(A, M, weights=w, log=True, solver=q)
    ctx.check("one program", len(calls) == 1)
    ctx.check("barycenter is the common marginal", ctx.eq(b, calls[0]))
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip((A, M), snap)])


def data(ctx, k, ns, d, G=True):
    X = ctx.mat("X", k, d, lo=-2, hi=2)
    Z = [ctx.mat("Z%d" % i, n, d, lo=-2, hi=2) for i, n in enumerate(ns)]
    a = [ctx.weights("a%d" % i, n, pos=True) for i, n in enumerate(ns)]
    b = ctx.weights("b", k, lo=ctx.num("1/10"), pos=True)
    w = ctx.weights("w", len(ns))
    G = [ctx.mat("G%d" % i, k, n, lo=0, hi=1) for i, n in enumerate(ns)]
    return X, Z, a, b, w, G


def free_support(ctx, k, ns, d, it=1, default=False):
    X, Z, a, b, w, G = data(ctx, k, ns, d)
    S = ctx.ot.lp._barycenter_solvers
    calls = []

    def rec(*args, **kw):
        calls.append((args, kw))
        return G[(len(calls) - 1) % len(ns)]
    ctx.patch(S, "emd", rec)
    snap = [ctx.snapshot(z) for z in [X, b, w] + Z + a]
    kw = {} if default else dict(b=b, weights=w)
    B = [ctx.num(1) / k] * k if default else b
    W = [ctx.num(1) / len(ns)] * len(ns) if default else w
    Y, log = ctx.ot.lp.free_support_barycenter(Z, a, X, numItermax=it, stopThr=-1, log=True, **kw)
    cur = [[X[s, c] for c in range(d)] for s in range(k)]
    ds = []
    for t in range(it):
        P = ctx.pack(cur)
        for i in range(len(ns)):
            args, kk = calls[t * len(ns) + i]
            ctx.check("problem %d.%d" % (t, i), [ctx.eq(args[0], ctx.pack(list(B))), ctx.eq(args[1], a[i]), ctx.eq(args[2], ctx.pack(sqd(P, Z[i])))])
        new = [[sum(W[i] * sum(G[i][s, u] * Z[i][u, c] for u in range(ns[i])) for i in range(len(ns))) / B[s] for c in range(d)] for s in range(k)]
        ds.append(sum((new[s][c] - cur[s][c]) ** 2 for s in range(k) for c in range(d)))
        cur = new
    ctx.check("support update", ctx.eq(Y, ctx.pack(cur)))
    ctx.check("displacements", [len(log["displacement_square_norms"]) == it] + [ctx.eq(x, y) for x, y in zip(log["displacement_square_norms"], ds)])
    Y2 = ctx.ot.lp.free_support_barycenter(Z, a, X, numItermax=it, stopThr=-1, **kw)
    ctx.check("log flag", ctx.eq(Y2, Y))
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip([X, b, w] + Z + a, snap)])


def free_stop(ctx):
    """the support is returned once it moves by less than the threshold, and not before"""
    X = ctx.mat("X", 2, 1, lo=-1, hi=1)
    Z = [ctx.mat("Z", 2, 1, lo=-1, hi=1)]
    a = [ctx.arr(["1/2", "1/2"])]
    S = ctx.ot.lp._barycenter_solvers
    G = ctx.arr([["1/2", 0], [0, "1/2"]])
    calls = []
    ctx.patch(S, "emd", lambda *x, **k: calls.append(1) or G)
    thr = ctx.real("thr", lo=ctx.num("1/100"), hi=1)
    Y = ctx.ot.lp.free_support_barycenter(Z, a, X, numItermax=5, stopThr=thr)
    moved = sum((Z[0][i, 0] - X[i, 0]) * (Z[0][i, 0] - X[i, 0]) for i in range(2))
    ctx.check("stops when the displacement is small", ctx.any([ctx.all([ctx.le(moved, thr), len(calls) == 1]), ctx.all([ctx.le(thr, moved), len(calls) == 2])]))
    ctx.check("support", ctx.eq(Y, Z[0]))


def generalized(ctx, shape, ns):
    """one update of the generalised barycenter solves its normal equations"""
    p = len(ns)
    if shape == "axes":
        P = [ctx.arr([[1, 0]]), ctx.arr([[0, 2]])]
    elif shape == "one":
        P = [ctx.arr([[2]]), ctx.arr([[1], ["1/2"]])]
    else:
        P = [ctx.arr([[1, 0], [0, 1]]), ctx.arr([[0, 1]])]
    d = P[0].shape[1]
    k = 2
    Z = [ctx.mat("Z%d" % i, n, P[i].shape[0], lo=-2, hi=2) for i, n in enumerate(ns)]
    a = [ctx.arr({1: [1], 2: ["1/3", "2/3"]}[n]) for n in ns]
    b = ctx.arr(["1/4", "3/4"])
    Y0 = ctx.mat("Y", k, d, lo=-1, hi=1)
    w1 = ctx.real("w", lo=ctx.num("1/10"), hi=ctx.num("9/10"))
    w = ctx.pack([w1, 1 - w1])
    G = [ctx.mat("G%d" % i, k, n, lo=0, hi=1) for i, n in enumerate(ns)]
    S = ctx.ot.lp._barycenter_solvers
    calls = []

    def rec(*args, **kw):
        calls.append(args)
        return G[(len(calls) - 1) % p]
    ctx.patch(S, "emd", rec)

    def eigh(A):
        # every matrix of this harness is diagonal
        n = A.shape[-1]
        o = list(range(n))
        if n == 2 and bool(A[1, 1] < A[0, 0]):
            o = [1, 0]
        return ctx.pack([A[i, i] for i in o]), ctx.arr([[1 if o[j] == i else 0 for j in range(n)] for i in range(n)])
    if ctx.sym:
        ctx.contract("eigh", eigh)
    snap = [ctx.snapshot(z) for z in [Y0, b, w] + Z + a + P]
    Y = ctx.ot.lp.generalized_free_support_barycenter(Z, a, P, k, Y_init=Y0, b=b, weights=w, numItermax=1, stopThr=-1)
    for s in range(k):
        lhs = [sum(w[i] * P[i][r, c] * sum(P[i][r, e] * Y[s, e] for e in range(d)) for i in range(p) for r in range(P[i].shape[0])) for c in range(d)]
        rhs = [sum(w[i] * P[i][r, c] * sum(G[i][s, t] * Z[i][t, r] for t in range(ns[i])) / b[s] for i in range(p) for r in range(P[i].shape[0])) for c in range(d)]
        ctx.check("normal equations %d" % s, ctx.eq(ctx.pack(lhs), ctx.pack(rhs)))
    # the plan is computed for |P_i y - x|^2 up to terms depending on one index only
    sq = [ctx.sqrt(sum(w[i] * P[i][r, c] * P[i][r, c] for i in range(p) for r in range(P[i].shape[0]))) for c in range(d)]
    Yg = ctx.pack([[Y0[s, c] / sq[c] for c in range(d)] for s in range(k)])
    for i in range(p):
        ctx.check("weights %d" % i, [ctx.eq(calls[i][0], b), ctx.eq(calls[i][1], a[i])])
        C = sqd(ctx.pack([[sum(P[i][r, c] * Yg[s, c] for c in range(d)) for r in range(P[i].shape[0])] for s in range(k)]), Z[i])
        for t in range(1, ns[i]):
            ctx.check("costs %d" % i, ctx.eq(calls[i][2][0, 0] - calls[i][2][0, t] - calls[i][2][1, 0] + calls[i][2][1, t], C[0][0] - C[0][t] - C[1][0] + C[1][t]))
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip([Y0, b, w] + Z + a + P, snap)])


def plans(ctx, n, ns, pat=None):
    """plans with a common first marginal"""
    a = [ctx.num("1/2"), ctx.num("1/3"), ctx.num("1/6")][:n]
    a[-1] = 1 - sum(a[:-1])
    r = []
    for k, m in enumerate(ns):
        rows = []
        for i in range(n):
            v = ctx.simplex("p%d_%d" % (k, i), m, total=a[i])
            rows.append([v[j] for j in range(m)])
        r.append(ctx.pack(rows))
    return ctx.pack(a), r


def gluing(ctx, n, ns):
    """the glued multi-marginal plan has the given plans as projections"""
    a, P = plans(ctx, n, ns)
    S = ctx.ot.lp._barycenter_solvers
    snap = [ctx.snapshot(p) for p in P]
    J, w, log = S.NorthWestMMGluing(P, a, log=True)
    ga = log["gamma"]
    for k, m in enumerate(ns):
        for i in range(n):
            for j in range(m):
                s = sum([ga[(i,) + jj] for jj in product(*[range(x) for x in ns]) if jj[k] == j])
                ctx.check("projection %d" % k, ctx.eq(s, P[k][i, j]))
    ctx.check("multi-indices are distinct", len(set(tuple(int(x) for x in r) for r in J)) == len(J))
    tot = {tuple(int(x) for x in r): w[q] for q, r in enumerate(J)}
    ctx.check("weights are the projection on the targets",
              [ctx.eq(tot.get(jj, ctx.num(0)), sum(ga[(i,) + jj] for i in range(n))) for jj in product(*[range(x) for x in ns])])
    ctx.check("non-negative", [ctx.le(0, ga[(i,) + jj]) for i in range(n) for jj in product(*[range(x) for x in ns])])
    J2, w2 = S.NorthWestMMGluing(P)
    ctx.check("log flag and default marginal", [ctx.eq(w2, w), bool((J2 == J).all())])
    ctx.check("inputs kept", [ctx.eq(z, s) for z, s in zip(P, snap)])


def clean(ctx, n, near):
    """merging equal points keeps the measure"""
    vals = [ctx.real("x%d" % i, lo=0, hi=1) for i in range(2)]
    X = ctx.pack([[vals[near[i] % 2] if near[i] < 2 else ctx.num(near[i])] for i in range(n)])
    a = ctx.simplex("a", n)
    S = ctx.ot.lp._barycenter_solvers
    ctx.assume(ctx.any([ctx.eq(vals[0], vals[1]), ctx.le(ctx.num("1/10"), vals[0] - vals[1]), ctx.le(ctx.num("1/10"), vals[1] - vals[0])]))
    Y, b = S._clean_discrete_measure(X, a)
    for i in range(n):
        same = [j for j in range(n)]
        mass = sum([a[j] for j in same if near[j] == near[i] or (near[i] < 2 and near[j] < 2 and bool(vals[0] - vals[1] == 0))])
        hit = [q for q in range(len(b)) if bool(abs(Y[q, 0] - X[i, 0]) < ctx.num("1/20"))]
        ctx.check("one atom per point", len(hit) == 1)
        ctx.check("mass", ctx.eq(b[hit[0]], mass))
    ctx.check("total", ctx.eq(sum(b[q] for q in range(len(b))), 1))


def generic(ctx, method, k, ns, it=1, cl=False):
    """generic costs: plans of the given costs, projections, ground barycenter, recorded energies"""
    X = ctx.mat("X", k, 1, lo=-2, hi=2)
    Z = [ctx.mat("Z%d" % i, n, 1, lo=-2, hi=2) for i, n in enumerate(ns)]
    a = [ctx.arr({2: ["1/3", "2/3"], 1: [1]}[n]) for n in ns]
    al = ctx.arr(["1/4", "3/4"])
    S = ctx.ot.lp._barycenter_solvers
    K = len(ns)
    costs = [lambda x, y, i=i: ctx.pack([[(x[s, 0] - (i + 1) * y[t, 0]) ** 2 for t in range(y.shape[0])] for s in range(x.shape[0])]) for i in range(K)]
    if method == "true_fixed_point":
        G = [ctx.arr([["1/4", 0], ["1/12", "2/3"]]), ctx.arr([["1/4"], ["3/4"]])][:K]
    else:
        G = [ctx.mat("G%d" % i, k, n, lo=0, hi=1) for i, n in enumerate(ns)]
    E, calls = [], []

    def emd(*args, **kw):
        calls.append(args)
        return G[(len(calls) - 1) % K]

    def emd2(*args, **kw):
        E.append(args)
        return ctx.real("e%d" % len(E), lo=0, hi=3)
    ctx.patch(S, "emd", emd)
    ctx.patch(S, "emd2", emd2)
    gb = []

    def ground(Y):
        gb.append(Y)
        return sum(Y) / K
    if cl:
        ctx.assume(ctx.any([ctx.eq(Z[0][0, 0], Z[0][1, 0]), ctx.le(ctx.num("1/10"), Z[0][0, 0] - Z[0][1, 0]), ctx.le(ctx.num("1/10"), Z[0][1, 0] - Z[0][0, 0])]))
    r = S.free_support_barycenter_generic_costs(Z, a, X, costs, ground_bary=ground, a=al, numItermax=it, method=method, stopThr=-10, log=True, clean_measure=cl)
    if method == "true_fixed_point":
        Y, b, log = r
        if cl:
            # every returned measure is cleaned
            if len(b) == 2:
                ctx.check("atoms are distinct", ctx.any([ctx.le(ctx.num("1/25"), Y[0, 0] - Y[1, 0]), ctx.le(ctx.num("1/25"), Y[1, 0] - Y[0, 0])]))
            ctx.check("as many atoms as weights", len(b) == len(Y) and ctx.eq(log["X_list"][-1], Y) and ctx.eq(log["a_list"][-1], b))
        ctx.check("fixed point support", [ctx.eq(gb[0][i], ctx.pack([[Z[i][j, 0]] for j in J])) for i, J in enumerate(([0, 1], [0, 0])[:K])])
        ctx.check("fixed point weights", ctx.eq(b, ctx.arr(["1/3", "2/3"])) if len(b) == 2 else ctx.eq(sum(b[i] for i in range(len(b))), 1))
    else:
        Y, log = r
        for i in range(K):
            ctx.check("projection %d" % i, ctx.eq(gb[0][i], ctx.pack([[sum(G[i][s, t] * Z[i][t, 0] for t in range(ns[i])) / al[s]] for s in range(k)])))
        ctx.check("support", ctx.eq(Y, ctx.pack([[sum(gb[-1][i][s, 0] for i in range(K)) / K] for s in range(k)])))
        for i in range(K):
            ctx.check("plan problem %d" % i, [ctx.eq(calls[i][0], al), ctx.eq(calls[i][1], a[i]), ctx.eq(calls[i][2], costs[i](X, Z[i]))])
            for t in range(it + 1):
                q = log["X_list"][t]
                ctx.check("energy problem %d.%d" % (t, i), [ctx.eq(E[t * K + i][0], al), ctx.eq(E[t * K + i][1], a[i]), ctx.eq(E[t * K + i][2], costs[i](q, Z[i]))])
    V = [sum(ctx.real("e%d" % (t * K + i + 1), lo=0, hi=3) for i in range(K)) for t in range(it + 1)]
    ctx.check("energies", [len(log["V_list"]) == it + 1] + [ctx.eq(x, y) for x, y in zip(log["V_list"], V)])
    ctx.check("energy decrease", [ctx.eq(log["diff_list"][t], V[t] - V[t + 1]) for t in range(it)])


def dmmot(ctx, n, d):
    """Monge multi-marginal OT on a line: primal and dual certificates"""
    A = ctx.pack([list(r) for r in zip(*[list(ctx.simplex("a%d" % l, n)) for l in range(d)])])
    A0 = ctx.snapshot(A)
    obj, log = ctx.ot.lp.dmmot_monge_1dgrid_loss(A, log=True)
    P = log["A"]
    for l in range(d):
        for i in range(n):
            ctx.check("marginal %d" % l, ctx.eq(sum([v for x, v in P.items() if x[l] == i] or [ctx.num(0)]), A[i, l]))
    ctx.check("plan is non-negative", [ctx.le(0, v) for v in P.values()])
    ctx.check("primal value", ctx.eq(obj, sum((max(x) - min(x)) * v for x, v in P.items())))
    D = log["dual"]
    ctx.check("dual feasibility", [ctx.le(sum(D[l][x[l]] for l in range(d)), max(x) - min(x)) for x in product(range(n), repeat=d)])
    ctx.check("dual value", [ctx.eq(log["dual objective"], sum(D[l][i] * A[i, l] for l in range(d) for i in range(n))), ctx.eq(log["dual objective"], obj)])
    ctx.check("logged primal", ctx.eq(log["primal objective"], obj))
    ctx.check("inputs kept", ctx.eq(A, A0))
    ctx.check("log flag", ctx.eq(ctx.ot.lp.dmmot_monge_1dgrid_loss(A), obj))


CASES = []
for sv in ("highs-ipm", "highs", "cvx"):
    CASES += [Case("lp_%s_22" % sv, lp, n=2, k=2, solver=sv), Case("lp_%s_23" % sv, lp, n=2, k=3, solver=sv), Case("lp_%s_32" % sv, lp, n=3, k=2, solver=sv),
              Case("lp_%s_uni" % sv, lp, n=2, k=3, solver=sv, uni=True), Case("lp_%s_33" % sv, lp, n=3, k=3, solver=sv, tier="thorough")]
CASES += [Case("free_1", free_support, k=2, ns=(2, 3), d=1), Case("free_2", free_support, k=2, ns=(2, 2), d=2), Case("free_3", free_support, k=3, ns=(2, 1, 2), d=1),
          Case("free_it2", free_support, k=2, ns=(2, 2), d=1, it=2), Case("free_default", free_support, k=2, ns=(2, 3), d=2, default=True), Case("free_stop", free_stop),
          Case("gen_axes", generalized, shape="axes", ns=(2, 2)), Case("gen_one", generalized, shape="one", ns=(2, 1)), Case("gen_mixed", generalized, shape="mixed", ns=(2, 2)),
          Case("glue_2_22", gluing, n=2, ns=(2, 2)), Case("glue_2_222", gluing, n=2, ns=(2, 2, 2)), Case("glue_2_32", gluing, n=2, ns=(3, 2)), Case("glue_1_33", gluing, n=1, ns=(3, 3)),
          Case("glue_3_22", gluing, n=3, ns=(2, 2), tier="thorough"), Case("glue_2_33", gluing, n=2, ns=(3, 3), tier="thorough"),
          Case("clean_3", clean, n=3, near=(0, 2, 1)), Case("clean_4", clean, n=4, near=(0, 5, 1, 5)), Case("clean_4b", clean, n=4, near=(0, 1, 0, 1)),
          Case("generic_l2", generic, method="L2_barycentric_proj", k=2, ns=(2, 2)), Case("generic_l2_it2", generic, method="L2_barycentric_proj", k=2, ns=(2, 1), it=2),
          Case("generic_fp", generic, method="true_fixed_point", k=2, ns=(2, 1)), Case("generic_fp_clean", generic, method="true_fixed_point", k=2, ns=(2, 1), cl=True)]
for n, d in ((2, 2), (2, 3), (3, 2), (2, 4), (3, 3), (4, 2), (4, 3)):
    CASES.append(Case("dmmot_%d%d" % (n, d), dmmot, n=n, d=d, tier="quick" if n * d <= 9 else "thorough"))
BOUNDS = "barycenter programs with two or three histograms of two or three bins, free supports of two or three points in dimension one and two, gluings of two or three plans with up to three atoms, multi-marginal problems with up to four histograms or bins"
