"""C13 partial OT."""
from fractions import Fraction as Fr
from symx.worker import Case
from props.lib import fr, matchings, pair_cost, partial_couplings, tot

NEEDS_CPP = True


def feasible(ctx, G, a, b, m=None):
    ctx.check("nonnegative", ctx.le(0, G))
    ctx.check("rows", ctx.le(ctx.np.sum(G, axis=1), a))
    ctx.check("columns", ctx.le(ctx.np.sum(G, axis=0), b))
    if m is not None:
        ctx.check("mass", ctx.eq(ctx.np.sum(G), m))


AB = {
    "eq22": (["1/4", "3/4"], ["2/5", "3/5"]),
    "un22": (["1/4", "1/2"], ["1/3", "1"]),
    "deg22": (["1/2", "1/2"], ["1/2", "1/2"]),
    "un23": (["1/2", "1/4"], ["1/6", "1/2", "1/3"]),
    "w23": (["1/4", "3/4"], ["1/5", "3/10", "1/2"]),
    "w32": (["1/2", "1/3", "1/6"], ["2/5", "3/5"]),
    "zero22": (["0", "1/2"], ["1/4", "1/4"]),
}


def exact(ctx, ab, mass, dummies, lo=0):
    """plan of the requested mass, feasible and cheapest"""
    A, B = AB[ab]
    a, b = ctx.arr(A), ctx.arr(B)
    n, k = len(A), len(B)
    M = ctx.mat("M", n, k, lo=lo, hi=3)
    m = ctx.num(mass)
    M0 = ctx.snapshot(M)
    G, log = ctx.ot.partial.partial_wasserstein(a, b, M, m=m, nb_dummies=dummies, log=True)
    feasible(ctx, G, a, b, m)
    c = tot(G, M)
    ctx.check("optimal", [x for P in partial_couplings(fr(*A), fr(*B), Fr(mass)) for x in ctx.le(c, pair_cost(ctx, P, M))])
    ctx.check("reported cost", ctx.eq(log["partial_w_dist"], c))
    ctx.check("cost kept", ctx.eq(M, M0))
    w, l2 = ctx.ot.partial.partial_wasserstein2(a, b, M, m=m, nb_dummies=dummies, log=True)
    ctx.check("loss", ctx.eq(w, c))
    ctx.check("potentials of the real points", [len(log["u"]) == n, len(log["v"]) == k])


def exact_ab(ctx, n, k, Mname):
    """all weights and masses, fixed cost: against a dual bound"""
    a, b = ctx.vec("a", n, lo=0, hi=1), ctx.vec("b", k, lo=0, hi=1)
    m = ctx.real("m", lo=0)
    sa, sb = sum(a), sum(b)
    ctx.assume([ctx.le(m, sa), ctx.le(m, sb), ctx.le(ctx.num("1/100"), sa), ctx.le(ctx.num("1/100"), sb)])
    C = {"A": [[1, 3, 2], [2, 1, 5], [4, 2, 3]], "B": [[0, 1, 1], [1, 0, 2], [3, 1, 0]]}[Mname]
    M = ctx.arr([r[:k] for r in C[:n]])
    G = ctx.ot.partial.partial_wasserstein(a, b, M, m=m)
    feasible(ctx, G, a, b, m)
    # any other feasible plan (symbolic) is not cheaper
    P = ctx.mat("P", n, k, lo=0, hi=1)
    ctx.assume([ctx.le(ctx.np.sum(P, axis=1), a), ctx.le(ctx.np.sum(P, axis=0), b)])
    if ctx.sym:
        ctx.assume(ctx.eq(ctx.np.sum(P), m))
        ctx.check("optimal", ctx.le(tot(G, M), tot(P, M)))
    else:
        ctx.assume(abs(P.sum() - m) < 1e-9)
        ctx.check("optimal", ctx.le(tot(G, M), tot(P, M)))


MIXED = {"w23": ([["0", "1/8", "7/8"], ["1/8", "7/8", "1/4"]], (0, 0), (1, 1)), "w23b": ([["1/4", "0", "0"], ["3/4", "1/4", "1/2"]], (0, 0), (1, 2)),
         "w32": ([["3/8", "1/2"], ["0", "1/8"], ["1/8", "1/2"]], (0, 1), (2, 0)), "w32b": ([["0", "3/8"], ["1/8", "1/2"], ["0", "0"]], (0, 0), (1, 1))}


def lagrange(ctx, ab, lam, dummies, base=None):
    """the penalised form: cheapest of all sub-couplings for M - lambda"""
    A, B = AB[ab]
    a, b = ctx.arr(A), ctx.arr(B)
    n, k = len(A), len(B)
    if base:
        # cheap and dear pairs in the same rows and columns, two of them vary
        R, *ij = MIXED[base]
        M = [[ctx.num(z) for z in r] for r in R]
        for t, (i, j) in enumerate(ij):
            M[i][j] = ctx.real("M%d" % t, lo=0, hi=1)
        M = ctx.pack(M)
    else:
        M = ctx.mat("M", n, k, lo=0, hi=3)
    if lam is None:
        G, log = ctx.ot.partial.partial_wasserstein(a, b, M, log=True)
        l = ctx.np.max(M) + 1
    else:
        l = ctx.num("7/16") if base else ctx.real("l", lo=0, hi=4)
        l = l if ctx.sym else float(l)
        G, log = ctx.ot.partial.partial_wasserstein_lagrange(a, b, M, reg_m=l, nb_dummies=dummies, log=True)
    feasible(ctx, G, a, b)
    D = M - l
    c = tot(G, D)
    ctx.check("optimal", [x for P in partial_couplings(fr(*A), fr(*B)) for x in ctx.le(c, pair_cost(ctx, P, D))])
    ctx.check("reported cost", ctx.eq(log["cost"], tot(G, M)))


def infeasible(ctx, n, k):
    a, b = ctx.vec("a", n, lo=0, hi=1), ctx.vec("b", k, lo=0, hi=1)
    m = ctx.real("m", lo=-1, hi=3)
    ctx.assume([ctx.lt(ctx.num("1/1000"), sum(a)), ctx.lt(ctx.num("1/1000"), sum(b))])
    M = ctx.arr([[1, 2], [3, 1]])
    bad = ctx.test(m < 0) or ctx.test(m > sum(a)) or ctx.test(m > sum(b))
    for f in (lambda: ctx.ot.partial.partial_wasserstein(a, b, M, m=m),
              lambda: ctx.ot.partial.entropic_partial_wasserstein(a, b, M, 1, m=m, numItermax=0),
              lambda: ctx.ot.partial.entropic_partial_wasserstein(a, b, M, 1, m=m, numItermax=0, method="sinkhorn_log")):
        try:
            f()
            refused = False
        except ValueError:
            refused = True
        if bad:
            ctx.check("infeasible mass refused", refused)
        elif ctx.test(m > 0):
            ctx.check("feasible mass accepted", not refused)


def ent_ref(ctx, a, b, K0, m, it):
    """Dykstra iterations for the KL projection"""
    n, k = K0.shape
    mn = lambda x: ctx.np.minimum(ctx.pack([x]), ctx.pack([ctx.num(1)]))[0]
    K = K0 * (m / sum(sum(K0[i, j] for j in range(k)) for i in range(n)))
    q = [K * 0 + 1, K * 0 + 1, K * 0 + 1]
    for _ in range(it):
        for s in range(3):
            T = K * q[s]
            if s == 0:
                f = [mn(a[i] / sum(T[i, j] for j in range(k))) for i in range(n)]
                N = ctx.pack([[T[i, j] * f[i] for j in range(k)] for i in range(n)])
            elif s == 1:
                f = [mn(b[j] / sum(T[i, j] for i in range(n))) for j in range(k)]
                N = ctx.pack([[T[i, j] * f[j] for j in range(k)] for i in range(n)])
            else:
                t = sum(sum(T[i, j] for j in range(k)) for i in range(n))
                N = T * (m / t)
            q[s] = q[s] * K / N
            K = N
    return K


def entropic(ctx, n, k, it, method, mdef=False, few=False):
    if it == 1:
        a, b = ctx.vec("a", n, pos=True, hi=1), ctx.vec("b", k, pos=True, hi=1)
        if not ctx.sym:
            ctx.assume(bool((a > 1e-3).all() and (b > 1e-3).all()))
    else:
        a, b = ctx.arr(["1/4", "3/4", "1/3"][:n]), ctx.arr(["1/2", "1/3", "1/4"][:k])
    if few:
        K0 = ctx.pack([[ctx.real("K%d_%d" % (i, j), lo="1/4", hi=2) if (i, j) == (0, 0) else ctx.num(["1", "1/2", "3/4", "2/3", "5/4", "1/3"][i * k + j]) for j in range(k)] for i in range(n)])
    else:
        K0 = ctx.mat("K", n, k, pos=True, hi=2)
    if not ctx.sym:
        ctx.assume(bool((K0 > 1e-4).all()))
    M = -ctx.np.log(K0)
    if few:
        m = ctx.num("5/12")
    elif mdef:
        m = ctx.np.minimum(ctx.pack([sum(a)]), ctx.pack([sum(b)]))[0]
    else:
        m = ctx.real("m", pos=True, hi=2)
        ctx.assume([ctx.lt(m, sum(a)), ctx.lt(m, sum(b))])
        if not ctx.sym:
            ctx.assume(m > 1e-3)
    a0, b0, M0 = ctx.snapshot(a), ctx.snapshot(b), ctx.snapshot(M)
    G, log = ctx.ot.partial.entropic_partial_wasserstein(a, b, M, 1, m=None if mdef else m, method=method, numItermax=it, stopThr=-1, log=True)
    ctx.check("mass", ctx.eq(ctx.np.sum(G), m))
    ctx.check("Dykstra iterate", ctx.eq(G, ent_ref(ctx, a, b, K0, m, it)))
    ctx.check("cost", ctx.eq(log["partial_w_dist"], ctx.np.sum(G * M)))
    ctx.check("inputs kept", [ctx.eq(a, a0), ctx.eq(b, b0), ctx.eq(M, M0)])


def oned(ctx, n, k, p, ties=False, col=False):
    """every prefix of the returned pairs is a cheapest partial matching of that size"""
    x, y = ctx.vec("x", n, lo=0, hi=4), ctx.vec("y", k, lo=0, hi=4)
    if ties:
        ctx.assume(ctx.eq(x[0], y[0]))
    K = min(n, k)
    X, Y = (x.reshape(-1, 1), y.reshape(-1, 1)) if col else (x, y)
    I, J, c = ctx.ot.partial.partial_wasserstein_1d(X, Y, p=p)
    I, J = [int(i) for i in I], [int(j) for j in J]
    ctx.check("as many pairs as requested", len(I) == K and len(J) == K and len(c) == K)
    ctx.check("no point used twice", len(set(I)) == K and len(set(J)) == K and min(I) >= 0 and min(J) >= 0)

    def d(i, j):
        z = x[i] - y[j]
        if not ctx.test(z >= 0):
            z = -z
        return z if p == 1 else z ** p

    D = [[d(i, j) for j in range(k)] for i in range(n)]
    s = ctx.num(0)
    for q in range(1, K + 1):
        s = s + c[q - 1]
        ctx.check("cumulative costs are optimal partial costs",
                  [z for mt in matchings(n, k, q) for z in ctx.le(s, sum(D[i][j] for i, j in mt))])
        # the selected points attain it (monotone matching of the selected points)
        ctx.check("attained by the selected points",
                  ctx.any([ctx.all(ctx.eq(s, sum(D[I[e]][J[f]] for e, f in mt))) for mt in matchings(q, q, q)]))


CASES = []
for ab, mass in (("eq22", "1/2"), ("un22", "1/2"), ("deg22", "1/2"), ("un23", "1/2"), ("zero22", "1/4"), ("eq22", "1"), ("un22", "3/4"), ("eq22", "0")):
    for d in (1, 2):
        q = d == 1 or ab == "un22"
        CASES.append(Case("exact_%s_%s_%d" % (ab, mass.replace("/", ""), d), exact, ab=ab, mass=mass, dummies=d, tier="quick" if q else "thorough"))
CASES.append(Case("exact_neg", exact, ab="un22", mass="1/2", dummies=1, lo=-2))
for nm in "AB":
    CASES.append(Case("exactab22" + nm, exact_ab, n=2, k=2, Mname=nm))
    CASES.append(Case("exactab23" + nm, exact_ab, n=2, k=3, Mname=nm, tier="thorough"))
for ab in ("eq22", "un22", "deg22"):
    AB[ab + "s"] = tuple([str(Fr(x) / 2) for x in v] for v in AB[ab])
    for d in (1, 2):
        CASES.append(Case("lag_%s_%d" % (ab, d), lagrange, ab=ab + "s", lam=1, dummies=d, tier="quick" if d == 1 else "thorough"))
    CASES.append(Case("lagdef_%s" % ab, lagrange, ab=ab + "s", lam=None, dummies=1))
CASES += [Case("lag_%s" % k, lagrange, ab=k[:3], lam=1, dummies=1, base=k) for k in MIXED]
CASES.append(Case("infeasible", infeasible, n=2, k=2))
for me in ("sinkhorn", "sinkhorn_log"):
    CASES.append(Case("ent_%s_1" % me[8:], entropic, n=2, k=2, it=1, method=me, opt_lazymax=True))
    CASES.append(Case("entd_%s_1" % me[8:], entropic, n=2, k=2, it=1, method=me, mdef=True, opt_lazymax=True))
    CASES.append(Case("ent_%s_2" % me[8:], entropic, n=2, k=2, it=2, method=me, opt_lazymax=True))
    CASES += [Case("entf%d%d_%s_%d" % (n, k, me[8:], it), entropic, n=n, k=k, it=it, method=me, few=True, opt_lazymax=True) for n, k in ((2, 2), (2, 3)) for it in (3, 4)]
    CASES.append(Case("ent23_%s" % me[8:], entropic, n=2, k=3, it=1, method=me, opt_lazymax=True, tier="thorough"))
for n, k in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
    CASES.append(Case("1d_%d%d_1" % (n, k), oned, n=n, k=k, p=1))
    CASES.append(Case("1d_%d%d_2" % (n, k), oned, n=n, k=k, p=2, tier="quick" if n + k < 5 else "thorough"))
CASES.append(Case("1d_33_1", oned, n=3, k=3, p=1))
CASES.append(Case("1d_33_2", oned, n=3, k=3, p=2, tier="thorough"))
CASES.append(Case("1d_col", oned, n=2, k=2, p=1, col=True))
CASES.append(Case("1d_ties", oned, n=2, k=3, p=1, ties=True))
QUICK_WALL = 12
