"""C03 warm starts and threads never change the exact solution."""
from symx.worker import Case
from props.otlib import certified, plan_ok
from props.c02 import AB

NEEDS_CPP = True


def warm(ctx, ab, f, vary="all", M=None):
    """started from any potentials: same certified optimum"""
    A, B = AB[ab]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    if vary == "pot":
        M = ctx.arr([[(i * 7 + j * 3 + i * j * 2) % 5 for j in range(m)] for i in range(n)])
    else:
        M = ctx.mat("M", n, m, lo=-2, hi=3)
    if vary == "cost":
        u, v = ctx.arr(["1", "-2", "1/2"][:n]), ctx.arr(["-1", "3", "0"][:m])
    else:
        u, v = ctx.vec("u", n, lo=-5, hi=5), ctx.vec("v", m, lo=-5, hi=5)
    u0, v0 = ctx.snapshot(u), ctx.snapshot(v)
    if f == "emd":
        G, log = ctx.ot.emd(a, b, M, log=True, potentials_init=(u, v))
        c = log["cost"]
    else:
        c, log = ctx.ot.emd2(a, b, M, log=True, return_matrix=True, potentials_init=(u, v))
        G = log["G"]
    ctx.check("solved", log["warning"] is None)
    certified(ctx, G, M, a, b, log["u"], log["v"])
    ctx.check("value", ctx.eq(c, ctx.np.sum(G * M)))
    ctx.check("potentials kept", [ctx.eq(u, u0), ctx.eq(v, v0)])


def rewarm(ctx, ab):
    """restarting from the returned potentials, also after the cost has changed"""
    A, B = AB[ab]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    M = ctx.mat("M", n, m, lo=-2, hi=3)
    G, l1 = ctx.ot.emd(a, b, M, log=True)
    G2, l2 = ctx.ot.emd(a, b, M, log=True, potentials_init=(l1["u"], l1["v"]))
    certified(ctx, G2, M, a, b, l2["u"], l2["v"])
    ctx.check("same value", ctx.eq(l1["cost"], l2["cost"]))
    N = ctx.arr([[(i * 3 + j * 5 + 1) % 4 for j in range(m)] for i in range(n)])
    G3, l3 = ctx.ot.emd(a, b, N, log=True, potentials_init=(l1["u"], l1["v"]))
    certified(ctx, G3, N, a, b, l3["u"], l3["v"])


def weights(ctx, n, m, nt=1, warm=True):
    """all weights (zeros included) with a warm start"""
    a, b = ctx.simplex("a", n), ctx.simplex("b", m)
    M = ctx.arr([[(i * 7 + j * 3 + i * j) % 5 for j in range(m)] for i in range(n)])
    kw = dict(potentials_init=(ctx.arr([2, -1, 3][:n]), ctx.arr([0, 4, -3][:m]))) if warm else {}
    G, log = ctx.ot.emd(a, b, M, log=True, numThreads=nt, **kw)
    certified(ctx, G, M, a, b, log["u"], log["v"])


def threads(ctx, ab, nt, f, warm=False):
    A, B = AB[ab]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    M = ctx.mat("M", n, m, lo=-2, hi=3)
    kw = dict(numThreads=nt)
    if warm:
        kw["potentials_init"] = (ctx.arr([2, -1, 3][:n]), ctx.arr([0, 4, -3][:m]))
    if f == "emd":
        G, log = ctx.ot.emd(a, b, M, log=True, **kw)
        c = log["cost"]
    else:
        c, log = ctx.ot.emd2(a, b, M, log=True, return_matrix=True, **kw)
        G = log["G"]
    ctx.check("solved", log["warning"] is None)
    certified(ctx, G, M, a, b, log["u"], log["v"])
    ctx.check("value", ctx.eq(c, ctx.np.sum(G * M)))
    ctx.check("same value on one thread", ctx.eq(ctx.ot.emd2(a, b, M), c))


def threads_bad(ctx, nt):
    M = ctx.mat("M", 2, 2, lo=0, hi=1)
    a = ctx.arr(["1/2", "1/2"])
    try:
        ctx.ot.emd(a, a, M, numThreads=nt)
        ok = False
    except ValueError:
        ok = True
    ctx.check("wrong number of threads refused", ok)


CASES = []
for ab in AB:
    big = len(AB[ab][0]) * len(AB[ab][1]) > 6
    for vary in ("all", "cost", "pot"):
        for f in ("emd", "emd2"):
            q = not big and (vary != "all" or f == "emd") or (big and vary == "pot" and f == "emd")
            CASES.append(Case("warm_%s_%s_%s" % (ab, f, vary), warm, ab=ab, f=f, vary=vary, tier="quick" if q else "thorough"))
    CASES.append(Case("rewarm_" + ab, rewarm, ab=ab, tier="thorough" if big else "quick"))
    for nt in (2, 3):
        CASES.append(Case("threads_%s_%d" % (ab, nt), threads, ab=ab, nt=nt, f="emd" if nt == 2 else "emd2", tier="thorough" if big else "quick"))
    CASES.append(Case("threadswarm_" + ab, threads, ab=ab, nt=2, f="emd2", warm=True, tier="thorough" if big else "quick"))
for n, m in ((2, 2), (2, 3), (3, 3)):
    CASES.append(Case("weights_%d%d" % (n, m), weights, n=n, m=m, tier="quick" if n * m < 9 else "thorough"))
    CASES.append(Case("weights_t_%d%d" % (n, m), weights, n=n, m=m, nt=2, warm=False, tier="quick" if n * m < 9 else "thorough"))
CASES += [Case("badthreads_%s" % str(x).replace("-", "m"), threads_bad, nt=x) for x in (0, -1, "2")]
QUICK_WALL = 7
