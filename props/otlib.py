"""plan and potential certificates shared by the exact-solver harnesses"""
from props.lib import tot


def plan_ok(ctx, G, a, b, pref=""):
    ctx.check(pref + "plan nonnegative", ctx.le(0, G))
    ctx.check(pref + "row marginals", ctx.eq(ctx.np.sum(G, axis=1), a))
    ctx.check(pref + "column marginals", ctx.eq(ctx.np.sum(G, axis=0), b))


def certified(ctx, G, M, a, b, u, v, pref="", rows=None, cols=None, edges=None):
    """feasible plan + feasible potentials + equal values = optimal"""
    n, m = len(a), len(b)
    plan_ok(ctx, G, a, b, pref)
    R = range(n) if rows is None else rows
    C = range(m) if cols is None else cols
    E = [(i, j) for i in R for j in C] if edges is None else [(i, j) for i, j in edges if i in R and j in C]
    ctx.check(pref + "potentials feasible", [ctx.le(u[i] + v[j], M[i, j]) for i, j in E])
    ctx.check(pref + "potentials attain the cost", ctx.eq(
        sum(u[i] * a[i] for i in R) + sum(v[j] * b[j] for j in C), sum(G[i, j] * M[i, j] for i, j in E)))


def dense(ctx, G):
    return G.toarray() if hasattr(G, "toarray") else G
