"""C16 Semi-relaxed and partial Gromov-Wasserstein."""
from symx.worker import Case
from props.c14 import feats, mats
from props.gwlib import options, emd_contract, fgw_obj, gw_grad, loss_fn, record_gradients
from props.lib import W, W2, fr, partial_couplings

NEEDS_CPP = True
QUICK_WALL = 6


def uncap(ctx):
    emd_contract(ctx, (ctx.ot.optim, "emd"))
    solve = ctx.ot.optim.emd
    # the iteration cap of the outer loop is shared with the inner solver: not capped here
    ctx.patch(ctx.ot.optim, "emd", lambda a, b, C, cap, log=False: solve(a, b, C, log=log))


def rows(ctx, n, m):
    """plans whose rows have a given sum, all mass of a row on one column"""
    import itertools
    from fractions import Fraction as F
    p = [F(x) for x in W[n]]
    for js in itertools.product(range(m), repeat=n):
        yield ctx.arr([[p[i] if j == js[i] else F(0) for j in range(m)] for i in range(n)])


def setup(ctx, cs, kind, fused, n=2, m=2):
    C1, C2 = mats(ctx, n, m, cs, kind)
    M, al = None, 1
    if fused:
        M = feats(ctx, n, m)
        al = ctx.num(fused) if fused != "sym" else ctx.real("al", lo=ctx.num("1/100"), hi=1)
    return C1, C2, M, al


def best_step(ctx, V, T0, T, grad, obj, label, ties=()):
    """T is the best point on the way to a vertex minimising the linearised objective"""
    n, m = T0.shape
    lin = [sum(P[i, j] * grad[i, j] for i in range(n) for j in range(m)) for P in V]
    s = ctx.real("s", lo=0, hi=1)
    f1 = obj(T)
    alts = [ctx.all([ctx.le(l, x) for x in lin] + ctx.le(f1, obj(T0 + s * (P - T0)))) for P, l in zip(V, lin)]
    ctx.check(label, ctx.any(alts + [ctx.all(ctx.eq(x, y)) for x, y in ties]))


def gradients(ctx, by, C1, C2, M, T, al, kind, numalpha, parts):
    L = loss_fn(ctx, kind)
    n, m = T.shape
    sq = kind == "square_loss"
    e1, e2 = [], []
    for i in range(n):
        for k in range(n):
            g = sum((2 * (C1[i, k] - C2[j, l]) if sq else ctx.log(C1[i, k]) - ctx.log(C2[j, l])) * T[i, j] * T[k, l] for j in range(m) for l in range(m))
            e1 += ctx.eq(by["C1"][i, k], al * g)
    for j in range(m):
        for l in range(m):
            g = sum((2 * (C2[j, l] - C1[i, k]) if sq else 1 - C1[i, k] / C2[j, l]) * T[i, j] * T[k, l] for i in range(n) for k in range(n))
            e2 += ctx.eq(by["C2"][j, l], al * g)
    ctx.check("gradient for the first structure", e1)
    ctx.check("gradient for the second structure", e2)
    if M is not None:
        ctx.check("gradient for the features", ctx.eq(by["M"], (1 - al) * T))


def names(rec, C1, C2, M):
    by = {}
    for x, g in zip(rec[1], rec[2]):
        for nm, y in (("C1", C1), ("C2", C2), ("M", M)):
            if x is y:
                by[nm] = g
    return by


def semi(ctx, cs, kind, fused=None, symmetric=None, iters=1, g0=False, n=2, m=2, exact=True):
    """one conditional gradient step of the semi-relaxed problem"""
    G = ctx.ot.gromov
    C1, C2, M, al = setup(ctx, cs, kind, fused, n, m)
    p = ctx.arr(W[n])
    T0 = p[:, None] * ctx.arr(["1/%d" % m] * m)[None, :]
    kw = dict(loss_fun=kind, log=True, max_iter=iters, tol_rel=-1, tol_abs=-1)
    if symmetric is not None:
        kw["symmetric"] = symmetric
    if g0:
        T0 = p[:, None] * ctx.arr([["1/4", "3/4"], ["2/3", "1/3"]])
        kw["G0"] = T0
    if fused:
        T, log = G.semirelaxed_fused_gromov_wasserstein(M, C1, C2, p, alpha=al if ctx.sym else float(al), **kw)
        val = log["srfgw_dist"]
    else:
        T, log = G.semirelaxed_gromov_wasserstein(C1, C2, p, **kw)
        val = log["srgw_dist"]
    obj = lambda X: fgw_obj(ctx, M, C1, C2, X, al, kind)
    ctx.check("nonnegative", ctx.le(0, T))
    ctx.check("first marginal", ctx.eq(ctx.np.sum(T, axis=1), p))
    ctx.check("initial loss", ctx.eq(log["loss"][0], obj(T0)))
    ctx.check("reported loss is the objective", [ctx.eq(val, obj(T)), ctx.eq(log["loss"][-1], val)])
    ctx.check("loss never increases", [ctx.le(log["loss"][k + 1], log["loss"][k]) for k in range(iters)])
    if iters == 1 and exact:
        # rows with several best columns are split, then the target is no vertex
        g = gw_grad(ctx, M, C1, C2, T0, al, kind)
        best_step(ctx, list(rows(ctx, n, m)), T0, T, g, obj, "best point towards the best rows", ties=[(g[i, 0], g[i, 1]) for i in range(n)])


def semi_val(ctx, cs, kind, fused=None, numalpha=True):
    G = ctx.ot.gromov
    C1, C2, M, al = setup(ctx, cs, kind, fused)
    p = ctx.arr(W[2])
    rec = record_gradients(ctx)
    kw = dict(loss_fun=kind, log=True, max_iter=1, tol_rel=-1, tol_abs=-1)
    if fused:
        a_ = al if ctx.sym else float(al)
        if not numalpha and not ctx.sym:
            import numpy as np
            a_ = np.array(a_)
        v, log = G.semirelaxed_fused_gromov_wasserstein2(M, C1, C2, p, alpha=a_, **kw)
    else:
        v, log = G.semirelaxed_gromov_wasserstein2(C1, C2, p, **kw)
    T = log["T"]
    ctx.check("value", ctx.eq(v, fgw_obj(ctx, M, C1, C2, T, al, kind)))
    gradients(ctx, names(rec[0], C1, C2, M), C1, C2, M, T, al, kind, numalpha, None)
    if fused:
        lin = sum(T[i, j] * M[i, j] for i in range(2) for j in range(2))
        ctx.check("parts", [ctx.eq(log["lin_loss"], (1 - al) * lin), ctx.eq(log["quad_loss"], v - (1 - al) * lin)])
        if len(rec[0][1]) == 4:
            ctx.check("gradient for alpha", ctx.eq(rec[0][2][3], fgw_obj(ctx, None, C1, C2, T, 1, kind) - lin))


def semi_ent(ctx, cs, kind, fused=None, g0=False):
    """one mirror step: rows proportional to G exp(-gradient/epsilon)"""
    G = ctx.ot.gromov
    C1, C2, M, al = setup(ctx, cs, kind, fused)
    p = ctx.arr(W[2])
    T0 = p[:, None] * ctx.arr(["1/2", "1/2"])[None, :]
    eps = ctx.num("1/2")
    kw = dict(loss_fun=kind, log=True, max_iter=1, tol=-1, epsilon=eps if ctx.sym else float(eps))
    if g0:
        T0 = p[:, None] * ctx.arr([["1/4", "3/4"], ["2/3", "1/3"]])
        kw["G0"] = T0
    if fused:
        T, log = G.entropic_semirelaxed_fused_gromov_wasserstein(M, C1, C2, p, alpha=al if ctx.sym else float(al), **kw)
        val = log["srfgw_dist"]
    else:
        T, log = G.entropic_semirelaxed_gromov_wasserstein(C1, C2, p, **kw)
        val = log["srgw_dist"]
    grad = gw_grad(ctx, M, C1, C2, T0, al, kind)
    ctx.check("first marginal", ctx.eq(ctx.np.sum(T, axis=1), p))
    ctx.check("nonnegative", ctx.le(0, T))
    # T_i0 T0_i1 exp(g_i0/eps) = T_i1 T0_i0 exp(g_i1/eps)
    for i in range(2):
        ctx.check("mirror step", ctx.eq(T[i, 0] * T0[i, 1], T[i, 1] * T0[i, 0] * ctx.exp((grad[i, 1] - grad[i, 0]) / eps)))
    if cs[:3] == "sym":
        ctx.check("reported loss is the objective", ctx.eq(val, fgw_obj(ctx, M, C1, C2, T, al, kind)))


def part(ctx, cs, kind, mass, fused=None, symmetric=None, iters=1, n=2, m=2, exact=True, g0=False, wts=None):
    """one conditional gradient step of the partial problem"""
    G = ctx.ot.gromov
    uncap(ctx)
    C1, C2, M, al = setup(ctx, cs, kind, fused, n, m)
    A, B = wts or (W[n], W2[m])
    p, q = ctx.arr(A), ctx.arr(B)
    sa, sb = sum(fr(*A)), sum(fr(*B))
    mm = ctx.num(mass) if mass else ctx.num(min(sa, sb))
    T0 = p[:, None] * q[None, :] * mm / ctx.num(sa * sb)
    kw = dict(loss_fun=kind, log=True, numItermax=iters, tol=-1)
    if mass:
        kw["m"] = mm if ctx.sym else float(mm)
    if symmetric is not None:
        kw["symmetric"] = symmetric
    if g0:
        T0 = ctx.arr([["1/8", "0"], ["1/8", "1/4"]])
        kw["G0"] = T0
    if fused:
        T, log = G.partial_fused_gromov_wasserstein(M, C1, C2, p, q, alpha=al if ctx.sym else float(al), **kw)
        val = log["partial_fgw_dist"]
    else:
        T, log = G.partial_gromov_wasserstein(C1, C2, p, q, **kw)
        val = log["partial_gw_dist"]
    obj = lambda X: fgw_obj(ctx, M, C1, C2, X, al, kind)
    ctx.check("nonnegative", ctx.le(0, T))
    ctx.check("marginals not exceeded", [ctx.le(ctx.np.sum(T, axis=1), p), ctx.le(ctx.np.sum(T, axis=0), q)])
    ctx.check("mass", ctx.eq(ctx.np.sum(T), mm))
    ctx.check("initial loss", ctx.eq(log["loss"][0], obj(T0)))
    ctx.check("reported loss is the objective", [ctx.eq(val, obj(T)), ctx.eq(log["loss"][-1], val)])
    ctx.check("loss never increases", [ctx.le(log["loss"][k + 1], log["loss"][k]) for k in range(iters)])
    if iters == 1 and exact:
        V = [ctx.arr(P) for P in partial_couplings(fr(*A), fr(*B), mm.cval() if ctx.sym else fr(mass or min(sa, sb))[0])]
        best_step(ctx, V, T0, T, gw_grad(ctx, M, C1, C2, T0, al, kind), obj, "best point towards the best vertex")


def part_val(ctx, cs, kind, mass, fused=None, numalpha=True):
    G = ctx.ot.gromov
    uncap(ctx)
    C1, C2, M, al = setup(ctx, cs, kind, fused)
    p, q = ctx.arr(W[2]), ctx.arr(W2[2])
    rec = record_gradients(ctx)
    kw = dict(loss_fun=kind, log=True, numItermax=1, tol=-1, m=ctx.num(mass) if ctx.sym else float(ctx.num(mass)))
    if fused:
        a_ = al if ctx.sym else float(al)
        if not numalpha and not ctx.sym:
            import numpy as np
            a_ = np.array(a_)
        v, log = G.partial_fused_gromov_wasserstein2(M, C1, C2, p, q, alpha=a_, **kw)
    else:
        v, log = G.partial_gromov_wasserstein2(C1, C2, p, q, **kw)
    T = log["T"]
    ctx.check("value", ctx.eq(v, fgw_obj(ctx, M, C1, C2, T, al, kind)))
    gradients(ctx, names(rec[0], C1, C2, M), C1, C2, M, T, al, kind, numalpha, None)
    if fused:
        lin = sum(T[i, j] * M[i, j] for i in range(2) for j in range(2))
        ctx.check("parts", [ctx.eq(log["lin_loss"], (1 - al) * lin), ctx.eq(log["quad_loss"], v - (1 - al) * lin)])
        if len(rec[0][1]) == 4:
            ctx.check("gradient for alpha", ctx.eq(rec[0][2][3], fgw_obj(ctx, None, C1, C2, T, 1, kind) - lin))


def part_ent(ctx, cs, kind, fused=None, default=False):
    """the entropic partial problem linearises the objective at the iterate"""
    G = ctx.ot.gromov
    C1, C2, M, al = setup(ctx, cs, kind, fused)
    p, q = (ctx.arr(["1/2", "1/2"]), ctx.arr(["1/2", "1/2"])) if default else (ctx.arr(W[2]), ctx.arr(W2[2]))
    mm, reg = ctx.num("3/5"), ctx.num("1/3")
    T0 = p[:, None] * q[None, :] * mm
    T1 = ctx.arr([["1/10", "1/10"], ["1/5", "1/5"]])
    seen = []

    def solver(a, b, C, r, m=None, **kw):
        seen.append((a, b, ctx.snapshot(C), r, m))
        return T1
    ctx.patch(ctx.ot.gromov._partial, "entropic_partial_wasserstein", solver)
    kw = dict(loss_fun=kind, log=True, numItermax=1, m=mm if ctx.sym else float(mm), reg=reg if ctx.sym else float(reg))
    if not default:
        kw.update(p=p, q=q)
    if fused:
        T, log = G.entropic_partial_fused_gromov_wasserstein(M, C1, C2, alpha=al if ctx.sym else float(al), **kw)
        val = log["partial_fgw_dist"]
    else:
        T, log = G.entropic_partial_gromov_wasserstein(C1, C2, **kw)
        val = log["partial_gw_dist"]
    a, b, C, r, m = seen[0]
    ctx.check("subproblem", [ctx.eq(a, p), ctx.eq(b, q), ctx.eq(r, reg), ctx.eq(m, mm)])
    ctx.check("linearised cost is the gradient", ctx.eq(C, gw_grad(ctx, M, C1, C2, T0, al, kind)))
    ctx.check("plan", ctx.eq(T, T1))
    ctx.check("reported loss is the objective", ctx.eq(val, fgw_obj(ctx, M, C1, C2, T1, al, kind)))
    if fused:
        v, log = G.entropic_partial_fused_gromov_wasserstein2(M, C1, C2, alpha=al if ctx.sym else float(al), **kw)
        lin = sum(T1[i, j] * M[i, j] for i in range(2) for j in range(2))
        ctx.check("parts", [ctx.eq(v, val), ctx.eq(log["lin_loss"], (1 - al) * lin), ctx.eq(log["quad_loss"], val - (1 - al) * lin)])


def refuse(ctx):
    C = ctx.sym_mat("C", 2, lo=0, hi=2)
    p, q = ctx.arr(W[2]), ctx.arr(W2[2])
    for mm in ("-1/10", "11/10"):
        for f in ("partial_gromov_wasserstein", "entropic_partial_gromov_wasserstein"):
            try:
                getattr(ctx.ot.gromov, f)(C, C, p, q, m=ctx.num(mm) if ctx.sym else float(ctx.num(mm)))
                ok = False
            except ValueError:
                ok = True
            ctx.check("mass out of range refused", ok)


CASES = [Case("refuse", refuse)]
for kn, kd in (("sq", "square_loss"), ("kl", "kl_loss")):
    sq = kn == "sq"
    for c in ("sym1", "sym2", "gen1", "gen2"):
        t = "quick" if sq or c in ("sym1", "gen2") else "thorough"
        CASES += [Case("semi_%s_%s" % (kn, c), semi, cs=c, kind=kd, tier=t), Case("fsemi_%s_%s" % (kn, c), semi, cs=c, kind=kd, fused="1/3", tier=t),
                  Case("semival_%s_%s" % (kn, c), semi_val, cs=c, kind=kd, tier=t),
                  Case("part_%s_%s" % (kn, c), part, cs=c, kind=kd, mass="3/5", tier=t), Case("fpart_%s_%s" % (kn, c), part, cs=c, kind=kd, mass="1/2", fused="2/3", tier=t),
                  Case("partval_%s_%s" % (kn, c), part_val, cs=c, kind=kd, mass="3/5", tier=t),
                  Case("partent_%s_%s" % (kn, c), part_ent, cs=c, kind=kd, tier=t), Case("fpartent_%s_%s" % (kn, c), part_ent, cs=c, kind=kd, fused="1/3", tier=t)]
    CASES += [Case("semient_%s" % kn, semi_ent, cs="sym1", kind=kd), Case("semientg_%s" % kn, semi_ent, cs="gen2", kind=kd, g0=True), Case("fsemient_%s" % kn, semi_ent, cs="gen1", kind=kd, fused="1/3"),
              Case("fsemient2_%s" % kn, semi_ent, cs="sym2", kind=kd, fused="1/3"),
              Case("fsemival_%s" % kn, semi_val, cs="sym1", kind=kd, fused="1/3"), Case("fsemivala_%s" % kn, semi_val, cs="gen2", kind=kd, fused="sym", numalpha=False),
              Case("fpartval_%s" % kn, part_val, cs="sym2", kind=kd, mass="1/2", fused="1/3"), Case("fpartvala_%s" % kn, part_val, cs="gen1", kind=kd, mass="1/2", fused="sym", numalpha=False, tier="quick" if sq else "thorough")]
for kn, kd in (("sq", "square_loss"), ("kl", "kl_loss")):
    for c in ("gen1x", "gen2x"):
        t = "quick" if kn == "sq" else "thorough"
        CASES += [Case("semi_%s_%s" % (kn, c), semi, cs=c, kind=kd, tier=t), Case("fsemi_%s_%s" % (kn, c), semi, cs=c, kind=kd, fused="1/3", tier=t), Case("semival_%s_%s" % (kn, c), semi_val, cs=c, kind=kd, tier=t),
                  Case("part_%s_%s" % (kn, c), part, cs=c, kind=kd, mass="3/5", tier=t), Case("fpart_%s_%s" % (kn, c), part, cs=c, kind=kd, mass="1/2", fused="2/3", tier=t), Case("partval_%s_%s" % (kn, c), part_val, cs=c, kind=kd, mass="3/5", tier=t),
                  Case("fsemival_%s_%s" % (kn, c), semi_val, cs=c, kind=kd, fused="1/3", tier=t), Case("fpartval_%s_%s" % (kn, c), part_val, cs=c, kind=kd, mass="1/2", fused="1/3", tier=t),
                  Case("semientx_%s_%s" % (kn, c), semi_ent, cs=c, kind=kd, g0=True, weight=2), Case("fsemientx_%s_%s" % (kn, c), semi_ent, cs=c, kind=kd, g0=True, fused="1/3", weight=2),
                  Case("partentx_%s_%s" % (kn, c), part_ent, cs=c, kind=kd, weight=2)]
for mo, w in (("_semirelaxed", "semirelaxed_gromov_wasserstein"), ("_semirelaxed", "semirelaxed_fused_gromov_wasserstein"), ("_partial", "partial_gromov_wasserstein"), ("_partial", "partial_fused_gromov_wasserstein")):
    CASES += [Case("options_%s%s_%d" % (w, "2" if two else "", lg), options, modname=mo, fname=w, two=two, log=lg) for two in (False, True) for lg in (True, False)]
CASES += [
    Case("semi_it2", semi, cs="sym1", kind="square_loss", iters=2), Case("semi_g0", semi, cs="gen1", kind="square_loss", g0=True), Case("semi_flag", semi, cs="sym1", kind="square_loss", symmetric=True),
    Case("semi_23", semi, cs="sym1", kind="square_loss", n=2, m=3, exact=False), Case("semi_32", semi, cs="gen2", kind="square_loss", n=3, m=2, exact=False),
    Case("part_it2", part, cs="sym1", kind="square_loss", mass="3/5", iters=2, tier="thorough"), Case("part_g0", part, cs="gen1", kind="square_loss", mass="1/2", g0=True),
    Case("part_full", part, cs="sym2", kind="square_loss", mass=None), Case("part_masses", part, cs="sym2", kind="square_loss", mass="1/2", wts=(["1/2", "1"], ["1/4", "1/2"])),
    Case("part_massfull", part, cs="gen2", kind="square_loss", mass=None, wts=(["1/2", "1"], ["1/4", "1/2"])),
    Case("part_23", part, cs="sym1", kind="square_loss", mass="1/2", n=2, m=3, exact=False), Case("partent_def", part_ent, cs="sym1", kind="square_loss", default=True),
]
BOUNDS = "2x2 (some 2x3, 3x2) structures with two symbolic entries, fixed weights and masses, one or two conditional gradient steps; linear subproblems of the partial case by the exact-solver contract"
