"""C33 Gromov-Wasserstein dictionaries: exact unmixing steps, their reported loss, dictionary gradient steps."""
import itertools

from symx.worker import Case
from props.c29 import bind, tot
from props.c32 import mat, coup, CV, DV

QUICK_WALL = 15
BOUNDS = "2-3 nodes per structure, 2-3 atoms, feature dimension 1-2, symbolic structures, atoms, plans, trade-off or regularisation; one to three inner or outer iterations, one to three epochs"
STUBS = ["the Gromov-Wasserstein solvers (decided by C17) are recorded and return arbitrary couplings with their exact objective", "dictionary steps: the unmixing (decided here on its own) is recorded and returns arbitrary unmixings and couplings", "random draws are prescribed"]
YV = [["1/2", "-1"], ["2", "1/3"], ["-3/4", "1"]]
ZV = [["1", "0"], ["-1/2", "2"], ["3/2", "-1/3"]]


def wts(ctx, n, k=0):
    return [ctx.num(x) for x in [[["1"]], [["1/4", "3/4"], ["1/3", "2/3"]], [["1/2", "1/3", "1/6"], ["1/5", "1/5", "3/5"]]][n - 1][k]]


def atoms(ctx, D, n, sym, free=True):
    """D atoms with one symbolic entry in the first"""
    out = []
    for d in range(D):
        A = [[ctx.num(CV[(i + d) % 3][(j + 2 * d) % 3]) * (1 if d != 1 else ctx.num("3/2")) for j in range(n)] for i in range(n)]
        if sym:
            A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        if free and d == 0:
            v = ctx.real("a", lo=0, hi=4)
            A[0][1] = v
            if sym:
                A[1][0] = v
        out.append(A)
    return out


def struct(ctx, n, sym, free):
    A = [[ctx.num(DV[i][j]) for j in range(n)] for i in range(n)]
    if free:
        A[0][1] = ctx.real("c", lo=0, hi=4)
    if sym:
        A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    return A


def comb(w, A):
    return [[tot(w[d] * A[d][i][j] for d in range(len(w))) for j in range(len(A[0][0]))] for i in range(len(A[0]))]


def gwobj(C, E, T):
    n, m = len(C), len(E)
    return tot((C[i][j] - E[k][l]) * (C[i][j] - E[k][l]) * T[i][k] * T[j][l] for i in range(n) for j in range(n) for k in range(m) for l in range(m))


def linobj(Y, Z, T):
    return tot(T[i][k] * (Y[i][c] - Z[k][c]) * (Y[i][c] - Z[k][c]) for i in range(len(Y)) for k in range(len(Z)) for c in range(len(Y[0])))


def unmix(ctx, n, m, D, reg="0", its=1, inner=1, sym=True, fused=None, d=1, weights=True, tol=True, free="a"):
    """alternation between couplings and unmixings: problems, exact segment steps, reported loss"""
    M = ctx.ot.gromov._dictionary
    C = struct(ctx, n, sym, free == "c")
    A = atoms(ctx, D, m, sym, free == "a")
    p, q = (wts(ctx, n), wts(ctx, m, 1)) if weights else ([ctx.num(1) / n] * n, [ctx.num(1) / m] * m)
    rg = ctx.num(reg) if reg != "sym" else ctx.real("reg", lo="1/100", hi=2)
    al = ctx.num(1) if fused is None else (ctx.real("alpha", lo="1/10", hi="9/10") if fused == "sym" else ctx.num(fused))
    Y = [[ctx.num(z) for z in r[:d]] for r in YV[:n]]
    B = [[[ctx.num(ZV[(i + k) % 3][c]) * (k + 1) for c in range(d)] for i in range(m)] for k in range(D)]
    if free == "y":
        Y[0][0] = ctx.real("y", lo=-2, hi=2)
    if free == "b":
        B[0][0][0] = ctx.real("b", lo=-2, hi=2)
    cp, cq = ctx.pack(p), ctx.pack(q)
    Ts = [coup(ctx, cp, cq, t, ctx.real("t", lo=0, hi="1/50") if free == "t" and t == its - 1 else None) for t in range(its)]
    calls = []

    def obj(w, T):
        return al * gwobj(C, comb(w, A), T) + ((1 - al) * linobj(Y, comb(w, B), T) if fused is not None else 0) - rg * tot(x * x for x in w)

    def rec(orig, key):
        def f(*z, **k):
            x = bind(orig, z, k)
            # arrays are updated in place by the caller
            x = {a: (ctx.snapshot(v) if a in ("C2", "G0", "M") else v) for a, v in x.items()}
            calls.append(x)
            T = Ts[len(calls) - 1]
            E = x["C2"]
            v = gwobj(C, [[E[i, j] for j in range(m)] for i in range(m)], T)
            if fused is not None:
                v = al * v + (1 - al) * tot(x["M"][i, j] * T[i][j] for i in range(n) for j in range(m))
            return (ctx.pack(T), {key: v}) if x["log"] else ctx.pack(T)
        return f
    ctx.patch(M, "gromov_wasserstein", rec(M.gromov_wasserstein, "gw_dist"))
    ctx.patch(M, "fused_gromov_wasserstein", rec(M.fused_gromov_wasserstein, "fgw_dist"))
    Cp, Ap, Yp, Bp = ctx.pack(C), ctx.pack(A), ctx.pack(Y), ctx.pack(B)
    keep = [ctx.snapshot(z) for z in (Cp, Ap, Yp, Bp, cp, cq)]
    ws = []
    o3 = M._cg_gromov_wasserstein_unmixing if fused is None else M._cg_fused_gromov_wasserstein_unmixing

    def step(*z, **k):
        x = bind(o3, z, k)
        w0 = [x["w"][i] for i in range(D)]
        r = o3(*z, **k)
        ws.append((w0, [r[0][i] for i in range(D)], r[-1]))
        return r
    ctx.patch(M, o3.__name__, step)
    neg = -float("inf")
    kw = dict(reg=0.0 if reg == "0" else (rg if ctx.sym else float(rg)), p=cp if weights else None, q=cq if weights else None, tol_outer=neg if tol else 0.25, tol_inner=neg, max_iter_outer=its, max_iter_inner=inner)
    if fused is None:
        w, E, T, L = M.gromov_wasserstein_linear_unmixing(Cp, Ap, symmetric=sym, **kw)
    else:
        w, E, F, T, L = M.fused_gromov_wasserstein_linear_unmixing(Cp, Yp, Ap, Bp, al if ctx.sym else float(al), symmetric=sym, **kw)
    ctx.check("inputs kept", [ctx.eq(x, y) for x, y in zip((Cp, Ap, Yp, Bp, cp, cq), keep)])
    done = len(calls)
    if tol:
        ctx.check("alternations", [done == its])
    w = [w[i] for i in range(D)]
    ctx.check("unmixing in the simplex", [ctx.le(0, x) for x in w] + [ctx.eq(tot(w), 1)])
    ctx.check("embedding", [ctx.eq(E, ctx.pack(comb(w, A)))] + ([ctx.eq(F, ctx.pack(comb(w, B)))] if fused is not None else []))
    ctx.check("plan", ctx.eq(T, ctx.pack(Ts[done - 1])))
    ctx.check("reported loss", ctx.eq(L, obj(w, Ts[done - 1])))
    cur = [ctx.num(1) / D] * D
    G0 = [[x * y for y in q] for x in p]
    for t in range(done):
        x = calls[t]
        K = [ctx.eq(x["C1"], Cp), ctx.eq(x["C2"], ctx.pack(comb(cur, A))), ctx.eq(x["p"], cp), ctx.eq(x["q"], cq), x["loss_fun"] == "square_loss", ctx.eq(x["G0"], ctx.pack(G0)), x["max_iter"] == inner, x["tol_rel"] == neg, x["tol_abs"] == 0, x["symmetric"] is sym, x["armijo"] is False]
        if fused is not None:
            Z = comb(cur, B)
            K += [ctx.eq(x["M"], ctx.pack([[tot((Y[i][c] - Z[k][c]) * (Y[i][c] - Z[k][c]) for c in range(d)) for k in range(m)] for i in range(n)])), ctx.eq(x["alpha"], al)]
        ctx.check("coupling problem", K)
        G0 = Ts[t]
        w0, w1, _ = ws[t]
        ctx.check("chained unmixings", [ctx.eq(a, b) for a, b in zip(w0, cur)])
        o0, o1 = obj(w0, G0), obj(w1, G0)
        ctx.check("unmixing does not increase the loss", ctx.le(o1, o0))
        if inner == 1:
            # the segment towards the vertices of least slope
            g = [slope(ctx, A, B, C, Y, w0, G0, q, al, rg, fused, k) for k in range(D)]
            best = [k for k in range(D) if all(ctx.test(g[k] <= z) for z in g)]
            v = [ctx.num(1) / len(best) if k in best else ctx.num(0) for k in range(D)]
            for s in ("0", "1/8", "1/4", "1/2", "3/4", "1"):
                o = obj([a + ctx.num(s) * (b - a) for a, b in zip(w0, v)], G0)
                ctx.check("best point of the segment", ctx.le(o1, o))
            ctx.check("on the segment", [ctx.eq((w1[i] - w0[i]) * (v[j] - w0[j]), (w1[j] - w0[j]) * (v[i] - w0[i])) for i in range(D) for j in range(i)])
        cur = w1
    ctx.check("last unmixing", [ctx.eq(a, b) for a, b in zip(w, cur)])
    if not tol and done < its:
        a, b = (ws[-2][2] if done > 1 else ctx.num(10 ** 15)), ws[-1][2]
        ctx.check("stops below the tolerance", ctx.le(4 * abs(a - b), abs(a)))
    if not tol:
        for t in range(1, done - 1):
            ctx.check("no early stop", ctx.le(abs(ws[t - 1][2]), 4 * abs(ws[t - 1][2] - ws[t][2])))


def slope(ctx, A, B, C, Y, w, T, q, al, rg, fused, k):
    """derivative of the loss with respect to the weight of atom k"""
    m, n = len(q), len(C)
    E = comb(w, A)
    r = 0
    for a in range(m):
        for b in range(m):
            tct = tot(T[i][a] * C[i][j] * T[j][b] for i in range(n) for j in range(n))
            r = r + 2 * al * A[k][a][b] * (E[a][b] * q[a] * q[b] - tct)
    if fused is not None:
        Z = comb(w, B)
        for a in range(m):
            for c in range(len(Z[0])):
                r = r + 2 * (1 - al) * B[k][a][c] * (q[a] * Z[a][c] - tot(T[i][a] * Y[i][c] for i in range(n)))
    return r - 2 * rg * w[k]


class Rng:
    def __init__(self, ctx, batches, np):
        self.ctx, self.b, self.asked, self.normals, self.np = ctx, batches, [], [], np

    def choice(self, a, size=None, replace=True):
        self.asked.append((len(list(a)), size, replace))
        return self.np.array(self.b[len(self.asked) - 1])

    def normal(self, loc=None, scale=None, size=None):
        ctx = self.ctx
        k = len(self.normals)
        self.normals.append((loc, scale, size))
        f = lambda *ix: ctx.num("%d/5" % (sum((3 * z + 1) * (t + 2) for t, z in enumerate(ix)) % 7 - 1 + k))
        return ctx.pack([[[f(a, b, c) for c in range(size[2])] for b in range(size[1])] for a in range(size[0])])


def adam(ctx, X, G, lr, st):
    """X, G: lists of numbers"""
    st["k"] += 1
    b1, b2 = (ctx.num("9/10"), ctx.num("99/100")) if ctx.sym else (0.9, 0.99)
    out = []
    for i, (x, g) in enumerate(zip(X, G)):
        st["m"][i] = b1 * st["m"].get(i, 0) + (1 - b1) * g
        st["v"][i] = b2 * st["v"].get(i, 0) + (1 - b2) * g * g
        out.append(x - lr * (st["m"][i] / (1 - b1 ** st["k"])) / (ctx.sqrt(st["v"][i] / (1 - b2 ** st["k"])) + (ctx.num("1/1000000000"))))
    return out


def learn(ctx, S, bs, D, n, m, proj="nonnegative_symmetric", epochs=1, use_adam=False, fused=None, d=1, init=True, weights=True, use_log=True, free=True):
    """stochastic steps: each follows the gradient of the batch loss for the returned unmixings and plans"""
    import numpy
    M = ctx.ot.gromov._dictionary
    Cs = [[[ctx.num(DV[(min(i, j) + s) % 3][(max(i, j)) % 3]) for j in range(n)] for i in range(n)] for s in range(S)]
    if "symmetric" not in proj:
        Cs[0][0][1] = Cs[0][0][1] + 1
    Ys = [[[ctx.num(YV[(i + s) % 3][c]) for c in range(d)] for i in range(n)] for s in range(S)]
    ps = [wts(ctx, n, s % 2) if n > 1 else [ctx.num(1)] for s in range(S)] if weights else [[ctx.num(1) / n] * n] * S
    q = wts(ctx, m, 1) if weights else [ctx.num(1) / m] * m
    A0 = atoms(ctx, D, m, False, free)
    A0[1][0][0] = -A0[1][0][0]
    B0 = [[[ctx.num(ZV[(i + k) % 3][c]) * (k + 1) for c in range(d)] for i in range(m)] for k in range(D)]
    b_ = min(bs, S)
    per = -(-S // b_)
    order = [[(k + e * 2 + 1) % S for k in range(i * b_, i * b_ + b_)] for e in range(epochs) for i in range(per)]
    rng = Rng(ctx, order, numpy)
    ctx.patch(M, "check_random_state", lambda s: rng)
    calls, outs = [], []
    al = ctx.num(1) if fused is None else ctx.num(fused)
    cq = ctx.pack(q)

    def rec(orig):
        def f(*z, **k):
            x = bind(orig, z, k)
            x["Cdict"] = ctx.snapshot(x["Cdict"])
            if "Ydict" in x:
                x["Ydict"] = ctx.snapshot(x["Ydict"])
            calls.append(x)
            t = len(calls)
            w = [ctx.num("%d/%d" % (k + 1 + (t + k) % 2, 7)) for k in range(D)]
            T = coup(ctx, x["p"], cq, t)
            E = [[ctx.num(CV[(a + t) % 3][(b + 2 * t) % 3]) for b in range(m)] for a in range(m)]
            F = [[ctx.num(ZV[(a + t) % 3][c]) for c in range(d)] for a in range(m)]
            L = ctx.real("l%d" % t, lo=0, hi=5)
            outs.append((w, E, F, T, L))
            if fused is None:
                return ctx.pack(w), ctx.pack(E), ctx.pack(T), L
            return ctx.pack(w), ctx.pack(E), ctx.pack(F), ctx.pack(T), L
        return f
    ctx.patch(M, "gromov_wasserstein_linear_unmixing", rec(M.gromov_wasserstein_linear_unmixing))
    ctx.patch(M, "fused_gromov_wasserstein_linear_unmixing", rec(M.fused_gromov_wasserstein_linear_unmixing))
    ap, bp = ctx.pack(A0), ctx.pack(B0)
    keep = [ctx.snapshot(ap), ctx.snapshot(bp)]
    kw = dict(reg=0.125, ps=[ctx.pack(x) for x in ps] if weights else None, q=cq if weights else None, epochs=epochs, batch_size=bs, Cdict_init=ap if init else None, projection=proj, use_log=use_log, tol_outer=1e-2, tol_inner=1e-3, max_iter_outer=33, max_iter_inner=44, use_adam_optimizer=use_adam, random_state=3)
    C_ = [ctx.pack(x) for x in Cs]
    Y_ = [ctx.pack(x) for x in Ys]
    lc, ly = 0.5, 0.25
    if fused is None:
        Cd, log = M.gromov_wasserstein_dictionary_learning(C_, D, m, learning_rate=lc, **kw)
    else:
        Cd, Yd, log = M.fused_gromov_wasserstein_dictionary_learning(C_, Y_, D, m, al if ctx.sym else float(al), learning_rate_C=lc, learning_rate_Y=ly, Ydict_init=bp if init else None, **kw)
    ctx.check("inputs kept", [ctx.eq(ap, keep[0]), ctx.eq(bp, keep[1])] + [ctx.eq(x, ctx.pack(y)) for x, y in zip(C_ + Y_, Cs + Ys)])
    ctx.check("batches", [rng.asked == [(S, b_, False)] * (epochs * per), len(calls) == epochs * per * b_])
    if not init:
        mean = lambda X: tot(X) / len(X)
        mu = [mean([x for r in C for x in r]) for C in Cs]
        gm = mean(mu)
        loc, sc, size = rng.normals[0]
        K = [ctx.eq(loc, gm), ctx.eq(sc * sc, mean([(x - gm) * (x - gm) for x in mu])), tuple(size) == (D, m, m)]
        g = Rng(ctx, [], numpy)
        A0 = g.normal(size=(D, m, m))
        A0 = [[[A0[k, i, j] for j in range(m)] for i in range(m)] for k in range(D)]
        if fused is not None:
            fm = [[mean([Y[i][c] for i in range(n)]) for c in range(d)] for Y in Ys]
            loc, sc, size = rng.normals[1]
            K += [tuple(size) == (D, m, d)]
            for c in range(d):
                u = mean([f[c] for f in fm])
                K += [ctx.eq(loc[c], u), ctx.eq(sc[c] * sc[c], mean([(f[c] - u) * (f[c] - u) for f in fm]))]
            Z = g.normal(size=(D, m, d))
            B0 = [[[Z[k, i, c] for c in range(d)] for i in range(m)] for k in range(D)]
        ctx.check("random atoms follow the data set", K)

    def project(A):
        if "symmetric" in proj:
            A = [[[(X[i][j] + X[j][i]) / 2 for j in range(m)] for i in range(m)] for X in A]
        if "nonnegative" in proj:
            A = [[[ctx.num(0) if ctx.test(x < 0) else x for x in r] for r in X] for X in A]
        return A
    A, B = project(A0), B0
    sA, sB = dict(k=0, m={}, v={}), dict(k=0, m={}, v={})
    best, bestL, t, batches, eps = (A, B), None, 0, [], []
    for e in range(epochs):
        cum = 0
        for i in range(per):
            bt = order[e * per + i]
            GA = [[[ctx.num(0)] * m for _ in range(m)] for _ in range(D)]
            GB = [[[ctx.num(0)] * d for _ in range(m)] for _ in range(D)]
            bl = 0
            K = []
            for s in bt:
                x = calls[t]
                w, E, F, T, L = outs[t]
                K += [ctx.eq(x["C"], C_[s]), ctx.eq(x["Cdict"], ctx.pack(A)), ctx.eq(x["p"], ctx.pack(ps[s])), ctx.eq(x["q"], cq), x["reg"] == 0.125, x["tol_outer"] == 1e-2, x["tol_inner"] == 1e-3, x["max_iter_outer"] == 33, x["max_iter_inner"] == 44, x["symmetric"] is ("symmetric" in proj)]
                if fused is not None:
                    K += [ctx.eq(x["Y"], Y_[s]), ctx.eq(x["Ydict"], ctx.pack(B)), ctx.eq(x["alpha"], al)]
                for k in range(D):
                    for a in range(m):
                        for b in range(m):
                            tct = tot(T[u][a] * Cs[s][u][v] * T[v][b] for u in range(n) for v in range(n))
                            GA[k][a][b] = GA[k][a][b] + 2 * al * w[k] * (E[a][b] * q[a] * q[b] - tct) / len(bt)
                        for c in range(d):
                            GB[k][a][c] = GB[k][a][c] + 2 * (1 - al) * w[k] * (q[a] * F[a][c] - tot(T[u][a] * Ys[s][u][c] for u in range(n))) / len(bt)
                bl = bl + L
                t += 1
            ctx.check("unmixing problems", K)
            batches.append(bl)
            cum = cum + bl
            fl = lambda X: [z for r in X for y in r for z in y]
            if use_adam:
                x = adam(ctx, fl(A), fl(GA), ctx.num("1/2"), sA)
                y = adam(ctx, fl(B), fl(GB), ctx.num("1/4"), sB) if fused is not None else fl(B)
            else:
                x = [u - v / 2 for u, v in zip(fl(A), fl(GA))]
                y = [u - v / 4 for u, v in zip(fl(B), fl(GB))] if fused is not None else fl(B)
            A = project([[[x[(k * m + a) * m + b] for b in range(m)] for a in range(m)] for k in range(D)])
            B = [[[y[(k * m + a) * d + c] for c in range(d)] for a in range(m)] for k in range(D)]
        eps.append(cum)
        if bestL is None or ctx.test(cum < bestL):
            best, bestL = (A, B), cum
    ctx.check("atoms", ctx.eq(Cd, ctx.pack(best[0])))
    if fused is not None:
        ctx.check("feature atoms", ctx.eq(Yd, ctx.pack(best[1])))
    ctx.check("log", [ctx.eq(ctx.pack(log["loss_batches"]), ctx.pack(batches)), ctx.eq(ctx.pack(log["loss_epochs"]), ctx.pack(eps))] if use_log else [log["loss_batches"] == [] and log["loss_epochs"] == []])


CASES = []
for n, m, D, reg, its, inner, sym, fr, w, tol in (
        (2, 2, 2, "0", 1, 1, True, "a", True, True), (2, 2, 2, "1/4", 1, 1, True, "c", True, True), (3, 2, 2, "0", 1, 1, False, "c", True, True),
        (2, 3, 3, "0", 1, 1, True, "t", True, True), (2, 2, 2, "sym", 1, 1, False, "", False, True), (3, 2, 3, "1/8", 2, 1, False, "t", True, True),
        (2, 2, 3, "1/2", 1, 2, True, "c", False, True), (2, 2, 2, "2", 2, 1, True, "t", True, True), (2, 2, 2, "1/8", 4, 1, True, "t", True, False), (2, 2, 2, "0", 1, 3, False, "t", True, True), (2, 2, 2, "4", 1, 1, False, "c", True, True)):
    CASES.append(Case("un_%d%d_%d_%s_%d%d_%s%s%s" % (n, m, D, reg, its, inner, fr, "" if sym else "_asym", "" if tol else "_tol"), unmix, n=n, m=m, D=D, reg=reg, its=its, inner=inner, sym=sym, free=fr, weights=w, tol=tol))
for n, m, D, reg, its, inner, sym, fr, w, tol, al, d in (
        (2, 2, 2, "0", 1, 1, True, "y", True, True, "1/2", 1), (2, 2, 2, "1/4", 1, 1, True, "b", True, True, "1/4", 2), (3, 2, 2, "0", 1, 1, False, "t", True, True, "3/4", 1),
        (2, 3, 3, "1/8", 2, 1, True, "t", True, True, "1/2", 2), (2, 2, 2, "1/8", 1, 1, False, "", False, True, "sym", 1), (2, 2, 2, "1/2", 2, 2, True, "t", True, True, "1/4", 1), (2, 2, 2, "1/8", 3, 1, True, "t", True, False, "1/2", 1), (2, 2, 2, "4", 1, 1, True, "c", True, True, "1/2", 1)):
    CASES.append(Case("fun_%d%d_%d_%s_%d%d_%s_%s%s%s" % (n, m, D, reg, its, inner, fr, al, "" if sym else "_asym", "" if tol else "_tol"), unmix, n=n, m=m, D=D, reg=reg, its=its, inner=inner, sym=sym, free=fr, weights=w, tol=tol, fused=al, d=d))
for S, bs, D, n, m, pj, ep, ad, w, init, ul, fr in (
        (2, 1, 2, 2, 2, "nonnegative_symmetric", 1, False, True, True, True, True), (3, 2, 2, 2, 2, "nonnegative", 2, False, True, True, True, False), (2, 5, 2, 3, 2, "symmetric", 2, False, True, True, True, False),
        (2, 2, 2, 2, 2, "none", 3, False, False, True, False, False), (1, 1, 2, 2, 2, "nonnegative_symmetric", 2, True, True, True, True, False), (2, 1, 2, 2, 2, "none", 1, True, True, True, True, False), (3, 3, 2, 2, 3, "nonnegative_symmetric", 1, False, True, False, True, False)):
    CASES.append(Case("dl_%d%d_%d%d_%s_%d%s" % (S, bs, n, m, pj, ep, "_adam" if ad else ""), learn, S=S, bs=bs, D=D, n=n, m=m, proj=pj, epochs=ep, use_adam=ad, weights=w, init=init, use_log=ul, free=fr))
for S, bs, D, n, m, pj, ep, ad, w, init, ul, al, d in (
        (2, 1, 2, 2, 2, "nonnegative_symmetric", 1, False, True, True, True, "1/4", 1), (3, 2, 2, 2, 2, "nonnegative", 2, False, True, True, False, "1/2", 1), (2, 2, 2, 3, 2, "symmetric", 1, True, False, True, True, "3/4", 2), (2, 5, 2, 2, 3, "nonnegative_symmetric", 2, False, True, False, True, "1/4", 2)):
    CASES.append(Case("fdl_%d%d_%d%d_%s_%d%s_%s" % (S, bs, n, m, pj, ep, "_adam" if ad else "", al), learn, S=S, bs=bs, D=D, n=n, m=m, proj=pj, epochs=ep, use_adam=ad, weights=w, init=init, use_log=ul, fused=al, d=d, free=False))
