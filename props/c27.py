"""C27 sliced distances, sliced plans and spherical sliced distances."""
from symx.worker import Case
from props.lib import couplings, fr, pair_cost, tot

BOUNDS = "clouds of 1-3 points in dimension 2 (4 on the sphere), one or two directions, symbolic coordinates, direction or weights"
WT = {
    "one12": (["1"], ["1/4", "3/4"]),
    "eq22": (["1/2", "1/2"], ["1/2", "1/2"]),
    "gen22": (["1/4", "3/4"], ["2/5", "3/5"]),
    "gen23": (["1/4", "3/4"], ["1/6", "1/2", "1/3"]),
    "eq33": (["1/3", "1/3", "1/3"], ["1/3", "1/3", "1/3"]),
    "mass2": (["1", "1"], ["1", "1"]),
    "mix2": (["3/2", "1/2"], ["1", "1"]),
    "ub22": (["1/2", "1/2"], ["1/4", "3/4"]),
    "ua22": (["1/4", "3/4"], ["1/2", "1/2"]),
    "ub33": (["1/3", "1/3", "1/3"], ["1/6", "1/2", "1/3"]),
}
PTS = [["0", "1"], ["2", "-1"], ["-1", "1/2"]]
QTS = [["1", "1/2"], ["-1/2", "2"], ["3/2", "-2"]]
DIRS = [["3/5", "1", "-5/13"], ["4/5", "0", "12/13"]]


def cloud(ctx, n, m, free):
    """points with the coordinates named in `free` symbolic"""
    X, Y = [r[:] for r in PTS[:n]], [r[:] for r in QTS[:m]]
    for s in free:
        (X if s[0] == "x" else Y)[int(s[1])][int(s[2])] = ctx.real(s, lo=-3, hi=3)
    f = lambda Z: ctx.pack([[z if not isinstance(z, str) else ctx.num(z) for z in r] for r in Z])
    return f(X), f(Y)


def dirs(ctx, k, sym=False):
    D = [[ctx.num(z) for z in r[:k]] for r in DIRS]
    if sym:
        D[0][0] = ctx.real("t0", lo=-2, hi=2)
        D[1][0] = ctx.real("t1", lo=-2, hi=2)
    return ctx.pack(D)


def apow(ctx, z, p):
    z = abs(z)
    r = z
    for _ in range(p - 1):
        r = r * z
    return r


def ot1d(ctx, u, v, A, B, p):
    """cheapest coupling on the line"""
    M = ctx.pack([[apow(ctx, x - y, p) for y in v] for x in u])
    cs = [pair_cost(ctx, P, M) for P in couplings(fr(*A), fr(*B))]
    r = cs[0]
    for c in cs[1:]:
        r = ctx.np.minimum(ctx.pack([r]), ctx.pack([c]))[0]
    return r


def root(ctx, r, p):
    return r if p == 1 else ctx.np.power(ctx.pack([r]), 1.0 / p)[0]


def sw(ctx, w, p, k, free, symdir=False, how="sw", null=False):
    """value from the optimal cost of every projection"""
    A, B = WT[w]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    X, Y = cloud(ctx, n, m, free)
    D = dirs(ctx, k, symdir)
    s = [ctx.snapshot(z) for z in (X, Y, D, a, b)]
    f = ctx.ot.sliced_wasserstein_distance if how == "sw" else ctx.ot.max_sliced_wasserstein_distance
    kw = {} if null else dict(a=a, b=b)
    r, log = f(X, Y, p=p, projections=D, log=True, **kw)
    ctx.check("inputs kept", [ctx.eq(z, t) for z, t in zip((X, Y, D, a, b), s)])
    cs = []
    for j in range(k):
        u = [X[i, 0] * D[0, j] + X[i, 1] * D[1, j] for i in range(n)]
        v = [Y[i, 0] * D[0, j] + Y[i, 1] * D[1, j] for i in range(m)]
        cs.append(ot1d(ctx, u, v, A, B, p))
    ctx.check("cost of each projection", ctx.eq(log["projected_emds"], ctx.pack(cs)))
    ctx.check("directions", ctx.eq(log["projections"], D))
    if how == "sw":
        t = sum(cs) / k
    else:
        t = cs[0]
        for c in cs[1:]:
            t = ctx.np.maximum(ctx.pack([t]), ctx.pack([c]))[0]
    e = r
    for _ in range(p - 1):
        e = e * r
    ctx.check("value", [ctx.eq(e, t), ctx.le(0, r)])
    ctx.check("without log", ctx.eq(f(X, Y, p=p, projections=D, **kw), r))


def sw_self(ctx, p, n, how):
    """zero between equal clouds, symmetric"""
    X, Y = cloud(ctx, n, n, ["x00", "y10"])
    D = dirs(ctx, 2)
    f = ctx.ot.sliced_wasserstein_distance if how == "sw" else ctx.ot.max_sliced_wasserstein_distance
    ctx.check("zero with itself", ctx.eq(f(X, X, p=p, projections=D), 0))
    o = [1, 0, 2][:n]
    ctx.check("zero whatever the order", ctx.eq(f(X, X[o], p=p, projections=D), 0))
    ctx.check("symmetric", ctx.eq(f(X, Y, p=p, projections=D), f(Y, X, p=p, projections=D)))


def sw_scaler(ctx, how):
    X, Y = cloud(ctx, 2, 2, ["x00", "y11"])
    s = ctx.real("s", lo="1/2", hi=2)
    D = dirs(ctx, 1)
    f = ctx.ot.sliced_wasserstein_distance if how == "sw" else ctx.ot.max_sliced_wasserstein_distance
    a, b = ctx.arr(["1/4", "3/4"]), ctx.arr(["2/5", "3/5"])
    g = lambda Z: Z * s + 1
    ctx.check("scaler on both clouds", ctx.eq(f(X, Y, a, b, p=1, projections=D, scaler=g), f(g(X), g(Y), a, b, p=1, projections=D)))


def drawn(ctx, what):
    """unit directions from the seeded generator"""
    Z = ctx.arr([["3", "-1", "5"], ["4", "0", "12"]])
    U = ctx.arr([["3/5", "-1", "5/13"], ["4/5", "0", "12/13"]])
    calls = []
    X, Y = cloud(ctx, 2, 2, ["x00", "y11"])
    B = ctx.ot.backend.NumpyBackend
    ctx.patch(B, "seed", lambda self, seed=None: calls.append(("seed", seed)))

    def randn(self, *size, type_as=None):
        calls.append(("randn", tuple(size)))
        return Z.copy()

    ctx.patch(B, "randn", randn)
    a, b = ctx.arr(["1/4", "3/4"]), ctx.arr(["2/5", "3/5"])
    o = ctx.ot
    if what == "gen":
        P = o.sliced.get_random_projections(2, 3, seed=7)
        ctx.check("unit directions", ctx.eq(P, U))
    elif what == "sw":
        r, log = o.sliced_wasserstein_distance(X, Y, a, b, n_projections=3, seed=7, p=1, log=True)
        ctx.check("directions", ctx.eq(log["projections"], U))
        ctx.check("value", ctx.eq(r, o.sliced_wasserstein_distance(X, Y, a, b, projections=U, p=1)))
    elif what == "max":
        r, log = o.max_sliced_wasserstein_distance(X, Y, a, b, n_projections=3, seed=7, p=1, log=True)
        ctx.check("directions", ctx.eq(log["projections"], U))
        ctx.check("value", ctx.eq(r, o.max_sliced_wasserstein_distance(X, Y, a, b, projections=U, p=1)))
    elif what == "min":
        G, c = o.min_sliced_transport_plan(X, Y, a, b, n_projections=3, seed=7)
        H, d = o.min_sliced_transport_plan(X, Y, a, b, projections=U)
        ctx.check("plan", [ctx.eq(G, H), ctx.eq(c, d)])
    else:
        G, c = o.expected_sliced_plan(X, Y, a, b, n_projections=3, seed=7)
        H, d = o.expected_sliced_plan(X, Y, a, b, projections=U)
        ctx.check("plan", [ctx.eq(G, H), ctx.eq(c, d)])
    ctx.check("one draw after the seed", calls == [("seed", 7), ("randn", (2, 3))])


def metric_cost(ctx, X, Y, metric, p):
    n, m = X.shape[0], Y.shape[0]

    def f(x, y):
        if metric == "sqeuclidean":
            return sum((u - v) * (u - v) for u, v in zip(x, y))
        q = {"euclidean": 2, "cityblock": 1}.get(metric, p)
        return root(ctx, sum(apow(ctx, u - v, q) for u, v in zip(x, y)), q)

    return ctx.pack([[f(X[i], Y[j]) for j in range(m)] for i in range(n)])


def dense(ctx, pl, n, m):
    G = [[ctx.num(0) for _ in range(m)] for _ in range(n)]
    for k in range(len(pl.rows)):
        i, j = int(pl.rows[k]), int(pl.cols[k])
        G[i][j] = G[i][j] + pl.data[k]
    return ctx.pack(G)


def plans(ctx, w, metric, k, free, p=2, null=False, batch=None, beta=None, symdir=False):
    """optimal plans on the line, costs of the plans for the metric; best and expected plan"""
    A, B = WT[w]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    X, Y = cloud(ctx, n, m, free)
    D = dirs(ctx, k, symdir)
    s = [ctx.snapshot(z) for z in (X, Y, D, a, b)]
    kw = dict(metric=metric, p=p, projections=D, batch_size=batch)
    w_ = {"a": dict(b=b), "b": dict(a=a)}[null] if null in ("a", "b") else {} if null else dict(a=a, b=b)
    M = metric_cost(ctx, X, Y, metric, p)
    o = ctx.ot.sliced
    pl, cs, log = o.sliced_plans(X, Y, log=True, **kw, **w_)
    Gs, costs = [], []
    for j in range(k):
        G = dense(ctx, pl[j], n, m)
        Gs.append(G)
        ctx.check("marginals of each plan", [ctx.eq(ctx.np.sum(G, axis=1), a), ctx.eq(ctx.np.sum(G, axis=0), b), ctx.le(0, G)])
        u = [X[i, 0] * D[0, j] + X[i, 1] * D[1, j] for i in range(n)]
        v = [Y[i, 0] * D[0, j] + Y[i, 1] * D[1, j] for i in range(m)]
        E = ctx.pack([[(x - y) * (x - y) for y in v] for x in u])
        ctx.check("optimal on the line", [ctx.le(tot(G, E), pair_cost(ctx, P, E)) for P in couplings(fr(*A), fr(*B))])
        costs.append(tot(G, M))
        ctx.check("projected points", [ctx.eq(log["X_projection"][:, j], ctx.pack(u)), ctx.eq(log["Y_projection"][:, j], ctx.pack(v))])
    ctx.check("cost of each plan", ctx.eq(cs, ctx.pack(costs)))
    if beta is None:
        G, c, l = o.min_sliced_transport_plan(X, Y, log=True, **kw, **w_)
        ctx.check("cheapest plan", [ctx.le(c, z) for z in costs])
        ctx.check("cost of the plan", ctx.eq(c, tot(G, M)))
        ctx.check("plan of a projection", ctx.any([ctx.all([ctx.eq(G, H)]) for H in Gs]))
        ctx.check("cheapest direction", ctx.any([ctx.all([ctx.eq(l["min_projection"], D[:, j]), ctx.eq(c, costs[j]), ctx.eq(l["X_min_projection"], log["X_projection"][:, j]), ctx.eq(l["Y_min_projection"], log["Y_projection"][:, j])]) for j in range(k)]))
        S, c2 = o.min_sliced_transport_plan(X, Y, dense=False, **kw, **w_)
        ctx.check("sparse plan", [ctx.eq(S.todense(), G), ctx.eq(c, c2)])
    else:
        G, c, l = o.expected_sliced_plan(X, Y, log=True, beta=beta, **kw, **w_)
        if beta:
            e = [ctx.exp(-ctx.num(beta) * z) for z in costs]
            q = [z / sum(e) for z in e]
        else:
            q = [ctx.num(1) / k] * k
        H = sum(q[j] * Gs[j] for j in range(k))
        ctx.check("expected plan", ctx.eq(G, H))
        ctx.check("cost of the plan", ctx.eq(c, sum(q[j] * costs[j] for j in range(k))))
        ctx.check("weights of the directions", ctx.eq(l["weights"], ctx.pack(q)))
        S, c2 = o.expected_sliced_plan(X, Y, dense=False, beta=beta, **kw, **w_)
        ctx.check("sparse plan", [ctx.eq(S.todense(), G), ctx.eq(c, c2)])
    ctx.check("inputs kept", [ctx.eq(z, t) for z, t in zip((X, Y, D, a, b), s)])


def nproj(ctx, what):
    """given directions prevail on their number"""
    X, Y = cloud(ctx, 2, 2, ["x00", "y11"])
    D = dirs(ctx, 2)
    a, b = ctx.arr(["1/4", "3/4"]), ctx.arr(["2/5", "3/5"])
    f = {"sw": ctx.ot.sliced_wasserstein_distance, "max": ctx.ot.max_sliced_wasserstein_distance, "min": ctx.ot.min_sliced_transport_plan, "expected": ctx.ot.expected_sliced_plan}[what]
    r, q = f(X, Y, a, b, projections=D), f(X, Y, a, b, projections=D, n_projections=5)
    if what in ("min", "expected"):
        ctx.check("same plan", [ctx.eq(r[0], q[0]), ctx.eq(r[1], q[1])])
    else:
        ctx.check("same value", ctx.eq(r, q))


# the sphere: x = (c u, s v), u and v on circles, so that the planes give u and v
PY = [("3/5", "4/5"), ("-5/13", "12/13"), ("8/17", "-15/17"), ("-7/25", "-24/25"), ("20/29", "21/29"), ("-9/41", "40/41"), ("-11/61", "-60/61"), ("12/37", "-35/37")]


def sphere_points(ctx, n, k0):
    X, U = [], []
    for i in range(n):
        c, s = PY[(i + k0) % 8]
        u, v = PY[i + 4 * k0], PY[3 - i + 4 * k0]
        q = lambda z: ctx.num(z)
        X.append([q(c) * q(u[0]), q(c) * q(u[1]), q(s) * q(v[0]), q(s) * q(v[1])])
        sg = lambda z: 1 if z[0] != "-" else -1
        # directions in the planes (e1, e2) and (e4, e3)
        U.append([[q(u[0]) * sg(c), q(u[1]) * sg(c)], [q(v[1]) * sg(s), q(v[0]) * sg(s)]])
    return ctx.pack(X), U


def planes(ctx):
    return ctx.arr([[["1", "0"], ["0", "1"], ["0", "0"], ["0", "0"]], [["0", "0"], ["0", "0"], ["0", "1"], ["1", "0"]]])


SW = {
    "11": (["1"], ["1"]),
    "12": (["1"], ["1/4", "3/4"]),
    "22": (["1/4", "3/4"], ["2/5", "3/5"]),
    "23": (["1/4", "3/4"], ["1/6", "1/2", "1/3"]),
}


def model(ctx):
    """circle distances replaced by a polynomial of the coordinates, weights and power (C06 decides the distances themselves)"""
    o = ctx.ot

    def wt(w, z):
        if w is None:
            return ctx.pack([[ctx.num(1) / z.shape[0]] * z.shape[1] for _ in range(z.shape[0])])
        return w if w.ndim == 2 else ctx.pack([[w[i]] * z.shape[1] for i in range(z.shape[0])])

    def two(dim):
        return lambda z: z if z is None or z.ndim == 2 else z[:, None]

    def poly(u, v, a, b, p):
        u, v = two(2)(u), two(2)(v)
        a, b = wt(a, u), (wt(b, v) if v is not None else None)
        r = []
        for k in range(u.shape[1]):
            t = sum(a[i, k] * (1 + u[i, k] * (i + p)) for i in range(u.shape[0]))
            if v is not None:
                t = t + sum(b[j, k] * (2 + v[j, k] * (j + 3 * p)) for j in range(v.shape[0]))
            r.append(t)
        return ctx.pack(r)

    def circle(u_values, v_values, u_weights=None, v_weights=None, p=1, **k):
        return poly(u_values, v_values, u_weights, v_weights, p)

    def unif(u_values, u_weights=None):
        return poly(u_values, None, u_weights, None, 2)

    def lcot(u_values, v_values=None, u_weights=None, v_weights=None):
        return poly(u_values, v_values, u_weights, v_weights, 7)

    for name, f in (("wasserstein_circle", circle), ("semidiscrete_wasserstein2_unif_circle", unif), ("linear_circular_ot", lcot)):
        for mod in (o.lp.solver_circle, o.lp, o.sliced._spherical_sliced, o.sliced, o):
            if name in mod.__dict__:
                ctx.patch(mod, name, f)


def sphere(ctx, what, w, p=2, null=False, nump=2, target=True, drawn=False, stub=True):
    A, B = SW[w]
    n, m = len(A), len(B)
    a, b = ctx.arr(A), ctx.arr(B)
    X, U = sphere_points(ctx, n, 0)
    Y, V = sphere_points(ctx, m, 1)
    P = planes(ctx)
    cu = [[ctx.real("u%d_%d" % (k, i), lo=0, hi=1) if i == k else ctx.num(["1/3", "4/7", "1/9"][i]) for i in range(n)] for k in range(2)]
    cv = [[ctx.real("v%d_%d" % (k, i), lo=0, hi=1) if i == k and n == 1 else ctx.num(["2/7", "5/6", "3/7"][i]) for i in range(m)] for k in range(2)]
    ctx.assume([ctx.lt(z, 1) for r in cu + cv for z in r])
    table = [(U[i][k], cu[k][i]) for k in range(2) for i in range(n)] + [(V[i][k], cv[k][i]) for k in range(2) for i in range(m)]

    def coords(x):
        """coordinates on the circle: any value, the same for the same direction"""
        r = []
        for z in x:
            t = next((c for d, c in table if abs(float(d[0]) - float(z[0])) + abs(float(d[1]) - float(z[1])) < 1e-9), None)
            ctx.check("direction in the plane", t is not None)
            r.append(t if t is not None else ctx.num(0))
        return ctx.pack(r)

    if stub:
        model(ctx)
    elif what == "lssw":
        # the grid of 100 points is replaced by three points
        ctx.patch(ctx.ot.backend.NumpyBackend, "linspace", lambda self, start, stop, num, type_as=None: ctx.arr(["0.11", "0.43", "0.86", "1"]))
    su = ctx.ot.sliced._utils
    ctx.patch(su, "get_coordinate_circle", coords)
    kw = dict(a=a) if not null else {}
    kb = dict(b=b) if not null else {}
    ua, ub = (a, b) if not null else (None, None)
    calls = []
    if drawn:
        B_ = ctx.ot.backend.NumpyBackend
        ctx.patch(B_, "seed", lambda self, seed=None: calls.append(("seed", seed)))
        Z = ctx.arr([[["1", "2"], ["0", "1"], ["1", "0"], ["3", "1"]], [["0", "2"], ["1", "1"], ["1", "5"], ["0", "1"]]])

        def randn(self, *size, type_as=None):
            calls.append(("randn", tuple(size)))
            return Z

        def qr(self, z):
            ctx.check("planes of the draws", ctx.eq(z, Z))
            return P, None

        ctx.patch(B_, "randn", randn)
        ctx.patch(B_, "qr", qr)
        kw.update(n_projections=2, seed=3)
    else:
        kw.update(projections=P)
        if nump:
            kw["n_projections"] = nump
    cu_, cv_ = ctx.pack(cu), ctx.pack(cv)
    o = ctx.ot
    if what == "ssw":
        r, log = o.sliced_wasserstein_sphere(X, Y, p=p, log=True, **kw, **kb)
        ref = [o.wasserstein_circle(cu_[k], cv_[k], ua, ub, p=p)[0] for k in range(2)]
    elif what == "unif":
        r, log = o.sliced_wasserstein_sphere_unif(X, log=True, **kw)
        ref = [o.semidiscrete_wasserstein2_unif_circle(cu_[k], ua)[0] for k in range(2)]
    elif target:
        r, log = o.linear_sliced_wasserstein_sphere(X, Y, log=True, **kw, **kb)
        ref = [o.linear_circular_ot(cu_[k], cv_[k], ua, ub)[0] for k in range(2)]
    else:
        r, log = o.linear_sliced_wasserstein_sphere(X, log=True, **kw)
        ref = [o.linear_circular_ot(cu_[k], u_weights=ua)[0] for k in range(2)]
    ctx.check("cost of each plane", ctx.eq(log["projected_emds"], ctx.pack(ref)))
    ctx.check("planes", ctx.eq(log["projections"], P))
    e = r
    for _ in range(p - 1):
        e = e * r
    ctx.check("value", ctx.eq(e, sum(ref) / 2))
    if drawn:
        ctx.check("one draw after the seed", calls == [("seed", 3), ("randn", (2, 4, 2))])


def off_sphere(ctx, what, which):
    """samples off the sphere are refused, samples on it are not"""
    X, _ = sphere_points(ctx, 2, 0)
    Y, _ = sphere_points(ctx, 2, 1)
    s = ctx.real("s", lo="-2", hi=2)
    d = abs(s * s - 1)
    lim = ctx.num("1/10000")
    ctx.assume(ctx.any([ctx.le(d, lim * ctx.num("99/100")), ctx.le(lim * ctx.num("101/100"), d)]))
    Z = X if which == "x" else Y
    Z = ctx.pack([[z * s if i == 1 else z for z in r] for i, r in enumerate(Z)])
    ctx.patch(ctx.ot.sliced._utils, "get_coordinate_circle", lambda x: ctx.pack([ctx.num("1/3")] * len(x)))
    P = planes(ctx)
    o = ctx.ot
    try:
        if what == "unif":
            o.sliced_wasserstein_sphere_unif(Z, projections=P, n_projections=2)
        else:
            f = o.sliced_wasserstein_sphere if what == "ssw" else o.linear_sliced_wasserstein_sphere
            f(Z if which == "x" else X, Z if which == "y" else Y, projections=P, n_projections=2)
        ctx.check("on the sphere", ctx.le(d, lim))
    except ValueError:
        ctx.check("refused off the sphere", ctx.lt(lim, d))


CASES = []
for how in ("sw", "max"):
    for w, p, k, free in (("one12", 1, 2, ["x00", "y00", "y11"]), ("gen22", 1, 2, ["x00", "y11"]), ("gen22", 2, 2, ["x01", "y10"]), ("gen22", 3, 1, ["x00", "y01"]), ("gen23", 1, 2, ["x10", "y20"]), ("gen23", 2, 1, ["x10", "y21"]), ("ub22", 1, 2, ["x00", "y11"]), ("ua22", 2, 1, ["x00", "y11"])):
        CASES.append(Case("%s_%s_p%d_%d" % (how, w, p, k), sw, w=w, p=p, k=k, free=free, how=how))
    CASES.append(Case("%s_null_p1" % how, sw, w="eq22", p=1, k=2, free=["x00", "y11"], how=how, null=True))
    CASES.append(Case("%s_null_p2" % how, sw, w="eq33", p=2, k=1, free=["x00", "y21"], how=how, null=True))
    CASES.append(Case("%s_dir_gen22_p1" % how, sw, w="gen22", p=1, k=2, free=[], symdir=True, how=how))
    CASES.append(Case("%s_dir_gen23_p2" % how, sw, w="gen23", p=2, k=1, free=[], symdir=True, how=how))
    CASES.append(Case("%s_mass2_p1" % how, sw, w="mass2", p=1, k=2, free=["x00"], how=how))
    CASES += [Case("%s_self_p%d_%d" % (how, p, n), sw_self, p=p, n=n, how=how, tier="quick" if n < 3 else "thorough") for p in (1, 2) for n in (2, 3)]
    CASES.append(Case("%s_scaler" % how, sw_scaler, how=how))
CASES += [Case("drawn_" + s, drawn, what=s) for s in ("gen", "sw", "max", "min", "expected")]
CASES += [Case("nproj_" + s, nproj, what=s) for s in ("sw", "max", "min", "expected")]
for beta in (None, 0, "1/2"):
    t = {None: "min", 0: "mean", "1/2": "soft"}[beta]
    bt = float(0.5) if beta else beta
    for w, metric, k, free, kk in (
        ("eq22", "sqeuclidean", 2, ["x00", "y11"], {}), ("eq22", "cityblock", 2, ["x00", "y11"], {}), ("eq22", "minkowski", 1, ["x00"], dict(p=3)), ("eq22", "euclidean", 2 if beta is not None else 1, ["x00"], dict(p=1)),
        ("eq22", "sqeuclidean", 2, ["x01"], dict(null=True, batch=1)), ("eq33", "sqeuclidean", 2, ["y10"], dict(batch=2)), ("mass2", "sqeuclidean", 2, ["x00", "y11"], {}), ("mix2", "cityblock", 2, ["x00"], {}),
        ("gen22", "sqeuclidean", 2, ["x00", "y11"], {}), ("gen22", "cityblock", 2, ["x01"], dict(batch=2)), ("gen22", "minkowski", 1, ["x00"], dict(p=3)), ("gen22", "euclidean", 1, ["x00"], dict(p=1)),
        ("gen23", "sqeuclidean", 2, ["x10", "y20"], dict(batch=2)), ("one12", "cityblock", 2, ["x00", "y00"], {}), ("ub22", "sqeuclidean", 2, ["x00"], {}), ("ua22", "cityblock", 2, ["y00"], {}), ("ub22", "cityblock", 1, ["x00"], dict(null="a")), ("ua22", "sqeuclidean", 1, ["y00"], dict(null="b")), ("ub33", "sqeuclidean", 1, ["x00"], {}),
        ("gen22", "sqeuclidean", 2, [], dict(symdir=True)), ("eq22", "sqeuclidean", 2, [], dict(symdir=True))):
        CASES.append(Case("%s_%s_%s%s" % (t, w, metric, "".join("_%s" % (x,) for x in kk)), plans, w=w, metric=metric, k=k, free=free, beta=bt, **kk))
for w in SW:
    CASES += [Case("ssw%d_%s" % (p, w), sphere, what="ssw", w=w, p=p) for p in (1, 2, 3)]
    CASES.append(Case("unif_%s" % w, sphere, what="unif", w=w))
    CASES.append(Case("lssw_%s" % w, sphere, what="lssw", w=w))
    CASES.append(Case("lsswu_%s" % w, sphere, what="lssw", w=w, target=False))
    CASES += [Case("fullssw%d_%s" % (p, w), sphere, what="ssw", w=w, p=p, stub=False, tier="quick" if w == "11" and p == 1 else "thorough") for p in (1, 2)]
    CASES.append(Case("fullunif_%s" % w, sphere, what="unif", w=w, stub=False))
    CASES.append(Case("fulllssw_%s" % w, sphere, what="lssw", w=w, stub=False, tier="thorough"))
for s in ("ssw", "unif", "lssw"):
    CASES.append(Case(s + "_drawn", sphere, what=s, w="12", drawn=True))
    CASES.append(Case(s + "_null", sphere, what=s, w="12", null=True))
    CASES.append(Case(s + "_nproj", sphere, what=s, w="12", nump=None))
    CASES.append(Case(s + "_off_x", off_sphere, what=s, which="x"))
    if s != "unif":
        CASES.append(Case(s + "_off_y", off_sphere, what=s, which="y"))
