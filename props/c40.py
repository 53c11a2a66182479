"""C40 graph pooling layers give every graph of the batch its distances to the templates."""
import contextlib
import importlib.util
import itertools
import os
import sys
import types
import warnings

from symx.backends import Ten, torch_model, un
from symx.worker import Case
from props.c29 import bind, sq

QUICK_WALL = 20
BOUNDS = "one graph of 2-3 nodes or batches of 2-3 graphs with interleaved nodes, 2-3 templates of 1-2 nodes, 1-2 features; symbolic features, templates, weights, trade-off and distances"
STUBS = ["torch is replaced by a model of its documented functions over symbolic arrays; replays use torch", "the exact and fused Gromov-Wasserstein solvers (decided by C02 and C14) are recorded with their arguments and return arbitrary values", "torch_geometric.utils.subgraph by its definition", "random draws are prescribed"]


def subgraph_model(ctx, Tensor):
    import numpy

    def subgraph(subset, edge_index, edge_attr=None, relabel_nodes=False, num_nodes=None, **k):
        nodes = [int(z) for z in subset.x]
        e = [(int(i), int(j)) for i, j in zip(edge_index.x[0], edge_index.x[1]) if int(i) in nodes and int(j) in nodes]
        if relabel_nodes:
            # the new labels follow the order of the node numbers
            rank = {v: i for i, v in enumerate(sorted(set(nodes)))}
            e = [(rank[i], rank[j]) for i, j in e]
        return Tensor(numpy.array(e, dtype=int).reshape(-1, 2).T), None
    return subgraph


@contextlib.contextmanager
def gnn(ctx):
    """yields (utils, layers, torch, to tensor, to array)"""
    from symx import env
    saved = {}
    mods = {}
    if ctx.sym:
        mods, Tensor = torch_model(ctx)
        mods["torch_geometric"] = types.ModuleType("torch_geometric")
        tu = types.ModuleType("torch_geometric.utils")
        tu.subgraph = subgraph_model(ctx, Tensor)
        mods["torch_geometric.utils"] = tu
    else:
        ctx.tol = 2e-5
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import torch
            import torch_geometric.utils
    pk = types.ModuleType("ot.gnn")
    pk.__path__ = [os.path.join(env.REPO, "ot", "gnn")]
    mods["ot.gnn"] = pk
    for n in ("ot.gnn._utils", "ot.gnn._layers"):
        mods[n] = None
    for k in mods:
        saved[k] = sys.modules.get(k)
    try:
        for k, v in mods.items():
            if v is not None:
                sys.modules[k] = v
        out = []
        for n in ("_utils", "_layers"):
            spec = importlib.util.spec_from_file_location("ot.gnn." + n, os.path.join(env.REPO, "ot", "gnn", n + ".py"))
            m = importlib.util.module_from_spec(spec)
            sys.modules["ot.gnn." + n] = m
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                spec.loader.exec_module(m)
            out.append(m)
        torch = sys.modules["torch"]
        if ctx.sym:
            T = lambda x: Tensor(x)
            A = lambda x: un(x)
        else:
            import numpy
            T = lambda x: torch.tensor(numpy.array(x), dtype=torch.float32 if numpy.array(x).dtype.kind == "f" else torch.int64)
            A = lambda x: x.detach().numpy().astype(float) if hasattr(x, "detach") else x
        yield out[0], out[1], torch, T, A
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def recorders(ctx, U, A, T, calls):
    """record the solvers of the module; each call has its own arbitrary value"""
    ot = ctx.ot
    fgw, emd2 = ot.gromov.fused_gromov_wasserstein2, ot.lp.emd2

    def rec(f, nm):
        def g(*z, **k):
            d = bind(f, z, k)
            d["solver"] = nm
            d["value"] = ctx.real("value%d" % len(calls), lo=0, hi=9)
            calls.append(d)
            return T(ctx.pack([d["value"]]))[0]
        return g

    def dist(x1, x2=None, metric="sqeuclidean", *z, **k):
        X, Y = A(x1), A(x2)
        if metric != "sqeuclidean" or z or k:
            raise NotImplementedError(metric)
        return T(ctx.pack([[sq([X[i, c] for c in range(X.shape[1])], [Y[j, c] for c in range(Y.shape[1])]) for j in range(Y.shape[0])] for i in range(X.shape[0])]))
    for n, f in (("fused_gromov_wasserstein2", rec(fgw, "fgw")), ("emd2", rec(emd2, "emd")), ("dist", dist)):
        if hasattr(U, n):
            setattr(U, n, f)


def matches(ctx, A, d, M, C, Ct, w, q, alpha):
    """the call solved the stated problem"""
    import numpy
    ab = [d["a"], d["b"]] if d["solver"] == "emd" else [d["p"], d["q"]]
    L = [same(ctx, A(d["M"]), M), same(ctx, A(ab[0]), w), same(ctx, A(ab[1]), q)]
    if d["solver"] == "emd":
        if alpha is not None:
            L.append(ctx.eq(alpha, 0))
        return L
    if alpha is None:
        return [False]
    al = A(d["alpha"])
    al = al.reshape(-1)[0] if isinstance(al, numpy.ndarray) else al
    return L + [same(ctx, A(d["C1"]), C), same(ctx, A(d["C2"]), Ct), ctx.eq(al, alpha), d["loss_fun"] == "square_loss"]


def same(ctx, got, want):
    import numpy
    w = ctx.pack(want)
    return ctx.eq(got, w) if tuple(numpy.shape(got)) == tuple(w.shape) else False


def table(ctx, A, out, calls, shape, problem):
    """each entry is the value of its own problem"""
    import numpy
    D = A(out)
    ctx.check("shape of the distances", [tuple(numpy.shape(D)) == shape])
    ctx.check("one problem per distance", [len(calls) == int(numpy.prod(shape))])
    for ix in itertools.product(*[range(s) for s in shape]):
        v = D[ix]
        k = [t for t, d in enumerate(calls) if (ctx.ident(ctx.pack([v]), ctx.pack([d["value"]])) if ctx.sym else abs(float(v) - float(d["value"])) < 1e-4 * (1 + abs(float(v))))]
        ctx.check("distance is a solved value", [len(k) >= 1])
        alts = [ctx.all(flat(matches(ctx, A, calls[t], *problem(*ix)))) for t in k]
        ctx.check("problem of the distance", alts[0] if len(alts) == 1 else [ctx.any(alts)])


def flat(L):
    r = []
    for x in L:
        r += x if isinstance(x, list) else [x]
    return r


def templates(ctx, nT, m, d, free):
    X = [[[ctx.real("t%d%d%d" % (k, i, c), lo=-2, hi=2) if (k, i) in free else ctx.num("%d/4" % (3 * k - 2 * i + c)) for c in range(d)] for i in range(m)] for k in range(nT)]
    C = [[[ctx.num("%d/8" % (1 + k + abs(i - j))) if i != j else (ctx.real("c%d" % k, lo=0, hi=1) if k == 0 else ctx.num("1/4")) for j in range(m)] for i in range(m)] for k in range(nT)]
    W = []
    for k in range(nT):
        if m == 1:
            W.append([ctx.num(1)])
        else:
            w = ctx.real("w%d" % k, lo="1/8", hi="7/8") if k < 2 else ctx.num("1/4")
            W.append([w, 1 - w])
    return X, C, W


EDGES = {2: [(0, 1), (1, 0)], 3: [(0, 1), (1, 0), (1, 2), (2, 1)], 5: [(0, 2), (2, 0), (1, 3), (3, 1), (3, 4), (4, 3)], 6: [(5, 1), (1, 5), (0, 3), (3, 0), (3, 4), (4, 3)]}
BATCH = {5: [0, 1, 0, 1, 1], 6: [1, 0, 2, 1, 1, 0]}


def graph(ctx, n, d, free):
    X = [[ctx.real("x%d%d" % (i, c), lo=-2, hi=2) if i in free else ctx.num("%d/4" % (2 * i - 3 * c)) for c in range(d)] for i in range(n)]
    return X, EDGES[n], BATCH.get(n)


def parts(X, E, B):
    """features and adjacency of every graph"""
    gs = [list(range(len(X)))] if B is None else [[i for i in range(len(X)) if B[i] == g] for g in range(max(B) + 1)]
    out = []
    for nodes in gs:
        out.append(([X[i] for i in nodes], [[1 if (i, j) in E else 0 for j in nodes] for i in nodes]))
    return out


def problem_of(ctx, gs, Xt, Ct, W, alpha, single):
    def f(*ix):
        g, j = (0, ix[0]) if single else ix
        X, C = gs[g]
        M = [[sq(x, y) for y in Xt[j]] for x in X]
        al = None if alpha is None else alpha[j]
        return M, [[ctx.num(v) for v in r] for r in C], Ct[j], [ctx.num(1) / len(X)] * len(X), W[j], al
    return f


def fused(ctx, n, nT, m, d, multi, alphas):
    """fused distances to the templates"""
    with gnn(ctx) as (U, L, torch, T, A):
        import numpy
        X, E, B = graph(ctx, n, d, (0, n - 1))
        Xt, Ct, W = templates(ctx, nT, m, d, ((0, 0),))
        al = [ctx.real("alpha%d" % k, lo=0, hi=1) if z == "?" else ctx.num(z) for k, z in enumerate(alphas)]
        calls = []
        recorders(ctx, U, A, T, calls)
        out = U.FGW_distance_to_templates(T(numpy.array(E).T), T(ctx.pack(Ct)), T(ctx.pack(X)), T(ctx.pack(Xt)), T(ctx.pack(W)), T(ctx.pack(al)), multi, None if B is None else T(numpy.array(B)))
        gs = parts(X, E, B)
        table(ctx, A, out, calls, (nT,) if B is None else (len(gs), nT), problem_of(ctx, gs, Xt, Ct, W, al if multi else al * nT, B is None))


def plain(ctx, n, nT, m, d):
    """transport distances to the templates"""
    with gnn(ctx) as (U, L, torch, T, A):
        import numpy
        X, E, B = graph(ctx, n, d, (0, n - 1))
        Xt, Ct, W = templates(ctx, nT, m, d, ((0, 0),))
        calls = []
        recorders(ctx, U, A, T, calls)
        out = U.wasserstein_distance_to_templates(T(ctx.pack(X)), T(ctx.pack(Xt)), T(ctx.pack(W)), None if B is None else T(numpy.array(B)))
        gs = parts(X, E, B)
        table(ctx, A, out, calls, (nT,) if B is None else (len(gs), nT), problem_of(ctx, gs, Xt, Ct, W, None, B is None))


def refuse(ctx, n, fgw):
    """graphs and templates with other features are refused"""
    with gnn(ctx) as (U, L, torch, T, A):
        import numpy
        X, E, B = graph(ctx, n, 2, (0,))
        Xt, Ct, W = templates(ctx, 2, 2, 1, ())
        recorders(ctx, U, A, T, [])
        b = None if B is None else T(numpy.array(B))
        try:
            if fgw:
                U.FGW_distance_to_templates(T(numpy.array(E).T), T(ctx.pack(Ct)), T(ctx.pack(X)), T(ctx.pack(Xt)), T(ctx.pack(W)), T(ctx.pack([ctx.num("1/2")])), False, b)
            else:
                U.wasserstein_distance_to_templates(T(ctx.pack(X)), T(ctx.pack(Xt)), T(ctx.pack(W)), b)
            r = False
        except ValueError:
            r = True
        ctx.check("other features refused", [r])


def layer(ctx, fgw, n, nT, m, d, alpha=None, multi=False, train=True, moved=False):
    """the layer solves the problems of its templates, node weights and trade-off"""
    with gnn(ctx) as (U, L, torch, T, A):
        import numpy
        X, E, B = graph(ctx, n, d, (0,))
        R = [[[ctx.real("r%d%d%d" % (k, i, j), lo=0, hi=1) if k == 0 else ctx.num("%d/8" % (1 + 2 * i + j)) for j in range(m)] for i in range(m)] for k in range(nT)]
        Z = [[[ctx.real("z%d%d%d" % (k, i, c), lo=-2, hi=2) if (k, i) == (0, 0) else ctx.num("%d/4" % (k - 2 * i + c)) for c in range(d)] for i in range(m)] for k in range(nT)]
        mu, sd = 0.5, 2.0
        drawn = []

        def rand(*s, **k):
            drawn.append(("rand", tuple(int(z) for z in (s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))))
            return T(ctx.pack(R))

        def normal_(t, mean=0.0, std=1.0, **k):
            drawn.append(("normal", tuple(t.shape)))
            v = T(ctx.pack([[[ctx.num(mean) + ctx.num(std) * z for z in r] for r in q] for q in Z]))
            if ctx.sym:
                t.x = v.x
                return t
            with torch.no_grad():
                return t.copy_(v)
        ctx.patch(torch, "rand", rand)
        ctx.patch(torch.nn.init, "normal_", normal_)
        al = None if alpha is None else (ctx.real("alpha", lo="1/8", hi="7/8") if alpha == "?" else ctx.num(alpha))
        kw = dict(alpha=al if ctx.sym or al is None else float(al), multi_alpha=multi) if fgw else {}
        lay = (L.TFGWPooling if fgw else L.TWPooling)(d, n_tplt=nT, n_tplt_nodes=m, train_node_weights=train, feature_init_mean=mu, feature_init_std=sd, **kw)
        ctx.check("draws of the templates", [("normal", (nT, m, d)) in drawn, ("rand", (nT, m, m)) in drawn or not fgw])
        q0 = [[ctx.num(0)] * m for _ in range(nT)]
        if moved:
            q0 = [[ctx.real("q%d" % k, lo=-1, hi=1)] + [ctx.num(0)] * (m - 1) for k in range(nT)]
            if ctx.sym:
                lay.q0.x = ctx.pack(q0)
            else:
                with torch.no_grad():
                    lay.q0.copy_(T(ctx.pack(q0)))
        calls = []
        recorders(ctx, L, A, T, calls)
        recorders(ctx, U, A, T, calls)
        b = None if B is None else T(numpy.array(B))
        out = lay(T(ctx.pack(X)), T(numpy.array(E).T), b)
        gs = parts(X, E, B)
        ex = [[ctx.exp(z) for z in r] for r in q0]
        W = [[z / sum(r) for z in r] for r in ex]
        Ct = [[[(R[k][i][j] + R[k][j][i]) / 2 for j in range(m)] for i in range(m)] for k in range(nT)]
        Xt = [[[ctx.num(mu) + ctx.num(sd) * z for z in r] for r in q] for q in Z]
        a = None if not fgw else [ctx.num("1/2") if al is None else al] * nT
        table(ctx, A, out, calls, (nT,) if B is None else (len(gs), nT), problem_of(ctx, gs, Xt, Ct, W, a, B is None))


CASES = []
for n, nT, m, d in ((3, 2, 2, 1), (2, 3, 1, 2), (5, 2, 2, 1), (6, 3, 2, 2), (5, 3, 1, 2)):
    CASES.append(Case("plain_%d%d%d%d" % (n, nT, m, d), plain, n=n, nT=nT, m=m, d=d))
    for multi, als in ((False, ["?"]), (False, ["0"]), (True, ["?", "1/4", "0"][:nT]), (True, ["0", "?", "1/2"][:nT])):
        CASES.append(Case("fused_%d%d%d%d_%s_%s" % (n, nT, m, d, multi, "".join(als).replace("/", "")), fused, n=n, nT=nT, m=m, d=d, multi=multi, alphas=als))
for n in (3, 5):
    for f in (False, True):
        CASES.append(Case("refuse_%d_%s" % (n, f), refuse, n=n, fgw=f))
        CASES.append(Case("layer_%d_%s" % (n, f), layer, fgw=f, n=n, nT=2, m=2, d=1))
        CASES.append(Case("layer_moved_%d_%s" % (n, f), layer, fgw=f, n=n, nT=2, m=2, d=2, moved=True, train=n == 3))
CASES.append(Case("layer_alpha_6", layer, fgw=True, n=6, nT=2, m=2, d=1, alpha="?"))
CASES.append(Case("layer_alpha_multi", layer, fgw=True, n=3, nT=3, m=2, d=1, alpha="?", multi=True, train=False))
CASES.append(Case("layer_multi", layer, fgw=True, n=5, nT=3, m=1, d=1, multi=True))
