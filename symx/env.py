"""Loads the repository's `ot` package for symbolic or for concrete execution."""

import builtins
import os
import sys
import types
import warnings

REPO = os.environ.get("SYMX_REPO", "/repo")
_BLOCK = ("geomloss", "torch", "jax", "tensorflow", "matplotlib", "pymanopt", "autograd", "cvxopt", "pykeops", "cupy", "sklearn", "networkx", "cvxpy", "keras")


def _quiet():
    sys.dont_write_bytecode = True
    for k in ("PYTORCH", "JAX", "TENSORFLOW", "CUPY"):
        os.environ["POT_BACKEND_DISABLE_" + k] = "1"
    for m in _BLOCK:
        sys.modules.setdefault(m, None)
    warnings.filterwarnings("ignore")


def _import_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    # an editable-install finder may point elsewhere; path entries win here
    import importlib

    import ot

    for m in ("coot", "gmm", "regpath", "sgot", "stochastic", "smooth", "dr", "mapping", "weak", "factored", "gaussian", "lp.dmmot", "lp.cvx"):
        try:
            importlib.import_module("ot." + m)
        except ImportError:
            pass

    for m in _BLOCK:
        if sys.modules.get(m, 0) is None:
            del sys.modules[m]
    assert os.path.dirname(os.path.abspath(ot.__file__)) == os.path.join(REPO, "ot"), ot.__file__
    return ot


def load_concrete(extdir=None):
    """real package, real numpy; compiled extensions from extdir if given"""
    _quiet()
    if extdir:
        import importlib.util

        for name in ("ot.lp.emd_wrap", "ot.partial.partial_cython"):
            so = os.path.join(extdir, name.split(".")[-1] + ".so")
            if os.path.exists(so):
                _Finder.sos[name] = so
        sys.meta_path.insert(0, _Finder())
    ot = _import_repo()
    return ot


class _Finder:
    sos = {}

    def find_spec(self, name, path=None, target=None):
        so = self.sos.get(name)
        if so is None:
            return None
        import importlib.machinery
        import importlib.util

        ld = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=ld)


class _SymExt:
    """finder that provides the translated Cython modules"""

    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        if name not in self.table:
            return None
        import importlib.util

        return importlib.util.spec_from_loader(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        self.table[mod.__name__](mod)


LIB = [None]


def load_symbolic(symso=None):
    """package whose modules see symbolic numpy; returns ot"""
    _quiet()
    import numpy as np

    from . import cppsym, cyx, npshim
    from . import terms as T

    if symso:
        LIB[0] = cppsym.Lib(symso)

    def cast(ty, v):
        if ty == "double":
            r = T.lift(v)
            return v if r is None else r
        return int(v)

    def mk(pyx, enums):
        def run(mod):
            path = os.path.join(REPO, pyx)
            code = cyx.translate(open(path).read())
            ns = mod.__dict__
            ns.update(
                __cast=cast, __box=cppsym.box, __ptr=lambda a: cppsym.Ptr(a), math=npshim.math_shim(),
                **enums,
            )
            for fn in ("EMD_wrap", "EMD_wrap_omp", "EMD_wrap_sparse", "EMD_wrap_lazy"):
                ns[fn] = (lambda fn: lambda *a: LIB[0].call(fn, *a))(fn)
            exec(compile(code, path, "exec"), ns)
            ns["math"] = npshim.math_shim()

        return run

    import re

    hdr = open(os.path.join(REPO, "ot/lp/EMD.h")).read()
    m = re.search(r"enum\s+ProblemType\s*\{([^}]*)\}", hdr)
    enums, k = {}, 0
    for e in (m.group(1) if m else "INFEASIBLE,OPTIMAL,UNBOUNDED,MAX_ITER_REACHED").split(","):
        e = e.split("//")[0].strip()
        if not e:
            continue
        if "=" in e:
            e, v = [x.strip() for x in e.split("=")]
            k = int(v, 0)
        enums[e] = k
        k += 1
    table = {
        "ot.lp.emd_wrap": mk("ot/lp/emd_wrap.pyx", enums),
        "ot.partial.partial_cython": mk("ot/partial/partial_cython.pyx", {}),
    }
    sys.meta_path.insert(0, _SymExt(table))
    ot = _import_repo()
    shim_modules()
    return ot


def shim_modules():
    import numpy as np
    import scipy
    import scipy.linalg
    import scipy.optimize
    import scipy.sparse
    import scipy.spatial.distance
    import scipy.special

    from . import npshim as N

    special = N.Proxy(scipy.special, dict(logsumexp=N._lse, xlogy=_xlogy, rel_entr=_relent, kl_div=_kldiv, erf=None))
    linalg = N.Proxy(scipy.linalg, dict(inv=N._inv, sqrtm=N._contract("sqrtm"), solve=N._solve, eigh=N._contract("eigh"), eig=N._contract("eig"), norm=N._norm, expm=N._contract("expm")))
    spatial_d = N.Proxy(scipy.spatial.distance, dict(cdist=N._cdist))
    spatial = N.Proxy(scipy.spatial, dict(distance=spatial_d))
    optimize = N.Proxy(scipy.optimize, dict(minimize=N._contract("minimize"), fmin_l_bfgs_b=N._contract("fmin_l_bfgs_b"), linprog=N._contract("linprog")))
    sparse = N.Proxy(scipy.sparse, dict(coo_array=N.SymCoo, coo_matrix=N.SymCoo, csr_matrix=N.SymCoo, csr_array=N.SymCoo, csc_matrix=N.SymCoo, csc_array=N.SymCoo, issparse=N.issparse,
                                       kron=N.sps_fn("kron"), block_diag=N.sps_fn("block_diag"), hstack=N.sps_fn("hstack"), vstack=N.sps_fn("vstack")))
    sp = N.Proxy(scipy, dict(special=special, linalg=linalg, spatial=spatial, optimize=optimize, sparse=sparse))
    repl = {
        id(np): N.NP, id(scipy): sp, id(scipy.special): special, id(scipy.linalg): linalg,
        id(scipy.optimize): optimize, id(scipy.spatial): spatial, id(scipy.spatial.distance): spatial_d,
        id(scipy.sparse): sparse,
        id(scipy.sparse.coo_array): N.SymCoo, id(scipy.sparse.csr_matrix): N.SymCoo,
        id(scipy.sparse.issparse): N.issparse, id(scipy.spatial.distance.cdist): N._cdist,
        id(scipy.optimize.minimize): N._contract("minimize"),
        id(scipy.optimize.fmin_l_bfgs_b): N._contract("fmin_l_bfgs_b"),
        id(scipy.optimize.linprog): N._contract("linprog"),
        id(np.linalg): N.LINALG,
        id(sys.modules["math"]): N.math_shim(),
    }
    # functions imported by name
    for n in dir(np):
        f = getattr(np, n, None)
        g = N.NP.__dict__.get(n)
        if g is not None and callable(f):
            repl.setdefault(id(f), g)
    try:
        from scipy.optimize._linesearch import scalar_search_armijo as ssa

        # pure Python; executed as it is with symbolic scalars
        repl[id(ssa)] = ssa
    except ImportError:
        pass
    REPL[0] = repl
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "ot" or name.startswith("ot.")):
            continue
        shim_one(mod)
    import ot.backend as B

    B.NumpyBackend.__type__ = np.ndarray
    B.np = N.NP
    for cls in list(vars(B).values()):
        if isinstance(cls, type):
            for k, v in list(vars(cls).items()):
                if isinstance(v, types.FunctionType) and v.__defaults__:
                    pass


REPL = [None]


def shim_one(mod):
    """the module sees symbolic numpy and scipy"""
    from . import npshim as N

    d = mod.__dict__
    for k, v in list(d.items()):
        r = REPL[0].get(id(v))
        if r is not None:
            d[k] = r
    d.setdefault("float", N.symfloat)
    d.setdefault("isinstance", _isinstance)
    d.setdefault("max", _bmax)
    d.setdefault("min", _bmin)


def _bext(kind, fn):
    def g(*a, **k):
        from . import npshim as N
        from . import terms as T

        if not k and T.lazymax():
            v = list(a[0]) if len(a) == 1 else list(a)
            v = [x.reshape(-1)[0] if isinstance(x, N.np.ndarray) and x.size == 1 else x for x in v]
            if v and any(type(x) is T.Term for x in v) and all(T.lift(x) is not None for x in v):
                return T.extremum(kind, v)
        return fn(*a, **k)

    return g


_bmax = _bext("max", builtins.max)
_bmin = _bext("min", builtins.min)


def _isinstance(x, t):
    from .terms import Term

    if type(x) is Term:
        import numpy as np

        ts = t if isinstance(t, tuple) else (t,)
        from .npshim import symfloat

        for q in ts:
            if q in (builtins.float, symfloat, np.floating, np.float64, np.generic):
                return True
            try:
                if builtins.isinstance(x, q):
                    return True
            except TypeError:
                pass
        return False
    return builtins.isinstance(x, t)


def _xlogy(x, y):
    import numpy as np

    return x * np.log(y)


def _relent(x, y):
    from . import npshim as N

    return N.as_sym(x) * N.NP.log(x / y)


def _kldiv(x, y):
    return _relent(x, y) - x + y
