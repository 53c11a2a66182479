"""Harness API.  The same harness runs symbolically (SymCtx) and on concrete
values against the real build (ConcCtx, used for every replay)."""

from fractions import Fraction as Fr

import numpy as np


_MISSING = object()


def unpatch(lst):
    for o, n, v in reversed(lst):
        if v is _MISSING:
            delattr(o, n)
        else:
            setattr(o, n, v)
    lst.clear()


class Skip(BaseException):
    """concrete run: the assumptions do not hold for these values"""


def flat(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return list(x.view(np.ndarray).reshape(-1))
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flat(y)
        return r
    return [x]


def shape_of(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(flat(x)),)
    return ()


def pairs(a, b):
    fa, fb = flat(a), flat(b)
    if shape_of(a) != shape_of(b):
        if len(fb) == 1:
            fb = fb * len(fa)
        elif len(fa) == 1:
            fa = fa * len(fb)
        elif len(fa) != len(fb):
            raise AssertionError("shape mismatch %s vs %s" % (shape_of(a), shape_of(b)))
    return list(zip(fa, fb))


class SymCtx:
    sym = True

    def __init__(self, ex, ot):
        from . import npshim as N
        from . import terms as T
        from .explore import Cond

        self.ex, self.ot, self.np, self.T, self.N, self.Cond = ex, ot, N.NP, T, N, Cond
        self._rng = None

    # -- inputs
    def _c(self, x):
        return x.cval() if isinstance(x, self.T.Term) else x

    def real(self, name, lo=None, hi=None, pos=False):
        lo, hi = [self.num(x) if isinstance(x, str) else x for x in (lo, hi)]
        pos = pos or (lo is not None and self._c(lo) > 0)
        v = self.T.var(name, pos=pos, nonneg=(lo is not None and self._c(lo) >= 0))
        self.ex.inputs[name] = v
        self.ex.ranges[name] = tuple(x.cval() if isinstance(x, self.T.Term) else x for x in (lo, hi))
        c = []
        if lo is not None and lo != 0:
            c.append(self.le(lo, v))
        if hi is not None:
            c.append(self.le(v, hi))
        if c:
            self.ex.assume(c)
        return v

    def vec(self, name, n, **k):
        return self.N.mkarr([self.real("%s%d" % (name, i), **k) for i in range(n)])

    def mat(self, name, n, m, **k):
        return self.N.mkarr([[self.real("%s%d_%d" % (name, i, j), **k) for j in range(m)] for i in range(n)])

    def sym_mat(self, name, n, diag0=False, **k):
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                if i == j and diag0:
                    M[i][j] = self.T.const(0)
                else:
                    M[i][j] = M[j][i] = self.real("%s%d_%d" % (name, i, j), **k)
        return self.N.mkarr(M)

    def simplex(self, name, n, lo=0, pos=False, total=1):
        """non-negative weights summing to `total` (last one eliminated)"""
        v = [self.real("%s%d" % (name, i), lo=lo, hi=None, pos=pos) for i in range(n - 1)]
        last = self.T.lift(total)
        for x in v:
            last = last - x
        self.ex.assume(self.Cond("<", lo, last) if pos else self.le(lo, last))
        return self.N.mkarr(v + [last])

    def weights(self, name, n, **k):
        """free weights with the linear constraint sum == 1 kept as a side fact"""
        v = self.vec(name, n, **k)
        self.ex.assume(self.eq(sum(flat(v)), 1))
        self.ex.groups.append(["%s%d" % (name, i) for i in range(n)])
        return v

    def arr(self, x):
        """constant array"""
        def f(y):
            if isinstance(y, (list, tuple)):
                return [f(z) for z in y]
            return Fr(y) if isinstance(y, str) else y

        return self.N.mkarr(f(x)) if isinstance(x, (list, tuple)) else self.N.as_sym(x)

    def num(self, x):
        return self.T.lift(Fr(x) if isinstance(x, str) else x)

    def pack(self, x):
        return self.N.mkarr(x)

    def val(self, x):
        """scalar out of a 0-d array"""
        return flat(x)[0]

    # -- conditions
    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        try:
            return [self.Cond("==", x, y) if x is not None and y is not None else x is y for x, y in pairs(a, b)]
        except AssertionError:
            return False

    def le(self, a, b):
        if a is None or b is None:
            return False
        return [self.Cond("<=", x, y) for x, y in pairs(a, b)]

    def lt(self, a, b):
        if a is None or b is None:
            return False
        return [self.Cond("<", x, y) for x, y in pairs(a, b)]

    def any(self, cs):
        return self.Cond("or", list(cs))

    def all(self, cs):
        return list(cs)

    def neg(self, c):
        return self.Cond("not", c)

    def implies(self, a, b):
        return self.Cond("or", [self.Cond("not", a), b])

    def ne(self, a, b):
        return self.Cond("not", self.eq(a, b))

    # -- verbs
    def assume(self, c, check=True):
        self.ex.assume(c, check=check)

    def check(self, label, c, **k):
        self.ex.check(label, c)

    def test(self, t):
        """branch of the harness on a condition"""
        return bool(t)

    def ident(self, a, b):
        """the two are the same function of the inputs"""
        from .explore import clear_checked

        try:
            for x, y in pairs(a, b):
                d = self.T.lift(x) - self.T.lift(y)
                if not isinstance(d, self.T.Term) or (d.d and clear_checked(d).d):
                    return False
        except (self.T.SymError, AssertionError):
            return False
        return True

    def index_cost(self, C):
        """points 0..n-1 and a metric looking the cost up, so that cost is free"""
        n, m = C.shape

        def metric(x, y):
            return C[int(x[0]), int(y[0])]

        return self.arr([[i] for i in range(n)]), self.arr([[j] for j in range(m)]), metric

    def exp(self, x):
        if isinstance(x, np.ndarray):
            return self.np.exp(x)
        return self.T.exp(x)

    def log(self, x):
        if isinstance(x, np.ndarray):
            return self.np.log(x)
        return self.T.log(x)

    def sqrt(self, x):
        if isinstance(x, np.ndarray):
            return self.np.sqrt(x)
        return self.T.power(self.T.lift(x), Fr(1, 2))

    def check_grad(self, label, f, x, g, val=None):
        """g is the gradient at x (inputs) of the function f"""
        v = self.val(f(x) if val is None else val)
        conds = []
        for xi, gi in zip(flat(x), flat(g)):
            ((m, c),) = xi.d.items()
            conds += self.eq(self.T.diff(v, self.T.ATOMS[m[0][0]].name), gi)
        if shape_of(x) != shape_of(g):
            conds = False
        self.check(label, conds)

    def snapshot(self, x):
        return x.copy()

    def contract(self, name, f, where=()):
        """model of an external routine; `where` lists (module, attribute) pairs
        under which replays on the real code substitute the same model"""
        self.ex.contracts[name] = f

    def stub(self, obj, name, f):
        """replace a repository/library attribute during this path (symbolic mode)"""
        self.patch(obj, name, f)

    def patch(self, obj, name, f):
        """replace an attribute in both modes (loop bounds, random draws)"""
        self.ex.stubs.append((obj, name, obj.__dict__.get(name, _MISSING)))
        setattr(obj, name, f)


class ConcCtx:
    sym = False

    def __init__(self, values, ot, tol=5e-7):
        self.values, self.ot, self.np, self.tol = values, ot, np, tol
        self.fails = []
        self.patched = []
        self.checks = 0

    def _v(self, name):
        v = self.values.get(name, "0")
        return float(Fr(v)) if not isinstance(v, float) else v

    def real(self, name, lo=None, hi=None, pos=False):
        lo, hi = [self.num(x) if isinstance(x, str) else x for x in (lo, hi)]
        v = self._v(name)
        if lo is not None and v < lo - 1e-12 or hi is not None and v > hi + 1e-12 or (pos and v <= 0):
            raise Skip("range of " + name)
        return np.float64(v)

    def vec(self, name, n, **k):
        return np.array([self.real("%s%d" % (name, i), **k) for i in range(n)])

    def mat(self, name, n, m, **k):
        return np.array([[self.real("%s%d_%d" % (name, i, j), **k) for j in range(m)] for i in range(n)])

    def sym_mat(self, name, n, diag0=False, **k):
        M = np.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                if not (i == j and diag0):
                    M[i, j] = M[j, i] = self.real("%s%d_%d" % (name, i, j), **k)
        return M

    def simplex(self, name, n, lo=0, pos=False, total=1):
        v = [Fr(self.values.get("%s%d" % (name, i), "0")) for i in range(n - 1)]
        last = Fr(total) - sum(v)
        v.append(last)
        if any(x < lo or (pos and x <= 0) for x in v):
            raise Skip("simplex")
        return np.array([float(x) for x in v])

    def weights(self, name, n, **k):
        v = [Fr(self.values.get("%s%d" % (name, i), "0")) for i in range(n)]
        if abs(sum(v) - 1) > Fr(1, 10**9):
            raise Skip("weights")
        return self.vec(name, n, **k)

    def arr(self, x):
        def f(y):
            if isinstance(y, (list, tuple)):
                return [f(z) for z in y]
            return float(Fr(y)) if isinstance(y, (str, Fr)) else y
        return np.array(f(x), dtype=float) if isinstance(x, (list, tuple)) else np.asarray(x, dtype=float)

    def num(self, x):
        return np.float64(float(Fr(x)) if isinstance(x, (str, Fr)) else x)

    def pack(self, x):
        return np.array(x, dtype=float)

    def val(self, x):
        return float(flat(x)[0])

    # a condition is (ok, slack)
    def _tol(self, a, b):
        return self.tol * (1 + max(abs(a), abs(b)))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        try:
            return [bool(abs(float(x) - float(y)) <= self._tol(x, y) or (x == y)) if x is not None and y is not None else x is y for x, y in pairs(a, b)]
        except AssertionError:
            return False

    def le(self, a, b):
        if a is None or b is None:
            return False
        return [bool(float(x) <= float(y) + (self._tol(x, y) if np.isfinite(x) and np.isfinite(y) else 0)) for x, y in pairs(a, b)]

    lt = le

    def any(self, cs):
        return any(_truth(c) for c in cs)

    def all(self, cs):
        return all(_truth(c) for c in cs)

    def neg(self, c):
        return not _truth(c)

    def implies(self, a, b):
        return (not _truth(a)) or _truth(b)

    def ne(self, a, b):
        return not _truth(self.eq(a, b))

    def assume(self, c, check=True):
        if not _truth(c):
            raise Skip("assumption")

    def check(self, label, c, **k):
        self.checks += 1
        if not _truth(c):
            self.fails.append(label)

    def test(self, t):
        return bool(t)

    def ident(self, a, b):
        return _truth(self.eq(a, b))

    index_cost = SymCtx.index_cost

    def check_grad(self, label, f, x, g, val=None):
        ok = shape_of(x) == shape_of(g)
        if ok:
            x = np.array(x, dtype=float)
            for i in range(x.size):
                h = 1e-5 * max(1.0, abs(x.flat[i]))
                d = []
                for s in (-h, h):
                    y = x.copy()
                    y.flat[i] += s
                    d.append(float(flat(f(y))[0]))
                fd = (d[1] - d[0]) / (2 * h)
                gi = float(flat(g)[i])
                ok = ok and abs(fd - gi) <= 1e-4 * (1 + abs(gi) + abs(d[0]) + abs(fd))
        self.check(label, ok)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def snapshot(self, x):
        return x.copy()

    def contract(self, name, f, where=()):
        import sys
        import scipy.linalg
        import scipy.optimize

        for src in (scipy.optimize, scipy.linalg, np.linalg):
            o = src.__dict__.get(name)
            if o is None:
                continue
            self.patch(src, name, f)
            for mn, mod in list(sys.modules.items()):
                if mod is not None and (mn == "ot" or mn.startswith("ot.")):
                    for k, v in list(mod.__dict__.items()):
                        if v is o:
                            self.patch(mod, k, f)
        for o, n in where:
            self.patch(o, n, f)

    def stub(self, obj, name, f):
        pass

    def patch(self, obj, name, f):
        self.patched.append((obj, name, obj.__dict__.get(name, _MISSING)))
        setattr(obj, name, f)

    def close(self):
        unpatch(self.patched)


def _truth(c):
    if isinstance(c, (list, tuple)):
        return all(_truth(x) for x in c)
    return bool(c)
