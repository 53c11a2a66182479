"""Symbolic real numbers for executing the real POT code.

A `Term` is a Laurent polynomial with rational coefficients over interned atoms
(variables, exp/log atoms, multi-term denominators and radicands).  Arithmetic
normalises eagerly; comparisons are decided by the active explorer (a branch),
which asks z3.  Floats that enter the computation are idealised to the nearest
simple rational (see `lift`)."""

from fractions import Fraction as Fr
from math import gcd, inf, isinf, isnan, nan
import itertools
import numbers

import numpy as _np

EXPAND_CAP = 600

# ---------------------------------------------------------------- explorer hook
_EX = [None]  # active explorer


def active():
    return _EX[0]


def set_active(ex):
    _EX[0] = ex


class SymError(Exception):
    """The encoding cannot go on (engine limitation, not a verdict)."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "arg", "pos", "nonneg", "z3")

    def __init__(self, id, kind, name, arg, pos, nonneg):
        self.id, self.kind, self.name, self.arg = id, kind, name, arg
        self.pos, self.nonneg = pos, nonneg
        self.z3 = None

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "poly":
            return "(%r)" % (self.arg,)
        return "%s(%r)" % (self.kind, self.arg)


ATOMS = []
_INTERN = {}


def reset():
    ATOMS.clear()
    _INTERN.clear()
    _PRIMES.clear()
    _LOWER.clear()


def mk_atom(kind, key, name=None, arg=None, pos=False, nonneg=False):
    k = (kind, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, name, arg, pos, nonneg or pos)
        ATOMS.append(a)
        _INTERN[k] = a
    return a


def atom_is_pos(i):
    a = ATOMS[i]
    if a.pos:
        return True
    ex = _EX[0]
    return ex is not None and i in ex.posfacts


def atom_is_nonneg(i):
    a = ATOMS[i]
    if a.nonneg:
        return True
    ex = _EX[0]
    return ex is not None and (i in ex.posfacts or i in ex.nonnegfacts)


# ---------------------------------------------------------------- lifting
def idealise(x):
    """float -> Fraction, snapped to a nearby simple rational."""
    f = Fr(x)
    if f.denominator == 1:
        return f
    s = f.limit_denominator(1000)
    if s and abs(f - s) <= abs(f) * Fr(1, 10**15) * 2:
        return s
    if abs(x) < 1e-3 or abs(x) > 1e6:
        return Fr(repr(x))
    s = f.limit_denominator(10**6)
    if s and abs(f - s) <= abs(f) * Fr(1, 10**15) * 2:
        return s
    return Fr(repr(x))


def lift(x):
    """Number -> Term, or float inf/nan, or None if not a number."""
    if type(x) is Term:
        return x
    if isinstance(x, (bool, _np.bool_)):
        return const(int(x))
    if isinstance(x, (int, _np.integer)):
        return const(Fr(int(x)))
    if isinstance(x, Fr):
        return const(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if isinf(x) or isnan(x):
            return x
        if _EX[0] is not None and _EX[0].eps0 and abs(x) <= _EX[0].eps0:
            return const(0)
        return const(idealise(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


_ONE = ()


def const(c):
    c = Fr(c)
    return Term({_ONE: c}) if c else Term({})


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
    return tuple(sorted(d.items()))


def mono_pow(m, e):
    if e == 0:
        return ()
    return tuple((a, _ni(x * e)) for a, x in m)


def _ni(x):
    if isinstance(x, Fr) and x.denominator == 1:
        return int(x)
    return x


def mono_pos(m):
    for a, e in m:
        if e % 2 == 0:
            # even power: nonzero only if the atom is nonzero; treat as pos only if pos
            if not atom_is_pos(a) and not (e < 0):
                return False
        elif not atom_is_pos(a):
            return False
    return True


def mono_nonneg(m):
    for a, e in m:
        if isinstance(e, int) and e % 2 == 0:
            continue
        if not atom_is_nonneg(a):
            return False
    return True


class Term:
    # nn: provenance sign (0 unknown, 1 non-negative, 2 positive)
    __slots__ = ("d", "_h", "nn")
    dtype = _np.dtype(object)
    shape = ()
    ndim = 0
    size = 1
    itemsize = 8

    def __init__(self, d, nn=0):
        self.d = d
        self._h = None
        self.nn = nn

    # -- structure
    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def is_const(self):
        return not self.d or (len(self.d) == 1 and _ONE in self.d)

    def cval(self):
        return self.d.get(_ONE, Fr(0))

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in itertools.islice(self.d.items(), 12):
            s = "*".join(repr(ATOMS[a]) + ("" if e == 1 else "^%s" % e) for a, e in m)
            out.append(str(c) + ("*" + s if s else ""))
        if len(self.d) > 12:
            out.append("...(%d)" % len(self.d))
        return " + ".join(out)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return hash(self.key())

    # -- ndarray look-alikes
    T = property(lambda s: s)
    real = property(lambda s: s)

    @property
    def imag(self):
        return const(0)

    def item(self, *a):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def reshape(self, *s):
        return _obj(self).reshape(*s)

    def __len__(self):
        raise TypeError("len() of unsized object")

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        return _obj(self)[k]

    def detach(self):
        return self

    # -- arithmetic
    def __neg__(self):
        return Term({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        d = dict(a)
        for m, c in b.items():
            n = d.get(m)
            if n is None:
                d[m] = c
            else:
                n = n + c
                if n:
                    d[m] = n
                else:
                    del d[m]
        if self.nn:
            k = nnlevel(o)
            if k:
                return Term(d, max(k, self.nn))
        elif o.nn:
            k = nnlevel(self)
            if k:
                return Term(d, max(k, o.nn))
        return Term(d)

    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return _mulinf(self, o)
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o if isnan(o) else const(0)
        return _div(self, o)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return _mulinf(self, o) if not self.is_const() or self.d else o
        return _div(o, self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if self.is_const() and type(o) is Term and o.is_const():
            return const(self.cval() // o.cval())
        raise SymError("symbolic floor division")

    def __rfloordiv__(self, o):
        return lift(o) // self

    def floor(self):
        if self.is_const():
            return const(self.cval() // 1)
        ex = _EX[0]
        if ex is None:
            raise SymError("floor outside explorer")
        return ex.floor(self)

    def ceil(self):
        return -((-self).floor())

    def __mod__(self, o):
        o = _coerce(o)
        if type(o) is Term and o.is_const() and o.d:
            q = (self / o).floor()
            return self - q * o
        raise SymError("symbolic modulo")

    def __rmod__(self, o):
        return lift(o) % self

    def __abs__(self):
        if self.is_const():
            return const(abs(self.cval()))
        if lazymax() and not sign_syntactic(self):
            if nonneg_syntactic(self):
                return self
            if nonneg_syntactic(-self):
                return -self
            return extremum("max", [self, -self])
        return self if self >= 0 else -self

    fabs = __abs__

    def __pow__(self, e, mod=None):
        return power(self, e)

    def __rpow__(self, b):
        return power(lift(b), self)

    def sqrt(self):
        return power(self, Fr(1, 2))

    def square(self):
        return _mul(self, self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def log2(self):
        return log(self) / log(const(2))

    def log10(self):
        return log(self) / log(const(10))

    def log1p(self):
        return log(self + 1)

    def expm1(self):
        return exp(self) - 1

    def sign(self):
        if self > 0:
            return 1
        return -1 if self < 0 else 0

    def arccos(self):
        return uf("arccos", self)

    def arctan2(self, o):
        return uf2("arctan2", self, lift(o))

    def cos(self):
        if self.is_const() and not self.d:
            return const(1)
        return uf("cos", self)

    def sin(self):
        if self.is_const() and not self.d:
            return const(0)
        return uf("sin", self)

    def isfinite(self):
        return True

    # -- comparisons (branch)
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            if isnan(o):
                return op == "!="
            if op in ("<", "<="):
                return o > 0
            if op in (">", ">="):
                return o < 0
            return op == "!="
        return decide(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, "!=")

    def __bool__(self):
        return decide(self, "!=")

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise SymError("concretisation: float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise SymError("concretisation: int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise TypeError("symbolic index")

    def __round__(self, n=None):
        if self.is_const():
            return lift(round(float(self.cval()), n or 0))
        raise SymError("round")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _obj(x):
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def _coerce(o):
    if type(o) is Term:
        return o
    if isinstance(o, _np.ndarray) and o.ndim:
        return NotImplemented
    r = lift(o)
    return NotImplemented if r is None else r


def _mulinf(t, o):
    if isnan(o):
        return o
    if not t.d:
        return nan
    if t > 0:
        return o
    if t < 0:
        return -o
    return nan


_PRIMES = set()


def _needs_expand(m):
    # factored monomials stay factored (see clear_denominators), numbers do not
    if _PRIMES:
        for a, e in m:
            if a in _PRIMES and e >= 1:
                return True
    return False


def _normal(d):
    """Multiply out poly atoms with exponent >= 1."""
    todo = [(m, c) for m, c in d.items() if _needs_expand(m)]
    if not todo:
        return Term(d)
    d = dict(d)
    res = None
    for m, c in todo:
        del d[m]
        base, fac = [], []
        for a, e in m:
            if a in _PRIMES and e >= 1:
                k = int(e // 1)
                r = e - k
                if r:
                    base.append((a, _ni(r)))
                fac += [ATOMS[a].arg] * k
            else:
                base.append((a, e))
        t = Term({tuple(base): c})
        for f in fac:
            t = _mul(t, f)
        res = t if res is None else res + t
    return Term(d) + res


def nnlevel(t):
    if t.nn:
        return t.nn
    # provenance must not depend on the facts of one path
    return 2 if _global_pos(t) else 1 if _global_nonneg(t) else 0


def _mul(x, y):
    r = _mul0(x, y)
    if x is y:
        r.nn = max(r.nn, 2 if x.nn == 2 else 1)
    elif x.nn or y.nn:
        k = min(nnlevel(x), nnlevel(y))
        if k > r.nn:
            r.nn = k
    return r


def _mul0(x, y):
    a, b = x.d, y.d
    if not a or not b:
        return Term({})
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        ((m1, c1),) = a.items()
        if not m1:
            if c1 == 1:
                return Term(b)
            return Term({m: c * c1 for m, c in b.items()})
    elif len(a) * len(b) > EXPAND_CAP:
        ex = _EX[0]
        if ex is None or not ex.expanding:
            return _mul(_atomise(x), _atomise(y))
    d = {}
    exp_needed = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            if not exp_needed and _needs_expand(m):
                exp_needed = True
            n = d.get(m)
            n = c1 * c2 if n is None else n + c1 * c2
            if n:
                d[m] = n
            else:
                del d[m]
    return _normal(d) if exp_needed else Term(d)


def _big(t):
    """opaque product atom for oversized polynomials ('big': never auto-expanded)"""
    p = mk_atom("big", t.key(), arg=t, pos=False)
    return p


def _atomise(t):
    if len(t.d) <= 1:
        return t
    a = _big(t)
    if not a.pos and _global_pos(t):
        a.pos = a.nonneg = True
    return Term({((a.id, 1),): Fr(1)})


def content(t):
    """t = c * mono * prim, prim with leading coefficient 1."""
    ms = sorted(t.d)
    lead = t.d[ms[0]]
    common = None
    for m in ms:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            for a in list(common):
                e = dm.get(a, 0)
                common[a] = min(common[a], e)
                # exponents missing elsewhere count as 0
            for a, e in dm.items():
                if a not in common and e < 0:
                    common[a] = e
    # atoms absent from some monomial: min with 0
    if common:
        for m in ms:
            dm = dict(m)
            for a in common:
                if a not in dm:
                    common[a] = min(common[a], 0)
    cm = tuple(sorted((a, e) for a, e in (common or {}).items() if e != 0))
    inv = tuple((a, -e) for a, e in cm)
    prim = {}
    for m, c in t.d.items():
        prim[mono_mul(m, inv)] = c / lead
    return lead, cm, _normal(prim)


def sign_syntactic(t):
    """1 if provably > 0, -1 if < 0, 0 otherwise (syntactic)."""
    if not t.d:
        return 0
    if t.nn == 2:
        return 1
    s = None
    for m, c in t.d.items():
        if not mono_pos(m):
            # allow nonneg terms if at least one strictly positive of same sign
            return _sign_mixed(t)
        g = 1 if c > 0 else -1
        if s is None:
            s = g
        elif s != g:
            return 0
    return s


def _sign_mixed(t):
    s, strict = None, False
    for m, c in t.d.items():
        if not mono_nonneg(m):
            return 0
        g = 1 if c > 0 else -1
        if s is None:
            s = g
        elif s != g:
            return 0
        if mono_pos(m):
            strict = True
    return s if strict else 0


def nonneg_syntactic(t):
    if t.nn:
        return True
    for m, c in t.d.items():
        if c < 0 or not mono_nonneg(m):
            return False
    return True


def poly_atom(prim):
    a = mk_atom("poly", prim.key(), arg=prim)
    if not a.pos:
        # facts about input variables are global, so is a syntactic sign
        if _global_pos(prim):
            a.pos = a.nonneg = True
    return a


def _global_pos(t):
    strict = False
    for m, c in t.d.items():
        if c < 0:
            return False
        p = True
        for a, e in m:
            at = ATOMS[a]
            if at.pos:
                continue
            if isinstance(e, int) and e % 2 == 0:
                p = False
                continue
            if not at.nonneg:
                return False
            p = False
        strict = strict or p
    return strict


def _div(x, y):
    if not y.d:
        # division by an exact zero
        ex = _EX[0]
        if ex is not None:
            ex.note("division by zero")
        if not x.d:
            return nan
        return inf if x > 0 else -inf
    if y.is_const():
        c = 1 / y.cval()
        return Term({m: v * c for m, v in x.d.items()}, x.nn if c > 0 else 0)
    if sign_syntactic(y) == 0:
        if decide(y, "=="):
            if decide(x, "=="):
                return nan
            return inf if decide(x, ">") else -inf
    if len(y.d) == 1:
        ((m, c),) = y.d.items()
        return _mul(x, Term({tuple((a, -e) for a, e in m): 1 / c}))
    c, cm, prim = content(y)
    if len(prim.d) == 1:
        return _div(x, Term({mono_mul(cm, m): v * c for m, v in prim.d.items()}))
    # exact quotient shortcut
    if len(x.d) == len(y.d):
        q = _const_ratio(x, y)
        if q is not None:
            return q
    a = poly_atom(prim)
    inv = Term({mono_mul(tuple((i, -e) for i, e in cm), ((a.id, -1),)): 1 / c})
    return _mul(x, inv)


def _const_ratio(x, y):
    c1, m1, p1 = content(x)
    c2, m2, p2 = content(y)
    if p1.key() == p2.key():
        return Term({mono_mul(m1, tuple((a, -e) for a, e in m2)): c1 / c2})
    return None


def power(x, e):
    ev = lift(e)
    if type(ev) is float:
        raise SymError("infinite exponent")
    if ev is None:
        return NotImplemented
    if not ev.is_const():
        return exp(_mul(log(x), ev))
    if type(x) is float:
        return x ** float(ev.cval())
    e = ev.cval()
    if e.denominator == 1:
        n = int(e)
        if n == 0:
            return const(1)
        if len(x.d) == 1:
            ((m, c),) = x.d.items()
            if n < 0:
                return _div(const(1), power(x, -n))
            return _normal({mono_pow(m, n): c**n})
        if n < 0:
            return _div(const(1), power(x, -n))
        r, b = None, x
        while n:
            if n & 1:
                r = b if r is None else _mul(r, b)
            n >>= 1
            if n:
                b = _mul(b, b)
        return r
    # fractional exponent
    if not x.d:
        return const(0) if e > 0 else inf
    if x.is_const():
        c = x.cval()
        if c < 0:
            return nan
        r = _exact_root(c, e)
        if r is not None:
            return const(r)
        return _const_pow(c, e)
    if not nonneg_syntactic(x):
        # sqrt of a square and general sign split
        if len(x.d) == 1:
            ((m, c),) = x.d.items()
            if c > 0 and all(isinstance(k, int) and k % 2 == 0 for _, k in m):
                y = const(1)
                for a, k in m:
                    v = abs(Term({((a, 1),): Fr(1)}))
                    y = _mul(y, power(v, Fr(k) * e))
                return _mul(y, power(const(c), e))
        if decide(x, "<"):
            return nan
    if len(x.d) == 1:
        ((m, c),) = x.d.items()
        if all(atom_is_nonneg(a) for a, _ in m):
            r = Term(_normal({mono_pow(m, e): Fr(1)}).d)
            return _mul(r, power(const(c), e)) if c != 1 else r
        y = const(1)
        ok = True
        for a, k in m:
            t = Term({((a, 1),): Fr(1)})
            if isinstance(k, int) and k % 2 == 0:
                y = _mul(y, power(abs(t), Fr(k) * e))
            elif decide(t, ">="):
                ex = _EX[0]
                ex.nonnegfacts.add(a)
                y = _mul(y, Term(_normal({((a, _ni(Fr(k) * e)),): Fr(1)}).d))
            else:
                ok = False
                break
        if ok:
            return _mul(y, power(const(c), e))
    # multi-term radicand: factor out the even content
    c, cm, prim = content(x)
    if c < 0:
        c, prim = -c, -prim
    if cm and all(atom_is_nonneg(a) for a, _ in cm):
        pre = _mul(power(const(c), e), Term(_normal({mono_pow(cm, e): Fr(1)}).d))
    else:
        prim = Term({mono_mul(m, cm): v for m, v in prim.d.items()})
        pre = power(const(c), e)
    a = poly_atom(prim)
    a_nonneg(a)
    if x.nn == 2 and not a.pos and _EX[0] is not None:
        _EX[0].posfacts.add(a.id)
    return _mul(pre, Term(_normal({((a.id, _ni(e)),): Fr(1)}).d))


def a_nonneg(a):
    ex = _EX[0]
    if not a.nonneg and ex is not None:
        ex.nonnegfacts.add(a.id)


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 1 << 52 else int(round(n ** (1.0 / k)))
    for t in (r - 1, r, r + 1):
        if t >= 0 and t**k == n:
            return t
    return None


def _exact_root(c, e):
    k = e.denominator
    a, b = _iroot(c.numerator, k), _iroot(c.denominator, k)
    if a is None or b is None:
        return None
    return Fr(a, b) ** e.numerator


def _factor(n):
    f, p = {}, 2
    while p * p <= n and p < 10000:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def prime_atom(p):
    # rational primes only ever appear under fractional exponents
    t = const(p)
    a = mk_atom("poly", t.key(), arg=t, pos=True)
    _PRIMES.add(a.id)
    return a


def _const_pow(c, e):
    d = {}
    for p, k in _factor(c.numerator).items():
        d[p] = d.get(p, 0) + k
    for p, k in _factor(c.denominator).items():
        d[p] = d.get(p, 0) - k
    coef = Fr(1)
    m = []
    for p, k in d.items():
        x = Fr(k) * e
        q = x.numerator // x.denominator
        coef *= Fr(p) ** q
        r = x - q
        if r:
            m.append((prime_atom(p).id, r))
    return Term({tuple(sorted(m)): coef})


def _fix_primes(t):
    return t


def exp(x):
    x = lift(x)
    if type(x) is float:
        return x if isnan(x) else (inf if x > 0 else const(0))
    res = const(1)
    for m, c in x.d.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "log":
            a = ATOMS[m[0][0]].arg
            if isinstance(a, Term):
                if len(a.d) > 1:
                    res = _mul(res, Term({((poly_atom(a).id, _ni(c)),): Fr(1)}))
                else:
                    res = _mul(res, power(a, c))
                continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ("max", "min"):
            # exp is increasing
            at = ATOMS[m[0][0]]
            es = [exp(y) for y in at.arg]
            if not any(ATOMS[i].kind == "exp" for e in es for mm in e.d for i, _ in mm):
                r = extremum(at.kind, es)
                if len(r.d) == 1 and all(atom_is_pos(i) for i, _ in next(iter(r.d))):
                    res = _mul(res, power(r, c))
                    continue
        at = mk_atom("exp", m, arg=Term({m: Fr(1)}), pos=True)
        res = _mul(res, Term({((at.id, _ni(c)),): Fr(1)}))
    return res


def log(x):
    x = lift(x)
    if type(x) is float:
        return x if isnan(x) else (inf if x > 0 else nan)
    if not x.d:
        return -inf
    if x.is_const():
        return _log_const(x.cval())
    if sign_syntactic(x) != 1:
        if not decide(x, ">"):
            return -inf if decide(x, "==") else nan
    if len(x.d) == 1:
        ((m, c),) = x.d.items()
        if all(atom_is_pos(a) for a, _ in m):
            r = _log_const(c)
            for a, e in m:
                r = r + _mul(const(Fr(e)), _log_atom(a))
            return r
        if all(isinstance(e, int) for _, e in m):
            r = _log_const(abs(c))
            for a, e in m:
                t = abs(Term({((a, 1),): Fr(1)}))
                if t.d == {((a, 1),): Fr(1)}:
                    _EX[0].posfacts.add(a)
                    r = r + _mul(const(e), _log_atom(a))
                else:
                    l = mk_atom("log", t.key(), arg=t)
                    r = r + Term({((l.id, 1),): Fr(e)})
            return r
    c, cm, prim = content(x)
    if c > 0 and all(atom_is_pos(a) for a, _ in cm):
        if len(prim.d) == 1:
            return _log_const(c) + log(Term({mono_mul(cm, m): v for m, v in prim.d.items()}))
        a = poly_atom(prim)
        if not a.pos:
            _EX[0].posfacts.add(a.id)
        l = mk_atom("log", prim.key(), arg=prim)
        r = Term({((l.id, 1),): Fr(1)}) + _log_const(c)
        for i, e in cm:
            r = r + _mul(const(Fr(e)), _log_atom(i))
        return r
    l = mk_atom("log", x.key(), arg=x)
    return Term({((l.id, 1),): Fr(1)})


def _log_atom(i):
    a = ATOMS[i]
    if a.kind == "exp":
        return a.arg
    t = a.arg if a.kind == "poly" else Term({((i, 1),): Fr(1)})
    l = mk_atom("log", t.key(), arg=t)
    return Term({((l.id, 1),): Fr(1)})


def _log_const(c):
    if c == 1:
        return Term({})
    if c <= 0:
        return nan if c < 0 else -inf
    r = Term({})
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _factor(n).items():
            t = const(p)
            l = mk_atom("log", t.key(), arg=t, pos=True)
            r = r + Term({((l.id, 1),): Fr(s * k)})
    return r


def lazymax():
    ex = _EX[0]
    return ex is not None and ex.lazymax


def extremum(kind, ts):
    """max / min of terms as an atom (no path fork); kind in 'max', 'min'"""
    sg = 1 if kind == "max" else -1
    out = []
    todo = [lift(t) for t in ts]
    nn = False
    while todo:
        t = todo.pop(0)
        if kind == "max" and not nn and type(t) is Term and _global_nonneg(t):
            nn = True
        if type(t) is float:
            if isnan(t):
                return nan
            if (t > 0) == (sg > 0):
                return t
            continue
        if len(t.d) == 1:
            ((m, c),) = t.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == kind:
                todo = list(ATOMS[m[0][0]].arg) + todo
                continue
        skip = False
        for i, u in enumerate(out):
            d = (t - u) if sg > 0 else (u - t)
            if not d.d or nonneg_syntactic(-d) or _known(d, "<="):
                skip = True
                break
            if nonneg_syntactic(d) or _known(d, ">="):
                out[i] = None
        if not skip:
            out = [u for u in out if u is not None] + [t]
        else:
            out = [u for u in out if u is not None]
    if not out:
        return -inf * sg
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: repr(t.key()))
    a = mk_atom(kind, tuple(t.key() for t in out), arg=tuple(out))
    if not a.pos:
        f = any if kind == "max" else all
        if f(_global_pos(t) for t in out):
            a.pos = a.nonneg = True
        elif nn or f(_global_nonneg(t) for t in out):
            a.nonneg = True
        elif kind == "max" and len(out) == 2 and out[0].d == (-out[1]).d:
            a.nonneg = True
    return Term({((a.id, 1),): Fr(1)})


def _global_nonneg(t):
    if t.nn:
        return True
    for m, c in t.d.items():
        if c < 0:
            return False
        for a, e in m:
            if not ATOMS[a].nonneg and not (isinstance(e, int) and e % 2 == 0):
                return False
    return True


def _known(d, op):
    return _EX[0].known.get((d.key(), op)) is True


def uf(name, t):
    if t.is_const() and name == "arccos" and t.cval() == 1:
        return const(0)
    a = mk_atom("uf:" + name, t.key(), arg=t)
    return Term({((a.id, 1),): Fr(1)})


def uf2(name, t, u):
    a = mk_atom("uf:" + name, (t.key(), u.key()), arg=(t, u))
    return Term({((a.id, 1),): Fr(1)})


def var(name, pos=False, nonneg=False):
    a = mk_atom("var", name, name=name, pos=pos, nonneg=nonneg)
    return Term({((a.id, 1),): Fr(1)})


# ---------------------------------------------------------------- comparisons
_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def cmp_const(c, op):
    return {
        "<": c < 0,
        "<=": c <= 0,
        ">": c > 0,
        ">=": c >= 0,
        "==": c == 0,
        "!=": c != 0,
    }[op]


def decide(t, op):
    if t.is_const():
        return cmp_const(t.cval(), op)
    s = sign_syntactic(t)
    if s:
        return cmp_const(s, op)
    if op in (">=", "<") and nonneg_syntactic(t):
        return op == ">="
    if op in ("<=", ">") and nonneg_syntactic(-t):
        return op == "<="
    ex = _EX[0]
    if ex is None:
        raise SymError("symbolic branch outside an explorer")
    return ex.branch(t, op)


_LOWER = {}


def clear_denominators(t, cap=20000, softcap=4000):
    """Polynomial with the sign of t (zero iff t is zero): no negative exponents;
    derived atoms ('poly', 'big') multiplied out, newest first."""
    ex = _EX[0]
    old = ex.expanding if ex is not None else False
    if ex is not None:
        ex.expanding = True
    try:
        for _ in range(400):
            neg = {}
            pos = -1
            for m in t.d:
                for a, e in m:
                    if e < 0:
                        k = -(e // 1) if not isinstance(e, int) else -e
                        if k > neg.get(a, 0):
                            neg[a] = k
                    elif e >= 1 and a > pos and ATOMS[a].kind in ("poly", "big"):
                        pos = a
            if not neg and pos < 0:
                return t
            a = max(neg) if neg else -1
            if pos >= a:
                if not neg and len(t.d) > softcap:
                    if not any(ATOMS[x].kind == "big" for m in t.d for x, e in m):
                        return t  # the solver multiplies out the rest
                if pos not in neg:
                    t = _expand_atom(t, pos)
                    if len(t.d) > cap:
                        raise SymError("polynomial too large")
                    continue
                a = pos
            k = int(neg[a])
            if not atom_is_pos(a) and k % 2:
                k += 1
            t = _mul(t, Term({((a, k),): Fr(1)}))
            if len(t.d) > cap:
                raise SymError("polynomial too large")
        raise SymError("denominator clearing did not finish")
    finally:
        if ex is not None:
            ex.expanding = old


def _expand_atom(t, a):
    """substitute the definition for the integer part of the powers of atom a"""
    acc = {}
    groups = {}
    for m, c in t.d.items():
        e = 0
        for x, y in m:
            if x == a:
                e = y
        if e >= 1:
            k = int(e // 1)
            r = e - k
            base = tuple((x, (y if x != a else _ni(r))) for x, y in m if x != a or r)
            groups.setdefault(k, {})[base] = c
        else:
            acc[m] = c
    res = Term(acc)
    pw, cur = None, 0
    for k in sorted(groups):
        while cur < k:
            pw = ATOMS[a].arg if pw is None else _mul(pw, ATOMS[a].arg)
            cur += 1
        res = res + _mul(Term(groups[k]), pw)
    return res


def numeval(t, vals, cache):
    """float value of t for input values {name: float}"""
    import math

    r = 0.0
    for m, c in t.d.items():
        p = float(c)
        for a, e in m:
            v = cache.get(a)
            if v is None:
                at = ATOMS[a]
                if at.kind == "var":
                    v = vals[at.name]
                elif at.kind in ("poly", "big"):
                    v = numeval(at.arg, vals, cache)
                elif at.kind == "exp":
                    v = math.exp(numeval(at.arg, vals, cache))
                elif at.kind in ("max", "min"):
                    v = (max if at.kind == "max" else min)(numeval(x, vals, cache) for x in at.arg)
                elif at.kind == "log":
                    v = math.log(numeval(at.arg, vals, cache))
                elif at.kind == "prime":
                    v = float(at.arg if at.arg is not None else at.name)
                else:
                    raise SymError("no numeric value for " + at.kind)
                cache[a] = v
            if v < 0 and e != int(e):
                raise ValueError("root of a negative number")
            p *= v ** (e if isinstance(e, int) else float(e))
        r += p
    return r


def diff(t, name):
    """partial derivative with respect to the input `name`"""
    memo = {}

    def da(a):
        if a in memo:
            return memo[a]
        at = ATOMS[a]
        k = at.kind
        if k == "var":
            r = const(1 if at.name == name else 0)
        elif k in ("poly", "big"):
            r = dt(at.arg)
        elif k == "exp":
            g = dt(at.arg)
            r = Term({((a, 1),): Fr(1)}) * g if g.d else g
        elif k == "log":
            g = dt(at.arg)
            r = g / at.arg if g.d else g
        elif k == "prime":
            r = const(0)
        elif k in ("max", "min"):
            gs = [dt(x) for x in at.arg]
            if all(not g.d for g in gs):
                r = const(0)
            else:
                best = 0
                for i in range(1, len(at.arg)):
                    d = at.arg[i] - at.arg[best]
                    if d > 0 if k == "max" else d < 0:
                        best = i
                r = gs[best]
        else:
            raise SymError("no derivative for " + k)
        memo[a] = r
        return r

    def dt(u):
        r = const(0)
        for m, c in u.d.items():
            for i, (a, e) in enumerate(m):
                g = da(a)
                if g.d:
                    rest = m[:i] + (((a, _ni(e - 1)),) if e != 1 else ()) + m[i + 1:]
                    r = r + Term({rest: c * Fr(e)}) * g
        return r

    return dt(lift(t))
