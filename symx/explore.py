"""Path explorer: re-executes a harness once per feasible path of the real code,
asks z3 for branch feasibility, and discharges the property's assertions."""

import os
import random
import sys
import time
import traceback
from fractions import Fraction as Fr

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3

from . import terms as T
from .terms import ATOMS, SymError, Term, clear_denominators, const, lift

CHECK_TOL = Fr(1, 10**6)


_RAW = {}
_FORM = {}
_RVS = {}


def _rv(c):
    v = _RVS.get(c)
    if v is None:
        v = _RVS[c] = z3.RealVal(str(c))
    return v


def _znot(f):
    return z3.Not(f)


class PathAbort(BaseException):
    """Path ended early (infeasible assumption)."""


class Budget(BaseException):
    pass


class Unknown(SymError):
    pass


# ------------------------------------------------------------------ conditions
class Cond:
    """diff OP 0 with OP in {'==','<=','!=' ,'<'}, or a boolean combination."""

    def __init__(self, op, a=None, b=None, note=None):
        self.op, self.a, self.b, self.note = op, a, b, note


def _num(x):
    r = lift(x)
    if r is None:
        raise SymError("not a number: %r" % (x,))
    return r


class Explorer:
    def __init__(self, opts):
        self.eps0 = opts.get("eps0", 0)
        self.known_labels, self.known_cex = tuple(opts.get("known_labels", ())), {}
        self.max_paths = opts.get("max_paths", 20000)
        self.deadline = opts.get("deadline", None)
        self.qtimeout = int(opts.get("qtimeout", 10000))
        self.btimeout = int(opts.get("btimeout", 1500))
        self.lazymax = bool(opts.get("lazymax"))
        self.max_depth = opts.get("max_depth", 4000)
        self.stats = dict(
            paths=0, aborted=0, branches=0, forks=0, queries=0, solver_s=0.0, unsat=0,
            sat=0, unknown=0, checks=0, trivial=0, obligations=0, discharged=0,
        )
        self.expanding = False
        self.cex = []
        self.inconclusive = []
        self.errors = []
        self.complete = False
        self.notes = set()

    # -- lowering to z3
    def atom_z3(self, i):
        a = ATOMS[i]
        if a.z3 is None:
            a.z3 = z3.Real("a%d" % i)
        return a.z3

    def lower(self, t):
        """cleared Term -> (z3 expr, degree); registers side constraints."""
        k = t.key()
        hit = _RAW.get(k)
        if hit is None:
            needs = []
            z, d = self._lower_raw(t, needs)
            hit = _RAW[k] = (z, d, tuple(dict.fromkeys(needs)))
        for n in hit[2]:
            if n[0] == "a":
                if n[1] not in self.declared:
                    self.need_atom(n[1])
            else:
                if (n[1], n[2]) not in self.roots:
                    self.root(n[1], n[2])
        return hit[0], hit[1]

    def _lower_raw(self, t, needs):
        parts = []
        deg = 0
        for m, c in t.d.items():
            fs = []
            md = 0
            for a, e in m:
                at = ATOMS[a]
                if isinstance(e, int):
                    if at.kind == "poly":
                        base, d = self._lower_raw(clear_checked(at.arg), needs)
                        md += d * e
                    else:
                        base = self.atom_z3(a)
                        md += e
                        needs.append(("a", a))
                    fs += [base] * e if e <= 3 else [base**e]
                else:
                    r = z3.Real("r%d_%d" % (a, e.denominator))
                    needs.append(("r", a, e.denominator))
                    n = e.numerator
                    md += n
                    fs += [r] * n if n <= 3 else [r**n]
            if not fs:
                parts.append(_rv(c))
            else:
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                parts.append(p if c == 1 else _rv(c) * p)
            deg = max(deg, md)
        if not parts:
            return _rv(0), 0
        return (z3.Sum(parts) if len(parts) > 1 else parts[0]), deg

    def need_atom(self, i):
        if i in self.declared:
            return
        self.declared.add(i)
        a = ATOMS[i]
        if a.pos:
            self.side(self.atom_z3(i) > 0)
        elif a.nonneg:
            self.side(self.atom_z3(i) >= 0)
        if a.kind == "exp":
            if not a.arg.d or list(a.arg.d) == [()]:
                self.side(self.atom_z3(i) > z3.Q(2718281828, 10**9))
                self.side(self.atom_z3(i) < z3.Q(2718281829, 10**9))
            else:
                # convexity bound e^x >= 1 + x, sign agreement
                x, d = self.lower(clear_checked(a.arg))
                if d <= 1:
                    e = self.atom_z3(i)
                    self.side(e >= 1 + x)
                    self.side((x > 0) == (e > 1))
                    self.side((x == 0) == (e == 1))
        elif a.kind in ("max", "min"):
            me = Term({((i, 1),): Fr(1)})
            eqs, fd = [], self.fdeg
            for t in a.arg:
                self.fdeg = 0
                f = self.formula(me - t, ">=" if a.kind == "max" else "<=")
                eqs.append(self.formula(me - t, "=="))
                self.side(f, self.fdeg)
            self.side(z3.Or(eqs), self.fdeg)
            self.fdeg = fd
        elif a.kind == "big":
            x, d = self.lower(clear_checked(a.arg))
            self.side(self.atom_z3(i) == x, d)
        elif a.kind == "log":
            t = a.arg
            try:
                x, d = self.lower(clear_checked(t - 1))
            except SymError:
                return
            l = self.atom_z3(i)
            self.side((x > 0) == (l > 0), d)
            self.side((x == 0) == (l == 0), d)
            if d <= 1:
                self.side(l <= x, d)

    def root(self, i, q):
        r = self.roots.get((i, q))
        if r is None:
            r = z3.Real("r%d_%d" % (i, q))
            self.roots[(i, q)] = r
            at = ATOMS[i]
            if at.kind == "poly":
                t = clear_checked2(at.arg)
                if t is None:
                    base, d = self.lower(clear_checked(at.arg))
                    self.side(r >= 0)
                    self.side(z3.Product([r] * q) == base, max(d, q))
                else:
                    # arg = num / den  ->  r^q * den = num
                    num, den = t
                    nz, d1 = self.lower(num)
                    dz, d2 = self.lower(den)
                    self.side(r >= 0)
                    self.side(z3.Product([r] * q) * dz == nz, max(d1, d2 + q))
            else:
                base = self.atom_z3(i)
                self.need_atom(i)
                self.side(r >= 0)
                self.side(z3.Product([r] * q) == base, q)
        return r

    def side(self, f, deg=1):
        self.deg = max(self.deg, deg)
        self.constraints.append(f)
        self.solver.add(f)
        if self.model is not None and not z3.is_true(
            self.model.eval(f, model_completion=True)
        ):
            self.model = None

    def formula(self, t, op):
        k = (t.key(), op)
        hit = _FORM.get(k)
        if hit is not None:
            f, t = hit
            z, d = self.lower(t)
            self.fdeg = max(self.fdeg, d)
            return f
        poly = all(e > 0 for m in t.d for _, e in m) and not any(
            ATOMS[a].kind == "big" for m in t.d for a, _ in m
        )
        t = clear_checked(t)
        z, d = self.lower(t)
        self.fdeg = max(self.fdeg, d)
        zero = _rv(0)
        f = z3.simplify({
            "<": lambda: z < zero,
            "<=": lambda: z <= zero,
            ">": lambda: z > zero,
            ">=": lambda: z >= zero,
            "==": lambda: z == zero,
            "!=": lambda: z != zero,
        }[op]())
        if poly:
            if len(_FORM) > 200000:
                _FORM.clear()
            _FORM[k] = (f, t)
        return f

    # -- solver access
    def _check(self, extra, want_model=False, timeout=None):
        """sat/unsat/unknown for path + extra."""
        self._time()
        st = self.stats
        st["queries"] += 1
        t0 = time.time()
        linear = self.deg <= 1 and self.fdeg <= 1
        to = timeout or self.qtimeout
        res, model = z3.unknown, None
        try:
            if linear:
                self.solver.push()
                try:
                    for f in extra:
                        self.solver.add(f)
                    res = self.solver.check()
                    if res == z3.sat:
                        model = self.solver.model()
                finally:
                    self.solver.pop()
            else:
                for mk, frac in (
                    (lambda: z3.Solver(), 0.1),
                    (lambda: z3.Tactic("qfnra-nlsat").solver(), 0.6),
                    (lambda: z3.SolverFor("QF_NRA"), 0.3),
                ):
                    s = mk()
                    s.set("timeout", max(200, int(to * frac)))
                    s.add(*self.constraints)
                    s.add(*extra)
                    try:
                        res = s.check()
                    except z3.Z3Exception:
                        res = z3.unknown
                    if res != z3.unknown:
                        if res == z3.sat:
                            model = s.model()
                        break
        finally:
            st["solver_s"] += time.time() - t0
        st[str(res)] = st.get(str(res), 0) + 1
        return res, model

    def _time(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")

    # -- path API
    def branch(self, t, op):
        st = self.stats
        # canonical orientation, so that the same question gets the same answer
        key = (t.key(), op)
        if key in self.known:
            return self.known[key]
        self.fdeg = 0
        st["branches"] += 1
        if len(self.trace) >= self.max_depth:
            raise SymError("path too long")
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            if not forced:
                f = self.formula(t, op)
        else:
            f = self.formula(t, op)
            if z3.is_true(f) or z3.is_false(f):
                v, forced = z3.is_true(f), True
            else:
                v, forced = self._decide_new(f, t, op)
        self.trace.append((v, forced))
        if not forced:
            self.pathconds.append((t, op, v))
            self._assume(f if v else _znot(f))
        self.known[key] = v
        if op in ("==", "!="):
            self.known[(t.key(), "!=" if op == "==" else "==")] = not v
        if op in ("<", ">=", ">", "<="):
            neg = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
            self.known[(t.key(), neg)] = not v
            mop = {"<": ">", ">=": "<=", ">": "<", "<=": ">="}
            nk = (-t).key()
            self.known[(nk, mop[op])] = v
            self.known[(nk, mop[neg])] = not v
        # sign facts for single atoms
        if len(t.d) == 1:
            ((m, c),) = t.d.items()
            if len(m) == 1 and m[0][1] == 1 and c > 0:
                a = m[0][0]
                eff = op if v else {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
                if eff == ">":
                    self.posfacts.add(a)
                elif eff == ">=":
                    self.nonnegfacts.add(a)
        return v

    # -- concrete samples of the path (cheap evidence that a direction is feasible)
    def _draw(self, rng, base=None):
        vals = {}
        for n, t in self.inputs.items():
            if t.is_const():
                continue
            lo, hi = self.ranges.get(n, (None, None))
            lo = Fr(0) if lo is None else Fr(lo)
            hi = lo + 1 if hi is None else Fr(hi)
            vals[n] = lo + (hi - lo) * Fr(rng.randint(1, 31), 32)
            if base is not None and n in base and rng.random() < 0.6:
                vals[n] = Fr(base[n])
        for g in self.groups:
            w = [abs(vals[n]) for n in g]
            if sum(w) > 0:
                vals.update({n: x / sum(w) for n, x in zip(g, w)})
        return vals

    def _sample_ok(self, s):
        """does sample s (list: values, floats, cache, n assumptions, n conditions) follow the path?"""
        vals, fv, cache, na, nc = s
        try:
            for c in self.assumed[na:]:
                if self._cond_num(c, fv, cache, 0.0) is not True:
                    return False
            for t, op, v in self.pathconds[nc:]:
                x = T.numeval(t, fv, cache)
                if abs(x) < 1e-9 or T.cmp_const(x, op) != v:
                    return False
        except (KeyError, SymError, OverflowError, ValueError, ZeroDivisionError, TypeError):
            return False
        s[3], s[4] = len(self.assumed), len(self.pathconds)
        return True

    def _samples(self):
        if self.pool is None:
            self.pool = [[v, {n: float(x) for n, x in v.items()}, {}, 0, 0] for v in self.inherited]
            self.pool = [s for s in self.pool if len(s[0]) == sum(not t.is_const() for t in self.inputs.values())]
            self.pool_tries = 0
        self.pool = [s for s in self.pool if self._sample_ok(s)]
        rng = random.Random(len(self.trace) + 7919 * self.pool_tries)
        t0 = time.time()
        while len(self.pool) < 6 and self.pool_tries < 120 and time.time() - t0 < 0.4:
            self.pool_tries += 1
            v = self._draw(rng, self.pool[0][0] if self.pool else None)
            s = [v, {n: float(x) for n, x in v.items()}, {}, 0, 0]
            if self._sample_ok(s):
                self.pool.append(s)
        return self.pool

    def _by_samples(self, t, op):
        yes, no = [], []
        for s in self._samples():
            try:
                x = T.numeval(t, s[1], s[2])
            except (KeyError, SymError, OverflowError, ValueError, ZeroDivisionError, TypeError):
                continue
            if x != x or abs(x) < 1e-9:
                continue
            (yes if T.cmp_const(x, op) else no).append(s[0])
        return yes, no

    def _decide_new(self, f, t, op):
        first = None
        yes = no = ()
        nonlin = self.deg > 1 or self.fdeg > 1
        if nonlin:
            yes, no = self._by_samples(t, op)
            if yes and no:
                first = len(yes) >= len(no)
                self.worklist.append((self.trace + [(not first, False)], None, no if first else yes))
                self.stats["forks"] += 1
                return first, False
            if yes or no:
                first = bool(yes)
                r, m = self._check([_znot(f) if first else f], timeout=self.btimeout)
                if r == z3.unsat:
                    return first, True
                self.worklist.append((self.trace + [(not first, False)], m, ()))
                self.stats["forks"] += 1
                return first, False
        if self.model is None and not self.model_failed:
            r, m = self._check([], timeout=self.qtimeout // 3)
            if r == z3.unsat:
                raise PathAbort()
            self.model = m
            if m is None:
                self.model_failed = True
        if self.model is not None:
            first = z3.is_true(self.model.eval(f, model_completion=True))
        if first is None:
            r, m = self._check([f], timeout=self.btimeout if nonlin else None)
            if r == z3.unsat:
                return False, True
            if r == z3.sat:
                self.model = m
                self.model_failed = False
                first = True
            else:
                r2, m2 = self._check([_znot(f)], timeout=self.btimeout if nonlin else None)
                if r2 == z3.unsat:
                    return True, True
                # unknown: explore both
                self.worklist.append((self.trace + [(False, False)], None, ()))
                self.stats["forks"] += 1
                return True, False
        other = _znot(f) if first else f
        r, m = self._check([other], timeout=self.btimeout if nonlin else None)
        if r == z3.unsat:
            return first, True
        # fork: remember the other side
        self.worklist.append((self.trace + [(not first, False)], m, ()))
        self.stats["forks"] += 1
        return first, False

    def _assume(self, f, forced=False):
        if self.fdeg > self.deg:
            self.deg = self.fdeg
        self.constraints.append(f)
        self.solver.add(f)
        if self.model is not None and not forced:
            if not z3.is_true(self.model.eval(f, model_completion=True)):
                self.model = None
                self.model_failed = False

    def assume(self, conds, check=False):
        self.fdeg = 0
        f = self.cond_z3(conds, 0)
        self.assumed.append(conds)
        if f is True:
            return
        if f is False:
            raise PathAbort()
        self._assume(f)
        if check:
            r, m = self._check([])
            if r == z3.unsat:
                raise PathAbort()
            if m is not None:
                self.model = m

    def floor(self, t):
        k = self.fresh_int()
        kt = T.var(k)
        self.fdeg = 0
        (a,) = [a for (a, e), in kt.d]
        zi = z3.Int("i_" + k)
        self.side(self.atom_z3(a) == z3.ToReal(zi))
        self.fdeg = 0
        self._assume(self.formula(t - kt, ">="))
        self._assume(self.formula(t - kt - 1, "<"))
        return kt

    def fresh_int(self):
        self.nfresh += 1
        return "_floor%d" % self.nfresh

    def note(self, s):
        self.notes.add(s)

    # -- condition lowering. delta: slack by which the *negation* must hold
    def cond_z3(self, c, delta, neg=False):
        if c is True or c is False:
            return (not c) if neg else c
        if isinstance(c, (list, tuple)):
            fs = [self.cond_z3(x, delta, neg) for x in c]
            return _or(fs) if neg else _and(fs)
        if isinstance(c, (bool,)) or type(c).__name__ == "bool_":
            return self.cond_z3(bool(c), delta, neg)
        if c.op == "and":
            return self.cond_z3(c.a, delta, neg)
        if c.op == "or":
            fs = [self.cond_z3(x, delta, neg) for x in c.a]
            return _and(fs) if neg else _or(fs)
        if c.op == "not":
            return self.cond_z3(c.a, delta, not neg)
        a, b = _num(c.a), _num(c.b)
        if type(a) is float or type(b) is float:
            fa = a if type(a) is float else 0.0
            fb = b if type(b) is float else 0.0
            if fa != fa or fb != fb:
                v = False
            else:
                v = {"==": fa == fb, "<=": fa <= fb, "<": fa < fb}[c.op]
            return (not v) if neg else v
        d = a - b
        if c.op == "==" and delta:
            # an identity needs no tolerance
            if not d.d or not clear_checked(d).d:
                return not neg
        if c.op == "==":
            if not neg:
                return self._f(d, "==")
            if delta == 0:
                return self._f(d, "!=")
            return _or([self._f(d - const(delta), ">"), self._f(d + const(delta), "<")])
        if c.op == "<=":
            if not neg:
                return self._f(d, "<=")
            return self._f(d - const(delta), ">")
        if c.op == "<":
            if not neg:
                return self._f(d, "<")
            return self._f(d - const(delta), ">=") if not delta else self._f(d - const(delta), ">")
        raise SymError("cond op " + c.op)

    def _f(self, t, op):
        if t.is_const():
            return T.cmp_const(t.cval(), op)
        s = T.sign_syntactic(t)
        if s:
            return T.cmp_const(s, op)
        f = self.formula(t, op)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return f

    def check(self, label, conds, tol=CHECK_TOL):
        """Assert conds on this path; record a counterexample if refutable."""
        st = self.stats
        st["obligations"] += 1
        self.reached = True
        try:
            self.fdeg = 0
            f = self.cond_z3(conds, tol, neg=True)
            if f is False:
                st["trivial"] += 1
                st["discharged"] += 1
                return
            if f is True:
                r, m = self._check([])
                if r == z3.unsat:
                    raise PathAbort()
            else:
                if self.fdeg > 1 or self.deg > 1:
                    # nonlinear: a quick look for a witness before the long query
                    ms = self._numeric_attempts(conds, tries=6, model=False)
                    if ms:
                        self._cex(label, ms)
                        return
                    r, m = self._check([f], timeout=min(1500, self.qtimeout))
                    if r == z3.unknown:
                        ms = self._numeric_attempts(conds)
                        if ms:
                            self._cex(label, ms)
                            return
                        r, m = self._check([f])
                else:
                    r, m = self._check([f])
        except Unknown:
            raise
        except SymError as e:
            self.inconclusive.append((label, "encoding: %s" % e))
            ms = self._numeric_attempts(conds)
            if ms:
                self._cex(label, ms)
            return
        if r == z3.unsat:
            st["discharged"] += 1
            return
        if r == z3.unknown:
            self.inconclusive.append((label, "solver unknown"))
            # a guided attempt for a witness
            ms = self._numeric_attempts(conds) or self._witness_attempts(conds, tol)
            if ms:
                self._cex(label, ms)
            return
        models = []
        if f is not True:
            for delta in (Fr(1, 2), Fr(1, 10), Fr(1, 100), Fr(1, 10**4)):
                if delta <= tol:
                    continue
                try:
                    self.fdeg = 0
                    g = self.cond_z3(conds, delta, neg=True)
                    if g is False:
                        continue
                    pref = self.prefs()
                    r2, m2 = self._check(([g] if g is not True else []) + pref, timeout=3000)
                    if r2 != z3.sat:
                        r2, m2 = self._check([g] if g is not True else [], timeout=3000)
                    if r2 == z3.sat:
                        models.append(m2)
                        if len(models) >= 2:
                            break
                except SymError:
                    pass
        else:
            r2, m2 = self._check(self.prefs(), timeout=3000)
            if r2 == z3.sat:
                models.append(m2)
        models.append(m)
        self._cex(label, [self.extract(x) for x in models if x is not None])

    def prefs(self):
        """Preferences for well-conditioned witnesses: distinct inputs apart."""
        out = []
        names = list(self.inputs.items())
        for i, (n, t) in enumerate(names[:14]):
            if t.is_const():
                continue
            (a,) = [m[0][0] for m in t.d]
            z = self.atom_z3(a)
            lo = self.ranges.get(n, (None, None))[0]
            if lo is not None and lo >= 0:
                out.append(z > z3.Q(1, 1000))
            else:
                out.append(z3.Or(z > z3.Q(1, 1000), z < -z3.Q(1, 1000)))
        return out

    def _witness_attempts(self, conds, tol):
        """On unknown: pin inputs to concrete rationals one group at a time."""
        import random

        rng = random.Random(len(self.trace))
        self.fdeg = 0
        try:
            f = self.cond_z3(conds, Fr(1, 100), neg=True)
        except SymError:
            return None
        if f is False:
            return None
        base = [f] if f is not True else []
        out = []
        for _ in range(4):
            extra = list(base)
            for n, t in self.inputs.items():
                if t.is_const() or rng.random() < 0.35:
                    continue
                (a,) = [m[0][0] for m in t.d]
                lo, hi = self.ranges.get(n, (None, None))
                lo = 0 if lo is None else lo
                hi = lo + 2 if hi is None else hi
                v = Fr(lo) + (Fr(hi) - Fr(lo)) * Fr(rng.randint(1, 15), 16)
                extra.append(self.atom_z3(a) == z3.Q(v.numerator, v.denominator))
            r, m = self._check(extra, timeout=1500)
            if r == z3.sat:
                out.append(self.extract(m))
                break
        return out

    def _cond_num(self, c, vals, cache, delta):
        """truth value and margin-respecting negation: True / False / None"""
        if c is True or c is False:
            return c
        if isinstance(c, (list, tuple)):
            rs = [self._cond_num(x, vals, cache, delta) for x in c]
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        if type(c).__name__ == "bool_":
            return bool(c)
        if c.op == "and":
            return self._cond_num(c.a, vals, cache, delta)
        if c.op == "or":
            rs = [self._cond_num(x, vals, cache, delta) for x in c.a]
            return True if any(r is True for r in rs) else (None if any(r is None for r in rs) else False)
        if c.op == "not":
            r = self._cond_num(c.a, vals, cache, delta)
            return None if r is None else not r
        a, b = _num(c.a), _num(c.b)
        a = a if type(a) is float else T.numeval(a, vals, cache)
        b = b if type(b) is float else T.numeval(b, vals, cache)
        if a in (float("inf"), -float("inf")) or b in (float("inf"), -float("inf")):
            return {"==": a == b, "<=": a <= b, "<": a < b}[c.op]
        d = a - b
        if c.op == "==":
            return abs(d) <= 1e-7 if abs(d) <= 1e-7 or abs(d) > delta else None
        if c.op in ("<=", "<"):
            if d > delta:
                return False
            return True if d <= 0 else None
        return None

    def _numeric_attempts(self, conds, tries=60, model=True):
        """concrete inputs of this path that refute conds (confirmed by replay)"""
        rng = random.Random(11 + len(self.trace))
        names = [n for n, t in self.inputs.items() if not t.is_const()]
        base = None
        try:
            r, m = self._check([], timeout=700) if model else (None, None)
            if r == z3.sat:
                base = self.extract(m)
        except (SymError, z3.Z3Exception):
            pass
        out = []
        for k in range(tries):
            vals = {}
            for n in names:
                lo, hi = self.ranges.get(n, (None, None))
                lo = Fr(0) if lo is None else Fr(lo)
                hi = lo + 1 if hi is None else Fr(hi)
                vals[n] = lo + (hi - lo) * Fr(rng.randint(1, 31), 32)
                if base is not None and (k == 0 or rng.random() < (0.8 if k % 2 else 0.4)):
                    vals[n] = Fr(base[n])
            for g in self.groups:
                w = [abs(vals[n]) for n in g]
                if sum(w) > 0:
                    vals.update({n: x / sum(w) for n, x in zip(g, w)})
            try:
                fv = {n: float(v) for n, v in vals.items()}
                cache = {}
                if any(self._cond_num(c, fv, cache, 0.0) is not True for c in self.assumed):
                    # repair one equality of the form sum == const
                    continue
                ok = True
                for t, op, v in self.pathconds:
                    x = T.numeval(t, fv, cache)
                    if T.cmp_const(x, op) != v:
                        ok = False
                        break
                if not ok:
                    continue
                if self._cond_num(conds, fv, cache, 1e-4) is False:
                    out.append({n: "%d/%d" % (v.numerator, v.denominator) for n, v in vals.items()})
                    if len(out) >= 2:
                        break
            except (KeyError, SymError, OverflowError, ValueError, ZeroDivisionError, TypeError):
                continue
        return out

    def extract(self, m):
        vals = {}
        for n, t in self.inputs.items():
            if t.is_const():
                vals[n] = str(t.cval())
                continue
            (a,) = [mm[0][0] for mm in t.d]
            v = m.eval(self.atom_z3(a), model_completion=True)
            if z3.is_rational_value(v):
                vals[n] = "%s/%s" % (v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                ap = v.approx(20)
                vals[n] = "%s/%s" % (ap.numerator_as_long(), ap.denominator_as_long())
            else:
                vals[n] = "0"
            # a value for an input the path never constrained must still be in range
        return vals

    def _cex(self, label, vals):
        # a recorded finding leaves room for other violations
        old = self.known_labels and label.startswith(self.known_labels)
        if old:
            self.known_cex[label] = self.known_cex.get(label, 0) + 1
            if self.known_cex[label] > 2:
                return
        self.cex.append(dict(label=label, witnesses=vals, choices=list(self.choices)))
        if len(self.cex) - sum(min(v, 2) for v in self.known_cex.values()) >= 3:
            raise Budget("enough counterexamples")

    def path_model(self):
        """A concrete input for the current path (for witness replays)."""
        self.fdeg = 0
        r, m = self._check(self.prefs(), timeout=1500)
        if r != z3.sat:
            r, m = self._check([], timeout=2000)
        if m is None:
            for s in self._samples():
                return {n: "%d/%d" % (v.numerator, v.denominator) for n, v in s[0].items()}
        return self.extract(m) if m is not None else None

    # -- main loop
    def start_path(self):
        T.set_active(self)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.qtimeout)
        self.constraints = []
        self.pathconds = []
        self.groups = []
        self.assumed = []
        self.declared = set()
        self.roots = {}
        self.deg = 1
        self.fdeg = 0
        self.trace = []
        self.known = {}
        self.posfacts = set()
        self.nonnegfacts = set()
        self.inputs = {}
        self.ranges = {}
        self.choices = []
        self.nfresh = 0
        self.contracts = {}
        self.path_t0 = time.time()
        self.model_failed = False
        self.pool = None
        self.reached = False

    def explore(self, fn, on_path=None):
        """fn() runs the harness once."""
        self.worklist = [([], None, ())]
        self.rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        seen_err = 0
        try:
            while self.worklist:
                self._time()
                if self.stats["paths"] >= self.max_paths:
                    raise Budget("paths")
                k = self.rng.randrange(len(self.worklist))
                self.worklist[k], self.worklist[-1] = self.worklist[-1], self.worklist[k]
                self.prefix, model, self.inherited = self.worklist.pop()
                self.model = None
                self.start_path()
                self.model = model
                self.path_no = self.stats['paths']
                try:
                    fn()
                    self.stats["paths"] += 1
                    if on_path:
                        on_path(self, None)
                except PathAbort:
                    self.stats["aborted"] += 1
                except (Budget, KeyboardInterrupt):
                    raise
                except SymError as e:
                    self.stats["paths"] += 1
                    if len(self.errors) < 5:
                        self.errors.append("SymError: %s\n%s" % (e, _tb()))
                    if on_path:
                        on_path(self, e)
                    seen_err += 1
                    if seen_err > 30:
                        raise Budget("engine errors")
                except Exception as e:
                    # an exception of the code under test: candidate violation
                    self.stats["paths"] += 1
                    tb = _tb()
                    try:
                        r, m = self._check([])
                    except Budget:
                        raise
                    if r == z3.unsat:
                        self.stats["aborted"] += 1
                        continue
                    self.cex.append(
                        dict(
                            label="exception %s: %s" % (type(e).__name__, str(e)[:300]),
                            exc=True,
                            tb=tb,
                            witnesses=[x for x in [self.path_model()] if x],
                            choices=list(self.choices),
                        )
                    )
                    if on_path:
                        on_path(self, e)
                    if len(self.cex) >= 3:
                        raise Budget("enough counterexamples")
            self.complete = True
        except Budget as e:
            self.stop_reason = str(e)
        finally:
            T.set_active(None)
        return self


def _tb():
    return "".join(traceback.format_exc().splitlines(True)[-14:])


def clear_checked(t):
    return clear_denominators(t)


def clear_checked2(t):
    """(num, den) with t = num/den, both polynomial; None if t is polynomial."""
    neg = {}
    for m in t.d:
        for a, e in m:
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if not neg:
        return None
    den = Term({tuple(sorted((a, int(-(-k // 1))) for a, k in neg.items())): Fr(1)})
    num = T._mul(t, den)
    if any(ATOMS[a].kind in ("poly", "big") for a in neg):
        d = const(1)
        for a, k in neg.items():
            b = ATOMS[a].arg if ATOMS[a].kind in ("poly", "big") else Term({((a, 1),): Fr(1)})
            for _ in range(int(-(-k // 1))):
                d = T._mul(d, b)
        den = d
    n2, d2 = clear_checked2(num) or (num, None), clear_checked2(den)
    if isinstance(n2, tuple) and n2[1] is not None:
        num, den = n2[0], T._mul(den, n2[1])
        d2 = clear_checked2(den)
    if d2 is not None:
        num, den = T._mul(num, d2[1]), d2[0]
    return num, den


def _and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True:
            out.append(f)
    if not out:
        return True
    return z3.And(out) if len(out) > 1 else out[0]


def _or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is not False:
            out.append(f)
    if not out:
        return False
    return z3.Or(out) if len(out) > 1 else out[0]
