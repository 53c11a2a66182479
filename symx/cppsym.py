"""Runs the repository's C++ transport solver on symbolic reals.

EMD_wrapper.cpp and its headers are compiled with `double` replaced by SymD
(see cpp/symd.h); every arithmetic operation or comparison on a symbolic value
calls back into the explorer."""

import ctypes as C
import hashlib
import os
import re
import subprocess

import numpy as np

from . import terms as T
from .terms import SymError, Term, const, lift

HERE = os.path.dirname(os.path.abspath(__file__))
OP_T = C.CFUNCTYPE(C.c_int64, C.c_int, C.c_double, C.c_int64, C.c_double, C.c_int64, C.POINTER(C.c_double))
CMP_T = C.CFUNCTYPE(C.c_int, C.c_int, C.c_double, C.c_int64, C.c_double, C.c_int64)


def build(repo, out):
    """compile the solver with symbolic doubles into directory `out`"""
    src = os.path.join(out, "src")
    os.makedirs(src, exist_ok=True)
    lp = os.path.join(repo, "ot", "lp")
    for f in sorted(os.listdir(lp)):
        if f.endswith((".h", ".hpp", ".cpp")) and f != "emd_wrap.cpp":
            s = open(os.path.join(lp, f)).read()
            if "omp" in f:
                s = omp_serialise(s)
            open(os.path.join(src, f), "w").write(s)
    entry = os.path.join(src, "_entry.cpp")
    open(entry, "w").write(open(os.path.join(HERE, "cpp", "entry.cpp.in")).read())
    so = os.path.join(out, "symemd.so")
    r = subprocess.run(
        ["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w", "-I", os.path.join(HERE, "cpp"), "-I", src, entry, "-o", so],
        capture_output=True, text=True,
    )
    if r.returncode:
        raise SymError("C++ encoding failed to build:\n" + r.stderr[:2000])
    return so


def omp_serialise(s):
    """the OpenMP static schedule, run serially: iteration j belongs to thread
    (j / chunk) mod N.  The threads write disjoint slots, so order is immaterial."""
    lines = s.split("\n")
    out = []
    pend = False
    for ln in lines:
        out.append(ln)
        if re.match(r"\s*#pragma omp for schedule\(static, bs\)", ln):
            pend = True
        elif pend and ln.strip():
            if re.match(r"\s*for \(j = 0;.*\{\s*$", ln):
                out.append("t = (int)((j / bs) % N);")
            pend = False
    return "\n".join(out)


class Lib:
    def __init__(self, so):
        self.lib = C.CDLL(so)
        self.tab = [None]
        self.exc = None
        self._op = OP_T(self._do_op)
        self._cmp = CMP_T(self._do_cmp)
        self.lib.symd_set(self._op, self._cmp)
        self.calls = {}

    # values
    def val(self, v, h):
        return self.tab[h] if h else lift(v)

    def put(self, r, outv):
        if type(r) is Term:
            self.tab.append(r)
            return len(self.tab) - 1
        outv[0] = float(r)
        return 0

    def _do_op(self, code, av, ah, bv, bh, outv):
        try:
            a = self.val(av, ah)
            if code == 20:
                outv[0] = float(a)
                return 0
            if code >= 10 and code not in (12,):
                if code == 10:
                    r = abs(a)
                elif code == 11:
                    r = a.sqrt() if type(a) is Term else float(a) ** 0.5
                elif code == 13:
                    r = a.ceil()
                elif code == 14:
                    r = a.floor()
                elif code == 15:
                    r = T.exp(a)
                elif code == 16:
                    r = T.log(a)
            else:
                b = self.val(bv, bh)
                if code == 0:
                    r = a + b
                elif code == 1:
                    r = a - b
                elif code == 2:
                    r = a * b
                elif code == 3:
                    r = a / b
                elif code == 12:
                    r = T.power(a, b)
            return self.put(r, outv)
        except BaseException as e:
            self.exc = e
            return -1

    def _do_cmp(self, code, av, ah, bv, bh):
        try:
            a, b = self.val(av, ah), self.val(bv, bh)
            r = (
                a < b if code == 0 else a <= b if code == 1 else a > b if code == 2
                else a >= b if code == 3 else a == b if code == 4 else a != b
            )
            return 1 if r else 0
        except BaseException as e:
            self.exc = e
            return -1

    # calls
    def call(self, name, *args):
        """args: ints, Ptr objects (arrays), None"""
        self.tab = [None]
        self.exc = None
        self.calls[name] = self.calls.get(name, 0) + 1
        cargs, back = [], []
        for a in args:
            if a is None:
                cargs.append(C.c_void_p(0))
            elif isinstance(a, Ptr):
                buf = self.marshal(a)
                back.append((a, buf))
                cargs.append(C.c_void_p(buf.ctypes.data))
            else:
                cargs.append(C.c_uint64(int(a)) if int(a) > 2**31 - 1 else C.c_int64(int(a)))
        f = getattr(self.lib, "s_" + name)
        f.restype = C.c_int
        rc = f(*cargs)
        if rc == -999:
            e, self.exc = self.exc, None
            raise e if e is not None else SymError("C++ abort")
        for a, buf in back:
            self.unmarshal(a, buf)
        return rc

    DT = np.dtype([("v", "f8"), ("h", "i8")])

    def marshal(self, p):
        a = p.arr
        b = np.asarray(a.view(np.ndarray) if isinstance(a, np.ndarray) else a)
        if b.dtype.kind in "iu":
            return np.ascontiguousarray(b.reshape(-1).astype(np.uint64))
        flat = b.reshape(-1)
        buf = np.zeros(max(len(flat), 1), dtype=self.DT)
        for i, x in enumerate(flat):
            x = lift(x)
            if type(x) is Term:
                self.tab.append(x)
                buf[i] = (0.0, len(self.tab) - 1)
            else:
                buf[i] = (x, 0)
        p.orig = buf.copy()
        return buf

    def unmarshal(self, p, buf):
        b = p.arr
        raw = b.view(np.ndarray) if isinstance(b, np.ndarray) else b
        flat = raw.reshape(-1)
        if raw.size and not np.shares_memory(flat, raw):
            raise SymError("non contiguous pointer argument")
        if flat.dtype.kind in "iu":
            flat[...] = buf[: len(flat)]
            return
        for i in range(len(flat)):
            if buf[i] != p.orig[i]:
                v, h = buf[i]
                flat[i] = self.tab[h] if h else lift(float(v))


class Ptr:
    def __init__(self, arr):
        self.arr = arr


class Box(np.ndarray):
    pass


def box(v, kind=None):
    """storage of a C scalar whose address is taken"""
    if isinstance(v, (int, np.integer)) and kind != "double":
        a = np.zeros(1, dtype=np.uint64)
        a[0] = v
        return a
    a = np.empty(1, dtype=object)
    a[0] = lift(v)
    return a
