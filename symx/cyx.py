"""Cython -> Python for the repository's two .pyx files, regenerated on every
run.  Only declarations and pointer syntax are rewritten; every statement that
computes something is kept as it is."""

import re

CTYPE = r"(?:np\.ndarray\s*\[[^\]]*\]|(?:unsigned\s+)?(?:long\s+long|long|int|double|float|char|bint|bool|list|dict|str|tuple|object|Py_ssize_t|u?int(?:8|16|32|64)_t|np\.\w+_t|size_t)\b)\s*\**"


def _join(lines):
    """join physical lines inside brackets, skipping strings roughly"""
    out, depth, cur, instr = [], 0, "", None
    for ln in lines:
        i, txt = 0, ln
        while i < len(txt):
            c = txt[i]
            if instr:
                if txt.startswith(instr, i):
                    i += len(instr)
                    instr = None
                    continue
                if c == "\\":
                    i += 1
            elif c == "#":
                break
            elif txt.startswith('"""', i) or txt.startswith("'''", i):
                instr = txt[i : i + 3]
                i += 3
                continue
            elif c in "\"'":
                instr = c
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            i += 1
        if instr in ('"', "'"):
            instr = None
        cur = ln if not cur else cur + "\n" + ln
        if depth <= 0 and instr is None and not ln.rstrip().endswith("\\"):
            out.append(cur)
            cur, depth = "", 0
    if cur:
        out.append(cur)
    return out


def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        if c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def translate(src, enums=None):
    enums = enums or {}
    stmts = _join(src.split("\n"))
    out = []
    skip_indent = None
    types = {}
    for st in stmts:
        stripped = st.strip()
        ind = len(st) - len(st.lstrip())
        if skip_indent is not None:
            if not stripped or ind > skip_indent:
                continue
            skip_indent = None
        pad = st[:ind]
        if re.match(r"(from\s+\S+\s+)?cimport\b", stripped) or re.match(r"from\s+\S+\s+cimport", stripped):
            continue
        if stripped.startswith("@cython."):
            continue
        if re.match(r"cdef\s+extern\b", stripped) or re.match(r"cdef\s+enum\b", stripped):
            skip_indent = ind
            continue
        m = re.match(r"(?:cpdef|cdef|def)\s+(?:inline\s+)?(?:" + CTYPE + r"\s*)?(\w+)\s*\((.*)\)\s*(?:noexcept|except\s*\S+|nogil|\s)*:\s*$", stripped, re.S)
        if m and re.match(r"(cpdef|cdef|def)\b", stripped) and not re.match(r"cdef\s+.*=\s", stripped.split("(")[0]):
            params = []
            for p in split_top(m.group(2)):
                p = " ".join(p.split())
                p = re.sub(r"^" + CTYPE + r"\s*(?=\w)", "", p)
                params.append(p)
            out.append("%sdef %s(%s):" % (pad, m.group(1), ", ".join(params)))
            continue
        if re.match(r"with\s+(nogil|cython\.nogil)\s*:", stripped):
            out.append(pad + "if True:")
            continue
        m = re.match(r"cdef\s+(" + CTYPE + r")\s*(.*)$", stripped, re.S)
        if m:
            ty, rest = m.group(1).strip(), m.group(2)
            for d in split_top(rest):
                d = d.strip()
                mm = re.match(r"(\w+)\s*=\s*(.*)$", d, re.S)
                if mm:
                    e = mm.group(2)
                    e = "__cast(%r, %s)" % (ty, e) if ty in ("int", "double") else e
                    out.append("%s%s = %s" % (pad, mm.group(1), e))
                else:
                    out.append("%s%s = None" % (pad, d))
            continue
        out.append(st)
    code = "\n".join(out)
    # pointers
    code = re.sub(r"\bNULL\b", "None", code)
    code = re.sub(r"<[\w ]+\*>\s*", "", code)
    code = re.sub(r"<(?:double|int|float|long|uint64_t|int64_t|Py_ssize_t)>\s*", "", code)
    code = re.sub(r"(?<![\w.])(\w+)\.data\b", r"__ptr(\1)", code)
    code = _box_addresses(code)
    return code


def _box_addresses(code):
    """variables whose address is taken become one-element arrays"""
    parts = re.split(r"(?m)^(?=def )", code)
    res = []
    for p in parts:
        names = set(re.findall(r"(?<=[\s(,])&(\w+)", p))
        for n in names:
            p = re.sub(r"(?m)^(\s*)%s = (.*)$" % n, r"\1%s = __box(\2)" % n, p, count=1)
            p = re.sub(r"(?<![\w.&])%s\b(?!\s*=\s*__box)(?!\s*=[^=])" % n, "%s[0]" % n, p)
            p = re.sub(r"&%s\b" % n, "__ptr(%s)" % n, p)
        res.append(p)
    return "".join(res)
