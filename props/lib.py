"""helpers shared by the harnesses (exact, independent of the code under test)"""
from fractions import Fraction as Fr
from itertools import combinations, permutations


def vertices(A, b):
    """basic feasible solutions of A x = b, x >= 0 (Fractions)"""
    m, n = len(A), len(A[0])
    A = [[Fr(x) for x in r] for r in A]
    b = [Fr(x) for x in b]
    # independent rows
    rows = []
    red = []
    for r, y in zip(A, b):
        v = r + [y]
        for p, w in red:
            if v[p]:
                f = v[p] / w[p]
                v = [x - f * z for x, z in zip(v, w)]
        p = next((k for k in range(n) if v[k]), None)
        if p is None:
            assert not v[n], "infeasible"
            continue
        red.append((p, v))
        rows.append(r + [y])
    k = len(rows)
    out = set()
    for B in combinations(range(n), k):
        M = [[r[j] for j in B] + [r[n]] for r in rows]
        ok = True
        for c in range(k):
            p = next((i for i in range(c, k) if M[i][c]), None)
            if p is None:
                ok = False
                break
            M[c], M[p] = M[p], M[c]
            M[c] = [x / M[c][c] for x in M[c]]
            for i in range(k):
                if i != c and M[i][c]:
                    f = M[i][c]
                    M[i] = [x - f * y for x, y in zip(M[i], M[c])]
        if not ok or any(M[i][k] < 0 for i in range(k)):
            continue
        x = [Fr(0)] * n
        for i, j in enumerate(B):
            x[j] = M[i][k]
        out.add(tuple(x))
    return sorted(out)


def couplings(a, b):
    """vertices of the transport polytope, as nested lists"""
    n, m = len(a), len(b)
    A, y = [], []
    for i in range(n):
        A.append([1 if k // m == i else 0 for k in range(n * m)])
        y.append(Fr(a[i]))
    for j in range(m):
        A.append([1 if k % m == j else 0 for k in range(n * m)])
        y.append(Fr(b[j]))
    return [[list(v[i * m:(i + 1) * m]) for i in range(n)] for v in vertices(A, y)]


def partial_couplings(a, b, mass=None):
    """vertices of {P >= 0, P1 <= a, P'1 <= b, (sum P = mass)}"""
    n, m = len(a), len(b)
    A, y = [], []
    N = n * m + n + m
    for i in range(n):
        A.append([1 if (k < n * m and k // m == i) or k == n * m + i else 0 for k in range(N)])
        y.append(Fr(a[i]))
    for j in range(m):
        A.append([1 if (k < n * m and k % m == j) or k == n * m + n + j else 0 for k in range(N)])
        y.append(Fr(b[j]))
    if mass is not None:
        A.append([1 if k < n * m else 0 for k in range(N)])
        y.append(Fr(mass))
    return [[list(v[i * m:(i + 1) * m]) for i in range(n)] for v in {w[: n * m] for w in vertices(A, y)}]


def pair_cost(ctx, P, M):
    n, m = len(P), len(P[0])
    r = ctx.num(0)
    for i in range(n):
        for j in range(m):
            if P[i][j]:
                r = r + ctx.num(P[i][j]) * M[i, j]
    return r


def tot(G, M):
    n, m = G.shape
    return sum(G[i, j] * M[i, j] for i in range(n) for j in range(m))


def fr(*xs):
    return [Fr(x) for x in xs]


def matchings(n, m, k):
    """all matchings of k points of the first set with k of the second"""
    for I in combinations(range(n), k):
        for J in permutations(range(m), k):
            yield list(zip(I, J))


W = {1: ["1"], 2: ["1/4", "3/4"], 3: ["1/2", "1/3", "1/6"], 4: ["1/8", "3/8", "1/6", "1/3"]}
W2 = {1: ["1"], 2: ["2/5", "3/5"], 3: ["1/5", "3/10", "1/2"], 4: ["1/10", "2/5", "1/5", "3/10"]}
