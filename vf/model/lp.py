"""Laurent polynomials as dictionaries {degree: nonzero coefficient}, and matrices of them as nested lists."""


def norm(d):
    return {k: c for k, c in d.items() if c}


def const(c):
    return {0: c} if c else {}


def mono(k, c=1):
    return {k: c} if c else {}


def add(a, b):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + c
    return norm(out)


def neg(a):
    return {k: -c for k, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    out = {}
    for i, c in a.items():
        for j, d in b.items():
            out[i + j] = out.get(i + j, 0) + c * d
    return norm(out)


def power(a, n):
    out = {0: 1}
    for _ in range(n):
        out = mul(out, a)
    return out


def modp(a, p):
    return norm({k: c % p for k, c in a.items()}) if p else a


def of(x):
    """From a peyl LPoly or an int, by reading its valuation and coefficients."""
    if isinstance(x, int):
        return const(x)
    return norm({x.val + i: c for i, c in enumerate(x.coeffs)})


def of_exact(x):
    """As `of`, but insisting on exact Python integers and on the canonical layout."""
    if isinstance(x, int):
        return const(x)
    assert type(x.coeffs) is tuple and all(type(c) is int for c in x.coeffs) and type(x.val) is int, f'inexact coefficients in {x!r}: {x.coeffs!r}'
    if x.coeffs:
        assert x.coeffs[0] != 0 and x.coeffs[-1] != 0, f'untrimmed {x!r}'
    else:
        assert x.val == 0, f'zero with valuation {x.val}'
    return of(x)


def evaluate_at(a, x):
    return sum(c * x**k for k, c in a.items())


# Matrices.

def mmul(A, B):
    m = len(B[0]) if B else 0
    out = []
    for row in A:
        new = []
        for j in range(m):
            acc = {}
            for k, x in enumerate(row):
                if x:
                    y = B[k][j]
                    for i, c in x.items():
                        for l, d in y.items():
                            acc[i + l] = acc.get(i + l, 0) + c * d
            new.append(norm(acc))
        out.append(new)
    return out


def mident(n):
    return [[const(int(i == j)) for j in range(n)] for i in range(n)]


def madd(A, B):
    return [[add(x, y) for x, y in zip(r, s)] for r, s in zip(A, B)]


def mscale(A, c):
    return [[mul(x, c) for x in r] for r in A]


def mmod(A, p):
    return [[modp(x, p) for x in r] for r in A]


def of_matrix(M):
    """From a peyl Matrix."""
    rows = M.rows()
    assert len(rows) == M.nrows and all(len(r) == M.ncols for r in rows)
    return [[of_exact(x) for x in r] for r in rows]


def minval(A):
    return min((min(x) for r in A for x in r if x), default=None)


def maxdeg(A):
    return max((max(x) for r in A for x in r if x), default=None)


def shift(A, k):
    return [[{d + k: c for d, c in x.items()} for x in r] for r in A]


def projective(A):
    """Divide by the largest power of v dividing every entry."""
    lo = minval(A)
    return A if lo is None else shift(A, -lo)


def of_polymat(a):
    """From a numpy array (I, J, D)."""
    I, J, D = a.shape
    lists = a.tolist()
    return [[{d: c for d, c in enumerate(lists[i][j]) if c} for j in range(J)] for i in range(I)]
