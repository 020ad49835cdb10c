from ..core import Suite
from ..lib import *
from .c09 import lpoly, random_lpoly

SUITE = Suite('C13',
    'Random matrices of all shapes up to 6 x 6, empty ones included, with small, large and Laurent polynomial entries go through every operation and are compared with nested lists; so are large matrices, some with all entries of one size, whose sums of products pass a machine word. Non-trivial: at least two rows and columns.',
    require={'integer': 2000, 'laurent': 500, 'empty': 100, 'refused': 2000, 'symmetric': 200})


def entries(rng, m, n, poly, style):
    if poly:
        return [[random_lpoly(rng) for _ in range(n)] for _ in range(m)]
    f = {'small': lambda: rng.randint(-3, 3), 'big': lambda: rng.randint(-10**30, 10**30), 'sparse': lambda: rng.choice((0, 0, 0, 1, -1)), 'words': lambda: rng.choice((2**31, -2**31, 2**63, 1))}[style]
    return [[lp.const(f()) for _ in range(n)] for _ in range(m)]


def real(A, m, n, poly, rng=None):
    conv = (lambda d: lpoly(d, rng)) if poly else (lambda d: d.get(0, 0))
    return Matrix(m, n, tuple(conv(x) for r in A for x in r))


def read(M):
    return [[lp.of(x) for x in r] for r in M.rows()]


def got(ctx, M, m, n, want, what, /, **kw):
    ctx.check(type(M) is Matrix and (M.nrows, M.ncols) == (m, n) and type(M.data) is tuple and len(M.data) == m * n, f'{what}: wrong shape: {M!r}', **kw)
    ctx.check(read(M) == want, f'{what}: {M!r} instead of {want}', **kw)


def lmul(A, B, m, k, n):
    return [[_dot(A[i], [B[t][j] for t in range(k)]) for j in range(n)] for i in range(m)]


def _dot(u, v):
    out = {}
    for a, b in zip(u, v):
        out = lp.add(out, lp.mul(a, b))
    return out


@SUITE.scenario('operations', quick=48000, thorough=360000)
def operations(ctx, rng, i):
    poly = i % 4 == 0
    sizes = (0, 1, 1, 2, 2, 3, 3, 4, 6)
    m, k, n = (rng.choice(sizes) for _ in range(3))
    style = rng.choice(('small', 'big', 'sparse', 'words'))
    a, b, c = entries(rng, m, k, poly, style), entries(rng, k, n, poly, style), entries(rng, m, k, poly, style)
    A, B, C = real(a, m, k, poly, rng), real(b, k, n, poly, rng), real(c, m, k, poly, rng)
    ctx.describe(A=A, B=B)
    got(ctx, A * B, m, n, lmul(a, b, m, k, n), 'product', A=A, B=B)
    got(ctx, A - C, m, k, [[lp.sub(x, y) for x, y in zip(r, s)] for r, s in zip(a, c)], 'difference', A=A, C=C)
    z = rng.choice((0, 1, -1, 5, 10**20))
    got(ctx, A * z, m, k, [[lp.mul(x, lp.const(z)) for x in r] for r in a], 'integer multiple', A=A, z=z)
    got(ctx, z * A, m, k, [[lp.mul(x, lp.const(z)) for x in r] for r in a], 'integer multiple', A=A, z=z)
    T = A.transpose()
    got(ctx, T, k, m, [[a[x][y] for x in range(m)] for y in range(k)], 'transpose', A=A)
    ctx.check(T.transpose() == A and hash(T.transpose()) == hash(A), 'transposing twice', A=A)
    got(ctx, A - A, m, k, [[{}] * k for _ in range(m)], 'difference with itself', A=A)
    if m == k:
        got(ctx, A * A, m, m, lmul(a, a, m, m, m), 'product with itself', A=A)
    elif m and k:
        ctx.raises(ValueError, lambda: A * A, 'a product of incompatible shapes', A=A)
    ctx.check(A == A and not A != A, 'a matrix differs from itself', A=A)
    same = real(a, m, k, poly, rng)
    ctx.check(same == A and hash(same) == hash(A) and not same != A, 'equal matrices compare unequal', A=A)
    ctx.eq(A == C, a == c, 'equality', A=A, C=C)
    ctx.eq(A == T, (m, k) == (k, m) and a == read(T), 'equality with the transpose', A=A)
    if m * k:
        ctx.check(Matrix.from_rows([list(r) for r in A.rows()]) == A, 'from_rows', A=A)
    for x in range(m):
        got(ctx, A.row(x), 1, k, [a[x]], 'row', A=A, x=x)
        for y in range(k):
            ctx.eq(lp.of(A[x, y]), a[x][y], 'entry', A=A, x=x, y=y)
    for y in range(k):
        got(ctx, A.column(y), m, 1, [[a[x][y]] for x in range(m)], 'column', A=A, y=y)
    ctx.eq([lp.of(e) for e in A.entries()] and sorted(map(repr, (sorted(lp.of(e).items()) for e in A.entries()))), sorted(repr(sorted(x.items())) for r in a for x in r), 'entries', A=A)
    ctx.eq(sorted(A.indices()), [(x, y) for x in range(m) for y in range(k)], 'indices', A=A)
    f = (lambda e: e + e) if rng.random() < 0.5 else (lambda e: e * e - 1)
    g = (lambda d: lp.add(d, d)) if f(3) == 6 else (lambda d: lp.sub(lp.mul(d, d), {0: 1}))
    got(ctx, A.map(f), m, k, [[g(x) for x in r] for r in a], 'map', A=A)
    ctx.eq(A.is_integral(), not poly or m * k == 0, 'is_integral', A=A)
    ctx.eq(A.is_square(), m == k, 'is_square', A=A)
    ctx.check(read(A) == a and read(B) == b, 'an operand changed')
    ctx.hit('laurent' if poly else 'integer')
    ctx.hit('empty', m * k * n == 0)
    if min(m, k, n) > 1:
        ctx.distinct((A, B))
        ctx.sample(A=str(A), B=str(B))


@SUITE.scenario('square', quick=24000, thorough=180000)
def square(ctx, rng, i):
    poly = i % 4 == 0
    n = rng.choice((0, 1, 2, 2, 3, 4, 5))
    a = entries(rng, n, n, poly, rng.choice(('small', 'sparse', 'big')))
    kind = rng.randrange(3)
    if kind:
        for x in range(n):
            for y in range(x):
                a[x][y] = a[y][x]
        if kind == 2 and n > 1:
            x, y = rng.sample(range(n), 2)
            a[x][y] = lp.add(a[x][y], {0: 1})
    A = real(a, n, n, poly, rng)
    ctx.describe(A=A)
    sym = all(a[x][y] == a[y][x] for x in range(n) for y in range(n))
    ctx.eq(A.is_symmetric(), sym, 'is_symmetric', A=A)
    ctx.hit('symmetric', n > 1 and kind == 1)
    t = {}
    for x in range(n):
        t = lp.add(t, a[x][x])
    ctx.eq(lp.of(A.trace()), t, 'trace', A=A)
    e = rng.choice((0, 1, 2, 3, 4, 5, 7)) if not poly else rng.choice((0, 1, 2, 3))
    want = [[lp.const(int(x == y)) for y in range(n)] for x in range(n)]
    for _ in range(e):
        want = lmul(want, a, n, n, n)
    got(ctx, A ** e, n, n, want, f'power {e}', A=A)
    ctx.raises((NotImplementedError, ValueError), lambda: A ** -1, 'a negative power')


@SUITE.scenario('constructors', quick=6000, thorough=30000)
def constructors(ctx, rng, i):
    n, m = rng.randint(0, 7), rng.randint(0, 7)
    one = lambda d: [[lp.const(d) if x == y else {} for y in range(n)] for x in range(n)]
    got(ctx, Matrix.identity(n), n, n, one(1), 'identity', n=n)
    s = rng.choice((0, -1, 6, 10**25))
    got(ctx, Matrix.scalar(n, s), n, n, one(s), 'scalar', n=n, s=s)
    got(ctx, Matrix.zero(n, m), n, m, [[{}] * m for _ in range(n)], 'zero', n=n, m=m)
    v = [rng.randint(-9, 9) for _ in range(n)]
    got(ctx, Matrix.row_vector(v), 1, n, [[lp.const(x) for x in v]], 'row vector', v=v)
    got(ctx, Matrix.col_vector(v), n, 1, [[lp.const(x)] for x in v], 'column vector', v=v)
    for k in range(n):
        got(ctx, Matrix.col_coord_vector(n, k), n, 1, [[lp.const(int(x == k))] for x in range(n)], 'coordinate vector', n=n, k=k)
    # Printed forms list exactly the entries, row by row.
    A = real(entries(rng, n, m, False, 'small'), n, m, False)
    text = repr(A)
    ctx.check(text.startswith('Matrix('), 'printed form', A=text)
    if n and m:
        inner = text[len('Matrix('):-1]
        ctx.eq(eval(inner, {}), A.rows(), 'printed form', A=text)
        ctx.eq(eval(str(A)[1:], {}), A.rows(), 'printed form', A=str(A))
    else:
        ctx.eq(text, f'Matrix({n}, {m}, [])', 'printed form')


@SUITE.scenario('refused', quick=12000, thorough=90000)
def refused(ctx, rng, i):
    m, n = rng.randint(0, 5), rng.randint(0, 5)
    A = real(entries(rng, m, n, False, 'small'), m, n, False)
    ctx.describe(A=A)
    for x, y in ((m, 0), (-1, 0), (0, n), (0, -1), (m, n), (-m, -n) if m * n else (-1, -1), (m + 3, n + 3),
                 (m, -rng.randint(1, 4)), (-rng.randint(1, 4), n), (-rng.randint(1, 4), n + rng.randint(0, 4)), (m + rng.randint(0, 2), -rng.randint(1, 4))):
        ctx.raises(IndexError, lambda: A[x, y], 'an entry out of range', A=A, at=(x, y))
    for x in (-1, m, m + 1, -m - 1):
        ctx.raises(IndexError, lambda: A.row(x), 'a row out of range', A=A, x=x)
    for y in (-1, n, n + 1, -n - 1):
        ctx.raises(IndexError, lambda: A.column(y), 'a column out of range', A=A, y=y)
    for key in (0, (0,), (0, 0, 0), '00', [0, 0]):
        ctx.raises((KeyError, TypeError, IndexError), lambda: A[key], 'a malformed index', key=key)
    k, l = rng.randint(0, 5), rng.randint(0, 5)
    B = real(entries(rng, k, l, False, 'small'), k, l, False)
    if k != n:
        ctx.raises(ValueError, lambda: A * B, 'a product of incompatible shapes', A=A, B=B)
    if (k, l) != (m, n):
        ctx.raises(ValueError, lambda: A - B, 'a difference of different shapes', A=A, B=B)
        ctx.check(A != B, 'matrices of different shapes compare equal', A=A, B=B)
    if m != n:
        ctx.raises(ValueError, lambda: A.trace(), 'the trace of a non-square matrix', A=A)
        ctx.raises(ValueError, lambda: A ** 2, 'a power of a non-square matrix', A=A)
        ctx.raises(ValueError, lambda: A ** 0, 'a power of a non-square matrix', A=A)
    ctx.raises(ValueError, lambda: Matrix(m, n, tuple(range(m * n + 1))), 'too much data')
    ctx.raises(ValueError, lambda: Matrix(m + 1, n + 1, tuple(range(m * n))), 'too little data')
    ctx.raises(ValueError, lambda: Matrix(-1, -1, (1,)), 'negative shape')
    ctx.raises(ValueError, lambda: Matrix(-m, 0, ()) if m else Matrix(0, -1, ()), 'negative shape')
    ctx.raises(ValueError, lambda: Matrix(m, n, [0] * (m * n)), 'a list as data')
    rows = [[0] * n for _ in range(m)] + [[0] * (n + 1)]
    if m:
        ctx.raises((AssertionError, ValueError), lambda: Matrix.from_rows(rows), 'ragged rows')
    for bad in ('x', None, [1], 1.5):
        ctx.raises(TypeError, lambda: A * bad, 'a product with something else')
        ctx.raises(TypeError, lambda: bad * A, 'a product with something else')
        ctx.raises(TypeError, lambda: A - bad, 'a difference with something else')
    ctx.hit('refused')


@SUITE.scenario('large', quick=240, thorough=4000)
def large(ctx, rng, i):
    """Many rows and columns, entries of hundreds of digits, high powers."""
    m, k, n = (log_size(rng, 1, 70) for _ in range(3))
    if i % 3 == 0:
        m = k = n = log_size(rng, 6, 40)
    bits = rng.choice((2, 10, 31, 32, 53, 63, 64, log_size(rng, 30, 2000)))
    f = lambda: rng.choice((1, -1)) * (2**bits + rng.randint(-1, 1)) if rng.random() < .3 else rng.randint(-2**bits, 2**bits) if rng.random() < .7 else 0
    if i % 5 == 0:
        # All of one size and sign, so that sums of products pass the word sizes: the sums near 2^32, 2^53, 2^64 or a little more.
        k = log_size(rng, 2, 70)
        bits = rng.choice((32, 53, 63, 64, 128)) / 2 - math.log2(k) * rng.choice((0, .5, .5, 1)) + rng.choice((0, 0, rng.uniform(-.1, 1)))
        high = rng.choice((int(2**bits), 2**math.ceil(bits) - 1, 2**int(bits)))
        sign, width = rng.choice((1, 1, -1)), rng.choice((0, 1, high // 100))
        f = lambda: sign * (high - rng.randint(0, width))
    a, b, c = ([[f() for _ in range(y)] for _ in range(x)] for x, y in ((m, k), (k, n), (m, k)))
    flat = lambda r: tuple(x for y in r for x in y)
    A, B, C = Matrix(m, k, flat(a)), Matrix(k, n, flat(b)), Matrix.from_rows(c)
    ctx.describe(m=m, k=k, n=n, bits=bits)

    def is_(M, want, x, y, what):
        ctx.check(type(M) is Matrix and (M.nrows, M.ncols) == (x, y) and M.data == flat(want) and all(type(e) is int for e in M.data), what, shape=(m, k, n), bits=bits)
    is_(A * B, [[sum(r[t] * b[t][y] for t in range(k)) for y in range(n)] for r in a], m, n, 'product')
    is_(A - C, [[p - q for p, q in zip(r, s)] for r, s in zip(a, c)], m, k, 'difference')
    is_(A.transpose(), list(zip(*a)), k, m, 'transpose')
    ctx.check(A.transpose().transpose() == A, 'transposing twice')
    is_(A.map(lambda e: e * e), [[e * e for e in r] for r in a], m, k, 'map')
    is_(A * 10**30, [[e * 10**30 for e in r] for r in a], m, k, 'integer multiple')
    ctx.check(A.rows() == a and Matrix.from_rows(A.rows()) == A and list(A.entries()) and sorted(A.entries()) == sorted(flat(a)), 'rows')
    x, y = rng.randrange(m), rng.randrange(k)
    ctx.check(A[x, y] == a[x][y] and A.row(x).data == tuple(a[x]) and A.column(y).data == tuple(r[y] for r in a), 'entry')
    ctx.check(A[m - 1, k - 1] == a[-1][-1], 'last entry')
    inner = repr(A)[len('Matrix('):-1]
    ctx.check(eval(inner, {}) == a and eval(str(A)[1:], {}) == a, 'printed form')
    # One entry changed.
    d = [list(r) for r in a]
    d[x][y] += rng.choice((1, -1, 2**64, -2**32))
    ctx.check(Matrix.from_rows(d) != A and not Matrix.from_rows(d) == A, 'different matrices compare equal')
    # Symmetry broken at one place, anywhere.
    s = max(m, 2)
    sym = [[0] * s for _ in range(s)]
    for p in range(s):
        for q in range(p + 1):
            sym[p][q] = sym[q][p] = f()
    S = Matrix.from_rows(sym)
    ctx.check(S.is_symmetric() and S.trace() == sum(sym[p][p] for p in range(s)), 'symmetry and trace', s=s)
    p, q = rng.sample(range(s), 2) if rng.random() < .7 else (0, s - 1)
    sym[p][q] += 1
    ctx.check(not Matrix.from_rows(sym).is_symmetric(), 'symmetry is broken', s=s, at=(p, q))
    is_(Matrix.identity(s), [[int(p == q) for q in range(s)] for p in range(s)], s, s, 'identity')
    is_(Matrix.scalar(s, 2**65), [[2**65 * (p == q) for q in range(s)] for p in range(s)], s, s, 'scalar')
    is_(Matrix.zero(m, n), [[0] * n for _ in range(m)], m, n, 'zero')
    v = [f() for _ in range(log_size(rng, 10, 300))]
    ctx.check(Matrix.row_vector(v).rows() == [v] and Matrix.col_vector(v).rows() == [[e] for e in v], 'vectors')
    # High powers of small matrices: Fibonacci numbers, shears, turns, and their conjugates; and nilpotent ones.
    e = log_size(rng, 5, 6000)
    u, w = rng.randint(-3, 3), rng.randint(-3, 3)
    P, Q = Matrix(2, 2, (1, u, 0, 1)) * Matrix(2, 2, (1, 0, w, 1)), Matrix(2, 2, (1, 0, -w, 1)) * Matrix(2, 2, (1, -u, 0, 1))
    fib = [0, 1]
    while len(fib) < e + 2:
        fib.append(fib[-1] + fib[-2])
    for core, power in ((Matrix(2, 2, (1, 1, 1, 0)), (fib[e + 1], fib[e], fib[e], fib[e - 1])), (Matrix(2, 2, (1, 3, 0, 1)), (1, 3 * e, 0, 1)), (Matrix(2, 2, (2, 0, 0, -1)), (2**e, 0, 0, (-1)**e))):
        ctx.check((P * core * Q) ** e == P * Matrix(2, 2, power) * Q, f'power {e}', core=core)
    N = Matrix(s, s, tuple(int(q == p + 1) for p in range(s) for q in range(s)))
    g = rng.randint(0, min(s, 12))
    is_(N ** g, [[int(q == p + g) for q in range(s)] for p in range(s)], s, s, f'power {g} of a shift')
    ctx.hit('integer')
    ctx.distinct((A, B))
