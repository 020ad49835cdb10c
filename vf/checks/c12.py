import functools
import math
from fractions import Fraction

from peyl import Poly

from ..core import Suite
from ..lib import *

SUITE = Suite('C12',
    'Random integer polynomials (zero, padded, sparse, dense, big coefficients, cyclotomic products) go through ring operations, evaluation and division, compared with coefficient lists and rational long division; cyclotomic polynomials come from roots of unity products (Moebius formula), Chebyshev from the binomial formula, minimal polynomials of 2cos from cyclotomic polynomials by symmetry and from numerical roots. Non-trivial: degrees at least one.',
    require={'operations': 4000, 'quotients': 2000, 'undividable': 500, 'inexact': 500, 'cyclotomic': 150, 'chebyshev': 60, 'minpolycos': 60})


def trim(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return tuple(c)


def add(a, b):
    m = max(len(a), len(b))
    return trim((a[k] if k < len(a) else 0) + (b[k] if k < len(b) else 0) for k in range(m))


def scale(a, k):
    return trim(k * x for x in a)


def mul(a, b):
    out = [0] * (len(a) + len(b))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return trim(out)


def rational_divmod(n, d):
    q, r = [Fraction(0)] * max(0, len(n) - len(d) + 1), [Fraction(x) for x in n]
    for k in range(len(n) - len(d), -1, -1):
        q[k] = r[k + len(d) - 1] / d[-1]
        for j, y in enumerate(d):
            r[k + j] -= q[k] * y
    return trim(q), trim(r)


def random_poly(rng):
    m = rng.randrange(7)
    if m == 0:
        return ()
    if m == 1:
        return trim((0,) * rng.randint(0, 9) + (rng.choice((1, -1, 3, 10**40)),))
    if m == 2:
        return trim(rng.randint(-2, 2) for _ in range(rng.randint(1, 14)))
    if m == 3:
        return trim(rng.randint(-2**70, 2**70) for _ in range(rng.randint(1, 6)))
    if m == 4:
        return trim([rng.randint(-9, 9) for _ in range(rng.randint(0, 6))] + [1])
    if m == 5:
        return trim([rng.choice((0, 0, 0, 1, -1, 5)) for _ in range(rng.randint(1, 30))])
    return trim([1] + [0] * rng.randint(0, 9) + [rng.choice((1, -1))])


def poly(c, rng=None):
    return Poly(*c, *([0] * rng.randint(0, 3) if rng else []))


def text(c):
    if not c:
        return '0'
    out = ''
    for k in range(len(c) - 1, -1, -1):
        if c[k]:
            out += (' + ' if c[k] > 0 else ' - ') if out else ('' if c[k] > 0 else '-')
            v = '' if k == 0 else 'x' if k == 1 else f'x^{k}'
            out += v if v and abs(c[k]) == 1 else f'{abs(c[k])}{v}'
    return out


def got(ctx, x, want, what, /, **kw):
    ctx.check(type(x) is Poly and tuple(x.coeffs) == want and all(type(c) is int for c in x.coeffs), f'{what}: {x!r} instead of {text(want)}', **kw)
    ctx.check(x == Poly(*want) and not x != Poly(*want, 0), f'{what}: equal polynomials compare unequal', **kw)


@SUITE.scenario('ring', quick=40000, thorough=400000)
def ring(ctx, rng, i):
    a, b = random_poly(rng), random_poly(rng)
    if rng.random() < 0.15:
        b = add(scale(a, -1), rng.choice(((), (1,), (0, 2))))
    x, y = poly(a, rng), poly(b, rng)
    k = rng.choice((0, 1, -1, 6, -10**30))
    ctx.describe(x=a, y=b, k=k)
    got(ctx, x, a, 'construction')
    got(ctx, x + y, add(a, b), 'sum', x=a, y=b)
    got(ctx, x - y, add(a, scale(b, -1)), 'difference', x=a, y=b)
    got(ctx, x * y, mul(a, b), 'product', x=a, y=b)
    got(ctx, -x, scale(a, -1), 'negative', x=a)
    for op, want in ((x + x, scale(a, 2)), (x - x, ()), (x * x, mul(a, a))) if i % 3 == 0 else ():
        got(ctx, op, want, 'an operation on a polynomial and itself', x=a)
    if a and abs(a[-1]) == 1 and i % 3 == 0:
        q, r = divmod(x, x)
        got(ctx, q, (1,), 'the quotient of a polynomial by itself', x=a)
        got(ctx, r, (), 'the remainder of a polynomial by itself', x=a)
    K = trim((k,))
    got(ctx, x + k, add(a, K), 'sum with an integer', x=a, k=k)
    got(ctx, k + x, add(a, K), 'sum with an integer', x=a, k=k)
    got(ctx, x - k, add(a, scale(K, -1)), 'difference with an integer', x=a, k=k)
    got(ctx, x * k, scale(a, k), 'product with an integer', x=a, k=k)
    got(ctx, k * x, scale(a, k), 'product with an integer', x=a, k=k)
    e = rng.choice((0, 1, 2, 3, 4, 5, 6, 9))
    want = (1,)
    for _ in range(e):
        want = mul(want, a)
    got(ctx, x ** e, want, f'power {e}', x=a)
    ctx.raises(ValueError, lambda: x ** -1, 'a negative power', x=a)
    ctx.eq(x.deg(), len(a) - 1, 'degree', x=a)
    ctx.eq(x.is_zero(), not a, 'is_zero', x=a)
    ctx.eq(x == y, a == b, 'equality', x=a, y=b)
    for p in (0, 1, -1, 3, Fraction(-2, 7)):
        ctx.eq(x.evaluate(p), sum(c * p**j for j, c in enumerate(a)), 'evaluation', x=a, at=p)
    if a and len(a) <= 7 and len(b) <= 7:
        want = ()
        for j, c in enumerate(a):
            term = (c,)
            for _ in range(j):
                term = mul(term, b)
            want = add(want, trim(term))
        val = x.evaluate(y)
        got(ctx, val, want, 'composition', x=a, y=b)
    ctx.eq(repr(x), f"Poly('{text(a)}')", 'printed form', x=a)
    ctx.check(x.coeffs == a and y.coeffs == b, 'an operand changed', x=a, y=b)
    ctx.hit('operations')
    if len(a) > 1 and len(b) > 1:
        ctx.distinct((a, b))
        ctx.sample(x=text(a), y=text(b))


@SUITE.scenario('division', quick=40000, thorough=400000)
def division(ctx, rng, i):
    n, d = random_poly(rng), random_poly(rng)
    if rng.random() < 0.4:
        n = add(mul(n, d), random_poly(rng) if rng.random() < 0.5 else ())
    ctx.describe(n=n, d=d)
    N, D = poly(n, rng), poly(d, rng)
    if not d:
        ctx.raises((AssertionError, ValueError, ZeroDivisionError), lambda: divmod(N, D), 'a division by zero', n=n)
        ctx.raises((AssertionError, ValueError, ZeroDivisionError), lambda: N / D, 'a division by zero', n=n)
        return
    q, r = rational_divmod(n, d)
    if all(c.denominator == 1 for c in q):
        q, r = tuple(map(int, q)), tuple(map(int, r))
        gq, gr = divmod(N, D)
        got(ctx, gq, q, 'quotient', n=n, d=d)
        got(ctx, gr, r, 'remainder', n=n, d=d)
        ctx.hit('quotients')
        if r:
            ctx.raises(ValueError, lambda: N / D, 'an inexact quotient', n=n, d=d)
            ctx.hit('inexact')
        else:
            got(ctx, N / D, q, 'exact quotient', n=n, d=d)
    else:
        ctx.raises(ValueError, lambda: divmod(N, D), 'a quotient which is not integral', n=n, d=d)
        ctx.raises(ValueError, lambda: N / D, 'a quotient which is not integral', n=n, d=d)
        ctx.hit('undividable')
    ctx.check(N.coeffs == n and D.coeffs == d, 'an operand changed', n=n, d=d)
    if len(d) > 1 and len(n) > len(d):
        ctx.distinct((n, d))


def mobius(n):
    out, k = 1, 2
    while n > 1:
        if n % k == 0:
            n //= k
            if n % k == 0:
                return 0
            out = -out
        k += 1
    return out


@functools.lru_cache(maxsize=None)
def cyclotomic(n):
    """Product over d | n of (x^d - 1)^mu(n/d), as a power series."""
    size = sum(1 for k in range(1, n + 1) if math.gcd(k, n) == 1) + 1
    c = [1] + [0] * (size - 1)
    sign = 1
    for d in range(1, n + 1):
        if n % d == 0:
            m = mobius(n // d)
            if m == 1:
                c = [c[k] - (c[k - d] if k >= d else 0) for k in range(size)]
            elif m == -1:
                for k in range(d, size):
                    c[k] += c[k - d]
            sign = -sign if m else sign
    return tuple(sign * x for x in c)


@SUITE.scenario('cyclotomic', quick=24, thorough=60)
def cyclotomics(ctx, rng, i):
    top = 40 if ctx.thorough else 12
    order = [i + 24 * k + 1 for k in range(top)] if not ctx.thorough else [i + 60 * k + 1 for k in range(top // 2)]
    rng.shuffle(order)
    for n in order:
        got(ctx, Poly.cyclotomic(n), cyclotomic(n), 'cyclotomic', n=n)
        ctx.hit('cyclotomic')
    for n in (0, -1, -7):
        ctx.raises(ValueError, lambda: Poly.cyclotomic(n), 'a non-positive index', n=n)


@SUITE.scenario('chebyshev', quick=24, thorough=60)
def chebyshevs(ctx, rng, i):
    order = [i + 24 * k for k in range(6)]
    rng.shuffle(order)
    for n in order:
        # T_n = sum over k of C(n, 2k) x^(n-2k) (x^2 - 1)^k.
        c = [0] * (n + 1)
        for k in range(n // 2 + 1):
            for j in range(k + 1):
                c[n - 2 * j] += math.comb(n, 2 * k) * math.comb(k, j) * (-1) ** j
        got(ctx, Poly.chebyshevT(n), trim(c), 'Chebyshev', n=n)
        ctx.hit('chebyshev')
    ctx.raises(ValueError, lambda: Poly.chebyshevT(-1), 'a negative index')


@functools.lru_cache(maxsize=None)
def minpolycos(n):
    """x^k f(x + 1/x) = Cyc_n(x), solved for f from the top; n = 1 and 2 by hand."""
    if n == 1:
        return (-2, 1)
    if n == 2:
        return (2, 1)
    c = list(cyclotomic(n))
    k = (len(c) - 1) // 2
    out = [0] * (k + 1)
    for e in range(k, -1, -1):
        out[e] = a = c[k + e]
        # Subtract a (x + 1/x)^e x^k.
        for j in range(e + 1):
            c[k + e - 2 * j] -= a * math.comb(e, j)
    assert not any(c)
    return tuple(out)


@SUITE.scenario('minpolycos', quick=24, thorough=60)
def minpolys(ctx, rng, i):
    order = [i + 24 * k + 1 for k in range(4 if ctx.thorough else 3)]
    rng.shuffle(order)
    for n in order:
        want = minpolycos(n)
        if n <= 30:
            assert abs(sum(c * (2 * math.cos(2 * math.pi / n))**j for j, c in enumerate(want))) < 1e-5
        got(ctx, Poly.minpolycos(n), want, 'minpolycos', n=n)
        ctx.hit('minpolycos')
    # Asking again, after other indices, gives the same.
    n = rng.choice(order)
    got(ctx, Poly.minpolycos(n), minpolycos(n), 'minpolycos again', n=n)
    got(ctx, Poly.cyclotomic(n), cyclotomic(n), 'cyclotomic again', n=n)


def long_poly(rng):
    m = rng.randrange(6)
    if m == 0:
        return trim([rng.randint(-9, 9) for _ in range(log_size(rng, 10, 300))] + [rng.choice((1, 1, -1, 2))])
    if m == 1:
        return trim([rng.choice((1, -1, 0))] + [0] * log_size(rng, 10, 400) + [rng.choice((1, -1))])
    if m == 2:
        bits = log_size(rng, 30, 2000)
        return trim([rng.randint(-2**bits, 2**bits) for _ in range(rng.randint(1, 6))] + [1])
    if m == 3:
        bits = rng.choice((15, 16, 31, 32, 53, 54, 62, 63, 64, 127, 128))
        return trim([rng.choice((1, -1)) * (2**bits + rng.randint(-1, 1)) for _ in range(rng.randint(1, 6))])
    if m == 4:
        return trim([rng.randint(-3, 3) for _ in range(rng.randint(1, 8))] + [rng.choice((1, -1))])
    return (1,) * log_size(rng, 10, 200)


@SUITE.scenario('large', quick=800, thorough=12000)
def large(ctx, rng, i):
    """High degrees, long runs of zeros, coefficients of hundreds of digits."""
    a, b = long_poly(rng), long_poly(rng)
    if rng.random() < .1:
        b = add(scale(a, -1), (0,) * rng.randrange(len(a)) + (1,)) or (1,)
    ctx.describe(x=text(a)[:3000], y=text(b)[:3000])
    x, y = Poly(*a, *[0] * log_size(rng, 1, 500)), poly(b, rng)
    product = mul(a, b)
    got(ctx, x, a, 'construction')
    got(ctx, Poly(*[0] * log_size(rng, 10, 500)), (), 'construction from zeros only')
    got(ctx, x + y, add(a, b), 'sum')
    got(ctx, x - y, add(a, scale(b, -1)), 'difference')
    got(ctx, y - x, add(b, scale(a, -1)), 'difference')
    z = x * y
    got(ctx, z, product, 'product')
    got(ctx, -x, scale(a, -1), 'negative')
    got(ctx, x * 10**50, scale(a, 10**50), 'product with an integer')
    ctx.hit('operations')
    ctx.eq(repr(x), f"Poly('{text(a)}')", 'printed form')
    for u, want in ((x, a), (z, product)):
        v = Poly(*want)
        ctx.check(u == v and not u != v and u != v + 1 and v - 1 != u, 'equal polynomials compare unequal')
    for p in (1, -1, 2, Fraction(1, 3)):
        want = 0
        for c in reversed(a):
            want = want * p + c
        ctx.eq(x.evaluate(p), want, 'evaluation', at=p)
    if len(product) * len(b) < 40000:
        got(ctx, z / y, a, 'exact quotient')
        ctx.hit('quotients')
        if len(b) > 1:
            r = trim([rng.randint(-9, 9) for _ in range(rng.randint(1, len(b) - 1))])
            q, s = divmod(z + poly(r), y)
            got(ctx, q, a, 'quotient')
            got(ctx, s, r, 'remainder')
            if r:
                ctx.raises(ValueError, lambda: (z + poly(r)) / y, 'an inexact quotient')
                ctx.hit('inexact')
        if abs(b[-1]) > 1:
            n = add(product, (0,) * (len(product) - 1) + (1,))
            ctx.raises(ValueError, lambda: divmod(poly(n), y), 'a quotient which is not integral')
            ctx.hit('undividable')
    k = log_size(rng, 5, 130)
    c, d, e = rng.choice((1, -1, 2)), rng.choice((1, -3)), rng.randint(1, 3)
    want = [0] * (e * k + 1)
    for j in range(k + 1):
        want[e * j] = math.comb(k, j) * c ** j * d ** (k - j)
    got(ctx, Poly(d, *[0] * (e - 1), c) ** k, trim(want), f'power {k}')
    ctx.distinct((a, b))


# Where coefficients beyond -1, 0, 1 first appear, and products of three primes and powers.
FAR = (105, 165, 195, 210, 255, 273, 285, 315, 330, 345, 357, 385, 420, 429, 455, 495)


@SUITE.scenario('far families', quick=16, thorough=24)
def far_families(ctx, rng, i):
    n = FAR[i % len(FAR)] if i < 16 else (595, 665, 770, 715, 858, 1001, 910, 1155)[i - 16]
    got(ctx, Poly.cyclotomic(n), cyclotomic(n), 'cyclotomic', n=n)
    ctx.hit('cyclotomic')
    n = 70 + 16 * (i % 16) + rng.randrange(16)
    got(ctx, Poly.minpolycos(n), minpolycos(n), 'minpolycos', n=n)
    ctx.hit('minpolycos')
    n = 150 + 13 * i
    t, u = Poly.chebyshevT(n), [1, 0]
    # T_n(cos x) = cos(n x): 3/5 = cos x gives exact values by the recursion of integers.
    p, q = 5, 3
    a, b = 1, q
    for _ in range(n - 1):
        a, b = b, 2 * q * b - p * p * a
    value = sum(c * q**j * p**(n - j) for j, c in enumerate(t.coeffs))
    ctx.check(t.deg() == n and t.coeffs[-1] == 2**(n - 1) and value == b and t.evaluate(1) == 1 and t.evaluate(-1) == (-1)**n, 'Chebyshev', n=n)
    even = all(c == 0 for j, c in enumerate(t.coeffs) if (j - n) % 2)
    want = [0] * (n + 1)
    for j in range(n // 2 + 1):
        # The leading terms in closed form: n/2 (-1)^j (n-j-1)! / (j! (n-2j)!) 2^(n-2j).
        want[n - 2 * j] = (-1)**j * n * math.comb(n - j, j) * 2**(n - 2 * j) // (2 * (n - j))
    got(ctx, t, trim(want), 'Chebyshev', n=n)
    ctx.check(even, 'Chebyshev: parity', n=n)
    ctx.hit('chebyshev')
