from fractions import Fraction

from ..core import Suite
from ..lib import *
from .c09 import lpoly

SUITE = Suite('C11',
    'Random Laurent polynomials of many shapes (zero, monomials, sparse, dense, padded, coefficients of up to hundreds of digits, valuations up to a thousand) go through every operation and are compared with dictionary polynomials and with exact rational evaluation; equality and hashes are compared across differently padded constructions. Non-trivial: at least two terms in each operand.',
    require={'operations': 5000, 'equal': 3000, 'unequal': 1000, 'division': 1000, 'refused': 1000, 'substitution': 1000, 'printed': 1000})


def random_lp(rng):
    m = rng.randrange(9)
    if m == 0:
        return {}
    if m == 1:
        return {rng.randint(-5, 5): rng.choice((1, -1))}
    if m == 2:
        return {rng.choice((0, 0, 1, -1, 1000, -1000)): rng.choice((2, -3, 10**300, -2**64, 1))}
    if m == 3:
        return lp.norm({rng.randint(-60, 60): rng.randint(-3, 3) for _ in range(3)})
    if m == 4:
        v = rng.randint(-8, 8)
        return lp.norm({v + k: rng.randint(-2, 2) for k in range(rng.randint(1, 12))})
    if m == 5:
        return lp.norm({k: rng.randint(-2**70, 2**70) for k in range(-3, rng.randint(-2, 9))})
    if m == 6:
        return {k: 1 for k in range(-rng.randint(0, 4), 5, 2)}
    if m == 7:
        return lp.norm({0: rng.randint(-3, 3), rng.randint(1, 3): rng.randint(-2, 2)})
    return lp.norm({rng.randint(-4, 4): rng.choice((1, -1, 2, 2**31, -2**31, 2**63)) for _ in range(4)})


def got(ctx, x, want, what, /, **kw):
    ctx.check(type(x) is LPoly, f'{what}: {x!r} is no Laurent polynomial', **kw)
    ctx.check(lp.of(x) == want and all(type(c) is int for c in x.coeffs), f'{what}: {x!r} ({x.val}, {x.coeffs}) instead of {want}', **kw)
    same = lpoly(want)
    ctx.check(x == same and hash(x) == hash(same) and not x != same, f'{what}: equal polynomials compare unequal: {x.val}, {x.coeffs}', **kw)
    ctx.hit('equal')
    facts(ctx, x, want, what)


def facts(ctx, x, d, what):
    ctx.eq(x.is_zero(), not d, f'{what}: is_zero', x=x)
    ctx.eq(x.is_unit(), len(d) == 1 and set(d.values()) <= {1, -1}, f'{what}: is_unit', x=x)
    if d:
        ctx.eq((x.valuation(), x.degree()), (min(d), max(d)), f'{what}: valuation and degree', x=x)


def text(d, latex=False):
    """The printed form, from the examples in the documentation."""
    if not d:
        return '0'
    out = ''
    for k in sorted(d, reverse=True):
        c = d[k]
        out += (' + ' if c > 0 else ' - ') if out else ('' if c > 0 else '-')
        v = '' if k == 0 else 'v' if k == 1 else f'v^{{{k}}}' if latex else f'v^{k}'
        out += v if v and abs(c) == 1 else f'{abs(c)}{v}'
    return out


@SUITE.scenario('ring', quick=48000, thorough=500000)
def ring(ctx, rng, i):
    a, b = random_lp(rng), random_lp(rng)
    if rng.random() < 0.15:
        b = lp.add(lp.neg(a), rng.choice(({}, {min(a, default=0): 1}, {max(a, default=0) + 1: 2})))
    x, y = lpoly(a, rng), lpoly(b, rng)
    k = rng.choice((0, 1, -1, 2, -7, 10**40))
    ctx.describe(x=a, y=b, k=k)
    got(ctx, x, a, 'construction')
    got(ctx, LPoly(x.val, list(x.coeffs)), a, 'construction from a list')
    got(ctx, x + y, lp.add(a, b), 'sum', x=a, y=b)
    got(ctx, x - y, lp.sub(a, b), 'difference', x=a, y=b)
    got(ctx, x * y, lp.mul(a, b), 'product', x=a, y=b)
    got(ctx, -x, lp.neg(a), 'negative', x=a)
    K = lp.const(k)
    got(ctx, x + k, lp.add(a, K), 'sum with an integer', x=a, k=k)
    got(ctx, k + x, lp.add(a, K), 'sum with an integer', x=a, k=k)
    got(ctx, x - k, lp.sub(a, K), 'difference with an integer', x=a, k=k)
    got(ctx, k - x, lp.sub(K, a), 'difference from an integer', x=a, k=k)
    got(ctx, x * k, lp.mul(a, K), 'product with an integer', x=a, k=k)
    got(ctx, k * x, lp.mul(a, K), 'product with an integer', x=a, k=k)
    got(ctx, sum([x, y, x]), lp.add(lp.add(a, b), a), 'sum()')
    got(ctx, LPoly.coerce(x), a, 'coerce')
    got(ctx, LPoly.coerce(k), K, 'coerce')
    ctx.eq(x == y, a == b, 'equality', x=a, y=b)
    ctx.eq(x != y, a != b, 'inequality', x=a, y=b)
    ctx.hit('unequal', a != b)
    ctx.check(len({x, lpoly(a, rng), lpoly(a)}) == 1 and ({x: 1}.get(lpoly(a, rng)) == 1), 'as dictionary keys', x=a)
    for op, want in ((x + x, lp.add(a, a)), (x - x, {}), (x * x, lp.mul(a, a))) if i % 3 == 0 else ():
        got(ctx, op, want, 'an operation on a polynomial and itself', x=a)
    f = rng.choice((lambda c: c % 5, lambda c: 2 * c, lambda c: -c, lambda c: 0, lambda c: c // 2))
    got(ctx, x.map(f), lp.norm({e: f(c) for e, c in a.items()}), 'map', x=a)
    ctx.check(lp.of(x) == a and lp.of(y) == b, 'an operand changed', x=a, y=b)
    ctx.hit('operations')
    if len(a) > 1 and len(b) > 1:
        ctx.distinct((sorted(a.items()), sorted(b.items())))
        ctx.sample(x=text(a), y=text(b))


@SUITE.scenario('powers', quick=12000, thorough=120000)
def powers(ctx, rng, i):
    a = random_lp(rng)
    k = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 13))
    if len(a) > 6:
        k = min(k, 4)
    x = lpoly(a, rng)
    ctx.describe(x=a, k=k)
    got(ctx, x ** k, lp.power(a, k), f'power {k}', x=a)
    if len(a) == 1 and set(a.values()) <= {1, -1}:
        (e, c), = a.items()
        got(ctx, x ** -k, {-e * k: c ** k}, f'power -{k}', x=a)
        got(ctx, x ** -1 * x, {0: 1}, 'inverse', x=a)
    else:
        ctx.raises((ValueError, ZeroDivisionError), lambda: x ** -max(1, k), 'the inverse of a non-unit', x=a)
        ctx.hit('refused')


@SUITE.scenario('division', quick=16000, thorough=160000)
def division(ctx, rng, i):
    a, b = random_lp(rng), random_lp(rng)
    x, y = lpoly(a, rng), lpoly(b, rng)
    ctx.describe(x=a, y=b)
    if b:
        if max(a, default=0) - min(a, default=0) + max(b) - min(b) < 400:
            got(ctx, (x * y) / y, a, 'exact quotient', x=a, y=b)
            ctx.hit('division')
            # A nonzero remainder: add something of smaller spread than the divisor.
            if max(b) - min(b) > 0:
                z = x * y + LPoly(rng.randint(-9, 9), (rng.choice((1, -1)),))
                ctx.raises(ValueError, lambda: z / y, 'an inexact quotient', x=a, y=b)
                ctx.hit('refused')
            elif abs(b[min(b)]) > 1:
                z = x * y + 1
                ctx.raises(ValueError, lambda: z / y, 'an inexact quotient', x=a, y=b)
                ctx.hit('refused')
    else:
        ctx.raises((AssertionError, ValueError, ZeroDivisionError), lambda: x / y, 'a division by zero', x=a)
        ctx.hit('refused')


@SUITE.scenario('substitution', quick=16000, thorough=160000)
def substitution(ctx, rng, i):
    a, b = random_lp(rng), random_lp(rng)
    ctx.describe(x=a, at=b)
    x = lpoly(a, rng)
    if max(map(abs, a), default=0) <= 60:
        for q in (Fraction(2, 3), Fraction(-5), Fraction(1, 7)):
            ctx.eq(Fraction(x.evaluate(q)), lp.evaluate_at(a, q), 'evaluation', x=a, at=q)
        if min(a, default=0) >= 0:
            ctx.eq(x.evaluate(3), lp.evaluate_at(a, 3), 'evaluation', x=a, at=3)
        if a:
            # At a unit of the ring.
            e, c = rng.choice((0, 1, -1, 2, -3)), rng.choice((1, -1))
            want = {}
            for k, d in a.items():
                want = lp.add(want, {e * k: d * c ** (k % 2)})
            ctx.eq(lp.of(x.evaluate(LPoly(e, (c,)))), want, 'substitution of a unit', x=a, e=e, c=c)
        ctx.hit('substitution')
    if a and min(a) >= 0 and max(a) <= 6 and len(b) <= 5:
        want = {}
        for k, d in a.items():
            want = lp.add(want, lp.mul({0: d}, lp.power(b, k)))
        ctx.eq(lp.of(x.evaluate(lpoly(b, rng))), want, 'substitution', x=a, at=b)
    if min(a, default=0) < 0 and not (len(b) == 1 and set(b.values()) <= {1, -1}):
        ctx.raises((ValueError, ZeroDivisionError), lambda: x.evaluate(lpoly(b)), 'substitution of a non-unit into negative powers', x=a, at=b)


@SUITE.scenario('printed', quick=12000, thorough=80000)
def printed(ctx, rng, i):
    a = random_lp(rng)
    x = lpoly(a, rng)
    ctx.eq(repr(x), f"LPoly('{text(a)}')", 'printed form', x=a)
    ctx.eq(x.fmt(), text(a), 'printed form', x=a)
    ctx.eq(x.fmt(mode='latex'), text(a, True), 'LaTeX form', x=a)
    ctx.hit('printed')


@SUITE.scenario('quantum', quick=40, thorough=400)
def quantum(ctx, rng, i):
    for n in (i, -i):
        q = LPoly.quantum_integer(n)
        s = 1 if n > 0 else -1
        got(ctx, q, {e: s for e in range(-abs(n) + 1, abs(n), 2)}, 'quantum integer', n=n)
        # [n] (v - 1/v) = v^n - v^-n.
        got(ctx, q * LPoly(-1, (-1, 0, 1)), lp.add({n: 1}, {-n: -1}), 'quantum integer', n=n)


@SUITE.scenario('refused', quick=3200, thorough=20000)
def refused(ctx, rng, i):
    x = lpoly(random_lp(rng))
    for bad in ('v', None, [1], (0, (1,)), {}):
        ctx.raises(TypeError, lambda: x + bad, 'a sum with something else', bad=bad)
        ctx.raises(TypeError, lambda: bad + x, 'a sum with something else', bad=bad)
        ctx.raises(TypeError, lambda: x * bad, 'a product with something else', bad=bad)
        ctx.raises(TypeError, lambda: x - bad, 'a difference with something else', bad=bad)
        ctx.raises((ValueError, TypeError), lambda: LPoly.coerce(bad), 'coercion of something else', bad=bad)
        ctx.check(x != bad, 'equal to something else', bad=bad)
    ctx.hit('refused', 5)


def long_lp(rng):
    """Long, far from zero, with wide gaps or huge coefficients."""
    m = rng.randrange(6)
    lo = rng.choice((0, 0, -7, 1, -1)) * log_size(rng, 1, 10**6)
    if m == 0:
        return lp.norm({lo + k: rng.randint(-9, 9) for k in range(log_size(rng, 10, 300))})
    if m == 1:
        gap = log_size(rng, 50, 20000)
        return {lo: rng.choice((1, -1, 3)), lo + gap: rng.choice((1, -1, 5))}
    if m == 2:
        bits = log_size(rng, 30, 2000)
        return lp.norm({lo + k: rng.randint(-2**bits, 2**bits) for k in range(rng.randint(1, 6))})
    if m == 3:
        return {lo: rng.choice((1, -1))}
    if m == 4:
        # Near the limits of machine words and of floats.
        bits = rng.choice((15, 16, 31, 32, 53, 54, 62, 63, 64, 127, 128))
        return lp.norm({lo + k: rng.choice((1, -1)) * (2**bits + rng.randint(-1, 1)) for k in range(rng.randint(1, 6))})
    return {k: 1 - 2 * (k % 2) for k in range(-log_size(rng, 5, 200), 5)}


@SUITE.scenario('large', quick=800, thorough=16000)
def large(ctx, rng, i):
    a, b = long_lp(rng), long_lp(rng)
    if rng.random() < .6:
        # At comparable places.
        shift = min(a) - min(b) + rng.randint(-50, 50)
        b = {k + shift: c for k, c in b.items()}
    if rng.random() < .1:
        # All but one term cancels.
        b = lp.add(lp.neg(a), {rng.choice(list(a)): 1})
    near = abs(min(a) - min(b, default=0)) < 50000
    ctx.describe(x=text(a)[:3000], y=text(b)[:3000])
    x, y = lpoly(a), lpoly(b, rng)
    zeros = log_size(rng, 10, 3000)
    padded = LPoly(x.val - zeros, (0,) * zeros + x.coeffs + (0,) * rng.randint(0, 300))
    got(ctx, padded, a, 'construction from many zeros')
    got(ctx, LPoly(-zeros, [0] * zeros), {}, 'construction from zeros only')
    if near:
        got(ctx, x + y, lp.add(a, b), 'sum')
        got(ctx, y + padded, lp.add(a, b), 'sum')
        got(ctx, x - y, lp.sub(a, b), 'difference')
        if abs(min(a)) < 50000:
            got(ctx, x + 7, lp.add(a, {0: 7}), 'sum with an integer')
            got(ctx, 7 - x, lp.sub({0: 7}, a), 'difference from an integer')
    wide = lambda d: max(d, default=0) - min(d, default=0)
    if len(a) * len(b) <= 20000 and (len(x.coeffs) + 1) * (len(y.coeffs) + 1) < 10**6:
        product = lp.mul(a, b)
        z = x * y
        got(ctx, z, product, 'product')
        ctx.hit('operations')
        if b and (wide(product) + 2) * (wide(b) + 2) < 60000:
            got(ctx, z / y, a, 'exact quotient')
            ctx.hit('division')
            if wide(b) > 0:
                ctx.raises(ValueError, lambda: (z + LPoly(min(product) + rng.randint(0, wide(product)), (1,))) / y, 'an inexact quotient')
    got(ctx, -x, lp.neg(a), 'negative')
    got(ctx, x.map(lambda c: c // 3), lp.norm({e: c // 3 for e, c in a.items()}), 'map')
    ctx.eq(x == y, a == b, 'equality')
    # Powers.
    if len(a) == 1:
        (e, c), = a.items()
        k = log_size(rng, 5, 3000)
        if abs(c) < 10:
            got(ctx, x ** k, {e * k: c ** k}, f'power {k}')
        if abs(c) == 1:
            got(ctx, x ** -k, {-e * k: c ** (k % 2)}, f'power {-k}')
    else:
        e, f = rng.randint(-3, 3), rng.randint(-3, 3)
        if e != f:
            k = log_size(rng, 10, 130)
            c, d = rng.choice((1, -1, 2)), rng.choice((1, -3))
            want = {}
            for j in range(k + 1):
                want = lp.add(want, {e * j + f * (k - j): math.comb(k, j) * c ** j * d ** (k - j)})
            got(ctx, lpoly({e: c, f: d}) ** k, want, f'power {k}')
    # Values.
    if max(map(abs, a)) <= 3000:
        for q in (Fraction(-2, 3), 2):
            if q != 2 or min(a) >= 0:
                ctx.eq(Fraction(x.evaluate(q)), lp.evaluate_at(a, q), 'evaluation', at=q)
        e, c = rng.choice((1, -1, 2, -3)), rng.choice((1, -1))
        got(ctx, x.evaluate(LPoly(e, (c,))), {e * k: d * c ** (k % 2) for k, d in a.items()}, 'substitution of a unit', e=e, c=c)
        ctx.hit('substitution')
    ctx.eq(repr(x), f"LPoly('{text(a)}')", 'printed form')
    ctx.eq((x.fmt(), x.fmt(mode='latex')), (text(a), text(a, True)), 'printed form')
    n = log_size(rng, 30, 3000)
    ctx.check(LPoly.quantum_integer(n) == LPoly(1 - n, ([1, 0] * n)[:-1]), 'quantum integer', n=n)
    ctx.check(LPoly.quantum_integer(-n) == LPoly(1 - n, ([-1, 0] * n)[:-1]), 'quantum integer', n=-n)
    if len(a) > 1 and len(b) > 1:
        ctx.distinct((sorted(a.items()), sorted(b.items())))
