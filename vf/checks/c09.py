import itertools

from peyl import tl
from peyl.tl import TLDiag, TLMor

from ..core import Suite
from ..lib import *
from ..model import tlm as MT
from .c08 import random_seq

SUITE = Suite('C09',
    'Random linear combinations of diagrams (up to 8 points a side, many terms, cancelling coefficients) are added, scaled, multiplied, raised to powers and flipped, and compared with bilinear extensions of union-find gluing over dictionary polynomials with loop value v + 1/v. The Temperley-Lieb relations are evaluated for all generators up to 9 strands. Non-trivial: at least two terms.',
    require={'products': 1000, 'loops': 300, 'sums': 1000, 'flips': 1000, 'powers': 200, 'relations': 200, 'refused': 500, 'cancelled': 100})

LOOP = {1: 1, -1: 1}


def random_lpoly(rng, big=False):
    m = rng.randrange(6)
    if m == 0:
        return {rng.randint(-3, 3): rng.choice((1, -1))}
    if m == 1:
        return {}
    if m == 2:
        return lp.const(rng.choice((1, 2, -1, 5)))
    c = 10**rng.choice((1, 1, 1, 25)) if big else 4
    return lp.norm({rng.randint(-4, 4): rng.randint(-c, c) for _ in range(rng.randint(1, 4))})


def lpoly(d, rng=None):
    """The LPoly with these coefficients, sometimes padded."""
    lo, hi = (min(d), max(d)) if d else (0, -1)
    a, b = (rng.randint(0, 2), rng.randint(0, 2)) if rng else (0, 0)
    return LPoly(lo - a, [d.get(k, 0) for k in range(lo - a, hi + b + 1)])


def random_mor(rng, top, bot):
    """A morphism as {diagram pairs: polynomial}, and the real one."""
    model = {}
    for _ in range(rng.choice((0, 1, 1, 2, 3, 5, 8))):
        d = MT.of(TLDiag(top, bot, random_seq(rng, top + bot)))
        model[d] = random_lpoly(rng, big=True)
    real = TLMor(top, bot, {TLDiag(top, bot, MT.to_seq(*d)): lpoly(c, rng) for d, c in model.items()})
    return clean(model), real


def clean(model):
    return {d: c for d, c in model.items() if c}


def read(ctx, mor, top, bot, what):
    ctx.check(type(mor) is TLMor and (mor.top, mor.bot) == (top, bot), f'{what}: wrong type or shape')
    out = {}
    for d, c in mor.terms.items():
        ctx.check((d.top, d.bot) == (top, bot), f'{what}: diagram of another shape')
        c = lp.of_exact(c) if isinstance(c, LPoly) else ctx.fail(f'{what}: coefficient {c!r}')
        ctx.check(c != {}, f'{what}: a zero term survives')
        out[MT.of(d)] = c
    return out


def madd(a, b):
    return clean({d: lp.add(a.get(d, {}), b.get(d, {})) for d in {**a, **b}})


def mscale(a, c):
    return clean({d: lp.mul(x, c) for d, x in a.items()})


def mmul(a, b, ctx=None):
    out = {}
    for (x, c), (y, d) in itertools.product(a.items(), b.items()):
        z, loops = MT.glue(x, y)
        out[z] = lp.add(out.get(z, {}), lp.mul(lp.mul(c, d), lp.power(LOOP, loops)))
        if ctx and loops:
            ctx.hit('loops')
    return clean(out)


def mpow(a, n, k):
    out = {MT.ident(n): {0: 1}}
    for _ in range(k):
        out = mmul(out, a)
    return out


def shape(rng, cap=6):
    a, b, c = (rng.randint(0, cap) for _ in range(3))
    return a + (a + b) % 2, b, c + (b + c) % 2


def expect(ctx, mor, model, top, bot, what, /, **kw):
    got = read(ctx, mor, top, bot, what)
    ctx.check(got == model, f'{what}: {got} instead of {model}', **kw)
    same = TLMor(top, bot, {TLDiag(top, bot, MT.to_seq(*d)): lpoly(c) for d, c in reversed(list(model.items()))})
    ctx.check(mor == same and not (mor != same), f'{what}: equal morphisms compare unequal', **kw)
    ctx.eq(mor.is_zero(), not model, f'{what}: is_zero', **kw)


@SUITE.scenario('linear', quick=24000, thorough=200000)
def linear(ctx, rng, i):
    t, b, _ = shape(rng)
    (m1, x), (m2, y) = random_mor(rng, t, b), random_mor(rng, t, b)
    if rng.random() < 0.3:
        # Make terms cancel.
        drop = {d: c for d, c in m1.items() if rng.random() < 0.7}
        m2 = {**{d: c for d, c in m2.items() if d not in drop}, **{d: lp.neg(c) for d, c in drop.items()}}
        y = TLMor(t, b, {TLDiag(t, b, MT.to_seq(*d)): lpoly(c, rng) for d, c in m2.items()})
        ctx.hit('cancelled', bool(drop))
    before = read(ctx, x, t, b, 'x'), read(ctx, y, t, b, 'y')
    ctx.describe(x=m1, y=m2)
    expect(ctx, x, m1, t, b, 'construction')
    expect(ctx, x + y, madd(m1, m2), t, b, 'sum')
    expect(ctx, y + x, madd(m1, m2), t, b, 'sum')
    expect(ctx, x - y, madd(m1, mscale(m2, {0: -1})), t, b, 'difference')
    expect(ctx, -x, mscale(m1, {0: -1}), t, b, 'negative')
    expect(ctx, x - x, {}, t, b, 'difference with itself')
    expect(ctx, x + x, mscale(m1, {0: 2}), t, b, 'sum with itself')
    if t == b and len(m1) < 6 and i % 2:
        expect(ctx, x * x, mmul(m1, m1), t, t, 'product with itself', x=m1)
    c = random_lpoly(rng)
    k = rng.choice((0, 1, -1, 7, 10**20))
    for scalar, val in ((lpoly(c, rng), c), (k, lp.const(k))):
        expect(ctx, x * scalar, mscale(m1, val), t, b, 'scalar multiple', scalar=scalar)
        expect(ctx, scalar * x, mscale(m1, val), t, b, 'scalar multiple', scalar=scalar)
        if t == b:
            expect(ctx, x + scalar, madd(m1, clean({MT.ident(t): val})), t, b, 'sum with a scalar', scalar=scalar)
            expect(ctx, x - scalar, madd(m1, clean({MT.ident(t): lp.neg(val)})), t, b, 'difference with a scalar', scalar=scalar)
        else:
            ctx.raises(ValueError, lambda: x + scalar, 'a scalar added to a non-endomorphism')
    ctx.eq(x == y, m1 == m2, 'equality', x=x, y=y)
    for d in {**m1, **m2}:
        diag = TLDiag(t, b, MT.to_seq(*d))
        ctx.eq(lp.of(x.coefficient(diag)), m1.get(d, {}), 'coefficient')
    ctx.eq({MT.of(d) for d in x.support()}, set(m1), 'support')
    ctx.eq({MT.of(d): lp.of(c) for d, c in x.pairs()}, m1, 'pairs')
    for flag in (True, False, None):
        f = x.flip() if flag is None else x.flip(twist_v=flag)
        want = {MT.mirror(d): (c if flag is False else {-e: a for e, a in c.items()}) for d, c in m1.items()}
        expect(ctx, f, want, b, t, f'flip twist_v={flag}')
        ctx.hit('flips')
    s = rng.randint(0, 6)
    expect(ctx, x.quotient(s), {d: c for d, c in m1.items() if MT.through(d) >= s}, t, b, f'quotient by fewer than {s} strands')
    if t == b:
        want = {}
        for d, c in m1.items():
            want = lp.add(want, lp.mul(c, lp.power(LOOP, MT.closure_loops(d))))
        ctx.eq(lp.of(x.trace()), want, 'trace', x=m1)
    ctx.check((read(ctx, x, t, b, 'x'), read(ctx, y, t, b, 'y')) == before, 'an operand changed')
    ctx.hit('sums')
    if len(m1) > 1 and len(m2) > 1:
        ctx.distinct((i, t, b))


@SUITE.scenario('products', quick=16000, thorough=160000)
def products(ctx, rng, i):
    t, m, b = shape(rng, rng.choice((3, 5, 7)))
    (m1, x), (m2, y) = random_mor(rng, t, m), random_mor(rng, m, b)
    ctx.describe(x=m1, y=m2)
    expect(ctx, x * y, mmul(m1, m2, ctx), t, b, 'product', x=m1, y=m2)
    expect(ctx, x * TLMor.id(m), m1, t, m, 'product with the identity')
    expect(ctx, TLMor.id(t) * x, m1, t, m, 'product with the identity')
    d = TLDiag(m, b, random_seq(rng, m + b))
    expect(ctx, x * d, mmul(m1, {MT.of(d): {0: 1}}), t, b, 'product with a diagram')
    expect(ctx, TLMor.from_tldiag(d), {MT.of(d): {0: 1}}, m, b, 'from_tldiag')
    # The flip reverses products.
    expect(ctx, (x * y).flip(), {MT.mirror(z): {-e: a for e, a in c.items()} for z, c in mmul(m1, m2).items()}, b, t, 'flip of a product')
    ctx.check((x * y).flip() == y.flip() * x.flip() and (x * y).flip(False) == y.flip(False) * x.flip(False), 'flip of a product')
    ctx.hit('products')
    if len(m1) > 1 and len(m2) > 1:
        ctx.distinct((i, t, m, b))
        ctx.sample(x=m1, y=m2)


@SUITE.scenario('powers', quick=1600, thorough=16000)
def powers(ctx, rng, i):
    n = rng.randint(0, 4)
    m, x = random_mor(rng, n, n)
    k = rng.choice((0, 1, 2, 3, 4, 5))
    ctx.describe(x=m, k=k)
    expect(ctx, x ** k, mpow(m, n, k), n, n, f'power {k}', x=m)
    ctx.raises(ValueError, lambda: x ** -1, 'a negative power')
    ctx.hit('powers')


@SUITE.scenario('relations', quick=10, thorough=14)
def relations(ctx, rng, i):
    n = i
    es = [TLMor.e(k, n) for k in range(n - 1)]
    delta = LPoly(-1, (1, 0, 1))
    for k, x in enumerate(es):
        expect(ctx, x, {MT.e(k, n): {0: 1}}, n, n, 'generator')
        ctx.check(x * x == x * delta == delta * x, 'e e = (v + 1/v) e', n=n, k=k)
        for l, y in enumerate(es):
            if abs(k - l) == 1:
                ctx.check(x * y * x == x, 'e e\' e = e', n=n, k=k, l=l)
            elif k != l:
                ctx.check(x * y == y * x, 'far generators commute', n=n, k=k, l=l)
            ctx.hit('relations')
    expect(ctx, TLMor.id(n), {MT.ident(n): {0: 1}}, n, n, 'identity')
    for b in range(0, 5):
        if (n + b) % 2 == 0:
            got = [read(ctx, x, n, b, 'basis') for x in TLMor.basis(n, b)]
            want = [{MT.of(TLDiag(n, b, s)): {0: 1}} for s in MT.matchings(n + b)] if n + b <= 14 else None
            ctx.check(want is None or len(got) == len(want) and all(w in got for w in want), 'basis', n=n, b=b)
    # Braid relations of the generators 1 - v e.
    v = LPoly(1, (1,))
    s = [TLMor.id(n) - v * x for x in es]
    for k in range(n - 2):
        ctx.check(s[k] * s[k + 1] * s[k] == s[k + 1] * s[k] * s[k + 1], 'braid relation', n=n, k=k)
        ctx.hit('relations')
    for k in (-1, n - 1, n):
        ctx.raises((AssertionError, ValueError, IndexError), lambda: TLMor.e(k, n), 'a generator out of range')


@SUITE.scenario('refused', quick=4800, thorough=40000)
def refused(ctx, rng, i):
    t, m, b = shape(rng)
    _, x = random_mor(rng, t, m)
    for t2, m2 in ((t + 2, m), (t, m + 2), (t + 1, m + 1), (m, t)):
        if (t2, m2) == (t, m):
            continue
        _, y = random_mor(rng, t2, m2)
        ctx.raises(ValueError, lambda: x + y, 'a sum of different shapes')
        ctx.raises(ValueError, lambda: x - y, 'a difference of different shapes')
        ctx.raises(ValueError, lambda: TLMor(t, m, {TLDiag(t2, m2, random_seq(rng, t2 + m2)): LPoly(0, (1,))}), 'a diagram of another shape')
        ctx.raises(ValueError, lambda: x.coefficient(TLDiag(t2, m2, random_seq(rng, t2 + m2))), 'the coefficient of a diagram of another shape')
        if t2 != m:
            ctx.raises(ValueError, lambda: x * y, 'a product of incompatible shapes')
        ctx.check(x != y or x.is_zero() and y.is_zero(), 'morphisms of different shapes compare equal')
        ctx.hit('refused')
    if t != m:
        ctx.raises(ValueError, lambda: x ** 2, 'a power of a non-endomorphism')
    ctx.raises(TypeError, lambda: x * 'a', 'a product with a string')
    ctx.raises(TypeError, lambda: x + 'a', 'a sum with a string')


def long_lpoly(rng):
    """Long, far from zero, sparse, or with huge coefficients."""
    m = rng.randrange(4)
    if m == 0:
        lo = rng.choice((-1, 1)) * log_size(rng, 10, 3000)
        return lp.norm({lo + k: rng.randint(-9, 9) for k in range(rng.randint(1, 5))})
    if m == 1:
        lo = rng.randint(-60, 20)
        return lp.norm({lo + k: rng.randint(-99, 99) for k in range(log_size(rng, 8, 100))})
    if m == 2:
        return {rng.randint(-40, 40): rng.choice((-1, 1)) * rng.randrange(1, 2 ** log_size(rng, 30, 400))}
    return {rng.randint(-4, 4): rng.choice((1, -1, 3))}


@SUITE.scenario('large', quick=400, thorough=6000)
def large(ctx, rng, i):
    """Many terms, many strands with many loops, long coefficients and high powers."""
    kind = i % 4

    def combine(top, bot, terms):
        model = {}
        for _ in range(terms):
            model[MT.of(TLDiag(top, bot, random_seq(rng, top + bot)))] = long_lpoly(rng) if rng.random() < .3 else random_lpoly(rng)
        return clean(model), TLMor(top, bot, {TLDiag(top, bot, MT.to_seq(*d)): lpoly(c, rng) for d, c in model.items()})
    if kind == 0:
        # Many terms.
        n = rng.choice((5, 6, 7, 8))
        (m1, x), (m2, y) = combine(n, n, log_size(rng, 8, 160)), combine(n, n, log_size(rng, 8, 160))
        expect(ctx, x + y, madd(m1, m2), n, n, 'sum of many terms')
        expect(ctx, x - y, madd(m1, mscale(m2, {0: -1})), n, n, 'difference of many terms')
        (m3, z) = combine(n, n, rng.randint(1, 5))
        expect(ctx, x * z, mmul(m1, m3, ctx), n, n, 'product with many terms')
        expect(ctx, z * x, mmul(m3, m1, ctx), n, n, 'product with many terms')
        expect(ctx, x.flip(), {MT.mirror(d): {-e: a for e, a in c.items()} for d, c in m1.items()}, n, n, 'flip of many terms')
        ctx.hit('sums')
        ctx.hit('products')
    elif kind == 1:
        # Many strands, and as many loops as there can be.
        n = log_size(rng, 8, 60)
        t = rng.choice((0, 0, 2, 4))
        d = TLDiag(t, 2 * n, random_seq(rng, 2 * n + t))
        e = TLDiag(2 * n, 0, random_seq(rng, 2 * n))
        if t == 0 and rng.random() < .7:
            e = d.flip()
        c1, c2 = long_lpoly(rng) or {0: 1}, random_lpoly(rng)
        x = TLMor(d.top, 2 * n, {d: lpoly(c1, rng)})
        y = TLMor(2 * n, 0, {e: lpoly(c2, rng)})
        expect(ctx, x * y, mmul(clean({MT.of(d): c1}), clean({MT.of(e): c2}), ctx), d.top, 0, 'product with many loops', x=d, y=e)
        expect(ctx, y * TLMor.id(0), clean({MT.of(e): c2}), 2 * n, 0, 'product with the identity')
        expect(ctx, y.flip(False), clean({MT.mirror(MT.of(e)): c2}), 0, 2 * n, 'flip')
        z = TLDiag(n, n, random_seq(rng, 2 * n)) if rng.random() < .6 else TLDiag.id(n)
        got = TLMor(n, n, {z: lpoly(c1)}).trace()
        ctx.eq(lp.of(got), lp.mul(c1, lp.power(LOOP, MT.closure_loops(MT.of(z)))), 'trace', z=z)
        ctx.eq(TLMor.from_tldiag(z).quotient(MT.through(MT.of(z))).is_zero(), False, 'quotient', z=z)
        ctx.eq(TLMor.from_tldiag(z).quotient(MT.through(MT.of(z)) + 1).is_zero(), True, 'quotient', z=z)
        ctx.hit('products')
    elif kind == 2:
        # Long coefficients.
        t, b, _ = shape(rng, 4)
        (m1, x), (m2, y) = combine(t, b, rng.randint(1, 4)), combine(t, b, rng.randint(1, 4))
        c = long_lpoly(rng)
        expect(ctx, x + y, madd(m1, m2), t, b, 'sum')
        expect(ctx, x * lpoly(c), mscale(m1, c), t, b, 'scalar multiple')
        expect(ctx, lpoly(c) * x, mscale(m1, c), t, b, 'scalar multiple')
        for flag in (True, False):
            expect(ctx, x.flip(flag), {MT.mirror(d): (c if flag is False else {-e: a for e, a in c.items()}) for d, c in m1.items()}, b, t, f'flip twist_v={flag}')
        (m3, z) = combine(b, b, 2)
        expect(ctx, x * z, mmul(m1, m3, ctx), t, b, 'product')
        ctx.hit('flips')
    else:
        # High powers.
        n = rng.randint(1, 6)
        k = log_size(rng, 6, 60)
        if rng.random() < .5:
            d = MT.of(TLDiag(n, n, random_seq(rng, 2 * n)))
            c = rng.choice(({0: 1}, {1: -1}, {0: 2}, {-2: 1, 0: 1}))
            m = {d: c}
        else:
            n = rng.randint(2, 3)
            m = {MT.ident(n): {0: 1}, MT.e(rng.randrange(n - 1), n): {rng.choice((1, -1)): -1}}
        if i % 5 == 0:
            # All generators at once, whose powers have a hundred terms and more.
            n, k = rng.choice((5, 6)), rng.randint(4, 8)
            m = {MT.e(s, n): {0: 1} if rng.random() < .7 else {rng.choice((1, -1)): -1} for s in range(n - 1)}
            if rng.random() < .5:
                m[MT.ident(n)] = {rng.randint(-1, 1): 1}
            ctx.hit('wide powers')
        x = TLMor(n, n, {TLDiag(n, n, MT.to_seq(*d)): lpoly(c, rng) for d, c in m.items()})
        expect(ctx, x ** k, mpow(m, n, k), n, n, f'power {k}', x=m)
        ctx.hit('powers')
    ctx.distinct((i, kind))
