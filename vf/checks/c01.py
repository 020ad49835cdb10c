from ..core import Suite
from ..lib import *

SUITE = Suite('C01',
    'Pairs of braids (up to 400 factors, Garside powers of up to 40 digits, powers of periodic braids with exponents of up to 40 digits) are built from random words of nine textures, sampled normal forms and Garside powers. Powers of the Garside element alone, of every size around the period, multiply braids of both kinds; a case is non-trivial when an operand has at least one factor or nonzero power. The braid a result represents is read from its canonical decomposition and compared with the word product through Dynnikov coordinates.',
    assumptions=['Dynnikov coordinates are a complete invariant of braids (cross-checked against the Artin action on free groups).',
                 'The canonical decomposition shown by a braid is taken as its meaning.'],
    require={'product': 2000, 'inverse': 500, 'power': 500, 'cancelled': 50, 'product.negative_power': 300, 'selfcheck': 50, 'sizes': 200, 'periodic': 400, 'garside powers': 2000})


def kind_and_n(rng, ns_g, ns_d):
    kind = rng.choice(('GNF', 'DGNF'))
    return kind, rng.choice(ns_g if kind == 'GNF' else ns_d)


def product_case(ctx, rng, kind, n):
    a, b = random_braid(rng, kind, n), random_braid(rng, kind, n)
    r = rng.random()
    if r < 0.12:
        b = a.inv() if rng.random() < 0.5 else KINDS[kind](n, b.inf(), b.factors) * a.inv()
    elif r < 0.2:
        # Almost the inverse: long cascades of cancellation.
        b = a.inv() * KINDS[kind].from_artin_word(n, random_word(rng, n, 2, 'mixed'))
    ka, kb = word_of(a), word_of(b)
    ctx.describe(kind=kind, n=n, a=a, b=b)
    ctx.distinct((kind, n, a, b))
    ctx.sample(kind=kind, n=n, a=a, b=b)
    c = a * b
    expect_braid(ctx, c, kind, n, MB.key(n, ka + kb), 'product')
    ctx.hit('product')
    ctx.hit(f'product.{kind}{n}')
    if b.inf() < 0:
        ctx.hit('product.negative_power')
    if c.canonical_length() < max(a.canonical_length(), b.canonical_length()):
        ctx.hit('cancelled')
    # Inverses and powers.
    i = a.inv()
    expect_braid(ctx, i, kind, n, MB.key(n, MP.inverse_word(ka)), 'inverse')
    ctx.hit('inverse')
    one = KINDS[kind].identity(n)
    expect_braid(ctx, one, kind, n, MB.key(n, ()), 'identity')
    for x, y, z in ((a, i, one), (i, a, one), (a, one, a), (one, a, a), (b.inv(), a.inv(), c.inv())):
        expect_braid(ctx, x * y, kind, n, key_of(z), 'group law')
    small = b if b.canonical_length() <= 8 else KINDS[kind].from_artin_word(n, random_word(rng, n, rng.randint(0, 6)))
    e = rng.choice((-9, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 11))
    ctx.describe(kind=kind, n=n, base=small, exponent=e)
    expect_braid(ctx, small ** e, kind, n, MB.key(n, MP.power_word(word_of(small), e)), 'power', base=small, exponent=e)
    ctx.hit('power')


@SUITE.scenario('small_groups', quick=24000, thorough=600000)
def small_groups(ctx, rng, i):
    kind, n = kind_and_n(rng, (2, 3, 3, 4, 4, 4), (2, 3, 4, 4, 5))
    product_case(ctx, rng, kind, n)


@SUITE.scenario('large_groups', quick=3000, thorough=120000, workers=4)
def large_groups(ctx, rng, i):
    kind, n = kind_and_n(rng, (5,), (5, 6, 6))
    product_case(ctx, rng, kind, n)


@SUITE.scenario('b6', quick=600, thorough=40000, workers=2)
def b6(ctx, rng, i):
    product_case(ctx, rng, 'GNF', 6)


@SUITE.scenario('dual_b7', quick=400, thorough=40000, workers=2)
def dual_b7(ctx, rng, i):
    product_case(ctx, rng, 'DGNF', 7)


@SUITE.scenario('dual_b8', quick=0, thorough=4000, workers=1, timeout=1500)
def dual_b8(ctx, rng, i):
    product_case(ctx, rng, 'DGNF', 8)


@SUITE.scenario('long_products', quick=1600, thorough=60000)
def long_products(ctx, rng, i):
    """Products accumulated over many steps, as a search does, with the braid tracked alongside as a word."""
    kind, n = kind_and_n(rng, (3, 4, 5), (3, 4, 5))
    cls = KINDS[kind]
    acc, word = cls.identity(n), ()
    for step in range(rng.randint(5, 25)):
        b = random_braid(rng, kind, n, length=rng.randint(0, 6))
        if rng.random() < 0.5:
            acc, word = acc * b, word + word_of(b)
        elif rng.random() < 0.5:
            acc, word = b * acc, word_of(b) + word
        else:
            acc, word = acc.inv(), MP.inverse_word(word)
        ctx.hit('accumulated')
    ctx.distinct((kind, n, acc))
    expect_braid(ctx, acc, kind, n, MB.key(n, word), 'accumulated product')


@SUITE.scenario('all_short_products', quick=16, thorough=16)
def all_short_products(ctx, rng, i):
    """Every pair of factors, with every small Garside power on either side, in the small groups."""
    for kind, n in (('GNF', 3), ('DGNF', 3), ('DGNF', 4), ('GNF', 4)):
        cls = KINDS[kind]
        ones = list(cls.all_of_length(n, 1))
        for k, x in enumerate(ones):
            if k % 16 != i:
                continue
            for y in ones:
                d, e = rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)
                a, b = cls(n, d, x.factors), cls(n, e, y.factors)
                ctx.describe(a=a, b=b)
                expect_braid(ctx, a * b, kind, n, MB.key(n, word_of(a) + word_of(b)), 'product of factors')
                expect_braid(ctx, a.inv(), kind, n, MB.key(n, MP.inverse_word(word_of(a))), 'inverse of factor')
                ctx.distinct((a, b))
                ctx.hit('factor_pairs')


@SUITE.scenario('garside powers', quick=320, thorough=6000)
def garside_powers(ctx, rng, i):
    """A braid beside every power of the Garside element over several periods, and conjugated by it."""
    kind, n = kind_and_n(rng, (2, 3, 3, 4, 4, 5), (2, 3, 4, 4, 5, 5))
    cls = KINDS[kind]
    a = random_braid(rng, kind, n, length=rng.choice((0, 1, 1, 2, 3, 5)))
    word, delta = word_of(a), garside_word(kind, n)
    bound = 2 * period(kind, n) + 2
    ctx.describe(kind=kind, n=n, a=a)
    for d in range(-bound, bound + 1):
        D, w = cls(n, d, ()), MP.power_word(delta, d)
        expect_braid(ctx, a * D, kind, n, MB.key(n, word + w), 'product with a Garside power', a=a, power=d)
        expect_braid(ctx, D * a, kind, n, MB.key(n, w + word), 'product with a Garside power', a=a, power=d)
        expect_braid(ctx, (D * a).inv(), kind, n, MB.key(n, MP.inverse_word(w + word)), 'inverse', a=a, power=d)
        ctx.hit('garside powers')
    ctx.distinct((kind, n, a))


@SUITE.scenario('sizes', quick=480, thorough=20000)
def sizes(ctx, rng, i):
    """Hundreds of factors, and Garside powers beyond every machine word."""
    kind, n = kind_and_n(rng, (2, 3, 3, 4, 4, 5), (2, 3, 4, 4, 5))
    cls = KINDS[kind]
    a, b = (long_braid(rng, kind, n, log_size(rng, 1, 400)) for _ in range(2))
    if rng.random() < .4:
        # All but a few factors cancel, or all but a few do not.
        b = a.inv() * cls.from_artin_word(n, random_word(rng, n, rng.randint(0, 5))) if rng.random() < .5 else cls.from_artin_word(n, random_word(rng, n, rng.randint(0, 5)))
        if rng.random() < .5:
            a, b = b, a
    s, t = many_turns(rng), many_turns(rng)
    word_a, word_b = word_of(a), word_of(b)
    a, b = turned(a, s), turned(b, t)
    ctx.describe(kind=kind, n=n, a=a, b=b)
    c = a * b
    expect_turned(ctx, c, kind, n, word_a + word_b, s + t, 'product', a=a, b=b)
    inverse = a.inv()
    expect_turned(ctx, inverse, kind, n, MP.inverse_word(word_a), -s, 'inverse', a=a)
    ctx.check(a * inverse == cls.identity(n) == inverse * a, 'the inverse does not cancel', a=a)
    ctx.hit('sizes', c.canonical_length() >= 30 or abs(c.inf()) > 2**31)
    ctx.distinct((kind, n, a, b))
    # Powers of short braids, and of periodic ones, which return to the full twist.
    short = cls.from_artin_word(n, random_word(rng, n, rng.randint(1, 4)))
    e = rng.choice((1, -1)) * log_size(rng, 1, 80)
    expect_turned(ctx, turned(short, s) ** e, kind, n, MP.power_word(word_of(short), e), s * e, 'power', base=short, exponent=e)
    w = random_word(rng, n, rng.randint(0, 4))
    p, m = rng.choice(((MP.delta_word(n), 2), (MP.small_delta_word(n), n), (MP.small_delta_word(n) + MP.small_delta_word(n)[:1], n - 1)))
    if MB.key(n, MP.power_word(p, m)) != MB.key(n, MP.power_word(MP.delta_word(n), 2)):
        p, m = MP.small_delta_word(n) + MP.small_delta_word(n)[-1:], n - 1
    word = w + p + MP.inverse_word(w)
    e = rng.choice((1, -1)) * rng.choice((rng.randint(0, 100), 2**rng.randint(5, 100), rng.randrange(10**rng.randint(2, 40))))
    if MB.key(n, MP.power_word(p, m)) == MB.key(n, MP.power_word(MP.delta_word(n), 2)):
        x = cls.from_artin_word(n, word)
        expect_turned(ctx, x ** e, kind, n, MP.power_word(word, e % m), e // m, 'power of a periodic braid', base=x, exponent=e)
        ctx.hit('periodic')


@SUITE.scenario('oracle_selfcheck', quick=80, thorough=2000)
def oracle_selfcheck(ctx, rng, i):
    """The oracle against a second one: Dynnikov coordinates against the free group action."""
    n = rng.randint(2, 5)
    w = random_word(rng, n, rng.randint(0, 6))
    v = perturb(rng, n, w, 3) if rng.random() < 0.5 else random_word(rng, n, rng.randint(0, 6))
    if sum(abs(e) for _, e in w + v) > 40:
        v = w = ((0, 1),)
    same = MB.key(n, w) == MB.key(n, v)
    if same != (MB.free_key(n, w) == MB.free_key(n, v)):
        raise SystemExit('oracle disagreement')
    ctx.hit('selfcheck')
