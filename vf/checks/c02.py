from ..core import Suite
from ..lib import *

SUITE = Suite('C02',
    'Words are rewritten by braid relations, free insertions and relators into other words for the same braid, or changed into a nearby different braid; every construction route (letter by letter products, whole words, factor sequences, inverses of inverses, conversions) must give equal objects exactly when Dynnikov coordinates agree. All factor sequences up to a small length are offered to the constructor. Non-trivial: the braid has at least one factor.',
    assumptions=['Dynnikov coordinates are a complete invariant of braids.',
                 'A decomposition whose factors are proper and whose adjacent pairs are left-weighted is the normal form (uniqueness theorem for Garside normal forms).'],
    require={'equal_pairs': 500, 'distinct_pairs': 500, 'rejected': 500, 'accepted': 200, 'extremal': 100, 'long': 40})


def routes(rng, kind, n, word):
    """The same word through different constructions."""
    cls = KINDS[kind]
    yield 'word', cls.from_artin_word(n, word)
    gens = cls.artin_gens(n)
    acc = cls.identity(n)
    for i, e in word:
        acc = acc * gens[i] ** e
    yield 'letters', acc
    k = rng.randint(0, len(word))
    yield 'split', cls.from_artin_word(n, word[:k]) * cls.from_artin_word(n, word[k:])
    yield 'doubleinv', cls.from_artin_word(n, word).inv().inv()
    yield 'invword', cls.from_artin_word(n, MP.inverse_word(word)).inv()
    other = KINDS['DGNF' if kind == 'GNF' else 'GNF'].from_artin_word(n, word)
    yield 'convert', other.to_GNF() if kind == 'GNF' else other.to_DGNF()
    b = cls.from_artin_word(n, word)
    d = rng.choice((-3, -1, 1, 2, n))
    yield 'shift', (b * cls(n, d, ())) * cls(n, -d, ())
    yield 'rebuild', cls(n, b.inf(), tuple(b.factors))
    if kind == 'GNF':
        power, factors = b.canonical_decomposition()
        yield 'perm_seq', cls(n, power, ()) * GNF.from_perm_seq(n, list(factors))
        yield 'pair', BraidGroup(n).from_gnf_pair((power, tuple(f.word for f in factors)))
    else:
        power, factors = b.canonical_decomposition()
        yield 'npar_seq', cls(n, power, ()) * DGNF.from_npar_seq(n, list(factors))


def same_case(ctx, rng, kind, n, length=None):
    word = random_word(rng, n, length if length is not None else random_length(rng))
    other = perturb(rng, n, word, rng.randint(1, 12))
    ka = MB.key(n, word)
    assert ka == MB.key(n, other)
    ctx.describe(kind=kind, n=n, word=word, other=other)
    ctx.sample(kind=kind, n=n, word=word)
    first = None
    for w in (word, other):
        for name, b in routes(rng, kind, n, w):
            expect_braid(ctx, b, kind, n, ka, name)
            if first is None:
                first = b
            ctx.check(b == first and not (b != first), f'{name}: equal braids compare unequal', a=first, b=b)
            ctx.check(hash(b) == hash(first), f'{name}: equal braids hash differently', a=first, b=b)
            ctx.check(b.inf() == first.inf() and b.sup() == first.sup(), f'{name}: inf/sup differ')
            ctx.hit('equal_pairs')
    ctx.check(len({first, KINDS[kind].from_artin_word(n, other)}) == 1, 'equal braids are distinct set members')
    if first.factors:
        ctx.distinct((kind, n, first))


def different_case(ctx, rng, kind, n):
    word = random_word(rng, n, random_length(rng))
    other = list(word)
    m = rng.randrange(4)
    if m == 0 or not other:
        other.insert(rng.randint(0, len(other)), (rng.randrange(n - 1), rng.choice((1, -1, n))))
    elif m == 1:
        k = rng.randrange(len(other))
        other[k] = (other[k][0], -other[k][1])
    elif m == 2:
        other = other + list(MP.power_word(garside_word(kind, n), rng.choice((1, -1, 2, -2, n, 2 * n))))
    else:
        rng.shuffle(other)
    ka, kb = MB.key(n, word), MB.key(n, other)
    ctx.describe(kind=kind, n=n, word=word, other=other)
    a, b = KINDS[kind].from_artin_word(n, word), KINDS[kind].from_artin_word(n, other)
    ctx.eq(a == b, ka == kb, 'equality of objects is not equality of braids', a=a, b=b)
    ctx.eq(a != b, ka != kb, 'inequality of objects is not inequality of braids', a=a, b=b)
    if ka != kb:
        ctx.hit('distinct_pairs')
        # Same factors, different Garside power: a different braid, whatever the power.
        c = KINDS[kind](n, a.inf() + rng.choice((1, 2, -1, -2, n, 2 * n)), a.factors)
        ctx.check(c != a and not (c == a), 'braids differing by a Garside power compare equal', a=a, c=c)
    m = rng.choice([x for x in (2, 3, 4, 5) if x != n])
    ctx.check(KINDS[kind](n, a.inf(), ()) != KINDS[kind](m, a.inf(), ()), 'powers of the Garside element of different groups compare equal')


@SUITE.scenario('same_small', quick=4000, thorough=150000)
def same_small(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    same_case(ctx, rng, kind, rng.choice((2, 3, 3, 4, 4, 5)))


@SUITE.scenario('same_long', quick=48, thorough=2000)
def same_long(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    same_case(ctx, rng, kind, rng.choice((3, 3, 4, 4, 5)), log_size(rng, 60, 240))
    ctx.hit('long')


@SUITE.scenario('different', quick=8000, thorough=300000)
def different(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    different_case(ctx, rng, kind, rng.choice((2, 3, 4, 4, 5)))


@SUITE.scenario('b6', quick=240, thorough=20000, workers=2)
def b6(ctx, rng, i):
    same_case(ctx, rng, rng.choice(('GNF', 'DGNF')), 6)
    different_case(ctx, rng, rng.choice(('GNF', 'DGNF')), 6)


@SUITE.scenario('dual_b7', quick=0, thorough=4000, workers=1)
def dual_b7(ctx, rng, i):
    n, word = 7, random_word(rng, 7, random_length(rng))
    b, c = DGNF.from_artin_word(n, word), DGNF.from_artin_word(n, perturb(rng, n, word, 10))
    expect_braid(ctx, b, 'DGNF', n, MB.key(n, word), 'word')
    ctx.check(b == c and hash(b) == hash(c), 'equal braids compare unequal', b=b, c=c)


def parts(cls, n):
    """Every divisor of the Garside element, with the index the constructor takes for it (or None)."""
    return {x.factors[0]: x.canonical_factors()[0] for x in cls.all_of_length(n, 1)}


@SUITE.scenario('constructor', quick=160, thorough=1600)
def constructor(ctx, rng, i):
    """Sequences of factors offered to the constructor: accepted exactly when they are in normal form."""
    kind, n = rng.choice((('GNF', 3), ('GNF', 4), ('DGNF', 3), ('DGNF', 4), ('DGNF', 5), ('GNF', 5)))
    cls = KINDS[kind]
    table = parts(cls, n)
    perms = {f: factor_perm(x) for f, x in table.items()}
    order = {'GNF': [1, 1, 2, 6, 24, 120], 'DGNF': [1, 1, 2, 5, 14, 42]}[kind][n]
    improper = [f for f in range(order) if f not in table] + [order, order + 7, -1, -2, -order]
    ctx.check(len(table) == order - 2, 'number of proper factors', kind=kind, n=n, got=len(table))
    weighted = (lambda x, y: MP.left_weighted(x, y)) if kind == 'GNF' else (lambda x, y: MP.dual_left_weighted(n, x, y))
    every = list(table)
    for _ in range(120):
        length = rng.choice((1, 2, 2, 3, 4, 7))
        if rng.random() < 0.5:
            # Mostly valid, with at most one spoiled place.
            seq = list(cls.sample(n, length, rng).factors)
            if rng.random() < 0.7:
                seq[rng.randrange(length)] = rng.choice(every + improper * 5)
        else:
            seq = [rng.choice(every + improper) for _ in range(length)]
        valid = all(f in table for f in seq) and all(weighted(perms[x], perms[y]) for x, y in zip(seq, seq[1:]))
        power = rng.choice((0, 1, -1, 5, -4))
        ctx.describe(kind=kind, n=n, power=power, factors=tuple(seq))
        ctx.distinct((kind, n, tuple(seq)))
        if valid:
            b = cls(n, power, tuple(seq))
            ctx.check(normal_form_problem(b) is None, 'accepted factors are shown differently', b=b)
            ctx.hit('accepted')
        else:
            ctx.raises(Exception, lambda: cls(n, power, tuple(seq)), 'factors not in normal form', kind=kind, n=n, seq=seq)
            ctx.hit('rejected')


@SUITE.scenario('factor_sequences', quick=1600, thorough=60000)
def factor_sequences(ctx, rng, i):
    """Arbitrary sequences of simple braids (identity and Garside element included) are normalised correctly."""
    n = rng.choice((2, 3, 4, 5))
    length = rng.choice((0, 1, 2, 3, 5, 9, 16))
    if rng.random() < 0.5:
        perms = []
        for _ in range(length):
            x = list(range(n))
            rng.shuffle(x)
            perms.append(rng.choice((tuple(x), tuple(x), tuple(x), MP.ident(n), MP.w0(n))))
        word = sum((MP.lift_word(p) for p in perms), ())
        ctx.describe(n=n, perms=perms)
        b, kind = GNF.from_perm_seq(n, [Permutation(p) for p in perms]), 'GNF'
    else:
        every = MP.noncrossing_partitions(n)
        blocks = [rng.choice((rng.choice(every), rng.choice(every), tuple((k,) for k in range(n)), (tuple(range(n)),))) for _ in range(length)]
        word = sum((MP.partition_word(x) for x in blocks), ())
        ctx.describe(n=n, blocks=blocks)
        b, kind = DGNF.from_npar_seq(n, [NPar.from_components(n, x) for x in blocks]), 'DGNF'
    expect_braid(ctx, b, kind, n, MB.key(n, word), 'sequence of simple braids')
    ctx.distinct((kind, n, b))




@SUITE.scenario('extremal', quick=480, thorough=12000)
def extremal(ctx, rng, i):
    """
    inf and sup against an independent bound: for random positive words of simple braids, inf is at least the
    number of Garside letters pulled out, sup at most the number of simple letters, and inf(b^-1) = -sup(b).
    """
    kind, n = rng.choice(('GNF', 'DGNF')), rng.choice((3, 4, 5))
    b = random_braid(rng, kind, n)
    c = b.inv()
    ctx.describe(kind=kind, n=n, b=b)
    ctx.check(c.inf() == -b.sup() and c.sup() == -b.inf(), 'inf and sup of the inverse', b=b, c=c)
    x, y = random_braid(rng, kind, n), b
    z = x * y
    ctx.check(z.inf() >= x.inf() + y.inf() and z.sup() <= x.sup() + y.sup(), 'inf/sup of a product out of bounds', x=x, y=y, z=z)
    ctx.check(z.sup() >= x.sup() + y.inf() and z.inf() <= x.inf() + y.sup(), 'inf/sup of a product out of bounds', x=x, y=y, z=z)
    # Exponent sum is determined by the form.
    total = sum(e for _, e in word_of(z))
    ctx.check(total == sum(e for _, e in word_of(x)) + sum(e for _, e in word_of(y)), 'exponent sum')
    ctx.hit('extremal')
