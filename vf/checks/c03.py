from ..core import Suite
from ..lib import *

SUITE = Suite('C03',
    'Words with arbitrary integer exponents, all permutations and all noncrossing partitions of small n, and random braids are pushed through every conversion; the braid each object or word represents (read independently) must stay the same under Dynnikov coordinates, and round trips must return equal objects. Non-trivial: not the identity.',
    assumptions=['Dynnikov coordinates are a complete invariant of braids.'],
    require={'to_dual': 300, 'to_garside': 300, 'words': 1000, 'magma': 300, 'lifts': 100, 'bands': 50, 'negative_power': 200, 'sizes': 35, 'huge': 60})


def magma_to_word(seq):
    return tuple((abs(x) - 1, 1 if x > 0 else -1) for x in seq)


def good_word(ctx, n, word, what, **kw):
    word = tuple(word)
    ctx.check(all(len(x) == 2 and 0 <= x[0] < n - 1 and isinstance(x[1], int) for x in word), f'{what}: not a word in the generators', word=word, **kw)
    return word


def convert_case(ctx, rng, kind, n, b=None):
    b = random_braid(rng, kind, n) if b is None else b
    key = key_of(b)
    ctx.describe(kind=kind, n=n, b=b)
    ctx.sample(kind=kind, n=n, b=b)
    if b.factors or b.inf():
        ctx.distinct((kind, n, b))
    if b.inf() < 0:
        ctx.hit('negative_power')
    if kind == 'GNF':
        c, other = b.to_DGNF(), 'DGNF'
        expect_braid(ctx, c, other, n, key, 'to dual form', b=b)
        ctx.hit('to_dual')
        ctx.check(c.to_GNF() == b, 'round trip through the dual form', b=b, c=c)
    else:
        c, other = b.to_GNF(), 'GNF'
        expect_braid(ctx, c, other, n, key, 'to Garside form', b=b)
        ctx.hit('to_garside')
        ctx.check(c.to_DGNF() == b, 'round trip through the Garside form', b=b, c=c)
    word = good_word(ctx, n, b.artin_word(), 'Artin word', b=b)
    ctx.check(MB.key(n, word) == key, 'Artin word of another braid', b=b, word=word)
    ctx.check(KINDS[kind].from_artin_word(n, word) == b, 'Artin word round trip', b=b)
    magma = list(b.magma_artin_word())
    ctx.check(all(isinstance(x, int) and 1 <= abs(x) <= n - 1 for x in magma), 'Magma word out of range', b=b, magma=magma)
    ctx.check(MB.key(n, magma_to_word(magma)) == key, 'Magma word of another braid', b=b, magma=magma)
    ctx.hit('magma')
    if kind == 'GNF':
        power, factors = b.canonical_decomposition()
        ctx.check(BraidGroup(n).from_gnf_pair((power, [tuple(f.word) for f in factors])) == b, 'pair round trip', b=b)
        ctx.check(b.garside_length() == b.canonical_length(), 'garside_length')
    power, factors = b.canonical_decomposition()
    ctx.check(list(b.canonical_factors()) == list(factors), 'canonical_factors', b=b)
    for k in range(-len(factors), len(factors)):
        ctx.check(b.canonical_factor(k) == factors[k], 'canonical_factor', b=b, k=k)
    i, j = sorted((rng.randint(0, len(factors)), rng.randint(0, len(factors))))
    sub = b.substring(i, j)
    ctx.check(sub.canonical_factors() == tuple(factors[i:j]) and sub.inf() == power, 'substring', b=b, i=i, j=j, sub=sub)


def word_case(ctx, rng, kind, n):
    word = random_word(rng, n, random_length(rng))
    if rng.random() < 0.3:
        word = tuple((i, e * rng.choice((1, 2, 3, -1, 0))) for i, e in word)
    ctx.describe(kind=kind, n=n, word=word)
    b = KINDS[kind].from_artin_word(n, list(word) if rng.random() < 0.5 else iter(word))
    expect_braid(ctx, b, kind, n, MB.key(n, word), 'braid of a word', word=word)
    ctx.hit('words')
    return b


@SUITE.scenario('small', quick=12000, thorough=400000)
def small(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    n = rng.choice((2, 2, 3, 3, 4, 4, 4, 5))
    word_case(ctx, rng, kind, n)
    convert_case(ctx, rng, kind, n)


@SUITE.scenario('b5_b6', quick=900, thorough=40000, workers=3)
def b5_b6(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    n = rng.choice((5, 6, 6))
    word_case(ctx, rng, kind, n)
    convert_case(ctx, rng, kind, n)


@SUITE.scenario('sizes', quick=240, thorough=10000)
def sizes(ctx, rng, i):
    """Hundreds of factors, large exponents, and Garside powers beyond every machine word."""
    kind = rng.choice(('GNF', 'DGNF'))
    n = rng.choice((2, 3, 3, 4, 4, 5))
    cls = KINDS[kind]
    b = long_braid(rng, kind, n, log_size(rng, 1, 250))
    convert_case(ctx, rng, kind, n, b)
    # Words of large Garside powers are long, but known.
    power = rng.choice((1, -1)) * log_size(rng, 1, 3000 if i % 8 else 30000)
    rest = list(type(b)(n, 0, b.factors).artin_word())
    ctx.describe(kind=kind, n=n, b=b, power=power)
    c = cls(n, power, b.factors)
    for word in (list(c.artin_word()), list(magma_to_word(c.magma_artin_word()))):
        word = [(s, 1 if e > 0 else -1) for s, e in word for _ in range(abs(e))]
        rest1 = sum(abs(e) for _, e in rest)
        head, tail = word[:len(word) - rest1], word[len(word) - rest1:]
        total = sum(e for _, e in head)
        size = len(garside_word(kind, n))
        ctx.check(total == power * size and len(head) == abs(total), 'word of a Garside power: wrong length', total=total, power=power)
        step = size * period(kind, n)
        full = MB.key(n, MP.power_word(MP.delta_word(n), 2 if power > 0 else -2))
        ctx.check(all(head[k:k + step] == head[:step] for k in range(0, len(head) - step + 1, step)) and (len(head) < step or MB.key(n, head[:step]) == full) or MB.key(n, head) == MB.key(n, MP.power_word(garside_word(kind, n), power)),
                  'word of a Garside power: another braid', power=power)
        ctx.check(MB.key(n, tail) == MB.key(n, rest), 'word of a braid with a Garside power', b=b, power=power)
    # Conversion of huge powers.
    turns = many_turns(rng)
    d = turned(b, turns).to_DGNF() if kind == 'GNF' else turned(b, turns).to_GNF()
    expect_turned(ctx, d, 'DGNF' if kind == 'GNF' else 'GNF', n, word_of(b), turns, 'conversion of a huge power', b=b)
    # Words with large exponents.
    word = [(rng.randrange(n - 1), rng.choice((1, -1)) * log_size(rng, 1, 150)) for _ in range(rng.randint(1, 4))]
    ctx.describe(kind=kind, n=n, word=word)
    expect_braid(ctx, cls.from_artin_word(n, word), kind, n, MB.key(n, word), 'word with large exponents', word=word)
    ctx.hit('sizes', b.canonical_length() >= 30)
    ctx.hit('huge', abs(turns) > 2**31)


def garside_powers(ctx, rng, i):
    """Garside powers of every residue, alone and with one factor, in both structures."""
    for kind in ('GNF', 'DGNF'):
        for n in (2, 3, 4, 5):
            cls = KINDS[kind]
            for power in range(-2 * n - 2, 2 * n + 3):
                if (power + n) % 8 != i % 8:
                    continue
                convert_case(ctx, rng, kind, n, cls(n, power, ()))
                if n > 2:
                    convert_case(ctx, rng, kind, n, cls(n, power, cls.sample(n, rng.randint(1, 3), rng).factors))


SUITE.scenario('garside_powers', quick=16, thorough=160)(garside_powers)


def all_simple(n_values):
    def body(ctx, rng, i):
        """Every permutation and every noncrossing partition, through every lift."""
        for n in n_values:
            B = BraidGroup(n)
            for k, x in enumerate(itertools_permutations(n)):
                if k % 24 != i % 24:
                    continue
                p, key = Permutation(x), MB.key(n, MP.lift_word(x))
                ctx.describe(n=n, perm=x)
                expect_braid(ctx, B.positive_lift(p), 'GNF', n, key, 'positive lift', perm=x)
                expect_braid(ctx, GNF.from_perm(p), 'GNF', n, key, 'from_perm', perm=x)
                expect_braid(ctx, GNF.from_perm_seq(n, [p]), 'GNF', n, key, 'from_perm_seq', perm=x)
                expect_braid(ctx, B.from_gnf_pair((0, [x])), 'GNF', n, key, 'from_gnf_pair', perm=x)
                e = rng.choice((-3, -2, -1, 1, 2, 5))
                expect_braid(ctx, B.from_gnf_pair((e, [x, x])), 'GNF', n, MB.key(n, MP.power_word(MP.delta_word(n), e) + MP.lift_word(x) * 2), 'from_gnf_pair', perm=x, power=e)
                word = good_word(ctx, n, p.artin_word(), 'Artin word of a permutation')
                ctx.check(MB.key(n, word) == key, 'Artin word of a permutation', perm=x, word=word)
                convert_case(ctx, rng, 'GNF', n, GNF.from_perm(p))
                ctx.hit('lifts')
            for k, blocks in enumerate(MP.noncrossing_partitions(n)):
                if k % 24 != i % 24:
                    continue
                q, key = NPar.from_components(n, blocks), MB.key(n, MP.partition_word(blocks))
                ctx.describe(n=n, blocks=blocks)
                expect_braid(ctx, B.from_npar(q), 'DGNF', n, key, 'lift of a partition', blocks=blocks)
                expect_braid(ctx, DGNF.from_npar(q), 'DGNF', n, key, 'from_npar', blocks=blocks)
                expect_braid(ctx, DGNF.from_npar_seq(n, (q,)), 'DGNF', n, key, 'from_npar_seq', blocks=blocks)
                word = good_word(ctx, n, q.artin_word(), 'Artin word of a partition')
                ctx.check(MB.key(n, word) == key, 'Artin word of a partition', blocks=blocks, word=word)
                convert_case(ctx, rng, 'DGNF', n, DGNF.from_npar(q))
                ctx.hit('lifts')
            if i % 24 == n:
                generators(ctx, n)
    return body


def itertools_permutations(n):
    import itertools
    return itertools.permutations(range(n))


def generators(ctx, n):
    B = BraidGroup(n)
    for kind in ('GNF', 'DGNF'):
        gens = KINDS[kind].artin_gens(n)
        ctx.check(len(gens) == n - 1, 'number of Artin generators', n=n)
        for s, g in enumerate(gens):
            expect_braid(ctx, g, kind, n, MB.key(n, ((s, 1),)), 'Artin generator', s=s)
    ctx.check(len(B.gens()) == n - 1 and len(B.invs()) == n - 1, 'number of generators', n=n)
    for s in range(n - 1):
        expect_braid(ctx, B.gens()[s], 'GNF', n, MB.key(n, ((s, 1),)), 'generator', s=s)
        expect_braid(ctx, B.invs()[s], 'GNF', n, MB.key(n, ((s, -1),)), 'inverse generator', s=s)
    expect_braid(ctx, B.id(), 'GNF', n, MB.key(n, ()), 'identity')
    for bands in (B.bkl_gens(), DGNF.bkl_gens(n)):
        ctx.check(set(bands) == {(a, b) for a in range(n) for b in range(n)}, 'keys of the band generators', n=n, keys=sorted(bands))
        for (a, b), g in bands.items():
            word = () if a == b else MP.a_word(min(a, b), max(a, b))
            expect_braid(ctx, g, 'DGNF', n, MB.key(n, word), 'band generator', a=a, b=b)
            ctx.hit('bands')


SUITE.scenario('all_simple', quick=24, thorough=24)(all_simple((2, 3, 4, 5)))
SUITE.scenario('all_simple_b6', quick=24, thorough=24, workers=3)(all_simple((6,)))


@SUITE.scenario('dual_b7', quick=0, thorough=3000, workers=1, timeout=900)
def dual_b7(ctx, rng, i):
    n = 7
    b = word_case(ctx, rng, 'DGNF', n)
    ctx.check(DGNF.from_artin_word(n, b.artin_word()) == b, 'Artin word round trip', b=b)


@SUITE.scenario('sequences', quick=2000, thorough=80000)
def sequences(ctx, rng, i):
    n = rng.choice((2, 3, 4, 5))
    length = rng.choice((0, 1, 2, 3, 5, 9))
    power = rng.choice((0, 0, 1, -1, -2, 3, -5))
    perms = []
    for _ in range(length):
        x = list(range(n))
        rng.shuffle(x)
        perms.append(rng.choice((tuple(x), tuple(x), MP.ident(n), MP.w0(n))))
    word = sum((MP.lift_word(p) for p in perms), ())
    ctx.describe(n=n, power=power, perms=perms)
    expect_braid(ctx, GNF.from_perm_seq(n, [Permutation(p) for p in perms]), 'GNF', n, MB.key(n, word), 'from_perm_seq')
    expect_braid(ctx, BraidGroup(n).from_gnf_pair((power, perms)), 'GNF', n, MB.key(n, MP.power_word(MP.delta_word(n), power) + word), 'from_gnf_pair')
    every = MP.noncrossing_partitions(n)
    blocks = [rng.choice((rng.choice(every), rng.choice(every), (tuple(range(n)),))) for _ in range(length)]
    ctx.describe(n=n, blocks=blocks)
    expect_braid(ctx, DGNF.from_npar_seq(n, [NPar.from_components(n, x) for x in blocks]), 'DGNF', n, MB.key(n, sum((MP.partition_word(x) for x in blocks), ())), 'from_npar_seq')
    ctx.distinct((n, tuple(perms), tuple(blocks)))
