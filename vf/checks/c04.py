import functools
import itertools

from ..core import Suite
from ..lib import *

SUITE = Suite('C04',
    'Whole enumerations (all lengths with up to a few ten thousand members, both kinds, several powers; for three strands up to twelve factors), the first members of enumerations with hundreds of factors, and the descendants and suffixes of random braids are compared as multisets with sequences produced from the left-weighted condition on permutations or partitions; counts, up to lengths of thousands, are compared with powers of the compatibility matrix computed independently. Samples are checked for validity and support. Wide numbers of strands are sampled for the support of each place. Non-trivial: length at least one.',
    assumptions=['Left-weightedness of adjacent factors characterises normal forms.'],
    require={'enumerations': 60, 'members': 5000, 'extensions': 200, 'counts': 100, 'samples': 2000, 'support': 4, 'long support': 10, 'wide support': 8, 'long extensions': 100})


@functools.lru_cache(maxsize=None)
def simples(kind, n):
    """Proper simple braids as permutations, and which may follow which."""
    if kind == 'GNF':
        every = list(itertools.permutations(range(n)))
        top = MP.w0(n)
    else:
        every = [MP.partition_perm(n, b) for b in MP.noncrossing_partitions(n)]
        top = MP.partition_perm(n, (tuple(range(n)),))
    return [x for x in every if x != MP.ident(n) and x != top]


@functools.lru_cache(maxsize=None)
def follow(kind, n, x):
    if x is None:
        return tuple(simples(kind, n))
    if kind == 'GNF':
        return tuple(y for y in simples(kind, n) if MP.left_weighted(x, y))
    return tuple(y for y in simples(kind, n) if MP.dual_left_weighted(n, x, y))


def forms(kind, n, length, last=None):
    if length == 0:
        yield ()
        return
    for x in follow(kind, n, last):
        for rest in forms(kind, n, length - 1, x):
            yield (x,) + rest


def count_forms(kind, n, length, last=None):
    if length == 0:
        return 1
    counts = {x: 1 for x in follow(kind, n, last)}
    for _ in range(length - 1):
        new = {}
        for x, c in counts.items():
            for y in follow(kind, n, x):
                new[y] = new.get(y, 0) + c
        counts = new
    return sum(counts.values())


def shown(b):
    return tuple(factor_perm(f) for f in b.canonical_factors())


def compare(ctx, braids, kind, n, power, want, what, /, **kw):
    got = []
    for b in braids:
        ctx.check(type(b) is KINDS[kind] and b.n == n and b.inf() == power, f'{what}: wrong kind, strands or power: {b!r}', **kw)
        got.append(shown(b))
        ctx.hit('members')
    ctx.check(len(got) == len(set(got)), f'{what}: repeated', **kw)
    want = set(want)
    ctx.check(set(got) == want, f'{what}: missing {list(want - set(got))[:2]}, extra {list(set(got) - want)[:2]}', **kw)
    return len(got)


GRID = [(kind, n, length) for kind in ('GNF', 'DGNF') for n in (2, 3, 4, 5) for length in range(0, 9)
        if (kind, n) != ('GNF', 5) or length <= 2 if (kind, n) != ('DGNF', 5) or length <= 4 if n != 4 or length <= (4 if kind == 'GNF' else 6)]


@SUITE.scenario('enumerate', quick=len(GRID), thorough=len(GRID) * 4)
def enumerate_all(ctx, rng, i):
    kind, n, length = GRID[i % len(GRID)]
    cls = KINDS[kind]
    power = rng.choice((0, 1, -1, 2, -3, 7))
    ctx.describe(kind=kind, n=n, length=length, power=power)
    want = list(forms(kind, n, length))
    total = compare(ctx, cls.all_of_length(n, length, power=power), kind, n, power, want, 'all of length')
    compare(ctx, cls.all_of_length(n, length), kind, n, 0, want, 'all of length')
    ctx.check(cls.count_all_of_length(n, length) == total == count_forms(kind, n, length), 'count of a length', kind=kind, n=n, length=length)
    if kind == 'GNF':
        B = BraidGroup(n)
        compare(ctx, B.all_of_garside_length(length, power), kind, n, power, want, 'all of Garside length')
        compare(ctx, B.all_of_garside_length(length), kind, n, 0, want, 'all of Garside length')
        ctx.check(B.count_all_of_garside_length(length) == total, 'count of a Garside length')
    if length:
        ctx.distinct((kind, n, length, power))
    ctx.sample(kind=kind, n=n, length=length, members=total)
    ctx.hit('enumerations')


@SUITE.scenario('enumerate_b6', quick=4, thorough=8, workers=2)
def enumerate_b6(ctx, rng, i):
    kind, n, length = [('GNF', 6, 1), ('DGNF', 6, 1), ('DGNF', 6, 2), ('GNF', 6, 0)][i % 4]
    power = rng.choice((0, 3, -2))
    compare(ctx, KINDS[kind].all_of_length(n, length, power), kind, n, power, forms(kind, n, length), 'all of length')
    ctx.check(KINDS[kind].count_all_of_length(n, length) == count_forms(kind, n, length), 'count')
    ctx.distinct((kind, n, length, power))
    ctx.hit('enumerations')
    # Interleaved iteration of two enumerations must not disturb either.


@SUITE.scenario('enumerate long', quick=48, thorough=400)
def enumerate_long(ctx, rng, i):
    """Many factors: kept braids stay what they were while the enumeration goes on, all of them for three strands, the first ones and the distinct ones for more."""
    kind = ('GNF', 'DGNF')[i % 2]
    cls, power = KINDS[kind], rng.choice((0, 1, -1, 2, -3, 7))
    if i % 4 < 2:
        n, length = 3, 5 + i // 4 % 8
        want = list(forms(kind, n, length))
        kept = list(cls.all_of_length(n, length, power))
        compare(ctx, kept, kind, n, power, want, 'all of a long length', length=length)
        if length <= 9:
            b = random_braid(rng, kind, n, length=rng.choice((0, 1, 3)))
            last = shown(b)[-1] if b.canonical_length() else None
            compare(ctx, list(b.nf_suffixes(length)), kind, n, 0, forms(kind, n, length, last), 'long suffixes', b=b, length=length)
    else:
        n, length = rng.choice((3, 4, 5, 6) if kind == 'DGNF' else (3, 4, 5)), log_size(rng, 5, 400)
        size = min(400, 3000 // length + 10)
        kept = list(itertools.islice(cls.all_of_length(n, length, power), size))
        ctx.check(len(kept) == min(size, count_forms(kind, n, length)) == len({b.factors for b in kept}), 'repeated', kind=kind, n=n, length=length)
    ctx.describe(kind=kind, n=n, length=length)
    for b in kept:
        ctx.check(type(b.factors) is tuple and b.canonical_length() == length and b.inf() == power and hash(b) == hash(cls(n, power, b.factors)), 'a braid of the wrong kind', b=b)
    for b in kept if len(kept) < 60 else rng.sample(kept, 60):
        ctx.check(normal_form_problem(b) is None, 'not in normal form', b=b)
    ctx.distinct((kind, n, length, power))
    ctx.hit('enumerations')


@SUITE.scenario('counts', quick=160, thorough=640)
def counts(ctx, rng, i):
    kind, n = [(k, m) for k in ('GNF', 'DGNF') for m in (2, 3, 4, 5)][i % 8]
    length = rng.choice((0, 1, 2, 3, 4, 5, 7, 10, 20, 60, 200))
    if n in (3, 4) and rng.random() < .6:
        length = log_size(rng, 200, 6000 if n == 3 else 2500)
    ctx.describe(kind=kind, n=n, length=length)
    ctx.eq(KINDS[kind].count_all_of_length(n, length), count_forms(kind, n, length), 'count', kind=kind, n=n, length=length)
    ctx.distinct((kind, n, length))
    ctx.hit('counts')


@SUITE.scenario('extensions', quick=1600, thorough=60000)
def extensions(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    n = rng.choice((2, 3, 3, 4, 4, 5))
    b = random_braid(rng, kind, n, length=rng.choice((0, 1, 2, 4, 7)))
    factors = shown(b)
    last = factors[-1] if factors else None
    length = rng.choice((0, 1, 1, 2, 3) if n <= 3 else (0, 1, 2) if n == 4 else (0, 1))
    ctx.describe(b=b, length=length)
    ctx.distinct((kind, n, b, length))
    ctx.sample(b=b, length=length)
    suffixes = list(b.nf_suffixes(length))
    compare(ctx, suffixes, kind, n, 0, forms(kind, n, length, last), 'suffixes', b=b)
    for s in suffixes if len(suffixes) < 40 else rng.sample(suffixes, 40):
        c = b * s
        ctx.check(c.inf() == b.inf() and shown(c) == factors + shown(s), 'a suffix cancels', b=b, s=s)
    compare(ctx, b.nf_descendants(), kind, n, b.inf(), [factors + (x,) for x in follow(kind, n, last)], 'descendants', b=b)
    ctx.hit('extensions')


@SUITE.scenario('extensions_b6', quick=60, thorough=2000, workers=2)
def extensions_b6(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    b = random_braid(rng, kind, 6, length=rng.choice((0, 1, 2, 4, 7)))
    factors = shown(b)
    last = factors[-1] if factors else None
    ctx.describe(b=b)
    compare(ctx, b.nf_suffixes(1), kind, 6, 0, forms(kind, 6, 1, last), 'suffixes', b=b)
    compare(ctx, b.nf_descendants(), kind, 6, b.inf(), [factors + (x,) for x in follow(kind, 6, last)], 'descendants', b=b)
    ctx.hit('extensions')


@SUITE.scenario('interleaved', quick=80, thorough=2000)
def interleaved(ctx, rng, i):
    """Several enumerations advanced alternately do not disturb one another."""
    specs = [(rng.choice(('GNF', 'DGNF')), rng.choice((3, 4)), rng.randint(1, 2)) for _ in range(3)]
    its = [(s, iter(KINDS[s[0]].all_of_length(s[1], s[2])), []) for s in specs]
    live = list(its)
    while live:
        k = rng.randrange(len(live))
        try:
            live[k][2].append(next(live[k][1]))
        except StopIteration:
            live.pop(k)
    for (kind, n, length), _, got in its:
        compare(ctx, got, kind, n, 0, forms(kind, n, length), 'interleaved enumeration')


@SUITE.scenario('samples', quick=6000, thorough=200000)
def samples(ctx, rng, i):
    kind, n = rng.choice(('GNF', 'DGNF')), rng.choice((3, 4, 5))
    length = rng.choice((0, 1, 2, 3, 10, 40))
    seed = rng.random()
    b = KINDS[kind].sample(n, length, random.Random(seed)) if rng.random() < 0.7 else KINDS[kind].sample(n, length)
    if kind == 'GNF' and rng.random() < 0.4:
        b = BraidGroup(n).sample_braid_perm(length, rand=random.Random(seed))
    ctx.check(type(b) is KINDS[kind] and b.n == n and b.inf() == 0 and b.canonical_length() == length, 'sample of the wrong length, power or kind', b=b, length=length)
    ctx.check(normal_form_problem(b) is None, 'sample not in normal form', b=b)
    ctx.hit('samples')
    if length:
        ctx.distinct((kind, n, b))


@SUITE.scenario('support', quick=6, thorough=12)
def support(ctx, rng, i):
    """Every braid of a length can be sampled: the number of draws makes a miss astronomically unlikely."""
    kind, n, length = [('GNF', 3, 1), ('GNF', 3, 3), ('DGNF', 3, 2), ('DGNF', 4, 1), ('GNF', 4, 1), ('DGNF', 4, 2)][i % 6]
    want = set(forms(kind, n, length))
    # With k choices per step each form has probability at least 1/maxchoices^length.
    most = max(len(follow(kind, n, x)) for x in [None] + simples(kind, n)) ** length
    draws = most * 40
    source = random.Random(rng.random())
    got = {shown(KINDS[kind].sample(n, length, source)) for _ in range(draws)}
    ctx.check(got <= want, 'sampled something that is not a normal form')
    ctx.check(got == want, 'some braids are never sampled', kind=kind, n=n, length=length, missing=list(want - got)[:3], draws=draws)
    ctx.hit('support')


@SUITE.scenario('wide support', quick=8, thorough=40)
def wide_support(ctx, rng, i):
    """The same with more strands: every factor comes first, and every pair of factors that may be neighbours among those with few neighbours."""
    kind, n = [('GNF', 5), ('DGNF', 5), ('DGNF', 6), ('GNF', 5)][i % 4]
    cls, source = KINDS[kind], random.Random(rng.random())
    every = follow(kind, n, None)
    seen, after = {}, {}
    draws = 40 * len(every)
    for _ in range(draws):
        b = cls.sample(n, 2, source)
        x, y = shown(b)
        seen[x] = seen.get(x, 0) + 1
        after.setdefault(x, set()).add(y)
    ctx.check(set(seen) == set(every), 'some factors never come first', kind=kind, n=n, missing=[x for x in every if x not in seen][:3], draws=draws)
    for x, got in after.items():
        want = follow(kind, n, x)
        ctx.check(got <= set(want), 'a sample that is no normal form', x=x)
        # Each of them is missed with probability exp(-seen / want): only where that is astronomically small.
        if seen[x] > 30 * len(want):
            ctx.check(got == set(want), 'some pairs are never sampled', kind=kind, n=n, first=x, missing=[y for y in want if y not in got][:3])
            ctx.hit('pairs seen')
    # Deep neighbours of one braid with many: a long sample has them in its middle.
    ctx.hit('wide support')


@SUITE.scenario('long support', quick=18, thorough=180)
def long_support(ctx, rng, i):
    """At every place of long samples, every factor may follow every factor it may follow."""
    kind, n = [('GNF', 3), ('DGNF', 3), ('DGNF', 4)][i % 3]
    length = log_size(rng, 100, 500)
    pairs = sum(len(follow(kind, n, x)) for x in simples(kind, n))
    source = random.Random(rng.random())
    seen = {}
    # Where every step is drawn uniformly, a pair of factors of three strands is met with probability 1/8 or more at any place, a factor of four
    # strands with 1/150: those are asked for among twelve places each, at each of which some half of them are met.
    cls = KINDS[kind]
    draws = 400 if n == 3 else 1500
    for _ in range(draws):
        b = cls.sample(n, length, source)
        ctx.check(b.canonical_length() == length and b.inf() == 0, 'sample of the wrong length or power')
        for k, (x, y) in enumerate(zip(b.factors, b.factors[1:])):
            seen.setdefault(k, set()).add((x, y) if n == 3 else y)
    one = {x.factors[0] for x in cls.all_of_length(n, 1)}
    for k, got in seen.items():
        if n == 3:
            ctx.check(len(got) == pairs, f'place {k + 1} of long samples: {len(got)} possibilities seen', kind=kind, n=n, length=length, of=pairs)
        else:
            ctx.check(len(got) >= len(one) // 2, f'place {k + 1} of long samples: {len(got)} possibilities seen', kind=kind, n=n, length=length, of=len(one))
            near = set().union(*(seen[j] for j in range(min(k, len(seen) - 12), min(k, len(seen) - 12) + 12)))
            ctx.check(len(near) == len(one), f'places near {k + 1} of long samples: {len(near)} possibilities seen', kind=kind, n=n, length=length, of=len(one))
    ctx.hit('long support')


@SUITE.scenario('long extensions', quick=160, thorough=3000)
def long_extensions(ctx, rng, i):
    kind = rng.choice(('GNF', 'DGNF'))
    n = rng.choice((3, 4, 4, 5))
    b = turned(long_braid(rng, kind, n, log_size(rng, 8, 300)), many_turns(rng))
    factors = shown(b)
    last = factors[-1] if factors else None
    ctx.describe(b=b)
    for length in 0, 1, 2 if n < 5 else 1:
        compare(ctx, b.nf_suffixes(length), kind, n, 0, forms(kind, n, length, last), 'suffixes', b=b)
    compare(ctx, b.nf_descendants(), kind, n, b.inf(), [factors + (x,) for x in follow(kind, n, last)], 'descendants', b=b)
    # Long suffixes of it, the first ones.
    size = log_size(rng, 10, 300)
    for s in itertools.islice(b.nf_suffixes(size), 3):
        ctx.check(s.canonical_length() == size and s.inf() == 0, 'suffix of the wrong length', b=b)
        ctx.check(normal_form_problem(s) is None and (last is None or shown(s)[0] in follow(kind, n, last)), 'suffix that cancels', b=b, s=s)
    ctx.hit('long extensions')


@SUITE.scenario('empty', quick=4, thorough=4)
def empty(ctx, rng, i):
    """B_2 has no proper simple braids: one form of length zero, none longer."""
    for kind in ('GNF', 'DGNF'):
        ctx.eq(len(list(KINDS[kind].all_of_length(2, 0))), 1, 'B_2, length 0')
        for length in (1, 2, 5):
            ctx.eq(len(list(KINDS[kind].all_of_length(2, length))), 0, 'B_2, positive length')
            ctx.eq(KINDS[kind].count_all_of_length(2, length), 0, 'B_2 count')
        ctx.raises(Exception, lambda: KINDS[kind].sample(2, 1, rng), 'B_2 has no braid of length one')
