import itertools
import math

from peyl import noncrossing as N
from peyl import permutations as P
from peyl.noncrossing import NPar

from ..core import Suite
from ..lib import *

SUITE = Suite('C07',
    'All noncrossing partitions of up to 7 points (9 thorough) and random ones of up to 30 points go through every conversion and are compared with set partitions, descending-cycle permutations, braid words judged by Dynnikov coordinates, and complements multiplied out in the symmetric group and in the braid group. All set partitions of up to 6 points, and damaged components and involutions, are offered to the constructors, which must accept exactly the noncrossing ones. Non-trivial: not the finest partition.',
    assumptions=['Dynnikov coordinates are a complete invariant of braids.'],
    require={'partitions': 700, 'enumerated': 8, 'offered': 250, 'refused': 500, 'complements': 500, 'bands': 100})


def full(n, blocks):
    """With singletons, sorted."""
    used = {x for b in blocks for x in b}
    return tuple(sorted([tuple(sorted(b)) for b in blocks if b] + [(x,) for x in range(n) if x not in used]))


def one(ctx, n, blocks, npar, braids=True):
    """A noncrossing partition, given independently by its blocks."""
    ctx.describe(n=n, blocks=blocks)
    comps = [tuple(c) for c in npar.components()]
    ctx.check(npar.n == n and tuple(sorted(tuple(sorted(c)) for c in comps)) == blocks, f'components {comps}', n=n, blocks=blocks)
    edges = [tuple(sorted(e)) for e in npar.edges()]
    want = sorted(e for b in blocks for e in itertools.combinations(b, 2))
    ctx.eq(sorted(edges), want, 'edges', n=n, blocks=blocks)
    perm = npar.to_permutation()
    ctx.eq(tuple(perm.word), MP.partition_perm(n, blocks), 'permutation', n=n, blocks=blocks)
    ctx.check(NPar.from_permutation(perm) == npar, 'from_permutation', n=n, blocks=blocks)
    ctx.check(NPar.from_permutation(Permutation(MP.partition_perm(n, blocks))) == npar, 'from_permutation', n=n, blocks=blocks)
    ctx.check(NPar(n, tuple(npar.inv)) == npar and hash(NPar(n, tuple(npar.inv))) == hash(npar), 'rebuilding', n=n, blocks=blocks)
    ctx.hit('partitions')
    # Complements, in the symmetric group.
    left, right = npar.left_complement(), npar.right_complement()
    ctx.check(left.right_complement() == npar and right.left_complement() == npar, 'complements are not inverse', n=n, blocks=blocks)
    delta = MP.partition_perm(n, (tuple(range(n)),))
    x = MP.partition_perm(n, blocks)
    lx, rx = MP.partition_perm(n, blocks_of(left)), MP.partition_perm(n, blocks_of(right))
    ctx.eq((MP.mul(lx, x), MP.mul(x, rx)), (delta, delta), 'complements', n=n, blocks=blocks)
    ctx.check(MP.noncrossing(blocks_of(left)) and MP.noncrossing(blocks_of(right)), 'complements cross', n=n, blocks=blocks)
    ctx.hit('complements')
    if any(len(b) > 1 for b in blocks):
        ctx.distinct((n, blocks))
    if braids and n >= 2:
        key = MB.key(n, MP.partition_word(blocks))
        word = [tuple(l) for l in npar.artin_word()]
        ctx.check(all(0 <= i < n - 1 for i, _ in word), 'word out of range', word=word)
        ctx.eq(MB.key(n, word), key, f'the word {word} is another braid', n=n, blocks=blocks)
        d = MB.key(n, MP.small_delta_word(n))
        ctx.eq(MB.key(n, tuple(left.artin_word()) + tuple(word)), d, 'left complement braid', n=n, blocks=blocks)
        ctx.eq(MB.key(n, tuple(word) + tuple(right.artin_word())), d, 'right complement braid', n=n, blocks=blocks)


def constructed(ctx, rng, n, blocks):
    """The same partition through differently presented components."""
    parts = [list(b) for b in blocks if len(b) > 1 or rng.random() < 0.5]
    rng.shuffle(parts)
    for p in parts:
        rng.shuffle(p)
    first = NPar.from_components(n, blocks)
    forms = [parts, tuple(map(tuple, parts)), [set(p) for p in parts], [iter(p) for p in parts], (p for p in parts)]
    for f in forms:
        ctx.check(NPar.from_components(n, f) == first, 'another presentation of the components gives another partition', n=n, parts=parts)
    return first


def random_blocks(rng, n):
    """Random noncrossing partition by random nesting."""
    def split(points):
        if not points:
            return []
        k = rng.choice((0, 0, 1, 1, 2, 3, 5, rng.randint(0, n)))
        extra = sorted(rng.sample(range(1, len(points)), min(k, len(points) - 1)))
        cuts = [0] + extra + [len(points)]
        out = [tuple(points[c] for c in [0] + extra)]
        for a, b in zip(cuts, cuts[1:]):
            out += split(points[a + 1:b])
        return out
    blocks = tuple(sorted(split(tuple(range(n)))))
    assert MP.noncrossing(blocks) or n > 12
    return blocks


@SUITE.scenario('enumeration', quick=9, thorough=11)
def enumeration(ctx, rng, i):
    n = i
    got = [blocks_of(x) for x in NPar.all_of_size(n)]
    want = set(MP.noncrossing_partitions(n))
    if n <= 8:
        assert want == {p for p in MP.set_partitions(n) if MP.noncrossing(p)}
    ctx.check(len(got) == len(set(got)) and set(got) == want, 'all_of_size', n=n)
    ctx.eq(N.catalan(n), len(want), 'catalan', n=n)
    for k in range(i * 20, i * 20 + 20):
        ctx.eq(N.catalan(k), math.comb(2 * k, k) - math.comb(2 * k, k + 1), 'catalan', n=k)
    if n >= 1:
        ctx.check(blocks_of(NPar.finest(n)) == full(n, ()) and blocks_of(NPar.coarsest(n)) == (tuple(range(n)),), 'finest and coarsest', n=n)
    ctx.hit('enumerated')
    ctx.sample(n=n, count=len(got))


@SUITE.scenario('exhaustive', quick=32, thorough=64)
def exhaustive(ctx, rng, i):
    parts = 64 if ctx.thorough else 32
    for n in range(1, 10 if ctx.thorough else 8):
        for k, x in enumerate(NPar.all_of_size(n)):
            if k % parts == i:
                one(ctx, n, blocks_of(x), x)
                ctx.check(constructed(ctx, rng, n, blocks_of(x)) == x, 'from_components', n=n, blocks=blocks_of(x))


@SUITE.scenario('random', quick=12000, thorough=40000)
def random_partitions(ctx, rng, i):
    n = rng.choice((6, 8, 9, 10, 11, 12)) if i % 8 else rng.choice((15, 20, 30))
    blocks = random_blocks(rng, n)
    one(ctx, n, blocks, constructed(ctx, rng, n, blocks), braids=n <= 12)
    ctx.sample(n=n, blocks=blocks)


@SUITE.scenario('offered', quick=16, thorough=32)
def offered(ctx, rng, i):
    """Every set partition: accepted exactly when noncrossing."""
    k = -1
    parts = 32 if ctx.thorough else 16
    for n in range(0, 9 if ctx.thorough else 7):
        for blocks in MP.set_partitions(n):
            k += 1
            if k % parts != i:
                continue
            ctx.describe(n=n, blocks=blocks)
            if MP.noncrossing(blocks):
                ctx.check(blocks_of(NPar.from_components(n, blocks)) == blocks, 'from_components', n=n, blocks=blocks)
                ctx.check(blocks_of(NPar.from_permutation(Permutation(MP.partition_perm(n, blocks)))) == blocks, 'from_permutation', n=n, blocks=blocks)
            else:
                ctx.raises(ValueError, lambda: NPar.from_components(n, blocks), 'a crossing partition', blocks=blocks)
                ctx.raises(ValueError, lambda: NPar.from_permutation(Permutation(MP.partition_perm(n, blocks))), 'a crossing partition', blocks=blocks)
                ctx.hit('refused')
            ctx.hit('offered')


@SUITE.scenario('permutations', quick=16, thorough=32)
def permutations(ctx, rng, i):
    """from_permutation accepts exactly the parallel descending cycles."""
    parts = 32 if ctx.thorough else 16
    for n in range(0, 8 if ctx.thorough else 7):
        for k, x in enumerate(itertools.permutations(range(n))):
            if k % parts != i:
                continue
            ctx.describe(x=x)
            blocks = tuple(sorted(tuple(sorted(c)) for c in MP.cycles(x)))
            if MP.partition_perm(n, blocks) == x and MP.noncrossing(blocks):
                ctx.check(blocks_of(NPar.from_permutation(Permutation(x))) == blocks, 'from_permutation', x=x)
            else:
                ctx.raises(ValueError, lambda: NPar.from_permutation(Permutation(x)), 'a permutation which is no noncrossing partition', x=x)
                ctx.hit('refused')


@SUITE.scenario('damaged', quick=30000, thorough=60000)
def damaged(ctx, rng, i):
    n = rng.choice((2, 3, 4, 5, 6, 8, 12))
    blocks = [list(b) for b in random_blocks(rng, n)]
    b = rng.choice(blocks)
    m = rng.randrange(6)
    if m == 0:
        b[rng.randrange(len(b))] = rng.choice((n, -1, n + 3, -n))
    elif m == 1:
        b.append(rng.choice([x for c in blocks for x in c]))
    elif m == 2:
        blocks.append([rng.randrange(n)])
    elif m == 3:
        blocks.append([n])
    elif m == 4:
        blocks.append([-1, 0])
    else:
        b.append(-rng.randint(1, n))
    ctx.describe(n=n, blocks=blocks)
    ctx.raises(ValueError, lambda: NPar.from_components(n, blocks), 'damaged components', n=n, blocks=blocks)
    ctx.raises(ValueError, lambda: NPar.from_components(n, (iter(c) for c in blocks)), 'damaged components', n=n, blocks=blocks)
    # Involutions: swap two ends, shorten, shift.
    inv = list(NPar.from_components(n, random_blocks(rng, n)).inv)
    m = rng.randrange(6)
    if m == 0:
        inv.pop()
    elif m == 1:
        inv += [len(inv) + 1, len(inv)]
    elif m == 2:
        k = rng.randrange(2 * n)
        inv[k] = k
    elif m == 3:
        inv[rng.randrange(2 * n)] = rng.choice((2 * n, -1))
    elif m == 4:
        k, l = rng.sample(range(2 * n), 2)
        inv[k] = inv[l]
    else:
        # Two arcs made to cross.
        arcs = [(k, inv[k]) for k in range(2 * n) if k < inv[k]]
        (a, b), (c, d) = rng.sample(arcs, 2)
        p, q, r, s = sorted((a, b, c, d))
        inv[p], inv[r], inv[q], inv[s] = r, p, s, q
    ctx.describe(n=n, inv=inv)
    ctx.raises((AssertionError, ValueError), lambda: NPar(n, tuple(inv)), 'a damaged involution', n=n, inv=inv)
    ctx.hit('refused', 2)
    ctx.distinct((n, tuple(map(tuple, blocks)), tuple(inv)))


@SUITE.scenario('bands', quick=400, thorough=800)
def bands(ctx, rng, i):
    n = rng.choice((2, 3, 4, 5, 6, 8, 12))
    for s in range(n):
        for t in range(n):
            word = [tuple(l) for l in N.bkl_gen_to_artin_word(s, t)]
            want = MP.a_word(min(s, t), max(s, t)) if s != t else ()
            ctx.check(all(0 <= k < n - 1 for k, _ in word) and MB.key(n, word) == MB.key(n, want), f'band generator {word}', s=s, t=t)
            ctx.hit('bands')
    comp = rng.sample(range(n), rng.randint(1, n))
    word = [tuple(l) for l in N.npar_component_to_artin_word(rng.choice((list, tuple, set, iter))(comp))]
    ctx.check(MB.key(n, word) == MB.key(n, MP.block_word(comp)), f'component word {word}', comp=comp)
    ctx.raises((AssertionError, ValueError), lambda: N.npar_component_to_artin_word(comp + comp[:1]), 'a repeated point', comp=comp)
    sets = [set(rng.sample(range(2 * n), rng.randint(0, 3))) for _ in range(rng.randint(0, 4))]
    ctx.eq(N.are_pairwise_disjoint(sets), all(not a & b for a, b in itertools.combinations(sets, 2)), 'pairwise disjoint', sets=sets)


@SUITE.scenario('large', quick=400, thorough=4000)
def large(ctx, rng, i):
    """Up to hundreds of points; braids up to 64 strands; and crossings between far points."""
    n = log_size(rng, 24, 260 if i % 2 else 64)
    if i % 6 == 0:
        # Few blocks, far apart.
        pts = sorted(rng.sample(range(n), rng.randint(2, 5)))
        blocks = full(n, (tuple(pts),))
    elif i % 6 == 1:
        blocks = (tuple(range(n)),) if rng.random() < .5 else full(n, ())
    else:
        blocks = random_blocks(rng, n)
    npar = constructed(ctx, rng, n, blocks)
    one(ctx, n, blocks, npar, braids=n <= 64)
    ctx.check(blocks_of(NPar.finest(n)) == full(n, ()) and blocks_of(NPar.coarsest(n)) == (tuple(range(n)),), 'finest and coarsest', n=n)
    word = [tuple(l) for l in npar.artin_word()]
    x = list(range(n))
    for s, e in word:
        ctx.check(e in (1, -1), 'exponent out of range', e=e)
        x[s], x[s + 1] = x[s + 1], x[s]
    ctx.eq(tuple(x), MP.partition_perm(n, blocks), 'the permutation of the artin word', n=n, blocks=blocks)
    ctx.eq(sum(e for _, e in word), sum(len(b) - 1 for b in blocks), 'the exponent sum of the artin word', n=n, blocks=blocks)
    # One point moved from its block to another one crosses or does not.
    blocks = [list(b) for b in blocks]
    a, b = rng.sample(range(len(blocks)), 2) if len(blocks) > 1 else (0, 0)
    if a != b:
        blocks[b].append(blocks[a].pop(rng.randrange(len(blocks[a]))))
        new = full(n, blocks)
        ctx.describe(n=n, blocks=new)
        if MP.noncrossing(new):
            ctx.check(blocks_of(NPar.from_components(n, new)) == new, 'from_components', n=n, blocks=new)
            ctx.check(blocks_of(NPar.from_permutation(Permutation(MP.partition_perm(n, new)))) == new, 'from_permutation', n=n, blocks=new)
        else:
            ctx.raises(ValueError, lambda: NPar.from_components(n, new), 'a crossing partition', blocks=new)
            ctx.raises(ValueError, lambda: NPar.from_permutation(Permutation(MP.partition_perm(n, new))), 'a crossing partition', blocks=new)
            ctx.hit('refused')
    # Two pairs which cross, near or far.
    a, b, c, d = sorted(rng.sample(range(n), 4))
    new = full(n, ((a, c), (b, d)))
    ctx.raises(ValueError, lambda: NPar.from_components(n, rng.choice((new, ((b, d), (a, c))))), 'a crossing partition', blocks=((a, c), (b, d)), n=n)
    ctx.raises(ValueError, lambda: NPar.from_permutation(Permutation(MP.partition_perm(n, new))), 'a crossing partition', blocks=((a, c), (b, d)), n=n)
    # A repeated point, anywhere among many.
    parts = [list(b) for b in random_blocks(rng, n)]
    rng.choice(parts).append(rng.randrange(n))
    ctx.raises(ValueError, lambda: NPar.from_components(n, parts), 'a repeated point', n=n, parts=parts)
    x = list(MP.partition_perm(n, random_blocks(rng, n)))
    a, b = rng.sample(range(n), 2)
    x[a], x[b] = x[b], x[a]
    told = tuple(sorted(tuple(sorted(c)) for c in MP.cycles(x)))
    if MP.partition_perm(n, told) != tuple(x) or not MP.noncrossing(told):
        ctx.raises(ValueError, lambda: NPar.from_permutation(Permutation(tuple(x))), 'a permutation which is no noncrossing partition', x=x)
        ctx.hit('refused')
    s, t = rng.sample(range(n), 2)
    word = [tuple(l) for l in N.bkl_gen_to_artin_word(s, t)]
    if n <= 64:
        ctx.check(MB.key(n, word) == MB.key(n, MP.a_word(min(s, t), max(s, t))), f'band generator {word}', s=s, t=t)
    k = log_size(rng, 100, 3000)
    ctx.eq(N.catalan(k), math.comb(2 * k, k) - math.comb(2 * k, k + 1), 'catalan', n=k)
