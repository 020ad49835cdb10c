import functools
import itertools

import numpy as np

from peyl.jonesrep import JonesCellRep, LKBRep

from ..core import Suite
from ..lib import *
from ..model import jones
from .c14 import basis_of
from .c15 import images as lkb_images
from .c15 import product as lkb_product

SUITE = Suite('C16',
    'Braids of both kinds, permutations, partitions, words and raw factor sequences, alone and in batches of up to 40 with repeated, permuted and mixed Garside powers, are evaluated in packed form by representation objects that are fresh or reused across unrelated requests, and every array is compared coefficient by coefficient with the exact image of the model divided by its power of v. Moduli are kept where int32 sums fit. Batches of up to 4,200 have their widest image anywhere. Long runs of one factor and long braids in characteristic zero are among them. Non-trivial: at least two factors or letters, or a batch of at least two.',
    assumptions=['Int64 results are compared only where every exact coefficient is below 2^62, int32 ones where (p-1)^2 times the number of summands is below 2^31.'],
    require={'packed': 3000, 'batches': 400, 'integers': 150, 'words': 400, 'mod p': 1500, 'lkb': 300, 'other kind': 100, 'central': 300, 'generators': 60, 'products': 200, 'reused rep': 500, 'large exponents': 80, 'runs of factors': 100, 'long integers': 40, 'large batches': 12})

PRIMES = (2, 3, 5, 7, 11, 101, 1009, 4099, 8191)


def fits32(n, p, size):
    return (p - 1)**2 * size * (n * (n - 1) + 1) < 2**31


def fitting_prime(rng, n, size):
    ps = [p for p in PRIMES if fits32(n, p, size)]
    p = random_prime(rng, 8192)
    return p if fits32(n, p, size) and rng.random() < .4 else rng.choice(ps)


class Rep:
    """A representation with its oracle."""
    def __init__(self, spec):
        self.spec = spec
        if spec[0] == 'jones':
            _, self.n, self.r, self.p = spec
            self.real = JonesCellRep(self.n, self.r, self.p)
            self.basis = basis_of(self.real)
            self.size = len(self.basis)
        else:
            _, self.n, self.p, q, t = spec
            self.real = LKBRep(self.n, self.p, LPoly(q[1], (q[0],)), LPoly(t[1], (t[0],)))
            self.images = lkb_images(self.real)
            self.size = self.n * (self.n - 1) // 2

    def exact(self, word):
        if self.spec[0] == 'jones':
            return jones.evaluate(self.n, self.r, word, self.basis, self.p)
        return lkb_product(self.real, self.images, word, self.p)

    def __repr__(self):
        return repr(self.spec)


REPS = {}


def random_rep(ctx, rng, i=0):
    if rng.random() < .8:
        n = rng.choice((2, 3, 3, 4, 4, 4, 5, 5))
        if i % 8 == 5 and rng.random() < .2:
            n = 6
        r = rng.randint(0, n // 2)
        size = jones.dim(n, r)
        p = 0 if rng.random() < .25 else fitting_prime(rng, n, size)
        if rng.random() < .15:
            # Primes at the edges of the narrow integer types.
            p = rng.choice([q for q in (101, 107, 109, 113, 127, 131, 137, 139, 179, 181, 191, 193, 251, 257) if fits32(n, q, size)])
        spec = ('jones', n, r, p)
    else:
        n = rng.choice((3, 3, 4, 4, 5))
        unit = lambda lo, hi: (rng.choice((1, 1, -1)), rng.randint(lo, hi))
        spec = rng.choice((('lkb', n, rng.choice((0, 2, 7, 101, random_prime(rng, 1000))), unit(-1, 2), unit(-2, 4)), ('lkb', n, 5, (1, 1), (1, 3)), ('lkb', 3, 0, (1, 1), (1, 3))))
    if rng.random() < .7 and spec in REPS:
        ctx.hit('reused rep')
        return REPS[spec]
    REPS[spec] = Rep(spec)
    return REPS[spec]


def expect(ctx, rep, got, word, what, /, **kw):
    ctx.check(isinstance(got, np.ndarray) and got.ndim == 3 and got.shape[:2] == (rep.size, rep.size), f'{what}: shape {getattr(got, "shape", None)}', rep=rep, word=word, **kw)
    ctx.check(np.issubdtype(got.dtype, np.integer), f'{what}: dtype {got.dtype}', rep=rep)
    M = rep.exact(word)
    if rep.p == 0 and any(abs(c) >= 2**62 for row in M for x in row for c in x.values()):
        ctx.hit('too large for int64')
        return
    ctx.check(rep.p == 0 or (got.min(initial=0) >= 0 and got.max(initial=0) < rep.p), f'{what}: residues outside [0, p)', rep=rep, word=word, **kw)
    ctx.eq(lp.of_polymat(got), lp.projective(M), what, rep=rep, word=word, **kw)
    ctx.hit('packed')
    if rep.p:
        ctx.hit('mod p')
    if rep.spec[0] == 'lkb':
        ctx.hit('lkb')
    if sum(abs(e) for _, e in word) > 1:
        ctx.distinct((rep.spec, word, what))


@functools.cache
def factor_indices(kind, n):
    """index -> word of the simple braid, read off braids with one factor; and the two indices left over."""
    cls = KINDS[kind]
    if kind == 'GNF':
        every = [(GNF.from_perm(Permutation(tuple(w))), MP.lift_word(w)) for w in itertools.permutations(range(n))]
    else:
        every = [(DGNF.from_npar(NPar.from_components(n, [list(b) for b in blocks])), MP.partition_word(blocks)) for blocks in MP.noncrossing_partitions(n)]
    table = {b.factors[0]: w for b, w in every if len(b.factors) == 1}
    left = sorted(set(range(len(every))) - set(table))
    assert len(left) == 2
    return table, left


def small_braid(rng, kind, n, length):
    cls = KINDS[kind]
    b = cls.sample(n, length, random.Random(rng.random())) if n > 2 or length == 0 else cls.identity(n)
    return cls(n, rng.choice((0, 0, 0, 1, -1, 2, 3, -2, 4, 5, -7)), b.factors)


@SUITE.scenario('generators', quick=96, thorough=800)
def generators(ctx, rng, i):
    rep = random_rep(ctx, rng)
    n = rep.n
    gens, invs = rep.real.polymat_artin_gens_invs()
    ctx.check(gens.ndim == invs.ndim == 4 and gens.shape[0] == invs.shape[0] == n - 1, 'shape of the generators', rep=rep)
    for s in range(n - 1):
        expect(ctx, rep, gens[s], ((s, 1),), 'generator')
        expect(ctx, rep, invs[s], ((s, -1),), 'inverse generator')
    one = rep.real.polymat_id()
    ctx.eq(lp.of_polymat(one), lp.mident(rep.size), 'identity', rep=rep)
    ctx.check(rep.real.dimension() == rep.size, 'dimension', rep=rep)
    ctx.hit('generators')


@SUITE.scenario('words', quick=800, thorough=16000)
def words(ctx, rng, i):
    rep = random_rep(ctx, rng)
    n = rep.n
    short_ = rep.spec[0] == 'lkb'
    word = random_word(rng, n, rng.choice((0, 1, 2, 4) if short_ else (0, 1, 2, 4, 8, 14, 20)))
    ctx.describe(rep=rep, word=word)
    expect(ctx, rep, rep.real.polymat_evaluate_artin_word(word), word, 'word')
    if not short_ and i % 4 == 0:
        # A few letters with large exponents.
        word = tuple((rng.randrange(n - 1), rng.choice((1, -1)) * log_size(rng, 1, 90 if n < 5 else 40)) for _ in range(rng.choice((1, 2, 3))))
        expect(ctx, rep, rep.real.polymat_evaluate_artin_word(word), word, 'word with large exponents')
        ctx.hit('large exponents')
    ctx.hit('words')
    ctx.sample(rep=rep, word=word)
    m = rng.randrange(3)
    if m == 0:
        w = list(range(n))
        rng.shuffle(w)
        expect(ctx, rep, rep.real.polymat_evaluate(Permutation(tuple(w))), MP.lift_word(tuple(w)), 'permutation')
    elif m == 1:
        blocks = rng.choice(MP.noncrossing_partitions(n))
        expect(ctx, rep, rep.real.polymat_evaluate(NPar.from_components(n, [list(b) for b in blocks])), MP.partition_word(blocks), 'partition')
    else:
        b = small_braid(rng, rng.choice(('GNF', 'DGNF')), n, rng.randint(0, 1 if short_ else 3))
        expect(ctx, rep, rep.real.polymat_evaluate(b), word_of(b), 'braid by its word')


@SUITE.scenario('batches', quick=560, thorough=10000)
def batches(ctx, rng, i):
    rep = random_rep(ctx, rng, i)
    n = rep.n
    kind = rng.choice(('GNF', 'DGNF'))
    cls = KINDS[kind]
    length = rng.choice((0, 1, 2, 3) if rep.spec[0] == 'lkb' else (0, 1, 2, 3, 5, 8))
    if n == 2:
        length = 0
    size = rng.choice((1, 1, 2, 3, 6) if rep.spec[0] == 'lkb' or n > 4 else (1, 2, 3, 8, 40 if i % 10 == 0 else 6))
    batch = [small_braid(rng, kind, n, length) for _ in range(size)]
    if size > 2 and rng.random() < .5:
        batch[0] = batch[-1]
        b = batch[1]
        batch[2] = cls(n, b.power + rng.choice((1, 2, -3)), b.factors)
    ctx.describe(rep=rep, batch=batch)
    got = rep.real.polymat_evaluate_braids_of_same_length(batch)
    ctx.check(isinstance(got, np.ndarray) and got.shape[:1] == (size,), 'shape of a batch', rep=rep, batch=batch)
    for k, b in enumerate(batch):
        expect(ctx, rep, got[k], word_of(b), f'place {k} of a batch', batch=batch)
    ctx.hit('batches')
    if size > 1:
        ctx.distinct((rep.spec, tuple(batch)))
    b = rng.choice(batch)
    single = rep.real.polymat_evaluate_braid(b)
    expect(ctx, rep, single, word_of(b), 'single braid')
    # The centre acts by a power of v.
    z = (2 if kind == 'GNF' else n) * rng.choice((1, -1, 2, -3, 1000, -10**12))
    shifted = rep.real.polymat_evaluate_braid(cls(n, b.power + z, b.factors))
    ctx.eq(lp.of_polymat(shifted), lp.of_polymat(single), 'after multiplication by a central element', rep=rep, b=b, z=z)
    ctx.hit('central')
    if n < 5 or rng.random() < .1:
        c = b.to_DGNF() if kind == 'GNF' else b.to_GNF()
        ctx.eq(lp.of_polymat(rep.real.polymat_evaluate_braid(c)), lp.of_polymat(single), 'the other kind of normal form', rep=rep, b=b)
        ctx.hit('other kind')


@SUITE.scenario('large batches', quick=16, thorough=300)
def large_batches(ctx, rng, i):
    """Thousands of braids in one batch, the widest images anywhere in it."""
    n, r = rng.choice(((3, 1), (4, 1), (4, 2)))
    rep = Rep(('jones', n, r, rng.choice((0, 2, 3, 101))))
    kind = rng.choice(('GNF', 'DGNF'))
    length, size = rng.choice((2, 4, 7)), rng.choice((130, 300, 1030, 1500, 2100, 4200))
    few = sorted((small_braid(rng, kind, n, length) for _ in range(8)), key=lambda b: rep.real.polymat_evaluate_braid(b).shape[-1], reverse=rng.random() < .5)
    batch = [rng.choice(few[:-2]) for _ in range(size)]
    if rng.random() < .5:
        batch = [few[k * 5 // size] for k in range(size)]
    for _ in range(3):
        batch[rng.choice((0, -1, rng.randrange(size)))] = rng.choice(few[-2:])
    ctx.describe(rep=rep, few=few, size=size)
    want = {b: lp.projective(rep.exact(word_of(b))) for b in set(batch)}
    for what, got in (('braids', rep.real.polymat_evaluate_braids_of_same_length(batch)), ('factors', rep.real.polymat_evaluate_braid_integers_of_same_length(KINDS[kind], [b.factors for b in batch]))):
        ctx.check(isinstance(got, np.ndarray) and got.shape[:1] == (size,), f'shape of a large batch of {what}', rep=rep)
        seen = {}
        for k, b in enumerate(batch):
            if what == 'factors':
                b = KINDS[kind](n, 0, b.factors)
            key = b, got[k].tobytes()
            if key not in seen:
                seen[key] = k
                if b not in want:
                    want[b] = lp.projective(rep.exact(word_of(b)))
                ctx.eq(lp.of_polymat(got[k]), want[b], f'place {k} of {size} {what}', rep=rep, b=b)
    ctx.hit('large batches')
    ctx.distinct((str(rep), size, kind, i))


@SUITE.scenario('integers', quick=320, thorough=4000)
def integers(ctx, rng, i):
    rep = random_rep(ctx, rng)
    n = rep.n
    kind = rng.choice(('GNF', 'DGNF'))
    if n == 2 or (kind == 'GNF' and n > 4 and rng.random() < .7):
        return
    table, left = factor_indices(kind, n)
    length = rng.choice((0, 1, 2, 3, 6)) if rep.spec[0] == 'jones' else rng.randint(0, 2)
    seqs = [[rng.choice(list(table)) for _ in range(length)] for _ in range(rng.choice((1, 2, 5)))]
    ctx.describe(rep=rep, kind=kind, seqs=seqs)
    got = rep.real.polymat_evaluate_braid_integers_of_same_length(KINDS[kind], rng.choice((lambda s: s, lambda s: tuple(map(tuple, s))))(seqs))
    ctx.check(isinstance(got, np.ndarray) and got.shape[:1] == (len(seqs),), 'shape', rep=rep)
    for k, s in enumerate(seqs):
        expect(ctx, rep, got[k], tuple(x for f in s for x in table[f]), f'place {k} of sequences', kind=kind, seqs=seqs)
    # The two factors that no normal form contains: the identity and the Garside element.
    pair = [lp.of_polymat(a) for a in rep.real.polymat_evaluate_braid_integers_of_same_length(KINDS[kind], [[x] for x in left])]
    want = [lp.projective(rep.exact(w)) for w in ((), garside_word(kind, n))]
    ctx.check(pair in (want, want[::-1]), 'the identity and the Garside element as factors', rep=rep, kind=kind)
    ctx.hit('integers')
    # Sequences with these among the others, with runs, and with places in which all of a batch agree.
    if pair[0] != pair[1]:
        one, top = left if pair == want else left[::-1]
        words = {**table, one: (), top: garside_word(kind, n)}
        length = rng.choice((2, 3, 5, 9) if rep.spec[0] == 'jones' else (2, 3))
        def column():
            return rng.choice((one, top, top, *(rng.choice(list(table)) for _ in range(3))))
        rows, columns = rng.choice((1, 2, 4)), []
        while len(columns) < length:
            if columns and rng.random() < .3:
                columns.append(columns[-1])
            elif rng.random() < .4:
                columns.append([column()] * rows)
            else:
                columns.append([column() for _ in range(rows)])
        seqs = [list(s) for s in zip(*columns)]
        ctx.describe(rep=rep, kind=kind, seqs=seqs)
        got = rep.real.polymat_evaluate_braid_integers_of_same_length(KINDS[kind], seqs)
        for k, s in enumerate(seqs):
            expect(ctx, rep, got[k], tuple(x for f in s for x in words[f]), f'place {k} of sequences with Garside elements', kind=kind, seqs=seqs)
        ctx.hit('runs of factors')
    order = len(table) + 2
    for bad in ([[order]], [[-1]], [[0], [0, 0]]):
        ctx.raises((AssertionError, ValueError, IndexError), lambda: rep.real.polymat_evaluate_braid_integers_of_same_length(KINDS[kind], bad), 'indices out of range or of mixed lengths', bad=bad)


@SUITE.scenario('long integers', quick=40, thorough=800)
def long_integers(ctx, rng, i):
    """Long sequences of indices of factors, where coefficients take all residues."""
    n, r = rng.choice(((4, 1), (5, 1), (5, 2), (5, 2), (5, 2)))
    kind = 'DGNF' if n == 5 else rng.choice(('GNF', 'DGNF'))
    p = rng.choice([q for q in (2, 3, 7, 11, 13, 31, 61, 97, 101, 107, 109, 113, 127, 127, 131, 137, 139, 179, 181, 191, 193, 251, 257, 32749, 65521) if fits32(n, q, jones.dim(n, r))])
    rep = REPS.setdefault(('jones', n, r, p), Rep(('jones', n, r, p)))
    table, _ = factor_indices(kind, n)
    length = rng.randint(8, 30)
    seqs = [[rng.choice(list(table)) for _ in range(length)] for _ in range(2)]
    ctx.describe(rep=rep, kind=kind, seqs=seqs)
    got = rep.real.polymat_evaluate_braid_integers_of_same_length(KINDS[kind], seqs)
    for k, s in enumerate(seqs):
        expect(ctx, rep, got[k], tuple(x for f in s for x in table[f]), f'place {k} of long sequences', kind=kind, seqs=seqs)
    ctx.hit('long integers')
    ctx.distinct((str(rep.spec), str(seqs)))


@SUITE.scenario('products', quick=320, thorough=5000)
def products(ctx, rng, i):
    rep = random_rep(ctx, rng)
    n = rep.n
    size = rng.choice((1, 2, 4))
    L = rng.choice((0, 1, 2, 4)) if rep.spec[0] == 'jones' else rng.randint(0, 1)
    kind = rng.choice(('GNF', 'DGNF'))
    if n == 2:
        L = 0
    xs = [small_braid(rng, kind, n, L) for _ in range(size)]
    ys = [small_braid(rng, kind, n, min(L, 2)) for _ in range(size)]
    X, Y = map(rep.real.polymat_evaluate_braids_of_same_length, (xs, ys))
    ctx.describe(rep=rep, xs=xs, ys=ys)
    got = rep.real.polymat_mul(X, Y)
    for k in range(size):
        expect(ctx, rep, got[k], word_of(xs[k]) + word_of(ys[k]), 'product of images', xs=xs, ys=ys)
    table = rep.real.polymat_mul(X[:, None], Y[None, :])
    a, b = rng.randrange(size), rng.randrange(size)
    expect(ctx, rep, table[a, b], word_of(xs[a]) + word_of(ys[b]), 'table of products', xs=xs, ys=ys)
    ctx.hit('products')


@SUITE.scenario('refused', quick=40, thorough=400)
def refused(ctx, rng, i):
    rep = random_rep(ctx, rng)
    n = rep.n
    if n == 2:
        return
    kind = rng.choice(('GNF', 'DGNF'))
    other = 'DGNF' if kind == 'GNF' else 'GNF'
    a, b = small_braid(rng, kind, n, 1), small_braid(rng, kind, n, 2)
    c = small_braid(rng, other, n, 1)
    for bad in ([a, b], [b, a], [a, a, b], [a, c], [c, a]):
        ctx.raises((AssertionError, ValueError), lambda: rep.real.polymat_evaluate_braids_of_same_length(bad), 'a batch of mixed lengths or kinds', bad=bad)
    x, y = rep.real.polymat_evaluate_braid(a), rep.real.polymat_evaluate_braid(b)
    ctx.raises((AssertionError, ValueError), lambda: rep.real.polymat_mul(x[:, :-1], y), 'incompatible shapes') if rep.size > 1 else None


@SUITE.scenario('long', quick=80, thorough=1200)
def long(ctx, rng, i):
    """Long braids modulo p, kernel elements among them."""
    ks = list(kernel_words())
    n, r, p, word = ks[i % 3]
    if i % 2:
        n, r = rng.choice(((3, 1), (4, 1), (4, 2), (5, 1), (5, 2)))
        p = fitting_prime(rng, n, jones.dim(n, r))
    rep = REPS.setdefault(('jones', n, r, p), None) or Rep(('jones', n, r, p))
    REPS['jones', n, r, p] = rep
    kind = rng.choice(('GNF', 'DGNF'))
    length = rng.choice((20, 30, 45)) if n > 3 else rng.choice((20, 45, 100, 130, 200))
    if i % 8 == 3:
        # Coefficients far beyond 32 bits.
        n, r = rng.choice(((3, 1), (4, 1), (4, 2)))
        rep = REPS.setdefault(('jones', n, r, 0), None) or Rep(('jones', n, r, 0))
        REPS['jones', n, r, 0] = rep
        b = KINDS[kind].from_artin_word(n, ((0, 1), (1, -1)) * rng.randint(20, 45) + random_word(rng, n, 4))
        batch = [b, KINDS[kind](n, b.inf() + rng.randint(-2, 2), b.factors)]
        ctx.hit('growing')
    elif i % 2:
        batch = [small_braid(rng, kind, n, length) for _ in range(3)]
    else:
        b = KINDS[kind].from_artin_word(n, word)
        c = small_braid(rng, kind, n, b.canonical_length())
        batch = rng.choice(([b], [c, b], [b, c, b]))
    ctx.describe(rep=rep, batch=batch)
    got = rep.real.polymat_evaluate_braids_of_same_length(batch)
    for k, b in enumerate(batch):
        expect(ctx, rep, got[k], word_of(b), f'place {k} of a batch of long braids', batch=batch)
    ctx.hit('long')
