import itertools

import numpy as np

from peyl import braidsearch as S

from ..core import Suite
from ..lib import *
from ..model import jones
from .c16 import fitting_prime, small_braid

SUITE = Suite('C17',
    'For every two-row shape on 2..6 strands and moduli 0, 2, 3, 5, 7, 11, 101 and larger ones where int32 sums fit: images of single braids, batches of one length, batches of mixed lengths in any order with repeats, all prefixes, and sampled braids are compared place by place with the exact image of the model divided by its power of v. The table of simple braids, generators and products are checked the same way. Batches of up to thousands repeat a small pool of braids with several Garside powers in any order, with some of two hundred factors among them. Non-trivial: at least two factors or a batch of at least two.',
    assumptions=['Int64 results are compared only where every exact coefficient is below 2^62, int32 ones where (p-1)^2 times the number of summands is below 2^31.'],
    require={'images': 4000, 'single': 200, 'same length': 200, 'mixed': 200, 'prefixes': 200, 'sampled': 100, 'mod p': 1500, 'tables': 12, 'products': 200, 'long': 20, 'large batches': 15})


class Rep:
    def __init__(self, n, r, p):
        self.n, self.r, self.p = n, r, p
        self.real = S.JonesSummand(n, r, p)
        from peyl.tl import cell_basis
        self.basis = tuple(tuple(d.seq) for d in cell_basis(n, r))
        self.size = len(self.basis)

    def exact(self, word):
        return jones.evaluate(self.n, self.r, word, self.basis, self.p)

    def __repr__(self):
        return f'JonesSummand({self.n}, {self.r}, {self.p})'


REPS = {}


def rep_of(n, r, p):
    return REPS.setdefault((n, r, p), None) or REPS.__setitem__((n, r, p), Rep(n, r, p)) or REPS[n, r, p]


def random_rep(rng, i=0):
    n = rng.choice((2, 3, 3, 4, 4, 4, 5, 5))
    if i % 8 == 1 and rng.random() < .2:
        n = 6
    r = rng.randint(0, n // 2)
    return rep_of(n, r, 0 if rng.random() < .25 else fitting_prime(rng, n, jones.dim(n, r)))


def expect(ctx, rep, got, word, what, /, **kw):
    ctx.check(isinstance(got, np.ndarray) and got.ndim == 3 and got.shape[:2] == (rep.size, rep.size), f'{what}: shape {getattr(got, "shape", None)}', rep=rep, **kw)
    ctx.check(np.issubdtype(got.dtype, np.integer), f'{what}: dtype {got.dtype}', rep=rep)
    M = rep.exact(word)
    if rep.p == 0 and any(abs(c) >= 2**62 for row in M for x in row for c in x.values()):
        ctx.hit('too large for int64')
        return
    have = lp.of_polymat(got)
    if rep.p:
        # The generators are kept with entries -1, so residues are compared.
        have = lp.mmod(have, rep.p)
        ctx.hit('mod p')
    ctx.eq(have, lp.projective(M), what, rep=rep, **kw)
    ctx.hit('images')
    if sum(abs(e) for _, e in word) > 1:
        ctx.distinct((rep.n, rep.r, rep.p, word, what))


def residues(ctx, rep, got, what):
    ctx.check(rep.p == 0 or (got.min(initial=0) >= 0 and got.max(initial=0) < rep.p), f'{what}: residues outside [0, p)', rep=rep)


def lengths(rng, n):
    return 0 if n == 2 else rng.choice((0, 1, 2, 3, 4, 6))


@SUITE.scenario('tables', quick=16, thorough=80)
def tables(ctx, rng, i):
    shapes = [(n, r) for n in (2, 3, 4, 5) for r in range(n // 2 + 1)] + [(6, 3), (6, 1)]
    n, r = shapes[i % len(shapes)]
    p = 0 if rng.random() < .2 else fitting_prime(rng, n, jones.dim(n, r))
    rep = rep_of(n, r, p)
    ctx.check(jones.good_basis(n, r, rep.basis) and rep.real.dimension() == rep.size, 'basis', rep=rep)
    N = log_size(rng, 10, 300)
    R = rng.randint(0, N // 2)
    ctx.eq(S.JonesSummand(N, R, p).dimension(), jones.dim(N, R), 'dimension on many strands', n=N, r=R)
    ctx.eq(lp.of_polymat(rep.real.id()), lp.mident(rep.size), 'identity', rep=rep)
    gens, invs = rep.real.artin_gens_invs()
    ctx.check(gens.shape[0] == invs.shape[0] == n - 1, 'number of generators', rep=rep)
    for s in range(n - 1):
        expect(ctx, rep, gens[s], ((s, 1),), 'generator')
        expect(ctx, rep, invs[s], ((s, -1),), 'inverse generator')
    table = S.symmetric_table(rep.real)
    ctx.check(set(tuple(x.word) for x in table) == set(itertools.permutations(range(n))) and len(table) == len(set(table)), 'keys of the table', rep=rep)
    perms = list(table)
    if n == 6 and not ctx.thorough:
        perms = rng.sample(perms, 60)
    for x in perms:
        expect(ctx, rep, table[x], MP.lift_word(tuple(x.word)), 'simple braid', x=x)
        residues(ctx, rep, table[x], 'simple braid')
    ctx.hit('tables')


@SUITE.scenario('single', quick=480, thorough=10000)
def single(ctx, rng, i):
    rep = random_rep(rng, i)
    b = small_braid(rng, 'GNF', rep.n, lengths(rng, rep.n))
    if rng.random() < .2:
        b = GNF.from_artin_word(rep.n, random_word(rng, rep.n, 12))
    ctx.describe(rep=rep, b=b)
    got = S.evaluate_braid_factors(rep.real, b)
    expect(ctx, rep, got, word_of(b), 'single braid', b=b)
    residues(ctx, rep, got, 'single braid')
    c = GNF(rep.n, b.power + 2 * rng.choice((1, -1, 7, -10**6)), b.factors)
    ctx.eq(lp.of_polymat(S.evaluate_braid_factors(rep.real, c)), lp.of_polymat(got), 'after multiplication by a central element', rep=rep, b=b, c=c)
    ctx.hit('single')
    ctx.sample(rep=rep, b=b)


@SUITE.scenario('same length', quick=400, thorough=8000)
def same_length(ctx, rng, i):
    rep = random_rep(rng, i)
    length = lengths(rng, rep.n)
    batch = [small_braid(rng, 'GNF', rep.n, length) for _ in range(rng.choice((1, 2, 3, 8)))]
    if rng.random() < .3:
        batch += [rng.choice(batch)]
    ctx.describe(rep=rep, batch=batch)
    got = S.evaluate_braids_of_same_length(rep.real, rng.choice((list, tuple))(batch))
    ctx.check(got.shape[0] == len(batch), 'length of a batch', rep=rep)
    residues(ctx, rep, got, 'batch')
    for k, b in enumerate(batch):
        expect(ctx, rep, got[k], word_of(b), f'place {k} of a batch', batch=batch)
    ctx.hit('same length')
    pref = S.evaluate_prefixes_of_same_length(rep.real, batch)
    ctx.eq(len(pref), length + 1, 'number of prefixes', rep=rep)
    for l, images in enumerate(pref):
        ctx.check(images.shape[0] == len(batch), 'length of a batch of prefixes', rep=rep)
        residues(ctx, rep, images, 'prefixes')
        for k, b in enumerate(batch):
            power, factors = b.canonical_decomposition()
            word = MP.power_word(MP.delta_word(rep.n), power) + tuple(x for f in factors[:l] for x in factor_word(f))
            expect(ctx, rep, images[k], word, f'prefix of length {l}, place {k}', batch=batch)
    ctx.hit('prefixes')


@SUITE.scenario('mixed', quick=320, thorough=6000)
def mixed(ctx, rng, i):
    rep = random_rep(rng, i)
    batch = [small_braid(rng, 'GNF', rep.n, lengths(rng, rep.n)) for _ in range(rng.choice((0, 1, 2, 5, 9)))]
    if len(batch) > 2:
        batch.insert(rng.randrange(len(batch)), batch[0])
    if rng.random() < .3:
        batch.sort(key=lambda b: -b.canonical_length())
    ctx.describe(rep=rep, batch=batch)
    got = S.evaluate_braids(rep.real, batch)
    ctx.eq(len(got), len(batch), 'number of images', rep=rep)
    for k, b in enumerate(batch):
        expect(ctx, rep, got[k], word_of(b), f'place {k} of a mixed batch', batch=batch)
        residues(ctx, rep, got[k], 'mixed batch')
    ctx.hit('mixed')
    if len(batch) > 1:
        bad = sorted(batch, key=lambda b: b.canonical_length())
        if bad[0].canonical_length() != bad[-1].canonical_length():
            rng.shuffle(bad)
            for fn in (S.evaluate_braids_of_same_length, S.evaluate_prefixes_of_same_length):
                ctx.raises((AssertionError, ValueError), lambda: fn(rep.real, bad), 'a batch of mixed lengths', bad=bad)


@SUITE.scenario('large batches', quick=48, thorough=800)
def large_batches(ctx, rng, i):
    """Batches of up to thousands, of some few braids and their multiples by powers of Δ, in any order."""
    rep = random_rep(rng, i)
    pool, sizes = [], [lengths(rng, rep.n) for _ in range(rng.choice((1, 2, 3)))]
    for l in sizes:
        for _ in range(rng.choice((2, 4))):
            b = small_braid(rng, 'GNF', rep.n, l)
            pool += [GNF(rep.n, b.power + k, b.factors) for k in rng.sample((0, 1, -1, 2, 3, 8), 3)]
    want = {b: lp.projective(rep.exact(word_of(b))) for b in pool}
    batch = [rng.choice(pool) for _ in range(log_size(rng, 20, 2500))]
    ctx.describe(rep=rep, pool=pool, size=len(batch))
    def judge(got, batch, what):
        ctx.eq(len(got), len(batch), f'{what}: number', rep=rep)
        seen = {}
        for k, b in enumerate(batch):
            image = np.asarray(got[k])
            key = b, image.shape, image.tobytes()
            if key not in seen:
                seen[key] = True
                have = lp.of_polymat(image)
                ctx.eq(lp.mmod(have, rep.p) if rep.p else have, want[b], f'{what}: place {k} of {len(batch)}', b=b, rep=rep)
    judge(S.evaluate_braids(rep.real, batch), batch, 'a large mixed batch')
    if rep.p and rep.n > 2 and i % 2:
        # With long ones among them.
        more = [small_braid(rng, 'GNF', rep.n, log_size(rng, 20, 200)) for _ in range(6)]
        want.update((b, lp.projective(rep.exact(word_of(b)))) for b in more)
        wide = [rng.choice(more) if rng.random() < .3 else b for b in batch[:200]]
        judge(S.evaluate_braids(rep.real, wide), wide, 'a large batch of mixed lengths')
    l = batch[0].canonical_length()
    same = [b for b in batch if b.canonical_length() == l]
    judge(S.evaluate_braids_of_same_length(rep.real, same), same, 'a large batch')
    if len(same) < 400:
        judge(S.evaluate_prefixes_of_same_length(rep.real, same)[-1], same, 'longest prefixes of a large batch')
    ctx.hit('large batches', len(same) > 30)
    ctx.distinct(('large', i, len(batch)))


@SUITE.scenario('sampled', quick=160, thorough=3000)
def sampled(ctx, rng, i):
    rep = random_rep(rng, i)
    if rep.n == 2:
        return
    lo = rng.choice((0, 1, 2, 4))
    count = rng.choice((1, 2, 5, 5, 40))
    seed = rng.random()
    if rng.random() < .5:
        braids, images = S.sample_braids_images(rep.real, lo, count, rand=random.Random(seed))
        want = [lo] * count
    else:
        hi = lo + rng.choice((0, 1, 3, 3, -1))
        braids, images = S.sample_braids_images_upto_length(rep.real, lo, hi, count, rand=random.Random(seed))
        want = [l for l in range(lo, hi + 1) for _ in range(count)]
    ctx.eq([b.canonical_length() for b in braids], want, 'lengths sampled', rep=rep)
    ctx.check(images.shape[0] == len(braids), 'number of images', rep=rep)
    for k, b in enumerate(braids):
        problem = normal_form_problem(b)
        ctx.check(type(b) is GNF and b.n == rep.n and b.inf() == 0 and problem is None, f'sampled braid {b}: {problem}')
        expect(ctx, rep, images[k], word_of(b), f'place {k} of a sample', braids=braids)
    residues(ctx, rep, images, 'sample')
    ctx.hit('sampled')


@SUITE.scenario('products', quick=320, thorough=6000)
def products(ctx, rng, i):
    rep = random_rep(rng, i)
    size = rng.choice((1, 2, 4))
    xs = [small_braid(rng, 'GNF', rep.n, l) for l in [lengths(rng, rep.n)] for _ in range(size)]
    ys = [small_braid(rng, 'GNF', rep.n, l) for l in [lengths(rng, rep.n)] for _ in range(size)]
    ctx.describe(rep=rep, xs=xs, ys=ys)
    X, Y = (S.evaluate_braids_of_same_length(rep.real, z) for z in (xs, ys))
    got = rep.real.mul(X, Y)
    residues(ctx, rep, got, 'product')
    table = rep.real.mul(X[:, None], Y[None])
    for k in range(size):
        expect(ctx, rep, got[k], word_of(xs[k]) + word_of(ys[k]), 'product of images', xs=xs, ys=ys)
        l = rng.randrange(size)
        expect(ctx, rep, table[k, l], word_of(xs[k]) + word_of(ys[l]), 'table of products', xs=xs, ys=ys)
        expect(ctx, rep, table[k, l], word_of(xs[k] * ys[l]), 'image of the product', xs=xs, ys=ys)
    one = rep.real.mul(X[0], Y[0])
    expect(ctx, rep, one, word_of(xs[0]) + word_of(ys[0]), 'product of two images', xs=xs, ys=ys)
    s = rng.randrange(rep.n - 1)
    gens, invs = rep.real.artin_gens_invs()
    expect(ctx, rep, rep.real.mul(one, gens[s]), word_of(xs[0]) + word_of(ys[0]) + ((s, 1),), 'times a generator', xs=xs, ys=ys)
    expect(ctx, rep, rep.real.mul(one, invs[s]), word_of(xs[0]) + word_of(ys[0]) + ((s, -1),), 'times an inverse generator', xs=xs, ys=ys)
    ctx.hit('products')


@SUITE.scenario('long', quick=64, thorough=1000)
def long(ctx, rng, i):
    ks = list(kernel_words())
    n, r, p, word = ks[i % 3]
    if i % 2:
        n, r = rng.choice(((3, 1), (4, 1), (4, 2), (5, 1), (5, 2)))
        p = fitting_prime(rng, n, jones.dim(n, r))
    if i % 8 == 3:
        # Coefficients far beyond 32 bits.
        n, r, p = rng.choice(((3, 1, 0), (4, 1, 0), (4, 2, 0)))
    rep = rep_of(n, r, p)
    b = GNF.from_artin_word(n, ((0, 1), (1, -1)) * rng.randint(20, 45) + random_word(rng, n, 4)) if p == 0 else GNF.from_artin_word(n, word) if i % 2 == 0 else small_braid(rng, 'GNF', n, rng.choice((25, 40)) if n > 3 else rng.choice((25, 40, 100, 130, 200)))
    c = small_braid(rng, 'GNF', n, b.canonical_length())
    batch = rng.choice(([b], [c, b], [b, c, b]))
    ctx.describe(rep=rep, batch=batch)
    got = S.evaluate_braids_of_same_length(rep.real, batch)
    for k, x in enumerate(batch):
        expect(ctx, rep, got[k], word_of(x), f'place {k} of a batch of long braids', batch=batch)
    if i % 2:
        expect(ctx, rep, S.evaluate_braid_factors(rep.real, b), word_of(b), 'a long braid', b=b)
        ctx.check(np.array_equal(S.evaluate_prefixes_of_same_length(rep.real, batch)[-1], got), 'the longest prefixes', batch=batch)
    if i % 2 == 0:
        expect(ctx, rep, S.evaluate_braid_factors(rep.real, b), word_of(b), 'a kernel element', b=b)
    ctx.hit('long')
