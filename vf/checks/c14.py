from peyl import tl
from peyl.jonesrep import JonesCellRep, cell_matrices, cell_matrix, tl_gens_invs

from ..core import Suite
from ..lib import *
from ..model import jones
from ..model import tlm as MT

SUITE = Suite('C14',
    'For 2..9 strands, every two-row shape and moduli 0, 2, 3, 5, 7, 11, 101, 1009, 8191, 65537 and random primes below 2^17: the exact images of random words, braids of both kinds with random Garside powers, permutations and noncrossing partitions are compared entry by entry with an independent evaluator (diagrams glued by union-find, polynomials as big integers) in the basis the library states, which must be all diagrams with n-2r through strands once each. Also homomorphism, relation and word independence, inverses, published kernel elements and their conjugates and products. Non-trivial: a word of at least two letters and dimension at least two.',
    require={'evaluated': 1200, 'mod p': 500, 'kinds compared': 150, 'kernel': 30, 'generators': 40, 'simple': 300, 'relators': 150, 'large exponents': 100})

PRIMES = (2, 3, 5, 7, 11, 101, 1009, 8191, 65537)


def shape(rng, large=False):
    if large:
        n = rng.choice((7, 8, 9))
        return n, rng.randint(0, 2 if n == 9 else 3)
    n = rng.choice((2, 3, 3, 4, 4, 4, 5, 5, 6))
    return n, rng.randint(0, n // 2)


def modulus(rng):
    return rng.choice((0, 0, 0, *PRIMES, random_prime(rng, 2**17), random_prime(rng, 2**17)))


def basis_of(rep):
    """The basis the library states, as diagrams of the model."""
    out = []
    for x in rep.tl_basis():
        (d, c), = x.terms.items() if hasattr(x, 'terms') else ((x, 1),)
        out.append(MT.to_seq(*MT.of(d)))
    return tuple(out)


def expect(ctx, rep, got, n, r, p, word, what):
    size = jones.dim(n, r)
    ctx.check((got.nrows, got.ncols) == (size, size), f'{what}: shape', n=n, r=r, p=p, word=word)
    M = lp.of_matrix(got)
    ctx.check(p == 0 or all(0 <= c < p for row in M for x in row for c in x.values()), f'{what}: coefficients outside [0, p)', n=n, r=r, p=p, word=word, got=got)
    ctx.eq(M, jones.evaluate(n, r, word, basis_of(rep), p), what, n=n, r=r, p=p, word=word)
    ctx.hit('evaluated')
    if p:
        ctx.hit('mod p')
    if size > 1 and sum(abs(e) for _, e in word) > 1:
        ctx.distinct((n, r, p, word))


@SUITE.scenario('generators', quick=48, thorough=96)
def generators(ctx, rng, i):
    shapes = [(n, r) for n in range(2, 10) for r in range(n // 2 + 1)]
    n, r = shapes[i % len(shapes)]
    p = 0 if i < len(shapes) else modulus(rng)
    rep = JonesCellRep(n, r, p)
    basis = basis_of(rep)
    ctx.check(jones.good_basis(n, r, basis), 'the basis is not all diagrams of the cell once each', n=n, r=r, basis=basis)
    ctx.check(rep.dimension() == jones.dim(n, r) == len(basis), 'dimension', n=n, r=r)
    N = log_size(rng, 10, 300)
    R = rng.randint(0, N // 2)
    ctx.eq(JonesCellRep(N, R, p).dimension(), jones.dim(N, R), 'dimension on many strands', n=N, r=R)
    gens, invs = rep.artin_gens_invs()
    ctx.check(len(gens) == len(invs) == n - 1, 'number of generators', n=n, r=r)
    for s in range(n - 1):
        expect(ctx, rep, gens[s], n, r, p, ((s, 1),), 'generator')
        expect(ctx, rep, invs[s], n, r, p, ((s, -1),), 'inverse generator')
    ctx.eq(lp.of_matrix(rep.id()), lp.mident(jones.dim(n, r)), 'identity', n=n, r=r)
    expect(ctx, rep, rep.evaluate_artin_word([]), n, r, p, (), 'empty word')
    if n <= 6:
        plain = cell_matrices(n, r)
        tg, ti = tl_gens_invs(n)
        for s in range(n - 1):
            for k, (have, elem) in enumerate(((plain[0][s], tg[s]), (plain[1][s], ti[s]))):
                want = jones.evaluate(n, r, ((s, 1 - 2*k),), basis)
                ctx.check(lp.of_matrix(have) == want == lp.of_matrix(cell_matrix(elem, r)), 'cell_matrices', n=n, r=r, s=s)
    ctx.hit('generators')


@SUITE.scenario('words', quick=4000, thorough=16000)
def words(ctx, rng, i):
    n, r = shape(rng)
    p = modulus(rng)
    word = random_word(rng, n, rng.choice((0, 1, 2, 4, 8, 14, 22)))
    ctx.describe(n=n, r=r, p=p, word=word)
    rep = JonesCellRep(n, r, p)
    A = rep.evaluate_artin_word(rng.choice((list, tuple))(word))
    expect(ctx, rep, A, n, r, p, word, 'word')
    ctx.sample(n=n, r=r, p=p, word=word)
    if i % 10 == 0 and n < 6:
        long = tuple((rng.randrange(n - 1), rng.choice((1, -1)) * log_size(rng, 1, 70)) for _ in range(rng.choice((1, 2, 3)))) if n > 1 else ()
        expect(ctx, rep, rep.evaluate_artin_word(long), n, r, p, long, 'word with large exponents')
        ctx.hit('large exponents')
    if i % 3 == 0:
        other = perturb(rng, n, word, rng.randint(1, 5))
        ctx.eq(lp.of_matrix(rep.evaluate_artin_word(other)), lp.of_matrix(A), 'another word for the same braid', n=n, r=r, p=p, word=word, other=other)
        ctx.hit('relators')
    if i % 3 == 1:
        w = random_word(rng, n, rng.choice((1, 3, 8)))
        B = rep.evaluate_artin_word(w)
        ctx.eq(lp.mmod(lp.mmul(lp.of_matrix(A), lp.of_matrix(B)), p), lp.of_matrix(rep.evaluate_artin_word(word + w)), 'product', n=n, r=r, p=p, left=word, right=w)
        C = rep.evaluate_artin_word(MP.inverse_word(word))
        ctx.eq(lp.mmod(lp.mmul(lp.of_matrix(A), lp.of_matrix(C)), p), lp.mident(len(basis_of(rep))), 'inverse', n=n, r=r, p=p, word=word)


@SUITE.scenario('braids', quick=400, thorough=8000)
def braids(ctx, rng, i):
    n, r = shape(rng)
    if n == 6 and i % 8 != 3 and not ctx.thorough:
        # One process pays for the tables of B_6.
        n, r = 5, min(r, 2)
    p = modulus(rng)
    rep = JonesCellRep(n, r, p)
    kind = rng.choice(('GNF', 'DGNF'))
    length = rng.choice((0, 1, 2, 3, 5))
    if n > 2 and rng.random() < .5:
        b = KINDS[kind].sample(n, length, random.Random(rng.random()))
        b = KINDS[kind](n, rng.choice((0, 0, 1, -1, 2, -2, 3, -4)), b.factors)
    else:
        b = KINDS[kind].from_artin_word(n, random_word(rng, n, rng.choice((1, 4, 10))))
    ctx.describe(n=n, r=r, p=p, braid=b)
    expect(ctx, rep, rep.evaluate(b), n, r, p, word_of(b), kind)
    c = b.to_DGNF() if kind == 'GNF' else b.to_GNF()
    ctx.eq(lp.of_matrix(rep.evaluate(c)), lp.of_matrix(rep.evaluate(b)), 'the other kind of normal form', n=n, r=r, p=p, b=b)
    # The library's own comparison agrees.
    ctx.check(rep.evaluate(c) == rep.evaluate(b) == rep.evaluate_artin_word(b.artin_word()) and rep.evaluate(type(b).identity(n)) == rep.id() == rep.evaluate_artin_word([]), 'matrices of equal braids compare unequal', n=n, r=r, p=p, b=b)
    ctx.hit('kinds compared')


@SUITE.scenario('simple', quick=2000, thorough=8000)
def simple(ctx, rng, i):
    n, r = shape(rng)
    p = modulus(rng)
    rep = JonesCellRep(n, r, p)
    if rng.random() < .5:
        w = list(range(n))
        rng.shuffle(w)
        x, word = Permutation(tuple(w)), MP.lift_word(tuple(w))
    else:
        blocks = rng.choice(MP.noncrossing_partitions(n))
        x = NPar.from_components(n, [list(b) for b in blocks])
        word = MP.partition_word(blocks)
    ctx.describe(n=n, r=r, p=p, x=x)
    expect(ctx, rep, rep.evaluate(x), n, r, p, word, type(x).__name__)
    ctx.hit('simple')


@SUITE.scenario('larger', quick=64, thorough=1200)
def larger(ctx, rng, i):
    n, r = shape(rng, large=True)
    p = modulus(rng)
    word = random_word(rng, n, rng.choice((1, 2, 3, 5)))
    ctx.describe(n=n, r=r, p=p, word=word)
    rep = JonesCellRep(n, r, p)
    expect(ctx, rep, rep.evaluate_artin_word(word), n, r, p, word, 'word')


@SUITE.scenario('kernel', quick=40, thorough=600)
def kernel(ctx, rng, i):
    ks = list(kernel_words())
    n, r, p, word = ks[i % 3]
    if i % 3 != 1:
        # These two map to the image of Δ.
        word += MP.power_word(MP.delta_word(n), rng.choice((-1, 1)))
    rep = JonesCellRep(n, r, p)
    m = rng.randrange(4) if i >= 3 else 0
    if m == 1:
        c = random_word(rng, n, rng.randint(1, 8))
        word = c + word + MP.inverse_word(c)
    elif m == 2:
        word = MP.inverse_word(word)
    elif m == 3:
        d = MP.power_word(MP.delta_word(n), 2 * rng.choice((1, -1, 2)))
        word = d + word
    ctx.describe(n=n, r=r, p=p, word=word)
    M = lp.of_matrix(rep.evaluate_artin_word(word))
    ctx.eq(lp.projective(M), lp.mident(3), 'a kernel element', n=n, p=p, word=word)
    expect(ctx, rep, rep.evaluate_artin_word(word), n, r, p, word, 'kernel word')
    for kind in KINDS:
        b = KINDS[kind].from_artin_word(n, word)
        ctx.eq(lp.of_matrix(rep.evaluate(b)), M, 'kernel braid', kind=kind, n=n, p=p, word=word)
    # In other characteristics the same braids are not in the kernel.
    q = 3
    other = JonesCellRep(n, r, q)
    expect(ctx, other, other.evaluate_artin_word(word), n, r, q, word, 'kernel word elsewhere')
    ctx.hit('kernel')


@SUITE.scenario('large coefficients', quick=24, thorough=240)
def large_coefficients(ctx, rng, i):
    """Exact coefficients beyond 64 bits, and exponents far from zero."""
    n, r = rng.choice(((3, 1), (4, 1), (4, 2), (5, 2)))
    p = rng.choice((0, 0, 0, 2, 65537))
    length = rng.choice((60, 90, 130))
    word = tuple((k % (n - 1), 1 if k % 2 else -1) for k in (rng.choice((j, j, rng.randrange(n - 1))) for j in range(length)))
    if i % 4 == 0:
        word = ((rng.randrange(n - 1), rng.choice((40, -70, 113))), (rng.randrange(n - 1), rng.choice((30, -20))))
    ctx.describe(n=n, r=r, p=p, word=word)
    rep = JonesCellRep(n, r, p)
    M = rep.evaluate_artin_word(word)
    expect(ctx, rep, M, n, r, p, word, 'long word')
    if p == 0 and max(abs(c) for row in lp.of_matrix(M) for x in row for c in x.values()) > 2**63:
        ctx.hit('beyond 64 bits')
