from peyl.jonesrep import LKBRep

from ..core import Suite
from ..lib import *

SUITE = Suite('C15',
    'For 2..7 strands and units q = ±v^a, t = ±v^b with exponents -6..60: the generator images and listed inverses read off the library are multiplied out by an independent polynomial matrix product and must satisfy the braid relations, far commutation, the cubic relation and be mutually inverse; words, braids of both kinds, permutations and partitions (exact and mod p) must be the products of these; different words for one braid must agree, and with q = v and t a high power of v the images of pairs of braids coincide exactly when their Dynnikov coordinates do. Some cases have up to ten strands. Non-trivial: n at least 3 and a word of at least two letters.',
    assumptions=['Dynnikov coordinates are a complete invariant of braids.'],
    require={'relations': 300, 'cubic': 300, 'evaluated': 500, 'mod p': 150, 'same braid': 150, 'different braids': 150, 'simple': 150, 'relations of many strands': 500})

PRIMES = (2, 3, 5, 7, 101, 8191)


def unit(rng, wide=False):
    e = rng.choice((0, 1, 1, 2, -1, -2, 3, 5, -6, 17, 60) if wide else (1, 1, 2, -1, 0, -3, 4))
    return LPoly(e, (rng.choice((1, 1, -1)),))


def random_rep(rng, n, p=None):
    q, t = unit(rng), unit(rng, True)
    if rng.random() < .3:
        q, t = LPoly(1, (1,)), LPoly(rng.choice((20, 50)), (1,))
    return LKBRep(n, rng.choice((0, 0, *PRIMES, random_prime(rng, 2**17))) if p is None else p, q, t)


def images(rep):
    gens, invs = rep.artin_gens_invs()
    return [lp.of_matrix(g) for g in gens], [lp.of_matrix(g) for g in invs]


def product(rep, gi, word, p):
    gens, invs = gi
    M = lp.mident(len(gens[0]) if gens else 1)
    for i, e in word:
        for _ in range(abs(e)):
            M = lp.mmul(M, gens[i] if e > 0 else invs[i])
            if p:
                M = lp.mmod(M, p)
    return M


def expect(ctx, rep, gi, got, word, what, /, **kw):
    M = lp.of_matrix(got)
    p = rep.p
    ctx.check(p == 0 or all(0 <= c < p for row in M for x in row for c in x.values()), f'{what}: coefficients outside [0, p)', p=p, word=word, **kw)
    ctx.eq(M, product(rep, gi, word, p), what, n=rep.n, p=p, q=rep.q, t=rep.t, word=word, **kw)
    ctx.hit('evaluated')
    if p:
        ctx.hit('mod p')
    if rep.n > 2 and sum(abs(e) for _, e in word) > 1:
        ctx.distinct((rep.n, p, str(rep.q), str(rep.t), word))


@SUITE.scenario('relations', quick=320, thorough=2400)
def relations(ctx, rng, i):
    n = rng.choice((2, 3, 4, 5, 6, 6, 7))
    rep = LKBRep(n, rng.choice((0, 0, 2, 7)), unit(rng), unit(rng, True))
    ctx.describe(n=n, q=rep.q, t=rep.t)
    size = n * (n - 1) // 2
    ctx.eq(rep.dimension(), size, 'dimension', n=n)
    gens, invs = images(rep)
    ctx.check(len(gens) == len(invs) == n - 1 and all(len(g) == size and all(len(r) == size for r in g) for g in gens + invs), 'shape of the generators', n=n)
    one = lp.mident(size)
    ctx.eq(lp.of_matrix(rep.id()), one, 'identity', n=n)
    q, t = lp.of(rep.q), lp.of(rep.t)
    def shifted(M, c):
        return lp.madd(M, lp.mscale(one, c))
    for a in range(n - 1):
        g = gens[a]
        ctx.check(lp.mmul(g, invs[a]) == one == lp.mmul(invs[a], g), 'the listed inverse is not inverse', n=n, a=a, q=rep.q, t=rep.t)
        zero = lp.mmul(lp.mmul(shifted(g, {0: -1}), shifted(g, q)), shifted(g, lp.neg(lp.mul(t, lp.mul(q, q)))))
        ctx.check(all(not x for row in zero for x in row), 'cubic relation', n=n, a=a, q=rep.q, t=rep.t)
        ctx.hit('cubic')
        for b in range(a):
            h = gens[b]
            if a - b == 1:
                ok = lp.mmul(lp.mmul(g, h), g) == lp.mmul(lp.mmul(h, g), h)
            else:
                ok = lp.mmul(g, h) == lp.mmul(h, g)
            ctx.check(ok, 'braid relation', n=n, a=a, b=b, q=rep.q, t=rep.t)
            ctx.hit('relations')
    ctx.distinct((n, str(rep.q), str(rep.t)))


@SUITE.scenario('many strands', quick=32, thorough=300)
def many_strands(ctx, rng, i):
    """The relations through their action on vectors: all of them hold on a random vector, and on some coordinate vectors."""
    n = rng.choice((7, 8, 8, 9, 10))
    rep = LKBRep(n, rng.choice((0, 0, 2, 7)), unit(rng), unit(rng))
    ctx.describe(n=n, q=rep.q, t=rep.t)
    size = n * (n - 1) // 2
    gens, invs = images(rep)
    ctx.check(rep.dimension() == size and len(gens) == len(invs) == n - 1 and all(len(g) == size and all(len(r) == size for r in g) for g in gens + invs), 'dimension', n=n)
    sparse = {id(M): [[(j, x) for j, x in enumerate(row) if x] for row in M] for M in gens + invs}
    def act(word, vector):
        for M in reversed(word):
            out = []
            for row in sparse[id(M)]:
                total = {}
                for j, x in row:
                    total = lp.add(total, lp.mul(x, vector[j]))
                out.append(total)
            vector = out
        return vector
    q, t = lp.of(rep.q), lp.of(rep.t)
    vectors = [[lp.const(rng.randint(-9, 9)) for _ in range(size)]] + [[lp.const(int(k == c)) for k in range(size)] for c in rng.sample(range(size), 3)]
    for v in vectors:
        for a in range(n - 1):
            g = gens[a]
            ctx.check(act([g, invs[a]], v) == v == act([invs[a], g], v), 'the listed inverse is not inverse', n=n, a=a, q=rep.q, t=rep.t)
            # (x - 1)(x + q)(x - tq^2) = 0.
            w = v
            for c in ({0: -1}, q, lp.neg(lp.mul(t, lp.mul(q, q)))):
                w = [lp.add(x, lp.mul(c, y)) for x, y in zip(act([g], w), w)]
            ctx.check(all(not x for x in w), 'cubic relation', n=n, a=a, q=rep.q, t=rep.t)
            for b in range(a):
                h = gens[b]
                ok = act([g, h, g], v) == act([h, g, h], v) if a - b == 1 else act([g, h], v) == act([h, g], v)
                ctx.check(ok, 'braid relation', n=n, a=a, b=b, q=rep.q, t=rep.t)
                ctx.hit('relations of many strands')
    ctx.distinct((n, str(rep.q), str(rep.t)))


@SUITE.scenario('eigenvalues', quick=40, thorough=400)
def eigenvalues(ctx, rng, i):
    """The three eigenvalues with their multiplicities, through the trace, and the determinant by evaluation."""
    n = rng.choice((2, 3, 4, 5, 6))
    rep = LKBRep(n, 0, unit(rng), unit(rng, True))
    gens, _ = images(rep)
    q, t = lp.of(rep.q), lp.of(rep.t)
    for g in gens:
        trace = {}
        for k in range(len(g)):
            trace = lp.add(trace, g[k][k])
        # tq^2 once, -q for the n-2 forks leaving one strand of the pair, 1 otherwise.
        want = lp.add(lp.mul(t, lp.mul(q, q)), lp.add(lp.mul(q, {0: -(n - 2)} if n > 2 else {}), lp.const(n*(n-1)//2 - 1 - (n - 2))))
        ctx.eq(trace, want, 'trace of a generator', n=n, q=rep.q, t=rep.t)


@SUITE.scenario('words', quick=480, thorough=6000)
def words(ctx, rng, i):
    n = rng.choice((2, 3, 3, 4, 4, 5, 6))
    rep = random_rep(rng, n)
    word = random_word(rng, n, rng.choice((0, 1, 2, 4, 7) if n < 6 else (0, 1, 2)))
    ctx.describe(n=n, p=rep.p, q=rep.q, t=rep.t, word=word)
    gi = images(rep)
    A = rep.evaluate_artin_word(word)
    expect(ctx, rep, gi, A, word, 'word')
    ctx.sample(n=n, p=rep.p, q=rep.q, t=rep.t, word=word)
    if i % 2 and n > 2:
        other = perturb(rng, n, word, rng.randint(1, 3))
        ctx.eq(lp.of_matrix(rep.evaluate_artin_word(other)), lp.of_matrix(A), 'another word for the same braid', n=n, q=rep.q, t=rep.t, word=word, other=other)
        ctx.hit('same braid')


@SUITE.scenario('objects', quick=320, thorough=4000)
def objects(ctx, rng, i):
    n = rng.choice((2, 3, 3, 4, 4, 5))
    rep = random_rep(rng, n)
    gi = images(rep)
    m = i % 4
    if m == 0:
        w = list(range(n))
        rng.shuffle(w)
        x, word = Permutation(tuple(w)), MP.lift_word(tuple(w))
    elif m == 1:
        blocks = rng.choice(MP.noncrossing_partitions(n))
        x, word = NPar.from_components(n, [list(b) for b in blocks]), MP.partition_word(blocks)
    else:
        kind = 'GNF' if m == 2 else 'DGNF'
        x = KINDS[kind].from_artin_word(n, random_word(rng, n, rng.choice((0, 1, 2, 4, 6))))
        x = KINDS[kind](n, rng.choice((x.power, 0, 1, -1)), x.factors)
        word = word_of(x)
    ctx.describe(n=n, p=rep.p, q=rep.q, t=rep.t, x=x)
    expect(ctx, rep, gi, rep.evaluate(x), word, type(x).__name__)
    if m < 2:
        ctx.hit('simple')
    else:
        y = x.to_DGNF() if m == 2 else x.to_GNF()
        ctx.eq(lp.of_matrix(rep.evaluate(x)), lp.of_matrix(rep.evaluate(y)), 'the other kind of normal form', x=x)
        ctx.hit('same braid')


@SUITE.scenario('faithful', quick=900, thorough=1600)
def faithful(ctx, rng, i):
    """Equal images exactly for equal braids."""
    n = rng.choice((3, 3, 4, 4, 5))
    a = random_word(rng, n, rng.choice((1, 2, 4, 6)))
    m = rng.randrange(4)
    if m == 0:
        b = perturb(rng, n, a, rng.randint(1, 4))
    elif m == 1:
        b = list(a)
        k = rng.randrange(len(b)) if b else 0
        b[k:k] = [(rng.randrange(n - 1), rng.choice((1, -1)))]
        b = tuple(b)
    elif m == 2:
        b = list(a)
        rng.shuffle(b)
        b = tuple(b)
    else:
        # Commuting or not: conjugates, in particular by the full twist.
        c = MP.power_word(MP.delta_word(n), rng.choice((1, 2))) if n < 5 else random_word(rng, n, 2)
        b = c + a + MP.inverse_word(c)
    letters = sum(abs(e) for _, e in a + b)
    q, t = LPoly(1, (1,)), LPoly(16 * letters + 16, (1,))
    rep = LKBRep(n, 0, q, t)
    ctx.describe(n=n, a=a, b=b, t=t)
    same = MB.key(n, a) == MB.key(n, b)
    A, B = rep.evaluate_artin_word(a), rep.evaluate_artin_word(b)
    ctx.check((lp.of_matrix(A) == lp.of_matrix(B)) == same, f'images coincide: {not same}, braids coincide: {same}', n=n, a=a, b=b, t=t)
    ctx.hit('same braid' if same else 'different braids')


@SUITE.scenario('burau kernel', quick=6, thorough=24)
def burau_kernel(ctx, rng, i):
    """The published kernel elements of other representations are told from the identity here."""
    n, _, p, word = list(kernel_words())[i % 2]
    rep = LKBRep(n, rng.choice((0, 2, 5)), LPoly(1, (1,)), LPoly(40, (1,)))
    d = MP.power_word(MP.delta_word(n), rng.choice((0, -2, 2)))
    A = lp.of_matrix(rep.evaluate_artin_word(d + word))
    ctx.check(lp.projective(A) != lp.mident(6), 'a braid which is not central acts as a scalar', n=n, word=word)
    ctx.hit('different braids')


@SUITE.scenario('refused', quick=8, thorough=8)
def refused(ctx, rng, i):
    v = LPoly(1, (1,))
    for bad in (LPoly(0, ()), v + 1, 2 * v, v - v**-1):
        ctx.raises((AssertionError, ValueError), lambda: LKBRep(3, 0, bad, v), 'a q which is not a unit', q=bad)
        ctx.raises((AssertionError, ValueError), lambda: LKBRep(3, 0, v, bad), 'a t which is not a unit', t=bad)
    for n in (0, -1):
        ctx.raises((AssertionError, ValueError), lambda: LKBRep(n, 0, v, v), 'a group out of range', n=n)
