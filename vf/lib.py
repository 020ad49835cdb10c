"""Shared helpers: reading peyl's objects through their public surface, and generators of workloads."""
import functools
import math
import random

import peyl
from peyl import DGNF, GNF, BraidGroup, LPoly, Matrix, NPar, Permutation

from .model import braids as MB
from .model import lp
from .model import perms as MP

KINDS = {'GNF': GNF, 'DGNF': DGNF}


@functools.cache
def primes_below(n):
    sieve = bytearray([1]) * n
    for k in range(2, int(n**.5) + 1):
        if sieve[k]:
            sieve[2 * k::k] = bytes(len(range(2 * k, n, k)))
    return [k for k in range(2, n) if sieve[k]]


def random_prime(rng, bound):
    """A prime below the bound, of any size."""
    ps = primes_below(int(2 ** rng.uniform(2, bound.bit_length())) + 1)
    p = rng.choice(ps[-40:])
    return p if p < bound else 2


def kind_of(b):
    return 'GNF' if isinstance(b, GNF) else 'DGNF'


def factor_word(f):
    """The braid word of a canonical factor, from the permutation or partition it shows."""
    if isinstance(f, Permutation):
        return MP.lift_word(tuple(f.word))
    return MP.partition_word(blocks_of(f))


def blocks_of(npar):
    return tuple(sorted(tuple(sorted(c)) for c in npar.components()))


def garside_word(kind, n):
    return MP.delta_word(n) if kind == 'GNF' else MP.small_delta_word(n)


def word_of(b):
    """A word for the braid, from its canonical decomposition only."""
    power, factors = b.canonical_decomposition()
    word = MP.power_word(garside_word(kind_of(b), b.n), power)
    for f in factors:
        word += factor_word(f)
    return word


def key_of(b):
    return MB.key(b.n, word_of(b))


def factor_perm(f):
    if isinstance(f, Permutation):
        return tuple(f.word)
    return MP.partition_perm(f.n, blocks_of(f))


def normal_form_problem(b):
    """None, or why the canonical decomposition is not a left normal form."""
    power, factors = b.canonical_decomposition()
    n, kind = b.n, kind_of(b)
    if b.inf() != power or b.canonical_length() != len(factors) or b.sup() != power + len(factors):
        return f'inf/sup/length {b.inf()}/{b.sup()}/{b.canonical_length()} against power {power} and {len(factors)} factors'
    if type(power) is not int:
        return f'power is a {type(power)}'
    if any(len(factor_perm(f)) != n for f in factors):
        return 'factor of the wrong size'
    ps = [factor_perm(f) for f in factors]
    top = MP.w0(n) if kind == 'GNF' else MP.partition_perm(n, (tuple(range(n)),))
    if any(p == MP.ident(n) for p in ps):
        return 'a trivial factor'
    if any(p == top for p in ps):
        return 'a Garside element among the factors'
    for x, y in zip(ps, ps[1:]):
        ok = MP.left_weighted(x, y) if kind == 'GNF' else MP.dual_left_weighted(n, x, y)
        if not ok:
            return f'adjacent factors {x}, {y} are not left-weighted'
    return None


def expect_braid(ctx, b, kind, n, key, what, /, **kw):
    """b must be a braid of that kind on n strands, in normal form, with that Dynnikov key."""
    ctx.check(type(b) is KINDS[kind], f'{what}: result is not a {kind}: {b!r}', **kw)
    ctx.check(b.n == n, f'{what}: wrong number of strands: {b!r}', **kw)
    problem = normal_form_problem(b)
    ctx.check(problem is None, f'{what}: not in normal form: {problem}: {b!r}', **kw)
    ctx.check(key_of(b) == key, f'{what}: a different braid: {b!r}', **kw)


# Workloads.

def random_word(rng, n, length, mode=None):
    """Words of many textures: sparse, positive, negative, blocky, Garside-rich, nearly cancelling, commutators."""
    mode = mode or rng.choice(['mixed', 'positive', 'negative', 'blocks', 'garside', 'cancel', 'commutator', 'alternating', 'twostrand'])
    g = range(n - 1)
    if mode == 'mixed':
        return tuple((rng.choice(g), rng.choice((1, -1))) for _ in range(length))
    if mode == 'positive':
        return tuple((rng.choice(g), 1) for _ in range(length))
    if mode == 'negative':
        return tuple((rng.choice(g), -1) for _ in range(length))
    if mode == 'blocks':
        out = []
        while sum(abs(e) for _, e in out) < length:
            out.append((rng.choice(g), rng.choice((1, 2, 3, 5, -1, -2, -4, 0))))
        return tuple(out)
    if mode == 'garside':
        out = ()
        while len(out) < length:
            d = rng.choice((MP.delta_word(n), MP.small_delta_word(n)))
            out += rng.choice((d, MP.inverse_word(d))) + random_word(rng, n, rng.randint(0, 4), 'mixed')
        return out
    if mode == 'cancel':
        w = random_word(rng, n, max(1, length // 2), 'mixed')
        v = list(MP.inverse_word(w))
        for _ in range(rng.randint(0, 2)):
            v.insert(rng.randint(0, len(v)), (rng.choice(g), rng.choice((1, -1))))
        return w + tuple(v)
    if mode == 'commutator':
        a, b = (random_word(rng, n, max(1, length // 4), 'mixed') for _ in range(2))
        return a + b + MP.inverse_word(a) + MP.inverse_word(b)
    if mode == 'alternating':
        return tuple((i, 1 if i % 2 == 0 else -1) for i in (rng.choice(g) for _ in range(length)))
    if mode == 'twostrand':
        i = rng.choice(g)
        j = min(n - 2, i + 1)
        return tuple((rng.choice((i, j)), rng.choice((1, 1, -1))) for _ in range(length))
    raise ValueError(mode)


def random_length(rng, cap=60):
    return rng.choice((0, 1, 1, 2, 3, 4, 6, 9, 14, 22, 35, 60)) if cap >= 60 else rng.randint(0, cap)


def perturb(rng, n, word, moves):
    """Another word for the same braid: free insertions/cancellations, braid and commutation relations."""
    w = [(i, 1 if e > 0 else -1) for i, e in word for _ in range(abs(e))]
    for _ in range(moves):
        m = rng.randrange(5)
        if m == 0:
            k, i, s = rng.randint(0, len(w)), rng.randrange(n - 1), rng.choice((1, -1))
            w[k:k] = [(i, s), (i, -s)]
        elif m == 1 and n >= 3:
            # Insert a trivial relator.
            i = rng.randrange(n - 2)
            s = rng.choice((1, -1))
            rel = [(i, s), (i+1, s), (i, s), (i+1, -s), (i, -s), (i+1, -s)]
            k = rng.randint(0, len(w))
            w[k:k] = rel
        elif m == 2:
            for k in _shuffled(rng, len(w) - 1):
                if abs(w[k][0] - w[k+1][0]) >= 2:
                    w[k], w[k+1] = w[k+1], w[k]
                    break
        elif m == 3:
            for k in _shuffled(rng, len(w) - 2):
                (a, s), (b, t), (c, u) = w[k:k+3]
                if a == c and abs(a - b) == 1 and s == t == u:
                    w[k:k+3] = [(b, s), (a, s), (b, s)]
                    break
        else:
            for k in _shuffled(rng, len(w) - 1):
                if w[k][0] == w[k+1][0] and w[k][1] == -w[k+1][1]:
                    del w[k:k+2]
                    break
    return tuple(w)


def _shuffled(rng, k):
    order = list(range(max(0, k)))
    rng.shuffle(order)
    return order


def random_braid(rng, kind, n, length=None, power=None):
    """A braid built from a random word, sometimes by sampling, sometimes shifted by a Garside power."""
    cls = KINDS[kind]
    if n > 2 and rng.random() < 0.3:
        b = cls.sample(n, rng.choice((0, 1, 2, 3, 5, 8, 13)) if length is None else length, random.Random(rng.random()))
        d = rng.choice((0, 1, -1, 2, 3, -2, -3, 5, -7, 12)) if power is None else power
        return cls(n, d, b.factors)
    return cls.from_artin_word(n, random_word(rng, n, random_length(rng) if length is None else length))


def log_size(rng, low, high):
    """Sizes of all orders of magnitude, powers of two and their neighbours among them."""
    x = int(2 ** rng.uniform(math.log2(low), math.log2(high + 1)))
    if rng.random() < .3:
        x = 2 ** (x.bit_length() - 1) + rng.choice((-1, 0, 1))
    return min(max(x, low), high)


def long_braid(rng, kind, n, length):
    """A braid with a small Garside power and about that many factors or letters."""
    cls = KINDS[kind]
    if n == 2:
        return cls(n, rng.randint(-length, length), ())
    m = rng.randrange(3)
    if m == 0 and length <= 300:
        return cls.from_artin_word(n, random_word(rng, n, length))
    if m == 1:
        # A periodic tail.
        x = cls.sample(n, rng.randint(1, 3), rng)
        b = cls.identity(n)
        while b.canonical_length() < length and sum(map(len, map(factor_word, b.canonical_factors()))) < 6 * length:
            before, b = b, b * x
            if b.canonical_length() <= before.canonical_length():
                break
        if b.canonical_length() > 2:
            return b
    return cls(n, rng.randint(-3, 3), cls.sample(n, length, rng).factors)


def period(kind, n):
    """The least power of the Garside element that is the full twist."""
    return 2 if kind == 'GNF' else n


def turned(b, turns):
    """A braid times a power of the full twist."""
    return type(b)(b.n, b.inf() + turns * period(kind_of(b), b.n), b.factors)


def many_turns(rng):
    return rng.choice((1, -1)) * rng.choice((0, rng.randint(0, 3), rng.randint(0, 10**4), 2**31 + rng.randint(-2, 2), 2**53 + rng.randint(-3, 3), 2**63 + rng.randint(-2, 2), rng.randrange(10**40)))


def expect_turned(ctx, b, kind, n, word, turns, what, /, **kw):
    """b must be a braid of that kind in normal form, that of the word times that power of the full twist."""
    ctx.check(type(b) is KINDS[kind] and b.n == n, f'{what}: wrong kind or strands', **kw)
    problem = normal_form_problem(b)
    ctx.check(problem is None, f'{what}: not in normal form: {problem}: {b!r}', **kw)
    power = b.inf() - turns * period(kind, n)
    ctx.check(abs(power) <= sum(abs(e) for _, e in word), f'{what}: the Garside power is off by {power}', inf=b.inf(), turns=turns, **kw)
    rest = sum(map(factor_word, b.canonical_factors()), ())
    ctx.check(MB.key(n, MP.power_word(garside_word(kind, n), power) + rest) == MB.key(n, word), f'{what}: a different braid', got=b, turns=turns, **kw)


def kernel_words():
    """Published kernel elements of two-row representations: (n, r, p, word)."""
    ker2 = [1, 0, 2, 0, 1, 2, 1, 1, 2, 1, 0, 0, 2, 2, 1, 1, 0, 2, 0, 1, 2,
            1, 0, 0, 2, 1, 1, 0, 2, 0, 2, 1, 0, 1, 0, 2, 0, 2, 1, 1, 0, 2]
    yield 4, 1, 2, tuple((i, 1) for i in ker2)
    yield 4, 1, 2, tuple(x for p in [(1, 3, 0, 2), (2, 0, 3, 1)] * 4 for x in MP.lift_word(p))
    yield 4, 1, 5, tuple(x for p in KERNEL5 for x in MP.lift_word(p))


KERNEL5 = [(3, 1, 2, 0), (1, 0, 3, 2), (1, 3, 0, 2), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (3, 1, 2, 0), (3, 1, 0, 2), (2, 0, 3, 1), (3, 1, 0, 2), (2, 0, 3, 1), (1, 3, 0, 2), (0, 2, 1, 3), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (3, 1, 2, 0), (3, 1, 0, 2), (2, 0, 3, 1), (3, 1, 0, 2), (2, 0, 3, 1), (1, 3, 0, 2), (0, 2, 1, 3), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (3, 1, 2, 0), (3, 1, 0, 2), (2, 0, 3, 1), (3, 1, 0, 2), (2, 0, 3, 1), (1, 3, 0, 2), (0, 2, 1, 3), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (3, 1, 2, 0), (3, 1, 0, 2), (2, 0, 3, 1), (3, 1, 0, 2), (2, 0, 3, 1), (1, 3, 0, 2), (0, 2, 1, 3), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (0, 3, 1, 2), (2, 0, 3, 1), (3, 1, 2, 0), (3, 1, 0, 2), (2, 0, 3, 1), (3, 1, 0, 2), (2, 0, 3, 1), (1, 3, 0, 2), (2, 3, 0, 1), (2, 3, 0, 1), (0, 2, 1, 3)]
