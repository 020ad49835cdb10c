import itertools

from peyl import permutations as P
from peyl.permutations import SymmetricGroup

from ..core import Suite
from ..lib import *
from .c07 import full

SUITE = Suite('C06',
    'All permutations of up to 6 points (7 in the thorough tier), all pairs up to 4 points, and random and structured permutations of up to 60 points go through every function of the module, as tuples and lists and as Permutation objects, and are compared with definitions (inversion counts, brute-force descents, products of transpositions). Least reduced words are compared with all reduced words up to 5 points. Malformed words are offered. Each word is also composed with itself, as the same object. Non-trivial: not the identity.',
    require={'permutations': 1000, 'pairs': 600, 'words': 500, 'refused': 400, 'all_words': 140, 'groups': 8})


def runs(x):
    """The lexicographically least reduced word in closed form: descending runs, as long as an inversion table says."""
    y = MP.inv(x)
    word = []
    for k in range(1, len(y)):
        c = sum(1 for j in range(k) if y[j] > y[k])
        word += range(k - 1, k - 1 - c, -1)
    return tuple(word)


def one(ctx, x):
    """Every unary function on the permutation x (a tuple)."""
    n = len(x)
    ctx.describe(x=x)
    X = Permutation(x)
    form = list(x) if sum(x) % 2 and n else x
    inv = MP.inv(x)
    ctx.check(P.is_permutation(form), 'not recognised as a permutation', x=x)
    ctx.eq(tuple(P.inverse(form)), inv, 'inverse', x=x)
    ctx.check(X.inv() == Permutation(inv) and X.inv().word == inv, 'Permutation.inv', x=x)
    ctx.eq((P.length(form), X.length()), (MP.inversions(x),) * 2, 'length', x=x)
    ctx.eq(P.parity(form), MP.inversions(x) % 2, 'parity', x=x)
    rd = {i for i in range(n - 1) if x[i] > x[i + 1]}
    ld = {i for i in range(n - 1) if inv[i] > inv[i + 1]}
    if n <= 6:
        assert rd == MP.rdes(x) and ld == MP.ldes(x)
    ctx.eq((set(P.right_descent_set(form)), set(X.right_descent_set())), (rd, rd), 'right descents', x=x)
    ctx.eq((set(P.left_descent_set(form)), set(X.left_descent_set())), (ld, ld), 'left descents', x=x)
    for i in range(n - 1):
        ctx.eq(P.is_right_descent(form, i), i in rd, 'is_right_descent', x=x, i=i)
        ctx.eq(P.is_left_descent(form, i), i in ld, 'is_left_descent', x=x, i=i)
        ctx.eq(X.is_right_descent(i), i in rd, 'Permutation.is_right_descent', x=x, i=i)
        ctx.eq(X.is_left_descent(i), i in ld, 'Permutation.is_left_descent', x=x, i=i)
    cycles = MP.cycles(x)
    ctx.eq([tuple(c) for c in P.disjoint_cycles(form)], cycles, 'cycles', x=x)
    ctx.eq([tuple(c) for c in X.disjoint_cycles()], cycles, 'Permutation.disjoint_cycles', x=x)
    lengths = tuple(sorted(map(len, cycles), reverse=True))
    ctx.eq((tuple(P.cycle_type(form)), tuple(X.cycle_type())), (lengths, lengths), 'cycle type', x=x)
    ctx.eq(P.is_identity(form), x == MP.ident(n), 'is_identity', x=x)
    ctx.eq(P.is_longest_element(form), x == MP.w0(n), 'is_longest_element', x=x)
    word = P.shortlex(form)
    least = runs(x) if n > 25 else MP.lex_least_word(x)
    assert n > 8 or least == runs(x)
    ctx.eq(tuple(word), least, 'shortlex', x=x)
    ctx.eq(tuple(X.shortlex()), least, 'Permutation.shortlex', x=x)
    ctx.eq([tuple(l) for l in X.artin_word()], [(i, 1) for i in least], 'artin word', x=x)
    ctx.eq(tuple(P.from_cox(n, word)), x, 'from_cox', x=x)
    G = SymmetricGroup(n)
    ctx.eq(G.from_cox(word), X, 'SymmetricGroup.from_cox', x=x)
    if any(len(c) > 1 for c in cycles):
        ctx.eq(G.from_cycles([c for c in cycles if len(c) > 1]), X, 'from_cycles', x=x)
        ctx.eq(G.from_cycles([c[k % len(c):] + c[:k % len(c)] for k, c in enumerate(reversed(cycles))]), X, 'from_cycles', x=x)
    ctx.check(X.group() == G, 'group', x=x)
    # Descending and parallel cycles.
    blocks = [tuple(sorted(c)) for c in cycles]
    descending = MP.partition_perm(n, blocks) == x
    ctx.eq(P.is_descending_cycles(form), descending, 'is_descending_cycles', x=x)
    ctx.eq(P.is_parallel_descending_cycles(form), descending and MP.noncrossing(blocks), 'is_parallel_descending_cycles', x=x)
    ctx.check(form == list(x) or form == x, 'argument modified', x=x)
    ctx.hit('permutations')
    if x != MP.ident(n):
        ctx.distinct(x)


def squares(ctx, x):
    square = MP.mul(x, x)
    X = Permutation(x)
    ctx.eq(tuple(P.compose(x, x)), square, 'compose with itself', x=x)
    ctx.eq((X * X).word, square, 'square', x=x)


def two(ctx, x, y):
    n = len(x)
    want = MP.mul(x, y)
    ctx.eq(tuple(P.compose(x, list(y))), want, 'compose', x=x, y=y)
    X, Y = Permutation(x), Permutation(y)
    ctx.eq((X * Y).word, want, 'product', x=x, y=y)
    ctx.eq(X * Y, Permutation(want), 'product', x=x, y=y)
    ctx.eq(X == Y, x == y, 'equality', x=x, y=y)
    ctx.check(x != y or hash(X) == hash(Y), 'hash', x=x)
    ctx.eq((X * Y).inv(), Y.inv() * X.inv(), 'inverse of a product', x=x, y=y)
    # The very same object on both sides, and objects that undo each other.
    squares(ctx, x)
    ctx.check((X * X.inv()).word == (X.inv() * X).word == tuple(range(n)), 'product with the inverse', x=x)
    ctx.hit('pairs')


def random_perm(rng, n):
    m = rng.randrange(7)
    x = list(range(n))
    if m <= 2:
        rng.shuffle(x)
    elif m == 3:
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(max(1, n - 1))
            if n > 1:
                x[i], x[i + 1] = x[i + 1], x[i]
    elif m == 4:
        x.reverse()
        if n > 1 and rng.random() < 0.7:
            i, j = rng.sample(range(n), 2)
            x[i], x[j] = x[j], x[i]
    elif m == 5 and n:
        k = rng.randrange(n)
        x = x[k:] + x[:k]
    elif m == 6 and n:
        # Random block descending cycles.
        labels = [rng.randrange(1 + n // 2) for _ in range(n)]
        blocks = [tuple(i for i in range(n) if labels[i] == l) for l in set(labels)]
        x = list(MP.partition_perm(n, blocks))
    return tuple(x)


@SUITE.scenario('exhaustive', quick=16, thorough=16)
def exhaustive(ctx, rng, i):
    for n in range(0, 8 if ctx.thorough else 7):
        for k, x in enumerate(itertools.permutations(range(n))):
            if k % 16 == i:
                one(ctx, x)
                squares(ctx, x)
    ctx.sample(points='0..6', part=i)


@SUITE.scenario('pairs', quick=8, thorough=8)
def pairs(ctx, rng, i):
    for n in range(0, 5):
        for k, (x, y) in enumerate(itertools.product(itertools.permutations(range(n)), repeat=2)):
            if k % 8 == i:
                ctx.describe(x=x, y=y)
                two(ctx, x, y)


@SUITE.scenario('reduced_words', quick=8, thorough=8)
def reduced_words(ctx, rng, i):
    """The least among all reduced words, listed by force."""
    for n in range(0, 6):
        for k, x in enumerate(itertools.permutations(range(n))):
            if k % 8 == i:
                if MP.inversions(x) <= (10 if ctx.thorough else 8):
                    ctx.eq(tuple(P.shortlex(x)), min(MP.all_reduced_words(x)), 'shortlex', x=x)
                    ctx.hit('all_words')


@SUITE.scenario('random', quick=12000, thorough=120000)
def random_perms(ctx, rng, i):
    n = rng.choice((1, 2, 3, 5, 7, 8, 9, 10, 12, 16, 25))
    if i % 40 == 0:
        n = rng.choice((40, 60))
    x, y = random_perm(rng, n), random_perm(rng, n)
    one(ctx, x)
    two(ctx, x, y)
    ctx.sample(x=x)


@SUITE.scenario('words', quick=20000, thorough=100000)
def words(ctx, rng, i):
    """Words need not be reduced, cycles need not be disjoint."""
    n = rng.choice((2, 3, 4, 5, 7, 10, 20))
    word = tuple(rng.randrange(n - 1) for _ in range(rng.choice((0, 1, 2, 5, 12, 40))))
    G = SymmetricGroup(n)
    ctx.describe(n=n, word=word)
    want = MP.from_word(n, word)
    ctx.eq(tuple(P.from_cox(n, word)), want, 'from_cox', n=n, word=word)
    ctx.eq(G.from_cox(list(word)).word, want, 'SymmetricGroup.from_cox', n=n, word=word)
    cycles = [tuple(rng.sample(range(n), rng.randint(1, n))) for _ in range(rng.randint(0, 4))]
    want = MP.ident(n)
    for c in cycles:
        x = list(range(n))
        for k in range(len(c)):
            x[c[k]] = c[(k + 1) % len(c)]
        ctx.eq(G.from_cycle(c).word, tuple(x), 'from_cycle', n=n, cycle=c)
        want = MP.mul(want, tuple(x))
    ctx.eq(G.from_cycles(cycles).word, want, 'from_cycles', n=n, cycles=cycles)
    i, j = rng.randrange(n), rng.randrange(n)
    ctx.eq(tuple(P.transposition(n, i, j)), MP.swap(n, i, j), 'transposition', n=n, i=i, j=j)
    ctx.distinct((n, word, tuple(cycles)))
    ctx.hit('words')


@SUITE.scenario('groups', quick=10, thorough=12)
def groups(ctx, rng, i):
    n = i
    G = SymmetricGroup(n)
    if n <= (7 if ctx.thorough else 6):
        elements = [x.word for x in G.elements()]
        ctx.check(len(elements) == len(set(elements)) and set(elements) == set(itertools.permutations(range(n))), 'elements', n=n)
    ctx.eq(G.id().word, MP.ident(n), 'identity', n=n)
    ctx.eq(tuple(P.identity(n)), MP.ident(n), 'identity', n=n)
    ctx.eq(G.longest_element().word, MP.w0(n), 'longest element', n=n)
    ctx.eq(tuple(P.longest_element(n)), MP.w0(n), 'longest element', n=n)
    ctx.eq([g.word for g in G.cox_gens()], [MP.swap(n, s, s + 1) for s in range(n - 1)], 'generators', n=n)
    refl = [g.word for g in G.reflections()]
    want = {MP.swap(n, a, b) for a, b in itertools.combinations(range(n), 2)}
    ctx.check(len(refl) == len(want) and set(refl) == want, 'reflections', n=n)
    # Element objects are usable as keys after any operations.
    ctx.check(G.id() * G.longest_element() == G.longest_element() == G.longest_element().inv(), 'longest element', n=n)
    ctx.hit('groups')


@SUITE.scenario('refused', quick=30000, thorough=60000)
def refused(ctx, rng, i):
    n = rng.choice((1, 2, 3, 4, 5, 6, 9, 30))
    x = list(random_perm(rng, n))
    k = rng.randrange(n)
    m = rng.randrange(5)
    if m == 0:
        x[k] = rng.choice((n, n + 1, -1, -n, 2 * n))
    elif m == 1 and n > 1:
        x[k] = x[k - 1]
    elif m == 2:
        x.insert(k, rng.choice(x))
    elif m == 3:
        x = [a + rng.choice((1, -1)) * 1 for a in x] if rng.random() < 0.5 else [a + 1 for a in x]
    else:
        # Same sum and same extremes as a permutation.
        if n < 4:
            x[k] = n
        else:
            a, b = [j for j in range(n) if 0 < x[j] < n - 1][:2]
            x[a] = x[b]
    bad = sorted(x) != list(range(len(x)))
    x = tuple(x)
    ctx.describe(x=x)
    ctx.eq(P.is_permutation(x), not bad, 'is_permutation', x=x)
    ctx.eq(P.is_permutation(list(x)), not bad, 'is_permutation', x=x)
    if bad:
        ctx.raises((AssertionError, ValueError), lambda: Permutation(x), 'a word which is no permutation', x=x)
        ctx.hit('refused')
        ctx.distinct(x)
    y = random_perm(rng, n + 1)
    good = random_perm(rng, n)
    ctx.raises(ValueError, lambda: Permutation(good) * Permutation(y), 'a product of permutations of different sizes')
    ctx.raises(ValueError, lambda: P.compose(good, y), 'a product of words of different sizes')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: P.transposition(n, 0, n), 'a transposition out of range')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: P.transposition(n, -1, 0), 'a transposition out of range')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: P.from_cox(n, (0,) * (n > 1) + (n - 1,)), 'a generator out of range')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: P.from_cox(n, (-1,)), 'a generator out of range')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: SymmetricGroup(n).from_cycle((0, n)), 'a cycle out of range')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: SymmetricGroup(n).from_cycle((0, 0)), 'a repeated point in a cycle')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: P.is_right_descent(good, n - 1), 'a descent out of range')
    ctx.raises((AssertionError, ValueError, IndexError), lambda: P.is_left_descent(good, n - 1), 'a descent out of range')


@SUITE.scenario('large', quick=400, thorough=3000)
def large(ctx, rng, i):
    """Hundreds of points, and almost the identity or almost the longest element."""
    n = log_size(rng, 30, 300 if ctx.thorough else 200) if i % 41 else rng.randint(300, 700)
    x, y = random_perm(rng, n), random_perm(rng, n)
    if i % 4 == 0:
        # Something happening at the far end only.
        x = list(rng.choice((MP.ident(n), MP.w0(n))))
        k = rng.randrange(2, min(n, 6))
        tail = x[-k:]
        rng.shuffle(tail)
        x = tuple(x[:-k] + tail)
    elif i % 4 == 1:
        # One descending cycle, and one with two neighbours exchanged.
        block = sorted(rng.sample(range(n), rng.randint(3, n)))
        x = list(range(n))
        order = block[::-1]
        if rng.random() < .6:
            k = rng.randrange(len(order) - 1)
            order[k], order[k + 1] = order[k + 1], order[k]
        for a, b in zip(order, order[1:] + order[:1]):
            x[a] = b
        x = tuple(x)
    elif i % 4 == 2:
        # Two cycles which may cross, near or far.
        k = rng.choice((2, 2, 3, 4))
        block = sorted(rng.sample(range(n), k + rng.choice((2, 2, 3, 4))))
        if rng.random() < .8:
            # Alternating, as long as both last.
            block = block[:2 * k:2] + block[1:2 * k:2] + block[2 * k:]
        x = MP.partition_perm(n, full(n, (block[:k], block[k:])))
    one(ctx, x)
    two(ctx, x, y)
    G = SymmetricGroup(n)
    cycles = [tuple(rng.sample(range(n), rng.randint(1, n if rng.random() < .1 else 4))) for _ in range(log_size(rng, 2, 120))]
    want = MP.ident(n)
    for c in cycles:
        z = list(range(n))
        for k in range(len(c)):
            z[c[k]] = c[(k + 1) % len(c)]
        want = MP.mul(want, tuple(z))
    ctx.eq(G.from_cycles(cycles).word, want, 'from_cycles', n=n, cycles=cycles)
    word = [rng.randrange(n - 1) for _ in range(log_size(rng, 20, 4000))]
    z = list(range(n))
    for s in word:
        z[s], z[s + 1] = z[s + 1], z[s]
    ctx.eq(tuple(P.from_cox(n, word)), tuple(z), 'from_cox', n=n)
    if n <= 60:
        refl = [g.word for g in G.reflections()]
        ctx.check(len(refl) == n * (n - 1) // 2 and set(refl) == {MP.swap(n, a, b) for a, b in itertools.combinations(range(n), 2)}, 'reflections', n=n)
    ctx.eq([g.word for g in G.cox_gens()], [MP.swap(n, s, s + 1) for s in range(n - 1)], 'generators', n=n)
    ctx.eq((G.id().word, G.longest_element().word), (MP.ident(n), MP.w0(n)), 'identity and longest element', n=n)
    # Damaged at one place.
    a, b = rng.sample(range(n), 2)
    bad = list(x)
    bad[a] = bad[b] if rng.random() < .7 else rng.choice((n, -1))
    ctx.check(not P.is_permutation(bad), 'a word with a point missing is taken for a permutation', x=bad)
    ctx.raises((AssertionError, ValueError), lambda: Permutation(tuple(bad)), 'a word which is no permutation', x=bad)
    ctx.hit('refused')
