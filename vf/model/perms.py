"""Permutations as tuples, straight from the definitions.  (x*y)(i) = x(y(i))."""
import functools
import itertools


def ident(n):
    return tuple(range(n))


def w0(n):
    return tuple(reversed(range(n)))


def mul(x, y):
    return tuple(x[y[i]] for i in range(len(x)))


def inv(x):
    return tuple(sorted(range(len(x)), key=lambda i: x[i]))


def swap(n, i, j):
    t = list(range(n))
    t[i], t[j] = t[j], t[i]
    return tuple(t)


def inversions(x):
    return sum(1 for i, j in itertools.combinations(range(len(x)), 2) if x[i] > x[j])


def rdes(x):
    """i with l(x s_i) < l(x), by comparing inversion numbers."""
    n = len(x)
    return {i for i in range(n - 1) if inversions(mul(x, swap(n, i, i + 1))) < inversions(x)}


def ldes(x):
    n = len(x)
    return {i for i in range(n - 1) if inversions(mul(swap(n, i, i + 1), x)) < inversions(x)}


def from_word(n, word):
    return functools.reduce(mul, (swap(n, s, s + 1) for s in word), ident(n))


@functools.lru_cache(maxsize=None)
def reduced_word(x):
    """Some reduced word of x (not the lex-least one): peel off the largest right descent."""
    n, word, x = len(x), [], tuple(x)
    while x != ident(n):
        s = max(i for i in range(n - 1) if x[i] > x[i + 1])
        x = mul(x, swap(n, s, s + 1))
        word.append(s)
    return tuple(reversed(word))


@functools.lru_cache(maxsize=None)
def lex_least_word(x):
    """Lexicographically least reduced word: repeatedly take the least left descent."""
    n, word = len(x), []
    while x != ident(n):
        s = min(i for i in range(n - 1) if x.index(i) > x.index(i + 1))
        x = mul(swap(n, s, s + 1), x)
        word.append(s)
    return tuple(word)


def all_reduced_words(x):
    if x == ident(len(x)):
        yield ()
        return
    n = len(x)
    for s in range(n - 1):
        if x[s] > x[s + 1]:
            for w in all_reduced_words(mul(x, swap(n, s, s + 1))):
                yield w + (s,)


def cycles(x):
    seen, out = set(), []
    for i in range(len(x)):
        if i not in seen:
            c, j = [], i
            while j not in seen:
                seen.add(j)
                c.append(j)
                j = x[j]
            out.append(tuple(c))
    return out


def rank_sign(x):
    return (-1) ** inversions(x)


# Braids: a word is a sequence of (i, e), e any integer.

@functools.lru_cache(maxsize=None)
def delta_word(n):
    return tuple((s, 1) for s in reduced_word(w0(n)))


@functools.lru_cache(maxsize=None)
def lift_word(x):
    return tuple((s, 1) for s in reduced_word(tuple(x)))


def inverse_word(word):
    return tuple((i, -e) for i, e in reversed(tuple(word)))


def power_word(word, k):
    word = tuple(word)
    return word * k if k >= 0 else inverse_word(word) * -k


# The dual structure: blocks are sorted tuples.

def a_word(s, t):
    """Band generator, s < t: σ(t-1)...σ(s+1) σ(s) σ(s+1)^-1...σ(t-1)^-1."""
    assert s < t
    up = tuple((i, 1) for i in range(t - 1, s, -1))
    return up + ((s, 1),) + inverse_word(up)


def block_word(block):
    b = sorted(block)
    out = ()
    for i in range(len(b) - 2, -1, -1):
        out += a_word(b[i], b[i + 1])
    return out


@functools.lru_cache(maxsize=None)
def partition_word(blocks):
    out = ()
    for b in blocks:
        out += block_word(b)
    return out


@functools.lru_cache(maxsize=None)
def small_delta_word(n):
    return tuple((i, 1) for i in range(n - 2, -1, -1))


def partition_perm(n, blocks):
    """Descending cycles: each element goes to the one below it in its block, the least to the greatest."""
    x = list(range(n))
    for b in blocks:
        b = sorted(b)
        for k in range(len(b)):
            x[b[k]] = b[k - 1]
    return tuple(x)


def noncrossing(blocks):
    for b, c in itertools.combinations([sorted(b) for b in blocks], 2):
        for p, q in itertools.combinations(b, 2):
            inside = [p < x < q for x in c]
            if any(inside) and not all(inside):
                return False
    return True


@functools.lru_cache(maxsize=None)
def set_partitions(n):
    """All set partitions of range(n), as sorted tuples of sorted tuples."""
    if n == 0:
        return [()]
    out = []
    for p in set_partitions(n - 1):
        for k in range(len(p)):
            out.append(tuple(sorted(b + (n - 1,) if i == k else b for i, b in enumerate(p))))
        out.append(tuple(sorted(p + ((n - 1,),))))
    return out


@functools.lru_cache(maxsize=None)
def noncrossing_partitions(n):
    """By the block of the largest element: the gaps it leaves are partitioned independently."""
    return [tuple(sorted(p)) for p in _ncp(tuple(range(n)))]


@functools.lru_cache(maxsize=None)
def _ncp(points):
    if not points:
        return [()]
    out, first, rest = [], points[0], points[1:]
    for k in range(len(rest) + 1):
        for extra in itertools.combinations(range(len(rest)), k):
            block = (first,) + tuple(rest[i] for i in extra)
            cuts = [-1] + list(extra) + [len(rest)]
            gaps = [rest[a + 1:b] for a, b in zip(cuts, cuts[1:])]
            for parts in itertools.product(*[_ncp(g) for g in gaps]):
                out.append((block,) + tuple(b for p in parts for b in p))
    return out


def same_block_pairs(x):
    return {frozenset(p) for c in cycles(x) for p in itertools.combinations(c, 2)}


@functools.lru_cache(maxsize=None)
def dual_left_weighted(n, x, y):
    """Partitions x, y by their permutations: nothing of y can be moved into x, i.e. (x^-1 δ) ∧ y = 1."""
    delta = partition_perm(n, (tuple(range(n)),))
    return not (same_block_pairs(mul(inv(x), delta)) & same_block_pairs(y))


@functools.lru_cache(maxsize=None)
def left_weighted(x, y):
    """Permutations x, y: every left descent of y is a right descent of x."""
    return all(x[s] > x[s + 1] for s in range(len(x) - 1) if y.index(s) > y.index(s + 1))
