"""
Temperley-Lieb diagrams as sets of pairs of labelled points: ('b', i) the i-th bottom dot from the left,
('t', j) the j-th top dot from the left.  Gluing is done by union-find, loops are the components that touch
no boundary point.
"""
import functools


def of_seq(top, bot, seq):
    """From peyl's numbering: bottom 0..bot-1 left to right, then top right to left."""
    def label(i):
        return ('b', i) if i < bot else ('t', bot + top - 1 - i)
    return frozenset(frozenset((label(i), label(j))) for i, j in enumerate(seq))


def to_seq(top, bot, pairs):
    def number(x):
        return x[1] if x[0] == 'b' else bot + top - 1 - x[1]
    seq = [None] * (top + bot)
    for pair in pairs:
        x, y = map(number, pair)
        seq[x], seq[y] = y, x
    return tuple(seq)


def of(diag):
    return diag.top, diag.bot, of_seq(diag.top, diag.bot, diag.seq)


class UF:
    def __init__(self):
        self.parent = {}

    def find(self, x):
        self.parent.setdefault(x, x)
        while self.parent[x] != x:
            x = self.parent[x]
        return x

    def union(self, x, y):
        self.parent[self.find(x)] = self.find(y)

    def groups(self):
        out = {}
        for x in list(self.parent):
            out.setdefault(self.find(x), []).append(x)
        return list(out.values())


def glue(upper, lower):
    """upper on top of lower: (top, bot, pairs), number of loops."""
    assert upper[1] == lower[0]
    uf = UF()
    for pair in upper[2]:
        x, y = [('T', i) if s == 't' else ('M', i) for s, i in pair]
        uf.union(x, y)
    for pair in lower[2]:
        x, y = [('B', i) if s == 'b' else ('M', i) for s, i in pair]
        uf.union(x, y)
    pairs, loops = set(), 0
    for g in uf.groups():
        ends = [('t', i) if s == 'T' else ('b', i) for s, i in g if s != 'M']
        if ends:
            assert len(ends) == 2
            pairs.add(frozenset(ends))
        else:
            loops += 1
    return (upper[0], lower[1], frozenset(pairs)), loops


def beside(left, right):
    def move(x):
        return (x[0], x[1] + (left[0] if x[0] == 't' else left[1]))
    return (left[0] + right[0], left[1] + right[1],
            left[2] | frozenset(frozenset(map(move, p)) for p in right[2]))


def mirror(d):
    def move(x):
        return ('t' if x[0] == 'b' else 'b', x[1])
    return (d[1], d[0], frozenset(frozenset(map(move, p)) for p in d[2]))


def ident(n):
    return (n, n, frozenset(frozenset((('t', i), ('b', i))) for i in range(n)))


def e(i, n):
    return (n, n, frozenset([frozenset((('t', i), ('t', i + 1))), frozenset((('b', i), ('b', i + 1)))]
                            + [frozenset((('t', j), ('b', j))) for j in range(n) if j not in (i, i + 1)]))


def closure_loops(d):
    """Loops when the k-th top dot is joined to the k-th bottom dot."""
    assert d[0] == d[1]
    uf = UF()
    for pair in d[2]:
        uf.union(*pair)
    for i in range(d[0]):
        uf.union(('t', i), ('b', i))
    return len(uf.groups())


def through(d):
    return sum(1 for p in d[2] if len({s for s, _ in p}) == 2)


def planar(seq):
    """Is seq a fixed-point-free involution without crossing pairs?"""
    n = len(seq)
    for i, j in enumerate(seq):
        if not isinstance(j, int) or not 0 <= j < n or j == i or seq[j] != i:
            return False
    arcs = [(i, j) for i, j in enumerate(seq) if i < j]
    return not any(a < c < b < d for a, b in arcs for c, d in arcs)


@functools.lru_cache(maxsize=None)
def matchings(n):
    """All crossingless matchings of n points, as sequences, by the partner of the first point."""
    if n == 0:
        return ((),)
    out = []
    for j in range(1, n, 2):
        for inner in matchings(j - 1):
            for outer in matchings(n - j - 1):
                out.append((j,) + tuple(x + 1 for x in inner) + (0,) + tuple(x + j + 1 for x in outer))
    return tuple(out)
