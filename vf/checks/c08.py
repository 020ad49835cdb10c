import itertools
import math

from peyl import tl
from peyl.tl import TLDiag, TLExtDiag

from ..core import Suite
from ..lib import *
from ..model import tlm as MT

SUITE = Suite('C08',
    'All composable pairs of small diagrams and random pairs of up to 24 points a side, plain and with bubbles, are composed, juxtaposed and flipped, and compared with pictures glued by union-find on labelled points. Lists of diagrams (all types with up to 14 points, all cells with up to 10 strands) are compared with matchings generated another way. Damaged matchings are offered. Non-trivial: neither operand is an identity.',
    require={'products': 5000, 'loops': 1000, 'tensors': 2000, 'flips': 2000, 'closures': 1000, 'listed': 60, 'refused': 1000})


def random_seq(rng, size):
    """A random crossingless matching of the given even number of points."""
    seq = [0] * size

    def fill(points):
        while points:
            m = len(points) // 2
            k = rng.choice((0, m - 1, rng.randrange(m), rng.randrange(m))) * 2 + 1
            seq[points[0]], seq[points[k]] = points[k], points[0]
            fill(points[1:k])
            points = points[k + 1:]
    start = rng.randrange(size) if size else 0
    fill([(start + i) % size for i in range(size)])
    return tuple(seq)


def random_diag(rng, cls, top, bot):
    m = rng.randrange(6)
    if m == 0 and top == bot and top >= 2:
        d = MT.ident(top)
        for _ in range(rng.randint(1, 4)):
            d, _ = MT.glue(d, MT.e(rng.randrange(top - 1), top))
        seq = MT.to_seq(*d)
    elif m == 1:
        # Caps, then through-strands, then caps.
        k = min(top, bot)
        seq = MT.to_seq(*MT.beside(MT.ident(k), MT.of(TLDiag(top - k, bot - k, random_seq(rng, top + bot - 2 * k)))))
    else:
        seq = random_seq(rng, top + bot)
    return cls(top, bot, seq) if cls is TLDiag else cls(top, bot, seq, rng.choice((0, 0, 1, 2, 7)))


def bubbles_of(d):
    return getattr(d, 'bubbles', 0)


def product(ctx, x, y):
    """x on top of y, with its oracle."""
    want, loops = MT.glue(MT.of(x), MT.of(y))
    got = x * y
    if isinstance(x, TLDiag):
        ctx.check(isinstance(got, tuple) and len(got) == 2, 'product is not a pair')
        diag, k = got
        ctx.check(type(diag) is TLDiag and MT.of(diag) == want, f'product {diag}', x=x, y=y)
        ctx.eq(k, loops, 'loops in a product', x=x, y=y)
    else:
        ctx.check(type(got) is TLExtDiag and MT.of(got) == want, f'product {got}', x=x, y=y)
        ctx.eq(got.bubbles, loops + x.bubbles + y.bubbles, 'bubbles of a product', x=x, y=y)
        pure, k = got.split_bubbles()
        ctx.check(pure.bubbles == 0 and k == got.bubbles and pure.add_bubbles(k) == got, 'split_bubbles', got=got)
    seq, k = tl.compose(x.seq, y.seq, x.bot)
    ctx.check((x.top, y.bot, MT.of_seq(x.top, y.bot, seq)) == want and k == loops, 'compose', x=x, y=y)
    ctx.hit('products')
    if loops:
        ctx.hit('loops')
    for d in (x, y):
        if d.top == d.bot and MT.of(d) == MT.ident(d.top):
            return
    ctx.distinct((type(x).__name__, x.top, x.bot, x.seq, y.top, y.bot, y.seq, bubbles_of(x), bubbles_of(y)))


def unary(ctx, x):
    cls = type(x)
    m = MT.of(x)
    ctx.eq(tl.through_strands(x), MT.through(m), 'through-strands', x=x)
    for d in ((cls.id(x.top), x), (x, cls.id(x.bot))):
        p = d[0] * d[1]
        ctx.check((p if cls is TLExtDiag else p[0]) == x and (cls is TLExtDiag or p[1] == 0), 'identity is not neutral', x=x)
    if cls is TLDiag:
        f = x.flip()
        ctx.check(type(f) is TLDiag and MT.of(f) == MT.mirror(m), f'flip {f}', x=x)
        ctx.check(f.flip() == x, 'flipping twice', x=x)
        ctx.hit('flips')
        ctx.check(hash(TLDiag(x.top, x.bot, list(x.seq))) == hash(x) and TLDiag(x.top, x.bot, list(x.seq)) == x, 'rebuilding', x=x)
    if x.top == x.bot:
        ctx.eq(tl.trace_count(x.seq), MT.closure_loops(m), 'loops in the closure', x=x)
        ctx.hit('closures')


def tensor(ctx, x, y):
    t = x @ y
    ctx.check(type(t) is type(x) and MT.of(t) == MT.beside(MT.of(x), MT.of(y)), f'juxtaposition {t}', x=x, y=y)
    if isinstance(x, TLExtDiag):
        ctx.eq(t.bubbles, x.bubbles + y.bubbles, 'bubbles of a juxtaposition', x=x, y=y)
    ctx.hit('tensors')


SMALL = [(t, m, b) for t, m, b in itertools.product(range(9), repeat=3) if (t + m) % 2 == 0 and (m + b) % 2 == 0 and t + 2 * m + b <= 18]


@SUITE.scenario('exhaustive', quick=len(SMALL), thorough=len(SMALL))
def exhaustive(ctx, rng, i):
    """All products of all small diagrams of these types."""
    t, m, b = SMALL[i]
    ups = [TLDiag(t, m, s) for s in MT.matchings(t + m)]
    downs = [TLDiag(m, b, s) for s in MT.matchings(m + b)]
    if len(ups) * len(downs) > 3000 and not ctx.thorough:
        ups = rng.sample(ups, max(1, 3000 // len(downs)))
    for x in ups:
        ctx.describe(x=x)
        unary(ctx, x)
        for y in downs:
            product(ctx, x, y)
    ctx.sample(types=(t, m, b), pairs=len(ups) * len(downs))


@SUITE.scenario('random', quick=30000, thorough=150000)
def random_pairs(ctx, rng, i):
    cls = rng.choice((TLDiag, TLExtDiag))
    cap = rng.choice((4, 6, 10, 16, 24))
    t, m, b = (rng.randint(0, cap) for _ in range(3))
    if rng.random() < 0.3:
        t = m = b = cap
    t, b = t + (t + m) % 2, b + (b + m) % 2
    x, y = random_diag(rng, cls, t, m), random_diag(rng, cls, m, b)
    ctx.describe(x=x, y=y)
    product(ctx, x, y)
    for s in (x, y):
        if s.top == s.bot:
            product(ctx, s, s)
    tensor(ctx, x, x)
    unary(ctx, x)
    unary(ctx, y)
    a, c = rng.randint(0, 6), rng.randint(0, 6)
    z = random_diag(rng, cls, a, c + (a + c) % 2)
    tensor(ctx, x, z)
    tensor(ctx, z, y)
    # Interchange: (x @ z) (y @ w) = (x y) @ (z w), loops adding up.
    w = random_diag(rng, cls, z.bot, rng.randint(0, 3) * 2 + z.bot % 2)
    product(ctx, x @ z, y @ w)
    # Associativity.
    u = random_diag(rng, cls, y.bot, rng.randint(0, 3) * 2 + y.bot % 2)
    if cls is TLExtDiag:
        ctx.check((x * y) * u == x * (y * u), 'associativity', x=x, y=y, u=u)
    ctx.sample(x=x, y=y)


@SUITE.scenario('raw', quick=20000, thorough=60000)
def raw(ctx, rng, i):
    """compose and insert as functions of sequences."""
    up, down = random_seq(rng, 2 * rng.randint(0, 8)), random_seq(rng, 2 * rng.randint(0, 8))
    mid = rng.randint(0, min(len(up), len(down)))
    want, loops = MT.glue((len(up) - mid, mid, MT.of_seq(len(up) - mid, mid, up)), (mid, len(down) - mid, MT.of_seq(mid, len(down) - mid, down)))
    ctx.describe(up=up, down=down, mid=mid)
    seq, k = tl.compose(list(up), down, mid)
    ctx.check(tuple(seq) == MT.to_seq(*want) and k == loops, f'compose {seq}, {k}', up=up, down=down, mid=mid)
    ctx.hit('products')
    pos = rng.randint(0, len(up))
    got = tl.insert(up, down, pos)
    old = [p if p < pos else p + len(down) for p in range(len(up))]
    want = [None] * (len(up) + len(down))
    for p, q in enumerate(up):
        want[old[p]] = old[q]
    for p, q in enumerate(down):
        want[p + pos] = q + pos
    ctx.eq(tuple(got), tuple(want), 'insert', up=up, down=down, pos=pos)
    ctx.raises((AssertionError, ValueError, IndexError), lambda: tl.compose(up, down, min(len(up), len(down)) + 1), 'too many middle points')


@SUITE.scenario('lists', quick=12, thorough=14)
def lists(ctx, rng, i):
    n = i
    if n % 2 == 0:
        got = list(tl.generate_sequences(n))
        ctx.check(len(got) == len(set(got)) and set(got) == set(MT.matchings(n)), 'generate_sequences', n=n)
        ctx.hit('listed')
    else:
        ctx.raises(ValueError, lambda: list(tl.generate_sequences(n)), 'an odd number of points')
        ctx.raises(ValueError, lambda: list(tl.generate_sequences(-n - 1)), 'a negative number of points')
    for top in range(n + 1):
        bot = n - top
        if n % 2 == 0:
            basis = tl.tl_basis(top, bot)
            want = {TLDiag(top, bot, s) for s in MT.matchings(n)}
            ctx.check(len(basis) == len(set(basis)) and set(basis) == want, 'tl_basis', top=top, bot=bot)
            ctx.hit('listed')
            if bot <= top:
                tab = tl.tl_tableaux_basis(top, bot)
                want = {d for d in want if MT.through(MT.of(d)) == bot}
                ctx.check(len(tab) == len(set(tab)) and set(tab) == want, 'tl_tableaux_basis', top=top, bot=bot)
        else:
            ctx.raises((AssertionError, ValueError), lambda: tl.tl_basis(top, bot), 'a type of odd size')
    for r in range(n // 2 + 1):
        s = n - 2 * r
        if n <= 8 or ctx.thorough or r <= 2:
            want = {(n, s, seq) for seq in MT.matchings(n + s) if MT.through((n, s, MT.of_seq(n, s, seq))) == s} if n + s <= 16 else None
            got = [(d.top, d.bot, d.seq) for d in tl.cell_basis(n, r)]
            ctx.check(len(got) == len(set(got)), 'cell_basis repeats', n=n, r=r)
            ctx.check(all(d[:2] == (n, s) and MT.planar(d[2]) and MT.through((n, s, MT.of_seq(*d))) == s for d in got), 'cell_basis', n=n, r=r)
            ctx.check(want is None or set(got) == want, 'cell_basis', n=n, r=r)
            ctx.eq(len(got), math.comb(n, r) - (math.comb(n, r - 1) if r else 0), 'size of a cell', n=n, r=r)
            ctx.eq(len(got), tl.cell_dimension(n, r), 'cell_dimension', n=n, r=r)
            ctx.hit('listed')
    for cls in (TLDiag, TLExtDiag):
        ctx.check(MT.of(cls.id(n)) == MT.ident(n), 'identity', n=n)
    for k in range(n - 1):
        d = TLExtDiag.e(k, n)
        ctx.check(MT.of(d) == MT.e(k, n) and d.bubbles == 0, 'e', k=k, n=n)
        ctx.check(d * d == d.add_bubbles(1), 'e is not quasi-idempotent', k=k, n=n)
    for k in (-1, n - 1, n):
        ctx.raises((AssertionError, ValueError, IndexError), lambda: TLExtDiag.e(k, n), 'a generator out of range')
    ctx.raises((AssertionError, ValueError), lambda: tl.cell_dimension(n, n // 2 + 1), 'a cell out of range')


@SUITE.scenario('temperley_lieb', quick=200, thorough=4000)
def temperley_lieb(ctx, rng, i):
    """Words in the generators with bubbles counted, against the pictures."""
    n = rng.randint(2, 9)
    acc, model, loops = TLExtDiag.id(n), MT.ident(n), 0
    for _ in range(rng.randint(1, 40)):
        k = rng.randrange(n - 1)
        acc = acc * TLExtDiag.e(k, n)
        model, extra = MT.glue(model, MT.e(k, n))
        loops += extra
        ctx.check(MT.of(acc) == model and acc.bubbles == loops, 'a word in the generators', n=n)
    ctx.hit('products')


@SUITE.scenario('refused', quick=30000, thorough=100000)
def refused(ctx, rng, i):
    size = 2 * rng.randint(1, 8)
    seq = list(random_seq(rng, size))
    m = rng.randrange(7)
    if m == 0 and size >= 4:
        arcs = [(k, seq[k]) for k in range(size) if k < seq[k]]
        p, q, r, s = sorted(sum(rng.sample(arcs, 2), ()))
        seq[p], seq[r], seq[q], seq[s] = r, p, s, q
    elif m == 1:
        k = rng.randrange(size)
        seq[k] = k
    elif m == 2:
        k, l = rng.sample(range(size), 2)
        seq[k] = seq[l]
    elif m == 3:
        seq[rng.randrange(size)] = rng.choice((-1, size, -size, 2 * size))
    elif m == 4:
        rng.shuffle(seq)
    elif m == 5:
        # A fixed-point-free involution at random.
        pts = list(range(size))
        rng.shuffle(pts)
        for a, b in zip(pts[::2], pts[1::2]):
            seq[a], seq[b] = b, a
    good = MT.planar(seq)
    ctx.describe(seq=seq)
    ctx.eq(tl.is_crossingless_matching(seq), good, 'is_crossingless_matching', seq=seq)
    ctx.eq(tl.is_crossingless_matching(tuple(seq)), good, 'is_crossingless_matching', seq=seq)
    bot = rng.randint(0, size)
    for cls in (TLDiag, TLExtDiag):
        if good:
            ctx.check(MT.of(cls(size - bot, bot, seq))[2] == MT.of_seq(size - bot, bot, seq), 'construction', seq=seq)
        else:
            ctx.raises((AssertionError, ValueError), lambda: cls(size - bot, bot, tuple(seq)), 'a damaged matching', seq=seq)
            ctx.hit('refused')
            ctx.distinct(tuple(seq))
        fine = random_seq(rng, size)
        ctx.raises((AssertionError, ValueError), lambda: cls(size - bot + 1, bot, fine), 'a wrong number of points')
        ctx.raises((AssertionError, ValueError), lambda: cls(size + 1, -1, fine), 'a negative number of points')
        ctx.raises((AssertionError, ValueError), lambda: cls(-2, size + 2, fine), 'a negative number of points')
        a, b = random_diag(rng, cls, 3, 5), random_diag(rng, cls, 3, 5)
        ctx.raises(ValueError, lambda: a * b, 'a product of incompatible diagrams')
    d = random_diag(rng, TLDiag, 2, 2)
    ctx.raises(TypeError, lambda: d * 3, 'a product with a number')


@SUITE.scenario('large', quick=900, thorough=8000)
def large(ctx, rng, i):
    """Hundreds of points a side, deep nesting, many loops and many bubbles."""
    cls = (TLDiag, TLExtDiag)[i % 2]
    cap = log_size(rng, 24, 260)

    def diag(top, bot):
        m = rng.randrange(4)
        if m == 0:
            # Nested caps (or cups, or both), turned a little.
            size, k = top + bot, rng.randint(0, 3)
            seq = [0] * size
            for p in range(size // 2):
                a, b = (p + k) % size, (size - 1 - p + k) % size
                seq[a], seq[b] = b, a
        elif m == 1:
            # Small caps side by side, turned or not.
            size, k = top + bot, rng.randint(0, 1)
            seq = [0] * size
            for p in range(0, size, 2):
                a, b = (p + k) % size, (p + 1 + k) % size
                seq[a], seq[b] = b, a
        else:
            return random_diag(rng, cls, top, bot)
        return cls(top, bot, seq) if cls is TLDiag else cls(top, bot, seq, rng.choice((0, 3, 10**6, 2**70)))
    t, m, b = (rng.randint(0, cap) for _ in range(3))
    if rng.random() < .4:
        t = m = b = cap
    elif rng.random() < .3:
        t = rng.randint(0, 2)
    t, b = t + (t + m) % 2, b + (b + m) % 2
    x, y = diag(t, m), diag(m, b)
    ctx.describe(x=x, y=y)
    product(ctx, x, y)
    unary(ctx, x)
    unary(ctx, y)
    c = cap + (cap + t) % 2
    z = diag(c, t)
    tensor(ctx, x, z)
    tensor(ctx, z, x)
    product(ctx, z, x)
    n = max(cap, 2)
    s = diag(n, n)
    unary(ctx, s)
    k = rng.randrange(n - 1)
    e = TLExtDiag.e(k, n)
    ctx.check(MT.of(e) == MT.e(k, n) and e.bubbles == 0, 'e', k=k, n=n)
    ctx.check(e * e == e.add_bubbles(1), 'e is not quasi-idempotent', k=k, n=n)
    # A closed-up ring: as many loops as there are caps.
    cups = [p + 1 - 2 * (p % 2) for p in range(2 * n)]
    ctx.eq(tl.compose(cups, cups, 2 * n), ((), n), 'loops of caps on cups', n=n)
    # Two arcs made to cross, deep down or at the outside.
    seq = list(s.seq)
    arcs = sorted((q - p, p, q) for p, q in enumerate(seq) if p < q)
    if len(arcs) > 1:
        far = rng.random() < .4
        (_, a, b), (_, c, d) = (arcs[-2:] if far else rng.sample(arcs, 2))
        p, q, r, u = sorted((a, b, c, d))
        seq[p], seq[r], seq[q], seq[u] = r, p, u, q
        ctx.describe(seq=seq)
        ctx.check(not tl.is_crossingless_matching(seq), 'a crossing is overlooked', seq=seq)
        ctx.raises((AssertionError, ValueError), lambda: cls(n, n, tuple(seq)), 'a damaged matching', seq=seq)
        ctx.hit('refused')
    ctx.distinct((i, cap))
    ctx.sample(points=(t, m, b))


@SUITE.scenario('long lists', quick=6, thorough=9)
def long_lists(ctx, rng, i):
    n = 2 * (i + 4)     # 8, 10, ... 18 points (24 thorough)
    got = list(tl.generate_sequences(n))
    m = n // 2
    ctx.check(len(got) == len(set(got)) == math.comb(n, m) // (m + 1) and all(len(s) == n and MT.planar(s) for s in got), 'generate_sequences', n=n)
    ctx.hit('listed')
    for k, r in ((n, 1), (n + 20, 1), (n + 3, 2), (min(n, 14), min(n, 14) // 2), (12, i % 7), (4 * n, 0)):
        s = k - 2 * r
        cell = [(d.top, d.bot, d.seq) for d in tl.cell_basis(k, r)]
        ctx.check(len(cell) == len(set(cell)) == tl.cell_dimension(k, r) == math.comb(k, r) - (math.comb(k, r - 1) if r else 0), 'size of a cell', n=k, r=r)
        ctx.check(all(d[:2] == (k, s) and MT.planar(d[2]) and MT.through((k, s, MT.of_seq(*d))) == s for d in cell), 'cell_basis', n=k, r=r)
        ctx.hit('listed')
