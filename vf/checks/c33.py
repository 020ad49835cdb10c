import copy
import dataclasses
import itertools
import os
import pickle
import subprocess
import sys

from peyl import JonesSummand, SymmetricGroup
from peyl.poly import Poly
from peyl.tl import TLCell, TLDiag, TLExtDiag, TLMor

from .. import core
from ..core import Suite
from ..lib import *
from ..model import tlm as MT
from .c04 import follow
from .c08 import random_seq
from .c09 import lpoly, random_lpoly

SUITE = Suite('C33',
    'Pools of values of one type with many near collisions (equal fields but one, the same value built by other routes, padded, copied, from containers of other types) are generated together with a description of what each denotes. All pairs are compared with every comparison operator, hashed, put in sets and dictionaries, sorted from several shuffles, copied shallowly and deeply and pickled under every protocol, in the same process and through other processes with other hash seeds; results must follow the descriptions. Containers given to constructors are emptied and filled with other things afterwards, lists received from values likewise; assignments to fields of immutable types must fail; copies must serve as operands like their originals. Braids of up to forty factors agree in all but the last few. Non-trivial: a pool with equal values built differently.',
    require={'pairs': 50000, 'equal pairs': 3000, 'copies': 3000, 'sorted': 400, 'assignments': 2000, 'containers': 500, 'operands': 1000, 'across processes': 300})


def key_bits(rng):
    return rng.choice((0, 1, -1, 2))


# For each type: a description, a variation of it, and values from it.
def some_factors(rng, kind, n):
    b = random_braid(rng, kind, n, length=rng.choice((0, 1, 2, 3, 3, log_size(rng, 4, 40))))
    return tuple(factor_perm(f) for f in b.canonical_factors())


def make_braid(kind, n, power, perms, rng):
    cls, B = KINDS[kind], BraidGroup(n)
    m = rng.randrange(5)
    if kind == 'GNF':
        base = GNF.from_perm_seq(n, [Permutation(w) for w in perms])
        if m == 0:
            return B.from_gnf_pair((power, perms))
    else:
        base = DGNF.from_npar_seq(n, [NPar.from_components(n, [c for c in MP.cycles(w)]) for w in perms])
    b = cls(n, power, base.factors)
    if m == 1:
        return b * cls.identity(n)
    if m == 2:
        return b.inv().inv()
    if m == 3:
        return cls(n, power - 1, ()) * cls(n, 1, base.factors)
    return b


def braids(kind):
    def first(rng):
        n = rng.choice((2, 3, 4)) if kind == 'GNF' else rng.choice((3, 4))
        return n, rng.randint(-2, 3), some_factors(rng, kind, n) if n > 2 else ()

    def vary(rng, key):
        n, power, perms = key
        m = rng.randrange(5)
        if m == 4 and perms:
            # Equal up to the last factor, or the last few.
            keep = len(perms) - rng.choice((1, 1, 2, rng.randint(1, len(perms))))
            more = perms[:max(keep, 0)]
            while len(more) < len(perms):
                more += (rng.choice(follow(kind, n, more[-1] if more else None)),)
            return n, power, more
        if m == 0:
            return n, power + rng.choice((1, -1, 2)), perms
        if m == 1 and perms:
            return (n, power, perms[:-1]) if rng.random() < .5 else (n, power, perms[1:])
        if m == 2 and n > 2:
            return n, power, some_factors(rng, kind, n)
        return (5 - n if n < 4 else 3), power, () if not perms or n == 3 or kind == 'DGNF' else ()
    return first, vary, lambda rng, key: make_braid(kind, *key, rng), lambda b: (b.n, b.inf(), tuple(factor_perm(f) for f in b.canonical_factors()))


def perm_first(rng):
    n = rng.choice((1, 2, 3, 3, 4, 5))
    w = list(range(n))
    rng.shuffle(w)
    return tuple(w)


def perm_make(rng, w):
    x = Permutation(w)
    m = rng.randrange(4)
    return x if m == 0 else Permutation(tuple(list(w))) if m == 1 else x.inv().inv() if m == 2 else x * Permutation(MP.ident(len(w)))


def npar_first(rng):
    from .c07 import full, random_blocks
    n = rng.choice((1, 2, 3, 3, 4, 5))
    return n, full(n, random_blocks(rng, n))


def npar_make(rng, key):
    n, blocks = key
    x = NPar.from_components(n, rng.choice((lambda: blocks, lambda: [set(b) for b in blocks if len(b) > 1], lambda: [b[::-1] for b in blocks[::-1]]))())
    m = rng.randrange(3)
    return x if m == 0 else x.left_complement().right_complement() if m == 1 else NPar.from_permutation(x.to_permutation())


def lp_vary(rng, key):
    d = dict(key)
    k = rng.choice([*d, rng.randint(-2, 2)])
    d[k] = d.get(k, 0) + rng.choice((1, -1))
    if rng.random() < .3:
        d = {k + 1: c for k, c in d.items()}
    return tuple(sorted((k, c) for k, c in d.items() if c))


def lp_make(rng, key):
    x = lpoly(dict(key), rng)
    m = rng.randrange(3)
    return x if m == 0 else (x + lpoly({1: 1})) - lpoly({1: 1}) if m == 1 else LPoly(x.val, list(x.coeffs))


def poly_make(rng, key):
    d = dict(key)
    coeffs = [d.get(k, 0) for k in range(max(d, default=-1) + 1)] + [0] * rng.randint(0, 2)
    x = Poly(*coeffs)
    return x if rng.random() < .5 else (x + Poly(0, 0, 5)) - Poly(0, 0, 5)


def matrix_first(rng):
    m, n = rng.randint(0, 3), rng.randint(0, 3)
    return m, n, tuple(key_bits(rng) for _ in range(m * n)), rng.random() < .4


def matrix_vary(rng, key):
    m, n, data, poly = key
    k = rng.randrange(4)
    if k == 0:
        return n, m, data, poly
    if k == 1 and data:
        j = rng.randrange(len(data))
        return m, n, data[:j] + (data[j] + 1,) + data[j + 1:], poly
    if k == 2 and data:
        return m * n, 1, data, poly
    return matrix_first(rng) if not data else (m, n, data[::-1], poly)


def matrix_make(rng, key):
    m, n, data, poly = key
    x = Matrix(m, n, tuple(LPoly(0, (c,)) if poly else c for c in data))
    k = rng.randrange(3)
    return x if k == 0 else x.transpose().transpose() if k == 1 or not (m and n) else Matrix.from_rows(x.rows())


def diag_first(rng):
    top, bot = rng.randint(0, 3), rng.randint(0, 3)
    bot += (top + bot) % 2
    return top, bot, random_seq(rng, top + bot), 0


def diag_vary(bubbles):
    def f(rng, key):
        top, bot, seq, k = key
        m = rng.randrange(3)
        if m == 0 and bubbles:
            return top, bot, seq, k + 1
        if m == 1 and top + 1 <= top + bot:
            return bot, top, seq, k
        return top, bot, random_seq(rng, top + bot), k
    return f


def diag_make(cls):
    def f(rng, key):
        top, bot, seq, k = key
        seq = rng.choice((tuple, list))(seq)
        x = cls(top, bot, seq, k) if cls is TLExtDiag else cls(top, bot, seq)
        return x if rng.random() < .5 else x.flip().flip() if hasattr(x, 'flip') else x
    return f


def mor_first(rng):
    top, bot, *_ = diag_first(rng)
    terms = {random_seq(rng, top + bot): tuple(sorted(random_lpoly(rng).items())) for _ in range(rng.randint(0, 3))}
    return top, bot, tuple(sorted((s, c) for s, c in terms.items() if c))


def mor_vary(rng, key):
    top, bot, terms = key
    m = rng.randrange(4)
    if m == 0:
        return bot, top, terms
    if m == 1 and terms:
        return top, bot, terms[1:]
    if m == 2 and terms:
        return top, bot, tuple((s, lp_vary(rng, c) or c) for s, c in terms)
    s = random_seq(rng, top + bot)
    return top, bot, tuple(sorted({**dict(terms), s: ((0, 1),)}.items()))


def mor_make(rng, key):
    top, bot, terms = key
    items = [(TLDiag(top, bot, s), lpoly(dict(c), rng)) for s, c in terms]
    rng.shuffle(items)
    if rng.random() < .4:
        zero = TLDiag(top, bot, random_seq(rng, top + bot))
        if all(d != zero for d, _ in items):
            items.insert(rng.randint(0, len(items)), (zero, LPoly(0, ())))
    x = TLMor(top, bot, dict(items))
    return x if rng.random() < .5 else (x + x) - x


def tuple_first(lo):
    def f(rng):
        n = rng.randint(lo, 5)
        return n, rng.randint(0, n // 2), rng.choice((0, 2, 3))
    return f


def tuple_vary(rng, key):
    n, r, p = key
    m = rng.randrange(3)
    return (n + 1, r, p) if m == 0 else (n, (r + 1) % (n // 2 + 1), p) if m == 1 else (n, r, 5 - p)


TYPES = {
    'GNF': (*braids('GNF'), GNF), 'DGNF': (*braids('DGNF'), DGNF),
    'Permutation': (perm_first, lambda rng, w: rng.choice((MP.inv(w), w + (len(w),), w[::-1])), perm_make, lambda x: tuple(x.word), Permutation),
    'NPar': (npar_first, lambda rng, key: npar_first(rng), npar_make, lambda x: (x.n, blocks_of(x)), NPar),
    'LPoly': (lambda rng: tuple(sorted(random_lpoly(rng).items())), lp_vary, lp_make, lambda x: tuple(sorted(lp.of(x).items())), LPoly),
    'Poly': (lambda rng: tuple(sorted((abs(k), c) for k, c in random_lpoly(rng).items() if k >= 0)), lambda rng, key: tuple((k, c) for k, c in lp_vary(rng, key) if k >= 0), poly_make, lambda x: tuple((k, c) for k, c in enumerate(x.coeffs) if c), Poly),
    'Matrix': (matrix_first, matrix_vary, matrix_make, None, Matrix),
    'TLDiag': (diag_first, diag_vary(False), diag_make(TLDiag), lambda x: (x.top, x.bot, tuple(x.seq), 0), TLDiag),
    'TLExtDiag': (diag_first, diag_vary(True), diag_make(TLExtDiag), lambda x: (x.top, x.bot, tuple(x.seq), x.bubbles), TLExtDiag),
    'TLMor': (mor_first, mor_vary, mor_make, lambda x: (x.top, x.bot, tuple(sorted((tuple(d.seq), tuple(sorted(lp.of(c).items()))) for d, c in x.terms.items()))), TLMor),
    'JonesSummand': (tuple_first(1), tuple_vary, lambda rng, k: JonesSummand(*k) if rng.random() < .5 else JonesSummand(n=k[0], r=k[1], p=k[2]), lambda x: (x.n, x.r, x.p), JonesSummand),
    'TLCell': (lambda rng: tuple_first(0)(rng)[:2], lambda rng, k: tuple_vary(rng, (*k, 0))[:2], lambda rng, k: TLCell(*k), lambda x: (x.n, x.r), TLCell),
    'BraidGroup': (lambda rng: rng.randint(1, 6), lambda rng, k: k + 1, lambda rng, k: BraidGroup(k), lambda x: x.n, BraidGroup),
    'SymmetricGroup': (lambda rng: rng.randint(0, 6), lambda rng, k: k + 1, lambda rng, k: SymmetricGroup(k), lambda x: x.n, SymmetricGroup),
}
HASHED = {'GNF', 'DGNF', 'Permutation', 'NPar', 'LPoly', 'Matrix', 'TLDiag', 'JonesSummand', 'TLCell', 'BraidGroup', 'SymmetricGroup'}
ORDERED = {'GNF', 'DGNF', 'TLDiag'}
FROZEN = {'GNF', 'DGNF', 'Permutation', 'NPar', 'Matrix', 'JonesSummand', 'TLCell', 'BraidGroup', 'SymmetricGroup'}


def norm(name, key):
    """Descriptions of equal matrices are equal."""
    if name == 'Matrix':
        m, n, data, poly = key
        return m, n, data, poly and bool(data)
    return key


def pool_keys(rng, name, size):
    first, vary = TYPES[name][:2]
    keys = [first(rng)]
    while len(keys) < size:
        m = rng.random()
        keys.append(rng.choice(keys) if m < .35 else vary(rng, rng.choice(keys)) if m < .85 else first(rng))
    return keys


def pool(rng, name, size):
    return [(norm(name, k), TYPES[name][2](rng, k)) for k in pool_keys(rng, name, size)]


def meaning(ctx, name, x, key, what):
    cls, read = TYPES[name][4], TYPES[name][3]
    ctx.check(type(x) is cls, f'{what}: another type', x=x)
    if read:
        ctx.eq(read(x), key, f'{what}: denotes something else')
    else:
        m, n, data, poly = key
        ctx.check((x.nrows, x.ncols) == (m, n) and [x[i, j] for i in range(m) for j in range(n)] == [LPoly(0, (c,)) if poly else c for c in data], f'{what}: denotes something else', x=x)


NAMES = list(TYPES)


@SUITE.scenario('comparisons', quick=2400, thorough=60000)
def comparisons(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    values = pool(rng, name, 10)
    ctx.describe(name=name, values=[k for k, _ in values])
    for (k, x), (l, y) in itertools.product(values, repeat=2):
        same = k == l
        ctx.check((x == y) is same and (x != y) is (not same), f'{name}: equality', x=x, y=y, same=same)
        if same and name in HASHED:
            ctx.check(hash(x) == hash(y), f'{name}: equal values with different hashes', x=x, y=y)
        if name in ORDERED:
            less, more = x < y, x > y
            ctx.check((less, more) in ((True, False), (False, True)) if not same else not less and not more, f'{name}: order', x=x, y=y)
            ctx.check((x <= y) is (not more) and (x >= y) is (not less), f'{name}: order', x=x, y=y)
        ctx.hit('pairs')
        ctx.hit('equal pairs', same and x is not y)
    if len({k for k, _ in values}) < len(values):
        ctx.distinct((name, [k for k, _ in values]))
        ctx.sample(name=name, values=[x for _, x in values[:4]])
    if name in HASHED:
        ctx.eq(len({x for _, x in values}), len({k for k, _ in values}), f'{name}: size of a set')
        d = {}
        for j, (k, x) in enumerate(values):
            d.setdefault(x, []).append(j)
        want = {}
        for j, (k, x) in enumerate(values):
            want.setdefault(k, []).append(j)
        ctx.eq(list(d.values()), list(want.values()), f'{name}: as dictionary keys')
    ctx.check(all([y for _, y in values].count(x) == [l for l, _ in values].count(k) and [y for _, y in values].index(x) == [l for l, _ in values].index(k) for k, x in values), f'{name}: in lists')
    if name in ORDERED:
        orders = []
        for _ in range(3):
            rng.shuffle(values)
            orders.append([k for k, _ in sorted(values, key=lambda t: t[1])])
        ctx.check(orders[0] == orders[1] == orders[2], f'{name}: sorting depends on the order before')
        s = sorted(x for _, x in values)
        ctx.check(all(x <= y for x, y in itertools.combinations(s, 2)), f'{name}: the order is not transitive', s=s)
        ctx.check(min(x for _, x in values) == s[0] and max(x for _, x in values) == s[-1], f'{name}: minimum and maximum', s=s)
        ctx.hit('sorted')
    # Values of other types are different, whatever their fields.
    other = rng.choice([o for o in NAMES if o != name])
    x, y = rng.choice(values)[1], pool(rng, other, 1)[0][1]
    for z in (y, None, 'x', (), x.__dict__ if hasattr(x, '__dict__') else [], object()):
        ctx.check((x == z) is False and (x != z) is True and (z == x) is False, f'{name}: equal to something of another type', x=x, z=z)


@SUITE.scenario('same fields', quick=400, thorough=8000)
def same_fields(ctx, rng, i):
    """Values of different types with the same fields."""
    n, k = rng.randint(2, 5), rng.randint(-3, 3)
    top, bot, seq, _ = diag_first(rng)
    d = tuple(rng.randint(0, 3) for _ in range(3)) + (1,)
    for x, y in ((GNF(n, k, ()), DGNF(n, k, ())), (TLDiag(top, bot, seq), TLExtDiag(top, bot, seq, 0)), (BraidGroup(n), SymmetricGroup(n)), (TLCell(n, n // 2), JonesSummand(n, n // 2)), (LPoly(0, d), Poly(*d)), (GNF(n, k, ()), BraidGroup(n)),
                 (TLMor(top, bot, {TLDiag(top, bot, seq): LPoly(0, (1,))}), TLDiag(top, bot, seq)), (Permutation((1, 0)), (1, 0)), (Matrix(1, 1, (3,)), 3)):
        ctx.check((x == y) is False and (y == x) is False and x != y, 'equal values of different types', x=x, y=y)
        ctx.hit('pairs')
    ctx.check(len({GNF(n, k, ()), DGNF(n, k, ())}) == 2, 'braids of different kinds in a set')
    for x, y in ((GNF(n, k, ()), DGNF(n, k, ())), (TLDiag(top, bot, seq), TLExtDiag(top, bot, seq, 0)), (GNF(n, k, ()), 3)):
        ctx.raises(TypeError, lambda: x < y, 'an order between different types', x=x, y=y)
        ctx.raises(TypeError, lambda: y <= x, 'an order between different types', x=x, y=y)


def operate(name, x, y):
    """Something that uses both values, or None if they do not go together."""
    try:
        if name in ('GNF', 'DGNF'):
            return (x * y, x.inv(), y.canonical_decomposition())
        if name in ('Permutation', 'LPoly', 'Poly', 'TLMor', 'TLExtDiag', 'TLDiag', 'Matrix'):
            return x * y
        if name == 'NPar':
            return (x.left_complement(), y.to_permutation())
        if name == 'JonesSummand':
            return (x.dimension(), x.dtype(), y.n)
        if name == 'TLCell':
            return (x.dim(), y.basis_diagrams())
        if name == 'BraidGroup':
            return x.count_all_of_garside_length(2) if x.n < 5 else x.n
        return x.order() if hasattr(x, 'order') else x
    except (AssertionError, ValueError):
        return None


@SUITE.scenario('copies', quick=1600, thorough=40000)
def copies(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    values = pool(rng, name, 4)
    ctx.describe(name=name, values=[k for k, _ in values])
    (k, x), (l, y) = values[0], rng.choice(values)
    protocol = rng.randint(0, pickle.HIGHEST_PROTOCOL)
    for what, f in (('copy', copy.copy), ('deep copy', copy.deepcopy), ('pickle', lambda v: pickle.loads(pickle.dumps(v, protocol))), ('list of pickles', lambda v: pickle.loads(pickle.dumps([v, v, [v]], protocol))[2][0])):
        c = f(x)
        meaning(ctx, name, c, k, what)
        ctx.check(c == x and x == c and not c != x and (c == y) is (k == l), f'{name}: a {what} differs from its original', x=x, c=c)
        ctx.eq(repr(c), repr(x), f'{name}: a {what} is shown differently')
        if name in HASHED:
            ctx.check(hash(c) == hash(x) and c in {x} and {x: 1}[c] == 1, f'{name}: a {what} hashes differently', x=x)
        ctx.hit('copies')
        want = operate(name, x, y)
        ctx.check(operate(name, c, y) == want and operate(name, x, f(y)) == want and operate(name, c, f(y)) == want, f'{name}: a {what} as an operand', x=x, y=y)
        ctx.hit('operands', want is not None)
    ctx.distinct((name, k, protocol))
    if name in FROZEN:
        before = repr(x)
        for field in dataclasses.fields(x):
            # Fields of immutable values cannot be assigned or deleted.
            for act in (lambda: setattr(x, field.name, getattr(y, field.name)), lambda: setattr(x, field.name, None), lambda: delattr(x, field.name)):
                try:
                    act()
                except AttributeError:
                    pass
                else:
                    ctx.fail(f'{name}: a field was assigned to or deleted', field=field.name)
                ctx.hit('assignments')
        ctx.check(repr(x) == before, f'{name}: changed by refused assignments', x=x)
        meaning(ctx, name, x, k, 'after refused assignments')


def scramble(rng, box):
    """Change a container in some way."""
    if isinstance(box, list):
        for inner in box:
            if isinstance(inner, (list, set)):
                scramble(rng, inner)
        rng.choice((box.clear, box.reverse, lambda: box.append(0), lambda: box.extend(box[:2])))()
    elif isinstance(box, set):
        rng.choice((box.clear, lambda: box.add(0)))()
    elif isinstance(box, dict):
        for v in box.values():
            if isinstance(v, (list, set, dict)):
                scramble(rng, v)
        rng.choice((box.clear, lambda: box.popitem() if box else None))()


@SUITE.scenario('containers', quick=1600, thorough=40000)
def containers(ctx, rng, i):
    """What callers do with containers they passed in or received does not reach into a value."""
    m = i % 8
    n = rng.randint(2, 5)
    word = random_word(rng, 4, 5)
    if m == 0:
        key = npar_first(rng)
        box = [rng.choice((list, set))(b) for b in key[1]]
        x, name = NPar.from_components(key[0], box), 'NPar'
    elif m == 1:
        key = tuple(sorted(random_lpoly(rng).items()))
        d = dict(key)
        lo = min(d, default=0)
        box = [d.get(k, 0) for k in range(lo, max(d, default=0) + 1)]
        x, name = LPoly(lo, box), 'LPoly'
    elif m == 2:
        key, name = diag_first(rng), rng.choice(('TLDiag', 'TLExtDiag'))
        box = list(key[2])
        x = TYPES[name][4](key[0], key[1], box)
    elif m == 3:
        key, name = mor_first(rng), 'TLMor'
        box = {TLDiag(*key[:2], s): lpoly(dict(c)) for s, c in key[2]}
        x = TLMor(*key[:2], box)
    elif m == 4:
        rows = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(2)]
        key, name, box = (2, 3, tuple(c for r in rows for c in r), False), 'Matrix', rows
        x = Matrix.from_rows(box)
    elif m == 5:
        box = [tuple(l) for l in word]
        x, name = rng.choice((GNF, DGNF)).from_artin_word(4, box), None
    elif m == 6:
        box = [Permutation(perm_first(rng)) for _ in range(2)]
        box = [box[0], box[0].inv()]
        x, name = GNF.from_perm_seq(len(box[0].word), box), None
    else:
        box = [rng.randrange(n - 1) for _ in range(4)]
        x, name = BraidGroup(n).from_artin_word(box) if False else SymmetricGroup(n).from_cycles([[0, 1]]), None
    if name is None:
        name = type(x).__name__
        key = TYPES[name][3](x)
    ctx.describe(name=name, key=key)
    before, h = repr(x), hash(x) if name in HASHED else 0
    scramble(rng, box)
    meaning(ctx, name, x, norm(name, key), 'after changing the container it was made from')
    ctx.check(repr(x) == before and (name not in HASHED or hash(x) == h), f'{name}: follows the container it was made from', x=x)
    # Received containers.
    for method in ('components', 'edges', 'artin_word', 'rows', 'canonical_factors', 'canonical_decomposition', 'disjoint_cycles', 'shortlex', 'generators', 'elements'):
        f = getattr(x, method, None)
        if f is None or name in ('LPoly', 'SymmetricGroup'):
            continue
        got = f()
        got = got if isinstance(got, (list, set, dict, tuple)) else list(got)
        first = repr(got)
        if isinstance(got, (list, set, dict)):
            scramble(rng, got)
        again = f()
        ctx.check(repr(again if isinstance(again, (list, set, dict, tuple)) else list(again)) == first, f'{name}.{method}: follows what was done with an earlier result', x=before)
        meaning(ctx, name, x, norm(name, key), f'after changing what {method} returned')
    ctx.hit('containers')


CHILD = '''
import sys, pickle, random
sys.path[:0] = [{verif!r}, {repo!r}]
from vf.checks import c33
name, seed, data = pickle.load(sys.stdin.buffer)
values = pickle.loads(data)
rng = random.Random(seed)
keys = [c33.norm(name, k) for k in c33.pool_keys(rng, name, 8)]
own = [c33.TYPES[name][2](random.Random(9), k) for k in c33.pool_keys(random.Random(seed), name, 8)]
ok = [x == y and y == x and repr(x) == repr(y) for x, y in zip(values, own)]
if name in c33.HASHED:
    ok += [hash(x) == hash(y) and len({{x, y}}) == 1 for x, y in zip(values, own)]
    ok += [len(set(values + own)) == len(set(keys))]
pickle.dump((ok, own, values), sys.stdout.buffer, protocol=seed % 5)
'''


@SUITE.scenario('processes', quick=56, thorough=800)
def processes(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    seed = rng.randrange(10**6)
    keys = pool_keys(random.Random(seed), name, 8)
    values = [TYPES[name][2](rng, k) for k in keys]
    ctx.describe(name=name, seed=seed)
    if name in HASHED:
        # Hashes that were already asked for here must not be carried along.
        [hash(v) for v in values]
    out = subprocess.run([sys.executable, '-c', CHILD.format(verif=core.VERIF, repo=core.REPO)], input=pickle.dumps((name, seed, pickle.dumps(values, rng.randint(0, 5)))), capture_output=True,
                         env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 4000)), PYTHONDONTWRITEBYTECODE='1'), timeout=200)
    ctx.check(out.returncode == 0, 'another process failed', error=out.stderr[-500:].decode(errors='replace'))
    ok, own, back = pickle.loads(out.stdout)
    ctx.check(all(ok), f'{name}: values read in another process differ from those made there', ok=ok)
    for k, x, y, z in zip(keys, values, own, back):
        ctx.check(x == y == z and repr(x) == repr(y) == repr(z), f'{name}: values from another process differ', x=x, y=y, z=z)
        meaning(ctx, name, y, norm(name, k), 'from another process')
        if name in HASHED:
            ctx.check(len({x, y, z}) == 1, f'{name}: values from another process hash differently', x=x)
        ctx.hit('across processes')
