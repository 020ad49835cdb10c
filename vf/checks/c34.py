import functools
import gc
import itertools
import random
import tracemalloc
import weakref

import numpy as np

from peyl import JonesCellRep, JonesSummand, SymmetricGroup, bucketing, braidsearch, polymat, tl
from peyl import permutations as P
from peyl.jonesrep import LKBRep
from peyl.poly import Poly
from peyl.tl import TLDiag, TLExtDiag, TLMor, cell_basis

from .. import work
from ..core import Suite
from ..lib import *
from .c08 import random_seq
from .c09 import lpoly, random_lpoly, random_mor
from .c20 import METHODS

SUITE = Suite('C34',
    'Work is measured as bytecode instructions executed inside the library, a number that does not depend on the load of the machine. About seventy operations are run on random inputs of three sizes, each double the last, and on structured ones (cancelling, periodic, exponents of 100 to 10^120, of powers and of letters of words); enumerations of astronomically many things are asked for their first items, the instructions and the memory for that being measured; tables, images and suffixes are used a second time; batches are compared with single evaluations. Weak references to the braids, polynomials, matrices, diagrams and morphisms that operations were given and returned, and to the braids and arrays that trackers were offered, show what is still held afterwards. Non-trivial: a size at which an exponential algorithm would exceed the limit many times over.',
    assumptions=['The interpreter is CPython 3.12, whose sys.monitoring counts instructions.', 'Work inside numpy and the built-in types is not counted, only how often it is asked for.'],
    require={'growth': 150, 'operations': 60, 'powers': 150, 'lazy': 150, 'reused': 50, 'batches': 40, 'forgotten': 10000, 'held': 2000, 'released': 100})


def measure(ctx, fn, limit, what, /, **kw):
    try:
        return work.instructions(fn, limit)
    except work.TooMuch:
        ctx.fail(f'{what}: more than {limit} instructions', **kw)
    except RecursionError:
        ctx.fail(f'{what}: recursion too deep', **kw)


def sample(kind, n, s, rng):
    return KINDS[kind].sample(n, s, rand=rng)


def any_perm(rng, s):
    return Permutation(tuple(rng.sample(range(s), s)))


def any_npar(rng, s):
    from .c07 import random_blocks
    return NPar.from_components(s, random_blocks(rng, s))


def any_diag(rng, s):
    return TLDiag(s, s, random_seq(rng, 2 * s))


def any_lp(rng, s):
    return LPoly(rng.randint(-5, 5), [rng.choice((1, -1, 2, 3)) for _ in range(s)])


def any_poly(rng, s):
    return Poly(*(rng.choice((1, -1, 2, 3)) for _ in range(s)))


def any_matrix(rng, s):
    return Matrix(s, s, tuple(rng.randint(-3, 3) for _ in range(s * s)))


def any_word(rng, s):
    return random_word(rng, 4, s)


@functools.cache
def warm_rep():
    rep = JonesCellRep(4, 1, 5)
    for x in itertools.chain(GNF.all_of_length(4, 1), DGNF.all_of_length(4, 1)):
        rep.evaluate(x), rep.polymat_evaluate_braid(x)
    return rep


# name: (smallest size, input of a size, operation).  Work may grow with the third power of the size at most.
# What is remembered for each size cannot be measured twice: the factor before the third power is given for these.
OPERATIONS = {}
for kind in KINDS:
    for name, op in {
        'product': lambda x, y: x * y, 'inverse': lambda x, y: x.inv(), 'product with the inverse': lambda x, y: x * x.inv(), 'quotient': lambda x, y: x.inv() * y,
        'word': lambda x, y: x.artin_word(), 'decomposition': lambda x, y: x.canonical_decomposition(), 'substring': lambda x, y: x.substring(1, x.canonical_length() - 1),
        'conversion': lambda x, y: x.to_DGNF() if isinstance(x, GNF) else x.to_GNF(), 'comparison': lambda x, y: (x < y, x == y, hash(x)), 'text': lambda x, y: repr(x),
    }.items():
        OPERATIONS[f'{kind} {name}'] = 16, (lambda rng, s, kind=kind, n=None: (sample(kind, 4, s, rng), sample(kind, 4, s, rng))), (lambda v, op=op: op(*v))
    OPERATIONS[f'{kind} from a word'] = 16, any_word, lambda w, kind=kind: KINDS[kind].from_artin_word(4, w)
    OPERATIONS[f'{kind} power'] = 16, (lambda rng, s, kind=kind: (random_braid(rng, kind, 4, length=3), rng.choice((s, -s)))), lambda v: v[0]**v[1]
    OPERATIONS[f'{kind} count'] = 16, (lambda rng, s, kind=kind: (kind, s)), lambda v: KINDS[v[0]].count_all_of_length(4, v[1])
    OPERATIONS[f'{kind} sample'] = 16, (lambda rng, s, kind=kind: (kind, s, random.Random(rng.random()))), lambda v: KINDS[v[0]].sample(4, v[1], rand=v[2])
OPERATIONS.update({
    'GNF from permutations': (16, lambda rng, s: [any_perm(rng, 4) for _ in range(s)], lambda x: GNF.from_perm_seq(4, x)),
    'DGNF from partitions': (16, lambda rng, s: [any_npar(rng, 4) for _ in range(s)], lambda x: DGNF.from_npar_seq(4, x)),
    'Magma word': (16, lambda rng, s: sample('GNF', 4, s, rng), lambda b: b.magma_artin_word()),
    'permutation inverse': (16, any_perm, lambda x: x.inv()), 'permutation product': (16, any_perm, lambda x: x * x), 'cycles': (16, any_perm, lambda x: (x.disjoint_cycles(), x.cycle_type())),
    'length': (16, any_perm, lambda x: x.length()), 'shortlex': (12, any_perm, lambda x: x.shortlex()), 'descents': (16, any_perm, lambda x: (x.right_descent_set(), x.left_descent_set())),
    'parity': (16, any_perm, lambda x: P.parity(x.word)), 'from generators': (12, lambda rng, s: (s, [rng.randrange(s - 1) for _ in range(s)]), lambda v: P.from_cox(*v)),
    'descending cycles': (16, any_perm, lambda x: (P.is_descending_cycles(x.word), P.is_parallel_descending_cycles(x.word))),
    'partition blocks': (16, any_npar, lambda x: x.components()), 'partition edges': (12, any_npar, lambda x: list(x.edges())), 'partition word': (16, any_npar, lambda x: x.artin_word()),
    'complements': (16, any_npar, lambda x: (x.left_complement(), x.right_complement())), 'partition and permutation': (16, any_npar, lambda x: NPar.from_permutation(x.to_permutation())),
    'partition from blocks': (16, lambda rng, s: (s, any_npar(rng, s).components()), lambda v: NPar.from_components(*v)),
    'diagram product': (16, lambda rng, s: (any_diag(rng, s), any_diag(rng, s)), lambda v: v[0] * v[1]), 'diagram tensor': (16, lambda rng, s: (any_diag(rng, s), any_diag(rng, s)), lambda v: v[0] @ v[1]),
    'diagram flip': (16, any_diag, lambda x: x.flip()), 'through strands': (16, any_diag, lambda x: tl.through_strands(x)), 'trace loops': (16, any_diag, lambda x: tl.trace_count(x.seq)),
    'morphism product': (16, lambda rng, s: TLMor(s, s, {any_diag(rng, s): LPoly(0, (1, 2)), TLDiag.id(s): LPoly(-1, (1,))}), lambda x: x * x),
    'morphism trace': (16, lambda rng, s: TLMor(s, s, {any_diag(rng, s): LPoly(0, (1, 2)), TLDiag.id(s): LPoly(-1, (1,))}), lambda x: x.trace()),
    'Laurent product': (12, any_lp, lambda x: x * x), 'Laurent sum': (16, any_lp, lambda x: x + x - x), 'Laurent power': (12, lambda rng, s: (any_lp(rng, 2), s), lambda v: v[0]**v[1]),
    'Laurent value': (12, any_lp, lambda x: x.evaluate(3 if x.valuation() >= 0 else LPoly(1, (1,)))), 'Laurent text': (16, any_lp, lambda x: repr(x)), 'quantum integer': (16, lambda rng, s: s, LPoly.quantum_integer),
    'product': (12, any_poly, lambda x: x * x), 'power': (12, lambda rng, s: (any_poly(rng, 2), s), lambda v: v[0]**v[1]), 'division': (6, lambda rng, s: (any_poly(rng, 2 * s), Poly(*[2] * s, 1)), lambda v: divmod(*v)),
    'value': (12, any_poly, lambda x: x.evaluate(3)), 'Chebyshev': (6, lambda rng, s: s, Poly.chebyshevT, 60), 'cyclotomic': (6, lambda rng, s: s, Poly.cyclotomic, 200), 'cosines': (5, lambda rng, s: s, Poly.minpolycos, 600),
    'matrix product': (3, any_matrix, lambda x: x * x), 'matrix transpose': (8, any_matrix, lambda x: x.transpose()), 'matrix text': (8, any_matrix, lambda x: repr(x)), 'matrix trace': (8, any_matrix, lambda x: x.trace()),
    'cell basis': (5, lambda rng, s: s, lambda s: cell_basis(s, 1), 1000), 'cell dimension': (16, lambda rng, s: s, lambda s: tl.cell_dimension(s, s // 2)),
    'exact evaluation': (4, lambda rng, s: (warm_rep(), sample('GNF', 4, s, rng)), lambda v: v[0].evaluate(v[1])),
    'packed evaluation': (8, lambda rng, s: (warm_rep(), sample('DGNF', 4, s, rng)), lambda v: v[0].polymat_evaluate_braid(v[1])),
    'search evaluation': (8, lambda rng, s: (JonesSummand(4, 1, 5), sample('GNF', 4, s, rng)), lambda v: braidsearch.evaluate_braid_factors(*v)),
    'packed product': (16, lambda rng, s: np.ones((2, 2, s), dtype=np.int64), lambda x: polymat.mul(x, x)), 'projectivise': (16, lambda rng, s: np.ones((s, 2, 2, 3), dtype=np.int64) * np.array([0, 1, 0]), polymat.projectivise),
    'pack': (16, lambda rng, s: [np.ones((2, 2, 1 + k % 5), dtype=np.int64) for k in range(s)], polymat.pack),
})


@SUITE.scenario('growth', quick=2 * len(OPERATIONS), thorough=40 * len(OPERATIONS), timeout=400)
def growth(ctx, rng, i):
    name = list(OPERATIONS)[i % len(OPERATIONS)]
    s, make, op, *given = OPERATIONS[name]
    s += rng.randint(0, max(1, s // 4))
    ctx.describe(operation=name, s=s)
    op(make(rng, 3))
    # Inputs of one size differ, so the dearest of some are compared.
    small = max(measure(ctx, lambda x=make(rng, s): op(x), 10**8, name)[1] for _ in range(6))
    for factor in 2, 4:
        limit = given[0] * (factor * s)**3 if given else 2 * factor**3 * small + 5000
        for _ in range(3):
            x = make(rng, factor * s)
            cost = measure(ctx, lambda: op(x), limit, f'{name}: the work grows faster than with the third power, from {small} at size {s}', size=factor * s)[1]
    ctx.hit('growth')
    ctx.hit('operations', i < len(OPERATIONS))
    ctx.distinct((name, s))
    ctx.check(True, '')
    ctx.sample(operation=name, s=s, small=small, large=cost)


@SUITE.scenario('powers', quick=160, thorough=6000)
def powers(ctx, rng, i):
    """Exponents are worked through by squaring: work grows with their number of digits."""
    n, kind = rng.choice((2, 3, 4)), rng.choice(('GNF', 'DGNF'))
    v = lambda k: LPoly(k, (rng.choice((1, -1)),))
    name, x = [
        ('power of the Garside element', lambda: KINDS[kind](n, rng.choice((1, -1, 2)), ())),
        ('power of the trivial braid', lambda: KINDS[kind].identity(n)),
        ('power of a unit', lambda: v(rng.choice((1, -1, 3)))),
        ('power of one', lambda: LPoly(0, (1,))),
        ('power of one', lambda: Poly(1)),
        ('power of minus one', lambda: Poly(-1)),
        ('power of the identity matrix', lambda: Matrix.identity(rng.randint(0, 3))),
        ('power of a permutation matrix', lambda: Matrix.from_rows([[int(j == (k + 1) % 3) for j in range(3)] for k in range(3)])),
        ('power of a nilpotent matrix', lambda: Matrix.from_rows([[0, 1], [0, 0]])),
        ('power of an identity', lambda: TLMor.id(rng.randint(0, 4))),
        ('word with an exponent', None),
    ][i % 11]
    if x is None:
        # Where a generator goes to a matrix with one entry.
        p, e = rng.choice((0, 0, 2, 5)), rng.choice((1, -1))
        n, r = rng.choice(((2, 1), (2, 1), (n, 0)))
        R = JonesCellRep(n, r, p)
        pos, k = rng.randrange(n - 1), rng.randint(100, 900) if r else 10**rng.randint(2, 60)
        ctx.describe(name=name, R=R, k=e * k)
        R.evaluate_artin_word([(pos, 1), (pos, -1)])
        cost = 3000 + max(measure(ctx, lambda: R.evaluate_artin_word([(pos, e * j)]), 10**7, name)[1] for j in (7, 8, 9))
        y, spent = measure(ctx, lambda: R.evaluate_artin_word([(pos, e * k)]), 4 * cost * k.bit_length() + 1000, f'{name} {e * k}: more than logarithmic', R=R)
        (u,) = R.evaluate_artin_word([(pos, 1)]).rows()[0]
        ctx.check((y.nrows, y.ncols) == (1, 1) and lp.of(y[0, 0]) == {u.val * e * k: (1 if u.coeffs[0] == 1 or k % 2 == 0 else u.coeffs[0])}, name, y=y, u=u)
        ctx.hit('powers')
        ctx.distinct((name, repr(R), pos, e * k))
        return
    x = x()
    digits = rng.randint(1, 120)
    k = rng.choice((rng.randint(100, 900), rng.randint(100, 900), 10**digits, 2**(3 * digits), 10**digits - 1, rng.randrange(10**digits)))
    if rng.random() < .4 and isinstance(x, (LPoly, GNF, DGNF)):
        k = -k
    ctx.describe(name=name, x=x, k=k)
    cost = 1000 + max(measure(ctx, lambda: x**e, 10**7, name)[1] for e in (7, 8, -5) if e > 0 or isinstance(x, (LPoly, GNF, DGNF)))
    # No more than two products to a digit, and what it takes to call them.
    once = 400 + max(measure(ctx, f, 10**7, name)[1] for f in ([lambda: x * x] + [lambda: x**-1] * isinstance(x, (LPoly, GNF, DGNF))))
    cost = min(cost, once)
    y, spent = measure(ctx, lambda: x**k, 4 * cost * (k.bit_length() + 5) + 1000, f'{name} to the power {k}: more than logarithmic')
    if isinstance(x, (GNF, DGNF)):
        ctx.check(y.inf() == x.inf() * k and y.canonical_length() == 0 and y.n == n, name, y=y)
    elif isinstance(x, LPoly):
        ctx.check(lp.of(y) == {x.val * k: x.coeffs[0]**(k % 2)}, name, y=y)
    elif isinstance(x, Poly):
        ctx.check(y == Poly(x.coeffs[0]**(k % 2)), name, y=y)
    elif name == 'power of a permutation matrix':
        ctx.check(y == x**(k % 3), name, y=y)
    elif name == 'power of a nilpotent matrix':
        ctx.check(y == (Matrix.zero(2, 2) if k > 1 else x if k else Matrix.identity(2)), name, y=y)
    else:
        ctx.check(y == x, name, y=y)
    ctx.hit('powers')
    ctx.distinct((name, k))


@SUITE.scenario('laziness', quick=180, thorough=4000)
def laziness(ctx, rng, i):
    """The first items of an enumeration cost little, whatever the number of all items."""
    n = rng.choice((3, 4, 4))
    kind = rng.choice(('GNF', 'DGNF'))
    size = rng.randint(30, 300)
    b = random_braid(rng, kind, n)
    name, make, length = [
        ('normal forms', lambda: KINDS[kind].all_of_length(n, size), size),
        ('suffixes', lambda: b.nf_suffixes(size), size),
        ('permutations', lambda: SymmetricGroup(size).elements(), size),
        ('partitions', lambda: NPar.all_of_size(size), size),
        ('matchings', lambda: tl.generate_sequences(2 * size), size),
        ('Garside words', lambda: BraidGroup(n).all_of_garside_length(size), size),
        ('batches', lambda: bucketing.batched(KINDS[kind].all_of_length(n, size), 7), size),
        ('batches', lambda: braidsearch.batched(KINDS[kind].all_of_length(n, size), 7), size),
        ('batches of anything', lambda: rng.choice((bucketing, braidsearch)).batched(itertools.count(), size), size),
    ][i % 9]
    ctx.describe(name=name, n=n, kind=kind, size=size, b=b)
    take = rng.choice((1, 3, 20))
    items, spent = measure(ctx, lambda: list(itertools.islice(iter(make()), take)), 1500 * length * (take + 5) * (7 if 'batches' in name else 1) + 50000, f'the first {take} of {name} of size {size}')
    ctx.check(len(items) == take, f'{name}: {len(items)} items')
    ctx.hit('lazy')
    ctx.distinct((name, kind, size, n, take))
    if i % 6 == 0:
        # Going through many takes no more memory than going through few.
        n, length = rng.choice(((4, 6), (3, 12)))
        peaks = []
        for count in 200, 4000:
            tracemalloc.start()
            try:
                for x in itertools.islice(KINDS[kind].all_of_length(n, length), count):
                    pass
                peaks.append(tracemalloc.get_traced_memory()[1])
            finally:
                tracemalloc.stop()
        ctx.check(peaks[1] < peaks[0] + 150000, 'an enumeration keeps what it has passed', peaks=peaks)


@SUITE.scenario('reuse', quick=48, thorough=1200, timeout=400)
def reuse(ctx, rng, i):
    """What is tabulated is tabulated once."""
    m = i % 4
    if m == 0:
        n, kind = rng.choice((4, 5)), rng.choice(('GNF', 'DGNF'))
        cls = KINDS[kind]
        cls.identity(n), cls.sample(n, 2)
        w = random_word(rng, n, 10)
        for what, f in (('a word', lambda: cls.from_artin_word(n, w)), ('counting', lambda: cls.count_all_of_length(n, 1)), ('a sample', lambda: cls.sample(n, 2, rand=rng)), ('the first form', lambda: next(iter(cls.all_of_length(n, 2)))), ('a group', lambda: BraidGroup(n).gens() if hasattr(BraidGroup(n), 'gens') else BraidGroup(n))):
            f()
            measure(ctx, f, 60000, f'{what} in {kind} on {n} strands builds tables again')
            ctx.hit('reused')
    elif m == 1:
        n, r, p = rng.choice(((4, 1, 5), (4, 2, 3), (3, 1, 2), (4, 1, 0)))
        rep = JonesCellRep(n, r, p)
        for kind in 'GNF', 'DGNF':
            b = sample(kind, n, 5, rng)
            (_, first), (_, second) = (measure(ctx, lambda: rep.polymat_evaluate_braid(b), 10**8, 'evaluation') for _ in range(2))
            ctx.check(second * 4 < first + 40000, 'images of factors are computed again', first=first, second=second)
            (_, again) = measure(ctx, lambda: rep.polymat_evaluate_artin_word(b.artin_word()[:3]), 10**8, 'evaluation')
            (_, third) = measure(ctx, lambda: rep.polymat_evaluate_artin_word(b.artin_word()[:3]), 10**8, 'evaluation')
            ctx.check(third * 3 < again + 60000, 'images of generators are computed again', first=again, second=third)
            ctx.hit('reused')
    elif m == 2:
        n, r, p = rng.choice(((4, 1, 5), (4, 2, 3), (4, 1, 7), (4, 1, 0)))
        braidsearch.evaluate_braid_factors(JonesSummand(n, r, p), GNF.identity(n))
        for _ in range(3):
            b = sample('GNF', n, 4, rng)
            for f in (lambda: braidsearch.evaluate_braid_factors(JonesSummand(n, r, p), b), lambda: braidsearch.evaluate_braids_of_same_length(JonesSummand(n, r, p), [b]), lambda: braidsearch.evaluate_prefixes_of_same_length(JonesSummand(n, r, p), [b])):
                measure(ctx, f, 25000, 'evaluation of four factors computes the images of permutations again')
                ctx.hit('reused')
    else:
        n, r, p = rng.choice(((4, 1, 5), (4, 2, 3)))
        kind = rng.choice(('GNF', 'DGNF'))
        stats = [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength]
        rep, cls, rounds = JonesCellRep(n, r, p), KINDS[kind], rng.choice((1, 2))
        for x in cls.all_of_length(n, 1):
            rep.polymat_evaluate_braid(x)

        def of_length(length):
            while True:
                x = cls(n, 0, cls.sample(n, length, rand=rng).factors)
                if x.canonical_length() == length:
                    return x

        x, y = of_length(2), of_length(3)
        while y.factors[-1] != x.factors[-1]:
            y = of_length(3)

        def expand(*braids):
            track = bucketing.Tracker(rep, 50, stats, [], rand=random.Random(1))
            costs = []
            for b in braids:
                if not costs or b is not braids[0]:
                    track.add_braids_images([b], rep.polymat_evaluate_braids_of_same_length([b]))
                tag = next(t for t in track.buckets if b in track.bucket_braids_images(t)[0])
                costs.append(measure(ctx, lambda: track.nf_descendants(tag, rounds), 10**9, 'expansion')[1])
            return costs

        (fresh, again), (_, after) = expand(x, x), expand(y, x)
        ctx.check(again < .85 * fresh, 'suffixes are evaluated again', fresh=fresh, again=again)
        ctx.check(after < .85 * fresh, 'suffixes are evaluated again for another braid with the same last factor', fresh=fresh, after=after, x=x, y=y)
        ctx.hit('reused')
    ctx.distinct((m, rng.random()))


@SUITE.scenario('batches', quick=48, thorough=900, timeout=400)
def batches(ctx, rng, i):
    """Braids of one length are evaluated together."""
    n, r, p = rng.choice(((4, 1, 5), (4, 2, 3), (3, 1, 2), (4, 1, 0)))
    length, count = rng.randint(6, 12), rng.choice((100, 300))
    kind = rng.choice(('GNF', 'DGNF'))
    m = i % 3
    braids = [sample('GNF' if m else kind, n, length, rng) for _ in range(count)]
    rep = JonesSummand(n, r, p) if m else JonesCellRep(n, r, p)
    f = rep.polymat_evaluate_braids_of_same_length if m == 0 else (lambda bs: braidsearch.evaluate_braids_of_same_length(rep, bs)) if m == 1 else (lambda bs: braidsearch.evaluate_braids(rep, bs))
    ctx.describe(n=n, r=r, p=p, length=length, count=count, m=m)
    f(braids)
    one = min(measure(ctx, lambda: f(braids[k:k + 1]), 10**9, 'evaluation')[1] for k in range(3))
    _, all_ = measure(ctx, lambda: f(braids), 10**9, 'evaluation')
    ctx.check(all_ < .8 * one * count, 'evaluating many braids together costs as much as one by one', one=one, together=all_, count=count)
    ctx.hit('batches')
    ctx.distinct((n, r, p, length, count, m))


def values(rng):
    """Fresh values of all kinds, unlikely to be in any table."""
    yield from (sample(kind, 4, rng.randint(5, 12), rng) for kind in KINDS for _ in range(2))
    yield from (any_perm(rng, rng.randint(8, 15)), any_npar(rng, rng.randint(10, 15)), any_diag(rng, 7), TLExtDiag(7, 7, random_seq(rng, 14), 2))
    yield from (any_lp(rng, 8), any_poly(rng, 8), any_matrix(rng, 3), Matrix(2, 2, tuple(any_lp(rng, 3) for _ in range(4))))
    yield TLMor(6, 6, {any_diag(rng, 6): any_lp(rng, 3) for _ in range(3)})


def use(x, y, rng, rep, summand):
    """Results of many operations."""
    yield repr(x), x == y
    if hasattr(x, '__hash__') and x.__hash__:
        yield hash(x)
    if isinstance(x, (GNF, DGNF)):
        yield from (x.inv(), x**3, x * x, x.artin_word(), x.canonical_decomposition(), x.to_DGNF() if isinstance(x, GNF) else x.to_GNF(), x.substring(1, 3), type(x).from_artin_word(4, x.artin_word()))
        yield from (rep.polymat_evaluate_braid(x), rep.evaluate(x.substring(0, 2)))
        if isinstance(x, GNF):
            yield from (braidsearch.evaluate_braid_factors(summand, x), braidsearch.evaluate_braids(summand, [x, x.substring(0, 2)]), x._repr_latex_())
        yield list(itertools.islice(x.nf_suffixes(1), 3))
    elif isinstance(x, Permutation):
        yield from (x.inv(), x * x, x.shortlex(), x.disjoint_cycles(), x.length(), x._repr_latex_())
    elif isinstance(x, NPar):
        yield from (x.left_complement(), x.right_complement(), x.to_permutation(), x.components(), list(x.edges()), x.artin_word())
    elif isinstance(x, TLDiag):
        yield from (x * x, x @ x, x.flip(), tl.through_strands(x), TLMor.from_tldiag(x))
    elif isinstance(x, TLExtDiag):
        yield from (x * x, x @ x, x.split_bubbles(), x.add_bubbles(1))
    elif isinstance(x, (LPoly, Poly)):
        yield from (x + x, x * x, -x, x - x, x**2, x.evaluate(2 if isinstance(x, Poly) else LPoly(1, (1,))))
    elif isinstance(x, Matrix):
        yield from (x * x, x**3, x.transpose(), x.trace(), x - x, polymat.from_matrix(x, proj=True) if all(isinstance(c, int) for c in x.data) else x.map(lambda c: c * 2))
    elif isinstance(x, TLMor):
        yield from (x * x, x + x, x**2, x.flip(), x.trace(), x.quotient(2))


def refs(obj, out):
    """Weak references to everything in a result that can have them."""
    if isinstance(obj, (list, tuple, set, frozenset)):
        for o in obj:
            refs(o, out)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            refs(k, out), refs(v, out)
    elif not isinstance(obj, (int, str, float, type(None))) and not isinstance(obj, (BraidGroup, SymmetricGroup)):
        try:
            out.append(weakref.ref(obj))
        except TypeError:
            pass
    return out


def small(x):
    """Tabulated values may stay: those of groups, and cells of few strands."""
    return isinstance(x, (Permutation, NPar)) and (len(x.word) if isinstance(x, Permutation) else x.n) <= 6


@SUITE.scenario('forgetting', quick=48, thorough=1000, timeout=400)
def forgetting(ctx, rng, i):
    """Values that were operated on, and results, are let go once nobody holds them."""
    rep, summand = JonesCellRep(4, 1, 5), JonesSummand(4, 1, 5)
    for x in list(values(rng)):
        list(use(x, x, rng, rep, summand))
    kept = []
    for _ in range(4):
        for x in values(rng):
            kept.append(weakref.ref(x))
            for got in use(x, x, rng, rep, summand):
                refs(got, kept)
            del got
        del x
    ctx.hit('forgotten', len(kept))
    gc.collect()
    alive = [y for y in (r() for r in kept) if y is not None and not small(y)]
    # The images of normal form factors are kept by a representation.
    alive = [y for y in alive if not isinstance(y, np.ndarray)]
    ctx.check(not alive, f'{len(alive)} of {len(kept)} values are still held after use', example=alive[:1])
    # Representations, with their images.
    r = weakref.ref(rep)
    reps = [JonesCellRep(*s) for s in ((4, 1, 7), (3, 1, 0))] + [LKBRep(3, 5, LPoly(1, (1,)), LPoly(2, (-1,)))]
    more = [weakref.ref(x) for x in reps]
    for x in reps:
        x.polymat_evaluate_braid(sample('GNF', x.n, 3, rng)), x.evaluate(sample('DGNF', x.n, 2, rng))
    del rep, reps, x
    gc.collect()
    ctx.check(all(q() is None for q in [r] + more), 'representations are still held after use')
    ctx.hit('released')
    ctx.distinct(('forgetting', rng.random()))


@SUITE.scenario('trackers', quick=96, thorough=2000, timeout=400)
def trackers(ctx, rng, i):
    """Trackers hold no more than their capacity, whatever they were offered."""
    n, r, p = rng.choice(((4, 1, 5), (4, 2, 3), (4, 1, 0)))
    size = rng.choice((1, 3, 10, 20))
    search = i % 2 == 0
    if search:
        rep = JonesSummand(n, r, p)
        track = braidsearch.Tracker(rep, bucket_size=size, bucket_keys=('length', 'projlen'), criterion=lambda s: s['length'] >= 0, rand=rng.choice((None, random.Random(1))))
        evaluate = lambda bs: braidsearch.evaluate_braids_of_same_length(rep, bs)
        kind = 'GNF'
    else:
        rep, kind = JonesCellRep(n, r, p), rng.choice(('GNF', 'DGNF'))
        stats = [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength]
        track = bucketing.Tracker(rep, size, stats, [], rand=random.Random(1), reservoir_method=METHODS[i // 2 % 4])
        evaluate = rep.polymat_evaluate_braids_of_same_length
    ctx.describe(n=n, r=r, p=p, size=size, kind=kind, i=i)
    offered, arrays = [], []
    for _ in range(rng.randint(3, 6)):
        braids = [KINDS[kind](n, rng.randint(-3, 3), sample(kind, n, rng.choice((2, 3)), rng).factors) for _ in range(1)]
        length = rng.choice((2, 3, 4))
        braids = [KINDS[kind](n, rng.randint(-9, 9), sample(kind, n, length, rng).factors) for _ in range(rng.choice((50, 150)))]
        images = evaluate(braids)
        offered += [weakref.ref(b) for b in braids]
        arrays.append(weakref.ref(images))
        track.add_braids_images(braids, images)
        del braids, images
        gc.collect()
        buckets = list(track.buckets)
        alive = sum(q() is not None for q in offered)
        ctx.check(alive <= 2 * size * len(buckets), f'{alive} braids are held in {len(buckets)} buckets of {size}', offered=len(offered))
        ctx.check(all(a() is None for a in arrays), 'the arrays that were offered are still held')
        ctx.hit('held', alive)
    total = 0
    for tag in buckets:
        braids, images = track.bucket_braids_images(tag)
        total += len(braids)
        base = images if images.base is None else images.base
        ctx.check(len(braids) <= size and base.nbytes <= images[0].nbytes * size, 'a bucket takes more memory than its capacity', size=size, nbytes=base.nbytes)
    del braids, images, base
    ctx.check(total <= alive, 'more braids in buckets than were offered')
    # Discarding a bucket frees what it held.
    rng.shuffle(buckets)
    for k, tag in enumerate(buckets):
        track.discard_bucket(tag)
        if k % 7 == 0 or k == len(buckets) - 1:
            gc.collect()
            alive = sum(q() is not None for q in offered)
            ctx.check(alive <= 2 * size * (len(buckets) - k - 1), f'{alive} braids are held in {len(buckets) - k - 1} buckets of {size}, others having been discarded')
            ctx.hit('released')
    ctx.distinct((search, n, r, p, size, len(offered)))
    # Expansion holds no more than the buckets it fills.
    if i % 4 < 2:
        braids = [KINDS[kind](n, 0, sample(kind, n, 2, rng).factors) for _ in range(30)]
        braids = [b for b in braids if b.canonical_length() == 2]
        track.add_braids_images(braids, evaluate(braids))
        for tag in list(track.buckets):
            track.nf_descendants(tag, 1)
        del braids
        gc.collect()
        cls = KINDS[kind]
        live = sum(type(o) is cls and o.canonical_length() == 3 and o.n == n for o in gc.get_objects())
        ctx.check(live <= 2 * size * len(track.buckets) + 200, f'{live} braids are held after an expansion', buckets=len(track.buckets), size=size)
