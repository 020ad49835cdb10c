import math

from peyl import tl
from peyl.tl import JonesRep, TLCell, TLDiag, TLMor, tl_basis

from ..core import Suite
from ..lib import *
from ..model import tlm as MT
from .c08 import random_seq
from .c09 import clean, lpoly, mmul, random_lpoly, random_mor

SUITE = Suite('C10',
    'For all cells up to 9 strands, random elements (single diagrams, generators, sums with polynomial coefficients, braid images) act by matrices which are compared with union-find gluing modulo diagrams with fewer through-strands, multiplied as matrices, and traced: quantum-integer weighted matrix traces over all cells against loop values of closures. Deep cells of many strands have their projections and traces compared as well. Non-trivial: the element has at least two terms.',
    require={'cells': 25, 'actions': 500, 'products': 300, 'traces': 500, 'projections': 300, 'large projections': 10})


def quantum(n):
    return {e: 1 for e in range(-n + 1, n, 2)}


def model_matrix(n, r, m, order):
    """Matrix of the element on the cell, in the given order of basis diagrams."""
    s = n - 2 * r
    cols = []
    for y in order:
        img = {d: c for d, c in mmul(m, {y: {0: 1}}).items() if MT.through(d) == s}
        assert set(img) <= set(order)
        cols.append([img.get(x, {}) for x in order])
    return [list(row) for row in zip(*cols)]


def thin(rng, top, bot):
    """A diagram with all of the bottom strands going through, or a few less, or any."""
    if rng.random() < .3:
        return random_seq(rng, top + bot)
    through = bot if rng.random() < .6 else bot - 2 * rng.randint(0, bot // 2)

    def half(m, k):
        # A half diagram on m points, with k of them open: remove a turn at a time.
        if m == k:
            return list(range(k)), []
        at = list(range(m))
        pairs = []
        while len(at) > k:
            j = rng.randrange(len(at) - 1)
            pairs.append((at[j], at[j + 1]))
            del at[j:j + 2]
        return at, pairs
    (a, us), (b, ds) = half(top, through), half(bot, through)
    ends = [(('t', x), ('t', y)) for x, y in us] + [(('b', x), ('b', y)) for x, y in ds] + [(('t', x), ('b', y)) for x, y in zip(a, b)]
    return MT.to_seq(top, bot, ends)


def element(rng, n):
    m = rng.randrange(5)
    if m == 0 and n >= 2:
        k = rng.randrange(n - 1)
        return {MT.e(k, n): {0: 1}}, TLMor.e(k, n)
    if m == 1:
        d = TLDiag(n, n, random_seq(rng, 2 * n))
        return {MT.of(d): {0: 1}}, TLMor.from_tldiag(d)
    if m == 2 and n >= 2:
        # A short braid, as a product of 1 - v e.
        model, real = {MT.ident(n): {0: 1}}, TLMor.id(n)
        for _ in range(rng.randint(1, 4)):
            k, s = rng.randrange(n - 1), rng.choice((1, -1))
            model = mmul(model, {MT.ident(n): {0: 1}, MT.e(k, n): {s: -1}})
            real = real * (TLMor.id(n) - LPoly(s, (1,)) * TLMor.e(k, n))
        return model, real
    return random_mor(rng, n, n)


def basis_of(ctx, cell):
    order = [MT.of(d) for d in cell.basis_diagrams()]
    ctx.check(len(order) == len(set(order)) == cell.dim(), 'dimension', cell=cell)
    return order


@SUITE.scenario('cells', quick=12, thorough=16)
def cells(ctx, rng, i):
    n = i
    J = JonesRep(n)
    ctx.check([(c.n, c.r) for c in J.cells] == [(n, r) for r in range(n // 2 + 1)], 'cells of a JonesRep', n=n)
    for r in range(n // 2 + 1):
        cell = TLCell(n, r)
        want = math.comb(n, r) - (math.comb(n, r - 1) if r else 0)
        ctx.check(cell.dim() == want == tl.cell_dimension(n, r), 'dimension', cell=cell)
        order = basis_of(ctx, cell)
        ctx.check(all(d[:2] == (n, n - 2 * r) and MT.through(d) == n - 2 * r for d in order), 'basis', cell=cell)
        ctx.eq(lp.of(cell.trace_scalar()), quantum(n - 2 * r + 1), 'trace scalar', cell=cell)
        one = cell.project_leftmult_matrix(TLMor.id(n)) if want <= 30 else None
        ctx.check(one is None or lp.of_matrix(one) == lp.mident(want), 'the identity acts as another matrix', cell=cell)
        ctx.hit('cells')
    m, r = rng.choice((60, 100, 171, 200, 500, 1000)) + rng.randrange(20), rng.random()
    r = int(r * (m // 2 + 1))
    ctx.eq(tl.cell_dimension(m, r), math.comb(m, r) - (math.comb(m, r - 1) if r else 0), 'dimension', n=m, r=r)
    ctx.eq((TLCell(m, r).dim(), JonesRep(m).cells[r].dim()), (tl.cell_dimension(m, r),) * 2, 'dimension', n=m, r=r)
    ctx.eq(sum((c.dim())**2 for c in J.cells), math.comb(2 * n, n) // (n + 1), 'sum of squares of dimensions', n=n)
    for bad in ((n, n // 2 + 1), (-1, 0), (n, -1)):
        ctx.raises((AssertionError, ValueError), lambda: TLCell(*bad), 'a cell out of range')


@SUITE.scenario('action', quick=9600, thorough=80000)
def action(ctx, rng, i):
    n = rng.choice((1, 2, 3, 3, 4, 4, 5, 6))
    r = rng.randint(0, n // 2)
    cell = TLCell(n, r)
    order = basis_of(ctx, cell)
    m1, x = element(rng, n)
    m2, y = element(rng, n)
    ctx.describe(n=n, r=r, x=m1, y=m2)
    A = cell.project_leftmult_matrix(x)
    ctx.eq(lp.of_matrix(A), model_matrix(n, r, m1, order), 'matrix of an element', n=n, r=r, x=m1)
    ctx.hit('actions')
    if len(m1) * len(m2) < 30:
        B = cell.project_leftmult_matrix(y)
        ctx.eq(lp.of_matrix(cell.project_leftmult_matrix(x * y)), lp.mmul(lp.of_matrix(A), lp.of_matrix(B)), 'matrix of a product', n=n, r=r, x=m1, y=m2)
        ctx.hit('products')
    if len(m1) > 1:
        ctx.distinct((i, n, r))
        ctx.sample(n=n, r=r, x=m1)


@SUITE.scenario('larger', quick=24, thorough=400)
def larger(ctx, rng, i):
    n = rng.choice((7, 8))
    r = rng.randint(0, 3)
    cell = TLCell(n, r)
    order = basis_of(ctx, cell)
    k = rng.randrange(n - 1)
    ctx.eq(lp.of_matrix(cell.project_leftmult_matrix(TLMor.e(k, n))), model_matrix(n, r, {MT.e(k, n): {0: 1}}, order), 'matrix of a generator', n=n, r=r, k=k)
    ctx.hit('actions')


@SUITE.scenario('traces', quick=7200, thorough=64000)
def traces(ctx, rng, i):
    n = rng.choice((0, 1, 2, 3, 4, 4, 5, 6)) if i % 30 else 7
    m, x = element(rng, n)
    ctx.describe(n=n, x=m)
    want = {}
    for d, c in m.items():
        want = lp.add(want, lp.mul(c, lp.power({1: 1, -1: 1}, MT.closure_loops(d))))
    ctx.eq(lp.of(x.trace()), want, 'Markov trace', n=n, x=m)
    total = {}
    for cell in JonesRep(n).cells:
        t = lp.of(cell.project_leftmult_matrix(x).trace())
        total = lp.add(total, lp.mul(lp.of(cell.trace_scalar()), t))
    ctx.eq(total, want, 'sum over the cells', n=n, x=m)
    ctx.hit('traces')
    if len(m) > 1:
        ctx.distinct((i, n))
    _, y = element(rng, n)
    if len(m) < 4:
        ctx.check((x * y).trace() == (y * x).trace(), 'trace of a commutator', n=n)


@SUITE.scenario('projection', quick=4800, thorough=40000)
def projection(ctx, rng, i):
    n = rng.randint(0, 7)
    r = rng.randint(0, n // 2)
    cell = TLCell(n, r)
    m, x = random_mor(rng, n, n - 2 * r)
    ctx.describe(n=n, r=r, x=m)
    got = cell.project_vector(x)
    ctx.eq({MT.of(d): lp.of(c) for d, c in got.terms.items()}, {d: c for d, c in m.items() if MT.through(d) == n - 2 * r}, 'project_vector', n=n, r=r, x=m)
    ctx.hit('projections')
    if r:
        _, z = random_mor(rng, n, n)
        ctx.raises((AssertionError, ValueError), lambda: cell.project_vector(z), 'a morphism of another shape')


@SUITE.scenario('large', quick=60, thorough=1200)
def large(ctx, rng, i):
    """More strands, longer coefficients and more terms."""
    n = rng.choice((8, 9, 10, 11) if i % 2 else (6, 7))
    if i % 3 == 0:
        # One diagram on many strands, in the smallest cells and the trace.
        n = log_size(rng, 10, 40)
    r = rng.choice((0, 1)) if n > 10 else rng.randint(0, 2)
    cell = TLCell(n, r)
    order = basis_of(ctx, cell)
    m = {}
    for _ in range(1 if n > 9 else rng.randint(1, 5)):
        lo = rng.randint(-60, 60)
        m[MT.of(TLDiag(n, n, random_seq(rng, 2 * n)))] = lp.norm({lo + k: rng.randint(-2**70, 2**70) for k in range(rng.randint(1, 40))})
    if n > 10:
        # One with many through-strands.
        d = MT.ident(n)
        for _ in range(rng.randint(0, 2)):
            d, _ = MT.glue(d, MT.e(rng.randrange(n - 1), n))
        m = {d: random_lpoly(rng, big=True) or {0: 1}}
    m = clean(m)
    x = TLMor(n, n, {TLDiag(n, n, MT.to_seq(*d)): lpoly(c, rng) for d, c in m.items()})
    ctx.describe(n=n, r=r, x=m)
    if len(order) <= 120:
        ctx.eq(lp.of_matrix(cell.project_leftmult_matrix(x)), model_matrix(n, r, m, order), 'matrix of an element', n=n, r=r, x=m)
        ctx.hit('actions')
    want = {}
    for d, c in m.items():
        want = lp.add(want, lp.mul(c, lp.power({1: 1, -1: 1}, MT.closure_loops(d))))
    ctx.eq(lp.of(x.trace()), want, 'Markov trace', n=n, x=m)
    if n <= 9:
        total = {}
        for cell in JonesRep(n).cells:
            if cell.dim() <= 50:
                total = lp.add(total, lp.mul(lp.of(cell.trace_scalar()), lp.of(cell.project_leftmult_matrix(x).trace())))
        ctx.eq(total, want, 'sum over the cells', n=n, x=m)
        ctx.hit('traces')
    # Projections to cells of every size, of diagrams with as many and with fewer through-strands.
    k = log_size(rng, 7, 40)
    s = rng.randint(0, k // 2)
    m = {MT.of(TLDiag(k, k - 2 * s, thin(rng, k, k - 2 * s))): random_lpoly(rng, big=True) for _ in range(rng.randint(1, 6))}
    m = clean(m)
    x = TLMor(k, k - 2 * s, {TLDiag(k, k - 2 * s, MT.to_seq(*d)): lpoly(c, rng) for d, c in m.items()})
    want = {d: c for d, c in m.items() if MT.through(d) == k - 2 * s}
    ctx.eq({MT.of(d): lp.of(c) for d, c in TLCell(k, s).project_vector(x).terms.items()}, want, 'project_vector', n=k, r=s, x=m)
    ctx.hit('large projections', 0 < len(want) < len(m))
    # Combinations of most diagrams.
    k = rng.choice((4, 5, 6, 6, 7))
    s = rng.randint(0, k // 2)
    m = {MT.of(d): random_lpoly(rng) for d in tl_basis(k, k - 2 * s) if rng.random() < .9}
    m = clean(m)
    x = TLMor(k, k - 2 * s, {TLDiag(k, k - 2 * s, MT.to_seq(*d)): lpoly(c, rng) for d, c in m.items()})
    want = {d: c for d, c in m.items() if MT.through(d) == k - 2 * s}
    ctx.eq({MT.of(d): lp.of(c) for d, c in TLCell(k, s).project_vector(x).terms.items()}, want, 'project_vector', n=k, r=s, x=m)
    ctx.hit('large projections', 0 < len(want) < len(m))
    # Symmetric and nearly symmetric elements.
    k = rng.choice((5, 6, 7, 8, 9))
    d = MT.of(TLDiag(k, k, random_seq(rng, 2 * k)))
    m = clean({d: random_lpoly(rng, big=True), MT.mirror(d): random_lpoly(rng), MT.ident(k): {0: 1}})
    x = TLMor(k, k, {TLDiag(k, k, MT.to_seq(*d)): lpoly(c, rng) for d, c in m.items()})
    want = {}
    for d, c in m.items():
        want = lp.add(want, lp.mul(c, lp.power({1: 1, -1: 1}, MT.closure_loops(d))))
    ctx.eq(lp.of(x.trace()), want, 'Markov trace', n=k, x=m)
    for _ in range(4):
        k = log_size(rng, 10, 300)
        s = rng.randint(0, k // 2)
        ctx.eq(lp.of(TLCell(k, s).trace_scalar()), quantum(k - 2 * s + 1), 'trace scalar', n=k, r=s)
    ctx.distinct((i, n, r))
