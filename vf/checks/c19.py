import math
from fractions import Fraction

import numpy as np

from peyl import polymat as PM

from ..core import Suite
from ..lib import *
from .c18 import array, nonzero_array, presented, sparse, wrapping

SUITE = Suite('C19',
    'Random packed arrays with 0 to 3 batch axes, rectangular shapes, zero matrices, zero padding on either side, large and negative coefficients, int32 and int64, several memory layouts, more than a million entries, nearly singular ranks of up to ten rows: every statistic is compared with one computed from the list of nonzero coefficients (ranks by exact rational elimination), again after padding with zeros and for each matrix alone. Non-trivial: a batch of at least two matrices or two nonzero degrees.',
    require={'arrays': 2500, 'statistics': 15000, 'padded': 2000, 'alone': 3000, 'ranks': 1500, 'zero matrices': 400, 'braid images': 100, 'large': 320})


def rank(rows):
    m = [[Fraction(int(x)) for x in r] for r in rows]
    r = 0
    for c in range(len(m[0]) if m else 0):
        piv = next((k for k in range(r, len(m)) if m[k][c]), None)
        if piv is None:
            continue
        m[r], m[piv] = m[piv], m[r]
        for k in range(r + 1, len(m)):
            if m[k][c]:
                f = m[k][c] / m[r][c]
                m[k] = [x - f * y for x, y in zip(m[k], m[r])]
        r += 1
    return r


def inspect(a):
    """Statistics of one matrix by direct inspection: None where the matrix is zero and the value has no meaning."""
    degrees = sorted({d for _, _, d in zip(*np.nonzero(a))})
    lo, hi = (int(degrees[0]), int(degrees[-1])) if degrees else (None, None)
    return dict(nz_terms=sum(1 for x in a.flatten().tolist() if x),
                projlen=hi - lo + 1 if degrees else 0,
                efflen=hi - lo if degrees else 0,
                degmax=hi, valmin=lo,
                rhogap=Fraction(hi - lo, 2) if degrees else None,
                starts=lo, ends=hi + 1 if degrees else None)


def compare(ctx, got, a, prefix, name):
    """`got` has the shape of the batch, and each entry is that matrix's."""
    got = np.asarray(got)
    ctx.check(got.shape == tuple(prefix), f'{name}: shape {got.shape} for a batch {prefix}', a=a.tolist())
    for index in np.ndindex(*prefix):
        want = inspect(a[index])[name]
        if want is not None:
            ctx.check(Fraction(got[index].item()) == want, f'{name}', got=got[index], want=want, a=a[index].tolist(), batch=a.shape)
            ctx.hit('statistics')


PLAIN = ('nz_terms', 'projlen', 'efflen', 'degmax', 'valmin', 'rhogap')


@SUITE.scenario('statistics', quick=12000, thorough=90000)
def statistics(ctx, rng, i):
    prefix = [rng.choice((1, 2, 3)) for _ in range(rng.choice((0, 0, 1, 1, 2, 3)))]
    shape = (*prefix, rng.choice((1, 2, 3)), rng.choice((1, 2, 3)), rng.choice((1, 2, 3, 5, 8, 12)))
    dtype = rng.choice((np.int64, np.int32))
    zeros = rng.random() < .3
    a = (array if zeros else nonzero_array)(rng, shape, dtype, dtype is np.int64)
    if i % 6 == 0:
        shape = (*prefix, *rng.choice(((2, 2), (1, 4), (4, 4), (2, 3))), shape[-1])
        a = wrapping(rng, shape, dtype)
        for index in np.ndindex(*prefix):
            if not zeros and not a[index].any():
                a[index][0, 0, 0] = dtype(2**(30 if dtype is np.int32 else 32))
    # Different matrices of a batch start and end at different degrees.
    if prefix and rng.random() < .6:
        for index in np.ndindex(*prefix):
            k = rng.randint(0, shape[-1] - 1)
            l = rng.randint(k, shape[-1] - 1)
            keep = a[index].copy()
            a[index][...] = 0
            a[index][..., k:l+1] = keep[..., k:l+1]
            if not zeros:
                a[index][0, -1, k] = rng.choice((-1, 4))
    ctx.describe(a=a.tolist())
    x = presented(rng, a)
    for name in PLAIN:
        compare(ctx, getattr(PM, name)(x), a, prefix, name)
    dead = any(not a[index].any() for index in np.ndindex(*prefix))
    if dead:
        ctx.hit('zero matrices')
        ctx.raises((AssertionError, ValueError), lambda: PM.proj_starts_ends(x), 'starts and ends of a zero matrix', a=a.tolist())
    else:
        starts, ends = PM.proj_starts_ends(x)
        compare(ctx, starts, a, prefix, 'starts')
        compare(ctx, ends, a, prefix, 'ends')
    ctx.hit('arrays')
    if prefix or np.count_nonzero(a.any(axis=tuple(range(a.ndim - 1)))) > 1:
        ctx.distinct(a.tolist())
        ctx.sample(a=a.shape, nonzero=int(np.count_nonzero(a)))
    # Padding on the right changes nothing; padding on the left moves degrees.
    k, l = rng.choice((0, 1, 3)), rng.choice((0, 2, 5))
    b = np.concatenate([np.zeros((*shape[:-1], k), dtype), a, np.zeros((*shape[:-1], l), dtype)], axis=-1)
    for name in PLAIN:
        compare(ctx, getattr(PM, name)(b), b, prefix, name)
    for index in np.ndindex(*prefix):
        alive = a[index].any()
        for name in PLAIN:
            f = getattr(PM, name)
            if alive or name in ('nz_terms', 'projlen', 'efflen'):
                shift = k if name in ('degmax', 'valmin') else 0
                ctx.check(f(b)[index] == f(x)[index] + shift, f'{name} after padding', a=a[index].tolist(), k=k, l=l)
                ctx.check(f(a[index]) == f(x)[index], f'{name} alone and in a batch', a=a.tolist(), index=index)
                ctx.hit('alone')
    ctx.hit('padded')


@SUITE.scenario('ranks', quick=6000, thorough=45000)
def ranks(ctx, rng, i):
    prefix = [rng.choice((1, 2, 3)) for _ in range(rng.choice((0, 1, 1, 2)))]
    size = rng.choice((1, 2, 3, 4, 5)) if i % 10 else rng.randint(6, 10)
    shape = (*prefix, size, rng.choice((size, size, rng.randint(1, 5))), rng.choice((1, 2, 3, 6)) if i % 20 else rng.choice((12, 20, 36)))
    a = np.zeros(shape, dtype=rng.choice((np.int64, np.int32)))
    for index in np.ndindex(*prefix):
        for d in range(shape[-1]):
            # Low-rank layers: sums of outer products.
            layer = np.zeros(shape[-3:-1], dtype=int)
            for _ in range(rng.choice((0, 1, 1, 2, 3))):
                u = np.array([rng.randint(-3, 3) for _ in range(shape[-3])])
                v = np.array([rng.randint(-3, 3) for _ in range(shape[-2])])
                layer += np.outer(u, v)
            if rng.random() < (.15 if size < 6 else .6):
                # Nearly singular: elementary operations on a diagonal of zeros and ones.
                k = min(shape[-3:-1])
                layer = np.zeros(shape[-3:-1], dtype=int)
                for j in range(k):
                    layer[j, j] = rng.choice((1, 1, -1, 0))
                for _ in range(12 if size < 6 else 40):
                    axis = rng.randrange(2)
                    u, v = (rng.randrange(shape[-3 + axis]) for _ in range(2))
                    view = layer if axis == 0 else layer.T
                    new = view[u] + rng.choice((1, -1, 3, -7)) * view[v]
                    if u != v and abs(new).max() < (5000 if size < 6 else 400):
                        view[u] = new
                if np.linalg.cond(layer) > 1e9 and size > 5:
                    # Ranks of these are beyond double precision, or nearly, if they are not singular.
                    layer = np.diag(np.diag(layer)) if layer.shape[0] == layer.shape[1] else layer * 0 + 1
            a[index][..., d] = layer
        if not a[index][..., 0].any():
            a[index][rng.randrange(shape[-3]), rng.randrange(shape[-2]), 0] = rng.choice((1, -2))
    ctx.describe(a=a.tolist())
    for terms in {0, 1, 2, rng.randint(0, 8), rng.randint(0, 40)}:
        got = np.asarray(PM.projrank(presented(rng, a), terms))
        for index in np.ndindex(*prefix):
            want = sum(rank(a[index][..., d].tolist()) for d in range(min(terms, shape[-1])))
            value = got[index] if got.shape == tuple(prefix) else got
            ctx.check(got.shape == tuple(prefix) or terms == 0 and got.shape == (), f'shape of projrank {got.shape}', a=a.shape)
            ctx.check(value == want, 'projrank', got=value, want=want, terms=terms, a=a[index].tolist())
    ctx.hit('ranks')
    ctx.distinct(a.tolist())
    b = np.concatenate([np.zeros((*shape[:-1], 1), a.dtype), a], axis=-1)
    ctx.raises((AssertionError, ValueError), lambda: PM.projrank(b, 2), 'ranks of an array that is not projectivised')
    ctx.raises((AssertionError, ValueError), lambda: PM.projrank(a, -1), 'a negative number of terms')


@SUITE.scenario('large', quick=320, thorough=6000)
def large(ctx, rng, i):
    """Hundreds of degrees, dozens of rows, hundreds of matrices."""
    dtype = rng.choice((np.int64, np.int32))
    shape = ((*rng.choice(((), (2,))), 2, rng.choice((1, 3)), log_size(rng, 2, 2000)),
             (*rng.choice(((), (1,))), log_size(rng, 2, 60), log_size(rng, 2, 60), log_size(rng, 1, 30)),
             (log_size(rng, 2, 600), rng.choice((1, 2)), 2, log_size(rng, 1, 20)))[i % 3]
    if i % 8 == 0:
        # Counts beyond the machine's short integers.
        shape = ((2, rng.randint(60, 100), rng.randint(60, 100), rng.randint(5, 20)), (rng.randint(1, 2), 2, 1, rng.randint(30000, 80000)), (2, rng.randint(100, 140), rng.randint(100, 140), rng.randint(50, 90)))[i // 8 % 2 if i % 160 else 2]
        ctx.hit('huge')
    prefix = shape[:-3]
    if rng.random() < .4 and i % 8:
        a = sparse(rng, shape, dtype)
    else:
        # Filled, but for the ends.
        a = np.random.default_rng(rng.randrange(2**32)).integers(1, 99, shape).astype(dtype) * rng.choice((1, -1))
        for index in np.ndindex(*prefix):
            k, l = sorted(rng.randint(0, shape[-1]) for _ in range(2))
            a[index][..., :k if k < l else 0] = 0
            if k < l:
                a[index][..., l:] = 0
    ctx.describe(shape=shape, dtype=dtype)
    x = presented(rng, a)
    dead = False
    answers = {name: np.asarray(getattr(PM, name)(x)) for name in PLAIN}
    for index in np.ndindex(*prefix):
        degrees = [d for d in range(shape[-1]) if a[index][..., d].any()]
        dead |= not degrees
        lo, hi = (degrees[0], degrees[-1]) if degrees else (0, -1)
        want = dict(nz_terms=len(a[index].flatten().tolist()) - a[index].flatten().tolist().count(0), projlen=hi - lo + 1, efflen=max(hi - lo, 0), **(dict(degmax=hi, valmin=lo, rhogap=(hi - lo) / 2) if degrees else {}))
        for name, value in want.items():
            ctx.check(answers[name].shape == tuple(prefix) and answers[name][index] == value, f'{name} of a large array', got=answers[name][index], want=value, shape=shape, index=index)
    if not dead:
        starts, ends = map(np.asarray, PM.proj_starts_ends(x))
        ctx.check(np.array_equal(starts, answers['valmin']) and np.array_equal(ends, answers['degmax'] + 1), 'starts and ends of a large array', shape=shape)
    ctx.hit('large')
    ctx.distinct((shape, i))


@SUITE.scenario('braid images', quick=480, thorough=4500)
def braid_images(ctx, rng, i):
    """On the arrays the library itself makes."""
    from peyl import braidsearch as S
    from peyl.jonesrep import JonesCellRep
    n, r = rng.choice(((3, 1), (4, 1), (4, 2), (5, 2)))
    p = rng.choice((0, 2, 3, 101))
    batch = [GNF.sample(n, 3, random.Random(rng.random())) for _ in range(4)]
    if rng.random() < .5:
        a = S.evaluate_braids_of_same_length(S.JonesSummand(n, r, p), batch)
    else:
        a = JonesCellRep(n, r, p).polymat_evaluate_braids_of_same_length(batch)
    ctx.describe(n=n, r=r, p=p, batch=batch)
    for name in PLAIN:
        compare(ctx, getattr(PM, name)(a), a, (4,), name)
    got = PM.projrank(a, 2)
    for k in range(4):
        ctx.eq(int(got[k]), sum(rank(a[k, ..., d].tolist()) for d in range(min(2, a.shape[-1]))), 'projrank of an image', n=n, r=r, p=p)
    ctx.hit('braid images')
