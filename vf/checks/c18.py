import itertools

import numpy as np

from peyl import polymat as PM

from ..core import Suite
from ..lib import *

SUITE = Suite('C18',
    'Random packed arrays (0 to 3 batch axes, sizes 0..4 including rectangular, degree widths 1..9, sparse and dense, int32 and int64, non-contiguous and read-only views) are multiplied with every broadcasting pattern and truncation, packed, padded, concatenated, trimmed, projectivised and converted both ways, and compared entry by entry with dictionary polynomials. Unconvertible and incompatible inputs are offered. The same array is both operands in some cases, and arrays with up to four batch axes are trimmed. Packs of up to 1,500 have extreme entries, tails of zeros are long. Layers whose sums wrap around to zero are trimmed and projectivised. Non-trivial: at least two nonzero coefficients on each side.',
    assumptions=['Coefficients are drawn so that every exact result fits the integer type.'],
    require={'products': 1500, 'broadcast': 500, 'truncated': 400, 'packed': 800, 'padded': 400, 'concatenated': 400, 'trimmed': 800, 'projectivised': 800, 'to matrix': 500, 'from matrix': 1500, 'refused': 400, 'large': 480})


def coefficient(rng, big=False):
    return rng.choice((0, 0, 1, -1, 2, rng.randint(-9, 9), rng.randint(-10**4, 10**4), *([2**61 - 1, -2**61] if big else [])))


def array(rng, shape, dtype=np.int64, big=False, density=None):
    density = rng.choice((.15, .5, 1.)) if density is None else density
    a = np.zeros(shape, dtype=dtype)
    for index in np.ndindex(*shape):
        if rng.random() < density:
            a[index] = coefficient(rng, big)
    # Runs of zero layers at either end of the degree axis.
    if shape[-1] and rng.random() < .4:
        a[..., :rng.randint(0, shape[-1])] = 0
    if shape[-1] and rng.random() < .4:
        a[..., rng.randint(0, shape[-1]):] = 0
    return a


def presented(rng, a):
    """The same array as a view of another layout."""
    m = rng.randrange(5)
    if m == 0:
        a = np.asfortranarray(a)
    elif m == 1:
        big = np.full(tuple(2*s for s in a.shape), 7, dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        a = view
    elif m == 2:
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    elif m == 3:
        a = a.copy()
        a.setflags(write=False)
    return a


def mats(a):
    """index -> nested lists of dictionaries, for an array with batch axes."""
    return {index: lp.of_polymat(a[index]) for index in np.ndindex(*a.shape[:-3])}


def same(ctx, a, b, what, /, **kw):
    ctx.check(a.shape == b.shape and np.array_equal(a, b), what, got=a, want=b, **kw)


def nonzero_array(rng, shape, dtype=np.int64, big=False):
    """No matrix in it is zero."""
    a = array(rng, shape, dtype, big)
    for index in np.ndindex(*shape[:-3]):
        if not a[index].any():
            a[index][tuple(rng.randrange(s) for s in shape[-3:])] = rng.choice((1, -3, 5))
    return a


@SUITE.scenario('products', quick=14400, thorough=120000)
def products(ctx, rng, i):
    I, J, K = (rng.choice((1, 1, 2, 3, 4)) for _ in range(3))
    if rng.random() < .05:
        I, J, K = (rng.choice((0, 1, 2)) for _ in range(3))
    D, E = (rng.choice((1, 1, 2, 3, 5, 9)) for _ in range(2))
    depth = rng.choice((0, 0, 1, 1, 2, 3))
    full = [rng.choice((1, 2, 3)) for _ in range(depth)]
    def prefix():
        p = [s if rng.random() < .7 else 1 for s in full]
        return p[rng.randint(0, len(p)):] if rng.random() < .3 else p
    alpha, beta = prefix(), prefix()
    dtype = rng.choice((np.int64, np.int32))
    A, B = array(rng, (*alpha, I, J, D), dtype), array(rng, (*beta, J, K, E), dtype)
    if dtype is np.int32:
        A, B = A % 1000, B % 1000
    quotdeg = rng.choice((None, None, None, 0, 1, 2, D + E - 1, D + E + 3))
    ctx.describe(A=A.tolist(), B=B.tolist(), quotdeg=quotdeg)
    X, Y = presented(rng, A), presented(rng, B)
    got = PM.mul(X, Y) if quotdeg is None else PM.mul(X, Y, quotdeg) if rng.random() < .5 else PM.mul(X, Y, quotdeg=quotdeg)
    P = D + E - 1 if quotdeg is None else quotdeg
    shape = np.broadcast_shapes(tuple(alpha), tuple(beta))
    # The last axis is only promised not to be minimal.
    ctx.check(got.shape[:-1] == (*shape, I, K), f'shape of a product {got.shape}', A=A.shape, B=B.shape, quotdeg=quotdeg)
    ctx.check(quotdeg is None or got.shape[-1] == quotdeg, f'truncated to {got.shape[-1]} degrees', quotdeg=quotdeg)
    ctx.check(got.dtype == dtype, f'dtype {got.dtype} from {dtype}')
    ma, mb = mats(np.broadcast_to(A, (*shape, I, J, D))), mats(np.broadcast_to(B, (*shape, J, K, E)))
    for index in np.ndindex(*shape):
        want = lp.mmul(ma[index], mb[index]) if J and K else [[{} for _ in range(K)] for _ in range(I)]
        want = [[{d: c for d, c in x.items() if d < P} for x in row] for row in want]
        ctx.eq(lp.of_polymat(got[index]), want, 'product', index=index, quotdeg=quotdeg)
    ctx.hit('products')
    if alpha or beta:
        ctx.hit('broadcast')
    if quotdeg is not None:
        ctx.hit('truncated')
    if np.count_nonzero(A) > 1 and np.count_nonzero(B) > 1:
        ctx.distinct((A.tolist(), B.tolist(), quotdeg))
        ctx.sample(A=A.shape, B=B.shape, quotdeg=quotdeg)
    if I == J and i % 2:
        got, (ma, P) = PM.mul(X, X), (mats(A), 2 * D - 1)
        ctx.check(got.shape[:-1] == A.shape[:-1] and got.dtype == dtype, f'shape of a square {got.shape}', A=A.shape)
        for index in np.ndindex(*alpha):
            ctx.eq(lp.of_polymat(got[index]), lp.mmul(ma[index], ma[index]), 'product with itself', index=index)
    if J > 1:
        ctx.raises((AssertionError, ValueError), lambda: PM.mul(A, B[..., :-1, :, :]), 'incompatible matrices', A=A.shape)
        ctx.hit('refused')
    if rng.random() < .1:
        ctx.raises((AssertionError, ValueError), lambda: PM.mul(A, B, quotdeg=-1), 'negative truncation')
        ctx.raises((AssertionError, ValueError), lambda: PM.mul(A, np.zeros((J, E), dtype=int)), 'an array with two axes')
        ctx.raises((AssertionError, ValueError), lambda: PM.mul(np.zeros((2, I, J, D), dtype=int), np.zeros((3, J, K, E), dtype=int)), 'prefixes that do not broadcast')


@SUITE.scenario('combining', quick=9600, thorough=72000)
def combining(ctx, rng, i):
    I, J = rng.choice((1, 2, 3)), rng.choice((1, 2, 3))
    dtype = rng.choice((np.int64, np.int32))
    As = [array(rng, (I, J, rng.choice((1, 2, 4, 7))), dtype) for _ in range(rng.choice((1, 2, 3, 5)))]
    ctx.describe(As=[a.tolist() for a in As])
    got = PM.pack([presented(rng, a) for a in As])
    ctx.check(got.shape[:3] == (len(As), I, J) and got.dtype == dtype, f'shape or dtype of a pack: {got.shape} {got.dtype}')
    width = max((int(np.nonzero(a)[2].max()) + 1 if a.any() else 0) for a in As)
    ctx.check(got.shape[3] >= width, 'a pack is too narrow', width=width)
    for k, a in enumerate(As):
        ctx.eq(lp.of_polymat(got[k]), lp.of_polymat(a), 'packed', place=k)
    ctx.hit('packed')
    ctx.distinct([a.tolist() for a in As])
    # Batches.
    Bs = [array(rng, (rng.choice((0, 1, 1, 2, 3)), I, J, rng.choice((1, 2, 5))), dtype) for _ in range(rng.choice((1, 2, 4)))]
    got = PM.concatenate([presented(rng, b) for b in Bs])
    rows = [b[k] for b in Bs for k in range(b.shape[0])]
    ctx.check(got.shape[:3] == (len(rows), I, J) and got.dtype == dtype, f'shape or dtype of a concatenation: {got.shape} {got.dtype}')
    for k, a in enumerate(rows):
        ctx.eq(lp.of_polymat(got[k]), lp.of_polymat(a), 'concatenated', place=k)
    ctx.hit('concatenated')
    a = array(rng, (*[rng.choice((1, 2)) for _ in range(rng.choice((0, 1, 2)))], I, J, rng.choice((1, 2, 4))), dtype)
    D = a.shape[-1] + rng.choice((0, 1, 5))
    got = PM.zeropad(presented(rng, a), D)
    want = np.concatenate([a, np.zeros((*a.shape[:-1], D - a.shape[-1]), dtype=dtype)], axis=-1)
    same(ctx, got, want, 'zeropad')
    ctx.check(got.dtype == dtype, 'dtype of zeropad')
    ctx.hit('padded')
    ctx.raises((AssertionError, ValueError), lambda: PM.zeropad(a, a.shape[-1] - 1), 'padding to a smaller width')
    other = array(rng, (I + 1, J, 2), dtype)
    ctx.raises((AssertionError, ValueError), lambda: PM.pack(As + [other]), 'packing different shapes')
    ctx.raises((AssertionError, ValueError), lambda: PM.pack(As + [array(rng, (I, J + 1, 2), dtype)]), 'packing different shapes')
    ctx.raises((AssertionError, ValueError), lambda: PM.concatenate(Bs + [other[None]]), 'concatenating different shapes')
    ctx.raises((AssertionError, ValueError), lambda: PM.concatenate(Bs + [As[0]]), 'concatenating a single matrix')
    ctx.hit('refused', 5)
    if i % 50 == 0:
        ctx.raises((AssertionError, ValueError, IndexError), lambda: PM.pack([]), 'packing nothing')
        e = PM.concatenate([])
        ctx.check(e.shape[0] == 0 and e.ndim == 4, 'concatenating nothing')


@SUITE.scenario('trimming', quick=9600, thorough=72000)
def trimming(ctx, rng, i):
    prefix = [rng.choice((1, 2, 3)) for _ in range(rng.choice((0, 0, 1, 2, 3, 3, 4)))]
    shape = (*prefix, rng.choice((1, 2, 3)), rng.choice((1, 2, 3)), rng.choice((1, 2, 3, 5, 8)))
    dtype = rng.choice((np.int64, np.int32))
    if i % 6 == 0:
        shape = (*shape[:-3], *rng.choice(((2, 2), (1, 4), (4, 4), (2, 3))), shape[-1])
    a = wrapping(rng, shape, dtype) if i % 6 == 0 else array(rng, shape, dtype, density=rng.choice((.05, .3, .8)))
    ctx.describe(a=a.tolist())
    layers = [d for d in range(shape[-1]) if a[..., d].any()]
    got = PM.trim(presented(rng, a))
    same(ctx, got, a[..., :(layers[-1] + 1 if layers else 0)], 'trim')
    start, rest = PM.trim_left(presented(rng, a))
    lo = layers[0] if layers else shape[-1]
    ctx.eq(int(start), lo, 'trim_left degree', a=a.tolist())
    same(ctx, rest, a[..., lo:], 'trim_left')
    ctx.hit('trimmed')
    z = nonzero_array(rng, shape, dtype)
    if i % 6 == 0:
        w = wrapping(rng, shape, dtype)
        for index in np.ndindex(*prefix):
            if w[index].any():
                z[index] = w[index]
    ctx.describe(z=z.tolist())
    got = PM.projectivise(presented(rng, z))
    ctx.check(got.shape[:-1] == shape[:-1] and got.dtype == dtype, f'shape or dtype after projectivise {got.shape} {got.dtype}')
    width = 0
    for index, m in mats(z).items():
        want = lp.projective(m)
        ctx.eq(lp.of_polymat(got[index]), want, 'projectivise', index=index)
        width = max(width, lp.maxdeg(want) + 1)
    ctx.eq(got.shape[-1], width, 'width after projectivise', z=z.tolist())
    again = PM.projectivise(got)
    same(ctx, again, got, 'projectivise twice')
    ctx.hit('projectivised')
    ctx.distinct(z.tolist())
    if prefix:
        z[(0,) * len(prefix)] = 0
        ctx.raises((AssertionError, ValueError), lambda: PM.projectivise(z), 'a batch with a zero matrix')
        ctx.hit('refused')
    ctx.raises((AssertionError, ValueError), lambda: PM.projectivise(np.zeros(shape, dtype=dtype)), 'a zero matrix')


@SUITE.scenario('conversion', quick=12000, thorough=96000)
def conversion(ctx, rng, i):
    I, J = rng.choice((1, 2, 3, 4)), rng.choice((1, 2, 3))
    D = rng.choice((1, 2, 4, 7))
    a = array(rng, (I, J, D), rng.choice((np.int64, np.int32)), big=False)
    ctx.describe(a=a.tolist())
    M = PM.to_matrix(presented(rng, a))
    ctx.check(type(M) is Matrix and (M.nrows, M.ncols) == (I, J), 'to_matrix')
    ctx.check(all(isinstance(x, LPoly) for x in M.data), 'to_matrix entries', M=M)
    ctx.eq(lp.of_matrix(M), lp.of_polymat(a), 'to_matrix', a=a.tolist())
    ctx.hit('to matrix')
    # From a matrix of Laurent polynomials, integers or both.
    style = rng.randrange(4)
    lo = rng.choice((0, 0, 0, 1, 3, -1, -4))
    big = rng.random() < .3
    def entry():
        if style == 0 or (style == 1 and rng.random() < .5):
            return coefficient(rng, big)
        k = rng.choice((0, 1, 2, 4))
        return LPoly(lo + rng.randint(0, 3), tuple(coefficient(rng, big) for _ in range(k)))
    rows = [[entry() for _ in range(J)] for _ in range(I)]
    M = Matrix.from_rows(rows)
    want = lp.of_matrix(M)
    ctx.describe(M=M)
    low = lp.minval(want)
    for proj in (False, True):
        if low is not None and low < 0 and not proj:
            ctx.raises((ValueError, AssertionError), lambda: PM.from_matrix(M), 'negative powers', M=M)
            ctx.hit('refused')
            continue
        got = PM.from_matrix(M, proj) if rng.random() < .5 else PM.from_matrix(M, proj=proj, dtype=np.int64)
        ctx.check(isinstance(got, np.ndarray) and got.ndim == 3 and got.shape[:2] == (I, J) and got.dtype == np.int64, f'from_matrix shape {getattr(got, "shape", None)}', M=M)
        # With proj, only negative powers are shifted away.
        ctx.eq(lp.of_polymat(got), lp.shift(want, -low) if low is not None and low < 0 else want, 'from_matrix', M=M, proj=proj)
        if low is None or low >= 0:
            back = PM.to_matrix(got)
            ctx.eq(lp.of_matrix(back), want, 'there and back', M=M)
        ctx.hit('from matrix')
    if low is not None and low >= 0 and not big:
        got = PM.from_matrix(M, dtype=np.int32)
        ctx.check(got.dtype == np.int32, 'dtype of from_matrix')
        ctx.eq(lp.of_polymat(got), want, 'from_matrix as int32', M=M)
    k = rng.randrange(I * J)
    data = list(M.data)
    if style != 0 and i % 4 == 0:
        for value in (2**63, LPoly(0, (1, 2**64)), -2**70):
            data[k] = value
            bad = Matrix(I, J, tuple(data))
            ctx.raises((OverflowError, ValueError, AssertionError), lambda: PM.from_matrix(bad, proj=True), 'coefficients beyond int64', M=bad)
            ctx.hit('refused')
    n = rng.randint(1, 5) if i % 8 else rng.randint(6, 30)
    ctx.eq(lp.of_polymat(PM.eye(n)), lp.mident(n), 'eye')
    if n > 1:
        s = rng.randrange(n - 1)
        g = lp.of_polymat(PM.burau_generator_v2(n, s))
        want = lp.mident(n - 1)
        for j in range(n - 1):
            if abs(j - s) == 1:
                want[s][j] = {1: -1}
        want[s][s] = {2: -1}
        ctx.eq(g, want, 'burau_generator_v2', n=n, s=s)


def sparse(rng, shape, dtype=np.int64):
    """Up to fifty coefficients anywhere, at the ends of the degree axis among other places."""
    a = np.zeros(shape, dtype=dtype)
    for _ in range(rng.choice((1, 5, 20, 50))):
        a[tuple(rng.choice((0, s - 1, rng.randrange(s))) for s in shape)] = rng.randint(1, 999) * rng.choice((1, -1))
    return a


def wrapping(rng, shape, dtype):
    """Entries which cancel, or are lost, in sums and narrower types: x and -x, and multiples of large powers of two."""
    bits = np.iinfo(dtype).bits
    a = np.zeros(shape, dtype=dtype)
    for index in np.ndindex(*shape[:-3]):
        for d in range(shape[-1]):
            m, k = rng.randrange(5), rng.randint(8, bits - 2)
            layer = a[index][..., d]
            if m == 0:
                layer[...] = 2**k
            elif m == 1:
                layer.flat[:] = np.resize(np.array((1, -1), dtype=dtype) * dtype(rng.choice((1, 2**k))), layer.size)
            elif m == 2:
                layer.flat[rng.randrange(layer.size)] = rng.choice((-1, 1)) * rng.choice((1, 2**k, 2**(bits // 2)))
            elif m == 3:
                layer.flat[rng.randrange(layer.size)] = -2**(bits - 1)
    return a


def as_objects(a):
    return a.astype(object)


def tails(ctx, rng, dtype):
    """Long runs of zeros at either end, and hundreds of matrices with large entries."""
    lo, mid, hi = log_size(rng, 1, 3000), log_size(rng, 1, 200), log_size(rng, 1, 3000)
    core = nonzero_array(rng, (2, 2, mid), dtype)
    core[0, 0, 0] = core[1, 1, -1] = rng.choice((1, -3))
    zeros = lambda k: np.zeros((2, 2, k), dtype)
    same(ctx, PM.trim(np.concatenate([core, zeros(hi)], axis=-1)), core, 'trim of a long tail')
    start, rest = PM.trim_left(np.concatenate([zeros(lo), core], axis=-1))
    ctx.eq(int(start), lo, 'trim_left of a long head')
    same(ctx, rest, core, 'trim_left of a long head')
    padded = np.concatenate([zeros(lo), core, zeros(hi)], axis=-1)
    same(ctx, PM.projectivise(padded), core, 'projectivise between long zeros')
    same(ctx, PM.zeropad(core, mid + hi), np.concatenate([core, zeros(hi)], axis=-1), 'zeropad to a great width')
    pieces = [nonzero_array(rng, (1, 2, rng.randint(1, 3)), dtype) for _ in range(5)]
    most = np.iinfo(dtype).max
    pieces[0][0, 0, 0], pieces[-1][0, 1, -1] = most, -most
    many = [pieces[rng.randrange(5)] for _ in range(log_size(rng, 2, 1500))]
    for got in (PM.pack(many), PM.concatenate([x[None] for x in many])):
        ctx.check(got.dtype == dtype and got.shape == (len(many), 1, 2, max(PM.trim(x).shape[-1] for x in many)), 'shape of many packed together', shape=got.shape)
        ctx.check(all(np.array_equal(y, PM.zeropad(PM.trim(x), got.shape[-1])) for x, y in zip(many, got)), 'many packed together', count=len(many))
    ctx.hit('tails')


@SUITE.scenario('large', quick=480, thorough=6000)
def large(ctx, rng, i):
    """Hundreds of degrees, dozens of rows, hundreds of matrices."""
    dtype = rng.choice((np.int64, np.int32))
    if i % 6 == 0:
        tails(ctx, rng, dtype)
    m = i % 3
    if m == 0:
        I, J, K, D, E = *(rng.choice((1, 2, 3)) for _ in range(3)), log_size(rng, 1, 700), log_size(rng, 1, 700)
        prefix = rng.choice(((), (), (2,)))
        A, B = sparse(rng, (*prefix, I, J, D), dtype), sparse(rng, (J, K, E), dtype)
    elif m == 1:
        I, J, K, D, E = *(log_size(rng, 2, 40) for _ in range(3)), *(rng.choice((1, 2, 5)) for _ in range(2))
        prefix = ()
        A, B = (np.array([rng.randint(-99, 99) for _ in range(x * y * z)], dtype=dtype).reshape(x, y, z) for x, y, z in ((I, J, D), (J, K, E)))
    else:
        I, J, K, D, E = *(rng.choice((1, 2, 3)) for _ in range(3)), *(log_size(rng, 1, 40) for _ in range(2))
        prefix = (log_size(rng, 2, 300),)
        A, B = (np.array([rng.randint(-99, 99) for _ in range(prefix[0] * x * y * z)], dtype=dtype).reshape(prefix[0], x, y, z) for x, y, z in ((I, J, D), (J, K, E)))
    ctx.describe(A=A.shape, B=B.shape, dtype=dtype)
    got = PM.mul(presented(rng, A), presented(rng, B))
    want = np.zeros((*prefix, I, K, D + E - 1), dtype=object)
    for d in range(D):
        if A[..., d].any():
            for e in range(E):
                if B[..., e].any():
                    want[..., d + e] += as_objects(A[..., d]) @ as_objects(B[..., e])
    for x in (got, PM.mul(A, B, quotdeg=(D + E) // 2)):
        w = want[..., :min(D + E - 1, x.shape[-1])]
        ctx.check(x.shape[:-1] == w.shape[:-1] and np.array_equal(as_objects(x[..., :w.shape[-1]]), w) and not x[..., w.shape[-1]:].any(), 'product of large arrays', A=A.shape, B=B.shape)
    # Packing, joining and shifting.
    rows = [A] if A.ndim == 3 else list(A)
    pieces = [x[..., :rng.randint(1, D)] for x in rows for _ in range(rng.choice((1, 2)))]
    got = PM.pack(pieces)
    ctx.check(len(got) == len(pieces) and all(got.shape[-1] >= PM.trim(x).shape[-1] and np.array_equal(PM.zeropad(PM.trim(x), got.shape[-1]), y) for x, y in zip(pieces, got)), 'packing large arrays', A=A.shape)
    got = PM.concatenate([x[None] for x in pieces])
    ctx.check(len(got) == len(pieces) and all(np.array_equal(y[..., :x.shape[-1]], x[..., :got.shape[-1]]) and not y[..., x.shape[-1]:].any() and not x[..., got.shape[-1]:].any() for x, y in zip(pieces, got)), 'joining large arrays', A=A.shape)
    pieces = [x for x in pieces if x.any()]
    if pieces:
        got = PM.projectivise(PM.pack(pieces))
        for x, y in zip(pieces, got):
            degrees = np.flatnonzero(x.any(axis=(0, 1)))
            w = x[..., degrees[0]:degrees[-1] + 1]
            ctx.check(np.array_equal(y[..., :w.shape[-1]], w) and not y[..., w.shape[-1]:].any(), 'projectivising large arrays', x=x.tolist())
    if len(rows) == 1:
        M = PM.to_matrix(A)
        ctx.eq(lp.of_matrix(M), lp.of_polymat(A), 'to_matrix')
        back = PM.from_matrix(M)
        ctx.eq(lp.of_polymat(back), lp.of_polymat(A), 'from_matrix')
    ctx.hit('large')
    ctx.distinct((A.shape, B.shape, i))


@SUITE.scenario('modular', quick=2400, thorough=18000)
def modular(ctx, rng, i):
    """Wrap-around free products near the top of each type."""
    dtype, top = rng.choice(((np.int64, 2**62), (np.int32, 2**30)))
    J, D = rng.choice((1, 2, 3)), rng.choice((1, 2, 3))
    bound = int((top / (J * D)) ** .5)
    A = np.array([[[rng.randint(-bound, bound) for _ in range(D)] for _ in range(J)] for _ in range(2)], dtype=dtype)
    B = np.array([[[rng.randint(-bound, bound) for _ in range(D)] for _ in range(2)] for _ in range(J)], dtype=dtype)
    got = PM.mul(A, B)
    ctx.eq(lp.of_polymat(got), lp.mmul(lp.of_polymat(A), lp.of_polymat(B)), 'product of large coefficients', A=A.tolist(), B=B.tolist(), dtype=dtype)
    ctx.hit('products')
