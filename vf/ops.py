"""
A catalogue of the library's operations over typed values, for monitors that do not care what an operation
means but how it behaves: purity, repeatability, histories, threads, processes.
"""
import dataclasses
import functools
import itertools
import json
import random

import numpy as np
import pandas as pd

from peyl import braid as PB
from peyl import braidsearch as S
from peyl import bucketing as B
from peyl import noncrossing as NC
from peyl import permutations as PE
from peyl import polymat as PM
from peyl import tl as TL
from peyl.jonesrep import JonesCellRep, LKBRep, RepBase
from peyl.poly import Poly

from .core import Violation
from .lib import *


def freeze(x, depth=0):
    """Everything observable about a value, as text-like nested tuples that compare and hash."""
    if depth > 12:
        return '...'
    d = depth + 1
    if x is None or type(x) in (int, str, float, bool, bytes):
        return type(x).__name__, str(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return 'objects', x.shape, tuple(freeze(y, d) for y in x.ravel().tolist())
        return 'array', str(x.dtype), x.shape, x.tolist() if x.size < 40 else x.tobytes()
    if isinstance(x, np.generic):
        return type(x).__name__, str(x)
    if isinstance(x, pd.DataFrame):
        return 'frame', tuple(map(str, x.columns)), tuple(freeze(x[c].tolist(), d) for c in x.columns)
    if isinstance(x, pd.Series):
        return 'series', freeze(x.tolist(), d)
    if isinstance(x, (tuple, list)):
        return type(x).__name__, tuple(freeze(y, d) for y in x)
    if isinstance(x, (set, frozenset)):
        return type(x).__name__, tuple(sorted((freeze(y, d) for y in x), key=repr))
    if isinstance(x, dict):
        return 'dict', tuple((freeze(k, d), freeze(v, d)) for k, v in sorted(x.items(), key=lambda kv: repr(freeze(kv[0], d))))
    if isinstance(x, (RepBase, S.JonesSummand)):
        return type(x).__name__, x.n, getattr(x, 'r', None), x.p, freeze(getattr(x, 'q', None), d), freeze(getattr(x, 't', None), d)
    if isinstance(x, random.Random):
        return 'Random', str(hash(x.getstate()))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return type(x).__name__, tuple((f.name, freeze(getattr(x, f.name), d)) for f in dataclasses.fields(x) if f.compare)
    if isinstance(x, type):
        return 'class', x.__name__
    state = {}
    for cls in type(x).__mro__:
        for name in getattr(cls, '__slots__', ()):
            if hasattr(x, name):
                state[name] = getattr(x, name)
    state.update(getattr(x, '__dict__', {}))
    if state:
        return type(x).__name__, freeze({k: v for k, v in state.items() if not callable(v) and not k.startswith('_')}, d)
    return type(x).__name__, repr(x)


def printable(frozen):
    """As freeze, but fit for JSON."""
    import hashlib
    return hashlib.blake2b(repr(frozen).encode(), digest_size=12).hexdigest()


SHARED = {}


class World:
    """What the arguments of one case have in common, so that they fit together."""
    SPECS = [(2, 0, 0), (2, 1, 3), (3, 1, 0), (3, 1, 2), (3, 0, 5), (4, 1, 0), (4, 2, 0), (4, 1, 3), (4, 2, 2), (4, 1, 101), (5, 2, 0), (5, 1, 7)]

    def __init__(self, rng, fresh=False, spec=None):
        self.n, self.r, self.p = spec or rng.choice(self.SPECS)
        key = self.n, self.r, self.p
        if fresh or key not in SHARED:
            rep, lkb = JonesCellRep(*key), LKBRep(max(self.n, 2), self.p, LPoly(1, (1,)), LPoly(3, (1,)))
            if fresh:
                self.rep, self.lkb = rep, lkb
                self.summand = S.JonesSummand(*key)
                return
            SHARED[key] = rep, S.JonesSummand(*key), lkb
        self.rep, self.summand, self.lkb = SHARED[key]


# Generators of values by type.

def gen_word(rng, W):
    return list(random_word(rng, W.n, rng.choice((0, 1, 3, 7))))


def gen_perm(rng, W):
    w = list(range(W.n))
    rng.shuffle(w)
    return Permutation(tuple(w))


def gen_npar(rng, W):
    return NPar.from_components(W.n, [list(b) for b in rng.choice(MP.noncrossing_partitions(W.n))])


def gen_braid(cls):
    def gen(rng, W):
        if W.n > 2 and rng.random() < .6:
            b = cls.sample(W.n, rng.choice((0, 1, 2, 2, 3)), random.Random(rng.random()))
            return cls(W.n, rng.choice((0, 0, 1, -1, 2, -3)), b.factors)
        return cls.from_artin_word(W.n, gen_word(rng, W))
    return gen


def gen_lpoly(rng, W):
    return LPoly(rng.randint(-3, 2), [rng.randint(-4, 4) for _ in range(rng.randint(0, 4))])


def gen_poly(rng, W):
    return Poly(*[rng.randint(-4, 4) for _ in range(rng.randint(0, 5))])


def gen_matrix(rng, W):
    d = W.rep.dimension()
    return Matrix.from_rows([[gen_lpoly(rng, W) for _ in range(d)] for _ in range(d)])


def gen_pm(rng, W):
    """A packed square matrix with no zero matrix in it, as an image would be."""
    d, D = W.rep.dimension(), rng.randint(1, 4)
    a = np.array([[[rng.choice((0, 0, 1, -1, 2, rng.randint(-9, 9))) for _ in range(D)] for _ in range(d)] for _ in range(d)], dtype=W.rep.polymat_dtype())
    if W.p:
        a %= W.p
    if not a.any():
        a[0, 0, 0] = 1
    if rng.random() < .3:
        a = np.concatenate([np.zeros((d, d, rng.randint(0, 2)), a.dtype), a, np.zeros((d, d, rng.randint(0, 2)), a.dtype)], axis=2)
    return a


def gen_img(rng, W):
    return W.rep.polymat_evaluate_braid(gen_braid(GNF)(rng, W))


def gen_lifted(rng, W):
    """An image with other representatives of its coefficients, padded."""
    a = gen_img(rng, W)
    a = np.concatenate([np.zeros((*a.shape[:2], rng.randint(0, 2)), a.dtype), a, np.zeros((*a.shape[:2], rng.randint(0, 2)), a.dtype)], axis=2)
    return a + W.p * np.array([rng.randint(-1, 2) for _ in range(a.size)], dtype=a.dtype).reshape(a.shape)


def gen_gnfs(rng, W):
    """A list of braids of equal length."""
    l = rng.choice((0, 1, 2, 3)) if W.n > 2 else 0
    return [GNF(W.n, rng.choice((0, 0, 1, -2)), GNF.sample(W.n, l, random.Random(rng.random())).factors) for _ in range(rng.choice((1, 2, 5)))]


def gen_dgnfs(rng, W):
    l = rng.choice((0, 1, 2, 3)) if W.n > 2 else 0
    return [DGNF(W.n, rng.choice((0, 0, 1, -2)), DGNF.sample(W.n, l, random.Random(rng.random())).factors) for _ in range(rng.choice((1, 2, 5)))]


def gen_diag(rng, W):
    from .checks.c08 import random_seq
    return TL.TLDiag(W.n, W.n, random_seq(rng, 2 * W.n))


def gen_mor(rng, W):
    from .checks.c09 import random_mor
    return random_mor(rng, W.n, W.n)[1]


def gen_small(rng, W):
    return rng.randint(0, 3)


GEN = {'word': gen_word, 'perm': gen_perm, 'npar': gen_npar, 'gnf': gen_braid(GNF), 'dgnf': gen_braid(DGNF), 'lpoly': gen_lpoly, 'poly': gen_poly,
       'matrix': gen_matrix, 'pm': gen_pm, 'img': gen_img, 'lifted': gen_lifted, 'gnfs': gen_gnfs, 'dgnfs': gen_dgnfs, 'diag': gen_diag, 'mor': gen_mor, 'k': gen_small}

OPS = {}


def op(name, inputs, output='any'):
    def deco(fn):
        assert name not in OPS
        OPS[name] = inputs.split(), output, fn
        return fn
    return deco


def simple(name, inputs, output, fn):
    op(name, inputs, output)(fn)


some = lambda it, k=40: list(itertools.islice(it, k))

for name, inputs, output, fn in [
    # Permutations and partitions.
    ('perm mul', 'perm perm', 'perm', lambda W, x, y: x * y),
    ('perm inv', 'perm', 'perm', lambda W, x: x.inv()),
    ('perm facts', 'perm', 'any', lambda W, x: (x.length(), x.disjoint_cycles(), x.cycle_type(), x.right_descent_set(), x.left_descent_set(), repr(x), x.group())),
    ('perm shortlex', 'perm', 'any', lambda W, x: x.shortlex()),
    ('perm word', 'perm', 'word', lambda W, x: x.artin_word()),
    ('perm functions', 'perm perm', 'any', lambda W, x, y: (PE.compose(x.word, y.word), PE.inverse(x.word), PE.parity(x.word), PE.shortlex(x.word), PE.length(x.word), PE.disjoint_cycles(x.word), PE.is_parallel_descending_cycles(x.word))),
    ('group', '', 'any', lambda W: (PE.SymmetricGroup(W.n).cox_gens(), PE.SymmetricGroup(W.n).longest_element(), PE.SymmetricGroup(W.n).id(), some(PE.SymmetricGroup(W.n).reflections()), some(PE.SymmetricGroup(W.n).elements(), 200))),
    ('npar facts', 'npar', 'any', lambda W, x: (x.components(), list(x.edges()), repr(x))),
    ('npar complements', 'npar', 'any', lambda W, x: (x.left_complement(), x.right_complement())),
    ('npar complement', 'npar', 'npar', lambda W, x: x.right_complement()),
    ('npar perm', 'npar', 'perm', lambda W, x: x.to_permutation()),
    ('npar word', 'npar', 'word', lambda W, x: x.artin_word()),
    ('npars', '', 'any', lambda W: (some(NPar.all_of_size(W.n), 60), NPar.finest(W.n), NPar.coarsest(W.n), NC.catalan(W.n))),
    # Braids.
    ('gnf word', 'word', 'gnf', lambda W, w: GNF.from_artin_word(W.n, w)),
    ('dgnf word', 'word', 'dgnf', lambda W, w: DGNF.from_artin_word(W.n, w)),
    ('gnf mul', 'gnf gnf', 'gnf', lambda W, x, y: x * y),
    ('dgnf mul', 'dgnf dgnf', 'dgnf', lambda W, x, y: x * y),
    ('gnf inv', 'gnf', 'gnf', lambda W, x: x.inv()),
    ('dgnf inv', 'dgnf', 'dgnf', lambda W, x: x.inv()),
    ('gnf pow', 'gnf k', 'gnf', lambda W, x, k: x ** (k - 1)),
    ('dgnf pow', 'dgnf k', 'dgnf', lambda W, x, k: x ** (k - 1)),
    ('gnf facts', 'gnf', 'any', lambda W, x: (x.canonical_decomposition(), x.canonical_factors(), x.inf(), x.sup(), x.garside_length(), repr(x), x._repr_latex_(), x.magma_artin_word())),
    ('dgnf facts', 'dgnf', 'any', lambda W, x: (x.canonical_decomposition(), x.canonical_factors(), x.inf(), x.sup(), x.canonical_length(), repr(x), x._repr_latex_(), x.magma_artin_word())),
    ('gnf artin word', 'gnf', 'word', lambda W, x: x.artin_word()),
    ('dgnf artin word', 'dgnf', 'word', lambda W, x: x.artin_word()),
    ('to dgnf', 'gnf', 'dgnf', lambda W, x: x.to_DGNF()),
    ('to gnf', 'dgnf', 'gnf', lambda W, x: x.to_GNF()),
    ('gnf substring', 'gnf k', 'gnf', lambda W, x, k: x.substring(0, min(k, x.canonical_length()))),
    ('dgnf substring', 'dgnf k', 'dgnf', lambda W, x, k: x.substring(0, min(k, x.canonical_length()))),
    ('gnf suffixes', 'gnf k', 'any', lambda W, x, k: some(x.nf_suffixes(min(k, 2)), 2000)),
    ('dgnf descendants', 'dgnf', 'any', lambda W, x: some(x.nf_descendants(), 2000)),
    ('gnf adapted', 'gnf', 'any', lambda W, x: (PB.adapt_braid(x), PB.convert_braid(PB.adapt_braid(x).encode()))),
    ('dgnf adapted', 'dgnf', 'any', lambda W, x: (PB.adapt_braid(x), PB.convert_braid(PB.adapt_braid(x).encode()))),
    ('gnf lift', 'perm', 'gnf', lambda W, x: GNF.from_perm(x)),
    ('dgnf lift', 'npar', 'dgnf', lambda W, x: DGNF.from_npar(x)),
    ('group gens', '', 'any', lambda W: (BraidGroup(W.n).gens(), BraidGroup(W.n).invs(), BraidGroup(W.n).id(), BraidGroup(W.n).bkl_gens(), GNF.artin_gens(W.n), DGNF.artin_gens(W.n), DGNF.bkl_gens(W.n))),
    ('counts', 'k', 'any', lambda W, k: (GNF.count_all_of_length(W.n, k), DGNF.count_all_of_length(W.n, k), BraidGroup(W.n).count_all_of_garside_length(k))),
    ('gnf all', 'k', 'any', lambda W, k: some(GNF.all_of_length(W.n, min(k, 2)), 800)),
    ('dgnf all', 'k', 'any', lambda W, k: some(DGNF.all_of_length(W.n, min(k, 2)), 800)),
    # Polynomials and matrices.
    ('lpoly ring', 'lpoly lpoly', 'lpoly', lambda W, x, y: x * y - x + 2 * y),
    ('lpoly facts', 'lpoly', 'any', lambda W, x: (repr(x), x.fmt('latex'), x.is_zero(), x.is_unit(), x.map(lambda c: c % 3), x ** 2, -x)),
    ('lpoly scalars', 'lpoly k', 'lpoly', lambda W, x, k: k - x * k + LPoly.quantum_integer(k)),
    ('poly ring', 'poly poly', 'poly', lambda W, x, y: x * y - x + y),
    ('poly facts', 'poly k', 'any', lambda W, x, k: (repr(x), x.deg() if not x.is_zero() else None, x.evaluate(k), x ** 2, -x, divmod(x, Poly(*[1, 2, 1])))),
    ('cyclotomic', 'k', 'any', lambda W, k: (Poly.cyclotomic(k + 5), Poly.chebyshevT(k + 3), Poly.minpolycos(k + 4))),
    ('matrix ring', 'matrix matrix', 'matrix', lambda W, x, y: x * y - x),
    ('matrix facts', 'matrix', 'any', lambda W, x: (x.transpose(), x.trace(), x.rows(), x.row(0), x.column(0), list(x.entries()), str(x), x ** 2, x.map(lambda c: c * 2), 3 * x, x.is_symmetric())),
    ('matrix rows', 'matrix', 'matrix', lambda W, x: Matrix.from_rows(x.rows())),
    # Packed matrices.
    ('pm mul', 'pm img', 'any', lambda W, a, b: PM.mul(a, b)),
    ('pm trims', 'pm', 'any', lambda W, a: (PM.trim(a), PM.trim_left(a))),
    ('pm trim', 'pm', 'pm', lambda W, a: PM.trim(a)),
    ('pm projective', 'pm', 'pm', lambda W, a: PM.projectivise(a)),
    ('pm pack', 'pm pm img', 'any', lambda W, a, b, c: PM.pack([a, b, c])),
    ('pm batch', 'pm pm', 'any', lambda W, a, b: PM.projectivise(PM.pack([a, b]))),
    ('pm concatenate', 'pm img', 'any', lambda W, a, b: PM.concatenate([a[None], b[None]])),
    ('pm zeropad', 'pm k', 'pm', lambda W, a, k: PM.zeropad(a, a.shape[-1] + k)),
    ('pm facts', 'pm', 'any', lambda W, a: (PM.degmax(a), PM.valmin(a), PM.nz_terms(a), PM.rhogap(a), PM.efflen(a), PM.projlen(a), PM.proj_starts_ends(a))),
    ('pm rank', 'img k', 'any', lambda W, a, k: int(PM.projrank(a, k))),
    ('pm matrix', 'pm', 'matrix', lambda W, a: PM.to_matrix(a)),
    ('matrix pm', 'matrix', 'any', lambda W, x: PM.from_matrix(x, proj=True)),
    # Diagrams.
    ('diag mul', 'diag diag', 'any', lambda W, x, y: x * y),
    ('diag facts', 'diag', 'any', lambda W, x: (x.flip(), x @ x, TL.through_strands(x), repr(x))),
    ('mor ring', 'mor mor', 'mor', lambda W, x, y: x * y - x + y),
    ('mor facts', 'mor lpoly', 'any', lambda W, x, c: (x.flip(), x.trace(), -x, c * x, x ** 2, x.quotient(W.n % 2), list(x.pairs()), list(x.support()), x.is_zero())),
    ('mor cell', 'mor', 'any', lambda W, x: S.cell_matrix(x, W.r)),
    ('mor project', 'mor', 'any', lambda W, x: TL.TLCell(W.n, W.r).project_leftmult_matrix(x)),
    ('bases', '', 'any', lambda W: (list(TL.cell_basis(W.n, W.r)), some(TL.tl_basis(W.n, W.n % 2)), list(TL.TLMor.basis(W.n, W.n % 2)), W.rep.tl_basis())),
    # Representations.
    ('rep word', 'word', 'any', lambda W, w: W.rep.evaluate_artin_word(w)),
    ('rep evaluate', 'gnf', 'matrix', lambda W, x: W.rep.evaluate(x)),
    ('rep evaluate dual', 'dgnf', 'matrix', lambda W, x: W.rep.evaluate(x)),
    ('rep gens', '', 'any', lambda W: (W.rep.artin_gens_invs(), W.rep.polymat_artin_gens_invs(), W.rep.id(), W.rep.polymat_id(), W.rep.dimension(), repr(W.rep))),
    ('rep pm word', 'word', 'img', lambda W, w: W.rep.polymat_evaluate_artin_word(w)),
    ('rep pm braid', 'gnf', 'img', lambda W, x: W.rep.polymat_evaluate_braid(x)),
    ('rep pm dual', 'dgnf', 'img', lambda W, x: W.rep.polymat_evaluate_braid(x)),
    ('rep pm any', 'npar', 'img', lambda W, x: W.rep.polymat_evaluate(x)),
    ('rep pm perm', 'perm', 'img', lambda W, x: W.rep.polymat_evaluate(x)),
    ('rep pm many', 'gnfs', 'any', lambda W, xs: W.rep.polymat_evaluate_braids_of_same_length(xs)),
    ('rep pm many duals', 'dgnfs', 'any', lambda W, xs: W.rep.polymat_evaluate_braids_of_same_length(xs)),
    ('rep pm mul', 'img img', 'img', lambda W, a, b: W.rep.polymat_mul(a, b)),
    ('rep pm mul lifted', 'lifted lifted', 'img', lambda W, a, b: W.rep.polymat_mul(a, b)),
    ('summand mul lifted', 'lifted lifted', 'img', lambda W, a, b: W.summand.mul(a, b)),
    ('lifted facts', 'lifted', 'any', lambda W, a: (PM.trim(a), PM.trim_left(a), PM.projectivise(a), PM.pack([a, a]), int(PM.projrank(PM.projectivise(a), 2)), int(PM.projlen(a)))),
    ('rep pm integers', 'gnfs', 'any', lambda W, xs: W.rep.polymat_evaluate_braid_integers_of_same_length(GNF, [list(x.factors) for x in xs])),
    ('lkb', 'word', 'any', lambda W, w: (W.lkb.evaluate_artin_word(w), W.lkb.polymat_evaluate_artin_word(w))),
    ('lkb braid', 'dgnf', 'any', lambda W, x: W.lkb.polymat_evaluate_braid(x)),
    ('summand gens', '', 'any', lambda W: (W.summand.artin_gens_invs(), W.summand.id(), W.summand.dimension(), W.summand.dtype(), repr(W.summand))),
    ('summand mul', 'img img', 'img', lambda W, a, b: W.summand.mul(a, b)),
    ('summand braid', 'gnf', 'img', lambda W, x: S.evaluate_braid_factors(W.summand, x)),
    ('summand many', 'gnfs', 'any', lambda W, xs: S.evaluate_braids_of_same_length(W.summand, xs)),
    ('summand prefixes', 'gnfs', 'any', lambda W, xs: S.evaluate_prefixes_of_same_length(W.summand, xs)),
    ('summand mixed', 'gnfs gnfs', 'any', lambda W, xs, ys: S.evaluate_braids(W.summand, xs + ys)),
    ('frame', 'gnfs', 'any', lambda W, xs: S.braids_images_to_dataframe(xs, S.evaluate_braids_of_same_length(W.summand, xs)).drop(columns='rhogap/length')),
    ('below', '', 'any', lambda W: len(S.all_of_length_below_1(W.summand, 2)[0]) if W.n == 4 and W.p == 2 else None),
    ('samples', 'k', 'any', lambda W, k: S.sample_braids_images(W.summand, k if W.n > 2 else 0, 3, rand=random.Random(k))),
    ('tl gens', '', 'any', lambda W: (S.tl_gens_invs(W.n), S.cell_matrices(W.n, W.r))),
]:
    simple(name, inputs, output, fn)


def unchanged(before, images):
    if freeze(images) != before:
        raise Violation('the images offered to a tracker were changed by it')


def tracker_history(W, xs, ys, k):
    T = B.Tracker(W.rep, 3, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [B.Stats.NonzeroTerms],
                  reservoir_method=('GreedyFirst', 'Uniform', 'AChao', 'EvictMin')[k], reservoir_weight=B.Stats.NonzeroTerms, rand=random.Random(5))
    for zs in (xs, ys):
        images = W.rep.polymat_evaluate_braids_of_same_length(zs)
        before = freeze(images)
        T.add_braids_images(zs, images)
        unchanged(before, images)
    if W.n > 2:
        for tag in list(T.buckets)[:2]:
            T.nf_descendants(tag, 1)
    return {t: (list(b.braids), np.array(b.images[:b.size()]), b.weights[:b.size()].tolist(), b.reservoir_count) for t, b in T.buckets.items()}, T.stats()


def search_history(W, xs, ys, k):
    T = S.Tracker(W.summand, 3, ('length', 'projlen'), lambda s: s['length'] >= 0, rand=random.Random(7) if k % 2 else None)
    for zs in (xs, ys):
        images = S.evaluate_braids_of_same_length(W.summand, zs)
        before = freeze(images)
        T.add_braids_images(zs, images)
        unchanged(before, images)
    for tag in sorted(T.buckets)[:2]:
        if W.n > 2:
            T.nf_descendants(tag, 1)
        T.bucket_product(tag, tag)
    return {t: (list(T.bucket_braids_images(t)[0]), np.array(T.bucket_braids_images(t)[1])) for t in T.buckets}, T.stats_reservoir()


simple('tracker', 'gnfs gnfs k', 'any', tracker_history)
simple('dual tracker', 'dgnfs dgnfs k', 'any', tracker_history)
simple('search tracker', 'gnfs gnfs k', 'any', search_history)
NAMES = sorted(OPS)


def request(name, seed, fresh=False):
    """World and arguments of a request, determined by its seed."""
    rng = random.Random(f'{name}/{seed}')
    W = World(rng, fresh=fresh)
    return W, [GEN[t](rng, W) for t in OPS[name][0]]


def answer(name, seed, fresh=False):
    W, args = request(name, seed, fresh)
    return freeze(OPS[name][2](W, *args))
