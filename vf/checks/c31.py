import fractions
import operator
import os
import subprocess
import sys
import tempfile

import numpy as np

from peyl import braid as PB
from peyl import braidsearch as S
from peyl import bucketing as B
from peyl import noncrossing as NC
from peyl import permutations as PE
from peyl import polymat as PM
from peyl import tl as TL
from peyl.braid import convert_braid
from peyl.jonesrep import JonesCellRep, LKBRep
from peyl.permutations import SymmetricGroup
from peyl.poly import Poly
from peyl.tl import JonesRep, TLCell, TLDiag, TLExtDiag, TLMor, tl_basis

from .. import core
from ..core import Suite
from ..lib import *
from ..ops import freeze
from ..script import environment
from .c08 import random_seq
from .c09 import random_mor

SUITE = Suite('C31',
    'A catalogue of invalid requests at every entry point, each drawn at random and each next to a valid one that differs as little as possible: the valid one must be answered, the invalid one must raise, and all operands must compare equal to their snapshots afterwards. Operators: every arithmetic operator on every ordered pair of library and foreign types outside the table of supported pairs must raise TypeError. Trackers: invalid requests after random histories must raise and leave the whole content of the tracker unchanged. The search script with arguments out of range must fail without touching the database. Words, factor lists and batches of hundreds are wrong at one place only. Non-trivial: a refused request with its valid neighbour answered.',
    assumptions=['Which exception is raised is left open, except that unsupported operand types raise TypeError.', 'Functions on raw words and involutions are only asked about sizes and indices, not about words which are no permutations.'],
    require={'refused': 6000, 'neighbours answered': 4000, 'kinds of request': 51, 'operand types': 2500, 'tracker requests': 1000, 'script runs': 6})

REQUESTS = {}


def bad(fn):
    """fn(rng) -> (operands, invalid thunk, valid thunk or None)."""
    assert fn.__name__ not in REQUESTS
    REQUESTS[fn.__name__] = fn
    return fn


def cls_of(rng):
    return rng.choice((GNF, DGNF))


def braid(rng, cls, n):
    b = cls.sample(n, rng.choice((0, 1, 2, 3)), rng) if n > 2 else cls.identity(n)
    return cls(n, rng.choice((0, 0, 1, -1, 3)), b.factors)


def perm(rng, n):
    w = list(range(n))
    rng.shuffle(w)
    return Permutation(tuple(w))


def npar(rng, n):
    return NPar.from_components(n, [list(b) for b in rng.choice(MP.noncrossing_partitions(n))])


def two_sizes(rng, low=2, high=5):
    return rng.sample(range(low, high + 1), 2)


def outside(rng, n):
    """An index outside [0, n)."""
    return rng.choice((-1, n, -n, n + 1, n + 5, -n - 1)) if n else rng.choice((-1, 0, 1))


# Braids.

@bad
def product_of_braids_of_different_groups(rng):
    m, n = two_sizes(rng)
    cls = cls_of(rng)
    x, y, z = braid(rng, cls, m), braid(rng, cls, n), braid(rng, cls, m)
    return (x, y), lambda: x * y, lambda: x * z


@bad
def product_of_braids_of_different_kinds(rng):
    n = rng.randint(2, 5)
    x, y = rng.sample((braid(rng, GNF, n), braid(rng, DGNF, n)), 2)
    return (x, y), lambda: x * y, lambda: x * y.to_GNF() if isinstance(x, GNF) else x * y.to_DGNF()


@bad
def comparison_of_braids_of_different_kinds(rng):
    n = rng.randint(2, 5)
    x, y = rng.sample((braid(rng, GNF, n), braid(rng, DGNF, n)), 2)
    return (x, y), lambda: x < y, lambda: x < x


@bad
def factor_indices_out_of_range(rng):
    cls, n = cls_of(rng), rng.randint(3, 5)
    b = cls.sample(n, rng.randint(1, 3), rng)
    i = rng.randrange(len(b.factors))
    f = list(b.factors)
    f[i] = rng.choice((-1, -len(list(cls.all_of_length(n, 1))) - 2, f[i] - len(cls.artin_gens(n)) - 500, 10 ** 6, f[i] + 0.5, None, 'a'))
    return (b,), lambda: cls(n, 0, tuple(f)), lambda: cls(n, 0, b.factors)


@bad
def garside_element_among_the_factors(rng):
    # The identity and the Garside element are no proper factors; products of two factors mostly are no normal forms.
    cls, n = cls_of(rng), rng.randint(3, 5)
    proper = {b.factors[0] for b in cls.all_of_length(n, 1)}
    k = len(proper) + 2
    wrong = rng.choice([f for f in range(k) if f not in proper])
    b = cls.sample(n, rng.randint(1, 2), rng)
    # A trailing identity, or a leading Garside element; one of the two is wrong in either place for a single factor.
    return (b,), lambda: cls(n, 0, (wrong,)), lambda: cls(n, 0, b.factors)


@bad
def one_wrong_pair_of_factors(rng):
    # Long sequences that are a normal form but for one place.
    cls, n = cls_of(rng), rng.choice((3, 4, 4, 5))
    b = cls.sample(n, log_size(rng, 2, 80), rng)
    i = rng.randrange(len(b.factors))
    f = list(b.factors)
    known = {x.factors[0]: factor_perm(x.canonical_factor(0)) for x in cls.all_of_length(n, 1)}
    allowed = (lambda x, y: MP.left_weighted(x, y)) if cls is GNF else (lambda x, y: MP.dual_left_weighted(n, x, y))
    # The two other indices are the identity and the Garside element, which are never proper factors.
    choices = [y for y in range(len(known) + 2) if y not in known or i and not allowed(known[f[i - 1]], known[y]) or i + 1 < len(f) and not allowed(known[y], known[f[i + 1]])]
    f[i] = rng.choice(choices)
    return (b,), lambda: cls(n, b.power, tuple(f)), lambda: cls(n, b.power, b.factors)


@bad
def group_parameters(rng):
    n = rng.choice((0, -1, -2, -5))
    k = rng.choice((7, 8, 12))
    f = rng.choice((lambda: BraidGroup(n), lambda: GNF.identity(min(n, -1)), lambda: DGNF.identity(min(n, -1)), lambda: GNF.identity(k), lambda: DGNF.identity(k + 3),
                    lambda: BraidGroup(k).gens(), lambda: SymmetricGroup(min(n, -1)), lambda: BraidGroup(n).gens(), lambda: GNF.from_artin_word(min(n, -1), [])))
    return (), f, lambda: BraidGroup(3).gens()


@bad
def generators_out_of_range(rng):
    n, cls = rng.randint(2, 5), cls_of(rng)
    word = list(random_word(rng, n, rng.randint(0, 4)))
    wrong = list(word)
    wrong.insert(rng.randint(0, len(word)), (outside(rng, n - 1), rng.choice((1, -1, 2))))
    f = rng.choice((cls.from_artin_word, ) * 2 + (lambda n, w: cls.from_artin_word(n, iter(w)),))
    return (word, wrong), lambda: f(n, wrong), lambda: f(n, word)


@bad
def letters_that_are_no_letters(rng):
    n, cls = rng.randint(3, 5), cls_of(rng)
    word = list(random_word(rng, n, 3))
    wrong = list(word)
    wrong.insert(rng.randint(0, len(word)), rng.choice([(0, 1.5), (0.5, 1), ('a', 1), (0,), (0, 1, 1), None, 0, (0, None), (0, 'a')]))
    return (word, wrong), lambda: cls.from_artin_word(n, wrong), lambda: cls.from_artin_word(n, word)


@bad
def negative_lengths(rng):
    n, cls, l = rng.randint(3, 5), cls_of(rng), rng.choice((-1, -2, -5))
    b = braid(rng, cls, n)
    f = rng.choice((lambda l: cls.count_all_of_length(n, l), lambda l: list(cls.all_of_length(n, l)), lambda l: cls.sample(n, l, random.Random(1)), lambda l: list(b.nf_suffixes(l)),
                    lambda l: BraidGroup(n).count_all_of_garside_length(l), lambda l: list(BraidGroup(n).all_of_garside_length(l)), lambda l: BraidGroup(n).sample_braid_perm(l, random.Random(1))))
    return (b,), lambda: f(l), lambda: f(1)


@bad
def substrings_out_of_range(rng):
    n, cls = rng.randint(3, 5), cls_of(rng)
    b = cls.sample(n, rng.randint(0, 4), rng)
    l = b.canonical_length()
    i, j = rng.choice([(-1, l), (1, 0), (0, l + 1), (l + 1, l + 1), (-2, -1), (l, l - 1), (l + 1, l + 2), (-l - 1, 0)])
    return (b,), lambda: b.substring(i, j), lambda: b.substring(0, l)


@bad
def factors_out_of_range(rng):
    n, cls = rng.randint(3, 5), cls_of(rng)
    b = cls.sample(n, rng.randint(1, 4), rng)
    l = b.canonical_length()
    i = rng.choice((l, -l - 1, l + 3, 10 ** 9))
    return (b,), lambda: b.canonical_factor(i), lambda: b.canonical_factor(-l)


@bad
def lifts_of_other_sizes(rng):
    m, n = two_sizes(rng)
    f, good, wrong = rng.choice((
        (BraidGroup(n).positive_lift, perm(rng, n), perm(rng, m)), (BraidGroup(n).from_npar, npar(rng, n), npar(rng, m)),
        (lambda x: GNF.from_perm_seq(n, [perm(rng, n), x]), perm(rng, n), perm(rng, m)), (lambda x: GNF.from_perm_seq(n, [x]), perm(rng, n), perm(rng, m)),
        (lambda x: DGNF.from_npar_seq(n, [x, npar(rng, n)]), npar(rng, n), npar(rng, m)), (lambda x: DGNF.from_npar_seq(n, (x,)), npar(rng, n), npar(rng, m)),
        (lambda x: BraidGroup(n).from_gnf_pair((1, [x.word])), perm(rng, n), perm(rng, m)),
        (BraidGroup(n).positive_lift, perm(rng, n), npar(rng, n)), (BraidGroup(n).from_npar, npar(rng, n), perm(rng, n)), (GNF.from_perm, perm(rng, n), npar(rng, n)), (DGNF.from_npar, npar(rng, n), perm(rng, n)),
    ))
    return (good, wrong), lambda: f(wrong), lambda: f(good)


@bad
def pairs_that_are_no_normal_forms(rng):
    n = rng.randint(3, 5)
    word = list(perm(rng, n).word)
    wrong = list(word)
    wrong[rng.randrange(n)] = rng.choice((-1, n, wrong[0] if wrong[0] != wrong[1] else n))
    if sorted(wrong) == list(range(n)):
        wrong[0] = n
    return (word, wrong), lambda: BraidGroup(n).from_gnf_pair((0, [tuple(wrong)])), lambda: BraidGroup(n).from_gnf_pair((0, [tuple(word)]))


@bad
def cells_that_are_no_braids(rng):
    n, cls = rng.randint(3, 5), cls_of(rng)
    b = braid(rng, cls, n)
    text = PB.adapt_braid(b).encode()
    wrong = rng.choice((text[1:] if cls is GNF else b'X' + text, text[:-1], text[:-2], b'', b'garbage', text.replace(b'(', b'[', 1), text + b')', text.replace(b'%d,' % n, b'', 1), text.lower(), b' ' + text, text.replace(b'GNF', b'BNF')))
    return (text, wrong), lambda: convert_braid(wrong), lambda: convert_braid(text)


@bad
def generators_of_the_group_out_of_range(rng):
    n = rng.randint(2, 5)
    k = outside(rng, n)
    f = rng.choice((lambda k: DGNF.bkl_gens(n)[0, k], lambda k: BraidGroup(n).bkl_gens()[k, 0], lambda k: NPar.from_components(n, [[0, k]] if k != 0 else [[0]])))
    return (), lambda: f(k), lambda: f(n - 1)


# Permutations and partitions.

@bad
def words_that_are_no_permutations(rng):
    n = rng.randint(1, 8)
    word = list(range(n))
    rng.shuffle(word)
    wrong = list(word)
    i = rng.randrange(n)
    wrong[i] = rng.choice((-1, n, n + 3, wrong[i] - n if wrong[i] else n, wrong[i - 1] if n > 1 else 5))
    return (word, wrong), lambda: Permutation(tuple(wrong)), lambda: Permutation(tuple(word))


@bad
def long_words_that_are_no_permutations(rng):
    n = log_size(rng, 4, 90)
    word = list(range(n))
    rng.shuffle(word)
    wrong = list(word)
    # The same smallest and largest entries and the same sum.
    i, j = (wrong.index(x) for x in rng.sample(range(1, n - 1), 2))
    wrong[i] += 1 if wrong[i] < wrong[j] else -1
    wrong[j] -= 1 if word[i] < word[j] else -1
    if sorted(wrong) == list(range(n)):
        wrong[i] = wrong[j]
    return (word, wrong), lambda: Permutation(tuple(wrong)), lambda: Permutation(tuple(word))


@bad
def cycles_that_repeat(rng):
    n = log_size(rng, 2, 40)
    G = SymmetricGroup(n)
    cycle = rng.sample(range(n), rng.randint(1, n))
    again = rng.choice((cycle * 2, cycle * 3, cycle + cycle[:1], cycle[-1:] + cycle, cycle + [rng.choice(cycle)]))
    return (cycle, again), *rng.choice(((lambda: G.from_cycle(again), lambda: G.from_cycle(cycle)), (lambda: G.from_cycles([cycle, again]), lambda: G.from_cycles([cycle, cycle]))))


PAIRS_OUT_OF_ORDER = {}


@bad
def long_factors_out_of_order(rng):
    cls, n = rng.choice(((GNF, 3), (GNF, 4), (DGNF, 3), (DGNF, 4), (DGNF, 5)))
    if (cls, n) not in PAIRS_OUT_OF_ORDER:
        proper = sorted({b.factors[0] for b in cls.all_of_length(n, 1)})
        allowed = {b.factors for b in cls.all_of_length(n, 2)}
        PAIRS_OUT_OF_ORDER[cls, n] = {x: [y for y in proper if (x, y) not in allowed] for x in proper}
    after = PAIRS_OUT_OF_ORDER[cls, n]
    b = cls.sample(n, log_size(rng, 3, 1500), rng)
    k = rng.choice((rng.randrange(len(b.factors)), len(b.factors) - 1))
    options = after[b.factors[k]]
    # One factor in excess, which may not follow the one before it.
    wrong = (*b.factors[:k+1], rng.choice(options), *b.factors[k+1:]) if options and rng.random() < .8 else (*b.factors[:k], rng.choice((-1, 10**6)), *b.factors[k+1:])
    return (b,), lambda: cls(n, b.power, wrong), lambda: cls(n, b.power, b.factors)


@bad
def product_of_permutations_of_different_sizes(rng):
    m, n = two_sizes(rng, 0, 7)
    x, y, z = perm(rng, m), perm(rng, n), perm(rng, m)
    return rng.choice((((x, y), lambda: x * y, lambda: x * z), ((x, y), lambda: PE.compose(x.word, y.word), lambda: PE.compose(x.word, z.word))))


@bad
def indices_of_permutations_out_of_range(rng):
    n = rng.randint(2, 7)
    x = perm(rng, n)
    G = SymmetricGroup(n)
    k, s = outside(rng, n), outside(rng, n - 1)
    return (x,), *rng.choice((
        (lambda: PE.transposition(n, 0, k), lambda: PE.transposition(n, 0, n - 1)), (lambda: PE.transposition(n, k, 0), lambda: PE.transposition(n, n - 1, 0)),
        (lambda: PE.from_cox(n, (0, s)), lambda: PE.from_cox(n, (0, n - 2))), (lambda: G.from_cox((s,)), lambda: G.from_cox((n - 2,))),
        (lambda: G.from_cycle((0, k)), lambda: G.from_cycle((0, n - 1))), (lambda: G.from_cycle((0, n - 1, 0)), lambda: G.from_cycle((n - 1, 0))), (lambda: G.from_cycles([(0, 1), (k,)]), lambda: G.from_cycles([(0, 1), (n - 1,)])),
        (lambda: x.is_right_descent(s), lambda: x.is_right_descent(n - 2)), (lambda: x.is_left_descent(s), lambda: x.is_left_descent(n - 2)),
        (lambda: PE.is_right_descent(x.word, s), lambda: PE.is_right_descent(x.word, 0)), (lambda: PE.is_left_descent(x.word, s), lambda: PE.is_left_descent(x.word, 0))))


@bad
def blocks_that_are_no_partition(rng):
    n = rng.randint(4, 7)
    good = [[0, 2], [1]]
    wrong = rng.choice(([[0, 2], [1, 3]], [[0, 1], [1, 2]], [[0, n]], [[-1, 0]], [[0, 0]], [[0, 1, 0]], [[2, 3], [0, 3]], [[n - 1, 1], [0, 2]], [[0.5, 1]], [['a', 0]], [[0], [0]], [[None]], [[n + 4]]))
    return (wrong, good), lambda: NPar.from_components(n, wrong), lambda: NPar.from_components(n, good)


@bad
def involutions_that_are_no_partition(rng):
    n = rng.randint(2, 5)
    good = list(random_seq(rng, 2 * n))
    wrong = list(good)
    i, j = rng.sample(range(2 * n), 2)
    how = rng.randrange(4)
    if how == 0:
        wrong[i] = rng.choice((-1, 2 * n, i, wrong[i] - 2 * n))
    elif how == 1:
        wrong[i], wrong[j] = wrong[j], wrong[i]
        if wrong[i] == j or wrong[j] == i:
            wrong[i] = i
    elif how == 2:
        wrong = wrong[:-2]
    else:
        wrong = [(k + n) % (2 * n) for k in range(2 * n)]
    f = rng.choice((lambda s: NPar(n, s), lambda s: TLDiag(n, n, s), lambda s: TLExtDiag(n, n, s), lambda s: TLDiag(2 * n, 0, s)))
    return (good, wrong), lambda: f(tuple(wrong)), lambda: f(tuple(good))


@bad
def permutations_that_are_no_partition(rng):
    n = rng.randint(3, 6)
    x = perm(rng, n)
    table = {MP.partition_perm(n, b) for b in MP.noncrossing_partitions(n)}
    while tuple(x.word) in table:
        x = perm(rng, n)
    y = Permutation(rng.choice(sorted(table)))
    return (x, y), lambda: NPar.from_permutation(x), lambda: NPar.from_permutation(y)


@bad
def negative_sizes(rng):
    n = rng.choice((-1, -2, -7))
    f, good = rng.choice((
        (NPar.finest, 3), (NPar.coarsest, 3), (lambda n: list(NPar.all_of_size(n)), 3), (NC.catalan, 3), (TLDiag.id, 3), (TLMor.id, 3), (TLExtDiag.id, 3), (Matrix.identity, 3), (lambda n: Matrix.zero(n, 2), 3), (lambda n: Matrix.zero(2, n), 3),
        (lambda n: Matrix.scalar(n, 5), 3), (PM.eye, 3), (lambda n: TL.cell_basis(n, 0), 3), (lambda n: TL.cell_basis(3, n), 1), (lambda n: TL.cell_dimension(n, 0), 3), (lambda n: TL.cell_dimension(3, n), 1), (lambda n: TLCell(n, 0), 3), (lambda n: TLCell(4, n), 2),
        (JonesRep, 3), (lambda n: tl_basis(n, -n), 0), (lambda n: TLMor(n, 2, {}), 4), (lambda n: TLMor(2, n, {}), 4), (lambda n: TLExtDiag(1, 1, (1, 0), n), 3), (lambda n: list(TL.generate_sequences(n)), 4), (lambda n: list(S.batched([1, 2], n)), 1),
        (lambda n: list(B.batched([1, 2], n)), 1), (lambda n: TL.tl_tableaux_basis(4, n), 2), (Poly.cyclotomic, 5), (Poly.chebyshevT, 5), (Poly.minpolycos, 5), (lambda n: list(TLMor.basis(n, n)), 2)))
    return (), lambda: f(n), lambda: f(good)


# Diagrams.

@bad
def diagrams_of_other_types(rng):
    m, k, t = rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 5)
    cls = rng.choice((TLDiag, TLExtDiag))
    while k == m or (t + m) % 2 or True:
        t, m, k = rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 5)
        if (t + m) % 2 == 0 and k != m:
            break
    x, y, z = cls(t, m, random_seq(rng, t + m)), cls(k, k, random_seq(rng, 2 * k)), cls(m, m, random_seq(rng, 2 * m))
    return (x, y), lambda: x * y, lambda: x * z


def mors(rng):
    m, k = two_sizes(rng, 0, 4)
    return random_mor(rng, m, m)[1], random_mor(rng, k, k)[1], random_mor(rng, m, m)[1], m, k


@bad
def morphisms_of_other_types(rng):
    x, y, z, m, k = mors(rng)
    f = rng.choice((operator.mul, operator.add, operator.sub))
    return (x, y), lambda: f(x, y), lambda: f(x, z)


@bad
def diagrams_foreign_to_a_morphism(rng):
    x, y, z, m, k = mors(rng)
    good, wrong = TLDiag(m, m, random_seq(rng, 2 * m)), TLDiag(k, k, random_seq(rng, 2 * k))
    f = rng.choice((x.coefficient, lambda d: x * d, lambda d: TLMor(m, m, {d: LPoly(0, (1,))}), lambda d: TLMor(m, m, {good: LPoly(0, (1,)), d: LPoly(0, ())})))
    return (x, good, wrong), lambda: f(wrong), lambda: f(good)


@bad
def endomorphisms_only(rng):
    m = rng.randint(0, 4)
    k = m + rng.choice((2, 4)) if rng.random() < .5 else abs(m - 2)
    if k == m:
        k = m + 2
    x, y = random_mor(rng, m, k)[1], random_mor(rng, m, m)[1]
    f = rng.choice((lambda x: x ** 2, lambda x: x ** 0, lambda x: x ** 1, lambda x: x.trace(), lambda x: x + 1, lambda x: x + LPoly(0, (1, 1)), lambda x: x - 1, lambda x: S.cell_matrix(x, 0)))
    return (x, y), lambda: f(x), lambda: f(y)


@bad
def generators_of_the_algebra_out_of_range(rng):
    n = rng.randint(2, 6)
    k = outside(rng, n - 1)
    f = rng.choice((lambda k: TLMor.e(k, n), lambda k: TLExtDiag.e(k, n), lambda k: PM.burau_generator_v2(n, k)))
    return (), lambda: f(k), lambda: f(n - 2)


@bad
def cells_of_other_types(rng):
    x, y, z, m, k = mors(rng)
    r = rng.randint(0, m // 2)
    cell = TLCell(m, r)
    good = random_mor(rng, m, m - 2 * r)[1]
    wrong = random_mor(rng, *rng.choice([(a, b) for a, b in ((m + 2, m - 2 * r), (m, m - 2 * r + 2), (k, k), (m - 2 * r + 1, m + 1)) if (a, b) != (m, m - 2 * r)]))[1]
    return rng.choice((((x, y), lambda: cell.project_leftmult_matrix(y), lambda: cell.project_leftmult_matrix(x)), ((good, wrong), lambda: cell.project_vector(wrong), lambda: cell.project_vector(good))))


@bad
def bubbles_below_none(rng):
    n = rng.randint(1, 4)
    k = rng.randint(0, 3)
    d = TLExtDiag.id(n).add_bubbles(k)
    m = rng.randint(k + 1, k + 5)
    seq = TLExtDiag.id(n).seq
    f, good = rng.choice(((lambda: d.add_bubbles(-m), lambda: d.add_bubbles(-k)), (lambda: TLExtDiag(n, n, seq, -m), lambda: TLExtDiag(n, n, seq, m))))
    return (d,), f, good


@bad
def cells_out_of_range(rng):
    n = rng.randint(0, 6)
    r = rng.choice((n // 2 + 1, n // 2 + 3, -1, -4))
    f = rng.choice((lambda r: TLCell(n, r), lambda r: TL.cell_dimension(n, r)))
    return (), lambda: f(r), lambda: f(n // 2)


@bad
def middles_and_insertions_out_of_range(rng):
    a, b = random_seq(rng, 2 * rng.randint(0, 4)), random_seq(rng, 2 * rng.randint(0, 4))
    k = rng.choice((min(len(a), len(b)) + 1, -1, max(len(a), len(b)) + 2))
    i = rng.choice((len(a) + 1, -1))
    odd = rng.choice((1, 3, -1, -2, 7))
    return (a, b), *rng.choice(((lambda: TL.compose(a, b, k), lambda: TL.compose(a, b, 0)), (lambda: TL.insert(a, b, i), lambda: TL.insert(a, b, len(a))),
        (lambda: list(TL.generate_sequences(odd)), lambda: list(TL.generate_sequences(2))), (lambda: tl_basis(abs(odd) if odd % 2 else 3, 4), lambda: tl_basis(2, 4)), (lambda: TL.tl_tableaux_basis(3, 2), lambda: TL.tl_tableaux_basis(3, 1)), (lambda: TL.tl_tableaux_basis(3, 5), lambda: TL.tl_tableaux_basis(3, 3))))


# Polynomials and matrices.

def lpoly(rng, zero=True):
    while True:
        x = LPoly(rng.randint(-3, 3), [rng.randint(-4, 4) for _ in range(rng.randint(0, 4))])
        if zero or not x.is_zero():
            return x


def matrix(rng, m, n, poly=None):
    poly = rng.random() < .5 if poly is None else poly
    return Matrix(m, n, tuple(lpoly(rng) if poly else rng.randint(-9, 9) for _ in range(m * n)))


@bad
def inverses_of_polynomials(rng):
    x = lpoly(rng)
    while x.coeffs in ((1,), (-1,)):
        x = lpoly(rng)
    y = Poly(*x.coeffs, 1, 1)
    k = rng.randint(1, 4)
    return (x, y), *rng.choice(((lambda: x ** -k, lambda: x ** k), (lambda: y ** -k, lambda: y ** k), (lambda: x / LPoly(0, ()), lambda: LPoly(0, ()) / LPoly(2, (1,))), (lambda: y / Poly(), lambda: y / Poly(1)), (lambda: divmod(y, Poly(0)), lambda: divmod(y, Poly(0, 1)))))


@bad
def inexact_quotients(rng):
    d = Poly(*[rng.randint(-3, 3) for _ in range(rng.randint(1, 3))], rng.choice((1, -1, 2, 3)))
    q = Poly(*[rng.randint(-3, 3) for _ in range(rng.randint(0, 3))])
    r = Poly(*[rng.randint(-3, 3) for _ in range(d.deg() - 1)], rng.choice((1, -1, 2)))
    if r.deg() >= d.deg():
        r = Poly(1)
    if rng.random() < .5:
        return (d, q, r), lambda: (d * q + r) / d, lambda: (d * q) / d
    L = lambda p: LPoly(rng.randint(-2, 2), p.coeffs)
    x, y, z = L(d * q + r), L(d), L(d * q)
    # Up to powers of v, the remainder still is nonzero, unless the divisor is a monomial.
    if sum(c != 0 for c in d.coeffs) == 1 or not d.coeffs[0]:
        return (d, q, r), lambda: (d * q + r) / d, lambda: (d * q) / d
    return (x, y, z), lambda: x / y, lambda: z / y


@bad
def coercions(rng):
    x = rng.choice((None, 'a', 1.5, Poly(1, 1), (1,), [1], fractions.Fraction(1, 2), TLMor.id(2), object()))
    return (), lambda: LPoly.coerce(x), lambda: LPoly.coerce(3)


@bad
def malformed_matrices(rng):
    m, n = rng.randint(1, 4), rng.randint(1, 4)
    good = matrix(rng, m, n, False)
    rows = good.rows()
    ragged = [list(r) for r in rows] + [[0] * (n + rng.choice((-1, 1)))]
    return (good,), *rng.choice(((lambda: Matrix(m, n, good.data + (1,)), lambda: Matrix(m, n, good.data)), (lambda: Matrix(m, n, good.data[:-1]), lambda: Matrix(m, n, good.data)), (lambda: Matrix(m, n, list(good.data)), lambda: Matrix(n, m, good.data)),
        (lambda: Matrix(-m, -n, good.data), lambda: Matrix(m, n, good.data)), (lambda: Matrix.from_rows(ragged), lambda: Matrix.from_rows(rows)), (lambda: Matrix.col_coord_vector(n, outside(rng, n)), lambda: Matrix.col_coord_vector(n, n - 1))))


@bad
def matrices_of_other_shapes(rng):
    m, n, k = (rng.randint(1, 4) for _ in range(3))
    l = rng.choice([x for x in range(1, 6) if x != n])
    x, y, z = matrix(rng, m, n), matrix(rng, n, k), matrix(rng, l, k)
    a, b, c = matrix(rng, m, n), matrix(rng, m, l), matrix(rng, l if l != m else l + 1, n)
    sq, non = matrix(rng, n, n), matrix(rng, n, l)
    u, v = matrix(rng, m, l), matrix(rng, *rng.choice([(d, m * l // d) for d in range(1, m * l + 1) if m * l % d == 0 and d != m] or [(m + 1, l)]))
    return rng.choice((((x, z), lambda: x * z, lambda: x * y), ((u, v), lambda: u - v, lambda: u - u), ((x, b), lambda: x - b, lambda: x - a), ((x, c), lambda: x - c, lambda: x - a),
        ((sq, non), lambda: non.trace(), lambda: sq.trace()), ((sq, non), lambda: non ** rng.randint(0, 3), lambda: sq ** 2), ((sq,), lambda: sq ** -1, lambda: sq ** 0)))


@bad
def entries_out_of_range(rng):
    m, n = rng.randint(1, 4), rng.randint(1, 4)
    x = matrix(rng, m, n)
    i, j = outside(rng, m), outside(rng, n)
    key = rng.choice(((i, 0), (0, j), (i, j), 0, (0,), (0, 0, 0), None, 'ab', (0, None), (0.5, 0)))
    return (x,), *rng.choice(((lambda: x[key], lambda: x[m - 1, n - 1]), (lambda: x.row(i), lambda: x.row(m - 1)), (lambda: x.column(j), lambda: x.column(n - 1))))


# Packed matrices.

def pm(rng, *shape):
    a = np.array([rng.randint(-4, 4) for _ in range(int(np.prod(shape)))]).reshape(shape)
    a[..., 0, 0, 0] = 1
    return a


@bad
def packed_shapes(rng):
    i, j, k = (rng.randint(1, 3) for _ in range(3))
    l = rng.choice([x for x in range(1, 5) if x != j])
    D, E = rng.randint(1, 3), rng.randint(1, 3)
    a, b, c = pm(rng, i, j, D), pm(rng, j, k, E), pm(rng, l, k, E)
    return rng.choice((((a, c), lambda: PM.mul(a, c), lambda: PM.mul(a, b)), ((a, b), lambda: PM.mul(a[..., 0], b), lambda: PM.mul(a, b)), ((a, b), lambda: PM.mul(a, b[0]), lambda: PM.mul(a, b)), ((a, b), lambda: PM.mul(a, b, -1), lambda: PM.mul(a, b, 0)),
        ((a, b), lambda: PM.mul(np.stack([a] * 2), np.stack([b] * 3)), lambda: PM.mul(np.stack([a] * 2), np.stack([b] * 2))),
        ((a,), lambda: PM.pack([]), lambda: PM.pack([a])), ((a,), lambda: PM.pack([a, pm(rng, i, l, D)]), lambda: PM.pack([a, pm(rng, i, j, E)])), ((a,), lambda: PM.pack([a[None]]), lambda: PM.pack([a])),
        ((a,), lambda: PM.zeropad(a, D - 1), lambda: PM.zeropad(a, D)), ((a,), lambda: PM.zeropad(a[..., 0], 9), lambda: PM.zeropad(a, 9)),
        ((a,), lambda: PM.concatenate([a, a]), lambda: PM.concatenate([a[None], a[None]])), ((a,), lambda: PM.concatenate([a[None], pm(rng, 1, i, l, D)]), lambda: PM.concatenate([a[None], pm(rng, 2, i, j, E)])),
        ((a,), lambda: PM.to_matrix(a[None]), lambda: PM.to_matrix(a)), ((a,), lambda: PM.to_matrix(a[0]), lambda: PM.to_matrix(a))))


@bad
def statistics_of_flat_arrays(rng):
    a = pm(rng, 2, 2, 3)
    f = rng.choice((PM.degmax, PM.valmin, PM.rhogap, PM.nz_terms, PM.projlen, PM.efflen, PM.projectivise, lambda a: PM.projrank(a, 2)))
    return (a,), lambda: f(a[0]), lambda: f(a)


@bad
def projective_zero(rng):
    a = pm(rng, rng.randint(1, 4), 2, 2, 3)
    z = a.copy()
    z[rng.randrange(len(a))] = 0
    return (a, z), lambda: PM.projectivise(z), lambda: PM.projectivise(a)


@bad
def negative_powers_of_v(rng):
    d = rng.randint(1, 3)
    x = Matrix(1, d, tuple(LPoly(rng.randint(0, 2), (1, rng.randint(-3, 3))) for _ in range(d)))
    y = x.map(lambda e: e * LPoly(-3, (1,)))
    return (x, y), lambda: PM.from_matrix(y), lambda: PM.from_matrix(y, proj=True)


# Representations.

REPS = {}


def rep(rng, n=None):
    n = n or rng.choice((3, 4, 5))
    make = rng.choice((lambda: JonesCellRep(n, 1), lambda: JonesCellRep(n, n // 2, 3), lambda: LKBRep(n, 0, LPoly(1, (1,)), LPoly(3, (1,)))))
    R = make()
    key = type(R), R.n, getattr(R, 'r', None), R.p
    return REPS.setdefault(key, R), n


def summand(rng):
    n = rng.choice((3, 4))
    return S.JonesSummand(n, 1, rng.choice((0, 5))), n


@bad
def representation_parameters(rng):
    n = rng.randint(2, 6)
    r = rng.choice((n // 2 + 1, n // 2 + 3))
    u, v = LPoly(1, (1,)), LPoly(2, (-1,))
    # A sum, zero and a multiple are no units.
    p, no = rng.choice((0, 0, 3, 5)), rng.choice((LPoly(0, (1, 1)), LPoly(0, ()), LPoly(0, (2,)), LPoly(-1, (1, 0, -1))))
    return (), *rng.choice(((lambda: JonesCellRep(n, r), lambda: JonesCellRep(n, n // 2)), (lambda: JonesCellRep(n, 1, -rng.randint(1, 5)), lambda: JonesCellRep(n, 1, 5)), (lambda: JonesCellRep(-rng.randint(0, 3), 0), lambda: JonesCellRep(1, 0)),
        (lambda: JonesCellRep(n, -1).polymat_artin_gens_invs(), lambda: JonesCellRep(n, 0).polymat_artin_gens_invs()), (lambda: S.JonesSummand(n, -1).artin_gens_invs(), lambda: S.JonesSummand(n, 0).artin_gens_invs()),
        (lambda: S.JonesSummand(n, r), lambda: S.JonesSummand(n, n // 2)), (lambda: S.JonesSummand(n, 1, -rng.randint(1, 5)), lambda: S.JonesSummand(n, 1, 5)), (lambda: S.JonesSummand(-rng.randint(0, 3), 0), lambda: S.JonesSummand(1, 0)),
        (lambda: S.cell_matrices(n, r), lambda: S.cell_matrices(n, n // 2)), *[(lambda q=q, t=t: LKBRep(n, p, q, t), lambda: LKBRep(n, p, u, v)) for q, t in ((no, v), (u, no), (no, no))],
        (lambda: LKBRep(-rng.randint(0, 2), 0, u, v), lambda: LKBRep(n, 3, u, v)), (lambda: LKBRep(n, -3, u, v), lambda: LKBRep(n, 0, u, v))))


@bad
def words_foreign_to_a_representation(rng):
    R, n = rep(rng)
    word = list(random_word(rng, n, rng.randint(0, 3)))
    wrong = list(word)
    wrong.insert(rng.randint(0, len(word)), (outside(rng, n - 1), rng.choice((1, -1, 2))))
    f = rng.choice((R.evaluate_artin_word, R.polymat_evaluate_artin_word))
    return (word, wrong), lambda: f(wrong), lambda: f(word)


@bad
def braids_of_other_groups(rng):
    R, n = rep(rng)
    m = rng.choice([k for k in (2, 3, 4, 5) if k != n])
    cls = cls_of(rng)
    good, wrong = braid(rng, cls, n), braid(rng, cls, m)
    l = good.canonical_length()
    mixed = [good, wrong] if wrong.canonical_length() == l else [good, cls(m, 1, ())] if l == 0 else [wrong]
    f = rng.choice((lambda b: R.polymat_evaluate_braid(b), lambda b: R.polymat_evaluate_braids_of_same_length([b]), lambda b: R.polymat_evaluate_braids_of_same_length([good] if b is good else mixed)))
    return (good, wrong), lambda: f(wrong), lambda: f(good)


@bad
def braids_of_other_groups_in_the_search(rng):
    J, n = summand(rng)
    m = rng.choice([k for k in (2, 3, 4, 5) if k != n])
    good, wrong = braid(rng, GNF, n), braid(rng, GNF, m)
    f = rng.choice((lambda b: S.evaluate_braid_factors(J, b), lambda b: S.evaluate_braids_of_same_length(J, [b]), lambda b: S.evaluate_prefixes_of_same_length(J, [b]), lambda b: S.evaluate_braids(J, [good, b])))
    return (good, wrong), lambda: f(wrong), lambda: f(good)


@bad
def batches_of_mixed_lengths_or_kinds(rng):
    R, n = rep(rng)
    cls = cls_of(rng)
    l = rng.randint(0, 2)
    same = [cls.sample(n, l, rng) for _ in range(rng.randint(1, 3) if rng.random() < .7 else log_size(rng, 4, 400))]
    other = rng.choice((cls.sample(n, l + 1, rng), (DGNF if cls is GNF else GNF).sample(n, l, rng)))
    wrong = list(same)
    wrong.insert(rng.randint(0, len(same)), other)
    wrong = rng.choice((wrong, wrong, wrong, []))
    return (same, wrong), lambda: R.polymat_evaluate_braids_of_same_length(wrong), lambda: R.polymat_evaluate_braids_of_same_length(same)


@bad
def batches_of_mixed_lengths_in_the_search(rng):
    J, n = summand(rng)
    l = rng.randint(0, 2)
    same = [GNF.sample(n, l, rng) for _ in range(rng.randint(1, 3) if rng.random() < .7 else log_size(rng, 4, 400))]
    wrong = list(same)
    wrong.insert(rng.randint(0, len(same)), rng.choice((GNF.sample(n, l + 1, rng), DGNF.sample(n, l, rng))))
    f = rng.choice((S.evaluate_braids_of_same_length, S.evaluate_prefixes_of_same_length))
    return (same, wrong), lambda: f(J, wrong), lambda: f(J, same)


@bad
def factor_sequences(rng):
    R, n = rep(rng)
    cls = cls_of(rng)
    order = len(list(cls.all_of_length(n, 1))) + 2
    l = rng.randint(1, 2)
    good = [[rng.randrange(order) for _ in range(l)] for _ in range(rng.randint(1, 2))]
    wrong = [list(s) for s in good]
    if rng.random() < .5:
        wrong[-1][rng.randrange(l)] = rng.choice((-1, order, order + 3, -order))
    else:
        wrong.append([0] * (l + rng.choice((1, -1))))
    return (good, wrong), lambda: R.polymat_evaluate_braid_integers_of_same_length(cls, wrong), lambda: R.polymat_evaluate_braid_integers_of_same_length(cls, good)


@bad
def images_of_other_dimensions(rng):
    n, m = rng.choice(((3, 4), (4, 5), (5, 3)))
    R, Q = JonesCellRep(n, 1), JonesCellRep(m, 1)
    a, b = Q.polymat_id(), R.polymat_id()
    J = S.JonesSummand(n, 1)
    return (a, b), *rng.choice(((lambda: R.polymat_mul(a, b), lambda: R.polymat_mul(b, b)), (lambda: J.mul(b, a), lambda: J.mul(b, b))))


@bad
def frames(rng):
    J, n = summand(rng)
    bs = [GNF.sample(n, 1, rng) for _ in range(3)]
    images = S.evaluate_braids(J, bs)
    batch = S.evaluate_braids_of_same_length(J, bs)
    f = S.braids_images_to_dataframe
    return (bs, images, batch), *rng.choice(((lambda: f(bs[:2], batch), lambda: f(bs, batch)), (lambda: f(bs[:2], images), lambda: f(bs, images)), (lambda: f(bs, batch[0]), lambda: f(bs, batch)), (lambda: f(bs, None), lambda: f(bs, images)), (lambda: f(bs, iter(images)), lambda: f(bs, images))))


NAMES = sorted(REQUESTS)


@SUITE.scenario('requests', quick=19600, thorough=400000)
def requests(ctx, rng, i):
    name = NAMES[i % len(NAMES)]
    if i < len(NAMES):
        ctx.hit('kinds of request')
    operands, wrong, good = REQUESTS[name](rng)
    what = name.replace('_', ' ')
    ctx.describe(request=what, operands=operands)
    before = freeze(operands)
    try:
        good()
    except Exception as e:
        ctx.fail(f'{what}: the valid request next to it was refused with {type(e).__name__}: {e}', operands=operands)
    ctx.hit('neighbours answered')
    ctx.raises(Exception, wrong, what, operands=operands)
    ctx.check(freeze(operands) == before, f'{what}: the operands were changed', operands=operands)
    # Refused again, and the valid request is answered still.
    ctx.raises(Exception, wrong, f'{what}, asked again', operands=operands)
    good()
    ctx.hit('refused')
    ctx.distinct((name, before))
    if i % 997 == 0:
        ctx.sample(request=what, operands=operands)


# Operators.

OPERATORS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '@': operator.matmul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
             '<<': operator.lshift, '&': operator.and_, '|': operator.or_, '^': operator.xor, 'divmod': divmod, '<': operator.lt, '>=': operator.ge}
OURS = {
    'GNF': lambda rng: braid(rng, GNF, 3), 'DGNF': lambda rng: braid(rng, DGNF, 3), 'Permutation': lambda rng: perm(rng, 3), 'NPar': lambda rng: npar(rng, 3),
    'LPoly': lambda rng: lpoly(rng, False), 'Poly': lambda rng: Poly(rng.randint(-3, 3), rng.randint(1, 3)), 'Matrix': lambda rng: matrix(rng, 3, 3),
    'TLDiag': lambda rng: TLDiag(3, 3, random_seq(rng, 6)), 'TLExtDiag': lambda rng: TLExtDiag(3, 3, random_seq(rng, 6), rng.randint(0, 2)), 'TLMor': lambda rng: random_mor(rng, 3, 3)[1],
    'JonesSummand': lambda rng: S.JonesSummand(3, 1), 'JonesCellRep': lambda rng: JonesCellRep(3, 1), 'BraidGroup': lambda rng: BraidGroup(3), 'SymmetricGroup': lambda rng: SymmetricGroup(3), 'TLCell': lambda rng: TLCell(3, 1),
}
FOREIGN = {'int': lambda rng: rng.randint(0, 4), 'float': lambda rng: rng.choice((0.5, 2.0, 1.5, -1.0)), 'str': lambda rng: 'ab', 'bytes': lambda rng: b'ab', 'None': lambda rng: None, 'tuple': lambda rng: rng.choice(((0, 1), ((0, 1),), (1, 0, 2))),
           'list': lambda rng: [1, 2], 'dict': lambda rng: {}, 'set': lambda rng: {1}, 'Fraction': lambda rng: fractions.Fraction(2 * rng.randint(0, 3) + 1, 2), 'complex': lambda rng: 1j, 'object': lambda rng: object(), 'type': lambda rng: GNF}
RING = {'LPoly', 'int'}
# What each operator may answer: (left, right) pairs, by name.
SUPPORTED = {
    '*': {('GNF', 'GNF'), ('DGNF', 'DGNF'), ('Permutation', 'Permutation'), ('LPoly', 'LPoly'), ('LPoly', 'int'), ('int', 'LPoly'), ('Poly', 'Poly'), ('Poly', 'int'), ('int', 'Poly'), ('Matrix', 'Matrix'), ('TLDiag', 'TLDiag'), ('TLExtDiag', 'TLExtDiag'),
          ('TLMor', 'TLMor'), ('TLMor', 'TLDiag'), ('TLDiag', 'TLMor'), ('TLMor', 'int'), ('int', 'TLMor'), ('TLMor', 'LPoly'), ('LPoly', 'TLMor'), ('Matrix', 'int'), ('int', 'Matrix'), ('Matrix', 'LPoly'), ('LPoly', 'Matrix')},
    '+': {('LPoly', 'LPoly'), ('LPoly', 'int'), ('int', 'LPoly'), ('Poly', 'Poly'), ('Poly', 'int'), ('int', 'Poly'), ('Matrix', 'Matrix'), ('TLMor', 'TLMor'), ('TLMor', 'int'), ('int', 'TLMor'), ('TLMor', 'LPoly'), ('LPoly', 'TLMor')},
    '@': {('TLDiag', 'TLDiag'), ('TLExtDiag', 'TLExtDiag')},
    '/': {('LPoly', 'LPoly'), ('Poly', 'Poly'), ('LPoly', 'int'), ('Poly', 'int')},
    'divmod': {('Poly', 'Poly'), ('Poly', 'int')},
    '//': {('Poly', 'Poly'), ('Poly', 'int')}, '%': {('Poly', 'Poly'), ('Poly', 'int'), ('str', 'any'), ('bytes', 'any')},
    '**': {(x, 'int') for x in OURS},
    '<': {(x, x) for x in ('GNF', 'DGNF', 'TLDiag', 'TLExtDiag', 'Permutation', 'NPar')},
}
SUPPORTED['-'] = SUPPORTED['+']
SUPPORTED['>='] = SUPPORTED['<']
PAIRS = [(a, b) for a in OURS for b in OURS] + [(a, b) for a in OURS for b in FOREIGN] + [(b, a) for a in OURS for b in FOREIGN]


@SUITE.scenario('operand types', quick=3 * len(PAIRS), thorough=40 * len(PAIRS))
def operand_types(ctx, rng, i):
    a, b = PAIRS[i % len(PAIRS)]
    make = {**OURS, **FOREIGN}
    x, y = make[a](rng), make[b](rng)
    for sign, f in OPERATORS.items():
        if (a, b) in SUPPORTED.get(sign, ()) or (a, 'any') in SUPPORTED.get(sign, ()):
            continue
        before = freeze((x, y))
        ctx.raises(TypeError, lambda: f(x, y), f'{a} {sign} {b}', x=x, y=y)
        ctx.check(freeze((x, y)) == before, f'{a} {sign} {b} changed its operands', x=x, y=y)
        ctx.hit('operand types')
    ctx.distinct((a, b))
    # Values of different types are different, not errors.
    if a != b and a in OURS:
        ctx.check((x == y) is False or a == b or {a, b} <= {'LPoly', 'Poly', 'int', 'float', 'complex', 'Fraction'}, f'{a} == {b}', x=x, y=y)


# Trackers.

def weighted_state(T):
    return freeze({t: (list(b.braids), np.array(b.images[:b.size()]), b.weights[:b.size()].tolist(), b.reservoir_count, b.reservoir_weight) for t, b in T.buckets.items()})


def search_state(T):
    return freeze({t: (list(T.bucket_braids_images(t)[0]), np.array(T.bucket_braids_images(t)[1])) for t in T.buckets}), freeze(T.bucket_reservoir_counts)


@SUITE.scenario('weighted tracker', quick=200, thorough=4000)
def weighted(ctx, rng, i):
    R, n = JonesCellRep(4, 1, 3), 4
    R = REPS.setdefault('tracker', R)
    capacity = rng.randint(1, 4)
    method = rng.choice(('GreedyFirst', 'Uniform', 'AChao', 'EvictMin'))
    keys = [B.Stats.CanonicalLength, B.Stats.ProjectiveLength]
    T = B.Tracker(R, capacity, keys, [B.Stats.NonzeroTerms], reservoir_method=method, reservoir_weight=B.Stats.NonzeroTerms, rand=random.Random(rng.random()))
    cls = cls_of(rng)
    for _ in range(2):
        bs = [cls.sample(n, rng.choice((1, 2)), rng)]
        bs += [cls.sample(n, bs[0].canonical_length(), rng) for _ in range(6)]
        T.add_braids_images(bs, R.polymat_evaluate_braids_of_same_length(bs))
    images = R.polymat_evaluate_braids_of_same_length(bs)
    state = weighted_state(T)
    missing = rng.choice(((99, 99), (1, 99), (), None, 'ab', (1,)))
    full = [b for b in T.buckets.values() if b.size() == capacity]
    some = next(iter(T.buckets.values()))
    requests = {
        'statistics of a missing bucket': lambda: T.bucket_stats(missing), 'braids of a missing bucket': lambda: T.bucket_braids_images(missing), 'descendants of a missing bucket': lambda: T.nf_descendants(missing, 1), 'grouping a missing bucket': lambda: T.hash_bucket(missing),
        'fewer images than braids': lambda: T.add_braids_images(bs, images[:-1]), 'fewer braids than images': lambda: T.add_braids_images(bs[1:], images), 'one image for many braids': lambda: T.add_braids_images(bs, images[0]),
        'replacing beyond the end': lambda: some.replace_braid(rng.choice((some.size(), -1, some.size() + 5, -some.size())), bs[0], images[0], 1.0),
        'a tracker without lengths': lambda: B.Tracker(R, 3, [B.Stats.ProjectiveLength], []), 'a tracker without projective lengths': lambda: B.Tracker(R, 3, [B.Stats.CanonicalLength], []),
        'an unknown reservoir method': lambda: B.Tracker(R, 3, keys, [], reservoir_method=rng.choice(('uniform', '', None, 'AES'))),
        'descendants of negative length': lambda: T.nf_descendants(some.tag, -1),
    }
    if full:
        b = rng.choice(full)
        requests['a braid too many'] = lambda: b.append_braid(bs[0], b.images[0], 1.0)
        ctx.hit('overfilled')
    for what, f in requests.items():
        ctx.raises(Exception, f, what, tracker=list(T.buckets), missing=missing)
        ctx.check(weighted_state(T) == state, f'{what}: refused, but the tracker changed', missing=missing)
        ctx.hit('tracker requests')
    ctx.distinct((i, cls, method))


@SUITE.scenario('search tracker', quick=200, thorough=4000)
def search(ctx, rng, i):
    J, n = S.JonesSummand(4, 1, 3), 4
    keys = ('length', 'projlen')
    T = S.Tracker(J, rng.randint(1, 4), keys, lambda s: s['length'] >= 0, rand=random.Random(rng.random()) if rng.random() < .5 else None)
    for _ in range(2):
        l = rng.choice((1, 2))
        bs = [GNF.sample(n, l, rng) for _ in range(6)]
        T.add_braids_images(bs, S.evaluate_braids_of_same_length(J, bs))
    images = S.evaluate_braids_of_same_length(J, bs)
    dual = [DGNF.sample(n, l, rng) for _ in bs]
    state = search_state(T)
    missing = rng.choice(((99, 99), (1, 99), (), None, 'ab', (1,)))
    some = sorted(T.buckets)[0]
    requests = {
        'statistics of a missing bucket': lambda: T.bucket_stats(missing), 'braids of a missing bucket': lambda: T.bucket_braids_images(missing), 'descendants of a missing bucket': lambda: T.nf_descendants(missing, 1),
        'products with a missing bucket': lambda: T.bucket_product(some, missing), 'products of a missing bucket': lambda: T.bucket_product(missing, some), 'substrings of a missing bucket': lambda: T.substrings(missing),
        'fewer images than braids': lambda: T.add_braids_images(bs, images[:-1]), 'fewer braids than images': lambda: T.add_braids_images(bs[1:], images), 'one image for many braids': lambda: T.add_braids_images(bs, images[0]),
        'braids of the other kind': lambda: T.add_braids_images(dual, images), 'a tracker without lengths': lambda: S.Tracker(J, 3, ('projlen',), lambda s: s['length'] > 0), 'a tracker without projective lengths': lambda: S.Tracker(J, 3, ('length',), lambda s: s['length'] > 0),
        'descendants of negative length': lambda: T.nf_descendants(some, -1),
    }
    for what, f in requests.items():
        ctx.raises(Exception, f, what, tracker=list(T.buckets), missing=missing)
        ctx.check(search_state(T) == state, f'{what}: refused, but the tracker changed', missing=missing)
        ctx.hit('tracker requests')
    ctx.distinct((i, 'search'))


BAD_ARGUMENTS = ['2 1 2', '8 1 2', '4 3 2', '3 2 5', '5 -1 3', '4 1 0', '4 1 -3', '0 0 2', '-4 1 2', '4 1', '4 1 x', '4 1 2 --bucket-size x', '4 1 2 --no-such-option 3', '5 3 2']


@SUITE.scenario('script', quick=8, thorough=28)
def script(ctx, rng, i):
    """The database that such a run was to save to stays as it is."""
    text = BAD_ARGUMENTS[i % len(BAD_ARGUMENTS)] if i >= 7 else BAD_ARGUMENTS[i]
    with tempfile.TemporaryDirectory(prefix='vf-c31-') as cwd:
        path = os.path.join(cwd, 'db.sqlite')
        existing = i % 2 == 1
        if existing:
            import sqlite3
            with sqlite3.connect(path) as conn:
                conn.execute('CREATE TABLE other (x INT)')
                conn.execute('INSERT INTO other VALUES (1)')
            conn.close()
        content = open(path, 'rb').read() if existing else None
        out = subprocess.run([sys.executable, os.path.join(core.REPO, 'search.py'), *text.split(), '--database', path, '--bootstrap-length', '1'], cwd=cwd, env=environment(), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
        ctx.check(out.returncode != 0, f'search.py {text} succeeded', out=out.stdout[-300:])
        ctx.check('near-kernel' not in out.stdout and 'Length' not in out.stdout, f'search.py {text} searched', out=out.stdout[-300:])
        ctx.check((open(path, 'rb').read() if os.path.exists(path) else None) == content, f'search.py {text} changed the database')
    ctx.hit('script runs')
    ctx.distinct(('script', text))
