"""Oracles shared by the checks of the two search trackers."""
import contextlib
import io

import numpy as np

from .lib import *
from .model import jones

REPS = {}
STREAM = io.StringIO


def canon(b):
    """Kind, power and factors shown, from the canonical decomposition."""
    power, factors = b.canonical_decomposition()
    return kind_of(b), power, tuple(factor_perm(f) for f in factors)


class Oracle:
    """True images and statistics of braids, remembered."""
    def __init__(self, n, r, p):
        from peyl.tl import cell_basis
        self.n, self.r, self.p = n, r, p
        self.basis = tuple(tuple(d.seq) for d in cell_basis(n, r))
        self.size = len(self.basis)
        self.known = {}

    def image(self, b):
        key = canon(b)
        if key not in self.known:
            if len(self.known) > 60000:
                self.known.clear()
            M = lp.projective(jones.evaluate(self.n, self.r, word_of(b), self.basis, self.p))
            self.known[key] = M, (lp.maxdeg(M) + 1, sum(len(x) for row in M for x in row))
        return self.known[key][0]

    def projlen(self, b):
        self.image(b)
        return self.known[canon(b)][1][0]

    def nz_terms(self, b):
        self.image(b)
        return self.known[canon(b)][1][1]

    def __repr__(self):
        return f'({self.n - self.r}, {self.r}) of B{self.n} mod {self.p}'


def oracle(n, r, p):
    return REPS.setdefault((n, r, p), None) or REPS.__setitem__((n, r, p), Oracle(n, r, p)) or REPS[n, r, p]


def silently(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


SOUND = 'All bucket entries are sound.'


def is_sound(answer):
    return isinstance(answer, str) and answer == SOUND


def disguised(rng, images, left=True):
    """The same batch, each matrix perhaps times a power of v, all with zeros added."""
    k, l = rng.choice((0, 0, 1, 3)), rng.choice((0, 0, 2))
    if not left:
        l = 0
    out = np.zeros((*images.shape[:-1], images.shape[-1] + k + l), dtype=images.dtype)
    for i in range(images.shape[0]):
        s = rng.randint(0, l) if l else 0
        out[i, ..., s:s + images.shape[-1]] = images[i]
    return out


def hand_over(rng, tracker, braids, given):
    """Offer braids and images, which stay the caller's: they come back unchanged, and are overwritten afterwards."""
    listed, before = list(braids), given.copy()
    tracker.add_braids_images(listed, given)
    if listed != list(braids) or given.shape != before.shape or not np.array_equal(given, before):
        raise AssertionError('adding changed the braids or images offered')
    given.fill(rng.choice((7, 0, -1)))
    listed.reverse()
    if rng.random() < .5:
        listed.clear()


LONG_SPECS = ((3, 1, 0), (3, 1, 2), (3, 1, 5), (3, 0, 0), (4, 1, 2), (4, 2, 3), (4, 1, 0), (4, 2, 0))


def fits(o, b):
    """Do the coefficients fit the packed integers with room to spare?"""
    return o.p != 0 or all(abs(c) < 2**52 for row in o.image(b) for x in row for c in x.values())


def long_batch(rng, o, kind, limit=160):
    """A few long braids, several of one length."""
    top = limit if o.n == 3 else limit // 2
    sizes = [log_size(rng, 4, top) for _ in range(rng.choice((1, 2)))]
    out = []
    both = kind == 'both'
    for _ in range(rng.choice((1, 2, 5))):
        if both:
            kind = rng.choice(('GNF', 'DGNF'))
        b = long_braid(rng, kind, o.n, rng.choice(sizes))
        if sum(map(len, map(factor_word, b.canonical_factors()))) > 4 * top:
            b = KINDS[kind](o.n, b.inf(), b.factors[:top])
        if o.p == 0 and rng.random() < .5:
            # Pseudo-Anosov, so the coefficients grow as fast as they can.
            b = KINDS[kind].from_artin_word(o.n, ((0, 1), (1, -1)) * rng.randint(10, 50) + random_word(rng, o.n, 4))
        while not fits(o, b):
            b = KINDS[kind](o.n, b.inf(), b.factors[:len(b.factors) * 2 // 3])
        out.append(b)
    return out
