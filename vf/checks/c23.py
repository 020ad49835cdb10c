import collections

import numpy as np
import pandas as pd

from peyl import braidsearch as S

from ..core import Suite
from ..lib import *
from ..tracks import LONG_SPECS, canon, disguised, fits, hand_over, is_sound, long_batch, oracle, silently
from .c04 import forms
from .c19 import rank
from .c20 import rebuild

SUITE = Suite('C23',
    'Random histories (5 to 12 operations: additions of mixed batches, bootstraps, expansions, products of buckets, substring expansions, discards, reading of the tables) of the search tracker with and without a random source, many acceptance criteria, bucket keys and sizes, several representations and moduli. After every operation every bucket is audited against exact evaluation: criterion on true statistics, bucket against true statistics, image against true image, size, membership in everything the model says was offered. Crowded buckets hold hundreds, some thousands; braids differ in length by multiples of 128. Images are then damaged and self-validation must notice. Non-trivial: a history in which some bucket is full.',
    assumptions=['Braids are identified by their canonical decomposition, which C01-C04 check.'],
    require={'audits': 300, 'held': 5000, 'full': 300, 'expand': 60, 'bootstrap': 40, 'product': 60, 'substrings': 40, 'discard': 30, 'filtered': 500, 'damage noticed': 100, 'read': 60, 'crowded': 12, 'sound': 200, 'long': 20, 'braids exchanged': 60, 'thousands': 3, 'very long': 6})

STAT_NAMES = ('length', 'nz_terms', 'degmax', 'valmin', 'rhogap', 'projlen', 'rhogap/length', 'projrank2')


def true_stats(o, b):
    """Statistics of a braid by their definitions, from its exact projective image."""
    key = 'stats', canon(b)
    if key not in o.known:
        M = o.image(b)
        projlen, length = o.projlen(b), len(canon(b)[2])
        ranks = sum(rank([[x.get(d, 0) for x in row] for row in M]) for d in range(min(2, projlen)))
        o.known[key] = dict(zip(STAT_NAMES, (length, o.nz_terms(b), projlen - 1, 0, (projlen - 1) / 2, projlen, (projlen - 1) / 2 / max(length, 1), ranks)))
    return o.known[key]


def everything(stats):
    return np.ones(len(stats), dtype=bool)


CRITERIA = {
    'everything': everything,
    'nothing': lambda s: s['length'] < 0,
    'short': lambda s: s['projlen'] <= 2 * s['length'],
    'ratio': lambda s: s['rhogap/length'] < 1,
    'ratio at most': lambda s: s['rhogap/length'] <= 1.0,
    'terms': lambda s: (s['nz_terms'] % 3 != 0) & (s['degmax'] > 0),
    'rank': lambda s: s['projrank2'] >= 3,
    'list': lambda s: [x % 2 == 1 for x in s['projlen']],
    'array': lambda s: (s['rhogap'] - s['valmin']).to_numpy() > 1,
}

KEYS = (('length', 'projlen'), ('length', 'projlen'), ('length', 'projlen'), ('projlen', 'length'), ('length', 'projlen', 'nz_terms'), ('rhogap', 'length', 'projrank2', 'projlen'))

SHAPES = ((3, 1, 0), (3, 1, 2), (4, 1, 0), (4, 1, 2), (4, 1, 5), (4, 2, 0), (4, 2, 3), (4, 0, 0), (5, 2, 2), (2, 1, 0))


class SWorld:
    """A search tracker and the model of what it was offered and accepted."""
    def __init__(self, rng, size=None, criterion=None, rand=None, spec=None, keys=None):
        n, r, p = spec or rng.choice(SHAPES)
        self.n, self.oracle, self.rep = n, oracle(n, r, p), S.JonesSummand(n, r, p)
        self.size = size or rng.choice((1, 2, 3, 5, 10, 1000))
        self.criterion = criterion or rng.choice(('everything', 'everything', 'everything', *CRITERIA))
        self.keys = keys or rng.choice(KEYS)
        self.rand = rand if rand is not None else rng.choice((None, random.Random(rng.random())))
        if self.rand == 'none':
            self.rand = None
        self.T = S.Tracker(self.rep, self.size, self.keys, CRITERIA[self.criterion], rand=self.rand)
        self.accepted = {}      # bucket -> canonical forms accepted since it was created, in order
        self.counts = {}
        self.by_canon = {}
        self.log = []

    def tag(self, b):
        s = true_stats(self.oracle, b)
        return tuple(s[k] for k in self.keys)

    def judge(self, braids):
        """Which of these the criterion accepts, on their true statistics."""
        # (What the oracle knows is emptied when it grows too large, at any time.)
        known = {c: self.oracle.known.get(('ok', self.criterion, c)) for c in map(canon, braids)}
        new = [b for b in braids if known[canon(b)] is None]
        if new:
            df = pd.DataFrame([true_stats(self.oracle, b) for b in new])
            for b, ok in zip(new, CRITERIA[self.criterion](df)):
                known[canon(b)] = self.oracle.known['ok', self.criterion, canon(b)] = bool(ok)
        return [known[canon(b)] for b in braids]

    def offered(self, braids, ctx=None):
        for b, ok in zip(braids, self.judge(braids)):
            if not ok:
                if ctx:
                    ctx.hit('filtered')
                continue
            c = canon(b)
            self.by_canon[c] = b
            tag = self.tag(b)
            self.accepted.setdefault(tag, []).append(c)

    def random_braids(self, rng, count, length=None):
        out = []
        for _ in range(count):
            l = length if length is not None else rng.choice((0, 1, 1, 2, 3))
            b = GNF.sample(self.n, l if self.n > 2 else 0, random.Random(rng.random()))
            out.append(GNF(self.n, rng.choice((0, 0, 1, -2, 3)), b.factors))
        return out

    def small_bucket(self, rng, limit=40):
        tags = [t for t in self.T.buckets if len(self.T.bucket_braids_images(t)[0]) <= limit]
        tags.sort()
        return rng.choice(tags) if tags else None

    # Operations: each returns whether it did anything.

    def add(self, rng, ctx=None, braids=None):
        if braids is None:
            braids = self.random_braids(rng, rng.choice((1, 2, 5, 12)))
            if rng.random() < .5:
                braids += [rng.choice(braids)]
        images = S.polymat.pack([S.evaluate_braid_factors(self.rep, b) for b in braids])
        self.log.append(('add', list(braids)))
        hand_over(rng, self.T, braids, disguised(rng, images, left=False))
        self.offered(braids, ctx)
        return True

    def bootstrap(self, rng, ctx=None, upto=None):
        upto = upto if upto is not None else rng.choice((0, 1, 2) if self.n < 5 else (1,))
        if self.n == 2:
            upto = 0
        self.log.append(('bootstrap', upto))
        self.T.bootstrap_exhaustive(upto)
        self.offered([rebuild('GNF', self.n, 0, seq) for l in range(1, upto + 1) for seq in forms('GNF', self.n, l)], ctx)
        return True

    def expand(self, rng, ctx=None, tag=None, length=None):
        tag = tag or self.small_bucket(rng)
        if tag is None or self.n == 2:
            return False
        before = [canon(b) for b in self.T.bucket_braids_images(tag)[0]]
        length = length or rng.choice((1, 1, 2) if self.n < 5 and len(before) < 5 else (1,))
        self.log.append(('expand', tag, length))
        if length == 1 and rng.random() < .5:
            self.T.nf_descendants(tag)
        else:
            self.T.nf_descendants(tag, length)
        self.offered([rebuild('GNF', self.n, power, seq + more) for _, power, seq in before
                      for l in range(1, length + 1) for more in forms('GNF', self.n, l, seq[-1] if seq else None)], ctx)
        return True

    def product(self, rng, ctx=None, x=None, y=None):
        x, y = x or self.small_bucket(rng, 8), y or self.small_bucket(rng, 8)
        if x is None:
            return False
        a, b = (list(self.T.bucket_braids_images(t)[0]) for t in (x, y))
        self.log.append(('product', x, y))
        self.T.bucket_product(x, y)
        self.offered([s * t for s in a for t in b], ctx)
        return True

    def substrings(self, rng, ctx=None):
        x = self.small_bucket(rng)
        if x is None:
            return False
        braids = [canon(b) for b in self.T.bucket_braids_images(x)[0]]
        self.log.append(('substrings', x))
        self.T.substrings(x)
        self.offered([rebuild('GNF', self.n, power, seq[i:j]) for _, power, seq in braids
                      for i in range(len(seq)) for j in range(i + 2, len(seq) + 1) if j - i < len(seq)], ctx)
        return True

    def discard(self, rng, ctx=None):
        tags = sorted(self.T.buckets)
        if not tags:
            return False
        tag = rng.choice(tags) if rng.random() < .9 else ('no', 'such', 'bucket')
        self.log.append(('discard', tag))
        self.T.discard_bucket(tag)
        self.accepted.pop(tag, None)
        return True

    def read(self, rng, ctx=None):
        """Everything the library reports; the audit that follows shows that asking changes nothing."""
        def order():
            return [(tag, list(self.T.bucket_braids_images(tag)[0])) for tag in self.T.buckets]
        before = order()
        silently(self.T.stats)
        silently(self.T.stats_reservoir) if hasattr(self.T, 'stats_reservoir') else None
        for tag in self.T.buckets if len(before) < 5 else rng.sample(sorted(self.T.buckets, key=str), 4):
            silently(lambda: self.T.bucket_stats(tag))
            silently(lambda: self.T.hash_bucket(tag)) if hasattr(self.T, 'hash_bucket') else None
        if ctx:
            ctx.check(order() == before, 'reading the tables changed the buckets', log=self.log)
            ctx.hit('read')
        return True

    def audit(self, ctx):
        T, o = self.T, self.oracle
        have, want = set(T.buckets), set(self.accepted)
        ctx.check(have == want, 'buckets are not those of the braids accepted', extra=have - want, missing=want - have, log=self.log)
        ctx.hit('audits')
        for tag in T.buckets:
            braids, images = T.bucket_braids_images(tag)
            ctx.check(len(braids) == len(images), 'parallel lists differ', tag=tag, log=self.log)
            ctx.check(0 < len(braids) <= self.size, f'{len(braids)} braids in a bucket of size {self.size}', log=self.log)
            offers = set(self.accepted[tag])
            ok = self.judge(braids)
            for k, b in enumerate(braids):
                ctx.check(type(b) is GNF and b.n == self.n, f'holds {b!r}', log=self.log)
                ctx.check(ok[k], 'holds a braid which the criterion refuses', b=b, criterion=self.criterion, log=self.log)
                true = self.tag(b)
                ctx.check(tuple(tag) == true, f'a braid with statistics {true} is in bucket {tag}', b=b, log=self.log)
                ctx.check(images[k].shape[:2] == (o.size, o.size) and lp.of_polymat(images[k]) == o.image(b), 'holds a wrong image', b=b, tag=tag, image=images[k].tolist(), log=self.log)
                ctx.check(canon(b) in offers, 'holds a braid that was not offered', b=b, tag=tag, log=self.log)
                ctx.hit('held')
            if len(braids) == self.size:
                ctx.hit('full')

    def validate(self, ctx, rng):
        answer = silently(self.T.valiate_buckets)
        ctx.check(is_sound(answer), f'self-validation of a sound tracker answers {answer!r}', log=self.log)
        ctx.hit('sound')
        tags = sorted(self.T.buckets)
        if not tags:
            return
        tag = rng.choice(tags)
        images = self.T.bucket_images[tag]
        k = rng.randrange(len(self.T.bucket_braids[tag]))
        saved = images[k].copy()
        where = tuple(rng.randrange(s) for s in saved.shape)
        if rng.random() < .6:
            images[k][where] += rng.choice((1, -1, 5))
        else:
            images[k] = -saved
        if lp.of_polymat(self.T.bucket_braids_images(tag)[1][k]) != lp.of_polymat(saved):
            ctx.check(not is_sound(silently(self.T.valiate_buckets)), 'self-validation calls a wrong image sound', tag=tag, place=k, where=where, log=self.log)
            ctx.hit('damage noticed')
        images[k] = saved
        braids = self.T.bucket_braids[tag]
        others = [b for t in tags if t != tag for b in self.T.bucket_braids[t] if len(b.factors) == len(braids[k].factors) and self.oracle.image(b) != self.oracle.image(braids[k])]
        if others:
            # An image next to the braid of another: of another width, as likely as not, which makes comparing the arrays an error.
            b, braids[k] = braids[k], rng.choice(others)
            try:
                answer = silently(self.T.valiate_buckets)
            except ValueError:
                answer = 'refused'
            ctx.check(not is_sound(answer), 'self-validation calls the image of another braid sound', tag=tag, place=k, log=self.log)
            braids[k] = b
            ctx.hit('braids exchanged')
        ctx.check(is_sound(silently(self.T.valiate_buckets)), 'self-validation changed something', log=self.log)


@SUITE.scenario('histories', quick=640, thorough=10000)
def histories(ctx, rng, i):
    w = SWorld(rng)
    ctx.describe(rep=w.oracle, criterion=w.criterion, keys=w.keys, size=w.size, rand=w.rand is not None, log=w.log)
    for _ in range(rng.randint(5, 12) if w.n < 5 else 4):
        op = rng.choice(('add', 'add', 'expand', 'expand', 'bootstrap', 'discard', 'product', 'substrings', 'read'))
        if op in ('bootstrap', 'product') and sum(map(len, w.accepted.values())) > 1500:
            op = 'add'
        if getattr(w, op)(rng, ctx):
            ctx.hit(op)
        w.audit(ctx)
    w.validate(ctx, rng)
    if any(len(set(v)) >= w.size for v in w.accepted.values()):
        ctx.distinct((i, w.n, w.criterion, w.size, len(w.log)))
        ctx.sample(rep=w.oracle, criterion=w.criterion, size=w.size, operations=[x[0] for x in w.log])


@SUITE.scenario('long substrings', quick=80, thorough=1200)
def long_substrings(ctx, rng, i):
    """Substrings only exist of longer braids."""
    w = SWorld(rng, spec=rng.choice(SHAPES[:7]))
    w.add(rng, ctx, w.random_braids(rng, 6, rng.choice((5, 7))))
    ctx.describe(rep=w.oracle, criterion=w.criterion, keys=w.keys, size=w.size, log=w.log)
    for _ in range(2):
        if w.substrings(rng, ctx):
            ctx.hit('substrings')
        w.audit(ctx)
        w.product(rng, ctx)
        w.audit(ctx)
    w.validate(ctx, rng)


@SUITE.scenario('crowded', quick=32, thorough=600)
def crowded(ctx, rng, i):
    """Dozens or hundreds of braids in one bucket, with room and without, as they come and sorted."""
    spec = rng.choice(((4, 0, 0), (4, 1, 2), (5, 0, 2), (4, 2, 3), (3, 1, 2)))
    size, count = rng.choice((40, 100, 1000)), log_size(rng, 40, 600 if spec[1] == 0 else 300)
    w = SWorld(rng, spec=spec, size=size, criterion=rng.choice(('everything', 'everything', 'short', 'terms')))
    ctx.describe(spec=spec, size=size, count=count)
    length = rng.choice((2, 3))
    braids = list(dict.fromkeys(w.random_braids(rng, count, length)))
    if rng.random() < .3:
        braids.sort(key=repr, reverse=rng.random() < .5)
    chunk = rng.choice((7, 50, 1000))
    for k in range(0, len(braids), chunk):
        w.add(rng, ctx, braids[k:k + chunk])
    for op in ('read', 'read', 'add', 'read'):
        getattr(w, op)(rng, ctx)
        w.audit(ctx)
    w.validate(ctx, rng)
    ctx.hit('crowded', max((len(w.T.bucket_braids_images(t)[0]) for t in w.T.buckets), default=0) >= 30)
    ctx.distinct((i, 'crowded', spec, size, count))


@SUITE.scenario('thousands', quick=4, thorough=60)
def thousands(ctx, rng, i):
    """More than a thousand braids in one bucket, any one of which may be wrong."""
    spec = ((4, 0, 0), (5, 0, 3))[i % 2]
    w = SWorld(rng, spec=spec, size=rng.choice((1000, 3000)), criterion='everything', rand='none')
    braids = list(dict.fromkeys(w.random_braids(rng, 2500, 4 if spec[0] == 4 else 3)))
    ctx.describe(spec=spec, braids=len(braids))
    chunk = rng.choice((500, 1000, 3000))
    for k in range(0, len(braids), chunk):
        w.add(rng, ctx, braids[k:k + chunk])
    w.audit(ctx)
    for _ in range(6):
        w.validate(ctx, rng)
    ctx.hit('thousands')
    ctx.distinct((i, 'thousands', spec, len(braids)))


@SUITE.scenario('long', quick=48, thorough=2000)
def long(ctx, rng, i):
    """Braids of up to 160 factors: large degrees, and large coefficients in characteristic zero."""
    w = SWorld(rng, spec=LONG_SPECS[i % len(LONG_SPECS)])
    ctx.describe(rep=w.oracle, criterion=w.criterion, keys=w.keys, size=w.size, log=w.log)
    for _ in range(2):
        braids = long_batch(rng, w.oracle, 'GNF')
        w.add(rng, ctx, braids)
        ctx.hit('long', sum(b.canonical_length() > 60 for b in braids))
        w.audit(ctx)
    for _ in range(2):
        tag = w.small_bucket(rng, 3)
        if tag and all(fits(w.oracle, b) for b in w.T.bucket_braids_images(tag)[0]):
            w.expand(rng, ctx, tag, rng.choice((1, 1, 2)) if w.n == 3 else 1)
            w.audit(ctx)
    if w.oracle.p:
        x, y = w.small_bucket(rng, 2), w.small_bucket(rng, 2)
        if x and y:
            w.product(rng, ctx)
            w.audit(ctx)
    w.validate(ctx, rng)


@SUITE.scenario('very long', quick=8, thorough=160)
def very_long(ctx, rng, i):
    """Lengths and projective lengths of several hundred, with others which end on the same byte."""
    spec = ((3, 0, 5), (3, 0, 0), (3, 0, 2), (3, 1, 2))[i % 4]
    w = SWorld(rng, spec=spec, criterion=rng.choice(('everything', 'everything', 'short', 'terms')))
    ctx.describe(spec=spec, log=w.log)
    length = rng.randint(3, 44)
    sizes = (length, length + 256, length + 128, rng.choice((length + 512, log_size(rng, 200, 700)))) if spec[1] == 0 else (length // 4, length // 4 + 256)
    braids = [b for k in sizes for b in w.random_braids(rng, 2 if spec[1] == 0 else 1, k)]
    rng.shuffle(braids)
    w.add(rng, ctx, braids)
    w.audit(ctx)
    if spec[1] == 0:
        w.expand(rng, ctx, rng.choice(sorted(w.T.buckets)), 1) if w.T.buckets else None
        w.audit(ctx)
    w.validate(ctx, rng)
    ctx.hit('very long')


@SUITE.scenario('refused', quick=40, thorough=400)
def refused(ctx, rng, i):
    rep = S.JonesSummand(4, 1, 2)
    for keys in ((), ('length',), ('projlen',), ('nz_terms', 'length')):
        ctx.raises((AssertionError, ValueError), lambda: S.Tracker(rep, 5, keys, everything), 'buckets coarser than length and projective length', keys=keys)
    w = SWorld(rng, spec=(4, 1, 2))
    w.add(rng)
    braids = w.random_braids(rng, 3, 2)
    images = S.evaluate_braids_of_same_length(w.rep, braids)
    for bad in (images[:2], images[0], images[..., None]):
        ctx.raises((AssertionError, ValueError), lambda: w.T.add_braids_images(braids, bad), 'images that do not match the braids', shape=bad.shape)
    for fn in (w.T.bucket_stats, w.T.bucket_braids_images, w.T.nf_descendants, w.T.substrings, lambda t: w.T.bucket_product(t, t)):
        ctx.raises((AssertionError, ValueError, KeyError), lambda: fn((90, 90)), 'a missing bucket')
    w.audit(ctx)
