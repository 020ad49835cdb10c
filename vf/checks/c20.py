import collections
import math

import numpy as np

from peyl import bucketing as B
from peyl.jonesrep import JonesCellRep

from ..core import Suite, digest
from ..lib import *
from ..tracks import LONG_SPECS, SOUND, canon, disguised, fits, hand_over, is_sound, long_batch, oracle, silently
from .c04 import follow, forms

SUITE = Suite('C20',
    'Random histories (5 to 12 operations: additions of mixed batches, bootstraps, expansions by one or two factors, discards) under all four retention methods, several weight statistics and capacities, both normal forms, several representations and moduli. After every operation every bucket is audited against exact evaluation: tag against true statistics, image against true image, weight against true weight, size, and membership in the multiset of everything the model says was offered. Images are then damaged and self-validation must notice. A third of the trackers hold both normal forms in one suffix cache; damage includes changes which cancel, and images next to the braids of others. Crowded buckets hold hundreds, some thousands with one image out of place, braids differ in length by multiples of 128, and reading the tables in between must change nothing; lists and arrays offered must come back unchanged, and are overwritten afterwards. Non-trivial: a history in which some bucket is full.',
    assumptions=['Braids are identified by their canonical decomposition, which C01-C04 check.'],
    require={'audits': 300, 'held': 5000, 'full': 300, 'expanded': 60, 'bootstrapped': 40, 'discarded': 30, 'sound': 300, 'read': 60, 'crowded': 3, 'damage noticed': 100, 'refused': 50, 'long': 20, 'braids exchanged': 100, 'thousands': 3, 'very long': 6})

METHODS = ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin')


class Infimum(B.BraidStatBase):
    name = 'inf'

    @staticmethod
    def calculate(rep, braids, images):
        return [b.inf() for b in braids]


class LastFactor(B.BraidStatBase):
    name = 'last'

    @staticmethod
    def calculate(rep, braids, images):
        return [canon(b)[2][-1:] for b in braids]


def arbitrary(b):
    """A weight that depends on the braid only: zeros, fractions and ties."""
    return (0, 0, 1, 1, 2, 3.5, 0.25, 40)[digest(canon(b))[0] % 8]


class Arbitrary(B.BraidStatBase):
    name = 'arbitrary'

    @staticmethod
    def calculate(rep, braids, images):
        return [arbitrary(b) for b in braids]


class Inverse(B.BraidStatBase):
    name = 'inverse'

    @staticmethod
    def calculate(rep, braids, images):
        return 1.0 / B.polymat.projlen(images)


STATS = {
    B.Stats.CanonicalLength: lambda o, b: len(canon(b)[2]),
    B.Stats.ProjectiveLength: lambda o, b: o.projlen(b),
    B.Stats.NonzeroTerms: lambda o, b: o.nz_terms(b),
    B.Stats.NFKind: lambda o, b: kind_of(b),
    Infimum: lambda o, b: canon(b)[1],
    LastFactor: lambda o, b: canon(b)[2][-1:],
    Arbitrary: lambda o, b: arbitrary(b),
    Inverse: lambda o, b: 1.0 / o.projlen(b),
}


class World:
    """A tracker and the model of what it was offered."""
    def __init__(self, rng, capacity=None, method=None, weight=None, extra=None, spec=None, kind=None, reuse=None):
        n, r, p = spec or rng.choice(((3, 1, 0), (3, 1, 2), (4, 1, 0), (4, 1, 2), (4, 1, 5), (4, 2, 0), (4, 2, 3), (4, 0, 0), (5, 2, 2), (2, 1, 0)))
        self.n, self.oracle = n, oracle(n, r, p)
        self.rep = JonesCellRep(n, r, p)
        self.kind = kind or rng.choice(('GNF', 'DGNF', 'GNF', 'DGNF', 'both'))
        self.classes = [KINDS[self.kind]] if self.kind != 'both' else [GNF, DGNF]
        self.capacity = capacity or rng.choice((1, 2, 3, 5, 10, 1000))
        self.method = method or rng.choice(METHODS)
        self.weight = rng.choice((None, Arbitrary, Arbitrary, B.Stats.NonzeroTerms, B.Stats.ProjectiveLength, Inverse)) if weight is None else weight
        base = [B.Stats.CanonicalLength, B.Stats.ProjectiveLength]
        if extra is None:
            base += rng.choice(([], [], [B.Stats.NFKind], [Infimum], [LastFactor], [B.Stats.NonzeroTerms]))
            if self.kind == 'both' and B.Stats.NFKind not in base:
                base.append(B.Stats.NFKind)
            rng.shuffle(base)
        elif self.kind == 'both':
            base.append(B.Stats.NFKind)
        self.stats = base
        self.other = [s for s in (B.Stats.NFKind, B.Stats.NonzeroTerms) if s not in base and rng.random() < .5]
        self.seed = rng.random()
        self.T = B.Tracker(self.rep, self.capacity, rng.choice((list, tuple))(base), self.other, reservoir_method=self.method, reservoir_weight=self.weight, rand=random.Random(self.seed))
        self.offers = {}        # tag -> list of canonical forms since the bucket was created
        self.by_canon = {}
        self.log = []

    def tag(self, b):
        return tuple(STATS[s](self.oracle, b) for s in self.stats)

    def weigh(self, b):
        return float(STATS[self.weight](self.oracle, b)) if self.weight else 1.0

    def offered(self, braids):
        for b in braids:
            c = canon(b)
            self.by_canon[c] = b
            self.offers.setdefault(self.tag(b), []).append(c)

    # Operations.

    def random_braids(self, rng, count, length=None):
        out = []
        for _ in range(count):
            l = length if length is not None else rng.choice((0, 1, 1, 2, 3))
            cls = rng.choice(self.classes)
            b = cls.sample(self.n, l if self.n > 2 else 0, random.Random(rng.random()))
            out.append(cls(self.n, rng.choice((0, 0, 1, -2, 3)), b.factors))
        return out

    def add(self, rng, braids=None):
        if braids is None:
            braids = self.random_braids(rng, rng.choice((1, 2, 5, 12)))
            if rng.random() < .5:
                braids += [rng.choice(braids)]
        images = B.polymat.pack([self.rep.polymat_evaluate_braid(b) for b in braids])
        self.log.append(('add', braids))
        hand_over(rng, self.T, braids, disguised(rng, images))
        self.offered(braids)

    def bootstrap(self, rng, upto=None):
        upto = upto if upto is not None else rng.choice((0, 1, 2) if self.n < 5 else (1,))
        if self.n == 2:
            upto = 0
        self.log.append(('bootstrap', upto))
        cls = rng.choice(self.classes)
        self.T.bootstrap_exhaustive(cls, upto)
        kind = cls.__name__
        self.offered([rebuild(kind, self.n, 0, seq) for l in range(1, upto + 1) for seq in forms(kind, self.n, l)])

    def expand(self, rng, tag=None, length=None, ctx=None):
        tags = [t for t in self.T.buckets if len(self.T.buckets[t].braids) <= 40]
        if not tags or self.n == 2:
            return
        tag = rng.choice(tags) if tag is None else tag
        length = length or rng.choice((1, 1, 2) if self.n < 5 else (1,))
        if self.n == 4 and self.kind != 'DGNF' and length == 2 and len(self.T.buckets[tag].braids) > 4:
            length = 1
        before = [canon(b) for b in self.T.bucket_braids_images(tag)[0]]
        self.log.append(('expand', tag, length))
        if length == 1 and rng.random() < .5:
            self.T.nf_descendants(tag)
        else:
            self.T.nf_descendants(tag, length)
        self.offered([rebuild(kind, self.n, power, seq + more)
                      for kind, power, seq in before for more in forms(kind, self.n, length, seq[-1] if seq else None)])

    def discard(self, rng):
        tags = list(self.T.buckets)
        if not tags:
            return
        tag = rng.choice(tags) if rng.random() < .9 else ('no', 'such', 'bucket')
        self.log.append(('discard', tag))
        self.T.discard_bucket(tag)
        self.offers.pop(tag, None)

    def read(self, rng, ctx=None):
        """Everything the library reports; the audit that follows shows that asking changes nothing."""
        def order():
            return [(tag, list(self.T.bucket_braids_images(tag)[0])) for tag in self.T.buckets]
        before = order()
        silently(self.T.stats)
        silently(self.T.stats_reservoir) if hasattr(self.T, 'stats_reservoir') else None
        for tag in self.T.buckets if len(before) < 5 else rng.sample(sorted(self.T.buckets, key=str), 4):
            silently(lambda: self.T.bucket_stats(tag))
            silently(lambda: self.T.hash_bucket(tag)) if hasattr(self.T, 'hash_bucket') else None
        if ctx:
            ctx.check(order() == before, 'reading the tables changed the buckets', log=self.log)
            ctx.hit('read')

    def audit(self, ctx):
        T, o = self.T, self.oracle
        ctx.check(set(T.buckets) == set(self.offers), 'buckets are not those of the braids offered', extra=set(T.buckets) - set(self.offers), missing=set(self.offers) - set(T.buckets), log=self.log)
        ctx.hit('audits')
        for tag, bucket in T.buckets.items():
            braids, images = T.bucket_braids_images(tag)
            ctx.check(bucket.tag == tag and bucket.size() == len(braids) == len(images) and len(bucket.weights) >= len(braids), 'parallel lists differ', tag=tag, log=self.log)
            ctx.check(len(braids) <= self.capacity, f'{len(braids)} braids in a bucket of capacity {self.capacity}', log=self.log)
            ctx.check(bucket.is_full() == (len(braids) == self.capacity), 'is_full', tag=tag)
            stock = collections.Counter(self.offers[tag])
            for k, b in enumerate(braids):
                ctx.check(type(b) in self.classes and b.n == self.n, f'holds {b!r}', log=self.log)
                c = canon(b)
                true = self.tag(b)
                ctx.check(tuple(tag) == true, f'a braid with statistics {true} is in bucket {tag}', b=b, log=self.log)
                ctx.check(images[k].shape[:2] == (o.size, o.size), 'shape of an image', tag=tag)
                ctx.check(lp.of_polymat(images[k]) == o.image(b), 'holds a wrong image', b=b, tag=tag, image=images[k].tolist(), log=self.log)
                w = float(bucket.weights[k])
                ctx.check(math.isclose(w, self.weigh(b), rel_tol=1e-12), f'weight {w} instead of {self.weigh(b)}', b=b, tag=tag, log=self.log)
                stock[c] -= 1
                ctx.check(stock[c] >= 0, 'holds a braid more often than it was offered', b=b, tag=tag, log=self.log)
                ctx.hit('held')
            if len(braids) == self.capacity:
                ctx.hit('full')

    def validate(self, ctx, rng):
        answer = silently(self.T.valiate_buckets)
        ctx.check(is_sound(answer), f'self-validation of a sound tracker answers {answer!r}', log=self.log)
        ctx.hit('sound')
        tags = list(self.T.buckets)
        if not tags:
            return
        tag = rng.choice(tags)
        bucket = self.T.buckets[tag]
        k = rng.randrange(len(bucket.braids))
        saved = bucket.images[k].copy()
        where, other = (tuple(rng.randrange(s) for s in saved.shape) for _ in range(2))
        l = rng.randrange(len(bucket.braids))
        kept = bucket.images[l].copy()
        change = rng.choice((1, -1, 5, 256, 2**16, -2**24))
        if self.rep.p and change % self.rep.p == 0:
            change = 1
        m = rng.randrange(6)
        if m == 0:
            bucket.images[k][where] += change
        elif m == 1:
            bucket.images[k] = -saved
        elif m == 2:
            bucket.images[k] = saved[..., ::-1] if not np.array_equal(saved, saved[..., ::-1]) else saved * 2
        elif m == 3:
            # Changes which cancel, within one image,
            bucket.images[k][where] += change
            bucket.images[k][other] -= change
        elif m == 4:
            # or between two.
            bucket.images[k][where] += change
            bucket.images[l][where] -= change
        else:
            # The images of two braids exchanged.
            bucket.images[[k, l]] = bucket.images[[l, k]]
        if not np.array_equal(bucket.images[k], saved):
            answer = silently(self.T.valiate_buckets)
            ctx.check(not is_sound(answer), f'self-validation calls a wrong image sound', tag=tag, place=k, where=where, log=self.log)
            ctx.hit('damage noticed')
        bucket.images[k], bucket.images[l] = saved, kept
        others = [b for t in tags if t != tag for b in self.T.buckets[t].braids if type(b) is type(bucket.braids[k]) and len(b.factors) == len(bucket.braids[k].factors) and self.oracle.image(b) != self.oracle.image(bucket.braids[k])]
        if others:
            # An image next to the braid of another: of another width, as likely as not, which makes comparing the arrays an error.
            b, bucket.braids[k] = bucket.braids[k], rng.choice(others)
            try:
                answer = silently(self.T.valiate_buckets)
            except ValueError:
                answer = 'refused'
            ctx.check(not is_sound(answer), 'self-validation calls the image of another braid sound', tag=tag, place=k, log=self.log)
            bucket.braids[k] = b
            ctx.hit('braids exchanged')
        ctx.check(is_sound(silently(self.T.valiate_buckets)), 'self-validation changed something', log=self.log)


def rebuild(kind, n, power, seq):
    """The braid with these factors, through the library's constructors from permutations or partitions."""
    key = kind, n, seq
    if key not in REBUILT:
        if len(REBUILT) > 100000:
            REBUILT.clear()
        if kind == 'GNF':
            b = GNF.from_perm_seq(n, [Permutation(x) for x in seq])
        else:
            b = DGNF.from_npar_seq(n, [NPar.from_permutation(Permutation(x)) for x in seq])
        assert canon(b) == (kind, 0, seq), (b, seq)
        REBUILT[key] = b.factors
    return KINDS[kind](n, power, REBUILT[key])


REBUILT = {}


@SUITE.scenario('histories', quick=640, thorough=10000)
def histories(ctx, rng, i):
    w = World(rng)
    ctx.describe(n=w.n, r=w.rep.r, p=w.rep.p, kind=w.kind, method=w.method, capacity=w.capacity, weight=w.weight, log=w.log)
    for _ in range(rng.randint(5, 12) if w.n < 5 else 4):
        op = rng.choice(('add', 'add', 'expand', 'expand', 'bootstrap', 'discard', 'read'))
        if op == 'bootstrap' and sum(map(len, w.offers.values())) > 1500:
            op = 'add'
        if op == 'expand':
            before = len(w.log)
            w.expand(rng, ctx=ctx)
            if len(w.log) > before:
                ctx.hit('expanded')
        elif op == 'read':
            w.read(rng, ctx)
        else:
            getattr(w, op)(rng)
            ctx.hit({'add': 'added', 'bootstrap': 'bootstrapped', 'discard': 'discarded'}[op])
        w.audit(ctx)
    w.validate(ctx, rng)
    if any(len(v) >= w.capacity for v in w.offers.values()):
        ctx.distinct((i, w.n, w.kind, w.method, w.capacity, len(w.log)))
        ctx.sample(rep=w.oracle, kind=w.kind, method=w.method, capacity=w.capacity, operations=[x[0] for x in w.log])


@SUITE.scenario('validation', quick=240, thorough=4000)
def validation(ctx, rng, i):
    w = World(rng)
    w.add(rng)
    w.add(rng)
    ctx.describe(n=w.n, r=w.rep.r, p=w.rep.p, kind=w.kind, method=w.method, capacity=w.capacity, log=w.log)
    for _ in range(3):
        w.validate(ctx, rng)
    w.audit(ctx)


@SUITE.scenario('buckets', quick=160, thorough=1600)
def buckets(ctx, rng, i):
    """A bucket by itself."""
    cap = rng.choice((1, 2, 5))
    size = rng.choice((1, 2))
    bucket = B.Bucket.create(('tag', i), cap, (size, size, 3), np.int64)
    model = []
    for step in range(12):
        b = GNF.identity(3)
        image = np.array([[[rng.randint(-9, 9) for _ in range(3)] for _ in range(size)] for _ in range(size)])
        x, wt = rng.random(), rng.choice((0, 1, 2.5))
        b = GNF(3, step, ())
        if rng.random() < .6:
            if len(model) == cap:
                ctx.raises((ValueError, AssertionError), lambda: bucket.append_braid(b, image, wt), 'appending to a full bucket')
                ctx.hit('refused')
            else:
                ctx.eq(bucket.append_braid(b, image, wt), len(model), 'index of an appended braid')
                model.append((b, image, wt))
        else:
            k = rng.randint(-1, cap)
            if 0 <= k < len(model):
                bucket.replace_braid(k, b, image, wt)
                model[k] = (b, image, wt)
            else:
                ctx.raises((ValueError, AssertionError, IndexError), lambda: bucket.replace_braid(k, b, image, wt), 'replacing outside the bucket', k=k)
                ctx.hit('refused')
        braids, images = bucket.braids_images()
        ctx.check(bucket.size() == len(braids) == len(images) == len(model) and bucket.is_full() == (len(model) == cap), 'size')
        ctx.check(all(x == b and np.array_equal(y, im) and float(v) == wt for x, y, v, (b, im, wt) in zip(braids, images, bucket.weights, model)), 'contents of a bucket', model=model)


@SUITE.scenario('crowded', quick=32, thorough=600)
def crowded(ctx, rng, i):
    """Dozens or hundreds of braids in one bucket, with room and without, as they come and sorted."""
    spec = rng.choice(((4, 0, 0), (4, 1, 2), (5, 0, 2), (4, 2, 3), (3, 1, 2)))
    size, count = rng.choice((40, 100, 1000)), log_size(rng, 40, 600 if spec[1] == 0 else 300)
    w = World(rng, spec=spec, capacity=size)
    ctx.describe(spec=spec, size=size, count=count)
    length = rng.choice((2, 3))
    braids = list(dict.fromkeys(w.random_braids(rng, count, length)))
    if rng.random() < .3:
        braids.sort(key=repr, reverse=rng.random() < .5)
    chunk = rng.choice((7, 50, 1000))
    for k in range(0, len(braids), chunk):
        w.add(rng, braids[k:k + chunk])
    for op in ('read', 'read', 'add', 'read'):
        w.read(rng, ctx) if op == 'read' else w.add(rng)
        w.audit(ctx)
    w.validate(ctx, rng)
    ctx.hit('crowded', max(len(w.T.bucket_braids_images(t)[0]) for t in w.T.buckets) >= 30)
    ctx.distinct((i, 'crowded', spec, size, count))


@SUITE.scenario('thousands', quick=4, thorough=60)
def thousands(ctx, rng, i):
    """More than a thousand braids in one bucket, any one of which may be wrong."""
    spec = ((4, 0, 0), (5, 0, 3))[i % 2]
    w = World(rng, spec=spec, capacity=rng.choice((1000, 3000)))
    braids = list(dict.fromkeys(w.random_braids(rng, 2500, 4 if spec[0] == 4 else 3)))
    ctx.describe(spec=spec, braids=len(braids))
    chunk = rng.choice((500, 1000, 3000))
    for k in range(0, len(braids), chunk):
        w.add(rng, braids[k:k + chunk])
    w.audit(ctx)
    for _ in range(6):
        w.validate(ctx, rng)
    ctx.hit('thousands')
    ctx.distinct((i, 'thousands', spec, len(braids)))


@SUITE.scenario('long', quick=48, thorough=2000)
def long(ctx, rng, i):
    """Braids of up to 160 factors: large degrees, and large coefficients in characteristic zero."""
    w = World(rng, spec=LONG_SPECS[i % len(LONG_SPECS)])
    ctx.describe(n=w.n, r=w.rep.r, p=w.rep.p, kind=w.kind, method=w.method, capacity=w.capacity, weight=w.weight, log=w.log)
    for _ in range(2):
        braids = long_batch(rng, w.oracle, w.kind)
        w.add(rng, braids)
        ctx.hit('long', sum(b.canonical_length() > 60 for b in braids))
        w.audit(ctx)
    for _ in range(2):
        tags = [t for t in w.T.buckets if len(w.T.buckets[t].braids) <= 3 and all(fits(w.oracle, b) for b in w.T.bucket_braids_images(t)[0])]
        if tags:
            w.expand(rng, rng.choice(tags), rng.choice((1, 1, 2)) if w.n == 3 else 1)
            w.audit(ctx)
    w.validate(ctx, rng)


@SUITE.scenario('very long', quick=8, thorough=160)
def very_long(ctx, rng, i):
    """Lengths and projective lengths of several hundred, with others which end on the same byte."""
    spec = ((3, 0, 5), (3, 0, 0), (3, 0, 2), (3, 1, 2))[i % 4]
    w = World(rng, spec=spec)
    ctx.describe(spec=spec, log=w.log)
    length = rng.randint(3, 44)
    sizes = (length, length + 256, length + 128, rng.choice((length + 512, log_size(rng, 200, 700)))) if spec[1] == 0 else (length // 4, length // 4 + 256)
    braids = [b for k in sizes for b in w.random_braids(rng, 2 if spec[1] == 0 else 1, k)]
    rng.shuffle(braids)
    w.add(rng, braids)
    w.audit(ctx)
    if spec[1] == 0:
        w.expand(rng, rng.choice(list(w.T.buckets)), 1)
        w.audit(ctx)
    w.validate(ctx, rng)
    ctx.hit('very long')


@SUITE.scenario('refused', quick=40, thorough=400)
def refused(ctx, rng, i):
    n = 4
    rep = JonesCellRep(n, 1, 2)
    for stats in ([], [B.Stats.CanonicalLength], [B.Stats.ProjectiveLength], [B.Stats.NFKind, B.Stats.NonzeroTerms]):
        ctx.raises((AssertionError, ValueError), lambda: B.Tracker(rep, 5, stats, []), 'buckets coarser than length and projective length')
        ctx.hit('refused')
    w = World(rng, spec=(4, 1, 2), kind=rng.choice(("GNF", "DGNF")))
    w.add(rng)
    braids = w.random_braids(rng, 3, 2)
    images = w.rep.polymat_evaluate_braids_of_same_length(braids)
    for bad in (images[:2], images[0], images[..., None]):
        ctx.raises((AssertionError, ValueError), lambda: w.T.add_braids_images(braids, bad), 'images that do not match the braids', shape=bad.shape)
        ctx.hit('refused')
    w.audit(ctx)
    ctx.raises((AssertionError, ValueError, KeyError), lambda: w.T.bucket_stats(('none',)), 'statistics of a missing bucket')
    ctx.raises((AssertionError, ValueError, KeyError), lambda: w.T.bucket_braids_images(('none',)), 'contents of a missing bucket')
    ctx.raises((AssertionError, ValueError, KeyError), lambda: w.T.nf_descendants(('none',)), 'expansion of a missing bucket')
    w.audit(ctx)
