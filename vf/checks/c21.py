import collections
import math

import numpy as np

from peyl import bucketing as B
from peyl.jonesrep import JonesCellRep

from ..core import Suite
from ..lib import *
from ..tracks import canon, oracle
from .c20 import METHODS, Arbitrary, World, arbitrary

SUITE = Suite('C21',
    'Streams of weighted offers (ties, zeros, fractions, huge weights, repeats, any order, units from 1e-7 to 1e12, room for thousands, split into batches, several buckets interleaved) under each method: keep-first against the first offers, keep-heaviest against the sorted weights of everything offered, sizes and counts and total weights against the stream. Uniform and weight-biased retention are repeated thousands of times with seeded sources and the inclusion counts of every position are compared with k/N (6.5 standard deviations) or with the required order and exclusions. Non-trivial: more offers than the bucket holds.',
    assumptions=['Frequencies are judged at 6.5 standard deviations; the seeds are fixed by VERIF_SEED.'],
    require={'first kept': 200, 'heaviest kept': 200, 'room': 400, 'counts': 400, 'uniform repetitions': 100000, 'biased repetitions': 50000, 'weightless': 300, 'long streams': 48, 'far runs': 400})

REP = {}


def rep():
    if not REP:
        REP[0] = JonesCellRep(3, 1, 0)
        REP[1] = REP[0].polymat_evaluate_braid(GNF.identity(3))
    return REP[0], REP[1]


def tokens(count, seq=()):
    """Braids Δ^2k with one and the same image: offers to one bucket."""
    return [GNF(3, 2*k, seq) for k in range(count)]


class Weights:
    """A weight statistic given by a table."""
    def __init__(self, table):
        self.table = table
        self.name = 'weight'

    def calculate(self, rep, braids, images):
        return [self.table[b.inf() // 2] for b in braids]


def tracker(method, capacity, table, seed):
    r, _ = rep()
    return B.Tracker(r, capacity, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [], reservoir_method=method, reservoir_weight=Weights(table) if table is not None else None, rand=random.Random(seed))


def offer(rng, T, braids):
    _, image = rep()
    k = 0
    while k < len(braids):
        size = rng.choice((1, 1, 2, 5, 1000))
        chunk = list(braids[k:k + size])
        T.add_braids_images(chunk, np.repeat(image[None], len(chunk), axis=0))
        k += len(chunk)


def only_bucket(ctx, T):
    ctx.check(len(T.buckets) == 1, f'offers with equal statistics are in {len(T.buckets)} buckets')
    (tag, bucket), = T.buckets.items()
    return bucket, T.bucket_braids_images(tag)[0]


def held(ctx, T):
    _, braids = only_bucket(ctx, T)
    return [b.inf() // 2 for b in braids]


@SUITE.scenario('streams', quick=12000, thorough=100000)
def streams(ctx, rng, i):
    count = rng.choice((1, 2, 5, 12, 30))
    capacity = rng.choice((1, 2, 3, 7, 20, count, count + 1))
    style = rng.randrange(5)
    table = [{0: lambda: rng.choice((0, 1, 1, 2)), 1: rng.random, 2: lambda: rng.choice((0.0, 1e-9, 1e12, 3)), 3: lambda: 5, 4: lambda: rng.randint(0, 50)}[style]() for _ in range(count)]
    if rng.random() < .3:
        table.sort(reverse=rng.random() < .5)
    stream = list(range(count))
    if rng.random() < .3:
        stream += [rng.randrange(count) for _ in range(count)]
        rng.shuffle(stream)
    method = METHODS[i % 4]
    weighted = rng.random() < .8
    T = tracker(method, capacity, table if weighted else None, rng.random())
    ws = [table[k] if weighted else 1.0 for k in stream]
    ctx.describe(method=method, capacity=capacity, stream=stream, weights=ws)
    every = tokens(count)
    offer(rng, T, [every[k] for k in stream])
    bucket, _ = only_bucket(ctx, T)
    have = held(ctx, T)
    ctx.eq(len(have), min(capacity, len(stream)), 'braids held', method=method, stream=stream)
    stock = collections.Counter(stream)
    stock.subtract(have)
    ctx.check(min(stock.values()) >= 0, 'holds a braid more often than it was offered', method=method, have=have, stream=stream)
    if len(stream) <= capacity:
        ctx.check(sorted(have) == sorted(stream), 'a bucket with room does not hold every offer', method=method, have=have, stream=stream)
        ctx.hit('room')
    else:
        ctx.distinct((method, capacity, stream, ws))
        ctx.sample(method=method, capacity=capacity, stream=stream, weights=ws)
    ctx.check(bucket.reservoir_count == len(stream) and math.isclose(bucket.reservoir_weight, sum(ws), rel_tol=1e-9), f'count {bucket.reservoir_count} and weight {bucket.reservoir_weight} of {len(stream)} offers of weight {sum(ws)}', method=method)
    ctx.hit('counts')
    mine = [table[k] if weighted else 1.0 for k in have]
    ctx.check([float(x) for x in bucket.weights[:len(have)]] == [float(x) for x in mine], 'weights of the braids held', method=method)
    if method == 'GreedyFirst':
        ctx.check(sorted(have) == sorted(stream[:capacity]), 'keep-first', have=have, stream=stream, capacity=capacity)
        ctx.hit('first kept')
    if method == 'EvictMin':
        ctx.eq(sorted(mine), sorted(sorted(ws)[-capacity:]), 'keep-heaviest', stream=stream, weights=ws, capacity=capacity)
        ctx.hit('heaviest kept')
    if method == 'AChao' and weighted:
        # Once anything with weight has been seen, a full bucket takes no weightless braid.
        allowed = collections.Counter(k for j, k in enumerate(stream) if j < capacity or not any(ws[:j]))
        allowed.subtract(k for k in have if table[k] == 0)
        ctx.check(min(allowed.values()) >= 0, 'a weightless braid was admitted to a full bucket', have=have, stream=stream, weights=ws, capacity=capacity)
        ctx.hit('weightless')


@SUITE.scenario('several buckets', quick=400, thorough=2400)
def several(ctx, rng, i):
    """Real braids, many buckets at once, filled through additions, bootstraps and expansions."""
    method = METHODS[i % 4]
    w = World(rng, method=method, capacity=rng.choice((1, 2, 4, 8)))
    ctx.describe(n=w.n, kind=w.kind, method=method, capacity=w.capacity, weight=w.weight, log=w.log)
    for _ in range(rng.randint(2, 6) if w.n < 5 else 3):
        op = rng.choice(('add', 'add', 'bootstrap', 'discard', 'add'))
        getattr(w, op)(rng)
    for tag, offers in w.offers.items():
        bucket = w.T.buckets[tag]
        have = [canon(b) for b in w.T.bucket_braids_images(tag)[0]]
        ctx.eq(len(have), min(w.capacity, len(offers)), 'braids held', tag=tag, method=method, log=w.log)
        ws = [w.weigh(w.by_canon[c]) for c in offers]
        ctx.check(bucket.reservoir_count == len(offers) and math.isclose(bucket.reservoir_weight, sum(ws), rel_tol=1e-9, abs_tol=1e-12), f'count {bucket.reservoir_count}, weight {bucket.reservoir_weight}', want=(len(offers), sum(ws)), tag=tag)
        ctx.hit('counts')
        if len(offers) <= w.capacity:
            ctx.check(collections.Counter(have) == collections.Counter(offers), 'a bucket with room does not hold every offer', tag=tag, log=w.log)
            ctx.hit('room')
        mine = [w.weigh(w.by_canon[c]) for c in have]
        if method == 'EvictMin':
            ctx.check(np.allclose(sorted(mine), sorted(ws)[-w.capacity:], rtol=1e-12), 'keep-heaviest', tag=tag, mine=mine, ws=ws)
            ctx.hit('heaviest kept')
        if method == 'GreedyFirst' and all(x[0] == 'add' for x in w.log):
            ctx.check(collections.Counter(have) == collections.Counter(offers[:w.capacity]), 'keep-first', tag=tag, log=w.log)
            ctx.hit('first kept')


@SUITE.scenario('long streams', quick=48, thorough=1000)
def long_streams(ctx, rng, i):
    """Thousands of offers, and capacities up to thousands."""
    method = METHODS[i % 4] if i % 12 != 10 else 'EvictMin'
    count, capacity = log_size(rng, 300, 12000), log_size(rng, 1, 3000)
    if i % 12 >= 10:
        # Keep-first, keep-heaviest and the rest of them at the size of the buckets of real searches.
        capacity = rng.randint(1100, 3000)
        count = capacity + rng.randint(2000, 9000)
    style = rng.choice((lambda k: rng.random(), lambda k: rng.choice((0, 1, 1e9)), lambda k: k + rng.random(), lambda k: count - k + rng.random(), lambda k: 2**24 + rng.randint(0, 9), lambda k: 1))
    table = [float(style(k)) for k in range(count)]
    ctx.describe(method=method, capacity=capacity, count=count, weights=table[:20])
    T = tracker(method, capacity, table, rng.random())
    r, image = rep()
    every, chunk = tokens(count), rng.choice((1000, 5000, 20000))
    for k in range(0, count, chunk):
        T.add_braids_images(every[k:k + chunk], np.repeat(image[None], len(every[k:k + chunk]), axis=0))
    bucket, _ = only_bucket(ctx, T)
    have = held(ctx, T)
    ctx.check(len(have) == min(capacity, count) and len(set(have)) == len(have) and min(have) >= 0 and max(have) < count, f'holds {len(have)} braids of {count} distinct offers', method=method, capacity=capacity)
    ctx.check(bucket.reservoir_count == count and math.isclose(bucket.reservoir_weight, math.fsum(table), rel_tol=1e-9), f'count {bucket.reservoir_count} and weight {bucket.reservoir_weight} of {count} offers of weight {math.fsum(table)}', method=method)
    ctx.check([float(x) for x in bucket.weights[:len(have)]] == [table[k] for k in have], 'weights of the braids held', method=method)
    if method == 'GreedyFirst':
        ctx.eq(sorted(have), list(range(min(capacity, count))), 'keep-first')
    if method == 'EvictMin':
        ctx.eq(sorted(table[k] for k in have), sorted(table)[-capacity:], 'keep-heaviest')
    if method == 'AChao' and table.count(0):
        first = next((k for k, x in enumerate(table) if x), count)
        ctx.check(all(table[k] or k < capacity or k <= first for k in have), 'a weightless braid was admitted to a full bucket')
    ctx.hit('long streams')
    ctx.distinct((method, capacity, count, i))


def spread(ctx, runs, count, capacity, what, /, **kw):
    """Positions kept out of a long stream, over many runs: as many from every stretch as its length says."""
    total = sum(map(len, runs))
    ctx.check(all(len(set(r)) == len(r) == capacity and min(r) >= 0 and max(r) < count for r in runs), f'{what}: not full of distinct offers', **kw)
    for start, stop in [(0, capacity), (capacity, 2 * capacity), (count - capacity, count)] + [(count * k // 8, count * (k + 1) // 8) for k in range(8)] + [(0, count * k // 8) for k in range(2, 8)]:
        share = (stop - start) / count
        seen = sum(start <= k < stop for r in runs for k in r)
        # Without replacement, so no more varied than this.
        z = (seen - total * share) / math.sqrt(total * share * (1 - share))
        ctx.check(abs(z) < 6.5, f'{what}: {seen} of the {total} braids kept are from offers {start} to {stop} of {count}, {total * share:.0f} expected ({z:.1f} standard deviations)', **kw)


FAR = ((100, 8000), (30, 3000), (300, 12000), (10, 2000), (500, 6000), (50, 12000), (1000, 5000), (200, 1500))


@SUITE.scenario('uniform, long streams', quick=8, thorough=64, timeout=400)
def uniform_far(ctx, rng, i):
    capacity, count = FAR[i % 8]
    every, source = tokens(count), random.Random(rng.random())
    r, image = rep()
    images = np.repeat(image[None], count, axis=0)
    chunk = rng.choice((700, count))
    runs = []
    for _ in range(240000 // count):
        T = B.Tracker(r, capacity, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [], reservoir_method='Uniform', rand=source)
        for k in range(0, count, chunk):
            T.add_braids_images(every[k:k + chunk], images[k:k + chunk])
        runs.append([b.inf() // 2 for b in next(iter(T.buckets.values())).braids])
    ctx.describe(capacity=capacity, count=count, runs=len(runs))
    spread(ctx, runs, count, capacity, 'uniform retention', capacity=capacity)
    ctx.hit('uniform repetitions', len(runs))
    ctx.hit('far runs', len(runs))
    ctx.distinct(('far', capacity, count, i))


def frequencies(ctx, rng, counts, runs, want, what, /, **kw):
    sd = math.sqrt(want * (1 - want) / runs)
    for k, c in enumerate(counts):
        z = (c / runs - want) / sd
        ctx.check(abs(z) < 6.5, f'{what}: position {k} kept in {c} of {runs} runs instead of {want:.4f} of them ({z:.1f} standard deviations)', **kw)


GRID = [(1, 2), (1, 3), (1, 8), (2, 3), (2, 6), (3, 4), (3, 10), (4, 12), (5, 7), (2, 25), (6, 9), (10, 12), (1, 5), (2, 4), (7, 30), (4, 5)]


@SUITE.scenario('uniform', quick=16, thorough=160, timeout=400)
def uniform(ctx, rng, i):
    capacity, count = GRID[i % len(GRID)]
    runs = 10000
    # Every offer has equal probability whatever its weight.
    table = rng.choice((None, [rng.choice((0, 1, 7)) for _ in range(count)]))
    chunk = rng.choice((1, 3, count))
    ctx.describe(capacity=capacity, count=count, weights=table)
    every = tokens(count)
    counts = [0] * count
    slots = [0] * capacity
    r, image = rep()
    images = np.repeat(image[None], count, axis=0)
    source = random.Random(rng.random())
    for _ in range(runs):
        T = B.Tracker(r, capacity, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [], reservoir_method='Uniform', reservoir_weight=Weights(table) if table else None, rand=source)
        for k in range(0, count, chunk):
            T.add_braids_images(every[k:k + chunk], images[k:k + chunk])
        for b in next(iter(T.buckets.values())).braids:
            counts[b.inf() // 2] += 1
    ctx.check(sum(counts) == runs * capacity, 'not always full')
    frequencies(ctx, rng, counts, runs, capacity / count, 'uniform retention', capacity=capacity, count=count, weights=table, chunk=chunk)
    ctx.hit('uniform repetitions', runs)
    ctx.distinct(('uniform', capacity, count, i))


@SUITE.scenario('uniform, two buckets', quick=8, thorough=64, timeout=400)
def uniform_two(ctx, rng, i):
    """Buckets filled alternately do not share their reservoirs."""
    capacity, count, runs = rng.choice(((2, 6), (1, 4), (3, 8))) + (8000,)
    r, image = rep()
    B1, B2 = tokens(count), tokens(3 * count, GNF.sample(3, 1, random.Random(1)).factors)
    im2 = r.polymat_evaluate_braid(B2[0])
    batch, images = [], []
    for k in range(count):
        batch += [B1[k]] + B2[3*k:3*k + 3]
        images += [image] + [im2] * 3
    images = B.polymat.pack(images)
    source = random.Random(rng.random())
    one, two = [0] * count, [0] * 3 * count
    for _ in range(runs):
        T = B.Tracker(r, capacity, [B.Stats.ProjectiveLength, B.Stats.CanonicalLength], [], reservoir_method='Uniform', rand=source)
        T.add_braids_images(batch, images)
        ctx.check(len(T.buckets) == 2, 'not two buckets')
        for bucket in T.buckets.values():
            for b in bucket.braids:
                (two if b.canonical_length() else one)[b.inf() // 2] += 1
    frequencies(ctx, rng, one, runs, capacity / count, 'uniform retention, first of two buckets', capacity=capacity, count=count)
    frequencies(ctx, rng, two, runs, capacity / count / 3, 'uniform retention, second of two buckets', capacity=capacity, count=count)
    ctx.hit('uniform repetitions', runs)
    ctx.distinct(('two', capacity, count, i))


@SUITE.scenario('biased', quick=16, thorough=128, timeout=400)
def biased(ctx, rng, i):
    """The same offer, heavier: kept more often, wherever it stands; weightless never displaces."""
    capacity, count = rng.choice(((1, 4), (2, 6), (3, 9), (2, 12)))
    place = rng.randrange(capacity, count)
    runs = 3000
    r, image = rep()
    images = np.repeat(image[None], count, axis=0)
    every = tokens(count)
    source = random.Random(rng.random())
    kept = {}
    unit = rng.choice((1.0, 1.0, 1e-7, 1e7, 1e12))
    for weight in (0, 1, 30):
        table = [unit] * count
        table[place] = weight * unit
        c = 0
        for _ in range(runs):
            T = B.Tracker(r, capacity, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [], reservoir_method='AChao', reservoir_weight=Weights(table), rand=source)
            T.add_braids_images(every, images)
            braids = next(iter(T.buckets.values())).braids
            ctx.check(len(braids) == capacity and len({b.inf() for b in braids}) == capacity, 'wrong number of braids, or repeated')
            c += any(b.inf() // 2 == place for b in braids)
        kept[weight] = c
    ctx.describe(capacity=capacity, count=count, place=place, unit=unit, kept=kept)
    ctx.eq(kept[0], 0, 'a weightless braid was admitted to a full bucket', capacity=capacity, count=count, place=place)
    # The difference in frequency is at least several standard deviations for any bias worth its name.
    sd = math.sqrt(2 * runs * .25)
    ctx.check(kept[30] - kept[1] > 3 * sd, f'a braid 30 times as heavy is kept {kept[30]} times against {kept[1]} of {runs}', capacity=capacity, count=count, place=place)
    ctx.check(kept[1] > 0, 'an ordinary braid is never admitted', capacity=capacity, count=count, place=place)
    ctx.hit('biased repetitions', 3 * runs)
    ctx.distinct(('biased', capacity, count, place, i))
