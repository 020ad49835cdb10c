import collections
import math

import numpy as np

from peyl import braidsearch as S

from ..core import Suite
from ..lib import *
from ..tracks import canon
from .c21 import FAR, frequencies, spread, tokens
from .c23 import CRITERIA, SWorld, everything

SUITE = Suite('C24',
    'Streams of offers (repeats, any order, split into batches, several buckets interleaved, criteria) to the search tracker: without a random source the contents must be the first distinct offers, while there is room they must be the distinct offers once each, counts must be the accepted offers, equal seeds must give equal contents in equal order. With a source, thousands of seeded repetitions of streams of distinct braids, in several orders, batch splits and with interleaved buckets, must keep every position with frequency size/N (6.5 standard deviations). Non-trivial: more distinct offers than the bucket holds.',
    assumptions=['Frequencies are judged at 6.5 standard deviations; the seeds are fixed by VERIF_SEED.', 'Uniformity is claimed for streams of distinct braids; repeated offers are counted but say nothing about probabilities.'],
    require={'first kept': 400, 'room': 400, 'counts': 800, 'same seed': 200, 'repetitions': 80000, 'long streams': 24, 'far runs': 280})

REP = {}


def rep():
    if not REP:
        REP[0] = S.JonesSummand(3, 1, 0)
        REP[1] = S.evaluate_braid_factors(REP[0], GNF.identity(3))
    return REP[0], REP[1]


def tracker(size, rand):
    return S.Tracker(rep()[0], size, ('length', 'projlen'), everything, rand=rand)


def offer(rng, T, braids):
    _, image = rep()
    k = 0
    while k < len(braids):
        chunk = list(braids[k:k + rng.choice((1, 1, 2, 5, 1000))])
        T.add_braids_images(chunk, np.repeat(image[None], len(chunk), axis=0))
        k += len(chunk)


def contents(ctx, T):
    ctx.check(len(T.buckets) == 1, 'offers with equal statistics are in several buckets')
    tag, = T.buckets
    return tag, [b.inf() // 2 for b in T.bucket_braids_images(tag)[0]]


def reported(ctx, T, tag):
    """The count the library's tables report for a bucket."""
    df = T.stats_reservoir()
    rows = df[df['bucket'] == tag]
    ctx.check(len(rows) == 1, f'{len(rows)} rows for a bucket in stats_reservoir', tag=tag)
    return int(rows['reservoir_count'].iloc[0])


@SUITE.scenario('streams', quick=4000, thorough=60000)
def streams(ctx, rng, i):
    count = rng.choice((1, 2, 5, 12, 30))
    size = rng.choice((1, 2, 3, 7, 20, count, count + 1))
    stream = list(range(count))
    if rng.random() < .6:
        stream += [rng.randrange(count) for _ in range(rng.choice((1, count)))]
    if rng.random() < .8:
        rng.shuffle(stream)
    seed = rng.choice((None, rng.random()))
    every = tokens(count)
    ctx.describe(size=size, stream=stream, seed=seed)
    T = tracker(size, None if seed is None else random.Random(seed))
    split = rng.random()
    offer(random.Random(split), T, [every[k] for k in stream])
    tag, have = contents(ctx, T)
    firsts = list(dict.fromkeys(stream))
    ctx.eq(len(have), min(size, len(firsts)), 'braids held', size=size, stream=stream)
    ctx.check(set(have) <= set(stream), 'holds something that was not offered')
    if seed is None:
        ctx.eq(have, firsts[:size], 'first distinct braids', size=size, stream=stream)
        ctx.hit('first kept')
    if len(firsts) <= size and (seed is None or len(firsts) < size or len(stream) == len(firsts)):
        # (Once full, a source of randomness also sees the repeats.)
        ctx.eq(sorted(have), sorted(firsts), 'a bucket with room', size=size, stream=stream)
        ctx.hit('room')
    if len(firsts) > size:
        ctx.distinct((size, stream, seed is None))
        ctx.sample(size=size, stream=stream, seeded=seed is not None)
        if len(stream) == len(firsts):
            ctx.check(len(set(have)) == len(have), 'a braid twice among distinct offers', have=have, stream=stream)
    ctx.eq(reported(ctx, T, tag), len(stream), 'reservoir count', size=size, stream=stream)
    if seed is not None:
        df = T.stats()
        ctx.eq(int(df['reservoir_count'].iloc[0]), len(stream), 'reservoir count in stats', stream=stream)
        U = tracker(size, random.Random(seed))
        random.seed(rng.random())
        np.random.seed(rng.randrange(2**32))
        offer(random.Random(split), U, [every[k] for k in stream])
        ctx.eq(contents(ctx, U)[1], have, 'the same seed again', size=size, stream=stream)
        ctx.hit('same seed')
    ctx.hit('counts')


@SUITE.scenario('long streams', quick=24, thorough=500)
def long_streams(ctx, rng, i):
    """Thousands of offers, and sizes up to thousands."""
    count, size = log_size(rng, 300, 12000), log_size(rng, 1, 3000)
    seed = rng.choice((None, rng.random()))
    every, (r, image) = tokens(count), rep()
    images = np.repeat(image[None], count, axis=0)
    chunk = rng.choice((1000, 5000, 20000))
    ctx.describe(size=size, count=count, seed=seed, chunk=chunk)
    have = []
    for _ in range(2):
        T = tracker(size, None if seed is None else random.Random(seed))
        for k in range(0, count, chunk):
            T.add_braids_images(every[k:k + chunk], images[k:k + chunk])
            # The last few again.
            T.add_braids_images(every[:k + chunk][-2:], images[:2])
        tag, held = contents(ctx, T)
        have.append(held)
        offers = count + 2 * len(range(0, count, chunk))
        ctx.eq(reported(ctx, T, tag), offers, 'reservoir count')
        if seed is not None:
            ctx.eq(int(T.stats()['reservoir_count'].iloc[0]), offers, 'reservoir count in stats')
    ctx.check(len(held) == min(size, count) and min(held) >= 0 and max(held) < count, f'holds {len(held)} braids of {count} distinct offers')
    if seed is None:
        ctx.eq(held, list(range(min(size, count))), 'first distinct braids')
    elif count < size:
        ctx.eq(sorted(held), list(range(count)), 'a bucket with room')
    ctx.eq(have[0], have[1], 'the same again')
    ctx.hit('long streams')
    ctx.distinct((size, count, seed is None, i))


@SUITE.scenario('uniform, long streams', quick=8, thorough=64, timeout=400)
def uniform_far(ctx, rng, i):
    size, count = FAR[i % 8]
    every, source = tokens(count), random.Random(rng.random())
    r, image = rep()
    images = np.repeat(image[None], count, axis=0)
    chunk = rng.choice((700, count))
    runs = []
    for _ in range(160000 // count):
        T = tracker(size, source)
        for k in range(0, count, chunk):
            T.add_braids_images(every[k:k + chunk], images[k:k + chunk])
        runs.append(contents(ctx, T)[1])
    ctx.describe(size=size, count=count, runs=len(runs))
    spread(ctx, runs, count, size, 'retention', size=size)
    ctx.hit('repetitions', len(runs))
    ctx.hit('far runs', len(runs))
    ctx.distinct(('far', size, count, i))


@SUITE.scenario('several buckets', quick=480, thorough=8000)
def several(ctx, rng, i):
    seeded = rng.random() < .5
    seed = rng.random()
    size = rng.choice((1, 2, 4, 8, 1000))
    plan = rng.random()

    def world():
        r = random.Random(plan)
        w = SWorld(r, size=size, rand=random.Random(seed) if seeded else 'none')
        for _ in range(r.randint(2, 6) if w.n < 5 else 3):
            op = r.choice(('add', 'add', 'bootstrap', 'discard', 'add', 'expand'))
            if op == 'expand':
                w.expand(r, ctx, length=1)
            else:
                getattr(w, op)(r, ctx)
        return w
    w = world()
    ctx.describe(n=w.n, size=size, criterion=w.criterion, keys=w.keys, log=w.log, seeded=seeded)
    for tag, offers in w.accepted.items():
        have = [canon(b) for b in w.T.bucket_braids_images(tag)[0]]
        firsts = list(dict.fromkeys(offers))
        ctx.eq(len(have), min(size, len(firsts)), 'braids held', tag=tag, log=w.log)
        ctx.eq(reported(ctx, w.T, tag), len(offers), 'reservoir count', tag=tag, log=w.log)
        ctx.hit('counts')
        if len(firsts) < size:
            ctx.check(len(set(have)) == len(have) and set(have) == set(firsts), 'a bucket with room', tag=tag, log=w.log)
            ctx.hit('room')
        elif not seeded and all(x[0] in ('add', 'discard') for x in w.log):
            ctx.eq(have, firsts[:size], 'first distinct braids', tag=tag, log=w.log)
            ctx.hit('first kept')
    again = world()
    ctx.check(again.log == w.log or [x[:1] + x[2:] for x in again.log] == [x[:1] + x[2:] for x in w.log], 'another history from the same seed', log=w.log, again=again.log)
    for tag in w.T.buckets:
        ctx.check(tag in again.T.buckets and list(again.T.bucket_braids_images(tag)[0]) == list(w.T.bucket_braids_images(tag)[0]), 'the same seed again', tag=tag, log=w.log)
    ctx.hit('same seed')


GRID = [(1, 2), (1, 3), (1, 8), (2, 3), (2, 6), (3, 4), (3, 10), (4, 12), (5, 7), (2, 25), (6, 9), (10, 12), (1, 5), (2, 4), (7, 30), (4, 5)]


@SUITE.scenario('uniform', quick=16, thorough=160, timeout=600)
def uniform(ctx, rng, i):
    size, count = GRID[i % len(GRID)]
    runs = 4500
    order = list(range(count))
    rng.shuffle(order)
    chunk = rng.choice((1, 3, count)) if count < 10 else count
    ctx.describe(size=size, count=count, order=order, chunk=chunk)
    every = [tokens(count)[k] for k in order]
    counts = [0] * count
    r, image = rep()
    images = np.repeat(image[None], count, axis=0)
    source = random.Random(rng.random())
    for _ in range(runs):
        T = tracker(size, source)
        for k in range(0, count, chunk):
            T.add_braids_images(every[k:k + chunk], images[k:k + chunk])
        for b in T.bucket_braids[next(iter(T.buckets))]:
            counts[order.index(b.inf() // 2)] += 1
    ctx.eq(sum(counts), runs * size, 'not always full')
    frequencies(ctx, rng, counts, runs, size / count, 'retention', size=size, count=count, chunk=chunk)
    ctx.hit('repetitions', runs)
    ctx.distinct(('uniform', size, count, i))


@SUITE.scenario('two buckets', quick=8, thorough=64, timeout=600)
def two_buckets(ctx, rng, i):
    size, count = rng.choice(((2, 6), (1, 4), (3, 8)))
    runs = 4500
    r, image = rep()
    A, B = tokens(count), tokens(3 * count, GNF.sample(3, 1, random.Random(1)).factors)
    im2 = S.evaluate_braid_factors(r, B[0])
    batch, images = [], []
    refused = i % 2 == 1
    for k in range(count):
        batch += [A[k]] + B[3*k:3*k + 3]
        images += [image] + [im2] * 3
    images = S.polymat.pack(images)
    source = random.Random(rng.random())
    one, two = [0] * count, [0] * 3 * count
    for _ in range(runs):
        T = S.Tracker(r, size, ('length', 'projlen'), (lambda s: s['length'] > 0) if refused else everything, rand=source)
        T.add_braids_images(batch, images)
        ctx.check(len(T.buckets) == 2 - refused, 'number of buckets')
        for tag in T.buckets:
            for b in T.bucket_braids[tag]:
                (two if b.canonical_length() else one)[b.inf() // 2] += 1
    if not refused:
        frequencies(ctx, rng, one, runs, size / count, 'first of two buckets', size=size, count=count)
    frequencies(ctx, rng, two, runs, size / count / 3, 'second of two buckets', size=size, count=count)
    ctx.hit('repetitions', runs)
    ctx.distinct(('two', size, count, i))
