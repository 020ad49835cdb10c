import collections
import dataclasses
import json
import os
import random

import numpy as np

from peyl import braidsearch as S
from peyl import bucketing as B

from ..core import Suite, short
from ..lib import *
from ..remote import Remote
from ..script import *
from .c20 import World
from .c23 import SWorld
from .c26 import configuration

SUITE = Suite('C28',
    'Twins: the search script run twice with the same arguments, the second time with another hash seed, working directory, global random state, address layout and way of starting, compared in everything printed (timings aside) and saved, in order; and random histories of both trackers, samplings and enumerations run twice in the same process (with the global random sources disturbed in between) and once in another process with another hash seed, compared in the stored form of every braid, bucket by bucket in order. Seeds include zero, negative and huge ones; some searches go on until dozens of full buckets are carried. Non-trivial: a full bucket or several sampled braids.',
    assumptions=['Sampling without a source of its own is not compared.'],
    require={'script twins': 16, 'long script twins': 3, 'buckets of a length': 60, 'twin rows': 300, 'overflowing twins': 8, 'tracker twins': 200, 'full': 100, 'samplings': 300, 'seeds that differ': 30, 'other processes': 300})


def stored(b):
    return f'{type(b).__name__}{dataclasses.astuple(b)}'


def disturb(rng):
    random.seed(rng.random())
    np.random.seed(rng.randrange(2**32))


def tagged(tag):
    return str(tuple(x if type(x) in (str, tuple) else float(x) for x in tag))


def weighted(rng, full=None):
    """A history of the weighted tracker; everything it holds, in order."""
    w = World(rng, method=rng.choice(('Uniform', 'Uniform', 'AChao', 'EvictMin', 'GreedyFirst')), capacity=rng.choice((1, 2, 3, 5)))
    for _ in range(rng.randint(3, 7) if w.n < 5 else 2):
        op = rng.choice(('add', 'add', 'expand', 'bootstrap'))
        if op == 'expand':
            tags = sorted((t for t in w.T.buckets if len(w.T.buckets[t].braids) <= 40), key=tagged)
            if tags:
                w.expand(rng, rng.choice(tags))
        else:
            getattr(w, op)(rng)
    if full is not None:
        full.extend(t for t, v in w.offers.items() if len(v) > w.capacity)
    return {tagged(t): [[stored(b) for b in w.T.bucket_braids_images(t)[0]], [str(float(x)) for x in w.T.buckets[t].weights[:w.T.buckets[t].size()]]] for t in w.T.buckets}


def searching(rng, full=None):
    w = SWorld(rng, size=rng.choice((1, 2, 3, 5)), rand=random.Random(rng.random()))
    for _ in range(rng.randint(3, 7) if w.n < 5 else 2):
        op = rng.choice(('add', 'add', 'expand', 'bootstrap', 'product', 'substrings'))
        tags = sorted((t for t in w.T.buckets if len(w.T.bucket_braids_images(t)[0]) <= 40), key=tagged)
        if op == 'add':
            w.add(rng)
        elif op == 'bootstrap':
            w.T.bootstrap_exhaustive(rng.choice((1, 2)) if 2 < w.n < 5 else 1)
        elif tags and w.n > 2:
            tag = rng.choice(tags)
            if op == 'expand':
                w.T.nf_descendants(tag, 1)
            elif op == 'product':
                w.T.bucket_product(tag, rng.choice(tags))
            else:
                w.T.substrings(tag)
    counts = w.T.bucket_reservoir_counts if hasattr(w.T, 'bucket_reservoir_counts') else {}
    if full is not None:
        full.extend(t for t in w.T.buckets if len(w.T.bucket_braids_images(t)[0]) == w.size)
    return {tagged(t): [stored(b) for b in w.T.bucket_braids_images(t)[0]] for t in w.T.buckets}


def sampling(rng, full=None):
    n, length = rng.choice((3, 4, 5)), rng.choice((0, 1, 2, 5, 12))
    rand = random.Random(rng.random())
    mode = rng.randrange(4)
    if mode == 0:
        kind = rng.choice((GNF, DGNF))
        braids = [kind.sample(n, length, rand) for _ in range(8)]
    elif mode == 1:
        braids = [BraidGroup(n).sample_braid_perm(length, rand=rand) for _ in range(8)]
    elif mode == 2:
        braids, images = S.sample_braids_images(S.JonesSummand(n, 1, 2), length, 8, rand=rand)
    else:
        braids, images = S.sample_braids_images_upto_length(S.JonesSummand(n, 1, 3), 1, 3, 4, rand=rand)
    return [stored(b) for b in braids]


def enumeration(rng, full=None):
    n, length, kind = rng.choice((3, 4)), rng.choice((1, 2, 3)), rng.choice(('GNF', 'DGNF'))
    cls = KINDS[kind]
    mode = rng.randrange(3)
    if mode == 0:
        return [stored(b) for b in cls.all_of_length(n, length)]
    b = cls.sample(n, 3, random.Random(rng.random()))
    if mode == 1:
        return [stored(x) for x in b.nf_suffixes(min(length, 2))]
    return [[stored(x) for x in (b*b, b.inv(), b.shadow(), b**3)] if hasattr(b, 'shadow') else [stored(x) for x in (b*b, b.inv(), b**3)]]


JOBS = {'weighted': weighted, 'searching': searching, 'sampling': sampling, 'enumeration': enumeration}
ELSEWHERE = {}


def elsewhere(rng):
    if not ELSEWHERE:
        ELSEWHERE[0] = Remote('c28', hashseed=rng.randrange(1, 2**32), cwd='/tmp', prelude='import random; random.seed(99); x = [bytearray(k) for k in range(5000)]')
    return ELSEWHERE[0]


def twins(ctx, rng, name, seed, full=None):
    seed = str(seed)
    disturb(rng)
    one = json.loads(json.dumps(JOBS[name](random.Random(seed), full)))
    disturb(rng)
    two = json.loads(json.dumps(JOBS[name](random.Random(seed))))
    ctx.check(one == two, f'{name}: not repeated in the same process', one=short(str(one), 1500), two=short(str(two), 1500))
    three = elsewhere(rng).call(name, seed)
    ctx.check(one == three, f'{name}: different in another process', here=short(str(one), 1500), there=short(str(three), 1500))
    ctx.hit('other processes')
    return one


@SUITE.scenario('trackers', quick=400, thorough=8000, timeout=300)
def trackers(ctx, rng, i):
    name = rng.choice(('weighted', 'searching'))
    seed = rng.random()
    ctx.describe(job=name, seed=seed)
    full = []
    one = twins(ctx, rng, name, seed, full)
    ctx.hit('tracker twins')
    if full:
        ctx.hit('full')
        ctx.distinct((name, seed))
        ctx.sample(job=name, buckets=len(one), full=len(full))


@SUITE.scenario('samplings', quick=600, thorough=20000)
def samplings(ctx, rng, i):
    name = rng.choice(('sampling', 'sampling', 'enumeration'))
    seed = rng.random()
    ctx.describe(job=name, seed=seed)
    one = twins(ctx, rng, name, seed)
    ctx.hit('samplings')
    if name == 'sampling' and len(set(one)) > 4:
        ctx.distinct((name, seed))
    other = JOBS['sampling'](random.Random(rng.random()))
    if name == 'sampling' and other != one:
        ctx.hit('seeds that differ')


PRELUDES = ('pass', 'import random; random.seed(5)', 'import random, numpy; [random.random() for _ in range(999)]; numpy.random.seed(3)',
            'import gc; gc.disable()', 'import sys; sys.setswitchinterval(1e-5); sys.setrecursionlimit(3000)', 'x = [bytearray(k) for k in range(9999)]',
            'import locale; locale.setlocale(locale.LC_ALL, "")')


LONG = (dict(n=4, r=2, p=3, bootstrap_length=2, bucket_size=4, use_best=100000), dict(n=4, r=1, p=7, bootstrap_length=2, bucket_size=5, use_best=100000),
        dict(n=4, r=2, p=5, bootstrap_length=2, bucket_size=3, use_best=100000, step_size=2))


@SUITE.scenario('long script', quick=3, thorough=24, timeout=400)
def long_script(ctx, rng, i):
    """The same for searches that go on until dozens of buckets, all of them full, are carried forward."""
    conf = dict(LONG[i % 3], seed=rng.randrange(10**6), save_best=PLENTY)
    steps = (36, 30, 26)[i % 3]
    ctx.describe(conf=conf, steps=steps)
    results = []
    for hashseed in ('0', str(rng.randrange(1, 2**32))):
        with Scratch() as d:
            run = Run(arguments(**conf, database='x.db'), cwd=d, steps=steps, env=dict(PYTHONHASHSEED=hashseed))
            ctx.check(len(run.steps) >= steps, f'ended with {run.code} after {len(run.steps)} steps', err=run.err[-800:])
            last = run.steps[steps - 1]['length']
            results.append(([x for x in rows_of(os.path.join(d, 'x.db')) if x[4] < last], run.output()))
    one, two = results
    for what, a, b in (('saved', one[0], two[0]), ('printed', one[1], two[1])):
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), None)
        ctx.check(k is None and len(a) == len(b), f'{what} something else', at=k, one=a[k] if k is not None else len(a), two=b[k] if k is not None else len(b))
    buckets = collections.Counter(k[0] for k in {x[4:6] for x in one[0]})
    ctx.hit('long script twins')
    ctx.hit('buckets of a length', max(buckets.values()))
    ctx.hit('twin rows', len(one[0]))
    ctx.distinct(tuple(run.args))


@SUITE.scenario('script', quick=27, thorough=400, timeout=300)
def script(ctx, rng, i):
    conf = configuration(rng)
    conf.update(r=rng.choice((1, conf['r'])), bucket_size=rng.choice((1, 3, 8, 20, conf['bucket_size'])), use_best=max(conf['use_best'], 10),
                save_best=rng.choice((10, 500, PLENTY)))
    steps = rng.choice((2, 4, 8)) if conf['n'] < 5 else 3
    if i % 3 == 0:
        # Options left alone.
        conf.pop('seed')
        if conf['n'] == 3:
            conf.pop('bootstrap_length')
            conf.pop('bucket_size')
    if 'seed' in conf and i % 3 == 1:
        conf['seed'] = rng.choice((0, 0, -1, 2**64 + 5, 10**40, -2**31))
        ctx.hit('unusual seeds')
    ctx.describe(conf=conf, steps=steps)
    results = []
    for k in range(2):
        with Scratch() as d:
            sub = os.path.join(d, 'a' * rng.randint(1, 30))
            os.mkdir(sub)
            env = dict(PYTHONHASHSEED=rng.choice(('0', '1', str(rng.randrange(2**32)), 'random')), TZ=rng.choice(('UTC', 'Asia/Tokyo')),
                       LC_ALL=rng.choice(('C', 'C.UTF-8')), COLUMNS=('80', '200')[0])
            kw = dict(plain=True) if k and i % 4 == 0 else dict(extra=rng.choice(PRELUDES))
            run = Run(arguments(**conf, database='x.db'), cwd=rng.choice((sub, d)), steps=steps, env=env, **kw)
            path = next((os.path.join(x, 'x.db') for x in (d, sub) if os.path.exists(os.path.join(x, 'x.db'))), None)
            ctx.check(path is not None and run.steps, f'ended with {run.code}', err=run.err[-800:])
            results.append((run.output(), rows_of(path), run.code if not run.cut else None))
    one, two = results
    ctx.eq(one[2], two[2], 'end of the same search')
    k = next((k for k, (x, y) in enumerate(zip(one[0], two[0])) if x != y), None)
    ctx.check(one[0] == two[0], 'printed something else', line=k, one=one[0][k] if k is not None else len(one[0]), two=two[0][k] if k is not None else len(two[0]))
    # A run that was cut may have gone on saving a little.
    ended = one[2] is not None
    last = min(max((x[4] for x in r), default=0) for r in (one[1], two[1]))
    a, b = ([x for x in r if ended or x[4] < last] for r in (one[1], two[1]))
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), None)
    ctx.check(a == b, 'saved something else', one=a[k] if k is not None else len(a), two=b[k] if k is not None else len(b))
    ctx.hit('script twins')
    ctx.hit('twin rows', len(a))
    model = Model(**{**conf, 'seed': 0})
    if any(len(x) > model.size for x in model.by_projlen(model.next).values()):
        ctx.hit('overflowing twins')
        ctx.distinct(tuple(run.args))
        ctx.sample(args=' '.join(run.args), rows=len(a))
