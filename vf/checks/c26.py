import os

from ..core import Suite
from ..lib import *
from ..model import jones
from ..script import *

SUITE = Suite('C26',
    'The search script run as a program over command lines reaching near-kernel elements in many representations (2-row, 3 to 6 strands, primes 2 to 7), with and without overflowing buckets, limits and the stop option, and small searches of 60 to 90 lengths. Every printed pair is parsed, checked to be a normal form and evaluated from its word by an independent exact evaluator; the printed set of each step is compared with the near-kernel elements among the braids the run saved and, while no bucket overflows, with those of a model of the whole search. Halting is compared with the first step that prints any. Non-trivial: a run that printed at least one element.',
    assumptions=['The database, told to save everything, witnesses what the buckets of a length hold.', 'Without an end in sight a run is ended after a number of steps.'],
    require={'runs': 40, 'steps': 150, 'elements': 300, 'elements of length 5 or more': 20, 'halted': 12, 'went on': 10, 'compared with the model': 60, 'later lengths': 3, 'far': 4})


def constant(n, r, p, power, factors):
    """Is the exact image a power of v times a constant matrix?"""
    im = images(n, r, p)
    word = MP.power_word(MP.delta_word(n), power)
    for f in factors:
        word += MP.lift_word(f)
    M = jones.evaluate(n, r, word, im.basis, p)
    return lp.minval(M) is not None and lp.minval(M) == lp.maxdeg(M)


def valid(ctx, conf, line):
    n, r, p, length, power, factors = read_near(ctx, line)
    ctx.eq((n, r, p), (conf['n'], conf['r'], conf['p']), 'printed under other parameters', line=line)
    ctx.eq(length, len(factors), 'printed with another length', line=line)
    ctx.check(all(sorted(f) == list(range(n)) for f in factors), 'not permutations', line=line)
    ctx.check(all(f != MP.ident(n) and f != MP.w0(n) for f in factors), 'an improper factor', line=line)
    ctx.check(all(MP.left_weighted(x, y) for x, y in zip(factors, factors[1:])), 'not a normal form', line=line)
    ctx.check(constant(n, r, p, power, factors), 'not a near-kernel element', line=line)
    b = GNF.from_perm_seq(n, [Permutation(f) for f in factors])
    ctx.check(b.inf() == 0 and b.canonical_length() == length and tuple(tuple(f.word) for f in b.canonical_factors()) == factors,
              'does not read back to that braid', line=line)
    ctx.hit('elements')
    if length >= 5:
        ctx.hit('elements of length 5 or more')
    return power, factors


def judge(ctx, conf, run, rows, steps):
    stop = conf.get('stop_at_projlen_1')
    ctx.check(run.steps, 'no step was made', err=run.err[-600:], args=run.args)
    reported = 0
    for k, (s, model, held, near) in enumerate(followed(ctx, conf, run, rows)):
        printed = [valid(ctx, conf, line) for line in s['near']]
        now = [f for _, f in printed if len(f) == s['length']]
        ctx.check(all(power == 0 for power, _ in printed), 'printed with a power of Δ', line=s['near'])
        ctx.eq(sorted(now), sorted(held.get(1, ())), f"near-kernel elements of length {s['length']} printed")
        if any(len(f) > s['length'] for _, f in printed):
            ctx.hit('later lengths')
        if near is not None:
            ctx.eq(sorted(f for _, f in printed), sorted(near), f"near-kernel elements printed in step {s['length']}")
            ctx.hit('compared with the model')
        else:
            everything = model.near()
            for _, f in printed:
                ctx.check(f in everything.get(len(f), ()), 'printed but never found', element=f)
        reported += len(printed)
        last = k == len(run.steps) - 1
        if printed and stop:
            ctx.check(last and not run.cut and run.code == 0, f'did not halt after the step that printed ({run.code})', step=s['length'], err=run.err[-600:])
            ctx.hit('halted')
        elif last and not run.cut:
            ctx.check(s['length'] == 499 and run.code == 0, f'ended ({run.code}) without a reason', step=s['length'], err=run.err[-600:])
        elif printed:
            ctx.hit('went on')
    ctx.hit('runs')
    if reported:
        ctx.distinct((tuple(run.args), len(run.steps)))
        ctx.sample(args=' '.join(run.args), steps=len(run.steps), printed=reported)


def play(ctx, conf, steps, **kw):
    with Scratch() as d:
        path = os.path.join(d, 's.db')
        ctx.describe(conf=conf, steps=steps)
        run = Run(arguments(**conf, save_best=PLENTY, database=path), cwd=d, steps=steps, **kw)
        ctx.check(os.path.exists(path) and run.steps, f'the search ended with {run.code}', err=run.err[-1500:], args=run.args)
        return run, rows_of(path)


def configuration(rng):
    n = rng.choice((3, 4, 4, 4, 4, 5))
    r = rng.choice((0, 1, 1, 1, 2) if n >= 4 else (0, 1))
    p = rng.choice((2, 2, 3, 5, 7))
    boot = rng.choice((1, 2, 3, 4) if n == 3 else (1, 2, 3) if n == 4 and r != 2 else (1, 2) if n == 4 else (1,))
    return dict(n=n, r=r, p=p, bootstrap_length=boot, step_size=rng.choice((1, 1, 1, 1, 2) if n < 5 else (1,)),
                bucket_size=rng.choice((1, 5, 20, 100, 3000)), use_best=rng.choice((0, 1, 10, 40, 120, 120)) if n < 5 else rng.choice((3, 20)),
                seed=rng.randint(0, 10**6), stop_at_projlen_1=rng.random() < 0.5)


@SUITE.scenario('any', quick=48, thorough=800, timeout=300)
def any_configuration(ctx, rng, i):
    conf = configuration(rng)
    steps = rng.choice((2, 4, 9)) if conf['n'] < 5 else 3
    judge(ctx, conf, *play(ctx, conf, steps), steps)


# Searches known to end with elements of considerable length.
DEEP = [
    (dict(n=4, r=1, p=2, bootstrap_length=3, bucket_size=10, use_best=100), 12),
    (dict(n=4, r=1, p=2, bootstrap_length=3, bucket_size=100000, use_best=100), 12),
    (dict(n=4, r=1, p=2, bootstrap_length=2, bucket_size=100000, use_best=40, step_size=2), 12),
    (dict(n=5, r=1, p=2, bootstrap_length=1, bucket_size=10, use_best=30), 14),
    (dict(n=4, r=1, p=2, bootstrap_length=3, bucket_size=1000, use_best=60, seed=5), 14),
    (dict(n=4, r=1, p=2, bootstrap_length=1, bucket_size=30, use_best=60, step_size=1, seed=9), 14),
    (dict(n=4, r=2, p=3, bootstrap_length=1, bucket_size=300, use_best=300), 6),
    (dict(n=4, r=1, p=3, bootstrap_length=3, bucket_size=25, use_best=120), 30),
    (dict(n=5, r=1, p=3, bootstrap_length=1, bucket_size=20, use_best=60), 30),
    (dict(n=6, r=3, p=5, bootstrap_length=1, bucket_size=50, use_best=5), 2),
    (dict(n=6, r=1, p=2, bootstrap_length=1, bucket_size=10, use_best=20), 10),
    (dict(n=5, r=2, p=2, bootstrap_length=1, bucket_size=10, use_best=20), 30),
]


@SUITE.scenario('deep', quick=8, thorough=4 * len(DEEP), timeout=600)
def deep(ctx, rng, i):
    conf, steps = DEEP[i % len(DEEP)]
    conf = dict(conf, stop_at_projlen_1=(i // len(DEEP)) % 2 == 0)
    if i >= len(DEEP):
        conf['seed'] = rng.randint(0, 10**6)
    judge(ctx, conf, *play(ctx, conf, steps, limit=300), steps)


@SUITE.scenario('far', quick=6, thorough=60, timeout=600)
def far(ctx, rng, i):
    """Small searches which go on for many lengths."""
    n = rng.choice((3, 3, 4))
    conf = dict(n=n, r=rng.choice((0, 0, 1)) if n == 3 else 0, p=rng.choice((2, 3, 5)), bootstrap_length=1, bucket_size=rng.choice((2, 6, 20)), use_best=rng.choice((3, 10, 30)),
                seed=rng.randint(0, 10**6), stop_at_projlen_1=False)
    steps = rng.choice((60, 90))
    judge(ctx, conf, *play(ctx, conf, steps, limit=300), steps)
    ctx.hit('far')


@SUITE.scenario('plain', quick=4, thorough=16, timeout=300)
def plain(ctx, rng, i):
    """Exactly as a user starts it, without a database."""
    conf = dict(n=4, r=rng.choice((0, 1, 2)), p=2, bootstrap_length=rng.choice((2, 3)), bucket_size=100000, use_best=rng.choice((50, 100)),
                stop_at_projlen_1=True, seed=i)
    with Scratch() as d:
        ctx.describe(conf=conf)
        run = Run(arguments(**conf), cwd=d, steps=12, plain=True)
        ctx.check(run.steps and os.listdir(d) == [], f'ended with {run.code} and left {os.listdir(d)}', err=run.err[-800:])
        reported = [valid(ctx, conf, line) for s in run.steps for line in s['near']]
        ctx.check(all(not s['near'] for s in run.steps[:-1]), 'went on after printing elements')
        ctx.check(run.cut or (run.steps[-1]['near'] and run.code == 0), f'ended ({run.code}) without reporting any', err=run.err[-800:])
        ctx.check(not (run.cut and run.steps[-1]['near']), 'did not halt')
        ctx.hit('runs')
        ctx.hit('plain runs')
        if reported:
            ctx.distinct((tuple(run.args), len(run.steps)))


@SUITE.scenario('to the end', quick=0, thorough=4, timeout=900)
def to_the_end(ctx, rng, i):
    conf = dict(n=3, r=1, p=(2, 3, 5, 7)[i], bootstrap_length=2, bucket_size=4, use_best=3, stop_at_projlen_1=True)
    judge(ctx, conf, *play(ctx, conf, None, limit=800), None)
    ctx.hit('to the end')
