import os
import sqlite3

from ..core import Suite
from ..lib import *
from ..script import *
from .c26 import configuration, play

SUITE = Suite('C27',
    'The search script run as a program over random command lines (3 to 5 strands, 2-row representations, primes, bootstrap lengths, steps of 1 to 3, bucket sizes, use and save limits chosen at, just below and just above cumulative bucket counts, zero limits). A run told to save everything is replayed against a model: every row is read back and evaluated exactly, the buckets of each length must be those offered, full up to the bucket size, and the numbers printed must be those selected; the braids offered next are the extensions of those the model selects. A twin run with a save limit must save exactly the selected buckets of it. Databases with earlier rows, relative paths, other tables. Limits of thousands at and below exact counts; searches of fifty steps and of hundreds. Non-trivial: at least two steps with rows.',
    assumptions=['Equal arguments give equal searches (C28).', 'Without an end in sight a run is ended after a number of steps.'],
    require={'runs': 60, 'steps': 200, 'rows': 8000, 'use limit cut': 40, 'save limit cut': 25, 'exact limit': 10, 'overflowed': 20, 'long steps': 20, 'earlier rows': 8, 'thousands': 5, 'far': 3, 'very far': 2})


def judge(ctx, conf, run, rows):
    """All complete steps of a run that saved everything.  Returns what was held at each length."""
    ctx.check(run.steps, 'no step was made', err=run.err[-600:], args=run.args)
    out, total = [], 0
    for s, model, held, near in followed(ctx, conf, run, rows):
        counts = {pl: len(x) for pl, x in held.items()}
        moved = prefix(counts, conf['use_best'])
        K = sum(counts[pl] for pl in moved)
        ctx.eq(s['selected'], (K, s['length']), 'braids printed as selected', counts=counts, limit=conf['use_best'])
        ctx.eq(s['saving'], (sum(counts.values()), s['length']), 'braids printed as saved', counts=counts)
        ctx.check(s['saved'], 'saving was not reported complete')
        if len(moved) < len(counts):
            ctx.hit('use limit cut')
        if K == conf['use_best'] and len(moved) < len(counts):
            ctx.hit('exact limit')
        if any(len(x) > model.size for x in model.by_projlen(s['length']).values()):
            ctx.hit('overflowed')
        if conf['step_size'] > 1:
            ctx.hit('long steps')
        out.append((s['length'], held))
        total += sum(counts.values())
    if run.cut:
        ctx.eq(len(batches(rows)) <= len(run.steps), True, 'more lengths saved than steps made')
    ctx.hit('runs')
    if sum(1 for _, h in out if h) >= 2:
        ctx.distinct((tuple(run.args), len(run.steps)))
        ctx.sample(args=' '.join(run.args[:-2]), steps=len(run.steps), rows=total)
    return out


def limits(rng, counts):
    """A limit around a cumulative count."""
    total, sums = 0, []
    for pl in sorted(counts):
        total += counts[pl]
        sums.append(total)
    return max(0, rng.choice(sums) + rng.choice((0, 0, 0, 1, -1))) if sums else rng.randint(0, 5)


def plan(rng, ctx):
    conf = configuration(rng)
    conf['step_size'] = rng.choice((1, 1, 2, 3) if conf['n'] == 3 else (1, 1, 1, 2) if conf['n'] == 4 else (1,))
    if conf['step_size'] > 1 and conf['n'] == 4:
        conf['use_best'] = min(conf['use_best'], 40)
    # Aim the limit at the counts of the first step, known beforehand.
    model = Model(**conf)
    first = {pl: min(len(x), model.size) for pl, x in model.by_projlen(model.next).items()}
    if rng.random() < 0.6 and first:
        limit = limits(rng, first)
        if limit <= (150 if conf['n'] < 5 else 25):
            conf['use_best'] = limit
    return conf


@SUITE.scenario('replayed', quick=72, thorough=600, timeout=300)
def replayed(ctx, rng, i):
    conf = plan(rng, ctx)
    steps = rng.choice((2, 3, 6)) if conf['n'] < 5 else 2
    judge(ctx, conf, *play(ctx, conf, steps))


@SUITE.scenario('thousands', quick=6, thorough=60, timeout=300)
def thousands(ctx, rng, i):
    """Limits of a thousand and more, at exactly what a number of buckets holds, and one less."""
    n, r, p, boot = rng.choice(((3, 1, 2, 10), (3, 1, 5, 10), (3, 1, 3, 11), (4, 1, 3, 3), (4, 2, 2, 3), (4, 1, 2, 4), (3, 0, 5, 10)))
    conf = dict(n=n, r=r, p=p, bootstrap_length=boot, step_size=1, bucket_size=rng.choice((3000, 3000, 400)), seed=rng.randint(0, 99))
    model = Model(**conf)
    counts = {pl: min(len(x), model.size) for pl, x in model.by_projlen(boot).items()}
    sums = [sum(counts[x] for x in sorted(counts)[:k + 1]) for k in range(len(counts))]
    most = 2500 if n == 3 else 1200
    sums = [x for x in sums if 1000 <= x <= most] or [x for x in sums if x <= most][-3:] or [5]
    conf['use_best'] = rng.choice(sums) - (i % 3 == 2)
    limit = rng.choice(sums) - (i % 3 == 1)
    run, rows = play(ctx, conf, 2)
    judge(ctx, conf, run, rows)
    with Scratch() as d:
        twin = Run(arguments(**conf, save_best=limit, database='sub.db'), cwd=d, steps=1)
        got = rows_of(os.path.join(d, 'sub.db'))
    keep = prefix(counts, limit)
    ctx.eq(sum(1 for row in got if row[4] == boot), sum(counts[pl] for pl in keep), f'rows saved with the limit {limit}', err=twin.err[-500:])
    ctx.hit('thousands')


@SUITE.scenario('far', quick=4, thorough=60, timeout=600)
def far(ctx, rng, i):
    """Some fifty steps, to great lengths and projective lengths."""
    conf = dict(n=3, step_size=1, r=rng.choice((1, 1, 1, 0)), p=rng.choice((2, 3, 5, 7)), bootstrap_length=rng.choice((1, 3)), bucket_size=rng.choice((2, 5)),
                use_best=rng.choice((6, 12, 60)), seed=rng.randint(0, 999))
    if i % 4 == 3:
        conf.update(n=4, r=rng.choice((1, 2)), bucket_size=2, use_best=6)
    steps = 55 if conf['n'] == 3 else 25
    if ctx.thorough:
        steps *= rng.choice((1, 2, 4))
    run, rows = play(ctx, conf, steps, limit=300)
    judge(ctx, conf, run, rows)
    if len(run.steps) > 24:
        ctx.hit('far')


@SUITE.scenario('very far', quick=3, thorough=24, timeout=600)
def very_far(ctx, rng, i):
    """Hundreds of steps, with few braids."""
    conf = dict(n=3, step_size=1, r=(1, 0, 1)[i % 3], p=rng.choice((2, 3, 5, 7)), bootstrap_length=rng.choice((1, 2)), bucket_size=rng.choice((1, 2)), use_best=rng.choice((2, 4)), seed=rng.randint(0, 999))
    run, rows = play(ctx, conf, 290 if i % 3 else 480, limit=400)
    judge(ctx, conf, run, rows)
    ctx.hit('very far', len(run.steps) > 250)


@SUITE.scenario('save limit', quick=56, thorough=300, timeout=300)
def save_limit(ctx, rng, i):
    conf = plan(rng, ctx)
    steps = rng.choice((2, 4))
    run, rows = play(ctx, conf, steps)
    held = judge(ctx, conf, run, rows)
    counts = [(l, {pl: len(x) for pl, x in h.items()}) for l, h in held]
    some = [c for _, c in counts if c]
    limit = limits(rng, rng.choice(some)) if some else 3
    with Scratch() as d:
        ctx.describe(conf=conf, save_best=limit)
        twin = Run(arguments(**conf, save_best=limit, database='sub.db'), cwd=d, steps=steps)
        ctx.check(sorted(f for f in os.listdir(d) if not f.startswith('sub.db-')) == ['sub.db'], f'left {os.listdir(d)}', err=twin.err[-600:])
        got = rows_of(os.path.join(d, 'sub.db'))
    keep = {l: prefix(c, limit) for l, c in counts}
    want = [row for row in rows if row[5] in keep[row[4]]]
    ctx.eq([row[1:] for row in sorted(got)], [row[1:] for row in want], f'rows saved with the limit {limit}', counts=counts)
    ctx.eq([(s['length'], s['selected'], s['near']) for s in twin.steps], [(s['length'], s['selected'], s['near']) for s in run.steps], 'steps with another save limit')
    ctx.eq([s['saving'] for s in twin.steps], [(sum(c[pl] for pl in keep[l]), l) for l, c in counts], 'braids printed as saved', limit=limit)
    for l, c in counts:
        if len(keep[l]) < len(c):
            ctx.hit('save limit cut')
        if sum(c[pl] for pl in keep[l]) == limit and len(keep[l]) < len(c):
            ctx.hit('exact limit')


@SUITE.scenario('earlier rows', quick=10, thorough=100, timeout=300)
def earlier_rows(ctx, rng, i):
    """Rows and tables already in the database stay, whatever they are."""
    conf = plan(rng, ctx)
    with Scratch() as d:
        path = os.path.join(d, 'x.db')
        before = []
        ctx.describe(conf=conf)
        if rng.random() < 0.7:
            conn = sqlite3.connect(path)
            if rng.random() < 0.5:
                conn.execute('PRAGMA journal_mode = DELETE')
            conn.execute('CREATE TABLE good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
            conn.execute('CREATE TABLE other (a, b)')
            conn.execute('INSERT INTO other VALUES (1, 2)')
            before = [(rng.choice((conf['n'], 4)), rng.choice((conf['r'], 1)), rng.choice((conf['p'], 2)), rng.randint(1, 9), rng.randint(1, 9),
                       rng.choice(('', '(4, 0, (3, 5))', 'text'))) for _ in range(rng.choice((1, 7, 300)))]
            conn.executemany('INSERT INTO good_braids VALUES (?, ?, ?, ?, ?, ?)', before)
            conn.commit()
            conn.close()
        else:
            first = Run(arguments(**dict(conf, seed=77), save_best=rng.choice((5, 500)), database='x.db'), cwd=d, steps=1)
            before = [row[1:] for row in rows_of(path)]
        run = Run(arguments(**conf, save_best=PLENTY, database='x.db'), cwd=d, steps=3 if conf['n'] < 5 else 2)
        rows = rows_of(path)
        conn = sqlite3.connect(path)
        ctx.eq(conn.execute('PRAGMA integrity_check').fetchall(), [('ok',)], 'integrity')
        tables = {name for name, in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'")}
        ctx.check(tables <= {'good_braids', 'other'}, 'other tables', tables=tables)
        if 'other' in tables:
            ctx.eq(conn.execute('SELECT * FROM other').fetchall(), [(1, 2)], 'rows of another table')
        conn.close()
        ctx.eq([row[1:] for row in rows[:len(before)]], before, 'rows that were there before')
        judge(ctx, conf, run, rows[len(before):])
        ctx.hit('earlier rows')


@SUITE.scenario('defaults', quick=4, thorough=16, timeout=300)
def defaults(ctx, rng, i):
    """Every option left alone: the documented defaults, which cut the saving from some step on."""
    n, r, p = 3, (1, 1, 0)[i % 3], (2, 3, 5, 7)[i % 4]
    with Scratch() as d:
        ctx.describe(n=n, r=r, p=p)
        run = Run([str(n), str(r), str(p), '--database', 'x.db'], cwd=d, steps=4 if i < 8 else 6)
        ctx.check(run.steps, f'ended with {run.code}', err=run.err[-800:])
        rows = dict(batches(rows_of(os.path.join(d, 'x.db'))))
    model = Model(n, r, p)
    for s in run.steps:
        l = model.next
        ctx.eq(s['length'], l, 'the step of another length')
        offers = model.by_projlen(l)
        counts = {pl: min(3000, len(x)) for pl, x in offers.items()}
        saved = prefix(counts, 500)
        held = held_of(ctx, rows.get(l, ()), n, r, p, l)
        ctx.eq({pl: sorted(x) for pl, x in held.items()}, {pl: sorted(offers[pl]) for pl in saved}, f'braids of length {l} saved')
        ctx.eq(s['selected'], (sum(counts[pl] for pl in prefix(counts, 50000)), l), 'braids printed as selected')
        model.step({pl: list(x) for pl, x in offers.items()})
        ctx.hit('steps')
    ctx.hit('runs')
    ctx.hit('defaults')
    ctx.distinct((n, r, p, len(run.steps)))
