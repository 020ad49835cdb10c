import gc
import random
import sys
import threading

import numpy as np

from peyl import GNF, DGNF, BraidGroup, JonesCellRep, JonesSummand, SymmetricGroup, braidsearch, bucketing
from peyl.jonesrep import LKBRep
from peyl.lpoly import LPoly

from ..core import Suite
from ..ops import *
from ..remote import Remote

SUITE = Suite('C30',
    'A catalogue of about 75 operations over typed values covers every module. Pools: values generated once are used again and again as inputs of random operations, results joining the pool, and after each operation every value of the pool (and every argument list) is compared with the snapshot taken when it arrived. Histories: requests are answered once, then again shuffled between other work, with cached and with new representations, and all answers to a request must agree. Threads: several threads answer the same requests in different orders with a tiny switch interval. Processes: a long-lived process with another hash seed, fresh processes answering in another order, and fresh processes answering from several threads at once. Several arguments of one request may be the same object. Non-trivial: a request answered at least twice.',
    assumptions=['Objects that the library returns from its own caches are not modified by the caller.'],
    require={'operations on a pool': 2500, 'snapshots compared': 30000, 'answers in histories': 3000, 'answers in threads': 1500, 'answers in another process': 300, 'answers in fresh processes': 80, 'answers in fresh threads': 100, 'short-lived objects': 300, 'operations used': 60, 'shared arguments': 300})


@SUITE.scenario('pool', quick=64, thorough=1600)
def pool(ctx, rng, i):
    W = World(rng, spec=World.SPECS[i % len(World.SPECS)], fresh=rng.random() < .3)
    values = []                                   # (type, value, snapshot, log of origin)
    log = []

    def add(kind, x, origin):
        values.append((kind, x, freeze(x), origin))

    for kind in GEN:
        add(kind, GEN[kind](rng, W), 'given')
    # Constants that the library hands out stay what they are, too.
    for origin, x in [('gens', W.rep.artin_gens_invs()), ('polymat gens', W.rep.polymat_artin_gens_invs()), ('summand gens', W.summand.artin_gens_invs()),
                      ('id', W.summand.id()), ('polymat id', W.rep.polymat_id()), ('rep', W.rep), ('summand', W.summand)]:
        add('held', x, origin)
    for name in rng.choices(NAMES, k=60):
        inputs, output, fn = OPS[name]
        args = []
        for t in inputs:
            have = [v for v in values if v[0] == t]
            if have and rng.random() < .8:
                args.append(rng.choice(have))
            else:
                add(t, GEN[t](rng, W), 'given')
                args.append(values[-1])
        log.append((name, [a[1] for a in args]))
        ctx.describe(world=(W.n, W.r, W.p), last=log[-3:])
        small = all(len(getattr(a[1], 'factors', ())) < 24 for a in args) and all(len(a[1]) < 120 for a in args if a[0] == 'word')
        if not small or any(a[0] in ('pm', 'img', 'lifted') and (a[1].shape[-1] > 400 or np.abs(a[1]).max() > 2 ** 24) for a in args):
            continue
        result = fn(W, *(a[1] for a in args))
        first = freeze(result)
        ctx.hit('operations on a pool')
        for kind, x, snapshot, origin in values:
            ctx.check(freeze(x) == snapshot, f'{name} changed a {kind} ({origin}), which is now {short_of(x)}', args=[a[1] for a in args], before=snapshot)
        ctx.hit('snapshots compared', len(values))
        again = fn(W, *(a[1] for a in args))
        ctx.check(freeze(again) == first, f'{name} answered differently the second time', args=[a[1] for a in args], first=result, second=again)
        ctx.check(freeze(result) == first, f'{name} changed its earlier answer the second time', args=[a[1] for a in args], now=result)
        if output in GEN and fits(W, output, result):
            add(output, result, name)
        elif isinstance(result, np.ndarray) or rng.random() < .2:
            add('held', result, name)
        if len(values) > 45:
            # Forget some, so that the pool stays fresh.
            for _ in range(8):
                values.pop(rng.randrange(len(values)))
    ctx.distinct(('pool', i))
    ctx.sample(world=(W.n, W.r, W.p), operations=[name for name, _ in log][:12], values=len(values))


ALIKE = [name for name in NAMES if len(OPS[name][0]) > len(set(OPS[name][0]))]


@SUITE.scenario('shared arguments', quick=480, thorough=6000)
def shared(ctx, rng, i):
    """The same object given twice, against two equal objects."""
    name = ALIKE[i % len(ALIKE)]
    inputs, _, fn = OPS[name]
    W = World(rng)
    seeds = {t: rng.random() for t in inputs}
    make = lambda t: GEN[t](random.Random(seeds[t]), W)
    one = {t: make(t) for t in inputs}
    ctx.describe(name=name, args=one)
    together = freeze(fn(W, *(one[t] for t in inputs)))
    apart = freeze(fn(W, *(make(t) for t in inputs)))
    ctx.check(together == apart, f'{name} answers differently when given one object twice than when given two equal ones', args=one)
    ctx.hit('shared arguments')
    ctx.distinct((name, str(one)))


def short_of(x):
    from ..core import short
    return short(x, 300)


def fits(W, kind, x):
    if kind in ('gnf', 'dgnf'):
        return len(x.factors) < 24
    if kind == 'lpoly':
        return len(x.coeffs) < 30
    if kind == 'poly':
        return len(x.coeffs) < 30
    if kind == 'matrix':
        return max(abs(c) for e in x.entries() for c in (e.coeffs or (0,))) < 2 ** 30 and max(len(e.coeffs) for e in x.entries()) < 80
    if kind == 'mor':
        return all(max(map(abs, c.coeffs)) < 2 ** 40 for _, c in x.pairs())
    if kind in ('pm', 'img', 'lifted'):
        return x.any() and x.shape[-1] < 400
    return True


def requests(rng, k):
    return [(rng.choice(NAMES), rng.randrange(10 ** 9)) for _ in range(k)]


@SUITE.scenario('history', quick=32, thorough=800)
def history(ctx, rng, i):
    """The same requests in other orders, between other requests, with new or old representations."""
    wanted = requests(rng, 40)
    if i % 4 == 0:
        wanted = [(name, rng.randrange(10 ** 9)) for name in NAMES]
    first = {}
    for name, seed in wanted:
        ctx.describe(name=name, seed=seed)
        first[name, seed] = answer(name, seed)
    if i % 4 == 0:
        ctx.hit('operations used', len({name for name, _ in first}) if i == 0 else 0)
    for fresh in (False, True):
        order = wanted + requests(rng, len(wanted) // 3)
        rng.shuffle(order)
        for name, seed in order:
            ctx.describe(name=name, seed=seed, fresh=fresh, order=order)
            got = answer(name, seed, fresh=fresh)
            ctx.hit('answers in histories')
            if (name, seed) in first:
                ctx.check(got == first[name, seed], f'{name} answered differently later', args=request(name, seed)[1], first=first[name, seed], now=got)
                ctx.distinct((name, seed))


def in_threads(jobs, count, shuffle, switch=1e-6):
    """All jobs by each of several threads, in different orders, all starting at once: {job: [answers]}."""
    answers, errors = [], []
    barrier = threading.Barrier(count)

    def work(order):
        barrier.wait()
        for job in order:
            try:
                answers.append((job, answer(*job)))
            except Exception as e:
                errors.append((job, f'{type(e).__name__}: {e}'))

    orders = [jobs]
    for _ in range(count - 1):
        orders.append(shuffle(jobs))
    old = sys.getswitchinterval()
    sys.setswitchinterval(switch)
    try:
        threads = [threading.Thread(target=work, args=(o,)) for o in orders]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return answers, errors


@SUITE.scenario('threads', quick=24, thorough=500)
def threads(ctx, rng, i):
    jobs = requests(rng, 20)
    ctx.describe(jobs=jobs)
    # New representations for this case: forget the shared ones, so that their tables are filled by the threads.
    SHARED.clear()
    answers, errors = in_threads(jobs, 4, lambda js: rng.sample(js, len(js)), rng.choice((1e-6, 1e-5, 1e-4)))
    ctx.check(not errors, f'refused in threads: {errors[:2]}')
    SHARED.clear()
    for job in jobs:
        want = answer(*job)
        for j, got in answers:
            if j == job:
                ctx.check(got == want, f'{job[0]} answered differently in a thread', args=request(*job)[1], alone=want, got=got)
                ctx.hit('answers in threads')
    ctx.distinct(('threads', i))
    ctx.sample(jobs=jobs[:6])


def job_plain(rng):
    jobs = requests(rng, 12)
    rng.shuffle(jobs)
    return [[*job, printable(answer(*job))] for job in jobs]


def job_threads(rng):
    """In a fresh process: the very first uses of everything, from several threads at once."""
    # Pairs of alike requests meet in the same tables.
    jobs = requests(rng, 5)
    answers, errors = in_threads(jobs, 6, lambda js: rng.sample(js, len(js)))
    return [[*job, printable(a)] for job, a in answers] + [[*job, e] for job, e in errors]


JOBS = {'plain': job_plain, 'threads': job_threads}
REMOTE = []


@SUITE.scenario('processes', quick=32, thorough=400, workers=4)
def processes(ctx, rng, i):
    """Another process with another hash seed, which has its own history."""
    if not REMOTE:
        REMOTE.append(Remote('c30', hashseed=rng.randrange(1, 2 ** 32)))
    seed = rng.randrange(10 ** 9)
    mine = job_plain(random.Random(seed))
    theirs = REMOTE[0].call('plain', seed)
    for (name, s, a), (name2, s2, b) in zip(mine, theirs):
        ctx.check((name, s, a) == (name2, s2, b), f'{name} answered differently in another process', args=request(name, s)[1])
        ctx.hit('answers in another process')
        ctx.distinct((name, s))


@SUITE.scenario('fresh processes', quick=24, thorough=300)
def fresh(ctx, rng, i):
    seed = rng.randrange(10 ** 9)
    kind = ('threads', 'plain')[i % 3 == 0]
    with Remote('c30', hashseed=rng.randrange(1, 2 ** 32)) as remote:
        for name, s, a in remote.call(kind, seed):
            ctx.describe(name=name, seed=s, kind=kind)
            ctx.check(a == printable(answer(name, s)), f'{name} answered differently in a fresh process ({kind}): {a}', args=request(name, s)[1])
            ctx.hit('answers in fresh processes' if kind == 'plain' else 'answers in fresh threads')
            ctx.distinct((name, s))


def short_lived_families(rng):
    """Families of objects given by parameters, and what to ask of each: {name: (parameters, make, ask)}."""
    n = rng.choice((3, 3, 4))
    words = [[(rng.randrange(n - 1), rng.choice((1, 1, 2, -1))) for _ in range(rng.randint(1, 6))] for _ in range(3)]

    def ask_rep(rep):
        out = []
        for w in words:
            for cls in (GNF, DGNF):
                b = cls.from_artin_word(rep.n, [l for l in w if l[0] < rep.n - 1])
                out += [freeze(rep.polymat_evaluate_braid(b)), freeze(rep.polymat_evaluate(b)), freeze(rep.evaluate(b))]
                out.append(freeze(rep.polymat_evaluate_braid_integers_of_same_length(cls, [b.factors, b.factors])))
        return out + [freeze(rep.artin_gens_invs()), freeze(rep.polymat_artin_gens_invs()), freeze(rep.polymat_id())]

    def ask_group(G):
        return [freeze(x) for x in ((G.id(), G.longest_element(), G.cox_gens(), G.reflections()) if isinstance(G, SymmetricGroup) else (G.id(), G.gens(), G.invs(), G.bkl_gens()))]

    def ask_tracker(T):
        cls = rng_cls
        T.bootstrap_exhaustive(cls, 1)
        for tag in list(T.buckets)[:3]:
            T.nf_descendants(tag, 1)
        return [[tag, [freeze(b) for b in T.bucket_braids_images(tag)[0]], freeze(np.array(T.bucket_braids_images(tag)[1]))] for tag in sorted(T.buckets)]

    def ask_search(T):
        T.bootstrap_exhaustive(1)
        for tag in list(T.buckets if hasattr(T, 'buckets') else T.bucket_braids)[:3]:
            T.nf_descendants(tag, 1)
        return [[tag, [freeze(b) for b in T.bucket_braids_images(tag)[0]], freeze(np.array(T.bucket_braids_images(tag)[1]))] for tag in sorted(T.bucket_braids)]
    rng_cls = rng.choice((GNF, DGNF))
    p = lambda: rng.choice((0, 2, 3, 5, 101))
    unit = lambda: LPoly(rng.randint(-2, 3), (rng.choice((1, -1)),))
    return {
        'LKBRep': ([(n, p(), unit(), unit()) for _ in range(5)], lambda a: LKBRep(*a), ask_rep),
        'JonesCellRep': ([(m, rng.randint(1, m // 2), p()) for m in rng.choices((n, 2, 4), k=5)], lambda a: JonesCellRep(*a), ask_rep),
        'groups': ([(c, rng.randint(2, 5)) for c in rng.choices((SymmetricGroup, BraidGroup), k=6)], lambda a: a[0](a[1]), ask_group),
        'weighted trackers': ([(n, rng.choice((0, 1)), p()) for _ in range(4)],
                     lambda a: bucketing.Tracker(JonesCellRep(*a), 400, [bucketing.Stats.CanonicalLength, bucketing.Stats.ProjectiveLength], [], 'GreedyFirst'), ask_tracker),
        'trackers': ([(3, rng.choice((0, 1)), rng.choice((2, 3, 5, 101))) for _ in range(4)],
                     lambda a: braidsearch.Tracker(JonesSummand(*a), 400, ('length', 'projlen'), lambda stats: stats['length'] >= 0), ask_search),
    }


@SUITE.scenario('short-lived', quick=48, thorough=800)
def short_lived(ctx, rng, i):
    """Objects which are dropped after use, so that the next one may take their place in memory, against objects which are all kept."""
    families = short_lived_families(rng)
    for name in sorted(families)[i % 2::2] if i % 3 else families:
        parameters, make, ask = families[name]
        ctx.describe(name=name, parameters=parameters)
        first = []
        for a in parameters:
            x = make(a)
            first.append(ask(x))
            del x
            gc.collect()
        kept = [make(a) for a in parameters]
        order = list(range(len(kept)))
        rng.shuffle(order)
        for k in order:
            ctx.check(ask(kept[k]) == first[k], f'{name}: another answer when other objects are alive', parameters=parameters[k])
            ctx.hit('short-lived objects')
        ctx.distinct((name, str(parameters)))
