import collections
import math

import numpy as np

from peyl import braidsearch as S
from peyl import bucketing as B
from peyl.jonesrep import JonesCellRep

from ..core import Suite
from ..lib import *
from ..tracks import LONG_SPECS, canon, fits, long_batch, oracle
from .c04 import count_forms, forms
from .c20 import World
from .c23 import CRITERIA, SWorld

SUITE = Suite('C22',
    'With room for everything: bootstraps of both trackers (both kinds, 2..5 strands, up to 50,000 braids so that internal chunks are crossed, several criteria) against all normal forms produced from the left-weighted condition; sequences of expansions of many buckets by 1..4 factors, repeated and interleaved so that caches and groupings are reused, against the model multiset of descendants, bucket by bucket. Substring expansions of buckets of braids of up to nine factors against the model set of proper substrings. Also breadth-first expansion, level by level, must equal the bootstrap. Products of buckets, with themselves too and of up to a hundred braids, are compared with all products of members; trackers hold both normal forms at once; buckets of thousands are expanded, multiplied (up to 11,449 pairs), and their substrings taken. Non-trivial: at least ten braids offered.',
    assumptions=['Left-weightedness of adjacent factors characterises normal forms.', 'Braids are filed by true statistics (C20, C23).'],
    require={'bootstraps': 60, 'expansions': 400, 'braids': 20000, 'cached': 100, 'repeated': 60, 'levels': 10, 'big expansions': 6, 'large': 2, 'mixed last factors': 100, 'substrings': 60, 'big substrings': 3, 'products': 80, 'large products': 12, 'squares of buckets': 30, 'long expansions': 60, 'big products': 2, 'descendants of thousands': 2})

PLENTY = 2500


def contents(T):
    return {tag: [canon(b) for b in T.bucket_braids_images(tag)[0]] for tag in (T.buckets)}


def compare_multisets(ctx, w, what):
    """Weighted tracker: everything offered, as often as it was offered."""
    have = contents(w.T)
    ctx.check(set(have) == set(w.offers), f'{what}: buckets', missing=set(w.offers) - set(have), extra=set(have) - set(w.offers), log=w.log)
    for tag, offers in w.offers.items():
        a, b = collections.Counter(have[tag]), collections.Counter(offers)
        ctx.check(a == b, f'{what}: bucket {tag}: missing {list((b - a))[:2]}, extra {list((a - b))[:2]}', log=w.log)
        ctx.hit('braids', len(offers))


def compare_sets(ctx, w, what):
    """Search tracker: everything accepted, once."""
    have = contents(w.T)
    ctx.check(set(have) == set(w.accepted), f'{what}: buckets', missing=set(w.accepted) - set(have), extra=set(have) - set(w.accepted), log=w.log)
    for tag, offers in w.accepted.items():
        a, b = collections.Counter(have[tag]), collections.Counter(set(offers))
        ctx.check(a == b, f'{what}: bucket {tag}: missing {list((b - a))[:2]}, extra {list((a - b))[:2]}', log=w.log)
        ctx.hit('braids', len(a))


BOOT = [(kind, n, l) for kind in ('GNF', 'DGNF', 'search') for n, l in ((3, 1), (3, 2), (3, 4), (3, 6), (4, 1), (4, 2), (4, 3), (5, 1))
        if not (kind == 'DGNF' and (n, l) == (4, 3)) or True]


@SUITE.scenario('bootstrap', quick=3 * len(BOOT), thorough=30 * len(BOOT))
def bootstrap(ctx, rng, i):
    kind, n, upto = BOOT[i % len(BOOT)]
    r = rng.randint(0, n // 2)
    p = rng.choice((0, 2, 3, 7))
    spec = (n, r, p)
    if kind == 'search':
        w = SWorld(rng, spec=spec, size=PLENTY)
        w.bootstrap(rng, ctx, upto)
        compare_sets(ctx, w, 'bootstrap')
        total = sum(len(set(v)) for v in w.accepted.values())
    else:
        w = World(rng, spec=spec, capacity=PLENTY, kind=kind)
        w.bootstrap(rng, upto)
        compare_multisets(ctx, w, 'bootstrap')
        total = sum(map(len, w.offers.values()))
        ctx.eq(total, sum(count_forms(kind, n, l) for l in range(1, upto + 1)), 'number of braids')
    ctx.hit('bootstraps')
    if total >= 10:
        ctx.distinct((kind, n, upto, r, p, i))
        ctx.sample(kind=kind, n=n, upto=upto, r=r, p=p, braids=total)


# More braids of one length than the chunks of 10,000 and 1,000 used inside.
LARGE = (('DGNF', 4, 6), ('search', 4, 5), ('GNF', 4, 5), ('DGNF', 3, 14), ('GNF', 3, 13), ('search', 3, 13))


@SUITE.scenario('large', quick=3, thorough=6, timeout=600)
def large(ctx, rng, i):
    kind, n, upto = LARGE[i]
    braid_kind = 'GNF' if kind == 'search' else kind
    want = {l: count_forms(braid_kind, n, l) for l in range(1, upto + 1)}
    ctx.describe(kind=kind, n=n, upto=upto, want=want)
    size = max(want.values()) + 10
    spec = (n, 1, 2)
    rep = JonesCellRep(*spec)
    if kind == 'search':
        T = S.Tracker(S.JonesSummand(*spec), size, ('length', 'projlen'), CRITERIA['everything'])
        T.bootstrap_exhaustive(upto)
    else:
        T = B.Tracker(rep, size, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [])
        T.bootstrap_exhaustive(KINDS[kind], upto)
    seen = collections.Counter()
    for tag in T.buckets:
        braids = T.bucket_braids_images(tag)[0]
        for b in braids:
            ctx.check(b.canonical_length() == tag[0] and b.inf() == 0, 'in the wrong bucket', tag=tag)
        seen.update((b.canonical_length(), b.factors) for b in braids)
    have = collections.Counter(l for l, _ in seen)
    ctx.check(max(seen.values()) == 1 and dict(have) == want, f'numbers of distinct braids by length {dict(have)}', want=want)
    ctx.hit('large')
    ctx.distinct((kind, n, upto))


@SUITE.scenario('expansions', quick=480, thorough=8000)
def expansions(ctx, rng, i):
    """The weighted tracker: buckets of mixed last factors, lengths interleaved, repeated."""
    n, r, p = rng.choice(((3, 1, 0), (3, 1, 2), (4, 1, 2), (4, 2, 0), (4, 0, 0), (5, 1, 2)))
    kind = rng.choice(('GNF', 'DGNF', 'GNF', 'DGNF', 'both'))
    w = World(rng, spec=(n, r, p), capacity=PLENTY, kind=kind)
    braids = w.random_braids(rng, rng.choice((1, 4, 12)), rng.choice((0, 1, 1, 2, None)))
    w.add(rng, braids)
    ctx.describe(n=n, r=r, p=p, kind=kind, log=w.log)
    done = set()
    for _ in range(rng.choice((1, 2, 4)) if n < 5 else 1):
        tags = [t for t in w.T.buckets if len(w.offers.get(t, ())) <= 12]
        if not tags:
            break
        tag = rng.choice(tags)
        length = rng.choice((1, 1, 2, 3) if n == 3 else (1, 1, 2) if kind == 'DGNF' and n == 4 else (1, 1, 1, 2) if n == 4 and len(w.offers[tag]) < 4 else (1,))
        if sum(map(len, w.offers.values())) > 800:
            length = 1
        lasts = {(c[0], c[2][-1:]) for c in w.offers[tag]}
        if len(lasts) > 1:
            ctx.hit('mixed last factors')
        if any((length, x) in done for x in lasts):
            ctx.hit('cached')
        if (tag, length) in done:
            ctx.hit('repeated')
        done |= {(length, x) for x in lasts} | {(tag, length)}
        w.expand(rng, tag, length)
        ctx.hit('expansions')
        compare_multisets(ctx, w, 'expansion')
    ctx.distinct((i, n, kind, len(w.log)))


@SUITE.scenario('repeated', quick=80, thorough=1200)
def repeated(ctx, rng, i):
    n = rng.choice((3, 4))
    w = World(rng, spec=(n, 1, 2), capacity=PLENTY)
    w.add(rng, w.random_braids(rng, 5, rng.choice((0, 1, 2))))
    tags = list(w.T.buckets)
    ctx.describe(log=w.log)
    for _ in range(3):
        for tag in tags:
            w.expand(rng, tag, rng.choice((1, 1, 2)) if w.kind == 'DGNF' or n == 3 else 1)
            ctx.hit('repeated')
            ctx.hit('expansions')
    compare_multisets(ctx, w, 'repeated expansions')


@SUITE.scenario('search expansions', quick=480, thorough=8000)
def search_expansions(ctx, rng, i):
    n, r, p = rng.choice(((3, 1, 0), (3, 1, 2), (4, 1, 2), (4, 2, 0), (4, 0, 0), (5, 1, 2)))
    w = SWorld(rng, spec=(n, r, p), size=PLENTY, rand=rng.choice(('none', random.Random(5))), criterion=rng.choice(('everything', 'everything', 'short', 'terms')))
    w.add(rng, ctx, w.random_braids(rng, rng.choice((1, 4, 12)), rng.choice((0, 1, 1, 2, None))))
    ctx.describe(n=n, r=r, p=p, criterion=w.criterion, log=w.log)
    done = set()
    for _ in range(rng.choice((1, 2, 4)) if n < 5 else 1):
        tags = sorted(t for t in w.T.buckets if len(set(w.accepted[t])) <= 12)
        if not tags:
            break
        tag = rng.choice(tags)
        size = len(set(w.accepted[tag]))
        length = rng.choice((1, 1, 2, 3, 4) if n == 3 else (1, 1, 2, 3) if size == 1 and n == 4 else (1, 2) if n == 4 and size < 5 else (1,))
        if sum(map(len, w.accepted.values())) > 3000:
            length = 1
        if (tag, length) in done:
            ctx.hit('repeated')
        done.add((tag, length))
        w.expand(rng, ctx, tag, length)
        ctx.hit('expansions')
        compare_sets(ctx, w, 'expansion')
    ctx.distinct((i, n, 'search', len(w.log)))


@SUITE.scenario('substrings', quick=120, thorough=3000)
def substrings(ctx, rng, i):
    """All proper substrings of two or more factors, each once."""
    n, r, p = rng.choice(((3, 1, 0), (3, 1, 2), (4, 1, 2), (4, 2, 0), (4, 0, 0), (4, 1, 5)))
    w = SWorld(rng, spec=(n, r, p), size=PLENTY, rand=rng.choice(('none', random.Random(5))), criterion=rng.choice(('everything', 'everything', 'everything', 'short', 'terms')))
    w.add(rng, ctx, w.random_braids(rng, rng.choice((1, 4, 12)), rng.choice((2, 3, 4, 5, 7, 9))))
    ctx.describe(n=n, r=r, p=p, criterion=w.criterion, log=w.log)
    for _ in range(3):
        before = sum(map(len, map(set, w.accepted.values())))
        if w.substrings(rng, ctx):
            compare_sets(ctx, w, 'substrings')
            ctx.hit('substrings', sum(map(len, map(set, w.accepted.values()))) > before)
    ctx.distinct((i, n, 'substrings', len(w.log)))


@SUITE.scenario('big substrings', quick=3, thorough=30, timeout=400)
def big_substrings(ctx, rng, i):
    """Substrings of a bucket of thousands, of which every one has some of its own."""
    n, length = ((5, 3), (6, 3), (5, 4))[i % 3]
    p = rng.choice((2, 5))
    w = SWorld(rng, spec=(n, 0, p), size=8000, rand='none', criterion='everything', keys=('length', 'projlen'))
    w.add(rng, ctx, list({GNF.sample(n, length, rng): 0 for _ in range(rng.choice((4300, 6000)))}))
    ctx.describe(n=n, length=length, p=p)
    (tag,) = w.T.buckets
    before = [canon(b) for b in w.T.bucket_braids_images(tag)[0]]
    w.T.substrings(tag)
    want = {(power, seq[i:j]) for _, power, seq in before for i in range(length - 1) for j in range(i + 2, length + 1) if j - i < length}
    have = {canon(b)[1:] for t in w.T.buckets if t != tag for b in w.T.bucket_braids_images(t)[0]}
    ctx.check(have <= want, 'more than the substrings', extra=list(have - want)[:2])
    for size in range(2, length):
        a, b = ({x for x in s if len(x[1]) == size} for s in (have, want))
        ctx.check(len(a) == min(len(b), 8000), f'substrings of {size} factors: {len(a)} of {len(b)}', of=len(before), missing=list(b - a)[:2])
    ctx.check([canon(b) for b in w.T.bucket_braids_images(tag)[0]] == before, 'the bucket itself changed')
    ctx.hit('big substrings')
    ctx.distinct((i, 'big substrings', len(before)))


@SUITE.scenario('long expansions', quick=64, thorough=2400)
def long_expansions(ctx, rng, i):
    """Descendants and substrings of braids of up to 160 factors."""
    spec = LONG_SPECS[i % len(LONG_SPECS)]
    search = i // len(LONG_SPECS) % 2
    w = SWorld(rng, spec=spec, size=PLENTY, rand='none', criterion='everything') if search else World(rng, spec=spec, capacity=PLENTY)
    ctx.describe(spec=spec, log=w.log)
    w.add(rng, ctx, long_batch(rng, w.oracle, 'GNF')) if search else w.add(rng, long_batch(rng, w.oracle, w.kind))
    compare = compare_sets if search else compare_multisets
    offered = lambda: sum(map(len, (w.accepted if search else w.offers).values()))
    for _ in range(3):
        tags = [t for t in sorted(w.T.buckets) if all(fits(w.oracle, b) for b in w.T.bucket_braids_images(t)[0])]
        if not tags or offered() > 150:
            break
        tag = rng.choice(tags)
        length = rng.choice((1, 2, 3)) if spec[0] == 3 and offered() < 20 else 1
        w.expand(rng, ctx, tag, length) if search else w.expand(rng, tag, length)
        compare(ctx, w, 'long expansion')
        ctx.hit('expansions')
        ctx.hit('long expansions')


@SUITE.scenario('products', quick=80, thorough=1600)
def products(ctx, rng, i):
    """Everything in one bucket times everything in another, or in the same."""
    n, r, p = rng.choice(((3, 1, 0), (3, 1, 2), (3, 0, 2), (4, 1, 2), (4, 2, 0), (4, 0, 0), (5, 1, 2)))
    w = SWorld(rng, spec=(n, r, p), size=PLENTY, rand=rng.choice(('none', random.Random(5))), criterion=rng.choice(('everything', 'everything', 'everything', 'short', 'terms')))
    w.add(rng, ctx, w.random_braids(rng, log_size(rng, 1, 100), rng.choice((0, 1, 2, 2, 2))))
    ctx.describe(n=n, r=r, p=p, criterion=w.criterion, log=w.log)
    for _ in range(3):
        tags = sorted(t for t in w.T.buckets if len(w.T.bucket_braids_images(t)[0]) <= 60)
        if not tags or sum(map(len, w.accepted.values())) > 1500:
            break
        tags.sort(key=lambda t: len(w.T.bucket_braids_images(t)[0]))
        x = rng.choice((tags[-1], rng.choice(tags)))
        y = rng.choice((x, rng.choice(tags)))
        if x == y:
            ctx.hit('squares of buckets')
        sizes = [len(w.T.bucket_braids_images(t)[0]) for t in (x, y)]
        if max(sizes) > 20:
            ctx.hit('large products')
        w.product(rng, ctx, x, y)
        compare_sets(ctx, w, 'product')
        ctx.hit('products')
    ctx.distinct((i, n, 'products', len(w.log)))


@SUITE.scenario('big products', quick=3, thorough=30, timeout=400)
def big_products(ctx, rng, i):
    """Thousands of products at once."""
    spec, lengths = (((4, 0, 5), (1, 2)), ((5, 0, 2), (1, 1)), ((4, 0, 0), (2, 2)))[i % 3]
    w = SWorld(rng, spec=spec, size=20000, rand='none', criterion='everything', keys=('length', 'projlen'))
    for length in set(lengths):
        w.add(rng, ctx, list({GNF.sample(spec[0], length, rng): 0 for _ in range((260, 250, 90)[i % 3])}))
    x, y = (lengths[0], 1), (lengths[1], 1)
    ctx.describe(spec=spec, lengths=lengths)
    ctx.check({x, y} <= set(w.T.buckets), 'buckets of a representation of dimension one', tags=sorted(w.T.buckets))
    pairs = math.prod(len(w.T.bucket_braids_images(t)[0]) for t in (x, y))
    w.product(rng, ctx, x, y)
    compare_sets(ctx, w, f'{pairs} products')
    ctx.hit('big products', pairs > 3000)
    ctx.distinct((i, 'big products', pairs))


# Representations, and lengths whose braids are expanded; of dimension one, all braids of a length share a bucket.
BIG = ((4, 1, 2, 3), (4, 2, 3, 3), (4, 0, 0, 4), (3, 0, 2, 10), (3, 1, 2, 9), (4, 0, 5, 3))


@SUITE.scenario('big expansions', quick=9, thorough=60, timeout=400)
def big_expansions(ctx, rng, i):
    """Buckets of hundreds, whose descendants come in several chunks."""
    kind = ('search', 'GNF', 'DGNF')[i % 3]
    braid_kind = 'GNF' if kind == 'search' else kind
    *spec, top = (BIG[:2], BIG[2:4], BIG)[min(i // 3, 2)][rng.randrange((2, 2, 6)[min(i // 3, 2)])]
    n = spec[0]
    if kind == 'DGNF' and n == 4:
        top = 3
    size = max(count_forms(braid_kind, n, top + 1), count_forms(braid_kind, n, top)) + 10 if spec[1] == 0 else 6000
    ctx.describe(kind=kind, spec=spec)
    if kind == 'search':
        T = S.Tracker(S.JonesSummand(*spec), size, ('length', 'projlen'), CRITERIA['everything'])
        T.bootstrap_exhaustive(top)
    else:
        T = B.Tracker(JonesCellRep(*spec), size, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [])
        T.bootstrap_exhaustive(KINDS[kind], top)
    tags = [t for t in T.buckets if t[0] == top]
    for tag in tags:
        T.nf_descendants(tag)
    seen = collections.Counter(canon(b)[2] for tag in T.buckets if tag[0] == top + 1 for b in T.bucket_braids_images(tag)[0])
    want = set(forms(braid_kind, n, top + 1))
    ctx.check(set(seen) == want and max(seen.values()) == 1, f'descendants of all braids of length {top}', missing=len(want - set(seen)), extra=len(set(seen) - want))
    for tag in T.buckets:
        braids, images = T.bucket_braids_images(tag)
        for b in braids:
            ctx.check(len(b.factors) == tag[0], 'in the wrong bucket', tag=tag)
        for k in rng.sample(range(len(braids)), min(len(braids), 60)):
            ctx.eq(lp.of_polymat(images[k]), oracle(*spec).image(braids[k]), 'image of a descendant', b=braids[k], place=k)
    ctx.hit('big expansions')


@SUITE.scenario('descendants of thousands', quick=3, thorough=30, timeout=400)
def of_thousands(ctx, rng, i):
    """One bucket of more than a thousand braids with nontrivial images, expanded."""
    kind = ('search', 'GNF', 'DGNF')[i % 3]
    braid_kind = 'GNF' if kind == 'search' else kind
    *spec, top = rng.choice(((4, 1, 2, 4), (4, 2, 5, 4), (3, 1, 2, 11), (5, 1, 2, 2)) if braid_kind == 'GNF' else ((4, 1, 2, 4), (4, 2, 3, 4)))
    ctx.describe(kind=kind, spec=spec, top=top)
    size = 20000
    if kind == 'search':
        T = S.Tracker(S.JonesSummand(*spec), size, ('length', 'projlen'), CRITERIA['everything'])
        T.bootstrap_exhaustive(top)
    else:
        T = B.Tracker(JonesCellRep(*spec), size, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [])
        T.bootstrap_exhaustive(KINDS[kind], top)
    tag = max((t for t in T.buckets if t[0] == top), key=lambda t: len(T.bucket_braids_images(t)[0]))
    before = [canon(b) for b in T.bucket_braids_images(tag)[0]]
    T.nf_descendants(tag)
    want = {seq + more for _, _, seq in before for more in forms(braid_kind, spec[0], 1, seq[-1])}
    seen = collections.Counter(canon(b)[2] for t in T.buckets if t[0] == top + 1 for b in T.bucket_braids_images(t)[0])
    ctx.check(set(seen) == want and max(seen.values()) == 1, f'descendants of {len(before)} braids', missing=len(want - set(seen)), extra=len(set(seen) - want))
    o = oracle(*spec)
    for t in sorted(T.buckets):
        if t[0] > top:
            braids, images = T.bucket_braids_images(t)
            for k in rng.sample(range(len(braids)), min(len(braids), 40)):
                ctx.eq(lp.of_polymat(images[k]), o.image(braids[k]), 'image of a descendant', b=braids[k], tag=t, place=k)
                ctx.eq(t[1], o.projlen(braids[k]), 'bucket of a descendant', b=braids[k])
    ctx.hit('descendants of thousands', len(before) > 1000)
    ctx.distinct((kind, *spec, top, len(before)))


@SUITE.scenario('levels', quick=16, thorough=160)
def levels(ctx, rng, i):
    """Expanding every bucket of a length, starting from length one, must give what a bootstrap gives."""
    kind, n, upto, step = rng.choice((('GNF', 3, 5, 1), ('GNF', 3, 5, 2), ('DGNF', 3, 6, 1), ('DGNF', 4, 3, 1), ('GNF', 4, 2, 1), ('DGNF', 3, 5, 2), ('search', 3, 5, 1), ('search', 4, 2, 1), ('search', 3, 5, 2), ('search', 3, 5, 4)))
    spec = (n, rng.randint(0, n // 2), rng.choice((0, 2, 5)))
    ctx.describe(kind=kind, upto=upto, step=step, spec=spec)
    if kind == 'search':
        T = S.Tracker(S.JonesSummand(*spec), PLENTY, ('length', 'projlen'), CRITERIA['everything'])
        T.bootstrap_exhaustive(1)
        for length in range(1, upto, step):
            for tag in sorted(t for t in T.buckets if t[0] == length):
                T.nf_descendants(tag, step)
        want = {seq for l in range(1, upto + 1) for seq in forms('GNF', n, l)}
    else:
        T = B.Tracker(JonesCellRep(*spec), PLENTY, [B.Stats.CanonicalLength, B.Stats.ProjectiveLength], [])
        T.bootstrap_exhaustive(KINDS[kind], 1)
        for length in range(1, upto, step):
            for tag in [t for t in T.buckets if t[0] == length]:
                T.nf_descendants(tag, step)
        want = {seq for l in range(1, upto + 1, step) for seq in forms(kind, n, l)}
    seen = collections.Counter(canon(b)[2] for tag in T.buckets for b in T.bucket_braids_images(tag)[0])
    ctx.check(max(seen.values()) == 1, 'a braid twice')
    ctx.check(set(seen) >= {s for s in want if len(s) <= upto} and all(len(s) > upto or s in want for s in seen), 'levels differ from all normal forms', missing=len(want - set(seen)), extra=[s for s in seen if s not in want][:2])
    ctx.hit('levels')
