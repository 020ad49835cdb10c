"""Running search.py as a user does, reading back what it prints and saves, and predicting it."""
import ast
import collections
import functools
import os
import re
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time

from .core import REPO, Inconclusive
from .lib import *
from .model import jones

# Without the one second of sleep.
LAUNCH = ('import sys, time, runpy; time.sleep = lambda s: None; sys.argv = sys.argv[1:]; '
          'sys.path[0] = {path!r}; {extra}; runpy.run_path(sys.argv[0], run_name="__main__")')

# Ends the process itself at the header after so many steps, so that nothing is done beyond them however busy the machine is.
CUT = '''
def _cut(limit):
    import os, re, sys
    out, state = sys.stdout, ['', 0]
    write = out.write
    def cutting(text):
        answer = write(text)
        *lines, state[0] = (state[0] + text).split('\\n')
        state[1] += sum(1 for line in lines if re.match(r'^-+ Length (-?\\d+)\\s*$', line))
        if state[1] > limit:
            out.flush()
            os.kill(os.getpid(), 9)
        return answer
    out.write = cutting
_cut(%d)
'''

HEADER = re.compile(r'^-+ Length (-?\d+)\s*$')
SELECTED = re.compile(r'^Selected ([\d,]+) braids of length (-?\d+)')
SAVING = re.compile(r'^Saving ([\d,]+) braids of length (-?\d+)')
NEAR = re.compile(r'^\(n=(\d+), r=(\d+), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form (.*)$')

Step = collections.namedtuple('Step', 'length selected saving saved near')


def arguments(n, r, p, **options):
    out = [str(n), str(r), str(p)]
    for k, v in options.items():
        if v is True:
            out.append('--' + k.replace('_', '-'))
        elif v is not None and v is not False:
            out += ['--' + k.replace('_', '-'), str(v)]
    return out


def environment(**env):
    out = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1', PYTHONIOENCODING='utf-8', **env)
    out.pop('PYTHONPATH', None)
    return out


class Run:
    """One run of the script, ended once `steps` steps are complete unless it ends by itself."""
    def __init__(self, args, cwd=None, steps=None, env=None, plain=False, extra='pass', limit=120):
        self.args = args
        script = os.path.join(REPO, 'search.py')
        if plain:
            cmd = [sys.executable, script, *args]
        else:
            if steps is not None:
                extra += f'; exec({CUT % steps!r})'
            cmd = [sys.executable, '-c', LAUNCH.format(path=REPO, extra=extra), script, *args]
        self.lines, self.cut = [], False
        headers = 0
        deadline = time.monotonic() + limit
        with tempfile.TemporaryFile() as err:
            p = subprocess.Popen(cmd, cwd=cwd, env=environment(**(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err)
            timer = None
            try:
                signal.signal(signal.SIGALRM, lambda *_: p.kill())
                signal.alarm(limit)
                for raw in p.stdout:
                    line = raw.decode('utf-8', 'replace').rstrip('\n')
                    if HEADER.match(line):
                        headers += 1
                        if steps is not None and headers > steps:
                            self.cut = True
                            p.kill()
                            break
                    self.lines.append(line)
                p.wait()
            finally:
                signal.alarm(0)
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdout.close()
            err.seek(0)
            self.err = err.read().decode('utf-8', 'replace')
        self.code = p.returncode
        if not self.cut and self.code == -signal.SIGKILL and time.monotonic() > deadline - 2:
            raise Inconclusive(f'search {args} took more than {limit} s')
        self.parse()

    def parse(self):
        self.steps, self.before = [], []
        for line in self.lines:
            m = HEADER.match(line)
            if m:
                self.steps.append(dict(length=int(m[1]), selected=None, saving=None, saved=False, near=[], kernel=False))
                continue
            if not self.steps:
                self.before.append(line)
                continue
            s = self.steps[-1]
            m = SELECTED.match(line)
            if m:
                s['selected'] = (int(m[1].replace(',', '')), int(m[2]))
            m = SAVING.match(line)
            if m:
                s['saving'] = (int(m[1].replace(',', '')), int(m[2]))
            if line.strip().startswith('Saved in'):
                s['saved'] = True
            if 'near-kernel' in line:
                s['near'].append(line)

    def output(self):
        """What was printed, without timings."""
        out = []
        for line in self.lines:
            if ' seconds' in line and ('took' in line or ' in ' in line) and 'Proceeding' not in line:
                line = re.sub(r'[\d.]+ seconds', '_ seconds', line)
            out.append(line)
        return out


def read_near(ctx, line):
    """(n, r, p, length, power, factors) printed on one line, all of it syntax-checked."""
    m = NEAR.match(line)
    ctx.check(m is not None, 'unreadable report of a near-kernel element', line=line)
    try:
        form = ast.literal_eval(m[5])
    except (ValueError, SyntaxError):
        ctx.fail('unreadable Garside form', line=line)
    ctx.check(type(form) is tuple and len(form) == 2 and type(form[0]) is int and type(form[1]) is list
              and all(type(f) is tuple and all(type(x) is int for x in f) for f in form[1]), 'not a pair of a power and permutation words', line=line)
    return int(m[1]), int(m[2]), int(m[3]), int(m[4]), form[0], tuple(form[1])


def connect(path):
    return sqlite3.connect(path, timeout=60)


def rows_of(path):
    """All rows, in order of insertion, seen by a fresh connection."""
    conn = connect(path)
    try:
        return conn.execute('SELECT rowid, n, r, p, length, projlen, gnf FROM good_braids ORDER BY rowid').fetchall()
    finally:
        conn.close()


def batches(rows):
    """Rows of one run, cut where the length changes."""
    out = []
    for row in rows:
        if not out or out[-1][0] != row[4]:
            out.append((row[4], []))
        out[-1][1].append(row)
    return out


def read_gnf(ctx, text):
    """The braid a saved text reads back to, as (power, factors)."""
    ctx.check(type(text) is str, 'not a text', text=text)
    try:
        fields = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        ctx.fail('unreadable normal form', text=text)
    ctx.check(type(fields) is tuple and len(fields) == 3 and all(type(x) is int for x in (*fields[:2], *fields[2])), 'not the fields of a braid', text=text)
    b = GNF(*fields)
    problem = normal_form_problem(b)
    ctx.check(problem is None, f'not a normal form: {problem}', text=text)
    power, factors = b.canonical_decomposition()
    return fields[0], power, tuple(tuple(f.word) for f in factors)


class Images:
    """Exact projective images of normal forms without powers, factor by factor."""
    def __init__(self, n, r, p):
        from peyl.tl import cell_basis
        self.n, self.r, self.p = n, r, p
        self.basis = tuple(tuple(d.seq) for d in cell_basis(n, r))
        self.memo, self.lens = {}, {}
        self.D = jones.evaluate(n, r, MP.delta_word(n), self.basis, p)

    @functools.lru_cache(maxsize=None)
    def factor(self, f):
        return lp.projective(jones.evaluate(self.n, self.r, MP.lift_word(f), self.basis, self.p))

    def image(self, factors):
        if not factors:
            return lp.mident(len(self.basis))
        if factors not in self.memo:
            if len(self.memo) > 50000:
                self.memo.clear()
            M = lp.mmul(self.image(factors[:-1]), self.factor(factors[-1]))
            self.memo[factors] = lp.projective(lp.mmod(M, self.p))
        return self.memo[factors]

    def projlen(self, factors):
        if factors not in self.lens:
            if len(self.lens) > 200000:
                self.lens.clear()
            self.lens[factors] = lp.maxdeg(self.image(factors)) + 1
        return self.lens[factors]


@functools.lru_cache(maxsize=None)
def images(n, r, p):
    return Images(n, r, p)


@functools.lru_cache(maxsize=None)
def follows(n, f):
    from .checks.c04 import follow
    return follow('GNF', n, f)


def extend(n, factors, length):
    """Normal forms extending this one by 1..length factors."""
    layer = [factors]
    for _ in range(length):
        layer = [x + (y,) for x in layer for y in follows(n, x[-1] if x else None)]
        yield layer


def prefix(counts, limit):
    """The projective lengths selected: in increasing order while the total stays within the limit."""
    out, total = [], 0
    for pl in sorted(counts):
        total += counts[pl]
        if total > limit:
            break
        out.append(pl)
    return out


class Model:
    """
    What a run must do, told after each step what was saved of the current length (in full), since random
    sources decide what an overflowing bucket holds.
    """
    def __init__(self, n, r, p, bootstrap_length=6, step_size=1, bucket_size=3000, use_best=50000, **_):
        self.n, self.r, self.p = n, r, p
        self.boot, self.stride, self.size, self.use_best = bootstrap_length, step_size, bucket_size, use_best
        self.room = bucket_size if step_size == 1 else bucket_size - 1
        self.images = images(n, r, p)
        self.offers = collections.defaultdict(set)
        for l, layer in enumerate(extend(n, (), bootstrap_length), 1):
            self.offers[l].update(layer)
        self.next = bootstrap_length - step_size + 1
        self.buckets = {}

    def by_projlen(self, length):
        out = collections.defaultdict(set)
        for b in self.offers.get(length, ()):
            out[self.images.projlen(b)].add(b)
        return out

    def near(self):
        """Near-kernel elements among everything offered and not yet discarded: (length, set) pairs."""
        return {l: x for l in sorted(self.offers) if (x := self.by_projlen(l).get(1))}

    def step(self, held):
        """`held`: {projective length: list of braids held}.  Returns the projective lengths moved forward."""
        moved = prefix({pl: len(x) for pl, x in held.items()}, self.use_best)
        for pl in moved:
            for b in held[pl]:
                for k, layer in enumerate(extend(self.n, b, self.stride), 1):
                    self.offers[self.next + k].update(layer)
        for l in [l for l in self.offers if l <= self.next]:
            del self.offers[l]
        self.next += 1
        return moved


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vf-search-')
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


PLENTY = 10**9


def held_of(ctx, rows, n, r, p, length):
    """Saved rows of one step, as {projective length: [factors]}, every field checked against the truth."""
    im = images(n, r, p)
    held = collections.defaultdict(list)
    for _, rn, rr, rp, rl, rpl, text in rows:
        ctx.check(all(type(x) is int for x in (rn, rr, rp, rl, rpl)), 'a saved field is not an integer', row=(rn, rr, rp, rl, rpl))
        ctx.eq((rn, rr, rp), (n, r, p), 'saved under other parameters')
        bn, power, factors = read_gnf(ctx, text)
        ctx.check(bn == n, 'a braid of another group was saved', text=text)
        ctx.eq((rl, len(factors)), (length, length), 'saved under another length', text=text)
        ctx.eq(rpl, im.projlen(factors), 'saved under another projective length', text=text, power=power)
        ctx.check(power == 0, 'the search multiplied by a power of Δ', text=text)
        held[rpl].append(factors)
        ctx.hit('rows')
    return held


def followed(ctx, conf, run, rows):
    """
    Yields (step, model, held, near) for every complete step of a run that saved everything.  `near` are the
    near-kernel elements among what the search holds then, if buckets never overflowed.
    """
    n, r, p = conf['n'], conf['r'], conf['p']
    model = Model(**conf)
    overflowed = False
    by_length = batches(rows)
    ctx.eq([l for l, _ in by_length], sorted({l for l, _ in by_length}), 'lengths saved out of order')
    by_length = dict(by_length)
    expected = set(range(model.next, model.next + len(run.steps)))
    ctx.check(set(by_length) <= expected, 'saved lengths that were not processed', saved=set(by_length), expected=expected)
    for s in run.steps:
        ctx.eq(s['length'], model.next, 'the step of another length')
        held = held_of(ctx, by_length.get(model.next, ()), n, r, p, model.next)
        offers = model.by_projlen(model.next)
        ctx.check(set(held) == set(offers), 'buckets of this length', length=model.next, missing=set(offers) - set(held), extra=set(held) - set(offers))
        for pl, want in offers.items():
            have = held[pl]
            extra = set(have) - want
            ctx.check(not extra, 'a braid was held that was never offered', braids=extra, projlen=pl)
            ctx.eq(len(have), min(len(want), model.size), f'braids held of length {model.next} and projective length {pl}')
            # Steps overlap when longer than one: a full bucket may then take a braid it holds already.
            if len(want) < model.size or model.stride == 1:
                ctx.check(len(set(have)) == len(have), 'a braid was saved twice', length=model.next, projlen=pl)
            overflowed |= len(want) > model.room
        near = {l: x for l, x in model.near().items()}
        overflowed |= any(len(x) > model.room for x in near.values())
        yield s, model, held, (None if overflowed else {b for x in near.values() for b in x})
        model.step(held)
        ctx.hit('steps')
