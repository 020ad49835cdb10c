import ctypes
import json
import os
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import threading
import time

from ..core import REPO, Inconclusive, Suite, Violation
from ..lib import *
from ..script import *

SUITE = Suite('C29',
    'The search script runs in a process preloaded with a shim that counts every call writing to files, terminal or file system and, at a chosen one, kills the process (before, after or in the middle of the call), interrupts or terminates it, or lets writes fail from there on. Every such call of the first steps of several searches is a crash point (all of them in the thorough tier, a spread of them in the quick one), on new databases and on databases with earlier rows. Afterwards a fresh connection must find the earlier rows and exactly the first k steps of an undisturbed reference run, with every step reported saved among them; often the search is then run again on what is left. Also runs at once on one database and readers polling during a run. Another connection holds the write lock when steps are to be saved. Non-trivial: a crash after the first step had begun saving.',
    level='fault_enumeration',
    assumptions=['What a killed process had written stays written (the machine itself does not fail).', 'Between two calls that write, a crash leaves the same files.', 'Equal arguments give equal searches (C28).'],
    require={'crashes': 250, 'killed': 100, 'interrupted': 40, 'write errors': 20, 'at a write lock': 20, 'in a step': 60, 'earlier rows': 60, 'run again': 20, 'concurrent': 4, 'locked out': 5, 'held back': 5, 'polls': 50, 'reported saved': 250})

HOWS = {0: 'killed', 1: 'killed', 2: 'interrupted', 3: 'killed', 4: 'write errors', 5: 'terminated', 12: 'interrupted', 22: 'interrupted'}


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-crash-')
        lib = os.path.join(self.dir, 'shim.so')
        source = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'crash')
        made = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', lib, os.path.join(source, 'shim.c'), '-ldl'], capture_output=True)
        if made.returncode:
            raise Inconclusive('the shim does not compile: ' + made.stderr.decode()[-500:])
        env = environment(LD_PRELOAD=lib)
        self.process = subprocess.Popen([sys.executable, os.path.join(source, 'server.py'), REPO], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, **job):
        self.process.stdin.write((json.dumps(job) + '\n').encode())
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise Inconclusive('the crash server ended')
        answer = json.loads(line)
        if answer['signal'] == signal.SIGALRM:
            raise Inconclusive(f'a run took more than its time: {job}')
        return answer


SERVER = []


def server():
    if not SERVER:
        import atexit
        SERVER.append(Server())
        atexit.register(lambda: (SERVER[0].process.kill(), SERVER[0].process.wait(), shutil.rmtree(SERVER[0].dir, ignore_errors=True)))
    return SERVER[0]


CONFIGS = [
    dict(n=3, r=1, p=2, bootstrap_length=3, bucket_size=5, use_best=12, save_best=9),
    dict(n=3, r=1, p=5, bootstrap_length=2, bucket_size=50, use_best=40, save_best=500, step_size=2),
    dict(n=4, r=1, p=2, bootstrap_length=2, bucket_size=10, use_best=30, save_best=20),
    dict(n=4, r=2, p=2, bootstrap_length=2, bucket_size=30, use_best=60, save_best=500, stop_at_projlen_1=True),
    dict(n=4, r=1, p=3, bootstrap_length=2, bucket_size=300, use_best=60, save_best=500),
    dict(n=4, r=1, p=7, bootstrap_length=4, bucket_size=3000, use_best=30, save_best=9000),
    dict(n=3, r=0, p=2, bootstrap_length=6, bucket_size=3000, use_best=200, save_best=3000),
]

REFERENCE = {}


def reference(conf, steps=24):
    """The rows each step of an undisturbed run saves."""
    key = str(conf), steps
    if key not in REFERENCE:
        with Scratch() as d:
            run = Run(arguments(**conf, database='r.db'), cwd=d, steps=steps)
            rows = rows_of(os.path.join(d, 'r.db')) if os.path.exists(os.path.join(d, 'r.db')) else []
            if not run.steps or not rows:
                raise Violation(f'the undisturbed search made {len(run.steps)} steps, saved {len(rows)} rows and ended with {run.code}: {run.err[-600:]}')
        lengths = [s['length'] for s in run.steps]
        by = dict(batches(rows))
        REFERENCE[key] = [(l, [row[1:] for row in by.get(l, ())]) for l in lengths]
    return REFERENCE[key]


def calls(conf, reads=False):
    """How many crash points are used: the calls of the whole run, or of its beginning."""
    key = 'calls', str(conf), reads
    most = 450 if reads else 300
    if key not in REFERENCE:
        with Scratch() as d:
            log = os.path.join(d, 'log')
            answer = server().run(args=arguments(**conf, database='r.db'), cwd=d, at=most, how=10 if reads else 0, log=log)
            REFERENCE[key] = most if answer['signal'] else int(open(log + '.count').read())
    return REFERENCE[key]


def read(path):
    """Integrity and all rows as a fresh connection sees them; no table counts as no rows."""
    conn = connect(path)
    try:
        whole = conn.execute('PRAGMA integrity_check').fetchall()
        tables = {name for name, in conn.execute("SELECT name FROM sqlite_master WHERE type = 'table'")}
        rows = conn.execute('SELECT n, r, p, length, projlen, gnf FROM good_braids ORDER BY rowid').fetchall() if 'good_braids' in tables else []
        return whole, rows
    finally:
        conn.close()


def whole_steps(ctx, rows, ref, what, /, **kw):
    """rows must be exactly the first k steps; returns k (as few as possible)."""
    k, total = 0, 0
    while total < len(rows) and k < len(ref):
        total += len(ref[k][1])
        k += 1
    want = [row for _, batch in ref[:k] for row in batch]
    if total < len(rows):
        # The run went beyond the reference: judge the part the reference knows.
        rows = rows[:total]
    ctx.check(sorted(rows) == sorted(want), f'{what}: {len(rows)} rows are not the first steps of this search, whose steps have {[len(b) for _, b in ref]} rows', first=next((x for x in rows if x not in want), None), **kw)
    return k


def prepare(rng, d, path):
    """Perhaps rows from before."""
    before = []
    m = rng.randrange(4)
    if m == 0:
        return before
    conn = sqlite3.connect(path)
    conn.execute('PRAGMA journal_mode = ' + rng.choice(('WAL', 'DELETE')))
    conn.execute('CREATE TABLE IF NOT EXISTS good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
    before = [(9, 9, 9, rng.randint(1, 5), k, 'x' * rng.choice((3, 60))) for k in range(rng.choice((0, 1, 40, 900)))]
    conn.executemany('INSERT INTO good_braids VALUES (?, ?, ?, ?, ?, ?)', before)
    conn.commit()
    conn.close()
    return before


def crash(ctx, rng, conf, at, how):
    ref = reference(conf)
    args = arguments(**conf, database='c.db')
    with Scratch() as d:
        path, log = os.path.join(d, 'c.db'), os.path.join(d, 'log')
        before = prepare(rng, d, path)
        ctx.describe(conf=conf, at=at, how=HOWS[how], before=len(before))
        answer = server().run(args=args, cwd=d, at=at, how=how, log=log)
        text = open(log, errors='replace').read()
        printed = text.split('\n')
        if how in (0, 1, 3, 5):
            sig = signal.SIGTERM if how == 5 else signal.SIGKILL
            if answer['signal'] != sig and answer['code'] != 0:
                ctx.fail(f'was to be killed but ended with {answer}', log=text[-600:])
        if not os.path.exists(path):
            ctx.check('Saved in' not in text and not before, 'the database is gone')
            ctx.hit('before the database')
            return
        kw = dict(conf=conf, at=at, how=HOWS[how], log=text[-300:])
        whole, rows = read(path)
        ctx.eq(whole, [('ok',)], 'integrity after the crash', **kw)
        ctx.check(rows[:len(before)] == before, 'earlier rows are damaged', **kw)
        k = whole_steps(ctx, rows[len(before):], ref, 'after the crash', **kw)
        saved = sum(1 for line in printed if line.strip().startswith('Saved in'))
        begun = sum(1 for line in printed if HEADER.match(line))
        done = len(rows) - len(before)
        ctx.check(done >= sum(len(b) for _, b in ref[:saved]), f'{saved} steps were reported saved, but {done} rows are there', **kw)
        ctx.check(k <= max(begun, 0) + 1, f'{begun} steps begun, {k} saved', **kw)
        ctx.hit('crashes')
        ctx.hit(HOWS[how])
        ctx.hit('reported saved', saved)
        if before:
            ctx.hit('earlier rows')
        if saved < begun:
            ctx.hit('in a step')
        if how == 22:
            ctx.hit('at a write lock')
        if begun:
            ctx.distinct((str(conf), at, how))
            ctx.sample(args=' '.join(args), at=at, how=HOWS[how], saved=saved, rows=done)
        if rng.random() < .12:
            again = Run(args, cwd=d, steps=len(ref) // 2 + 1)
            whole, later = read(path)
            ctx.eq(whole, [('ok',)], 'integrity after running again', **kw)
            ctx.check(later[:len(rows)] == rows, 'running again damaged rows', **kw)
            n = whole_steps(ctx, later[len(rows):], ref, 'running again', **kw)
            saved = sum(1 for s in again.steps if s['saved'])
            ctx.check(len(later) - len(rows) >= sum(len(b) for _, b in ref[:saved]), 'running again lost rows', err=again.err[-500:], **kw)
            ctx.check(again.cut or again.code == 0, f'running again ended with {again.code}', err=again.err[-500:], **kw)
            ctx.hit('run again')


def spread(ctx, rng, i, total):
    """Crash points: neighbouring cases take neighbouring points."""
    conf = CONFIGS[i % len(CONFIGS)]
    top = calls(conf)
    j = i // len(CONFIGS)
    return conf, 1 + (j * 7 + rng.randrange(7)) % top


@SUITE.scenario('killed', quick=231, thorough=6300, timeout=300)
def killed(ctx, rng, i):
    conf, at = spread(ctx, rng, i, 240)
    if ctx.thorough:
        # Every point, in turn, before, after and in the middle.
        j = i // len(CONFIGS)
        at = 1 + j % calls(conf)
    crash(ctx, rng, conf, at, (0, 1, 3)[rng.randrange(3)])


@SUITE.scenario('interrupted', quick=120, thorough=1200, timeout=300)
def interrupted(ctx, rng, i):
    conf, at = spread(ctx, rng, i, 100)
    how = (22, 2, 22, 12, 5)[i // len(CONFIGS) % 5]
    # (One write lock is taken per step, after some at the start.)
    crash(ctx, rng, conf, rng.randint(1, 30 if how == 22 else calls(conf, how == 12)), how)


@SUITE.scenario('write errors', quick=48, thorough=600, timeout=300)
def write_errors(ctx, rng, i):
    conf, at = spread(ctx, rng, i, 48)
    crash(ctx, rng, conf, rng.randint(1, calls(conf)), 4)


@SUITE.scenario('at once', quick=8, thorough=80, timeout=300)
def at_once(ctx, rng, i):
    """Two or three runs on one database, equal or different, some killed on the way, and a reader."""
    confs = [rng.choice(CONFIGS[:5]) for _ in range(rng.choice((2, 3)))]
    if rng.random() < .4:
        confs[1] = confs[0]
    refs = [reference(c) for c in confs]
    with Scratch() as d:
        path = os.path.join(d, 'c.db')
        ctx.describe(confs=confs)
        conn = sqlite3.connect(path)
        conn.execute('PRAGMA journal_mode = WAL')
        conn.execute('CREATE TABLE good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
        before = [(9, 9, 9, 1, k, 'x') for k in range(20)]
        conn.executemany('INSERT INTO good_braids VALUES (?, ?, ?, ?, ?, ?)', before)
        conn.commit()
        conn.close()
        script = os.path.join(REPO, 'search.py')
        logs = [open(os.path.join(d, f'log{k}'), 'wb') for k in range(len(confs))]
        ps = [subprocess.Popen([sys.executable, '-c', LAUNCH.format(path=REPO, extra='pass'), script, *arguments(**c, database='c.db')], cwd=d, env=environment(), stdin=subprocess.DEVNULL, stdout=log, stderr=log)
              for c, log in zip(confs, logs)]
        ends = [rng.choice((1.5, 2.5, 4)) for _ in confs]
        start = time.monotonic()
        try:
            while any(p.poll() is None for p in ps):
                now = time.monotonic() - start
                for p, end in zip(ps, ends):
                    if now > end and p.poll() is None:
                        p.kill()
                check_groups(ctx, confs, refs, read_rows(path), before)
                ctx.hit('polls')
                time.sleep(0.04)
        finally:
            for p in ps:
                p.kill()
                p.wait()
            for log in logs:
                log.close()
        whole, rows = read(path)
        ctx.eq(whole, [('ok',)], 'integrity after runs at once', confs=confs)
        counts = check_groups(ctx, confs, refs, rows, before)
        for key in {(c['n'], c['r'], c['p'], c['bootstrap_length']) for c in confs}:
            members = [k for k, c in enumerate(confs) if (c['n'], c['r'], c['p'], c['bootstrap_length']) == key]
            saved = 0
            for k in members:
                text = open(os.path.join(d, f'log{k}'), errors='replace').read()
                saved += sum(len(refs[k][j][1]) for j in range(min(len(refs[k]), text.count('Saved in'))))
            have = sum(1 for row in rows if row[:3] == key[:3])
            ctx.check(have >= saved, f'{saved} rows were reported saved, but {have} are there', confs=confs)
        ctx.hit('concurrent')
        ctx.distinct((i, str(confs)))


@SUITE.scenario('locked out', quick=6, thorough=60, timeout=300)
def locked_out(ctx, rng, i):
    """Another connection is writing when a step is to be saved: the run waits, as SQLite lets it."""
    conf = CONFIGS[(0, 2, 3, 1, 4, 6)[i % 6]]
    ref = reference(conf)
    script = os.path.join(REPO, 'search.py')
    with Scratch() as d:
        path = os.path.join(d, 'c.db')
        ctx.describe(conf=conf)
        conn = sqlite3.connect(path, isolation_level=None, timeout=60)
        conn.execute('PRAGMA journal_mode = WAL')
        conn.execute('CREATE TABLE good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
        mine = [(9, 9, 9, 0, k, 'x') for k in range(20)]
        conn.executemany('INSERT INTO good_braids VALUES (?, ?, ?, ?, ?, ?)', mine)
        busy, longest, held, steps = rng.sample((1, 2, 3), 2), 0, 0, 0
        err = open(os.path.join(d, 'err'), 'wb')
        p = subprocess.Popen([sys.executable, '-c', LAUNCH.format(path=REPO, extra='pass'), script, *arguments(**conf, database='c.db')], cwd=d, env=environment(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err)
        saved = begun = 0
        watch = threading.Timer(60, p.kill)
        watch.start()
        try:
            for raw in p.stdout:
                line = raw.decode('utf-8', 'replace')
                if HEADER.match(line):
                    begun += 1
                    if begun in busy:
                        # (The run prints a good deal before it saves, so this comes first.)
                        conn.execute('BEGIN IMMEDIATE')
                        held = time.monotonic()
                        mine.append((9, 9, 9, begun, 0, 'y'))
                        conn.execute('INSERT INTO good_braids VALUES (?, ?, ?, ?, ?, ?)', mine[-1])
                elif SAVING.match(line) and held:
                    time.sleep(rng.choice((.4, 1.2)))
                    conn.execute('COMMIT')
                    longest = max(longest, time.monotonic() - held)
                    held = 0
                    ctx.hit('held back')
                elif line.strip().startswith('Saved in'):
                    saved += 1
                    if saved == 4:
                        p.kill()
        finally:
            watch.cancel()
            p.kill()
            p.wait()
            p.stdout.close()
            err.close()
        if held:
            conn.execute('COMMIT')
        conn.close()
        kw = dict(conf=conf, err=open(os.path.join(d, 'err'), errors='replace').read()[-500:])
        if longest < 4:
            ctx.check(saved >= 4 or p.returncode == 0, f'ended with {p.returncode} because another connection was writing for {longest:.1f} s', **kw)
        whole, rows = read(path)
        ctx.eq(whole, [('ok',)], 'integrity', **kw)
        ctx.eq([row for row in rows if row[0] == 9], mine, 'rows of the other connection', **kw)
        rows = [row for row in rows if row[0] != 9]
        whole_steps(ctx, rows, ref, 'after waiting', **kw)
        ctx.check(len(rows) >= sum(len(b) for _, b in ref[:saved]), f'{saved} steps were reported saved, but {len(rows)} rows are there', **kw)
        ctx.hit('locked out')


def read_rows(path):
    conn = connect(path)
    try:
        return conn.execute('SELECT n, r, p, length, projlen, gnf FROM good_braids ORDER BY rowid').fetchall()
    finally:
        conn.close()


def check_groups(ctx, confs, refs, rows, before):
    ctx.check(rows[:len(before)] == before, 'earlier rows are damaged')
    rows = rows[len(before):]
    keys = {(c['n'], c['r'], c['p']): (sum(1 for x in confs if x == c), ref) for c, ref in zip(confs, refs)}
    ctx.check(all(row[:3] in keys for row in rows), 'rows of nobody')
    for key, (copies, ref) in keys.items():
        mine = [row for row in rows if row[:3] == key]
        last = copies
        for length, batch in ref:
            have = [row for row in mine if row[3] == length]
            if not batch:
                continue
            times, rest = divmod(len(have), len(batch))
            ctx.check(rest == 0 and sorted(have) == sorted(batch * times) and times <= last, f'length {length} of {key}: {len(have)} rows where a step has {len(batch)}', copies=copies, last=last)
            last = times
        ctx.hit('groups')
