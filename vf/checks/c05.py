import contextlib
import json
import os
import re
import shutil
import sqlite3
import subprocess
import sys
import tempfile
import threading

from peyl import braid as braid_module

from .. import core
from ..core import Inconclusive, Suite
from ..lib import *

SUITE = Suite('C05',
    'Batches of braids of both kinds are written to columns declared for braids in memory and in files and read back by the same connection, other connections, other threads and other processes with other hash seeds, and compared by value, by hash and as elements (Dynnikov coordinates). Cells in the released format are read against a committed table of what each stored index means. Corrupted cells must be refused. Non-trivial: a braid with at least one factor.',
    assumptions=['Stored cells are the text <kind>(n, power, (indices...)) which the released code writes.',
                 'data/stored.json was produced by the unmodified pinned commit (tools/mkgolden.py).'],
    require={'round_trips': 3000, 'other_process': 500, 'golden': 1000, 'refused': 2000})

STORED = {k: {int(n): [tuple(p) for p in ps] for n, ps in v.items()}
          for k, v in json.load(open(os.path.join(core.VERIF, 'data', 'stored.json'))).items()}


def connect(path=':memory:', flags=sqlite3.PARSE_DECLTYPES):
    braid_module.register_sqlite3_adapters()
    return sqlite3.connect(path, detect_types=flags)


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix='vf-c05-')
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def same(ctx, got, want, what):
    ctx.check(type(got) is type(want), f'{what}: read back as a {type(got).__name__}', want=want)
    ctx.check(got == want and hash(got) == hash(want) and not (got != want), f'{what}: reads back as another braid: {got!r}', want=want)
    ctx.check(got.n == want.n and shown(got) == shown(want), f'{what}: reads back with another decomposition: {got!r}', want=want)


def shown(b):
    return b.inf(), tuple(factor_perm(f) for f in b.canonical_factors())


def batch(rng, size, ns=(2, 3, 4, 4, 5)):
    out = []
    for _ in range(size):
        kind, n = rng.choice(('GNF', 'DGNF')), rng.choice(ns)
        b = random_braid(rng, kind, n)
        if rng.random() < 0.03:
            b = long_braid(rng, kind, n, log_size(rng, 10, 900))
        if rng.random() < 0.1:
            b = KINDS[kind](n, rng.choice((1, -1)) * rng.randrange(10**rng.randint(10, 300)), b.factors) if rng.random() < .3 else KINDS[kind](n, rng.choice((0, 1, -1, 10**6, -10**9, 2**40)), b.factors)
        out.append(b)
    return out


DECLS = ['BRAID', 'braid', 'BRAID NOT NULL', 'Braid PRIMARY KEY']


@SUITE.scenario('memory', quick=1600, thorough=12000)
def memory(ctx, rng, i):
    braids = batch(rng, 16)
    decl = DECLS[i % len(DECLS)]
    if 'PRIMARY' in decl:
        braids = list(dict.fromkeys(braids))
    db = connect()
    try:
        db.execute(f'CREATE TABLE t (id INTEGER, b {decl}, other TEXT)')
        if rng.random() < 0.5:
            db.executemany('INSERT INTO t VALUES (?, ?, ?)', [(k, b, 'x') for k, b in enumerate(braids)])
        else:
            for k, b in enumerate(braids):
                db.execute('INSERT INTO t (b, id) VALUES (:b, :k)', {'b': b, 'k': k})
        rows = db.execute('SELECT b, id FROM t ORDER BY id').fetchall()
        ctx.check(len(rows) == len(braids), 'rows lost')
        for (got, k), want in zip(rows, braids):
            ctx.describe(braid=want)
            same(ctx, got, want, 'same connection')
            if abs(want.power) < 100:
                ctx.check(key_of(got) == key_of(want), 'another element', want=want)
            ctx.hit('round_trips')
            if want.factors:
                ctx.distinct((type(want).__name__, want))
        # Cells are found by the braid, and distinct braids are distinct cells.
        b = rng.choice(braids)
        found = [k for k, in db.execute('SELECT id FROM t WHERE b = ?', (b,))]
        ctx.check(sorted(found) == [k for k, c in enumerate(braids) if c == b and type(c) is type(b)], 'looking a braid up finds other rows', b=b, found=found)
        # Also through column names.
        named = connect(flags=sqlite3.PARSE_COLNAMES)
        named.execute('CREATE TABLE t (b)')
        named.execute('INSERT INTO t VALUES (?)', (b,))
        same(ctx, named.execute('SELECT b AS "b [BRAID]" FROM t').fetchone()[0], b, 'column name')
        named.close()
    finally:
        db.close()
    ctx.sample(decl=decl, braid=braids[0])


@SUITE.scenario('b6', quick=6, thorough=400, workers=2)
def b6(ctx, rng, i):
    braids = batch(rng, 60, ns=(6,))
    db = connect()
    db.execute('CREATE TABLE t (b BRAID)')
    db.executemany('INSERT INTO t VALUES (?)', [(b,) for b in braids])
    for (got,), want in zip(db.execute('SELECT b FROM t ORDER BY rowid'), braids):
        same(ctx, got, want, 'same connection')
        ctx.hit('round_trips')
    db.close()


READER = '''
import json, sqlite3, sys
sys.path[:0] = [sys.argv[3], sys.argv[2]]
from peyl import braid
from vf.lib import key_of, factor_perm
if sys.argv[4] == "late":
    db = sqlite3.connect(sys.argv[1], detect_types=sqlite3.PARSE_DECLTYPES)
    braid.register_sqlite3_adapters()
else:
    braid.register_sqlite3_adapters()
    db = sqlite3.connect(sys.argv[1], detect_types=sqlite3.PARSE_DECLTYPES)
out = []
for k, b in db.execute("SELECT id, b FROM t ORDER BY id"):
    out.append([k, type(b).__name__, b.n, b.inf(), [list(factor_perm(f)) for f in b.canonical_factors()], repr(key_of(b)) if abs(b.inf()) < 100 else ''])
    db.execute("INSERT INTO back VALUES (?, ?)", (k, b * type(b).identity(b.n)))
db.commit()
json.dump(out, sys.stdout)
'''


@SUITE.scenario('processes', quick=24, thorough=120)
def processes(ctx, rng, i):
    with scratch() as folder:
        path = os.path.join(folder, 'braids.db')
        braids = batch(rng, 120, ns=(2, 3, 4, 5) if i % 4 else (4, 5, 6) if ctx.thorough else (4, 5))
        db = connect(path)
        db.execute('CREATE TABLE t (id INTEGER, b BRAID)')
        db.execute('CREATE TABLE back (id INTEGER, b BRAID)')
        db.executemany('INSERT INTO t VALUES (?, ?)', list(enumerate(braids)))
        db.commit()
        db.close()
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(2**32)), PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-c', READER, path, core.REPO, core.VERIF, rng.choice(('early', 'late'))],
                           capture_output=True, text=True, env=env, timeout=200, cwd=folder)
        ctx.check(p.returncode == 0, 'another process cannot read the braids: ' + p.stderr[-600:])
        for (k, kind, n, power, factors, key), want in zip(json.loads(p.stdout), braids):
            ctx.describe(braid=want)
            got = (kind, n, (power, tuple(map(tuple, factors))))
            ctx.check(got == (kind_of(want), want.n, shown(want)), f'another process reads another braid: {got}', want=want)
            ctx.check(key == (repr(key_of(want)) if abs(want.power) < 100 else ''), 'another process reads another element', want=want)
            ctx.hit('other_process')
            if want.factors:
                ctx.distinct((kind, want))
        db = connect(path)
        rows = db.execute('SELECT id, b FROM back ORDER BY id').fetchall()
        ctx.check([k for k, _ in rows] == list(range(len(braids))), 'rows written by another process are missing')
        for (k, got), want in zip(rows, braids):
            same(ctx, got, want, 'written by another process')
        db.close()


@SUITE.scenario('threads', quick=40, thorough=100)
def threads(ctx, rng, i):
    """Several threads with connections of their own write to and read from one database."""
    with scratch() as folder:
        path = os.path.join(folder, 'braids.db')
        braids = batch(rng, 120)
        db = connect(path)
        db.execute('CREATE TABLE t (id INTEGER, b BRAID)')
        db.commit()
        db.close()
        errors = []

        def work(part):
            try:
                mine = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES, timeout=60)
                for k in part:
                    mine.execute('INSERT INTO t VALUES (?, ?)', (k, braids[k]))
                mine.commit()
                for k, b in mine.execute('SELECT id, b FROM t'):
                    if b != braids[k] or type(b) is not type(braids[k]):
                        errors.append((k, b))
                mine.close()
            except Exception as e:
                errors.append(e)
        pool = [threading.Thread(target=work, args=(range(t, 120, 4),)) for t in range(4)]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
        ctx.check(not errors, f'threads: {errors[:2]}')
        db = connect(path)
        for k, got in db.execute('SELECT id, b FROM t'):
            same(ctx, got, braids[k], 'threads')
            ctx.hit('round_trips')
        db.close()


# What cells mean.

CELL = re.compile(rb'^(D?GNF)\((\d+), (-?\d+), \(((?:\d+, )*\d+|\d+,|)\)\)$')


def meaning(cell):
    """None if the cell is no normal form in the released format, else (kind, n, power, factors as permutations)."""
    m = CELL.match(cell)
    if not m:
        return None
    kind, n, power = m[1].decode(), int(m[2]), int(m[3])
    if n not in STORED[kind]:
        return None
    idx = [int(x) for x in m[4].replace(b',', b' ').split()]
    if len(idx) == 1 and not m[4].endswith(b','):
        return None
    table = STORED[kind][n]
    if any(k >= len(table) for k in idx):
        return None
    ps = [table[k] for k in idx]
    top = MP.w0(n) if kind == 'GNF' else MP.partition_perm(n, (tuple(range(n)),))
    if any(p in (MP.ident(n), top) for p in ps):
        return None
    ok = MP.left_weighted if kind == 'GNF' else (lambda x, y: MP.dual_left_weighted(n, x, y))
    if not all(ok(x, y) for x, y in zip(ps, ps[1:])):
        return None
    return kind, n, power, tuple(ps)


def read_cell(cell):
    db = connect()
    try:
        db.execute('CREATE TABLE t (b BRAID)')
        db.execute('INSERT INTO t VALUES (CAST(? AS TEXT))', (cell,))
        return db.execute('SELECT b FROM t').fetchone()[0]
    finally:
        db.close()


def golden_cell(rng, kind, n, length):
    """A released-format cell, composed from the committed table alone."""
    table = STORED[kind][n]
    top = MP.w0(n) if kind == 'GNF' else MP.partition_perm(n, (tuple(range(n)),))
    ok = MP.left_weighted if kind == 'GNF' else (lambda x, y: MP.dual_left_weighted(n, x, y))
    proper = [k for k, p in enumerate(table) if p not in (MP.ident(n), top)]
    idx = []
    while proper and len(idx) < length:
        choices = [k for k in (proper if len(proper) < 60 else rng.sample(proper, 60)) if not idx or ok(table[idx[-1]], table[k])]
        if not choices:
            break
        idx.append(rng.choice(choices))
    power = rng.choice((0, 1, -1, -7, 12))
    return f'{kind}{(n, power, tuple(idx))}'.encode()


def read_meaning(ctx, cell):
    want = meaning(cell)
    assert want is not None, cell
    b = read_cell(cell)
    kind, n, power, ps = want
    ctx.check(type(b) is KINDS[kind] and b.n == n and shown(b) == (power, ps), f'stored cell {cell!r} reads as {b!r}', want=want)
    word = MP.power_word(garside_word(kind, n), power if abs(power) < 50 else 0)
    for f in b.canonical_factors():
        word += factor_word(f)
    ctx.hit('golden')
    return b


@SUITE.scenario('golden', quick=8000, thorough=20000)
def golden(ctx, rng, i):
    kind, n = rng.choice(('GNF', 'DGNF')), rng.choice((2, 3, 4, 5))
    cell = golden_cell(rng, kind, n, rng.choice((0, 1, 2, 5, 20)))
    ctx.describe(cell=cell)
    ctx.sample(cell=cell.decode())
    read_meaning(ctx, cell)
    ctx.distinct(cell)


@SUITE.scenario('golden_all', quick=8, thorough=8)
def golden_all(ctx, rng, i):
    """Every index on its own."""
    kind, n = [(k, m) for k in ('GNF', 'DGNF') for m in (2, 3, 4, 5)][i]
    for k in range(len(STORED[kind][n])):
        cell = f'{kind}({n}, 0, ({k},))'.encode()
        if meaning(cell):
            read_meaning(ctx, cell)
        else:
            ctx.raises(Exception, lambda: read_cell(cell), f'cell {cell!r}')


@SUITE.scenario('golden_b6', quick=2, thorough=2, workers=2)
def golden_b6(ctx, rng, i):
    kind = ('GNF', 'DGNF')[i]
    for k in range(len(STORED[kind][6])):
        cell = f'{kind}(6, 0, ({k},))'.encode()
        if meaning(cell):
            read_meaning(ctx, cell)
    for _ in range(60):
        read_meaning(ctx, golden_cell(rng, kind, 6, 6))


def corrupt(rng, cell):
    m = CELL.match(cell)
    kind, n, power, idx = m[1].decode(), int(m[2]), int(m[3]), [int(x) for x in m[4].replace(b',', b' ').split()]
    size = len(STORED[kind][n])
    c = rng.randrange(16)
    if c == 0:
        return cell[:rng.randrange(1, len(cell))]
    if c == 1 and idx:
        idx[rng.randrange(len(idx))] = rng.choice((-1, -2, -size, size, size + 1, 10**6))
    elif c == 2 and idx:
        idx[rng.randrange(len(idx))] = rng.randrange(size)
    elif c == 3:
        idx.insert(rng.randint(0, len(idx)), rng.randrange(size))
    elif c == 4 and len(idx) > 1:
        rng.shuffle(idx)
    elif c == 5 and len(idx) > 2:
        del idx[rng.randrange(1, len(idx) - 1)]
    elif c == 6:
        kind = {'GNF': 'DGNF', 'DGNF': 'GNF'}[kind]
    elif c == 7:
        n = rng.choice([m for m in (2, 3, 4, 5) if m != n])
    elif c == 8:
        kind = rng.choice(('gnf', 'NF', 'XGNF', 'GDNF', 'Braid', '', 'DDGNF', kind[0] + '_' + kind[1:], kind + '_', kind.lower(), kind.swapcase()))
    elif c == 9:
        return f'{kind}({n}, {power})'.encode()
    elif c == 10:
        return f'{kind}({n}, {power}, {tuple(idx)}, 0)'.encode()
    elif c == 11:
        return rng.choice((b'0', b'hello', b'None', b'()', b'GNF', b'DGNF', b'GNF()', b'DGNF(3)', b'GNF(None)', b'GNF(4, 0, (1.5,))', b'GNF(4, 0, None)', b'GNF(4, 0, (None,))', b'GNF(4, 0, (3.5, 2))', b'GNF(4, 0.5, ())', b'DGNF(4, 1.5, (3,))', b'DGNF(3.5, 0, ())', b'GNF(4, "1", ())', b'DGNF(4, 0, (None,))'))
    elif c == 12:
        return cell + rng.choice((b')', b',', b'x', b'(', cell))
    elif c == 13 and idx:
        idx.append(0 if kind == 'GNF' else rng.randrange(size))
    elif c == 14:
        return cell.replace(b', ', b' ', 1)
    elif c == 15:
        # Bytes which are no text.
        k = rng.randint(0, len(cell))
        return cell[:k] + rng.choice((b'\xff', b'\xc3', b'\x80', b'\xed\xa0\x80', b'\xc0\xaf')) + cell[k:]
    return f'{kind}{(n, power, tuple(idx))}'.encode()


@SUITE.scenario('corrupt', quick=40000, thorough=600000)
def corrupted(ctx, rng, i):
    kind, n = rng.choice(('GNF', 'DGNF')), rng.choice((2, 3, 4, 4, 5))
    cell = golden_cell(rng, kind, n, rng.choice((0, 1, 2, 3, 6)))
    bad = corrupt(rng, cell)
    ctx.describe(cell=cell, bad=bad)
    if meaning(bad):
        read_meaning(ctx, bad)
        return
    ctx.raises(Exception, lambda: read_cell(bad), f'the cell {bad!r}')
    ctx.hit('refused')
    ctx.distinct(bad)
    # Refusing one cell leaves reading others alone.
    if i % 16 == 0:
        read_meaning(ctx, cell)


@SUITE.scenario('long cells', quick=12, thorough=60, workers=2)
def long_cells(ctx, rng, i):
    """Cells of many thousand characters, and wide factors."""
    kind, n = ('GNF', 'DGNF')[i % 2], rng.choice((3, 3, 4, 5))
    want = KINDS[kind].sample(n, log_size(rng, 1500, 30000))
    want = KINDS[kind](n, rng.choice((0, 1, -3, 10**30)), want.factors)
    ctx.describe(kind=kind, n=n, factors=len(want.factors), power=want.power)
    ctx.sample(kind=kind, n=n, factors=len(want.factors))
    db = connect()
    try:
        db.execute('CREATE TABLE t (b BRAID)')
        db.execute('INSERT INTO t VALUES (?)', (want,))
        got, = db.execute('SELECT b FROM t').fetchone()
        cell, = db.execute('SELECT CAST(b AS BLOB) FROM t WHERE b = ?', (want,)).fetchone()
        ctx.check(type(got) is type(want) and got == want and hash(got) == hash(want) and got.n == n and got.power == want.power and got.factors == want.factors, f'a long braid reads back as another one, with {len(got.factors)} factors')
        told = meaning(bytes(cell))
        ctx.check(told is not None and told == (kind, n, *shown(want)), 'a long cell is not the braid in the released format', cell=bytes(cell[:80]))
        ctx.hit('round_trips')
        ctx.distinct((kind, n, len(want.factors), hash(want)))
    finally:
        db.close()
