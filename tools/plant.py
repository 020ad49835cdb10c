"""Planted bugs: make() writes one to seeded/<id>/, and `plant.py verify ID...` confirms in a scratch clone of /repo that it
applies, changes original lines only, keeps the tests passing, that its demo tells it apart, and says whether the check sees it."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, textwrap
HERE = pathlib.Path(__file__).resolve().parent.parent
SEEDED = HERE / 'seeded'
PY = '/opt/venv/bin/python'
BASE = '87a64a2'
SCRATCH = '/tmp/w'
DEMO = '''#!/bin/bash
# Run in the root of the repository.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def clone():
    os.makedirs(SCRATCH, exist_ok=True)
    d = tempfile.mkdtemp(dir=SCRATCH)
    subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    return d, d + '/repo'

def make(id, prop, edits, needs, breaks, demo):
    d, r = clone()
    try:
        for f, old, new in edits:
            s = open(f'{r}/{f}').read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(f'{r}/{f}', 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True, check=True).stdout
        out = SEEDED / id
        out.mkdir(parents=True, exist_ok=True)
        (out / 'patch.diff').write_text(diff)
        (out / 'demo.sh').write_text(DEMO)
        (out / 'demo.py').write_text(textwrap.dedent(demo).lstrip('\n'))
        (out / 'meta.json').write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + '\n')
    finally:
        shutil.rmtree(d)

def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env), capture_output=True, text=True, timeout=1200)

def verify(id, checks=()):
    """Returns a dict of what was found."""
    out, src = {}, SEEDED / id
    meta = json.loads((src / 'meta.json').read_text())
    d, r = clone()
    try:
        demo = lambda: run(['bash', str(src / 'demo.sh')], r)
        first = demo()
        out['demo clean'] = first.returncode == 0 or first.stdout[-500:] + first.stderr[-500:]
        # Lines of the original repository only.
        added = set()
        diff = (src / 'patch.diff').read_text()
        f = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                k = int(m[1])
            elif l.startswith('-') and not l.startswith('---'):
                added.add((f, k)); k += 1
            elif l.startswith(' '):
                k += 1
        own = []
        for f in {f for f, _ in added}:
            lines = run(['git', 'blame', '-s', '-l', 'HEAD', '--', f], r).stdout.splitlines()
            own += [(f, k) for g, k in added if g == f and not lines[k - 1].lstrip('^').startswith(BASE)]
        out['lines'] = 'only insertions' if not added else 'original' if not own else f'OWN {own}'
        a = run(['git', 'apply', str(src / 'patch.diff')], r)
        out['applies'] = a.returncode == 0 or a.stderr
        t = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300'], r)
        out['tests'] = t.returncode == 0 or t.stdout[-800:]
        bad = demo()
        out['demo fails'] = bad.returncode != 0
        out['demo says'] = (bad.stdout + bad.stderr).strip().splitlines()[-1:]
        for c in checks or [meta['property']]:
            k = run([PY, '-m', 'vf.run', c], str(HERE), VERIF_REPO=r)
            out['check ' + c] = (k.returncode, (k.stdout + k.stderr).strip()[-300:])
    finally:
        shutil.rmtree(d)
    return out

if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir())
    for id in ids:
        o = verify(id)
        c = [v for k, v in o.items() if k.startswith('check')][0]
        fine = o['demo clean'] is True and o['applies'] is True and o['tests'] is True and o['demo fails'] and not o['lines'].startswith('OWN')
        print(f'{id}: {"counts" if fine else "DOES NOT COUNT"}, {"caught" if c[0] == 1 else "MISSED" if c[0] == 0 else "ERROR"}', flush=True)
        if not fine:
            print('   ', {k: v for k, v in o.items() if not k.startswith('check')})
        print('   ', c, o['demo says'], o['lines'], flush=True)
