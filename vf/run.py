"""
python -m vf.run C01                 run the check of property C01 (VERIF_SEED, VERIF_TIER)
python -m vf.run C01 --replay FILE   run the one case recorded in a replay file
"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from vf import core

PYTHON = sys.executable


def known_findings(prop):
    """Lines 'known: property=<id> scenario=<s> match=<substring>' of the committed file."""
    found = []
    path = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith(f'known: property={prop} ') and ' match=' in line:
                scenario = line.split(' scenario=')[1].split(' ')[0]
                match = line.split(' match=')[1].strip()
                found.append((scenario, match))
    return found


def env_for(worker, seed):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPATH'] = core.VERIF
    # Different hash seeds in different workers: orders of sets of strings must not matter.
    env['PYTHONHASHSEED'] = str((seed * 31 + worker * 7919) % 4294967295)
    for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[var] = '1'
    return env


def replay(prop, path):
    v = json.load(open(path))
    sys.path.insert(0, core.REPO)
    suite = core.load_suite(prop)
    sc = next(s for s in suite.scenarios if s.name == v['scenario'])
    ctx = core.Ctx(prop, v['tier'])
    if sc.setup:
        sc.setup()
    result = core.run_case(ctx, sc, v['seed'], v['case'])
    if result is None:
        print('The recorded case passes.')
        return 0
    print(json.dumps(result, indent=1, ensure_ascii=False))
    return 1


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == '--replay':
        return replay(prop, sys.argv[3])

    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    # Soft: workers stop starting new cases.  Hard: workers are ended.
    soft, hard = (240, 700) if tier == 'quick' else (2400, 3600)
    started = time.monotonic()
    sys.path.insert(0, core.REPO)
    suite = core.load_suite(prop)
    total = max(2, min(8, os.cpu_count() or 2))
    scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
    procs, results = [], []
    try:
        for k in range(total):
            out = os.path.join(scratch, f'{k}.json')
            log = open(os.path.join(scratch, f'{k}.log'), 'wb')
            cmd = [PYTHON, '-m', 'vf.core', prop, tier, str(seed), str(k), str(total), str(soft), out]
            procs.append((subprocess.Popen(cmd, cwd=scratch, env=env_for(k, seed), stdout=log, stderr=log, stdin=subprocess.DEVNULL), out))
        problems = []
        if os.environ.get('VERIF_FAILFAST'):
            # For mutation campaigns: the first violation ends the run.
            while any(p.poll() is None for p, _ in procs) and time.monotonic() - started < hard:
                time.sleep(.05)
                if any(p.poll() is not None and os.path.exists(out) and json.load(open(out))['violations'] for p, out in procs):
                    break
            for p, _ in procs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        for k, (p, out) in enumerate(procs):
            try:
                p.wait(timeout=max(1, hard - (time.monotonic() - started)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                problems.append(f'worker {k} did not end within {hard} s')
                continue
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                tail = open(os.path.join(scratch, f'{k}.log'), errors='replace').read()[-1500:]
                problems.append(f'worker {k} ended with {p.returncode}: {tail}')
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    hits = collections.Counter()
    seen, samples, violations, timings, cut = set(), [], [], collections.Counter(), []
    evaluations = cases = 0
    for r in results:
        hits.update(r['hits'])
        seen.update(r['seen'])
        samples += r['samples']
        violations += r['violations']
        for name, t in r['timings'].items():
            timings[name] = max(timings[name], t)
        cut += r['cut']
        evaluations += r['evaluations']
        cases += r['cases']
        if r['fatal']:
            problems.append(r['fatal'])

    # The import of the code under test failing in every worker is a verdict about that code.
    listed = known_findings(prop)
    real, known = [], set()
    for v in violations:
        match = next((f'{s} {m}' for s, m in listed if s == v['scenario'] and m in v['message']), None)
        if match:
            known.add(match)
        else:
            real.append(v)

    missing = {k: (hits.get(k, 0), need) for k, need in suite.require.items() if hits.get(k, 0) < need}
    coverage = dict(
        evaluations=evaluations, distinct_nontrivial=len(seen), rule=suite.rule,
        samples=[s for i, s in enumerate(samples) if i < 14],
        cases=cases, observed=dict(sorted(hits.items())), workers=len(results),
        seconds_by_scenario=dict(timings), cut_short=cut[:10], exhaustive=False,
    )
    evidence = dict(property=prop, tier=tier, seed=seed, level=suite.level, coverage=coverage,
                    assumptions=suite.assumptions, wall_s=round(time.monotonic() - started, 2), violations=len(real))
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    text = json.dumps(evidence, indent=1, ensure_ascii=False)
    while len(text.encode()) > 60000 and coverage['samples']:
        coverage['samples'].pop()
        text = json.dumps(evidence, indent=1, ensure_ascii=False)
    with open(os.path.join(core.VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        f.write(text + '\n')

    for k in sorted(known):
        print(f'KNOWN-FINDING: property={prop} {k}')

    if real:
        os.makedirs(os.path.join(core.VERIF, 'evidence', 'replay'), exist_ok=True)
        by_scenario = {}
        for v in real:
            by_scenario.setdefault(v['scenario'], v)
        for i, v in enumerate(by_scenario.values()):
            path = os.path.join('evidence', 'replay', f'{prop}-{i}.json')
            with open(os.path.join(core.VERIF, path), 'w') as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            print(f'VIOLATION property={prop} replay={path}')
            print(f"  {v['scenario']}[{v['case']}]: {core.short(v['message'], 600)}")
        return 1

    if problems:
        print(f'{prop}: no verdict: ' + '; '.join(problems))
        return 3
    if missing:
        print(f'{prop}: no verdict: the monitors observed too little: {missing} (cut short: {cut})')
        return 4
    print(f'{prop}: held on {evaluations} evaluations in {cases} cases ({len(seen)} distinct), {evidence["wall_s"]} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
