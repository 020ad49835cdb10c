"""Writes MANIFEST.json: a check for every vf/checks/cNN.py, and the other properties as not (yet) claimed."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
from vf import core  # noqa: E402

checks, rest = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if not os.path.exists(os.path.join(ROOT, 'vf', 'checks', prop.lower() + '.py')):
        rest.append(dict(property=prop, reason='No check has been built for it yet.'))
        continue
    suite = core.load_suite(prop)
    cmd = f'/opt/venv/bin/python -m vf.run {prop}'
    note = 'Every execution of the generated workloads was judged by an independent oracle; inputs outside them are not covered.'
    if suite.assumptions:
        note += ' Assumes: ' + ' '.join(suite.assumptions)
    checks.append(dict(property=prop, quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, evidence_file=f'evidence/{prop}.json',
                       technique=getattr(suite, 'technique', None) or 'runtime monitoring with an independent oracle under generated workloads',
                       level=suite.level, level_note=note))
manifest = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, pandas"', checks=checks, not_applicable=rest,
                notes='No hooks in /repo. VERIF_SEED and VERIF_TIER select the cases; python -m vf.run <id> --replay <file> repeats a recorded one.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(rest), 'not claimed')
