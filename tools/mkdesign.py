"""Writes DESIGN.md: the text below, and per property what its suite says of itself, the planted bugs and the repairs."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
from vf import core  # noqa: E402

HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
EXTRA = json.load(open(os.path.join(ROOT, 'tools', 'design_notes.json')))

fixes, seeds = {}, {}
for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
    if line.startswith('fixed: property='):
        prop, commit, text = line[len('fixed: property='):].strip().split(' ', 2)
        fixes.setdefault(prop, []).append((commit, text))
base = os.path.join(ROOT, 'seeded')
for name in sorted(os.listdir(base)) if os.path.isdir(base) else ():
    meta = json.load(open(os.path.join(base, name, 'meta.json')))
    seeds.setdefault(meta['property'], []).append((name, meta['what_it_breaks']))

out = [HEAD.rstrip(), '']
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    prop = p['id']
    s = core.load_suite(prop)
    note = EXTRA.get(prop, {})
    out += [f'### {prop} {p["title"]}', '', f'*Specified*: {p["statement"]}', '', f'*Monitored*: {s.rule}', '']
    out += ['*Scenarios* (cases quick / thorough): ' + ', '.join(f'{x.name} {x.quick}/{x.thorough}' for x in s.scenarios) + '.', '']
    out += ['*The quick run has no verdict unless the monitors observed at least*: ' + ', '.join(f'{k} {v}' for k, v in s.require.items()) + '.', '']
    out += [f'*Why tests cannot settle it*: {p["why_tests_cant"]}', '']
    if s.assumptions:
        out += ['*Assumes*: ' + ' '.join(s.assumptions), '']
    if note.get('bounds'):
        out += ['*Left out*: ' + note['bounds'], '']
    if fixes.get(prop):
        out += ['*Defects found and repaired*: ' + '; '.join(f'{t} ({c})' for c, t in fixes[prop]) + '.', '']
    if seeds.get(prop):
        out += ['*Planted bugs* (all reported by this check): ' + ' '.join(f'`{n}`: {t}' for n, t in seeds[prop]), '']
out += [TAIL.rstrip(), '']
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
