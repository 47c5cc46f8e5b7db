#!/usr/bin/env python3
"""writes DESIGN.md"""
import json, os, sys, glob, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, TOP)
props = [json.loads(l) for l in open(os.path.join(TOP, 'properties.jsonl'))]
man = json.load(open(os.path.join(TOP, 'MANIFEST.json')))
tech = {c['property']: c['technique'] for c in man['checks']}
na = {n['property']: n['reason'] for n in man['not_applicable']}
out = [open(os.path.join(HERE, 'head.md')).read(), '## 2. Properties and how each is decided\n\n']
fixed = {}
for l in open(os.path.join(TOP, 'known_findings.txt')):
    if l.startswith('fixed: property='):
        i = l.split('property=')[1].split()[0]
        fixed.setdefault(i, []).append(l.split(None, 3)[2])
for p in props:
    i = p['id']
    if i not in tech:
        continue
    m = importlib.import_module('sa.rules.' + i.lower())
    e = {}
    f = os.path.join(TOP, 'evidence', i + '.json')
    if os.path.exists(f):
        e = json.load(open(f))
    out.append('### %s %s\n\n%s\n\n' % (i, p['title'], p['statement']))
    out.append('*Technique*: %s. %s\n\n' % (tech[i], m.EXPLAIN))
    out.append('*Why tests cannot*: %s\n\n' % p['why_tests_cant'])
    out.append('*Rules*:\n')
    for r, t in m.RULES.items():
        out.append('* `%s`: %s\n' % (r, t))
    out.append('\n')
    if getattr(m, 'ASSUME', None):
        out.append('*Assumed*: %s.\n\n' % '; '.join(m.ASSUME))
    if e and e.get('tier') == 'quick':
        out.append('*Cost and reach* (quick): about %d s; %d roots, %d abstract paths, %d obligations. No bound on inputs, histories or '
                   'schedules.\n\n' % (max(5, 5 * round(e['wall_s'] / 5)), len(e['coverage']['roots']), e['coverage']['abstract_paths'], e['coverage']['obligations']))
    if i in fixed:
        out.append('*Defects repaired*: %s.\n\n' % ', '.join(fixed[i]))
tail = open(os.path.join(HERE, 'tail.md')).read()
nas = ''
for p in props:
    if p['id'] in na:
        nas += '* **%s %s**: %s\n' % (p['id'], p['title'], na[p['id']])
seeds = '| seed | property | needs | what it breaks |\n|---|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(TOP, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    seeds += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'], d['what_it_breaks'])
out.append(tail.replace('%NA%', nas).replace('%SEEDS%', seeds))
open(os.path.join(TOP, 'DESIGN.md'), 'w').write(''.join(out))
