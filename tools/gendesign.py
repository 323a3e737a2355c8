#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, with the per-property part taken from props.py, properties.jsonl and seeded/."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {x['property']: x['reason'] for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']}
SEEDS = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); SEEDS.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 6. Property by property', '']
for p in P:
    i = p['id']
    out += [f"### {i} {p['title']}", '']
    if i in NA: out += [f'**Not applicable.** {NA[i]}', '']; continue
    s = props.SPECS[i]
    out += [f"*How.* {s['how']}", '', f"*Bounds.* {s['note']}", '']
    if s['units']:
        out += ['*Units.* quick: ' + ', '.join(f"`{u[0]}`" + (f" ({' '.join(u[2])})" if u[2] else '') for u in s['units']) + ('; thorough adds: ' + ', '.join(f"`{u[0]}` ({' '.join(u[2])})" for u in s['thorough']) if s['thorough'] else '; thorough: the same units with a longer time limit per entry') + f". Contract: `contracts/{s['units'][0][1]}`.", '']
    if i in SEEDS: out += ['*Planted bugs, each reported by this check:* ' + ', '.join(n for n, _ in SEEDS[i]) + '.', '']
out += [open(V + '/tools/design_tail.md').read().rstrip(), '', '## 9. Planted bugs', '',
        'Each was confirmed in a scratch copy: it builds, passes the 53 stable tests, and its demonstration fails with it and passes without. The quick check of its property reports it.', '', '| bug | what it breaks | what it needs |', '|---|---|---|']
for pr in sorted(SEEDS):
    for n, d in SEEDS[pr]: out.append(f"| {n} | {d['what_it_breaks']} | {d['needs']} |".replace('\n', ' '))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
