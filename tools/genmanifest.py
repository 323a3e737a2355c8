#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import props
NA = {'C39': 'Behaviour on weakly ordered hardware depends on which reorderings the target performs; the code has no barriers or atomics to check and no memory model to check against, so no source-level rule separates correct from broken here (the sequentially consistent part is C02).',
      'C40': 'A bound on accumulated float rounding over an arbitrary long input history needs relational numeric error analysis over unbounded runtime values; no static rule in reach gives a useful bound.'}
allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': [], 'not_applicable': []}
for p in allp:
    if p in props.SPECS:
        s = props.SPECS[p]
        m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough', 'evidence_file': f'evidence/{p}.json', 'technique': s['technique'], 'level': s['level'], 'level_note': s['note'] + ' Trusts the analyser (engine/), clang 18 front end and its x86-64 layout.'})
    else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
