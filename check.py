#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by static analysis of /repo's current sources.
Exit 0: every obligation established. Exit 1: a VIOLATION line was printed. Exit 2: the analysis could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/tools')
import gelsa, props

def known():
    """entries 'finding: property=<id> match=<regex over "entry|where|message">' in known_findings.txt"""
    out = []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'finding: property=(\w+) match=(.*)$', l.strip())
        if m: out.append((m[1], re.compile(m[2])))
    return out

def run_unit(pid, spec, unit, work, limit, run):
    name, contract, defs = unit[0], unit[1], list(unit[2])
    res = {'unit': name, 'contract': contract, 'definitions': defs}
    t = time.time()
    if run.stop: return dict(res, result={'violations': []}, sources=0, seconds=0)
    bc, srcs = gelsa.build(contract, defs, spec['dirs'], work, name)
    made, lock = {}, threading.Lock()
    def variant(tag, extra, norm):
        def make():
            with lock:
                if tag not in made: made[tag] = gelsa.build(contract, defs + extra, spec['dirs'], work, f'{name}_{tag}', norm)[0]
                return made[tag]
        return make
    B = ['-DGEL_BOUNDED']
    variants = [('mux', False, variant('mux', [], True))]
    if 'GEL_BOUNDED' in open(f'{V}/contracts/{contract}').read():
        variants += [('bounded sizes', True, variant('bounded', B, False)), ('bounded sizes, mux', True, variant('bmux', B, True))]
    r = gelsa.analyse(bc, spec.get('prefix', pid + '_'), f'{work}/{name}.json', limit, run, variants, lambda e: (pid, name) in props.SOFT_UNITS or props.SOFT_ENTRIES.search(e))
    if r['fallback']: res['fallback'] = r['fallback']
    if r['undecided']: res['undecided'] = r['undecided']
    res.update(result=r, sources=len(srcs), seconds=round(time.time() - t, 2))
    return res

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    spec = props.SPECS[pid]; t0 = time.time()
    os.makedirs(V + '/evidence', exist_ok=True)
    if not all(os.path.exists(V + '/build/' + x) for x in ('gelsa', 'effects')):
        subprocess.run(['make', '-s', '-C', V + '/engine'], check=True)
    work = tempfile.mkdtemp(prefix='gelsa_' + pid + '_')
    kn = [r for p, r in known() if p == pid]
    key = lambda v: f"{v['entry']}|{v['where']}|{v['message']}"
    is_known = lambda v: any(r.search(key(v)) for r in kn)
    shared = gelsa.Run(780, is_known)
    units = list(spec['units']) + (list(spec.get('thorough', [])) if tier == 'thorough' else [])
    viol, results, cov0 = [], [], None
    try:
        if 'structural' in spec:
            import structural
            cov0, viol = structural.run(pid, spec, work)
        if units:
            with ThreadPoolExecutor(4) as ex:
                futs = [(u, ex.submit(run_unit, pid, spec, u, work, 700 if tier == 'thorough' else 150, shared)) for u in units]
                for u, f in futs:
                    try: r = f.result()
                    except gelsa.BuildError as e:
                        if not e.lib: raise
                        results.append({'unit': u[0], 'contract': u[1], 'definitions': u[2], 'sources': 0, 'seconds': 0, 'result': {'violations': []}})
                        viol.append({'unit': u[0], 'entry': '', 'where': str(e).split(' does not')[0], 'message': 'the library does not compile in a supported configuration: ' + str(e)[:1500]}); continue
                    results.append(r)
                    for v in r['result']['violations']: viol.append(dict(v, unit=u[0]))
    except gelsa.BuildError as e:
        print(f'check error: {e}', file=sys.stderr); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    hit, new = [v for v in viol if is_known(v)], [v for v in viol if not is_known(v)]
    new.sort(key=lambda v: bool(v.get('incomplete')))
    replay = f'{V}/evidence/{pid}.violations.json'
    if os.path.exists(replay): os.remove(replay)
    for v in hit: print(f"KNOWN-FINDING: property={pid} {v['entry']} {v['where']}: {v['message']}")
    if new:
        json.dump(new, open(replay, 'w'), indent=1)
        for v in new[:10]: print(f"  [{v['unit']}] {v['entry']}: {v['message'][:400]} @ {v['where']}")
        print(f'VIOLATION property={pid} replay={replay}')
    cov = coverage(spec, results, new, hit, cov0)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'other'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + props.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    return 1 if new else 0

def coverage(spec, results, new, hit, cov0=None):
    cov = {'explanation': spec['how'], 'rule': 'an obligation is one gel_prove of the contract (or one implicit check: access in bounds, no null dereference, no division by zero, defined shift, loop bounded, callee known) on one abstract state; every abstract state reaching it must entail it'}
    if cov0 and not results: cov.update(cov0); return cov
    tot = lambda k: sum(r['result'].get(k, 0) for r in results)
    fns = sorted({f.split(':')[0] for r in results for f in r['result'].get('functions', [])})
    obl = {}
    for r in results:
        for k, n in r['result'].get('obligations', {}).items(): obl[k] = obl.get(k, 0) + n
    cov.update(units=[{k: r[k] for k in ('unit', 'contract', 'definitions', 'sources', 'seconds', 'fallback', 'undecided') if k in r} | {'entry_points': r['result'].get('entry_names', [])} for r in results],
               functions_analysed=len(fns), functions=fns, basic_blocks_covered=tot('repo_blocks'), call_sites=tot('call_sites'), abstract_states=tot('states'), paths_to_exit=tot('paths'), instructions_interpreted=tot('instructions'),
               exact_joins=tot('joins'), generalising_joins=tot('lossy_joins'), memory_accesses_checked=tot('memory_accesses_checked'), entailment_queries=tot('entailment_queries'),
               distinct_obligations=len(obl), obligations=sum(obl.values()) + len(new) + len(hit), discharged=sum(obl.values()), samples=[f'{k} (discharged on {n} abstract states)' for k, n in list(obl.items())[:8]])
    if cov0: cov['interpreted'] = {k: v for k, v in cov.items() if k not in ('explanation', 'samples')}; cov['rule'] += '; and: ' + cov0['rule']; cov.update({k: v for k, v in cov0.items() if k not in ('rule', 'obligations', 'discharged', 'distinct_obligations', 'functions', 'samples')}, functions=sorted(set(fns) | set(cov0['functions']))[:400], samples=cov0['samples'] + cov['samples'], **{k: cov0[k] + cov[k] for k in ('obligations', 'discharged', 'distinct_obligations')})
    return cov
if __name__ == '__main__': sys.exit(main())
