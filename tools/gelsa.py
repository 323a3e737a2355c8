#!/usr/bin/env python3
"""Builds the LLVM module for one unit (contract + all library sources, from /repo's working tree) and runs the analyser."""
import glob, json, os, re, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GELSA_REPO', '/repo')   # the variable is for development only
LL = '/usr/lib/llvm-18/bin/'
CFLAGS = ['-std=gnu17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-ffp-contract=off', '-fno-discard-value-names', '-emit-llvm', '-c', '-w',
          '-I' + REPO, '-I' + REPO + '/gel', '-I' + V + '/contracts', '-I' + V]
LIBC = ['-isystem', V + '/contracts/ilp32', '-isystem', '/usr/include/x86_64-linux-gnu']   # the declarations of the C library for another target
ILP32 = ['-m32', '-msse2'] + LIBC   # 32-bit long, size_t and pointers
ILP16 = ['--target=msp430', '-ffreestanding', '-isystem', V + '/contracts/ilp16'] + LIBC + ['-isystem', '/usr/include']   # 16-bit int, size_t and pointers, 32-bit long
DEFS = ['-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"', '-DGEL_PARAMETER_CONFIGURATION_HEADER="gel_conf.h"',
        '-DGEL_SCHEDULER_CONFIGURATION_HEADER="gel_conf.h"', '-DGEL_PID_CONFIGURATION_HEADER="gel_conf.h"', '-DGEL_CBUFFER_CONFIGURATION_HEADER="gel_conf.h"']

class BuildError(Exception):
    def __init__(self, msg, lib=False):
        super().__init__(msg); self.lib = lib

def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

WRAP = ['-fwrapv', '-fno-delete-null-pointer-checks', '-fno-strict-aliasing']   # so that simplifycfg keeps what the analyser checks
def build(contract, defs, need, work, tag, norm=False):
    """contract: file under contracts/ ; need: library directories that must compile; norm: branches that only choose a value become selects"""
    srcs = sorted(glob.glob(REPO + '/gel/**/*.c', recursive=True))
    jobs = [(V + '/contracts/' + contract, True)] + [(s, any(s.startswith(REPO + '/gel/' + n + '/') for n in need)) for s in srcs]
    def comp(j):
        i, (src, must) = j
        out = f'{work}/{tag}.{i}.bc'
        rc, log = run([LL + 'clang'] + CFLAGS + (WRAP if norm else []) + DEFS + [x for d in defs for x in {'-m32': ILP32, '-m16': ILP16}.get(d, [d])] + ['-o', out, src])
        return (src, must, rc, log, out)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, enumerate(jobs)))
    objs, skipped = [], []
    for src, must, rc, log, out in res:
        if rc:
            if must: raise BuildError(f'{src} does not compile with {defs}:\n{log[:3000]}', src.startswith(REPO) or re.search('^' + re.escape(REPO) + r'/\S+: (error:|note: expanded from macro)', log, re.M) is not None)
            skipped.append(src)
        else: objs.append(out)
    linked, opted = f'{work}/{tag}.linked.bc', f'{work}/{tag}.bc'
    rc, log = run([LL + 'llvm-link', '-o', linked] + objs)
    if rc: raise BuildError('llvm-link: ' + log[:3000])
    rc, log = run([LL + 'opt', '-passes=function(sroa,mem2reg,instsimplify' + (',simplifycfg' if norm else '') + ')', '-o', opted, linked])
    if rc: raise BuildError('opt: ' + log[:3000])
    return opted, [s for s in srcs if s not in skipped]

class Run:
    """what the units of one check share: a deadline, and the early stop once a definite violation is known"""
    def __init__(self, seconds=1e9, is_known=lambda v: False):
        self.deadline, self.is_known, self.stop, self.procs, self.lock = time.time() + seconds, is_known, False, set(), threading.Lock()
    def left(self): return self.deadline - time.time()
    def found(self, vs):
        if any(not v['incomplete'] and not self.is_known(v) for v in vs):
            with self.lock:
                self.stop = True
                for p in self.procs: p.kill()

def incomplete(entry, msg): return {'violations': [{'incomplete': True, 'entry': entry, 'where': '', 'message': msg, 'stack': [], 'path': []}]}

RESOURCE = re.compile('time limit|too many disjuncts|ended with|did not stop|the time of this check ran out')
SOFT_LIMIT = 100

def analyse(bc, prefix, out, limit, run=None, variants=(), soft=lambda e: False):
    """one process per entry point; merges their results.
    variants: (name, bounded, build) tried in turn on an entry that was not established: every variant is a sound analysis of the
    same code, so one that establishes the obligations settles the entry (a bounded one only if nothing was refuted)
    soft(entry): an entry that goes beyond what its property rests on (long tables, large windows). It is analysed within a smaller
    limit, and when it only ran out of time or memory it is recorded as undecided: code written differently may be out of its reach"""
    run = run or Run()
    exe = os.environ.get('GELSA_EXE', V + '/build/gelsa')
    p = subprocess.run([exe, bc, prefix, '--list'], capture_output=True, text=True)
    if p.returncode: raise BuildError('gelsa --list: ' + p.stderr[:2000])
    ents = [l[6:] for l in p.stdout.splitlines() if l.startswith('ENTRY ')]
    declared = {l[6:] for l in p.stdout.splitlines() if l.startswith('LABEL ')}
    only = os.environ.get('GELSA_ONLY')
    if only: ents = [e for e in ents if only in e]
    if not ents: raise BuildError('no entry points ' + prefix)
    def attempt(e, bc, o, limit, mux):
        lim = min(limit, run.left() - 5)
        if lim < 2: return incomplete(e, 'not analysed: the time of this check ran out')
        with run.lock:
            if run.stop: return {'violations': [], 'cancelled': 1}
            p = subprocess.Popen([exe, bc, prefix, o, str(int(lim))], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=dict(os.environ, GELSA_ENTRY=e, **({'GELSA_MUX': '1'} if mux else {})))
            run.procs.add(p)
        try: err = p.communicate(timeout=max(min(3 * lim, run.left() - 5), 1))[1]   # its own limit counts CPU time
        except subprocess.TimeoutExpired: p.kill(); p.communicate(); return incomplete(e, 'the analysis did not stop in its time')
        finally:
            with run.lock: run.procs.discard(p)
        if p.returncode not in (0, 1):
            if run.stop: return {'violations': [], 'cancelled': 1}
            return incomplete(e, f'the analysis of this entry ended with {p.returncode}: {err[-300:]}')
        r = json.load(open(o)); os.remove(o); r['log'] = err; return r
    def one(e):
        sf = soft(e); lim = min(limit, SOFT_LIMIT if limit < 500 else 300) if sf else limit
        r = attempt(e, bc, f'{out}.{e}', lim, False)
        if sf and r['violations'] and all(v['incomplete'] and RESOURCE.search(v['message']) for v in r['violations']):
            return {'violations': [], 'undecided': f"{e}: {r['violations'][0]['message'][:200]}"}
        if r['violations']:
            refuted = any(not v['incomplete'] for v in r['violations'])
            for name, bounded, make in variants:
                if bounded and refuted: continue
                try: r2 = attempt(e, make(), f'{out}.{e}.{name}', lim, 'mux' in name)
                except BuildError: continue
                if not r2['violations']: r = r2 if r2.get('cancelled') else dict(r2, fallback=f"{e}: {name}, because: {r['violations'][0]['message'][:200]}"); break
        run.found(r['violations']); return r
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, ents))
    m = {'obligations': {}, 'violations': [], 'entry_names': ents, 'entries': len(ents), 'log': '', 'cancelled': 0}
    sites, blocks, fns = set(), set(), set()
    for r in rs:
        for k in ('paths', 'states', 'instructions', 'forks', 'joins', 'lossy_joins', 'memory_accesses_checked', 'entailment_queries', 'refutations', 'obligations_checked', 'seconds', 'cancelled'): m[k] = m.get(k, 0) + r.get(k, 0)
        for k, n in r.get('obligations', {}).items(): m['obligations'][k] = m['obligations'].get(k, 0) + n
        m['violations'] += r['violations']; sites |= set(r.get('sites', [])); blocks |= set(r.get('blocks', [])); fns |= {f.split(':')[0] for f in r.get('functions', [])}; m['log'] += r.get('log', '')
    m['fallback'] = [r['fallback'] for r in rs if 'fallback' in r]; m['undecided'] = [r['undecided'] for r in rs if 'undecided' in r]
    m.update(call_sites=len(sites), repo_blocks=len(blocks), functions=sorted(fns), repo_functions=len(fns))
    if not m['violations'] and not only and not m['cancelled'] and not m['undecided']:
        for l in sorted(declared - set(m['obligations'])): m['violations'].append({'incomplete': False, 'entry': '', 'where': '', 'message': f'obligation "{l}" was never reached (vacuous)', 'stack': [], 'path': []})
    m['violations'] and json.dump(m['violations'], open(out, 'w'))
    return m
if __name__ == '__main__':   # gelsa.py contract.c prefix dir... [-Ddef...]
    w = '/tmp/gelsa_dev'; os.makedirs(w, exist_ok=True)
    os.environ['GELSA_V'] = '1'
    a = [x for x in sys.argv[1:] if not x.startswith(('-D', '-m'))]; d = [x for x in sys.argv[1:] if x.startswith(('-D', '-m'))]
    bc, _ = build(a[0], d, a[2:], w, 'dev')
    r = analyse(bc, a[1], w + '/out.json', 600)
    sys.stderr.write(r['log'])
    print({k: r[k] for k in ('entries', 'paths', 'states', 'joins', 'lossy_joins', 'repo_functions', 'obligations_checked', 'seconds')}, len(r['violations']), 'violations')
