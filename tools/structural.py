"""C38, C42 to C45: rules over the syntax and the LLVM modules of the whole library, in every configuration."""
import glob, json, os, re, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import gelsa
V, REPO = gelsa.V, gelsa.REPO
CONFIGS = {'default': [], 'malloc': ['-DGEL_MALLOC_AVAILABLE=1'], 'reduced_watcher': ['-DGEL_WATCHER_REDUCE_RAM_FOOTPRINT'], 'dynamic_scheduler': ['-DGEL_SCHEDULER_DYNAMIC_ENTRIES'],
           'ndebug': ['-DNDEBUG'], 'param1': ['-DGEL_PARAMETER_MAX_SIZE=1'], 'param2': ['-DGEL_PARAMETER_MAX_SIZE=2'], 'param4': ['-DGEL_PARAMETER_MAX_SIZE=4'],
           'pman_update': ['-DGEL_PAGEMANAGER_UPDATE_CALLBACK'], 'timestamp32': ['-DGEL_CUSTOM_TIMESTAMP_TYPE=uint32_t', '-DGEL_IGNORE_TIME_TYPECHECK'], 'cbuf32': ['-DGEL_CBUF_TYPE=uint32_t'],
           'ilp32': gelsa.ILP32, 'ilp16': gelsa.ILP16}   # a target with 32-bit long, size_t and pointers
HEAP = {'malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'strdup'}
# helpers without effects other than on the memory they are given
PURE = {'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strnlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strchr', 'strrchr', 'abs', 'labs', 'llabs', 'fabs', 'fabsf', 'fmin', 'fmax', 'fminf', 'fmaxf',
        'floor', 'ceil', 'round', 'floorf', 'ceilf', 'roundf', 'isnan', '__isnan', '__isnanf', '__memcpy_chk', '__memset_chk', '__memmove_chk'}
FORMAT = {'sprintf', 'snprintf', 'vsprintf', 'vsnprintf', '__sprintf_chk', '__snprintf_chk'}
ASSERT = {'__assert_fail', '__assert', '__assert_rtn'}
def heap_allowed(src, conf):
    f = src[len(REPO):]
    return f.startswith('/gel/data_structures/struct_update') or (f.startswith('/gel/data_structures/watcher') and conf == 'malloc') or (f.startswith('/gel/scheduler/') and conf == 'dynamic_scheduler')
INLINE = ['-Dinline=__attribute__((used))']
def modules(work, configs, flags=(), passes='-passes=function(sroa,mem2reg,instsimplify)'):
    """(configuration, source, facts or None, compiler output) for every library source and for the header-only parts"""
    srcs = sorted(glob.glob(REPO + '/gel/**/*.c', recursive=True))
    jobs = [(c, s, []) for c in configs for s in srcs] + [(c, V + '/contracts/C38.c', INLINE) for c in configs]
    def one(j):
        i, (conf, src, extra) = j; out = f'{work}/e{i}.bc'
        rc, log = gelsa.run([gelsa.LL + 'clang'] + list(flags) + gelsa.CFLAGS + gelsa.DEFS + CONFIGS[conf] + extra + ['-o', out, src])
        if rc: return conf, src, None, log
        if passes: rc, log = gelsa.run([gelsa.LL + 'opt', *passes.split(), '-o', out, out])
        p = subprocess.run([V + '/build/effects', out], capture_output=True, text=True)
        if rc or p.returncode: raise gelsa.BuildError('effects: ' + log + p.stderr)
        os.remove(out); return conf, src, json.loads(p.stdout), ''
    with ThreadPoolExecutor(8) as ex: return srcs, list(ex.map(one, enumerate(jobs)))
class Report:
    def __init__(self, entry): self.entry, self.viol, self.seen = entry, [], set()
    def __call__(self, conf, where, msg):
        where = where.replace(REPO + '/', '')
        if (where, msg) not in self.seen: self.seen.add((where, msg)); self.viol.append({'unit': conf, 'entry': self.entry, 'where': where, 'message': msg, 'incomplete': False})
    def cov(self, n, count, functions, **kw): return dict(n, obligations=count, discharged=count - len(self.viol), functions=sorted(functions)[:400], **kw)
NOBUILD = 'the library does not compile in a supported configuration: '
def options_(work):
    import options
    return options.check(work, Report)
def run(pid, spec, work): return {'C47': options_, 'C38': hidden_state, 'C42': headers, 'C43': bounded, 'C44': assertions, 'C45': frames}[pid](work)
def hidden_state(work):
    srcs, res = modules(work, CONFIGS)
    viol, seen = [], set()
    def bad(conf, where, msg):
        if (where, msg) not in seen: seen.add((where, msg)); viol.append({'unit': conf, 'entry': 'effects', 'where': where, 'message': msg, 'incomplete': False})
    defined = set()
    for conf, src, d, log in res:
        if d: defined |= set(d['functions'])
    n = dict(modules=0, functions=0, globals=0, external_uses=0, direct_calls=0, indirect_calls=0, writes_outside_the_frame=0)
    kinds = {}
    for conf, src, d, log in res:
        if d is None: bad(conf, src, 'the library does not compile in a supported configuration: ' + log[:600]); continue
        n['modules'] += 1; n['functions'] += len(d['functions']); n['globals'] += len(d['globals']); n['direct_calls'] += d['direct_calls']
        for g in d['globals']:
            if not g['constant']: bad(conf, g['where'] or src, f"mutable {'thread-local ' if g['thread_local'] else ''}object '{g['name']}' {'kept' if g['defined'] else 'used'} outside the structures the functions are given")
        if d['module_asm']: bad(conf, src, 'assembly outside functions')
        for w in d['asm']: bad(conf, w, 'inline assembly: effects unknown')
        for u in d['uses']:
            n['external_uses'] += 1; f = u['fn']
            if f in HEAP:
                if not heap_allowed(src, conf): bad(conf, u['where'], f"dynamic memory ({f}) used where the library promises not to")
            elif f in ASSERT:
                if conf == 'ndebug': bad(conf, u['where'], 'an assertion is compiled in although assertions are disabled')
            elif f not in defined and f not in PURE and f not in FORMAT: bad(conf, u['where'], f"'{f}' is not part of the library, not a registered callback, nor a pure helper")
        for kind, what in (('indirect', 'call'), ('writes', 'write')):
            for x in d[kind]:
                n['indirect_calls' if kind == 'indirect' else 'writes_outside_the_frame'] += 1
                src_k = x.get('from', x.get('to')).split(',') if x.get('from', x.get('to')) else ['unknown']
                kinds[(what, ','.join(src_k))] = kinds.get((what, ','.join(src_k)), 0) + 1
                for k in src_k:
                    if k.startswith('fn:') and k[3:] in defined or k.startswith('arg') or k in ('local', 'heap', 'const') or k.startswith('call:') and k[5:] in defined | PURE | HEAP | {'(indirect)'} or k.startswith('call:llvm.'): continue
                    if k.startswith('fn:') and (k[3:] in PURE): continue
                    if k.startswith('global:') and what == 'call': continue    # constant table: its members are checked as fn:
                    bad(conf, x['where'], f'{what} through a pointer that does not come from the arguments ({k})')
                if not any(k in ('local', 'heap') or k.startswith(('arg', 'call:', 'fn:', 'global:')) for k in src_k): bad(conf, x['where'], f'{what} through a pointer that does not come from the arguments ({",".join(src_k)})')
    cov = dict(n, configurations=sorted(CONFIGS), sources=len(srcs), obligations=n['globals'] + n['external_uses'] + n['indirect_calls'] + n['writes_outside_the_frame'], discharged=n['globals'] + n['external_uses'] + n['indirect_calls'] + n['writes_outside_the_frame'] - len(viol),
               distinct_obligations=len(kinds), samples=[f'{w} through {k}: {c} places' for (w, k), c in sorted(kinds.items(), key=lambda z: -z[1])[:8]],
               functions=sorted(defined)[:400], rule='no object of static storage duration is mutable; every use of a function defined elsewhere is an allowed one for that file and configuration; every indirect call and every write outside the frame goes through memory reached from the arguments')
    return cov, viol

# ---- C45: what each function may write, by position of the argument (0 is the first); memory reached through an argument counts as that argument's
MAY_WRITE = {
    # circular buffer
    'circular_buf_init': [0], 'circular_buf_reset': [0], 'circular_buf_puts': [0], 'circular_buf_putc': [0], 'circular_buf_gets': [0, 1], 'circular_buf_drop': [0], 'circular_buf_getc': [0, 1], 'circular_buf_peek': [1],
    'is_circular_buf_empty': [], 'is_circular_buf_full': [], 'circular_buf_capacity': [], 'circular_buf_size': [],
    # macro queue, stack, maybe, state machine, list (instantiated in contracts/C38.c)
    'queue_init': [0], 'queue_count': [], 'queue_enqueue': [0], 'queue_dequeue': [0, 1], 'queue_drop': [0], 'queue_is_empty': [], 'queue_is_full': [],
    'stack_init': [0], 'stack_push': [0], 'stack_pop': [0, 1], 'stack_peek': [1], 'stack_dequeue': [0], 'stack_is_empty': [], 'stack_is_full': [],
    'maybe_pair_t_nothing': [], 'maybe_pair_t_return': [], 'maybe_pair_t_is_just': [], 'maybe_pair_t_with_default': [], 'maybe_pair_t_map': [], 'maybe_pair_t_bind': [], 'machine_sm_send_event': [0],
    'INIT_LIST_HEAD': [0], 'list_add': [0, 1], 'list_add_tail': [0, 1], 'list_del': [0], 'list_is_last': [], 'list_empty': [], 'list_next': [], 'list_prev': [], 'use_list': [],
    # serializer, CRC
    **{f'serialize_{t}': [0] for t in ('uint8', 'uint16_le', 'uint32_le', 'uint64_le', 'uint16_be', 'uint32_be', 'uint64_be')},
    **{f'deserialize_{t}': [0] for t in ('uint8', 'int8', *(u + w + e for u in ('uint', 'int') for w in ('16', '32', '64') for e in ('_le', '_be')))},
    'crc16_ccitt': [], 'crc32': [],
    # struct update, watcher
    'struct_update_from_data': [], 'struct_update_apply': [0], 'struct_update_free': [],
    'watcher_list_init': [0], 'watcher_check_for_changes': [0], 'watcher_process_changes': [0], 'watcher_clear_changes': [0], 'watcher_trigger_cb': [0], 'watcher_trigger_all': [0],
    # debounce, pulse counter, keypad
    'debounce_read': [], 'debounce_value': [], 'debounce_filter_init': [0], 'debounce_filter': [0], 'debounce_filter_single': [0], 'debounce_filter_set': [0],
    'pulse_count': [], 'pulse_level': [], 'pulse_clear': [0], 'pulse_filter_init': [0], 'pulse_filter': [0],
    'keypad_routine': [0], 'keypad_get_key_state': [], 'keypad_reset_keys': [0],
    # page manager: every argument but the manager belongs to the caller
    **{f'pman_{f}': [0] for f in ('init', 'back', 'change_page', 'change_page_extra', 'rebase_page', 'rebase_page_extra', 'swap_page', 'swap_page_extra')}, 'pman_page_update': [], 'pman_process_page_event': [], 'pman_reset_to_page': [0, 3],
    # parameters: a handle's value lies behind it
    'parameter_operator': [0], 'parameter_get_count': [], 'parameter_get_handle': [], 'parameter_get_user_data': [], 'parameter_reset_to_defaults': [0], 'parameter_check_ranges': [0], 'parameter_to_string_format': [1], 'parameter_to_index': [],
    'parameter_to_long': [], 'parameter_get_total_values': [], 'parameter_to_bool': [], 'parameter_copy_value': [0], 'parameter_clone': [0, 2], 'parameter_clone_with_buffer': [1],
    # PID
    **{f: [0] for f in ('pid_init', 'pid_ctrl_tune', 'pid_add_input', 'pid_set_sp', 'pid_clear_integral_history', 'pid_set_integral_high_threshold', 'pid_set_integral_low_threshold', 'pid_set_derivative_threshold', 'pid_enable_derivative_threshold', 'pid_enable_integral_low_threshold', 'pid_enable_integral_high_threshold', 'pid_set_auto_integral_clear')},
    **{f: [] for f in ('pid_compute', 'pid_compute_p', 'pid_compute_i', 'pid_compute_d', 'pid_current_error')},
    # scheduler
    'scheduler_init': [0], 'scheduler_set_entry': [0], 'scheduler_disable_schedule_entry': [0], 'scheduler_entry_serialize': [0], 'scheduler_entry_deserialize': [0], 'scheduler_current_value': [2],
    **{'scheduler_' + f: [] for f in ('get_entry', 'get_entry_mut', 'is_schedule_entry_enabled', 'is_active', 'get_active_entry_number', 'are_there_overlapping_entries', 'get_next_enabled_entry', 'get_first_available_entry', 'get_active_entries_map', 'get_schedule_remaining_duration', 'get_current_remaining_duration', 'get_max_schedule_entries', 'get_entry_duration')},
    # time
    **{'stopwatch_' + f: [0] for f in ('init', 'start', 'stop', 'pause', 'restart', 'set', 'change', 'set_elapsed')}, **{'stopwatch_' + f: [] for f in ('get_state', 'get_total_time', 'get_elapsed', 'get_remaining', 'is_timer_reached')},
    **{'gel_timer_' + f: [0] for f in ('init', 'stop', 'set_autoreload', 'manage_callback', 'pause', 'resume', 'reset', 'change_period')}, 'gel_timer_get_remaining': [], 'time_interval': [], 'is_loosely_expired': [], 'is_strictly_expired': [],
    # storage (the callbacks fill the buffers themselves)
    'wearleveling_read': [0], 'wearleveling_write': [0], 'wearleveling_init': [0], 'circular_event_log_new_event': [0], 'circular_event_log_total_events': [], 'circular_event_log_load_last_events': [],
}
DEST = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, '__memcpy_chk': 0, '__memmove_chk': 0, '__memset_chk': 0, **{f: 0 for f in FORMAT}}
def summaries(res):
    """configuration -> name -> the functions of that name (a static one may exist in several sources)"""
    out = {}
    for conf, src, d, log in res:
        if d: [out.setdefault(conf, {}).setdefault(f['name'], []).append(dict(f, src=src)) for f in d['fn']]
    return out
def callee(by, f, name): return [g for g in by.get(name, []) if not g['local'] or g['src'] == f['src']]
def effects(by):
    """what every function writes: set of arg#N (itself) and arg#N* (memory its contents point to), with one place for each; calls through pointers are the caller's own code"""
    W = {id(f): {} for fs in by.values() for f in fs}; ch = True
    def arg(tags, w, where):
        for t in tags:
            if t.startswith('arg#') and t not in w: w[t] = where; return True
        return False
    for fs in by.values():
        for f in fs:
            for x in f['writes']:
                for t in x['to']:
                    if t.startswith('arg#'): W[id(f)].setdefault(t, x['where'])
    while ch:
        ch = False
        for fs in by.values():
            for f in fs:
                w = W[id(f)]
                for c in f['calls']:
                    for t in c['to']:
                        if not t.startswith('fn:'): continue
                        g = callee(by, f, t[3:]); hit = {}
                        for h in g: hit.update(W[id(h)])
                        if not g and t[3:] in DEST: hit = {f'arg#{DEST[t[3:]]}': ''}
                        for k in hit:
                            a = c['args'].get(k[4:].rstrip('*'))
                            for q in (a[1] if k.endswith('*') else a[0]) if a else []:
                                if q.startswith('arg#') and q not in w: w[q] = c['where'] + ' through ' + t[3:]; ch = True
    return W
WRAP = ('-fwrapv', '-fno-delete-null-pointer-checks', '-fno-strict-aliasing')
INLINED = '-inline-threshold=100000 -force-remove-attribute=noinline -passes=forceattrs,cgscc(inline),function(sroa,mem2reg,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)'
def frames(work):
    bad = Report('frame'); srcs, res = modules(work, CONFIGS); n = 0; fns = set()
    for conf, src, d, log in res:
        if d is None: bad(conf, src, NOBUILD + log[:600])
    def found(res):
        out = {}
        for conf, by in summaries(res).items():
            W = effects(by)
            for name in set(by) & set(MAY_WRITE):
                for f in by[name]:
                    fns.add(name)
                    for t, where in W[id(f)].items():
                        if int(t[4:].rstrip('*')) not in MAY_WRITE[name]: out[conf, f['src'], name, t] = where
        return out
    first = found(res); n = sum(max(1, f['params']) for by in summaries(res).values() for name, fs in by.items() if name in MAY_WRITE for f in fs)
    if first:   # a write that only some other caller's arguments lead to is gone once helpers are part of the function
        confs = {c for c, *_ in first}; os.makedirs(work + '/inl'); first = {k: w for k, w in found(modules(work + '/inl', {c: CONFIGS[c] for c in confs}, WRAP, INLINED)[1]).items() if k in first or (*k[:3], k[3].rstrip('*')) in first or (*k[:3], k[3] + '*') in first}
    for (conf, src, name, t), where in first.items(): bad(conf, where, f"{name} changes {'memory reached through ' if t.endswith('*') else 'what is behind '}its argument {int(t[4:].rstrip('*')) + 1}, which it is only meant to look at")
    return bad.cov(dict(configurations=sorted(CONFIGS), sources=len(srcs), functions_with_a_frame=len(fns)), n, fns, distinct_obligations=len(fns), samples=[f'{k}: may write arguments {[x + 1 for x in v]}' for k, v in list(MAY_WRITE.items())[:6]],
                   rule='an obligation is one argument of one function in one configuration: unless the table lists it, no write of the function or of the library functions it calls goes to memory reached through it'), bad.viol

# ---- C43: bounded calls
# the copy of the block that wear leveling compares with is as large as the caller's block
def alters(by, W, f, name):
    """does this function (of another source) do more than look?"""
    g = callee(by, f, name); return name not in PURE - set(DEST) if not g else any(W[id(h)] or any(x['to'] not in ([], ['local']) for x in h['writes']) for h in g)
def bounded(work):
    bad = Report('bounded'); srcs, res = modules(work, CONFIGS); n = dict(functions=0, loops=0, call_edges=0); fns = set()
    for conf, src, d, log in res:
        if d is None: bad(conf, src, NOBUILD + log[:600])
    for conf, by in summaries(res).items():
        W = effects(by)
        for name, fs in by.items():
            for f in fs:
                fns.add(name); n['functions'] += 1
                for w in f['dynamic']:
                    if 'gel/wearleveling/' not in w: bad(conf, w, f'{name} takes an amount of stack that depends on run-time values')
                for l in f['loops']:
                    n['loops'] += 1
                    if l['exit'] == 'never': bad(conf, l['where'], f'a loop of {name} has no way out')
                    if l['exit'] == 'narrow': bad(conf, l['where'], f'a loop of {name} counts in fewer bits than its bound has, and may never reach it')
                    if l['exit'] == 'stuck' and not any(alters(by, W, f, x) for x in l['unless']): bad(conf, l['where'], f'a loop of {name} ends only if somebody else changes what it looks at')
                for c in f['calls']:
                    if set(c['to']) & {'fn:alloca', 'fn:__builtin_alloca'}: bad(conf, c['where'], f'{name} uses alloca')
        edges = {id(f): [(h, c['where']) for c in f['calls'] for t in c['to'] if t.startswith('fn:') for h in callee(by, f, t[3:])] for fs in by.values() for f in fs}
        n['call_edges'] += sum(map(len, edges.values())); state = {}
        def visit(f, path):
            state[id(f)] = 1
            for h, where in edges[id(f)]:
                if state.get(id(h)) == 1: bad(conf, where, 'recursion: ' + ' -> '.join(p['name'] for p in path[[id(p) for p in path].index(id(h)):] + [h]))
                elif id(h) not in state: visit(h, path + [h])
            state[id(f)] = 2
        for fs in by.values():
            for f in fs:
                if id(f) not in state: visit(f, [f])
    return bad.cov(dict(configurations=sorted(CONFIGS), sources=len(srcs), **n), n['functions'] * 2 + n['loops'], fns, distinct_obligations=len(fns), samples=[f"{n['loops']} loops, each with an exit that depends on what the loop changes", f"{n['call_edges']} calls between library functions, no cycle"],
                   rule='an obligation is one function (no variable stack, on no cycle of the call graph) or one loop (an exit exists and its condition can change by what the loop itself does)'), bad.viol

# ---- C44: assertions
ASSERT_H = V + '/contracts/assertions'
def assertions(work):
    bad = Report('assertions'); confs = {c: x for c, x in CONFIGS.items() if c != 'ndebug'}; fl = ['-isystem', ASSERT_H]
    srcs, res = modules(work, confs, fl); _, raw = modules(work, confs, fl, passes=''); n = dict(assertions=0, instructions_in_assertions=0); fns = set()
    for conf, src, d, log in res:
        if d is None: bad(conf, src, NOBUILD + log[:600])
    by, W = summaries(res), {}
    for conf in by: W[conf] = effects(by[conf])
    def impure(conf, f, name, seen):
        """why calling it does more than look: a write to memory it is given, or an unknown callee"""
        g = callee(by[conf], f, name)
        if not g: return None if name in PURE - set(DEST) else f"calls '{name}'"
        for h in g:
            if id(h) in seen: continue
            seen.add(id(h))
            if W[conf][id(h)]: return f"'{name}' writes at " + next(iter(W[conf][id(h)].values()))
            for c in h['calls']:
                for t in c['to']:
                    r = impure(conf, h, t[3:], seen) if t.startswith('fn:') and not t[3:].startswith('__gel_assert') and t[3:] not in DEST else None if t.startswith('fn:') else f"'{name}' calls through a pointer"
                    if r: return r
        return None
    for conf, src, d, log in raw:
        for f in d['fn'] if d else []:
            for a in f['asserts']:
                fns.add(f['name']); n['assertions'] += 1; n['instructions_in_assertions'] += a['instructions']
                for x in a['acts']:
                    if x['what'] != 'call': bad(conf, x['where'], f"an assertion of {f['name']} contains a {x['what']}: without assertions it is not done")
                    else:
                        why = 'calls through a pointer' if x['fn'] == '(indirect)' else impure(conf, dict(f, src=src), x['fn'], set())
                        if why: bad(conf, x['where'], f"an assertion of {f['name']} does more than look ({why}): without assertions it is not done")
    # apart from the assertions themselves nothing may depend on whether they are enabled
    def ir(j):
        conf, src = j; r = []
        for nd in ([], ['-DNDEBUG']):
            p = subprocess.run([gelsa.LL + 'clang', '-isystem', ASSERT_H] + [x for x in gelsa.CFLAGS if x not in ('-g', '-emit-llvm', '-c', '-O0')] + gelsa.DEFS + CONFIGS[conf] + nd + ['-O1', '-g0', '-S', '-emit-llvm', '-o', '-', src], capture_output=True, text=True)
            r.append((p.returncode, p.stdout))
        return conf, src, r
    with ThreadPoolExecutor(8) as ex: pairs = list(ex.map(ir, [(c, s) for c in confs for s in srcs]))
    for conf, src, (a, b) in pairs:
        if a == b: continue
        body = lambda t: {m[1]: m[0] for m in re.finditer(r'^define .*?@([\w.]+)\(.*?^}', t, re.M | re.S)}
        x, y = body(a[1]), body(b[1]); diff = [k for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)]
        bad(conf, src, ('disabling assertions changes ' + ', '.join(diff or ['the module']) + ' beyond leaving the assertions out') if not b[0] else 'does not compile with assertions disabled')
    return bad.cov(dict(configurations=sorted(confs), sources=len(srcs), modules_compared_with_assertions_disabled=len(pairs), **n), n['assertions'] + len(pairs), fns, distinct_obligations=len(fns), samples=[f'assertions of {f}' for f in sorted(fns)[:6]],
                   rule='an obligation is one expanded assertion (no write, volatile read or call with effects between its start and its end, in the code before any optimisation) or one source whose code with assertions left out must not depend on NDEBUG'), bad.viol

# ---- C42: the public headers as a whole
def headers(work):
    bad = Report('headers'); hs = sorted(os.path.relpath(h, REPO) for h in glob.glob(REPO + '/gel/*/*.h')); n = dict(headers=len(hs), translation_units=0, pairs=0); fns = set()
    base = [gelsa.LL + 'clang'] + [x for x in gelsa.CFLAGS if x != '-w'] + ['-Wno-everything', '-Werror=macro-redefined', '-Werror=implicit-function-declaration', '-Werror=builtin-macro-redefined']
    count = [0]; lock = threading.Lock()
    def cc(conf, text, mode='-fsyntax-only', std=()):
        with lock: count[0] += 1; i = count[0]
        src = f'{work}/h{i}.c'; open(src, 'w').write(text); out = f'{work}/h{i}.bc'
        rc, log = gelsa.run([x for x in base if not (mode == '-fsyntax-only' and x in ('-emit-llvm', '-c'))] + gelsa.DEFS + CONFIGS[conf] + list(std) + ([mode] if mode != 'bc' else ['-o', out]) + [src])
        return rc, re.sub(re.escape(work) + r'/h\d+\.c', '<includes>', log), out
    inc = lambda l: ''.join(f'#include "{h}"\n' for h in l)
    jobs = [(c, f'{h} included alone', inc([h])) for c in CONFIGS for h in hs] + [(c, f'{h} included twice', inc([h, h])) for c in CONFIGS for h in hs]
    jobs += [(c, 'all headers together', inc(hs)) for c in CONFIGS] + [(c, 'all headers together, in reverse order', inc(hs[::-1])) for c in CONFIGS]
    jobs += [('default', f'{a} before {b}', inc([a, b])) for a in hs for b in hs if a != b]
    srcs = sorted(glob.glob(REPO + '/gel/**/*.c', recursive=True))
    jobs += [(c, f'{os.path.relpath(s, REPO)} against the declarations of its header', inc([os.path.relpath(x, REPO) for x in [s[:-1] + 'h'] if os.path.exists(x)]) + f'#include "{os.path.relpath(s, REPO)}"\n') for c in CONFIGS for s in srcs]
    # a client of one header alone, using what it offers: functions, types and macros
    use = {h: V + '/contracts/headers/' + h[4:-2].replace('/', '_') + '.c' for h in hs}; use = {h: open(u).read() for h, u in use.items() if os.path.exists(u)}; n['client_programs'] = len(use)
    jobs += [(c, f'{h} used alone', inc([h]) + u) for c in CONFIGS for h, u in use.items()]
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(lambda j: (j, cc(j[0], j[2])), jobs))
    for (conf, what, text), (rc, log, _) in out:
        if rc: bad(conf, what.split()[0] if what.startswith('gel/') else 'gel', f'{what}: does not compile: ' + ' / '.join(l for l in log.splitlines() if 'error' in l)[:400])
    n['translation_units'] = len(jobs); n['pairs'] = len(hs) * (len(hs) - 1)
    # a header may be included by any number of translation units: it defines nothing with external linkage
    declared, defined = {}, set()
    for conf in CONFIGS:
        rc, log, bc = cc(conf, inc(hs), 'bc', ['-Dinline=__attribute__((used))'])
        if not rc:
            d = json.loads(subprocess.run([V + '/build/effects', bc], capture_output=True, text=True).stdout)
            for f in d['fn']:
                fns.add(f['name'])
                if not f['local']: bad(conf, f['where'], f"the header defines {f['name']} for every file that includes it (duplicate definitions when linked)")
            for g in d['globals']:
                if g['defined'] and not g['local']: bad(conf, g['where'], f"the header defines the object {g['name']} for every file that includes it")
        # one program: no two sources define the same name
        objs = []
        for s in srcs:
            o = f'{work}/l_{conf}_{os.path.basename(s)}.bc'; rc, log = gelsa.run([gelsa.LL + 'clang'] + gelsa.CFLAGS + gelsa.DEFS + CONFIGS[conf] + ['-o', o, s])
            if not rc: objs.append(o)
        rc, log = gelsa.run([gelsa.LL + 'llvm-link', '-o', f'{work}/l_{conf}.bc'] + objs)
        if rc: bad(conf, 'gel', 'the sources cannot be linked into one program: ' + log.strip()[-300:])
        else: defined |= set(json.loads(subprocess.run([V + '/build/effects', f'{work}/l_{conf}.bc'], capture_output=True, text=True).stdout)['functions'])
    # every function a header declares exists
    for conf in CONFIGS:
        src = f'{work}/d_{conf}.c'; open(src, 'w').write(inc(hs))
        p = subprocess.run([x for x in base if x not in ('-emit-llvm', '-c', '-g')] + gelsa.DEFS + CONFIGS[conf] + ['-fsyntax-only', '-Xclang', '-ast-dump=json', src], capture_output=True, text=True)
        if p.returncode: continue
        here = ['']
        def at(l):
            for q in (l, l.get('spellingLoc', {}), l.get('expansionLoc', {})):
                if 'file' in q: here[0] = q['file']
        for t in json.loads(p.stdout)['inner']:
            at(t.get('loc', {})); f = here[0]; at(t.get('range', {}).get('begin', {})); at(t.get('range', {}).get('end', {}))
            if t['kind'] == 'FunctionDecl' and os.path.abspath(f).startswith(REPO + '/gel/') and not any(x['kind'] == 'CompoundStmt' for x in t.get('inner', [])): declared.setdefault(t['name'], f)
    n['declared_functions'] = len(declared)
    for f, w in sorted(declared.items()):
        fns.add(f)
        if f not in defined and f not in DEFINED_ELSEWHERE: bad('default', w, f'{f} is declared but never defined')
    total = len(jobs) + len(declared) + 2 * len(CONFIGS)
    return bad.cov(dict(configurations=sorted(CONFIGS), sources=len(srcs), **n), total, fns, distinct_obligations=total, samples=[j[1] for j in jobs[:2]] + [j[1] for j in jobs[-2:]],
                   rule='an obligation is one translation unit (a header alone, twice, with a client that uses all it offers, any ordered pair, all together in both orders, each source after its header) that must compile without redefining a macro, one declared function that must be defined, or one configuration whose headers define nothing external and whose sources link into one program'), bad.viol
DEFINED_ELSEWHERE = set()
