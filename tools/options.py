"""C47: compile-time options, decided by the compiler on witness programs (type-level assertions, programs that must not build)."""
import os, re, threading
from concurrent.futures import ThreadPoolExecutor
import gelsa
PM = '#define PMAN_NAVIGATION_DEPTH %d\n#define PMAN_VIEW_NULL 0\n#define PMAN_DATA_NULL 0\ntypedef int pman_message_t; typedef long pman_event_t; typedef void *pman_page_data_t; typedef int *pman_model_t; typedef short pman_view_t;\n'
PAR = '#define GEL_PARAMETER_MAX_SIZE %d\n'
# headers a user would write; each lies in a directory of its own name
DIRS = {'plain': {'gel_conf.h': ''},
        'user': {'gel_conf.h': '', 'par2.h': PAR % 2, 'par4.h': PAR % 4, 'pm4.h': PM % 4, 'pm6.h': PM % 6, 'pm1.h': PM % 1, 'pm300.h': PM % 300, 'ts.h': '#define GEL_CUSTOM_TIMESTAMP_TYPE unsigned long long\n', 'attr.h': '#define GEL_PARAMETER_HANDLE_ATTRIBUTES __attribute__((packed))\n#define GEL_PARAMETER_USER_DATA short\n'},
        'simple': {'gel_conf.h': PAR % 1 + PM % 9, 'par2.h': PAR % 2, 'pm4.h': PM % 4},
        'watch': {'gel_conf.h': '#define GEL_STATIC_BLOCK_SIZE 13\n'}, 'watchmalloc': {'gel_conf.h': '#define GEL_MALLOC_AVAILABLE 1\n'},
        'pid1': {'gel_conf.h': '#define GEL_PID_INTEGRAL_HISTORY_SIZE 3\n#define GEL_PID_DERIVATIVE_DELTA 1\ntypedef double pid_control_type_t; typedef float pid_output_type_t;\n'},
        'pid': {'gel_conf.h': '#define GEL_PID_INTEGRAL_HISTORY_SIZE 11\n#define GEL_PID_DERIVATIVE_DELTA 4\ntypedef short pid_control_type_t; typedef double pid_output_type_t;\n'}}
def SA(c): return f'_Static_assert({c}, "{c}");\n'.replace('"' + c + '"', '"' + c.replace('"', "'") + '"')
def IS(x, t): return SA(f'_Generic(({x}), {t}: 1, default: 0)')
def par(n): return '#include "gel/parameter/parameter.h"\n' + SA(f'sizeof(parameter_type_union_t) == {n}') + SA('PARAMETER_TYPE_UINT8 == 0 && PARAMETER_TYPE_INT8 == 1') + (SA('PARAMETER_TYPE_UINT16 == 2 && PARAMETER_TYPE_INT16 == 3') if n >= 2 else '') + (SA('PARAMETER_TYPE_UINT32 == 4 && PARAMETER_TYPE_INT32 == 5 && PARAMETER_TYPE_FLOAT == 8') if n >= 4 else '') + (SA('PARAMETER_TYPE_UINT64 == 6 && PARAMETER_TYPE_INT64 == 7 && PARAMETER_TYPE_DOUBLE == 9') if n >= 8 else '') + '#include "gel/parameter/parameter.c"\n'
PH = '((parameter_handle_t *)0)'
def pm(n): return '#include "gel/pagemanager/page_manager.h"\n' + SA(f'sizeof(struct navigation_stack) >= {n} * sizeof(pman_page_t) && sizeof(struct navigation_stack) < {n + 1} * sizeof(pman_page_t)') + IS('pman_page_update((page_manager_t *)0, (pman_model_t)0)', 'pman_view_t') + '#include "gel/pagemanager/page_manager.c"\n'
def q(name, f): return f'-D{name}="{f}"'
TS = '#include "gel/timer/timecheck.h"\n'
W = '((watcher_t *)0)'
def elem(a): return f'sizeof({a}) / sizeof({a}[0])'
P = 'gel/parameter/parameter.h'; M = 'gel/pagemanager/page_manager.h'; T = 'gel/timer/timecheck.h'
# (header, option, what is shown, directory, flags, program, None or what the compiler has to say about it)
CASES = [(P, 'GEL_PARAMETER_MAX_SIZE', 'is 8 by default', 'plain', [], par(8), None)]
CASES += [(P, 'GEL_PARAMETER_MAX_SIZE', f'given as {n}', 'plain', [f'-DGEL_PARAMETER_MAX_SIZE={n}'], par({3: 2, 5: 4, 6: 4, 7: 4, 16: 8}.get(n, n)), None) for n in (1, 2, 3, 4, 5, 6, 7, 8, 16)]
CASES += [
    (P, 'GEL_PARAMETER_MAX_SIZE', 'a size of 0 is refused', 'plain', ['-DGEL_PARAMETER_MAX_SIZE=0'], f'#include "{P}"\n', r'#error|at least'),
    (P, 'GEL_PARAMETER_CONFIGURATION_HEADER', 'names the configuration', 'user', [q('GEL_PARAMETER_CONFIGURATION_HEADER', 'par2.h')], par(2), None),
    (P, 'CONFIG_GEL_PARAMETER_CONFIGURATION_HEADER', 'of the build system names the configuration', 'user', [q('CONFIG_GEL_PARAMETER_CONFIGURATION_HEADER', 'par2.h')], par(2), None),
    (P, 'GEL_PARAMETER_CONFIGURATION_HEADER', 'comes before that of the build system', 'user', [q('GEL_PARAMETER_CONFIGURATION_HEADER', 'par4.h'), q('CONFIG_GEL_PARAMETER_CONFIGURATION_HEADER', 'par2.h')], par(4), None),
    (P, 'GEL_SIMPLE_CONFIG_INCLUSION', 'takes gel_conf.h', 'simple', ['-DGEL_SIMPLE_CONFIG_INCLUSION'], par(1), None),
    (P, 'GEL_SIMPLE_CONFIG_INCLUSION', 'comes before a named header', 'simple', ['-DGEL_SIMPLE_CONFIG_INCLUSION', q('GEL_PARAMETER_CONFIGURATION_HEADER', 'par2.h')], par(1), None),
    (P, 'GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'does not configure another module', 'user', [q('CONFIG_GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'par2.h'), q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'par2.h')], par(8), None),
    (P, 'GEL_PARAMETER_USER_DATA', 'is void * by default', 'plain', [], par(8) + IS(PH + '->data', 'void *') + IS(f'parameter_get_user_data({PH})', 'void *'), None),
    (P, 'GEL_PARAMETER_USER_DATA', 'gives the type of the user data', 'plain', ['-DGEL_PARAMETER_USER_DATA=float'], par(8) + IS(PH + '->data', 'float') + IS(f'parameter_get_user_data({PH})', 'float'), None),
    (P, 'GEL_PARAMETER_HANDLE_ATTRIBUTES', 'none by default', 'plain', [], par(8) + SA('_Alignof(parameter_handle_t) == _Alignof(union { parameter_type_union_t u; void *p; })'), None),
    (P, 'GEL_PARAMETER_HANDLE_ATTRIBUTES', 'apply to the descriptor', 'user', [q('GEL_PARAMETER_CONFIGURATION_HEADER', 'attr.h')], par(8) + SA('_Alignof(parameter_handle_t) == 1') + IS(PH + '->data', 'short'), None),
    (M, 'GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'a build without a configuration is refused', 'user', [], f'#include "{M}"\n', r'Configuration not defined'),
    (M, 'GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'names the configuration', 'user', [q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm4.h')], pm(4), None),
    *[(M, 'PMAN_NAVIGATION_DEPTH', f'given as {n}', 'user', [q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', f'pm{n}.h')], pm(n), None) for n in (1, 300)],
    (M, 'CONFIG_GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'of the build system names the configuration', 'user', [q('CONFIG_GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm6.h')], pm(6), None),
    (M, 'GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'comes before that of the build system', 'user', [q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm4.h'), q('CONFIG_GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm6.h')], pm(4), None),
    (M, 'GEL_SIMPLE_CONFIG_INCLUSION', 'takes gel_conf.h', 'simple', ['-DGEL_SIMPLE_CONFIG_INCLUSION'], pm(9), None),
    (M, 'GEL_SIMPLE_CONFIG_INCLUSION', 'comes before a named header', 'simple', ['-DGEL_SIMPLE_CONFIG_INCLUSION', q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm4.h')], pm(9), None),
    (M, 'GEL_PAGEMANAGER_UPDATE_CALLBACK', 'adds the update callback', 'user', ['-DGEL_PAGEMANAGER_UPDATE_CALLBACK', q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm4.h')], pm(4) + IS('((pman_page_t *)0)->update((pman_model_t)0, (pman_page_data_t)0)', 'pman_view_t'), None),
    (M, 'GEL_PAGEMANAGER_UPDATE_CALLBACK', 'no update callback by default', 'user', [q('GEL_PAGEMANAGER_CONFIGURATION_HEADER', 'pm4.h')], pm(4) + 'void *f(pman_page_t *p) { return &p->update; }\n', r'no member named'),
    (T, 'GEL_CUSTOM_TIMESTAMP_TYPE', 'is unsigned long by default', 'plain', [], TS + IS('(timestamp_t)0', 'unsigned long') + IS('time_interval(0, 0)', 'unsigned long'), None),
    (T, 'GEL_CUSTOM_TIMESTAMP_TYPE', 'gives the type of timestamps', 'plain', ['-DGEL_CUSTOM_TIMESTAMP_TYPE=unsigned long long'], TS + IS('(timestamp_t)0', 'unsigned long long') + IS('time_interval(0, 0)', 'unsigned long long'), None),
    (T, 'GEL_TIMECHECK_CONFIGURATION_HEADER', 'names the configuration', 'user', [q('GEL_TIMECHECK_CONFIGURATION_HEADER', 'ts.h')], TS + IS("(timestamp_t)0", "unsigned long long") + IS("time_interval(0, 0)", "unsigned long long"), None),
]
for m in ('time_after(a, b)', 'time_after(b, a)', 'time_before(a, b)', 'time_before(b, a)', 'time_after_or_equal(a, b)', 'time_after_or_equal(b, a)'):
    use = lambda t: TS + f'int f({t} a, timestamp_t b) {{ return {m}; }}\n'
    CASES += [(T, 'typecheck', f'{m} of two timestamps is accepted', 'plain', [], use('timestamp_t'), None),
              (T, 'typecheck', f'{m} with a narrower variable is diagnosed', 'plain', [], use('unsigned char'), r'distinct pointer types'), (T, 'typecheck', f'{m} with a signed variable is diagnosed', 'plain', [], use('long'), r'distinct pointer types|different sign|differ'),
              (T, 'GEL_IGNORE_TIME_TYPECHECK', f'{m} with another type is accepted', 'plain', ['-DGEL_IGNORE_TIME_TYPECHECK'], use('long'), None)]
CB = '#include "gel/collections/circular_buffer.h"\n'
for t, fl, d in (('unsigned char', [], 'are bytes by default'), ('long', ['-DGEL_CBUF_TYPE=long'], 'have the given type')):
    CASES += [('gel/collections/circular_buffer.h', 'GEL_CBUF_TYPE', f'elements {d}', 'plain', fl, CB + IS('((circular_buf_t *)0)->buffer', t + ' *') + '#include "gel/collections/circular_buffer.c"\n', None)]
S = 'gel/scheduler/scheduler.h'; SI = f'#include "{S}"\n'; SP = '((scheduler_t *)0)'; SC = '#include "gel/scheduler/scheduler.c"\n'
CASES += [(S, 'GEL_SCHEDULER_MAX_ENTRIES', 'is 7 by default', 'plain', [], SI + SA(elem(SP + '->entries') + ' == 7') + SC, None),
          *[(S, 'GEL_SCHEDULER_MAX_ENTRIES', f'given as {n}', 'plain', [f'-DGEL_SCHEDULER_MAX_ENTRIES={n}'], SI + SA(elem(SP + '->entries') + f' == {n}') + SC, None) for n in (1, 2, 6, 8, 21, 128, 300)],
          (S, 'GEL_SCHEDULER_DYNAMIC_ENTRIES', 'the number of entries is given at initialisation', 'plain', ['-DGEL_SCHEDULER_DYNAMIC_ENTRIES'], SI + IS(SP + '->entries', 'scheduler_entry_t *') + 'void f(scheduler_t *s) { scheduler_init(s, (size_t)300); }\n' + SC, None),
          (S, 'GEL_SCHEDULER_DYNAMIC_ENTRIES', 'not by default', 'plain', [], SI + 'void f(scheduler_t *s) { scheduler_init(s, (size_t)300); }\n', r'too many arguments')]
WH = 'gel/data_structures/watcher.h'; WI = f'#include "{WH}"\n#include "gel/data_structures/watcher.c"\n'
CASES += [(WH, 'GEL_STATIC_BLOCK_SIZE', 'gives the size of the block in the watcher', 'watch', [], WI + SA(f'sizeof({W}->old) == 13') + SA('_Alignof(watcher_t) == _Alignof(void *)') + IS(W + '->size', 'size_t') + IS(W + '->delay', 'unsigned long'), None),
          (WH, 'GEL_MALLOC_AVAILABLE', 'replaces the block by a pointer', 'watchmalloc', [], WI + IS(W + '->old', 'void *'), None),
          (WH, 'GEL_WATCHER_REDUCE_RAM_FOOTPRINT', 'packs the watcher', 'watch', ['-DGEL_WATCHER_REDUCE_RAM_FOOTPRINT'], WI + SA(f'sizeof({W}->old) == 13 && _Alignof(watcher_t) == 1'), None),
          (WH, 'GEL_WATCHER_REDUCE_RAM_FOOTPRINT', 'packs the watcher with dynamic blocks', 'watchmalloc', ['-DGEL_WATCHER_REDUCE_RAM_FOOTPRINT'], WI + SA('_Alignof(watcher_t) == 1'), None)]
PD = '((pid_ctrl_t *)0)'
CASES += [('gel/pid/pid.h', 'gel_conf.h', 'gives the value types and the sizes of both windows', d, [], '#include "gel/pid/pid.h"\n#include "gel/pid/pid.c"\n' + SA(elem(PD + '->history') + f' == {n}') + SA(elem(PD + '->derivative_history') + f' == {k}') + IS(PD + '->history[0]', t) + IS(PD + '->derivative_history[0]', t) + IS(PD + '->sp', t) + IS(f'pid_compute({PD})', o), None)
          for d, n, k, t, o in (('pid', 11, 4, 'short', 'double'), ('pid1', 3, 1, 'double', 'float'))]
CR = 'gel/crc/crc16-ccitt.c'
CASES += [(CR, 'CO_USE_OWN_CRC16', 'leaves the name to the user', 'plain', ['-DCO_USE_OWN_CRC16'], f'#include "gel/crc/crc16-ccitt.h"\nunsigned short crc16_ccitt(const unsigned char *b, unsigned int n, unsigned short c) {{ return 0; }}\n#include "{CR}"\n', None),
          (CR, 'CO_USE_OWN_CRC16', 'not by default', 'plain', [], f'#include "gel/crc/crc16-ccitt.h"\nunsigned short crc16_ccitt(const unsigned char *b, unsigned int n, unsigned short c) {{ return 0; }}\n#include "{CR}"\n', r'redefinition')]
for h, a, t in (('debounce', 'debounce_count', 'debounce_filter_t'), ('pulsecounter', 'filters', 'pulse_filter_t'), ('pulsecounter', 'count', 'pulse_filter_t')):
    CASES += [(f'gel/debounce/{h}.h', 'number of inputs', f'{a} has one element per bit of an unsigned int', 'plain', [], f'#include "gel/debounce/{h}.h"\n' + SA(elem(f'(({t} *)0)->{a}') + ' == 8 * sizeof(unsigned int)'), None)]
# every option that is independent of what a case shows, added to it (pairs of options; 64-bit target)
T_ = {'GEL_CUSTOM_TIMESTAMP_TYPE', 'GEL_TIMECHECK_CONFIGURATION_HEADER', 'typecheck'}
EXTRA = [('GEL_IGNORE_TIME_TYPECHECK', {'typecheck'}), ('GEL_CUSTOM_TIMESTAMP_TYPE=unsigned long long', T_), ('GEL_SCHEDULER_DYNAMIC_ENTRIES', {'GEL_SCHEDULER_MAX_ENTRIES'}), ('GEL_SCHEDULER_MAX_ENTRIES=9', set()), ('GEL_WATCHER_REDUCE_RAM_FOOTPRINT', {'GEL_STATIC_BLOCK_SIZE'}),
         ('GEL_PAGEMANAGER_UPDATE_CALLBACK', set()), ('GEL_PARAMETER_USER_DATA=float', {'GEL_PARAMETER_HANDLE_ATTRIBUTES'}), ('GEL_PARAMETER_MAX_SIZE=2', {P, 'GEL_SIMPLE_CONFIG_INCLUSION'}), ('GEL_CBUF_TYPE=long', set()), ('CO_USE_OWN_CRC16', set()), ('GEL_SIMPLE_CONFIG_INCLUSION', {P, M}), ('NDEBUG', set()), ('DEBUG', set()), ('CONFIG_GEL_PARAMETER_CONFIGURATION_HEADER="par1.h"', {P}), ('CONFIG_GEL_PAGEMANAGER_CONFIGURATION_HEADER="pm1.h"', {M}), ('GEL_TIMECHECK_CONFIGURATION_HEADER="stddef.h"', {'GEL_TIMECHECK_CONFIGURATION_HEADER'})]
# the configuration the repository offers as a starting point, and one whose views carry no value: every module is built with them
VOID = PM.replace('%d', '3').replace('#define PMAN_VIEW_NULL 0', '#define PMAN_VIEW_NULL').replace('typedef short pman_view_t;', 'typedef void pman_view_t;')
DIRS['novalue'] = {'gel_conf.h': VOID + '#define GEL_STATIC_BLOCK_SIZE 9\n#define GEL_PID_INTEGRAL_HISTORY_SIZE 1\n#define GEL_PID_DERIVATIVE_DELTA 1\ntypedef int pid_control_type_t; typedef int pid_output_type_t;\n'}
def sources(): return sorted(os.path.relpath(os.path.join(d, f), gelsa.REPO) for d, _, fs in os.walk(gelsa.REPO + '/gel') for f in fs if f.endswith('.c'))
def whole():
    DIRS['template'] = {'gel_conf.h': f'#include "{gelsa.REPO}/gel_conf_template.h"\n'}
    out = []
    for d, what in (('template', 'gel_conf_template.h'), ('novalue', 'views without a value')):
        for u in ('', 'GEL_PAGEMANAGER_UPDATE_CALLBACK'):
            out += [(f, what, 'builds' + (' with ' + u if u else ''), d, ['-DGEL_SIMPLE_CONFIG_INCLUSION'] + (['-D' + u] if u else []), f'#include "{f}"\n', None) for f in sources()]
    return out
TARGETS = {'64-bit': [], '32-bit': gelsa.ILP32, '16-bit': gelsa.ILP16}
def check(work, Report):
    bad = Report('options'); cases = CASES + whole()
    for d, fs in DIRS.items():
        os.makedirs(f'{work}/{d}', exist_ok=True)
        for f, t in fs.items(): open(f'{work}/{d}/{f}', 'w').write('#pragma once\n' + t)
    base = [gelsa.LL + 'clang', '-std=gnu17', '-fsyntax-only', '-Wno-everything', '-Werror=compare-distinct-pointer-types', '-Werror=pointer-sign', '-Werror=macro-redefined', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types']
    lock = threading.Lock(); count = [0]; fns = set()
    def one(j):
        tn, (h, opt, what, d, flags, prog, expect) = j
        with lock: count[0] += 1; i = count[0]
        src = f'{work}/o{i}.c'; open(src, 'w').write(prog)
        rc, log = gelsa.run(base + TARGETS[tn] + [f'-I{work}/{d}', '-I' + gelsa.REPO, '-I' + gelsa.REPO + '/gel'] + flags + [src])
        errs = [l for l in log.splitlines() if 'error' in l]
        return rc, re.sub(re.escape(work) + r'/o\d+\.c', '<program>', ' / '.join(errs))[:300], log
    jobs = [(t, c) for c in cases for t in TARGETS]
    for o, no in EXTRA:
        jobs += [('64-bit', c[:2] + (c[2] + f' (with {o})',) + c[3:4] + (c[4] + ['-D' + o],) + c[5:]) for c in CASES
                 if not {c[0], c[1]} & no and c[1] != o.split('=')[0] and not any(f.split('=')[0] == '-D' + o.split('=')[0] for f in c[4])]
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(one, jobs))
    for (tn, (h, opt, what, d, flags, prog, expect)), (rc, errs, log) in zip(jobs, out):
        fns.add(h)
        if expect is None and rc: bad(tn, h, f'{opt}: {what}: does not hold: {errs}')
        elif expect is not None and not rc: bad(tn, h, f'{opt}: {what}: the compiler accepts the program')
        elif expect is not None and not re.search(expect, errs): bad(tn, h, f'{opt}: {what}: refused for another reason: {errs}')
    return bad.cov(dict(options=len({c[1] for c in cases}), targets=sorted(TARGETS), witness_programs=len(jobs), programs_that_must_not_build=sum(1 for _, c in jobs if c[6])), len(jobs), fns, distinct_obligations=len(jobs), samples=[f'{c[1]} {c[2]}' for c in CASES[:3]],
                   rule='an obligation is one program for one target: with type-level assertions it must compile, or it must be refused with the stated diagnostic'), bad.viol
