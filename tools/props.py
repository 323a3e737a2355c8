import re
"""What each check analyses: contract, configurations, the library directories it needs, and how the property is decided."""
AI = 'abstract interpretation of LLVM IR against a contract'
COMMON_ASSUMPTIONS = ['C semantics of clang 18 at -O0 (sroa, mem2reg, instsimplify) for x86-64 and, in thorough runs, i386 and a target with 16-bit int (msp430), two\'s complement, IEEE floats', 'the analyser engine (engine/*.cpp) and LLVM front end are trusted', 'malloc/memcpy/memset/memcmp/assert behave as the C standard says']
def U(c, *defs, name=None):
    return (name or (c.split('.')[0] + ''.join('_' + d.split('=')[-1].replace(' ', '') for d in defs)) or 'default', c, ['-D' + d for d in defs])
SPECS = {}
M16 = lambda c, *defs: (c.split('.')[0] + '_ilp16', c, ['-m16'] + ['-D' + d for d in defs])   # ... and with 16-bit int, size_t and pointers
M32 = lambda c, *defs: (c.split('.')[0] + '_ilp32', c, ['-m32'] + ['-D' + d for d in defs])   # the same contract for a target with 32-bit long, size_t and pointers
def spec(pid, dirs, units, how, note, thorough=(), technique=AI, level='other', **kw):
    SPECS[pid] = dict(dirs=dirs, units=units, thorough=list(thorough), how=how, note=note, technique=technique, level=level, **kw)

spec('C01', ['collections'], [U('C01.c', 'GEL_CBUF_TYPE=uint8_t', name='u8'), U('C01.c', 'GEL_CBUF_TYPE=uint32_t', name='u32')], thorough=[M32('C01.c', 'GEL_CBUF_TYPE=uint8_t'), M16('C01.c', 'GEL_CBUF_TYPE=uint8_t')] + [U('C01.c', 'GEL_CBUF_TYPE=uint16_t', name='u16'), U('C01.c', 'GEL_CBUF_TYPE=uint64_t', name='u64')],
     how='Every public function is interpreted on one arbitrary representation-invariant state (any size 1..2^30-1, any head and tail, arbitrary contents, any request length); obligations relate result, indices and the k-th element (k arbitrary) after the call to those before, so they hold for every history by induction over calls.',
     note='All sizes, positions, contents and lengths; sizes and lengths below 2^30 elements; one element type per unit.')
spec('C02', ['collections'], [U('C02.c', 'GEL_CBUF_TYPE=uint8_t', 'MAXLEN=2', 'ACT_LIMIT=2', name='u8_two_actions')], thorough=[M32('C02.c', 'GEL_CBUF_TYPE=uint8_t', 'MAXLEN=2', 'ACT_LIMIT=2'), M16('C02.c', 'GEL_CBUF_TYPE=uint8_t', 'MAXLEN=2', 'ACT_LIMIT=2')] + [U('C02.c', 'GEL_CBUF_TYPE=uint8_t', 'MAXLEN=2', 'ACT_LIMIT=3', name='u8_three_actions'), U('C02.c', 'GEL_CBUF_TYPE=uint32_t', 'MAXLEN=2', 'ACT_LIMIT=2', name='u32_two_actions')],
     how='Interference analysis: each call of one side is interpreted with the other side allowed to act, by any legal amount, at every load of the index it owns and after every index store; obligations at every index publication state write-before-publish, read-before-free, index ownership and the number of elements transferred.',
     note='Any size, position and length; sequentially consistent memory; the other side acts at most twice (thorough: three times) during one call, puts of unbounded length with one action.')
spec('C03', ['collections'], [U('C03.c', name='queue')], thorough=[M32('C03.c'), M16('C03.c')],
     how='Queue functions generated for several sizes and element types are interpreted on an arbitrary state (counters anywhere in 16 bits, any occupancy), so wrap-around of the counters is included.',
     note='All counter values and contents for each instantiated size and element type; power-of-two sizes only.')
spec('C04', ['collections'], [U('C04.c', name='stack')], thorough=[M32('C04.c'), M16('C04.c')],
     how='Stack functions generated for several sizes and element types are interpreted on an arbitrary state of any depth; obligations cover push, pop, peek, front removal, emptiness and the kept order.',
     note='All depths and contents for each instantiated size and element type.')
spec('C31', ['timer'], [U('C31.c', name='stopwatch')], thorough=[M32('C31.c'), M16('C31.c')],
     how='Every stopwatch function is interpreted on an arbitrary stopwatch in each state with arbitrary time values; obligations state the whole transition relation.', note='All field values and times.')
spec('C32', ['timer'], [U('C32.c', name='u64')], thorough=[M32('C32.c'), M16('C32.c')],
     how='Elapsed, remaining, change-time and pause/resume are interpreted with arbitrary start, elapsed, period and current time (modular subtraction included).', note='All field values and times.')
spec('C30', ['timer'], [U('C30.c', name='ulong'), U('C30.c', 'GEL_CUSTOM_TIMESTAMP_TYPE=uint32_t', name='u32'), U('C30.c', 'GEL_CUSTOM_TIMESTAMP_TYPE=uint16_t', name='u16'), U('C30.c', 'GEL_CUSTOM_TIMESTAMP_TYPE=uint64_t', 'GEL_IGNORE_TIME_TYPECHECK', name='u64')], thorough=[M32('C30.c'), M16('C30.c')],
     how='The comparison macros and inline functions are interpreted on two symbolic instants a and a+d (all a, all d below half the range) for 16, 32 and 64-bit timestamp types.', note='All instants, intervals and delays below half the range.')
spec('C05', ['collections'], [U('C05.c', name='list')], thorough=[M32('C05.c'), M16('C05.c')],
     how='List functions and traversal macros are interpreted on rings of symbolic neighbours: insertion and removal at an arbitrary place of an arbitrary ring (the touched neighbours are arbitrary nodes, aliased or not), and traversal of rings of several lengths whose node addresses are symbolic.',
     note='Insertion and removal: any ring. Traversal: rings of up to four nodes in any order of insertion, and of 299 and 300 nodes.')
spec('C06', ['crc'], [U('C06.c', name='crc')], thorough=[M32('C06.c'), M16('C06.c')],
     how='The bit-level domain computes the result of each checksum function as a GF(2) polynomial of the message and starting-value bits, and compares it with a bitwise reference; read-set hooks record every message byte read. Chunking: one byte from an arbitrary register is one reference step, and the concatenation over all splits is checked.',
     note='All message contents and starting values for lengths 0..128, any split of 20 bytes; two fixed longer messages; other lengths follow only by the per-byte step.')
spec('C07', ['serializer'], [U('C07.c', name='serializer')], thorough=[M32('C07.c'), M16('C07.c')], how='Each serialise/deserialise function and packing macro is interpreted on an arbitrary value and an arbitrary buffer with guard bytes; obligations give each byte and the value back, bit for bit.', note='All values.')
spec('C08', ['scheduler', 'serializer'], [U('C08.c', name='entry'), U('C08.c', 'NDEBUG', name='ndebug')], thorough=[M32('C08.c'), M16('C08.c')], how='The entry (de)serialisers are interpreted on an arbitrary entry and an arbitrary buffer with guard bytes; obligations give each of the 11 bytes and each field.', note='All entries and buffers.')
spec('C09', ['data_structures'], [U('C09.c', name='maybe')], thorough=[M32('C09.c'), M16('C09.c')], how='The generated functions and macros, instantiated for several types, are interpreted on an arbitrary optional value; callee models count the calls and record the argument.', note='All values for the instantiated types.')
spec('C10', ['data_structures'], [U('C10.c', name='struct_update')], thorough=[M32('C10.c'), M16('C10.c')], how='Creation, application and freeing are interpreted with arbitrary contents; obligations cover each byte inside and outside the region, independence from the source and freeing of exactly the private copy.', note='Several sizes and offsets, all contents; allocation assumed to succeed.')
WATCHER = [('default',), ('GEL_MALLOC_AVAILABLE=1',), ('GEL_WATCHER_REDUCE_RAM_FOOTPRINT',)]
def watcher(c): return [U(c, *[d for d in w if d != 'default'], name=n) for w, n in zip(WATCHER, ('static', 'malloc', 'reduced'))] + [U(c, 'NDEBUG', name='ndebug')] + ([U(c, 'GEL_WATCHER_REDUCE_RAM_FOOTPRINT', 'GEL_STATIC_BLOCK_SIZE=255', name='reduced_large')] if c == 'C11.c' else [])
spec('C11', ['data_structures', 'timer'], watcher('C11.c'), thorough=[M32('C11.c'), M16('C11.c')], how='Watcher functions are interpreted on lists of watched locations with arbitrary contents and memories, in each configuration; obligations relate the answer to byte-wise difference.', note='Lists of bounded length and location sizes; all contents and times.')
spec('C12', ['data_structures', 'timer'], watcher('C12.c'), thorough=[M32('C12.c'), M16('C12.c')], how='Processing is interpreted on arbitrary watcher states and times; callback models record calls; obligations give the exact callbacks and the next state.', note='Lists of bounded length; all contents, times and delays below half the timestamp range.')
spec('C26', ['scheduler', 'serializer'], [U('C26.c', name='static'), U('C26.c', 'GEL_SCHEDULER_DYNAMIC_ENTRIES', name='dynamic'), U('C26.c', 'GEL_SCHEDULER_DYNAMIC_ENTRIES', 'NDEBUG', name='dynamic_ndebug')], thorough=[M32('C26.c'), M16('C26.c')], how='Every entry operation is interpreted on an arbitrary scheduler and an arbitrary index (in range or not); obligations cover result, frame and returned entry.', note='All entries and indices; default table size and a dynamic table.')
spec('C27', ['scheduler', 'serializer'], [U('C27.c', name='selection'), U('C27.c', 'GEL_SCHEDULER_DYNAMIC_ENTRIES', name='long_tables')], thorough=[M32('C27.c'), M16('C27.c'), M16('C27.c', 'GEL_SCHEDULER_DYNAMIC_ENTRIES')] + [U('C27.c', 'ENABLED=3', name='three_enabled')], how='The queries are interpreted on tables with up to two (thorough: three) arbitrary enabled entries at arbitrary positions, at an arbitrary weekday and second; obligations relate each answer to the window definition and to the ranking.', note='All entry contents and times; at most two enabled entries at once, which is where every pairwise ranking step shows (thorough: also three at once, each on one weekday or on all). The same queries on dynamic tables of 300 entries, with an enabled entry at an arbitrary place.')
spec('C28', ['scheduler', 'serializer'], [U('C28.c', name='remaining'), U('C28.c', 'GEL_SCHEDULER_DYNAMIC_ENTRIES', name='long_tables')], thorough=[M32('C28.c'), M16('C28.c')], how='The remaining-duration functions are interpreted on an arbitrary entry and an arbitrary moment; obligations compare with the distance to the real end.', note='All entries and times.')
spec('C13', ['debounce'], [U('C13.c', name='debounce')], thorough=[M32('C13.c'), M16('C13.c')], how='One call is interpreted on an arbitrary filter in which lane k (each of the 32) has an arbitrary run of differing samples; the invariant "count equals debounce+1 minus run" is proved to be kept, established by init and set, and to imply acceptance after exactly debounce+1 samples. The lane loop is summarised by a lossy join that keeps lane k exact and forgets the other lanes.', note='All 32 lanes, levels, runs, debounce values up to INT_MAX; the same debounce value during one run.')
spec('C14', ['debounce'], [U('C14.c', name='pulse')], thorough=[M32('C14.c'), M16('C14.c')] + [U('C14.c', 'LANES=4', name='all_lanes')], how='As for C13, for the pulse counter: counters move exactly on an accepted closing edge. The quick run analyses eight lanes, the thorough one all 32; a second set of entries with the other lanes quiet decides the return value exactly.', note='All levels, runs, counts, debounce values up to INT_MAX; the same debounce value during one run.')
spec('C15', ['debounce'], [U('C15.c', name='bounds')], thorough=[M32('C15.c'), M16('C15.c')], how='Each indexed function is interpreted with an arbitrary index; every memory access is proved in bounds and an index outside the inputs is shown to change nothing and give the documented answer.', note='All indices and states.')
spec('C16', ['keypad', 'timer'], [U('C16.c', name='two_keys')], thorough=[M32('C16.c'), M16('C16.c')] + [U('C16.c', 'KEYS=3', name='three_keys')], how='One call of the routine is interpreted on every legal combination of key histories (an invariant proved to be kept by each call and established by reset), arbitrary clocks, thresholds and pressed bit map; obligations give the legal successor events and the frame.', note='Lists of up to two keys (thorough: three) with distinct codes and bit maps; click time not above long-click time; thresholds and intervals below half the timestamp range.')
spec('C17', ['keypad', 'timer'], [U('C17.c', name='timing')], thorough=[M32('C17.c'), M16('C17.c')], how='One call is interpreted for each history of a key with arbitrary reference and current times (wrap-around included); obligations give the events as if-and-only-if conditions on elapsed times and the update of the reference times.', note='All times and thresholds below half the range, click not above long click; the other key of the list idle.')
spec('C18', ['pagemanager', 'collections'], [U('C18.c', name='asserts'), U('C18.c', 'NDEBUG', 'GEL_PAGEMANAGER_UPDATE_CALLBACK', name='ndebug_update'), U('C18.c', 'DEEP', 'PMAN_NAVIGATION_DEPTH=20', 'GEL_PAGEMANAGER_UPDATE_CALLBACK', name='deep20'), U('C18.c', 'DEEP', 'PMAN_NAVIGATION_DEPTH=300', name='deep300')], thorough=[M32('C18.c'), M16('C18.c')] + [U('C18.c', 'PMAN_NAVIGATION_DEPTH=6', name='deep')], how='Every operation is interpreted on page stacks of every depth with symbolic pages whose callbacks may be missing; the callbacks are event recorders and the recorded sequence is compared with that of a stack model, as are the pages left.', note='Stack depths up to 6 with any page lacking callbacks; depths 4, 9, 19, 20, 299 and 300 with complete pages (above 20 with numbered pages); changing page with a full stack is excluded.')
PS = lambda c, *sizes: [U(c, f'GEL_PARAMETER_MAX_SIZE={s}', name=f'size{s}') for s in sizes]
spec('C19', ['parameter'], PS('C19.c', 8, 2), thorough=[M32('C19.c', 'GEL_PARAMETER_MAX_SIZE=8'), M16('C19.c', 'GEL_PARAMETER_MAX_SIZE=8')] + PS('C19.c', 4, 1), how='parameter_operator is interpreted for every numeric type on an arbitrary value, limits, step, direction and wrap mode; obligations say the value ends inside the limits and is the stepped value, the clamp or the opposite limit. Stepping is computed with the wrap-around of the type.', note='All values, limits, steps; every numeric type, every configured maximum size; limits not NaN.')
spec('C20', ['parameter'], PS('C20.c', 8, 2), thorough=[M32('C20.c', 'GEL_PARAMETER_MAX_SIZE=8'), M16('C20.c', 'GEL_PARAMETER_MAX_SIZE=8')] + PS('C20.c', 4, 1), how='check_ranges and reset are interpreted on arrays of parameters of every type and access level with arbitrary values and limits (direct or by pointer); obligations give the result and the value kept, per parameter.', note='Arrays of three parameters, one arbitrary in type and content at an arbitrary place; all values and limits.')
spec('C21', ['parameter'], PS('C21.c', 8, 2), thorough=[M32('C21.c', 'GEL_PARAMETER_MAX_SIZE=8'), M16('C21.c', 'GEL_PARAMETER_MAX_SIZE=8')] + PS('C21.c', 4, 1), how='Each accessor is interpreted for every type tag on arbitrary memory; obligations give the value read, the exact bytes written (guard bytes around), and what reaches the formatter for the value to string functions.', note='All values and types; formatting itself is done by sprintf, whose arguments are checked.')
spec('C22', ['parameter'], PS('C22.c', 8, 2) + [U('C22.c', 'GEL_PARAMETER_MAX_SIZE=8', 'NDEBUG', name='ndebug')], thorough=[M32('C22.c', 'GEL_PARAMETER_MAX_SIZE=8'), M16('C22.c', 'GEL_PARAMETER_MAX_SIZE=8')] + PS('C22.c', 4, 1) + [U('C22.c', 'GEL_PARAMETER_MAX_SIZE=8', 'LEN=5', name='five')], how='The counting and lookup functions are interpreted on arrays with arbitrary access levels for an arbitrary level and index; obligations compare with the visible subsequence.', note='Arrays of up to 3 (thorough: 5) parameters; all levels and indices.')
spec('C23', ['parameter'], PS('C23.c', 8, 2), thorough=[M32('C23.c', 'GEL_PARAMETER_MAX_SIZE=8'), M16('C23.c', 'GEL_PARAMETER_MAX_SIZE=8')] + PS('C23.c', 4, 1), how='Each descriptor macro is expanded with arbitrary run-time arguments for every type and the resulting descriptor is compared field by field with the arguments.', note='All arguments; every type and configured maximum size.')
PID = lambda c, n, d, *x: U(c, f'GEL_PID_INTEGRAL_HISTORY_SIZE={n}', f'GEL_PID_DERIVATIVE_DELTA={d}', *x, name=f'window{n}_delta{d}' + ''.join('_' + q.split('=')[-1] for q in x))
spec('C24', ['pid'], [PID('C24.c', 2, 5), PID('C24.c', 5, 5), PID('C24.c', 300, 5)], thorough=[M32('C24.c', 'GEL_PID_INTEGRAL_HISTORY_SIZE=2', 'GEL_PID_DERIVATIVE_DELTA=5'), M16('C24.c', 'GEL_PID_INTEGRAL_HISTORY_SIZE=2', 'GEL_PID_DERIVATIVE_DELTA=5')] + [PID('C24.c', 1, 5), PID('C24.c', 4, 5), PID('C24.c', 1, 5, 'PID_FLOAT', 'GEL_PID_CONTROL=float', 'GEL_PID_OUTPUT=float'), PID('C24.c', 5, 5, 'PID_FLOAT', 'GEL_PID_CONTROL=float', 'GEL_PID_OUTPUT=float'), PID('C24.c', 5, 5, 'GEL_PID_CONTROL=int16_t'), PID('C24.c', 2, 5, 'GEL_PID_CONTROL=int64_t', 'GEL_PID_OUTPUT=int64_t'), PID('C24.c', 3, 5, 'GEL_PID_OUTPUT=int64_t'), PID('C24.c', 3, 5, 'GEL_PID_CONTROL=int8_t', 'GEL_PID_OUTPUT=int16_t')], how='One input is interpreted on an arbitrary controller (any window position, contents, thresholds, sign): the newest slot, an arbitrary other slot and the position are compared with the definition of the window; whole histories from initialisation are compared for small windows without looking into the structure.', note='All states, inputs and settings for each configured window size; integer value types with magnitudes below an eighth of the range and float values, whose operations stay uninterpreted.')
spec('C25', ['pid'], [PID('C25.c', 3, 2), PID('C25.c', 3, 3), PID('C25.c', 3, 300)], thorough=[M32('C25.c', 'GEL_PID_INTEGRAL_HISTORY_SIZE=3', 'GEL_PID_DERIVATIVE_DELTA=2'), M16('C25.c', 'GEL_PID_INTEGRAL_HISTORY_SIZE=3', 'GEL_PID_DERIVATIVE_DELTA=2')] + [PID('C25.c', 3, 1), PID('C25.c', 3, 5), PID('C25.c', 200, 5), PID('C25.c', 3, 2, 'PID_FLOAT', 'GEL_PID_CONTROL=float', 'GEL_PID_OUTPUT=float'), PID('C25.c', 3, 2, 'GEL_PID_CONTROL=int16_t'), PID('C25.c', 3, 2, 'GEL_PID_CONTROL=int64_t', 'GEL_PID_OUTPUT=int64_t'), PID('C25.c', 3, 2, 'GEL_PID_OUTPUT=int64_t'), PID('C25.c', 3, 2, 'GEL_PID_CONTROL=int8_t', 'GEL_PID_OUTPUT=int16_t')], how='One input is interpreted on an arbitrary controller whose ring of past errors is compared, before and after, as a sequence; each term is compared with its formula, floating-point operations being uninterpreted functions; computing is shown not to write.', note='All states, gains and settings for each configured ring size (a ring of 300 at chosen places); integer value types with magnitudes below an eighth of the range and float values, whose operations stay uninterpreted.')
spec('C29', ['state_machine'], [U('C29.c', name='four_states')], thorough=[M32('C29.c'), M16('C29.c')] + [U('C29.c', 'STATES=8', name='eight_states')], how='The generated send function is interpreted on a table of recording handlers for every current state with an arbitrary handler result, model and event; obligations give the calls, the next state and the answer.', note='Up to eight states, and chosen states of a table of 300; structure and scalar events; all results.')
spec('C33', ['timer'], [U('C33.c', name='timer')], thorough=[M32('C33.c'), M16('C33.c')], how='Every timer function is interpreted on an arbitrary timer in each state, with a recording callback that may also reconfigure the timer; obligations give the calls, what stays registered, and the remaining time at any later moment.', note='All field values and times; periods and counted times below half the timestamp range.')
spec('C34', ['wearleveling'], [U('C34.c', name='write')], thorough=[M32('C34.c'), M16('C34.c')] + [U('C34.c', 'MAXLEN=16', name='len16')], how='Writing is interpreted on an arbitrary position, marker, number of blocks, stored and new content, with callbacks that may return any result; the callbacks check their own arguments, and the result and next state are compared with the definition.', note='All positions, markers, numbers of blocks, results; data lengths 0..16 and 33 with arbitrary content, 300 with at most one byte different, reading any length.')
spec('C35', ['wearleveling'], [U('C35.c', 'BLOCKS=6', name='six_blocks'), U('C35.c', 'BLOCKS=4', 'NDEBUG', name='ndebug')], thorough=[M32('C35.c', 'BLOCKS=6'), M16('C35.c', 'BLOCKS=6')] + [U('C35.c', 'BLOCKS=8', 'BLOCKS_MANY=32', name='many_blocks')], how='Initialisation is interpreted on arbitrary markers with a read failure at any block; then writes, of which any may fail, followed by a second initialisation, on every page that ordered writing can leave.', note='Up to 8, and 32, blocks, all markers; 100, 129 and 255 blocks with a consecutive run of chosen lengths; two writes per restart, from every reachable page.')
spec('C36', ['circular_event_log'], [U('C36.c', name='append')], thorough=[M32('C36.c'), M16('C36.c')], how='Appending is interpreted on an arbitrary log (any size, position, fullness) and save result; obligations give the save call, result and next state, plus whole histories of small logs.', note='All logs with at least one slot.')
spec('C37', ['circular_event_log'], [U('C37.c', name='load')], thorough=[M32('C37.c'), M16('C37.c')], how='Loading is interpreted on an arbitrary log, request and skip (full range, overflow included), with a storage that may fail at each request; the requests are compared with the definition by linear arithmetic on the ring.', note='All logs up to 2^31-1 slots (results are ints), all requests and skips; a storage that loads what it is asked for or reports a negative error.')
spec('C38', [], [], structural=True, technique='effect and provenance analysis of LLVM IR (whole library, all configurations)', how='Every library source and the header-only parts (instantiated) are compiled to LLVM IR in every configuration; each global, each use of an outside function, each indirect call and each write outside the frame is classified by where its target comes from and checked against the rule.', note='All functions of the library in eleven configurations; pointers stored in memory reached from the arguments are assumed to be the caller\'s.')
spec('C41', ['collections', 'data_structures', 'debounce', 'keypad', 'parameter', 'serializer', 'timer'], [U('C41.c', name='macros')], thorough=[M32('C41.c'), M16('C41.c')], how='Every macro of the public headers is expanded with arguments that are whole expressions of low precedence, with arguments that count their evaluations, and in places where one statement or one expression fits; the expansions are interpreted and obligations compare them with the same arguments put into variables first. An expansion that does not compile is reported with the macro.', note='All values of the operands; a fixed set of argument shapes (conditional, bitwise or, sum, member, indirection, effect).')
spec('C42', [], [], structural=True, technique='compilation witnesses, symbol and declaration analysis of the public headers in all configurations', how='Generated translation units include each header alone, alone with a client that uses its macros and functions, twice, in every ordered pair and all together in both orders, and each source after its header: the type checker must accept all of them without a macro being redefined. The modules are checked for external definitions in headers and duplicate ones in sources, and each declared function must be defined.', note='Eleven configurations; GNU C17 as the library requires.')
spec('C43', ['circular_event_log', 'collections', 'crc', 'data_structures', 'keypad', 'pagemanager', 'parameter', 'pid', 'scheduler', 'timer', 'wearleveling'], [U('C43.c', name='returns'), U('C43.c', 'GEL_MALLOC_AVAILABLE=1', 'GEL_SCHEDULER_DYNAMIC_ENTRIES', 'GEL_PAGEMANAGER_UPDATE_CALLBACK', name='returns_other')], thorough=[M32('C43.c'), M16('C43.c')], structural=True, technique='call graph, loop exit and stack analysis of LLVM IR (whole library, all configurations), and loop bounds by abstract interpretation', how='The direct call graph (and calls through pointers to known library functions) is searched for cycles, each function for stack of variable size, and each natural loop for an exit whose condition depends on something the loop itself changes, not only a callback or another context, in as many bits as its bound has. In addition every operation with a loop or a callback is interpreted on small structures in arbitrary states with callbacks that answer anything: the number of rounds and of callbacks stays below a limit given by the size.', note='The rules look at all functions of the library in eleven configurations; the loop bounds are established for structures of a few elements.')
spec('C44', [], [], structural=True, technique='effect analysis of expanded assertions, and comparison of the code under both settings of NDEBUG', how='assert is expanded to its operand between two marks; in the unoptimised code nothing between the marks may write memory, read volatile memory or call a function with effects (transitively). With assertions left out, the code generated with and without NDEBUG must be the same.', note='All assertions of the library in ten configurations; an assertion is taken to hold.')
spec('C47', [], [], structural=True, technique='type-level witnesses and compile-fail witnesses against the public headers and sources, on three targets', how='For each option a program includes the header and the source under one way of giving the option; type-level assertions (sizes, element counts, types of members and results) must be accepted by the compiler, and programs that misuse an option must be refused with the right diagnostic. On the 64-bit target each program is also checked with every unrelated option added, one at a time.', note='The options listed in the statement; targets with 64-, 32- and 16-bit pointers.')
spec('C45', [], [], structural=True, technique='interprocedural write-effect analysis of LLVM IR (whole library, all configurations)', how='For every function the set of arguments through which it or a library function it calls writes is computed to a fixed point and compared with a table of what the function is meant to change.', note='All public functions in eleven configurations; memory reached through an argument counts as part of it, and what callbacks do is the caller\'s.')
spec('C46', ['collections', 'data_structures', 'pagemanager', 'parameter', 'scheduler', 'timer', 'wearleveling'], [U('C46.c', name='static'), U('C46.c', 'GEL_MALLOC_AVAILABLE=1', 'GEL_SCHEDULER_DYNAMIC_ENTRIES', 'GEL_PAGEMANAGER_UPDATE_CALLBACK', name='dynamic')], thorough=[M32('C46.c'), M16('C46.c')], how='Each operation with a checked precondition is interpreted on an arbitrary argument beyond the limit and an arbitrary state; every path has to end in the failure of an assertion, without an access outside the objects and without reaching a callback, and the call with the last legal argument has to return the right result.', note='Assertions enabled; parameter lists up to four entries, any number; any block count and any state of the page manager after initialisation or a failed reset.')
# what is cheap enough, and not about other targets, is part of the quick tier too
KEEP_THOROUGH = {('C02', 'u8_three_actions'), ('C02', 'u32_two_actions'), ('C14', 'all_lanes'), ('C16', 'three_keys'), ('C22', 'five'), ('C27', 'three_enabled')}
for _p, _s in SPECS.items():
    _move = [u for u in _s['thorough'] if '-m16' not in u[2] and '-m32' not in u[2] and (_p, u[0]) not in KEEP_THOROUGH]
    _s['units'] = list(_s['units']) + _move; _s['thorough'] = [u for u in _s['thorough'] if u not in _move]
# units and entries that go beyond the sizes a property rests on: when only time or memory ends their analysis they are recorded as undecided
SOFT_UNITS = KEEP_THOROUGH | {('C11', 'reduced_large'), ('C18', 'deep20'), ('C18', 'deep300'), ('C18', 'deep'), ('C24', 'window300_delta5'), ('C25', 'window200_delta5'), ('C25', 'window3_delta300'), ('C27', 'long_tables'), ('C28', 'long_tables'), ('C34', 'len16'), ('C35', 'many_blocks')}
SOFT_ENTRIES = re.compile(r'^(C04_deep_\d+|C\d+_(?!puts)\w*(long|large|huge|middle|many)\w*)$')
