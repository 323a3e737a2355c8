#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edited by hand here."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    if len(title)>80: print('LONG',id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=None)))

CB=["gel/collections/circular_buffer.c","gel/collections/circular_buffer.h"]
p("C01","Circular buffer: exact bounded FIFO for every size, fill level and wrap position",
"For every buffer size, fill level and wrap position, the buffer behaves as a FIFO of capacity size-1: a write stores exactly min(len, free space) elements in order behind what is already stored and reports that number, and a read or drop returns or discards exactly min(len, stored) of the oldest elements in order and reports that number, while a peek returns the same without consuming. Single-element put/get succeed exactly when there is room/data, size, empty, full and capacity report the true occupancy, initialisation rejects a null storage or a zero size, and calls on a null buffer or one without storage fail without effect. No access falls outside the storage, and elements not written or removed keep their values.",
["inputs","histories"],"every size N>=2, every head/tail position, every stored contents, every request length (including 0 and more than fits or is stored), every operation",
"Tests use one or two fixed sizes and a handful of positions; boundary combinations (request == gap, request > stored on a full buffer, wrap at the end of the storage) are combinatorial.",
CB,[("head/tail indices modulo bufsize, one slot kept free","gel/collections/circular_buffer.c: advance_pointer, retreat_pointer"),("chunked copies","circular_buf_puts, _circular_buf_get")],["return values of circular_buf_*","stored bytes returned by later reads"],
[("head","next slot to write","circular_buf_t"),("tail","next slot to read","circular_buf_t")])
p("C02","Circular buffer: producer and consumer may run concurrently without locks",
"With one producer (put calls) and one consumer (get, drop, peek calls) interleaving at any point between memory accesses, the producer never modifies the consumer's index and the consumer never modifies the producer's index nor the stored elements. An element slot is completely written before the producer's index moves past it and is read before the producer can write it again; every index value either side publishes is a valid position, the number of elements reported is the number actually transferred in this order, and no call can spin forever or overwrite/over-read because the other side advanced during the call.",
["schedules","inputs"],"every interleaving of one producer call with arbitrary advances of the consumer index, and of one consumer call with arbitrary advances of the producer index, for every size, position and length (sequentially consistent memory)",
"Tests are single threaded; no interleaving is exercised at all.",
CB,[("single-writer indices, data copied before the index store","circular_buf_putc, circular_buf_puts, circular_buf_getc, _circular_buf_get")],["order and values of stores to head, tail and the storage"],
[("head","written by the producer only","circular_buf_t"),("tail","written by the consumer only","circular_buf_t")])
p("C03","Macro queue: FIFO, count and capacity hold across index counter wrap-around",
"A generated queue with a power-of-two number of slots is a FIFO of exactly that capacity: enqueue fails only and always when it is full, dequeue and drop fail only and always when it is empty, and items come out unchanged in insertion order. The count, empty and full queries report the true occupancy at every point, including after the internal 16-bit counters have wrapped around any number of times, and no slot outside the storage is touched.",
["histories","inputs"],"every counter position (all 2^16), every occupancy 0..capacity, every item value, for item sizes/capacities instantiated",
"Tests do a few operations from an initialised queue and never reach the wrap-around of the 16-bit counters.",
["gel/collections/queue.h"],[("free-running 16-bit read/write counters masked by capacity-1","QUEUE_DEFINITION")],["NAME_enqueue, NAME_dequeue, NAME_drop, NAME_count, NAME_is_empty, NAME_is_full"],
[("read_idx/write_idx","free-running counters","struct NAME")])
p("C04","Macro stack: LIFO order, peek shows the top, front removal keeps the order",
"A generated stack is a LIFO of exactly its declared capacity: push fails only and always when full, pop and peek fail only and always when empty, pop returns and removes the most recently pushed item, and peek returns that same item without changing the stack. Removing from the bottom discards the oldest item and keeps the others in order; the empty/full queries are exact and no slot outside the storage is touched.",
["histories","inputs"],"every fill level 0..capacity and every item value, each operation",
"The stack has no test of its own; only page-manager tests (not built) used it.",
["gel/collections/stack.h"],[("idx as top pointer","STACK_DEFINITION")],["NAME_push, NAME_pop, NAME_peek, NAME_dequeue, NAME_is_empty, NAME_is_full"],
[("idx","number of stored items","struct NAME")])
p("C05","Intrusive list: links stay a consistent ring, iteration visits each entry once",
"Initialising, inserting at the head or tail, and removing an entry keep the doubly linked list a consistent ring: every node's successor's predecessor is the node itself, and exactly the intended neighbours change. Forward and backward traversal macros visit every entry exactly once in order and recover the enclosing structure whatever the position of the link member inside it; empty, is-last, next and previous queries agree with that order.",
["histories","programs"],"lists of every length: arbitrary interior position (distinct or coinciding neighbours) for the link operations, lengths 0..3 for traversal",
"There is no test for the list header; it is only checked to parse.",
["gel/collections/listx.h"],[("circular doubly linked list with sentinel","__list_add, __list_del, list_for_each*")],["next/prev links after each operation"],[])
p("C06","CRC-16/CRC-32 equal their documented polynomial and can be continued by chunks",
"For every message, length and starting value, the two checksum functions return the remainder defined by their documented polynomials (0x1021 and 0x04c11db7, most significant bit first, no final inversion), reading each byte of the message exactly once, in order, and nothing else. Hence computing over a message in consecutive pieces, feeding each result as the next starting value, gives the same value as computing over the whole.",
["inputs"],"all 2^16 / 2^32 starting values, every byte value, every length up to the limit of the length type",
"No test covers the CRC modules; 256-entry tables cannot be sampled meaningfully.",
["gel/crc/crc16-ccitt.c","gel/crc/crc16-ccitt.h","gel/crc/crc32.c","gel/crc/crc32.h"],[("256-entry tables and byte-wise update","crc16_ccitt, crc32")],["return value"],[])
p("C07","Serializer: exact byte order and width, and deserialising inverts serialising",
"Each serialise function writes exactly the bytes of its value in the stated (little- or big-endian) order, touches no other byte and returns the number of bytes; each deserialise function reads exactly that layout, returns the same number, and yields the value back for every value of the unsigned type and every two's-complement value of the signed type. The buffer may lie at any address: no access to it needs an alignment. The packing/unpacking convenience macros have the same layout and return the same size.",
["inputs"],"every value of every 8/16/32/64-bit type, signed and unsigned, both byte orders",
"Tests check single constants per width; sign bits and each byte lane vary independently over 2^64 values.",
["gel/serializer/serializer.h"],[("shift-and-mask inline functions","serialize_*, deserialize_*"),("macros","PACK_*, UNPACK_*")],["bytes of the buffer, returned size, value read back"],[])
p("C08","Schedule entry serialisation: fixed 11-byte layout that round-trips",
"Serialising a schedule entry always writes exactly 11 bytes, in the order enabled, days, start (32-bit little endian), end (32-bit little endian), value (low byte), returns 11 and leaves the entry and all other memory unchanged. Deserialising reads exactly those 11 bytes, returns 11, and reproduces enabled, days, start and end exactly and the value's low byte as a non-negative number. The buffer may lie at any address.",
["inputs"],"every entry content and every 11-byte buffer",
"The scheduler module has no tests.",
["gel/scheduler/scheduler.c","gel/scheduler/scheduler.h","gel/serializer/serializer.h"],[("field-by-field serialisation","scheduler_entry_serialize, scheduler_entry_deserialize")],["buffer bytes, returned size, deserialised fields"],[])
p("C09","Maybe type: presence and value are never confused",
"A generated optional value built from a value is present and carries exactly that value; one built as nothing is absent. Asking with a default returns the carried value if present and the default otherwise; mapping or binding a function applies it exactly once to the carried value if present (mapping wraps the result as present, binding returns the function's own result) and never calls it when absent, giving an absent result.",
["inputs","programs"],"every carried value, including 0, and every function",
"Tests use a couple of constants and one function.",
["gel/data_structures/maybe.h"],[("nothing flag","MAYBE_DEFINITION")],["results of maybe_*_*"],[])
p("C10","Struct update: deep copy at creation, exact region on application",
"An update record captures the offset, the size and a private copy of the new data at creation: changing or reusing the source afterwards does not affect it. Applying it writes exactly those bytes at exactly that offset of the target and nothing else, any number of times; freeing releases exactly the private copy, and the creation macros record the offset and size of the named field (or of the given number of array elements).",
["inputs","histories"],"every offset, data and size; later modification of the source",
"Tests exercise one struct with two fields.",
["gel/data_structures/struct_update.c","gel/data_structures/struct_update.h"],[("malloc + memcpy copy","struct_update_from_data"),("bounded copy","struct_update_apply")],["bytes of the target, allocation and free calls"],[])
p("C11","Watcher: a change in any watched location is seen, and only then",
"Checking for changes reports 1 exactly when at least one watched location differs, in any of its bytes, from its remembered value, and changes nothing. Processing changes returns 1 exactly in that case, and after processing or clearing no change remains to be reported; clearing fires no callback, and initialisation remembers the current value of every location in the list. Only watched locations before the terminator are examined, and watched memory is never modified.",
["inputs","histories"],"every content of the watched and remembered memory, each byte of each entry, lists of length 0 to 3",
"Tests change one or two integers by fixed amounts.",
["gel/data_structures/watcher.c","gel/data_structures/watcher.h"],[("remembered copy compared with the current bytes","watcher_check_for_changes, watcher_process_changes, watcher_clear_changes, watcher_list_init")],["return values, remembered copies"],[("old","remembered copy","watcher_t")])
p("C12","Watcher: immediate callbacks fire once per change, delayed ones once when quiet",
"When processing finds a changed location without delay, its callback is called exactly once, with the location's address and its own user data; an unchanged location fires nothing. For a delayed location a change only restarts its delay; the callback fires exactly once, at the first processing call that finds no new change with the delay elapsed since the last change (also when the timestamp counter wraps), and not again until another change. Entries are handled independently of one another, and triggering an entry (or all) calls exactly that entry's callback (or each one once).",
["histories","inputs"],"every change pattern, timestamp (including wrap-around) and delay below half the timestamp range, lists of length up to 3",
"Tests use one delayed entry and increasing small timestamps.",
["gel/data_structures/watcher.c","gel/data_structures/watcher.h","gel/timer/timecheck.h"],[("moved flag and timestamp per entry","watcher_process_changes")],["callback calls and arguments"],[("moved","a delayed callback is pending","watcher_t"),("timestamp","time of the last change","watcher_t")])
p("C13","Debounce: a bit changes only after debounce+1 consistent calls, independently",
"For each input bit and every non-negative debounce setting, the filtered level changes exactly at the (debounce+1)-th consecutive call whose input differs from the current level, and any call whose input agrees with the level restarts the count. The returned value has exactly the bits that changed in this call set; bits never influence each other, whether filtered together or one at a time, and initialising or forcing a value leaves no partial count behind.",
["histories","inputs"],"every bit position, every filter state reachable, every debounce value below 2^31, every input word, sequences of calls by induction on one call",
"Tests use debounce values 0 to 10 on a few bits with fixed sequences.",
["gel/debounce/debounce.c","gel/debounce/debounce.h"],[("per-bit down counter","debounce_filter_single, debounce_filter"),("reset","debounce_filter_init, debounce_filter_set")],["debounce_value, debounce_read, returned change mask"],[("debounce_count","remaining calls per bit","debounce_filter_t"),("old_input/buffered","current filtered level","debounce_filter_t")])
p("C14","Pulse counter: each filtered pulse is counted once, on its own input",
"For each input and every non-negative debounce setting, the filtered level changes exactly at the (debounce+1)-th consecutive differing call, and the counter of that input is incremented by exactly one when, and only when, the filtered level completes a pulse of the configured kind (falling level for high pulses, rising level for low pulses). The call reports 1 exactly when some counter was incremented; inputs do not influence each other; clearing zeroes only the chosen counter, and initialisation zeroes all counters and partial counts and takes the given levels.",
["histories","inputs"],"every input position, filter state, pulse kind, debounce value below 2^31 and input word, by induction on one call",
"Tests use one pulse kind and small debounce values on a few inputs.",
["gel/debounce/pulsecounter.c","gel/debounce/pulsecounter.h"],[("per-bit down counter and edge test","pulse_filter"),("reset","pulse_filter_init, pulse_clear")],["pulse_count, pulse_level, return value"],[("filters","remaining calls per input","pulse_filter_t"),("count","pulses counted","pulse_filter_t")])
p("C15","Debounce and pulse accessors reject every out-of-range input index",
"Reading a filtered level, a pulse count or a pulse level with an index outside the number of inputs returns -1, clearing or filtering a single input with such an index has no effect (and reports no change), and no memory outside the filter is touched. For every index in range they act on exactly that input.",
["inputs"],"every index value of the parameter type",
"Tests only use valid indices.",
["gel/debounce/debounce.h","gel/debounce/debounce.c","gel/debounce/pulsecounter.h","gel/debounce/pulsecounter.c"],[("bounds checks","debounce_read, debounce_filter_single, pulse_count, pulse_level, pulse_clear")],["return values, filter contents"],[])
p("C16","Keypad: key events follow the press/click/release life cycle of the right key",
"With keys of distinct codes and bit maps, every event reported by the keypad routine belongs to a key of the list, carries that key's code, and is a legal continuation of that key's own history: PRESS only when a key changes from up to down, CLICK only after PRESS while down, PRESSING only after CLICK while down, LONGCLICK only after PRESS or CLICK while down (with a long-click time not below the click time), LONGPRESS only after LONGCLICK while down, and RELEASE only once, for a key that is up and had a press not yet released. At most one key's history advances per call, the reported event (other than the repeating PRESSING and LONGPRESS) is exactly the one recorded as that key's last event, and after a reset a key reports nothing before it is pressed again.",
["histories","inputs"],"every key state, bit value and timestamp; key lists of length up to 2; by induction on one call",
"Tests walk a few scripted sequences with small timestamps.",
["gel/keypad/keypad.c","gel/keypad/keypad.h"],[("per-key state machine","keypad_routine"),("reset","keypad_reset_keys")],["returned keypad_update_t"],[("lastevent/value/oldvalue/ignore","per-key history","keypad_key_t")])
p("C17","Keypad: timed events fire strictly after their thresholds, also across wrap",
"CLICK is reported only strictly more than the click time after the press, LONGCLICK only strictly more than the long-click time after the press, and PRESSING and LONGPRESS only strictly more than the repetition period after the previous timed event of that key; a RELEASE of a clicked key is reported only strictly more than the click time after it went up. All comparisons hold across wrap-around of the timestamp counter, and when a held key's threshold has passed and no earlier event is due, the event is reported at that call.",
["inputs","histories"],"every timestamp including wrap-around, thresholds below half the timestamp range, every key state",
"Tests use small timestamps that never wrap and a few thresholds.",
["gel/keypad/keypad.c","gel/timer/timecheck.h"],[("is_strictly_expired on time_state/time_period","keypad_routine")],["returned event versus timestamps"],[("time_state","time of the last press/release/long click","keypad_key_t"),("time_period","time of the last timed event","keypad_key_t")])
p("C18","Page manager: page callbacks are paired and the navigation stack keeps its order",
"Every page that becomes current is created (if new) and opened exactly once on entry, and closed exactly once when it stops being current; a page removed for good is destroyed exactly once, with its own data and extra argument, and a page kept on the stack is not destroyed. Changing page pushes the current one, going back returns to the most recently pushed page with its data intact (and does nothing on an empty stack), swapping replaces only the current page, rebasing also destroys every stacked page, and resetting destroys pages down to the one requested, reporting whether it was found. The results do not depend on whether assertions are compiled in.",
["histories","configurations","inputs"],"every stack depth up to the limit, every page with any subset of callbacks present, every operation, with and without NDEBUG",
"The page manager is not built by the test suite (its header was disabled), so nothing is exercised.",
["gel/pagemanager/page_manager.c","gel/pagemanager/page_manager.h","gel/collections/stack.h"],[("navigation stack plus current page","pman_change_page_extra, pman_back, pman_swap_page_extra, pman_rebase_page_extra, pman_reset_to_page")],["sequence and arguments of page callbacks"],[("initialized","there is a current page","page_manager_t")])
p("C19","Parameter stepping never leaves the configured limits",
"Stepping a parameter by a non-zero multiple of its step always leaves a value within its effective limits (the pointed-to limits when present, else the fixed ones), whenever the limits are ordered: the new value is the stepped one (computed with the wrap-around of the parameter's own type) if that lies within the limits, otherwise the minimum when stepping up and the maximum when stepping down. It writes only the parameter's own storage, with its own width, and fails without effect on a null handle.",
["inputs","configurations"],"every parameter type, current value, limits, step and multiplier, for every configured maximum size; integers exactly, floating point through comparisons only",
"Tests step one or two unsigned parameters.",
["gel/parameter/parameter.c","gel/parameter/parameter.h"],[("range check and wrap","parameter_operator, APPLY_OPERATOR, CHECK_RANGE_AGAINST")],["stored value after parameter_operator"],[])
p("C20","Parameter range check repairs and counts exactly the out-of-range values",
"Checking ranges replaces the value of exactly those parameters that are not within their effective limits (a NaN is not within any limits) by their default, leaves every other value untouched, and returns how many it replaced. Resetting to defaults stores the default into every parameter; both visit every parameter of the list exactly as stored, whatever its type or access level, and write nothing else.",
["inputs","configurations"],"every type, value, limits and default; lists of length up to 3",
"Tests use four parameters with fixed values and never a NaN, a negative value or a 64-bit limit.",
["gel/parameter/parameter.c"],[("CHECK_RANGE / SET_DEFAULT per type","parameter_check_ranges, parameter_reset_to_defaults")],["stored values, returned count"],[])
p("C21","Parameter accessors use each type's own width and signedness",
"For every parameter type, reading a value as a long, as an index, as a boolean or as formatted text, cloning a parameter, cloning it into a buffer and copying its value access exactly the bytes of that type and interpret them with that type's signedness (floating-point values read as 0 in the integer views). Copying requires equal types, cloning keeps every descriptor field, the number of values of an integer type is maximum - minimum + 1 of the effective limits when that fits the type, and null handles are rejected without effect.",
["inputs","configurations"],"every type, every value, every configured maximum size (1, 2, 4, 8)",
"Tests read a couple of unsigned values and only with the largest configuration.",
["gel/parameter/parameter.c"],[("per-type switches","parameter_to_long, parameter_to_index, parameter_to_bool, parameter_to_string_format, parameter_clone, parameter_clone_with_buffer, parameter_copy_value, parameter_get_total_values")],["returned values, bytes copied, arguments given to the formatter"],[])
p("C22","Parameter access level: count and lookup agree on who may see what",
"A parameter is visible at an access level when its own level is zero (free access) or shares a bit with it. The count equals the number of visible parameters, the n-th lookup returns the n-th visible parameter in list order for every n below the count, and null beyond it; a parameter's runtime refresh callback, when present, is invoked on it with its own argument before its visibility is judged, and refreshing affects no other entry.",
["inputs","histories"],"every access-level mask and every n; lists of length up to 3; runtime callbacks present or absent",
"Tests use one access level for all parameters.",
["gel/parameter/parameter.c"],[("access test","parameter_get_handle, parameter_get_count")],["returned handle and count, callback calls"],[])
p("C23","Parameter descriptor macros keep type, limits, default and step exactly",
"The descriptor macros give a parameter the type of the variable it points to and store minimum, maximum, default and step as exactly the given values for that type: full 64-bit values and negative values of every signed type included, floating-point values converted to the variable's type. Pointers to limits, access level, user data, runtime callback and argument are stored unchanged, and omitted ones are null, with a step of one.",
["inputs","configurations"],"every value of every type given as an expression of that type",
"Tests look at small non-negative constants only.",
["gel/parameter/parameter.h"],[("_Generic selection and casts","PARAMETER_FULL, _PARAMETER_LIMIT_VALUE_OPTION, PARAMETER_C99")],["fields of parameter_handle_t"],[])
p("C24","PID integral term: the window holds the last errors and respects the thresholds",
"After each new input the integral window holds, for each of the last N inputs, that input's error at the time, or zero if the error was zero or its magnitude had reached the enabled threshold for its sign; the integral term is the integral gain applied to the sum of exactly these N values. Clearing the history zeroes the whole window, a change of the error's sign clears it when automatic clearing is enabled (and only then), and no slot outside the window is touched for any number of inputs.",
["histories","inputs","configurations"],"every controller state, input, set point and threshold; every window position; by induction on one input (integer value types)",
"Tests feed a few inputs, fewer than the window in most cases.",
["gel/pid/pid.c","gel/pid/pid.h"],[("ring of errors","pid_add_input, pid_compute_i, pid_clear_integral_history")],["pid_compute_i, pid_compute"],[("history/index","ring of errors","pid_ctrl_t"),("sign","sign of the last non-zero error","pid_ctrl_t")])
p("C25","PID output: P, D and their sum use the current error and the right past error",
"The proportional term is the proportional gain times the current error (set point minus input); the derivative term is the derivative gain times the current error minus the oldest of the last D recorded errors (or of all of them when fewer), zero before two inputs were given and zero when its threshold is enabled and the current error's magnitude exceeds it. The output is the sum of the three terms computed from the same state, and computing changes nothing.",
["histories","inputs"],"every controller state reachable, gain, input and set point; every history position",
"Tests use a few gains and short histories.",
["gel/pid/pid.c","gel/pid/pid.h"],[("derivative ring","pid_add_input, pid_compute_d"),("sum","pid_compute, pid_compute_p")],["pid_compute, pid_compute_p, pid_compute_d"],[("derivative_history/derivative_index/derivative_history_size","ring of past errors","pid_ctrl_t")])
p("C26","Scheduler: entry operations reject out-of-range indices and touch one entry",
"Getting, setting, disabling or querying an entry works on exactly the indexed entry when the index is in range; otherwise it reports failure (null, -1, or not enabled) and changes nothing. Initialisation zeroes every entry, and the searches for the next enabled entry from a start index and for the first free entry return the lowest qualifying index, or -1 if there is none.",
["inputs","configurations"],"every index value, every table content, fixed-size and dynamic tables",
"The scheduler module has no tests.",
["gel/scheduler/scheduler.c","gel/scheduler/scheduler.h"],[("bounds checks against the number of entries","scheduler_get_entry, scheduler_get_entry_mut, scheduler_set_entry, scheduler_is_schedule_entry_enabled, scheduler_disable_schedule_entry")],["return values and table contents"],[])
p("C27","Scheduler: the active entry is an enabled one in its time window, best-ranked",
"An entry is active at a moment when it is enabled, its day mask includes the current weekday and the time of day lies in [start, end), where an end beyond midnight (over 86400) also covers the early hours up to end minus one day. The selected entry is active, no active entry has a smaller weekly duration (duration times number of days), and among those none has a larger value, the earliest index winning ties; nothing is selected exactly when no entry is active, the is-active and current-value queries agree with this, the active map has exactly the bits of the active ones of the first 16 entries, and the overlap count counts exactly the enabled entries of the table sharing a weekday and an instant with the given one, first and last second included (entries whose start is not after their end).",
["inputs"],"every entry content with at most 2 (quick) or 3 enabled entries of the table and every weekday and time of day, also tables of 300 entries; selection by pairwise comparison",
"The scheduler module has no tests.",
["gel/scheduler/scheduler.c"],[("window test and ranking","is_entry_active, total_week_timespan, scheduler_get_active_entry_number")],["scheduler_get_active_entry_number, scheduler_is_active, scheduler_current_value, scheduler_get_active_entries_map, scheduler_are_there_overlapping_entries"],[])
p("C28","Scheduler: remaining duration counts down to the real end of the active window",
"For an active entry the remaining duration is the number of seconds from the current time of day to the end of the window it is in: the stored end minus the current time, less one day when the current time is in the after-midnight part of an entry that runs past midnight. It is therefore at least 1 and at most the distance to the end of the window, and it is 0 for an entry that is not active, not enabled or not existing; the overall remaining duration is that of the selected entry.",
["inputs"],"every entry content, index, weekday and time of day",
"The scheduler module has no tests.",
["gel/scheduler/scheduler.c"],[("difference to the end","scheduler_get_schedule_remaining_duration, scheduler_get_current_remaining_duration")],["returned durations"],[])
p("C29","State machine: each event goes to the current state's handler exactly once",
"Sending an event invokes exactly one handler, the one registered for the state current before the call, exactly once, with the given model and event. A non-negative result becomes the new state and the call returns 1; a negative result leaves the state unchanged and the call returns 0.",
["inputs","programs"],"every number of states, current state, handler result, model and event",
"The state machine header has no test.",
["gel/state_machine/state_machine.h"],[("handler table indexed by state","DEFINE_STATE_MACHINE")],["handler calls, state, return value"],[])
p("C30","Time comparison is correct across wrap-around for every timestamp type",
"For any two instants less than half the timestamp range apart, after/before/after-or-equal order them by the wrapped difference, wherever the counter wraps, and the interval between them is the true distance in either order. A delay counts as (loosely) expired exactly when the current instant, ordered that way, is at or after start plus delay, and strictly expired exactly when it is after it (so an instant a little before the start is not expired). This holds for every configured unsigned timestamp type of at least the width of int, whatever the width of long.",
["inputs","configurations"],"every pair of timestamps less than half the range apart, every delay below half the range; 32-bit and 64-bit timestamp types",
"The timecheck test is not built, and tests use a few constants.",
["gel/timer/timecheck.h"],[("signed view of the wrapped difference","time_after, time_after_or_equal, time_interval, is_loosely_expired, is_strictly_expired")],["results of the macros and functions"],[])
p("C31","Stopwatch: only legal state transitions, failed calls change nothing",
"Start succeeds from stopped or paused and makes it counting from the given time; pause succeeds only while counting; stop and restart always succeed, stop clearing and restart zeroing the elapsed time; setting the period or the elapsed time succeeds only while stopped, while changing the period always restarts. Every call that is not legal in the current state returns -1 and changes nothing at all, legal calls return 0 and change only what they state, and initialisation gives a stopped, zeroed stopwatch.",
["histories","inputs"],"every stopwatch content and timestamp, each operation",
"Tests walk a few scripted sequences.",
["gel/timer/stopwatch.c","gel/timer/stopwatch.h"],[("switch on state","stopwatch_start, stopwatch_stop, stopwatch_pause, stopwatch_restart, stopwatch_set, stopwatch_set_elapsed, stopwatch_change, stopwatch_init")],["return value and stopwatch_get_state/total/elapsed"],[("state","stopped, counting or paused","stopwatch_t")])
p("C32","Stopwatch: elapsed time is the counted time only, and agrees with remaining",
"The elapsed time is the time accumulated while counting, excluding pauses, also across wrap-around of the timestamp counter; the remaining time is the set period minus the elapsed time, or 0 once reached. The stopwatch is reached exactly when it is not stopped and its elapsed time is at least the set period, so reached and a zero remaining time agree; the queries change nothing.",
["histories","inputs"],"every stopwatch content, counting periods below half the timestamp range, every timestamp including wrap-around",
"Tests use small timestamps that never wrap.",
["gel/timer/stopwatch.c","gel/timer/timecheck.h"],[("elapsed accumulation","stopwatch_pause, stopwatch_get_elapsed, stopwatch_get_remaining, stopwatch_is_timer_reached")],["returned times"],[("elapsed_time","time accumulated before the last start","stopwatch_t"),("starting_time","time of the last start","stopwatch_t")])
p("C33","Timer: the callback fires once per expiry, then reloads or stops",
"Servicing a timer calls its callback exactly once, with the timer, the caller's pointer and the registered argument, when and only when its period has been reached while it is not stopped; it then restarts from the given time if automatic reload is set (as left by the callback) and stops otherwise, and returns 1, else it changes nothing and returns 0. Initialisation leaves the timer counting the given period from the given time without reload, stopping prevents further calls, pausing and resuming preserve the counted time, and resetting or changing the period restarts a counting timer, leaves a paused one paused with nothing counted, and has no effect on a stopped one.",
["histories","inputs"],"every timer content, timestamp and callback (including one that reconfigures the timer)",
"The timer module has no test (only the stopwatch it builds on).",
["gel/timer/timer.c","gel/timer/timer.h","gel/timer/stopwatch.c"],[("expiry test and reload","gel_timer_manage_callback"),("state dispatch","gel_timer_reset, gel_timer_change_period")],["callback calls, return values, remaining time"],[])
p("C34","Wear leveling write: next block, only on change, state advances on success",
"Writing compares with the active block and, if the content is equal, writes nothing and reports success; otherwise it performs exactly one write, to the block after the active one (wrapping at the number of blocks), with the marker following the last one (wrapping at 256) and the caller's data and length. The active block and last marker advance to these exactly when that write succeeds; a read or write error is returned as it is and leaves them unchanged, so a retry targets the same block. Reading reads the active block.",
["inputs","fault_sequences","histories"],"every position, marker, number of blocks and data, lengths up to 16 and 33, every result of the storage callbacks",
"Tests use a RAM-backed storage that never fails.",
["gel/wearleveling/wearleveling.c","gel/wearleveling/wearleveling.h"],[("read-compare-write","wearleveling_write"),("read","wearleveling_read")],["storage callback calls and arguments, next write's target"],[("last_active_block/last_marker","current block and its marker","wear_leveled_memory_t")])
p("C35","Wear leveling start-up finds the last written block, never uses a failed read",
"At initialisation the active block becomes the last one of the run of consecutive markers (modulo 256) starting at block 0 - the block before the first one whose marker does not follow its predecessor's, or the last block if all follow - with its marker remembered, so a completed write is found again after a restart. Markers are read in block order from 0, only existing blocks are read, and a marker read error never yields a block number out of range nor is an error code taken for one; such an error leaves block 0 active and is reported.",
["histories","fault_sequences","inputs"],"every number of blocks below 256, every marker sequence, every result of the marker reads",
"Tests have no read failure and few marker layouts.",
["gel/wearleveling/wearleveling.c"],[("marker scan","search_last, wearleveling_init")],["active block and marker after init"],[("last_active_block/last_marker","current block and its marker","wear_leveled_memory_t")])
p("C36","Event log append: position advances by one slot only when the save succeeds",
"Appending saves the event at the next position and only there; if the save reports an error that error is returned and nothing advances, otherwise the next position advances by one, wrapping to 0 at the configured maximum and marking the log full from then on. The next position is always below the maximum, and the total is the number of events saved until the log is full and the maximum afterwards.",
["histories","fault_sequences","inputs"],"every log size >= 1, position, fullness and save result",
"Tests use a small RAM log that never fails.",
["gel/circular_event_log/circular_event_log.c","gel/circular_event_log/circular_event_log.h"],[("advance after save","circular_event_log_new_event"),("total","circular_event_log_total_events")],["save callback calls, returned values"],[("next_position/full_circle","write cursor and fullness","circular_event_log_t")])
p("C37","Event log load: the requested latest events, oldest first, within bounds",
"Loading n events skipping the last j asks the storage, in chronological order, for exactly the min(n, total-j) events that end j before the newest (none when j is at or beyond the total, without overflow for any n and j), as one contiguous range or as the end of the storage followed by its beginning, placed one after the other in the destination. No request reaches outside the log or the caller's n events, an error of either part is returned as an error, and otherwise the number of events loaded is returned.",
["inputs","fault_sequences","histories"],"every log size, position, fullness, request and skip, event size, and load result",
"Tests use small logs and loads that never fail.",
["gel/circular_event_log/circular_event_log.c"],[("start computation and wrap split","circular_event_log_load_last_events, nth_last_event")],["load callback calls and arguments, returned value"],[])
p("C38","Library code keeps no hidden state and uses dynamic memory only where stated",
"Library functions keep no mutable state outside the structures they are given, so independent instances never interfere and functions are reentrant on distinct instances. Only struct updates, watchers configured for it and schedulers configured for it use dynamic memory; no library function performs input/output, terminates the process (other than failed assertions), or calls out to anything but the callbacks registered in its own structures and pure memory/format helpers.",
["programs","configurations"],"every function of the library, every call and every global",
"Absence of hidden state and of forbidden calls is a property of all code, not of any sampled run.",
["gel/collections/circular_buffer.c","gel/crc/crc16-ccitt.c","gel/crc/crc32.c","gel/data_structures/struct_update.c","gel/data_structures/watcher.c","gel/debounce/debounce.c","gel/debounce/pulsecounter.c","gel/keypad/keypad.c","gel/pagemanager/page_manager.c","gel/parameter/parameter.c","gel/pid/pid.c","gel/scheduler/scheduler.c","gel/timer/stopwatch.c","gel/timer/timer.c","gel/wearleveling/wearleveling.c","gel/circular_event_log/circular_event_log.c"],[("no static variables, callbacks through structures","whole library")],["globals and external calls of the compiled modules"],[])
# not applicable
p("C39","Circular buffer ordering holds on weakly ordered multi-core hardware",
"On processors and compilers that reorder memory accesses, a producer and a consumer on different cores using the circular buffer still never see an index before the data it publishes.",
["schedules","configurations"],"every memory model the library is compiled for",
"Tests are single threaded on one architecture.",
["gel/collections/circular_buffer.c"],[("plain (non-atomic) index accesses","circular_buf_t")],["elements read by the consumer"],[])
p("C40","PID output is numerically accurate for floating-point value types",
"With floating-point value types the controller output deviates from the real-valued PID formula by no more than rounding error over any history.",
["histories","inputs"],"every sequence of floating-point inputs, gains and set points",
"Tests compare a few integer results.",
["gel/pid/pid.c"],[("float accumulation","pid_compute_i")],["pid_compute"],[])

ALLC=["gel/collections/circular_buffer.c","gel/crc/crc16-ccitt.c","gel/crc/crc32.c","gel/data_structures/struct_update.c","gel/data_structures/watcher.c","gel/debounce/debounce.c","gel/debounce/pulsecounter.c","gel/keypad/keypad.c","gel/pagemanager/page_manager.c","gel/parameter/parameter.c","gel/pid/pid.c","gel/scheduler/scheduler.c","gel/timer/stopwatch.c","gel/timer/timer.c","gel/wearleveling/wearleveling.c","gel/circular_event_log/circular_event_log.c"]
ALLH=["gel/collections/circular_buffer.h","gel/collections/listx.h","gel/collections/queue.h","gel/collections/stack.h","gel/crc/crc16-ccitt.h","gel/crc/crc32.h","gel/data_structures/maybe.h","gel/data_structures/struct_update.h","gel/data_structures/watcher.h","gel/debounce/debounce.h","gel/debounce/pulsecounter.h","gel/keypad/keypad.h","gel/pagemanager/page_manager.h","gel/parameter/parameter.h","gel/pid/pid.h","gel/scheduler/scheduler.h","gel/serializer/serializer.h","gel/state_machine/state_machine.h","gel/timer/stopwatch.h","gel/timer/timecheck.h","gel/timer/timer.h","gel/wearleveling/wearleveling.h","gel/circular_event_log/circular_event_log.h"]
p("C41","Macros of the API behave like functions: whole-expression arguments, one use",
"The function-like macros of the public headers that stand for a value or an action (packing and unpacking, time comparisons, set-and-go of the stopwatch, struct updates, watcher and keypad entries, parameter handles) can be used like functions. Any expression may be given as an argument, conditional or bitwise expressions and pointer arithmetic included, without its meaning changing; each argument is evaluated exactly once; and a use of the macro is one expression (or one statement for actions), so that it can stand in a conditional, in the body of an if with an else, and inside a larger expression.",
["inputs","programs"],"every such macro, every shape of argument (conditional, bitwise, sum, member, indirection, with an effect), every value",
"Tests give the macros plain variables or constants.",
["gel/serializer/serializer.h","gel/timer/timecheck.h","gel/timer/stopwatch.h","gel/timer/timer.h","gel/data_structures/struct_update.h","gel/data_structures/watcher.h","gel/keypad/keypad.h","gel/parameter/parameter.h"],[("parenthesised macro parameters, statement expressions","PACK_*, UNPACK_*, time_after, STRUCT_UPDATE, WATCHER*, KEYPAD_KEY, PARAMETER*, stopwatch_setngo")],["values of the expansions","number of evaluations of each argument"],[])
p("C42","Headers: self-contained, composable in any order, declarations match definitions",
"Every public header can be included alone, twice, in any order with the others, and in any number of translation units of one program: it brings in what it needs, defines nothing with external linkage, and redefines no macro. The declarations in a header agree with the definitions in its source and every declared function is defined, in every configuration of the library.",
["programs","configurations"],"every header, every ordered pair of headers, every configuration",
"The tests include a few headers in one order in one configuration.",
ALLH,[("include guards, static inline functions","public headers")],["whether client programs compile and link"],[])
p("C43","Bounded calls: no recursion, no variable stack, no loop that waits for others",
"No call into the library can run or grow the stack without bound: no library function calls itself, directly or through others; the stack a call needs does not depend on run-time values (other than the copy of a block that a wear-leveling write compares with); and every loop makes progress towards an exit by what it itself changes, counting in enough bits for its bound, whatever state the structures are in and whatever the callbacks answer, so no call busy-waits for an interrupt, another context or a callback, or retries one for ever.",
["inputs","schedules","programs"],"every function of the library, every loop, every cycle of the call graph, every configuration",
"A test that terminates says nothing about other inputs; stack bounds and busy waits are properties of all paths.",
ALLC,[("loops over bounded arrays and lists","whole library"),("direct call graph","whole library")],["termination and stack depth of calls"],[])
p("C44","Disabling assertions does not change what the library does",
"Compiling the library with assertions disabled changes nothing but the checks: no assertion contains an operation the function needs (an assignment, a call with effects, a read of a volatile object), and no other code depends on whether assertions are enabled. So as long as the asserted conditions hold, debug and release builds behave the same.",
["configurations","programs"],"every assertion of the library in every configuration, every function under both settings",
"Tests are built in one setting only.",
ALLC,[("assert","whole library")],["code generated with and without NDEBUG"],[])
p("C45","Calls change only what they are meant to change: queries and inputs stay intact",
"A library call modifies only the structures it is meant to modify. Queries (sizes, states, counts, remaining times, comparisons, current values, conversions) modify nothing they are given, nor anything reached through it; operations modify their own structure or the stated destination and never their sources: data to be written, serialised, checksummed or compared, configuration records, callback arguments and the objects of other instances.",
["inputs","programs","configurations"],"every public function, every argument, every path, every configuration",
"Tests look at the result of a call and not at all other memory; a write on one path through one argument goes unnoticed.",
ALLC,[("read-only arguments (most of them not declared const)","whole library")],["memory reached through the arguments of each function"],[])
p("C46","Checked misuse stops at an assertion, and legal use at its limit does not",
"With assertions enabled, a call that violates a precondition the library checks never proceeds: looking up a parameter number not below the length of the list, sending an event to, going back from or updating a page manager that has no current page (freshly initialised, or left without one because the page asked for was not on the stack), going forward to one page more than the navigation stack holds, initialising wear leveling with more blocks than markers can tell apart, initialising a watcher list with a location larger than its static block, and creating a scheduler whose entries cannot be allocated all end in a failing assertion, whatever the other arguments and the state of the object, before memory outside the objects is touched, before an entry or page is lost, and before a callback of the missing object is called. The last legal value of each precondition is accepted and works.",
["inputs","histories"],"every argument beyond each limit, every state of the object; the last legal value of each",
"The tests only make legal calls; a failing assertion ends a test program.",
["gel/parameter/parameter.c","gel/pagemanager/page_manager.c","gel/wearleveling/wearleveling.c","gel/data_structures/watcher.c","gel/scheduler/scheduler.c"],[("assert","parameter_get_handle, pman_process_page_event, pman_back, pman_page_update, pman_change_page_extra, wearleveling_init, watcher_list_init, scheduler_init")],["whether the call returns", "callbacks made before it stops"],[("initialized","there is a current page","page_manager_t")])
p("C47","Compile-time options take effect where given, and defaults hold otherwise",
"Each compile-time option of the library decides exactly what it is for, in the header and in the module's source alike. Parameter: the value union has the size of the widest integer of at most GEL_PARAMETER_MAX_SIZE bytes (8 by default, 0 refused), the type numbers are the same for every size, the descriptor has the given attributes and user data type (none and void * by default). Page manager: a build without a configuration is refused, the navigation stack holds exactly PMAN_NAVIGATION_DEPTH pages, the update callback exists exactly when asked for. For both, a configuration header can be named directly, through the build system's CONFIG_ name (which gives way to the direct one), or be gel_conf.h by the simple option (which comes first), and one module's header does not configure the other. Timestamps have the configured type (unsigned long by default), and comparing one with a variable of another type is diagnosed on either side by each comparison unless the check is switched off. Circular buffer elements, scheduler table size or dynamic table, watcher block size, dynamic or packed watchers, PID value types and window sizes, the CRC-16 opt-out and the number of filtered inputs (one per bit of an unsigned int) follow their options or defaults. The configuration template the repository offers builds every module, as does a configuration whose page views carry no value.",
["configurations","programs"],"every option: default, given directly, given through each configuration path; 64-, 32- and 16-bit targets",
"The tests are built in one configuration on one target.",
["gel/parameter/parameter.h","gel/pagemanager/page_manager.h","gel/gel_internal_conf.h","gel/timer/timecheck.h","gel/collections/circular_buffer.h","gel/scheduler/scheduler.h","gel/data_structures/watcher.h","gel/pid/pid.h","gel/crc/crc16-ccitt.c","gel/debounce/debounce.h","gel/debounce/pulsecounter.h"],[("conditional compilation","public headers")],["types, sizes and members the client sees; whether a program builds"],[])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
