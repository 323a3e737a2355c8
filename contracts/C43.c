#include "gel.h"
#include <time.h>
#include "gel_conf.h"
#include "gel/circular_event_log/circular_event_log.h"
#include "gel/collections/circular_buffer.h"
#include "gel/crc/crc16-ccitt.h"
#include "gel/crc/crc32.h"
#include "gel/data_structures/watcher.h"
#include "gel/keypad/keypad.h"
#include "gel/pagemanager/page_manager.h"
#include "gel/parameter/parameter.h"
#include "gel/pid/pid.h"
#include "gel/scheduler/scheduler.h"
#include "gel/timer/timer.h"
#include "gel/wearleveling/wearleveling.h"
// Every function with a loop, and every one that hands control to a callback, on small structures in arbitrary states,
// with callbacks that answer anything, differently each time: the call comes back, after a number of rounds and of
// callbacks that the size of the structure limits. The obligation is the loop bound the analyser is given, and DONE.
#define DONE(l) PROVE(1, l " comes back whatever the state and the callbacks' answers")
#define FEW(n) PROVE(calls <= (n), "a call hands control to callbacks a limited number of times")
static int calls; static int any_(void) { calls++; FEW(40); return (int)gel_u32("answer"); }
int scheduler_current_value(scheduler_t *, struct tm *, int *); int scheduler_get_next_enabled_entry(scheduler_t *, size_t); int scheduler_get_first_available_entry(scheduler_t *); uint16_t scheduler_get_active_entries_map(scheduler_t *, struct tm *);
int scheduler_is_active(scheduler_t *, struct tm *); unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *, size_t, struct tm *); unsigned long scheduler_get_current_remaining_duration(scheduler_t *, struct tm *);
// ---- circular buffer, with the other side standing still
void C43_buffer(void) {
    size_t N = (size_t)gel_choose(4) + 1; GEL_CBUF_TYPE *b = gel_object(N * sizeof *b, sizeof *b, "storage"), d[6]; circular_buf_t c = {.buffer = b, .bufsize = N, .head = (size_t)gel_choose((int)N), .tail = (size_t)gel_choose((int)N)};
    gel_loop_cap(16); unsigned len = (unsigned)gel_choose(6); for (int i = 0; i < 6; i++) d[i] = (GEL_CBUF_TYPE)gel_u64("d");
    switch (gel_choose(6)) { case 0: circular_buf_puts(&c, d, len); break; case 1: circular_buf_gets(&c, d, (int)len); break; case 2: circular_buf_drop(&c, (int)len); break; case 3: circular_buf_peek(&c, d, (int)len); break; case 4: circular_buf_putc(&c, d[0]); break; default: circular_buf_getc(&c, d); }
    DONE("a circular buffer operation");
}
// ---- checksums
void C43_crc(void) { uint8_t d[4]; size_t n = (size_t)gel_choose(5); for (int i = 0; i < 4; i++) d[i] = gel_u8("byte"); gel_loop_cap(64); crc16_ccitt(d, (uint16_t)n, gel_u16("start")); crc32(d, n, gel_u32("start")); DONE("a checksum"); }
// ---- watcher
static uint8_t seen_[3][2]; static watcher_t wl[5];
static void wcb(void *m, void *d) { (void)m; (void)d; any_(); }
static unsigned long delay_(void) { unsigned long d = gel_u64("delay"); 
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
    d &= 0xffff;
#endif
    return d; }
void C43_watcher(void) {
    int n = gel_choose(4), k = gel_choose(6); calls = 0; gel_loop_cap(24);
    for (int i = 0; i < n; i++) { for (int j = 0; j < 2; j++) seen_[i][j] = gel_u8("now"); watcher_t w = WATCHER_DELAYED_ARRAY((uint8_t *)seen_[i], (size_t)(1 + (i & 1)), wcb, 0, delay_()); wl[i] = w; uint8_t *o = gel_object(2, 1, "before");
#if GEL_MALLOC_AVAILABLE
        wl[i].old = o;
#else
        memcpy(wl[i].old, o, 2);
#endif
        wl[i].timestamp = gel_u64("since"); wl[i].moved = gel_choose(2); }
    watcher_t z = WATCHER_NULL; wl[n] = z; wl[n + 1].current = &wl[n];
    switch (k) { case 0: watcher_list_init(wl); break; case 1: watcher_check_for_changes(wl); break; case 2: watcher_process_changes(wl, gel_u64("time")); break; case 3: watcher_clear_changes(wl, gel_u64("time")); break; case 4: watcher_trigger_all(wl); break; default: if (n) watcher_trigger_cb(wl, gel_choose(n)); }
    FEW(n); DONE("a watcher operation");
}
// ---- keypad
void C43_keypad(void) {
    static keypad_key_t keys[4]; int n = gel_choose(3); gel_loop_cap(24);
    for (int i = 0; i < n; i++) { keypad_key_t *k = &keys[i]; k->bitvalue = gel_u64("bit"); gel_assume(k->bitvalue != 0); k->code = (int)gel_u32("code"); k->_state.time_state = gel_u64("state"); k->_state.time_period = gel_u64("period"); k->_state.value = gel_u8("value") & 1; k->_state.oldvalue = gel_u8("old") & 1; k->_state.ignore = gel_u8("ignore") & 1; k->_state.lastevent = (keypad_event_t)gel_choose(3); }
    keys[n].bitvalue = 0; switch (gel_choose(3)) { case 0: keypad_routine(keys, gel_u64("click"), gel_u64("long"), gel_u64("repeat"), gel_u64("now"), gel_u64("bits")); break; case 1: if (n) keypad_get_key_state(keys); break; default: keypad_reset_keys(keys); }
    DONE("a keypad operation");
}
// ---- parameters
static void run_(parameter_handle_t *h, void *a) { (void)h; (void)a; any_(); }
void C43_parameter(void) {
    static uint8_t a[3]; static parameter_handle_t ps[3]; int n = gel_choose(4); calls = 0; gel_loop_cap(24);
    for (int i = 0; i < n; i++) { a[i] = gel_u8("value"); parameter_handle_t h = PARAMETER_FULL(&a[i], NULL, NULL, gel_u8("min"), gel_u8("max"), gel_u8("default"), gel_u8("step"), 0, 0, run_, 0); h.access_level = gel_u32("level"); ps[i] = h; }
    size_t len = (size_t)n, i = gel_u64("index"); unsigned l = gel_u32("who"); gel_assume(i < (n ? len : 1));
    switch (gel_choose(n ? 5 : 3)) { case 0: parameter_get_count(ps, len, l); break; case 1: parameter_reset_to_defaults(ps, len); break; case 2: parameter_check_ranges(ps, len); break; case 3: parameter_get_handle(ps, len, i, l); break; default: parameter_operator(ps, (int)gel_u16("mod")); }
    FEW(2 * n * n + n); DONE("an operation on a parameter table");
}
// ---- PID
void C43_pid(void) {
    static pid_ctrl_t p; pid_init(&p); pid_ctrl_tune(&p, 1, 1, 1); p.index = gel_u64("index"); gel_assume(p.index < GEL_PID_INTEGRAL_HISTORY_SIZE); p.input = (pid_control_type_t)gel_u16("input"); p.sp = (pid_control_type_t)gel_u16("set point"); p.first_value = gel_choose(2); gel_loop_cap(GEL_PID_INTEGRAL_HISTORY_SIZE + 2);
    switch (gel_choose(3)) { case 0: pid_add_input(&p, (pid_control_type_t)gel_u16("new")); break; case 1: pid_clear_integral_history(&p); break; default: pid_compute(&p); } DONE("a controller operation");
}
// ---- scheduler
void C43_scheduler(void) {
    static scheduler_t s; static struct tm now; int k = gel_choose(13); now.tm_wday = gel_choose(2) * 6; now.tm_hour = gel_choose(2) * 23; now.tm_min = 59; now.tm_sec = 1; gel_loop_cap(40);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    size_t n = (size_t)gel_choose(3); s.num_entries = n; s.entries = gel_object(n * sizeof(scheduler_entry_t), 4, "table");
#else
    size_t n = GEL_SCHEDULER_MAX_ENTRIES;
#endif
    for (size_t i = 0; i < n; i++) { scheduler_entry_t e = {gel_u8("enabled"), gel_u8("days"), gel_u32("start"), gel_u32("end"), (int)gel_u32("value")}; if (i) e.enabled = 0; s.entries[i] = e; }
    size_t i = gel_u64("index"); if (gel_choose(2)) i = 0; int v; scheduler_entry_t e; memset(&e, 0, sizeof e);
    switch (k) {
    case 0: scheduler_current_value(&s, &now, &v); break; case 1: scheduler_get_active_entry_number(&s, &now); break; case 2: scheduler_are_there_overlapping_entries(&s, &e); break; case 3: scheduler_get_next_enabled_entry(&s, i); break;
    case 4: scheduler_get_first_available_entry(&s); break; case 5: scheduler_get_active_entries_map(&s, &now); break; case 6: scheduler_get_schedule_remaining_duration(&s, i, &now); break; case 7: scheduler_get_current_remaining_duration(&s, &now); break;
    case 8: scheduler_is_active(&s, &now); break; case 9: scheduler_get_entry(&s, i); break; case 10: scheduler_set_entry(&s, i, e); break; case 11: scheduler_disable_schedule_entry(&s, i); break;
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    default: scheduler_init(&s, n);
#else
    default: scheduler_init(&s);
#endif
    }
    DONE("a scheduler operation");
}
// ---- timers
static void tcb(gel_timer_t *t, void *u, void *a) { (void)u; (void)a; calls++; if (gel_choose(2)) t->autoreload = 1; if (gel_choose(2)) gel_timer_reset(t, gel_u64("reset at")); }
void C43_timer(void) {
    gel_timer_t *t = gel_object(sizeof *t, 8, "timer"); t->callback = tcb; t->arg = 0; t->autoreload = (uint8_t)gel_choose(2); t->stopwatch.starting_time = gel_u64("start"); t->stopwatch.elapsed_time = gel_u64("elapsed"); t->stopwatch.total_time = gel_u64("period"); t->stopwatch.state = (STOPWATCH_STATE)gel_choose(3); calls = 0; gel_loop_cap(24);
    gel_timer_manage_callback(t, gel_u64("now"), 0); FEW(1); DONE("managing a timer");
}
// ---- wear leveling: the storage answers anything
static int wrd(size_t b, uint8_t *p, size_t n) { (void)b; for (size_t i = 0; i < n; i++) p[i] = gel_u8("stored"); return any_(); }
static int wwr(size_t b, uint8_t m, uint8_t *p, size_t n) { (void)b; (void)m; (void)p; (void)n; return any_(); }
static int wrm(size_t b, uint8_t *m) { (void)b; *m = gel_u8("marker"); return any_(); }
void C43_wear(void) {
    static wear_leveled_memory_t w; size_t n = (size_t)gel_choose(4) + 1; uint8_t d[2]; d[0] = gel_u8("data"); d[1] = gel_u8("data"); calls = 0; gel_loop_cap(24);
    w.read_block = wrd; w.write_block = wwr; w.read_marker = wrm; w.blocks_in_page = n; w.last_active_block = (size_t)gel_choose((int)n); w.last_marker = gel_u8("last marker");
    switch (gel_choose(3)) { case 0: wearleveling_init(&w, wrd, wwr, wrm, n); FEW((int)n + 1); break; case 1: wearleveling_read(&w, d, 2); FEW(2); break; default: wearleveling_write(&w, d, 2); FEW(3); } DONE("a wear-leveling operation");
}
// ---- event log
static int lsv(uint8_t *e, size_t p) { (void)e; (void)p; return any_(); }
static int lld(uint8_t *e, size_t n, size_t s) { (void)e; (void)n; (void)s; return any_(); }
void C43_log(void) {
    size_t n = (size_t)gel_choose(4) + 1; circular_event_log_t l = {.max_events = n, .event_size = 1, .next_position = (size_t)gel_choose((int)n), .full_circle = gel_choose(2), .save_new_event = lsv, .load_events = lld}; uint8_t e[4]; calls = 0; gel_loop_cap(24);
    if (gel_choose(2)) { circular_event_log_new_event(&l, e); FEW(1); } else { circular_event_log_load_last_events(l, e, (size_t)gel_choose(4), (size_t)gel_choose(6)); FEW(2); } DONE("an event log operation");
}
// ---- pages
static int pmc(int m, void *x) { (void)m; (void)x; return any_(); } static void pmd(int d, void *x) { (void)d; (void)x; any_(); } static void pmo(int m, int d) { (void)m; (void)d; any_(); } static void pmx(int d) { (void)d; any_(); } static int pme(int m, int d, int e) { (void)m; (void)d; (void)e; return any_(); }
static int pmu(int m, int d) { (void)m; (void)d; return any_(); }
static pman_page_t page_(void) { pman_page_t p; memset(&p, 0, sizeof p); p.id = (int)gel_u32("id"); p.data = (int)gel_u32("page data"); p.extra = 0; p.create = pmc; p.destroy = pmd; p.open = pmo; p.close = pmx; p.process_event = pme;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    p.update = pmu;
#endif
    return p; }
void C43_pages(void) {
    static page_manager_t m; int n = gel_choose(PMAN_NAVIGATION_DEPTH), k = gel_choose(7); uint8_t f; calls = 0; gel_loop_cap(12); pman_init(&m); for (int i = 0; i <= n; i++) { pman_page_t p = page_(); pman_change_page(&m, 0, p); } calls = 0; pman_page_t p = page_();
    switch (k) { case 0: pman_back(&m, 0); break; case 1: if (n + 1 < PMAN_NAVIGATION_DEPTH) pman_change_page(&m, 0, p); break; case 2: pman_rebase_page(&m, 0, p); break; case 3: pman_swap_page(&m, 0, p); break; case 4: pman_reset_to_page(&m, 0, (int)gel_u32("wanted"), &f); break; case 5: pman_process_page_event(&m, 0, (int)gel_u32("event")); break; default: pman_init(&m); }
    FEW(3 * (n + 2)); DONE("a page operation");
}
