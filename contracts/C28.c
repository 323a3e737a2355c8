#include "gel.h"
#include <time.h>
#include "gel/scheduler/scheduler.h"
unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info);
unsigned long scheduler_get_current_remaining_duration(scheduler_t *scheduler, struct tm *tm_info);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
// tables longer than small counters reach: only entries near the end are enabled
#define LONG 300
static scheduler_t s; static struct tm now; static scheduler_entry_t table[LONG];
void C28_long(void) {
    gel_loop_cap(2 * LONG); s.num_entries = LONG; s.entries = table; now.tm_wday = gel_choose(7); now.tm_hour = 12; now.tm_min = 30; now.tm_sec = 15; int k = LONG - 1 - gel_choose(2), i = k - (const int[]){0, 44, 171}[gel_choose(3)]; const unsigned long t = 12 * 3600 + 30 * 60 + 15;
    for (int j = 0; j < LONG; j++) { scheduler_entry_t z = {0}; table[j] = z; }
    PROVE(scheduler_get_current_remaining_duration(&s, &now) == 0 && scheduler_get_schedule_remaining_duration(&s, (size_t)i, &now) == 0, "an empty long table has no remaining duration");
    scheduler_entry_t e = {.enabled = 1, .days = 0x7f, .start_second = 40000, .end_second = 50000, .value = 1}; table[i] = e;
    PROVE(scheduler_get_schedule_remaining_duration(&s, (size_t)i, &now) == 50000 - t && scheduler_get_schedule_remaining_duration(&s, (size_t)i - 256 + (i < 256 ? 257 : 0), &now) == 0, "the remaining duration of an entry far in a long table is its own");
    PROVE(scheduler_get_current_remaining_duration(&s, &now) == 50000 - t, "and the overall one when it is the active entry");
    PROVE(scheduler_get_schedule_remaining_duration(&s, LONG, &now) == 0, "an entry after the last has no remaining duration");
}
#else
#define N GEL_SCHEDULER_MAX_ENTRIES
static scheduler_t s; static struct tm now; static uint32_t t;
#ifdef GEL_BOUNDED     // a few sets of days, when the code goes through them one by one
static uint8_t days_(void) { int d = now.tm_wday; switch (gel_choose(3)) { case 0: return 1u << (d + 1) % 7; case 1: return 0x7f; default: return 1u << d | 1u << (d + 3) % 7 | 0x80; } }
#define KMAX 2
#else
#define KMAX (N - 1)
static uint8_t days_(void) { return gel_u8("days"); }
#endif
static scheduler_entry_t any(void) { scheduler_entry_t e; e.enabled = gel_u8("enabled"); e.days = days_(); e.start_second = gel_u32("start"); e.end_second = gel_u32("end"); e.value = (int)gel_u32("value"); return e; }
static void clock_(void) { uint8_t h = gel_u8("hour"), m = gel_u8("minute"), x = gel_u8("second"); gel_assume(h < 24 && m < 60 && x < 60); now.tm_hour = h; now.tm_min = m; now.tm_sec = x; t = (uint32_t)h * 3600 + m * 60u + x; }
static uint64_t left(const scheduler_entry_t *e) {     // seconds to the end of the window we are in
    if (!e->enabled || !(e->days >> now.tm_wday & 1)) return 0;
    if (t >= e->start_second) return t < e->end_second ? e->end_second - t : 0;
    return e->end_second > 86400 && t < e->end_second - 86400 ? e->end_second - 86400 - t : 0;
}
void C28_entry(void) {
    now.tm_wday = gel_choose(7); clock_(); int k = gel_choose(N + 1); size_t i = (size_t)k; if (k == N) { i = gel_u64("index"); gel_assume(i >= N); } else s.entries[k] = any();
    unsigned long r = scheduler_get_schedule_remaining_duration(&s, i, &now);
    if (k == N) { PROVE(r == 0, "a nonexistent entry has no remaining duration"); return; }
    scheduler_entry_t *e = &s.entries[k]; uint64_t w = left(e);
    PROVE(r == w, "the remaining duration is the time to the end of the window");
    if (w) { PROVE(r >= 1, "an active entry has at least a second left"); if (e->end_second <= 2 * 86400 && e->start_second <= e->end_second) PROVE(r <= e->end_second - (t >= e->start_second ? e->start_second : 0), "never more than the window"); }
}
void C28_current(void) {
    now.tm_wday = gel_choose(7); clock_(); int k = gel_choose(N + 1); for (int i = 0; i < N; i++) { s.entries[i] = any(); if (i != k) s.entries[i].enabled = 0; }
    uint64_t w = k < N ? left(&s.entries[k]) : 0; PROVE(scheduler_get_current_remaining_duration(&s, &now) == w, "the overall remaining duration is that of the selected entry");
}
void C28_two(void) {
    clock_(); int k = gel_choose(KMAX); now.tm_wday = k % 7; for (int i = 0; i < N; i++) { s.entries[i].enabled = 0; } s.entries[k] = any(); s.entries[N - 1] = any();
    int r = scheduler_get_active_entry_number(&s, &now);
    PROVE(scheduler_get_current_remaining_duration(&s, &now) == (r < 0 ? 0 : scheduler_get_schedule_remaining_duration(&s, (size_t)r, &now)), "the overall remaining duration follows the selection");
}
#endif
