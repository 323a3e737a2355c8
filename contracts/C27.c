#include "gel.h"
#ifndef ENABLED
#define ENABLED 2
#endif
#include <time.h>
#include "gel/scheduler/scheduler.h"
int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info);
int scheduler_current_value(scheduler_t *scheduler, struct tm *tm_info, int *value);
uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
// tables longer than small counters reach: only the last entries are enabled
#define LONG 300
static scheduler_t s; static struct tm now; static scheduler_entry_t table[LONG];
static scheduler_entry_t *entry(int i, uint32_t from, uint32_t to, int v) { scheduler_entry_t *e = &table[i]; e->enabled = 1; e->days = 0x7f; e->start_second = from; e->end_second = to; e->value = v; return e; }
static void mk(int n) { gel_loop_cap(2 * LONG); s.num_entries = (size_t)n; s.entries = table; now.tm_wday = gel_choose(7); now.tm_hour = 12; now.tm_min = 30; now.tm_sec = 15; for (int i = 0; i < LONG; i++) { scheduler_entry_t z = {0}; table[i] = z; } }
void C27_long(void) {
    mk(LONG); int k = LONG - 1 - gel_choose(2), v = (int)gel_u32("value"), got = 5; PROVE(scheduler_get_active_entry_number(&s, &now) == -1 && !scheduler_current_value(&s, &now, &got) && got == 5 && !scheduler_is_active(&s, &now), "an empty long table is not active");
    entry(k, 40000, 50000, v);
    PROVE(scheduler_get_active_entry_number(&s, &now) == k && scheduler_is_active(&s, &now), "an active entry at the end of a long table is selected");
    PROVE(scheduler_current_value(&s, &now, &got) && got == v, "its value is the current one");
    entry(k - 200, 44000, 46000, 3); PROVE(scheduler_get_active_entry_number(&s, &now) == k - 200, "the shorter one is selected in a long table"); entry(k - 260, 44000, 46000, 4); PROVE(scheduler_get_active_entry_number(&s, &now) == k - 260, "then the larger value"); table[k - 260].value = 3; PROVE(scheduler_get_active_entry_number(&s, &now) == k - 260, "then the first");
}
void C27_long_overlap(void) {
    mk(LONG); scheduler_entry_t q = *entry(0, 40000, 50000, 1); for (int i = 0; i < LONG; i++) entry(i, 45000, 46000, 1);
    PROVE(scheduler_are_there_overlapping_entries(&s, &q) == LONG, "all overlaps of a long table are counted");
}
void C27_map(void) {     // the map has 16 bits, the table may be longer
    int n = gel_choose(2) ? 16 : LONG, k = gel_choose(40); gel_assume(k < n); mk(n); entry(k, 40000, 50000, 1); if (n > 16) entry(5, 40000, 50000, 1);
    uint16_t want = (uint16_t)((k < 16 ? (uint16_t)1 << k : 0) | (n > 16 ? 1 << 5 : 0)); PROVE(scheduler_get_active_entries_map(&s, &now) == want, "the active map has exactly the active ones of the first 16 entries");
}
#else
#define N GEL_SCHEDULER_MAX_ENTRIES
static scheduler_t s; static struct tm now; static uint32_t t; static int act[N];
#if ENABLED > 2     // with three at once: one day or all
static int every; static uint8_t days_(void) { return every ? 0x7f : 1u << now.tm_wday; }
#elif defined(GEL_BOUNDED)     // a few sets of days, when the code goes through them one by one
static uint8_t days_(void) { int d = now.tm_wday; switch (gel_choose(5)) { case 0: return 1u << d; case 1: return 0x7f; case 2: return 1u << (d + 1) % 7; case 3: return 1u << d | 1u << (d + 3) % 7; default: return 0xff & ~(1u << (d + 6) % 7); } }
#else
static uint8_t days_(void) { return gel_u8("days"); }
#endif
static scheduler_entry_t any(int enabled) { scheduler_entry_t e; e.enabled = enabled ? gel_u8("enabled") : 0; if (enabled) gel_assume(e.enabled != 0); e.days = days_(); e.start_second = gel_u32("start"); e.end_second = gel_u32("end"); e.value = (int)gel_u32("value"); if (sizeof(long) == 4) gel_assume(e.start_second < (uint32_t)1 << 29 && e.end_second < (uint32_t)1 << 29); return e; }
static int window(const scheduler_entry_t *e) {   // [start, end), continued after midnight when the end lies beyond it
    if (!e->enabled || !(e->days >> now.tm_wday & 1)) return 0;
    if (t >= e->start_second && t < e->end_second) return 1;
    return e->end_second > 86400 && t < e->end_second - 86400;
}
static unsigned long weekly(const scheduler_entry_t *e) { unsigned long n = 0, d = e->start_second < e->end_second ? e->end_second - e->start_second : e->start_second - e->end_second; for (int i = 0; i < 7; i++) n += e->days >> i & 1; return d * n; }
static void clock_(void) {
    uint8_t h = gel_u8("hour"), m = gel_u8("minute"), x = gel_u8("second"); gel_assume(h < 24 && m < 60 && x < 60); now.tm_hour = h; now.tm_min = m; now.tm_sec = x;
    t = (uint32_t)h * 3600 + m * 60u + x;
}
static void agree(void) {
    int v = (int)gel_u32("old value"), v0 = v, r = scheduler_get_active_entry_number(&s, &now);
    PROVE(r >= -1 && r < N, "the selection is an entry or -1");
    if (r < 0) { for (int i = 0; i < N; i++) PROVE(!act[i], "nothing is selected only when no entry is active"); }
    else {
        PROVE(act[r], "the selected entry is active");
        unsigned long w = weekly(&s.entries[r]);
        for (int i = 0; i < N; i++) if (i != r && act[i]) {
            unsigned long o = weekly(&s.entries[i]);
            PROVE(!(o < w), "no active entry has a smaller weekly duration");
            if (o == w) { PROVE(!(s.entries[i].value > s.entries[r].value), "among those none has a larger value"); if (i < r) PROVE(s.entries[i].value != s.entries[r].value, "the earliest index wins ties"); }
        }
    }
    PROVE(scheduler_is_active(&s, &now) == (r >= 0), "is-active agrees");
    PROVE(scheduler_current_value(&s, &now, &v) == (r >= 0) && v == (r >= 0 ? s.entries[r].value : v0), "the current value is the selected entry's, or left alone");
    PROVE(scheduler_current_value(&s, &now, NULL) == (r >= 0), "a null destination is accepted");
}
// one enabled entry anywhere: the window itself, every weekday
void C27_one(void) {
    int k = gel_choose(N + 1); now.tm_wday = gel_choose(7); clock_(); scheduler_entry_t e;
    for (int i = 0; i < N; i++) { e = any(i == k); s.entries[i] = e; act[i] = window(&e); }
    agree();
    uint16_t m = scheduler_get_active_entries_map(&s, &now); for (int i = 0; i < N; i++) PROVE((m >> i & 1) == (act[i] != 0), "the active map has exactly the active entries"); PROVE(m >> N == 0, "the active map has no bits beyond the entries");
}
// several enabled entries: the ranking
static void none(void) { for (int i = 0; i < N; i++) { s.entries[i].enabled = 0; s.entries[i].days = 0xff; s.entries[i].start_second = 0; s.entries[i].end_second = 86400; s.entries[i].value = 1 << 30; act[i] = 0; } }
static void one(int k) { s.entries[k] = any(1); act[k] = window(&s.entries[k]); gel_assume(act[k]); }
#if ENABLED > 2
static void rank3(int i, int j, int k) { now.tm_wday = i % 7; clock_(); none(); every = gel_choose(2); one(i); one(j); every = gel_choose(2); one(k); agree(); }
#endif
static void rank(int lo, int hi) {
    int k[2]; k[0] = gel_choose(N); gel_assume(k[0] >= lo && k[0] < hi); now.tm_wday = k[0] % 7; clock_();
    k[1] = gel_choose(N); gel_assume(k[1] > k[0]); none(); one(k[0]); one(k[1]);
    agree();
}
#if ENABLED > 2
_Static_assert(N == 7, "every three of the entries");
#define R(i, j, k) void C27_rank_##i##j##k(void) { rank3(i, j, k); }
R(0, 1, 2) R(0, 1, 3) R(0, 1, 4) R(0, 1, 5) R(0, 1, 6) R(0, 2, 3) R(0, 2, 4) R(0, 2, 5) R(0, 2, 6) R(0, 3, 4) R(0, 3, 5) R(0, 3, 6) R(0, 4, 5) R(0, 4, 6) R(0, 5, 6) R(1, 2, 3) R(1, 2, 4) R(1, 2, 5) R(1, 2, 6) R(1, 3, 4) R(1, 3, 5) R(1, 3, 6) R(1, 4, 5) R(1, 4, 6) R(1, 5, 6) R(2, 3, 4) R(2, 3, 5) R(2, 3, 6) R(2, 4, 5) R(2, 4, 6) R(2, 5, 6) R(3, 4, 5) R(3, 4, 6) R(3, 5, 6) R(4, 5, 6)
#else
void C27_rank_first(void) { rank(0, 1); }
void C27_rank_second(void) { rank(1, 2); }
void C27_rank_later(void) { rank(2, N); }
#endif
#define IN(x, e) ((x) >= (e)->start_second && (x) <= (e)->end_second)
void C27_overlap(void) {
    int k = gel_choose(N), l = gel_choose(N); gel_assume(k <= l); scheduler_entry_t q = any(gel_choose(2)); gel_assume(q.start_second <= q.end_second); size_t want = 0;
    for (int i = 0; i < N; i++) {
        s.entries[i] = any(i == k || i == l); scheduler_entry_t *e = &s.entries[i]; gel_assume(e->start_second <= e->end_second);
        if ((i == k || i == l) && (e->days & q.days)) want += e->start_second <= q.end_second && q.start_second <= e->end_second;
    }
    PROVE(scheduler_are_there_overlapping_entries(&s, &q) == want, "the overlap count is the number of enabled entries sharing a day and an instant");
}
#endif
