#include "gel.h"
#include <time.h>
#include "gel/scheduler/scheduler.h"
int scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start);
int scheduler_get_first_available_entry(scheduler_t *scheduler);
size_t scheduler_get_max_schedule_entries(scheduler_t *scheduler);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
#define E(i) (s.entries[i])
static void mk_table(scheduler_t *s, size_t n) { s->num_entries = n; s->entries = gel_object(n * sizeof(scheduler_entry_t), 4, "table"); }
#else
#define E(i) (s.entries[i])
static void mk_table(scheduler_t *s, size_t n);
#endif
static scheduler_t s; static size_t N;
static uint8_t en[16];
static scheduler_entry_t any(const char *n) { (void)n; scheduler_entry_t e; e.enabled = gel_u8("enabled"); e.days = gel_u8("days"); e.start_second = gel_u32("start"); e.end_second = gel_u32("end"); e.value = (int)gel_u32("value"); return e; }
static int same(const scheduler_entry_t *a, const scheduler_entry_t *b) { return (a->enabled == b->enabled) & (a->days == b->days) & (a->start_second == b->start_second) & (a->end_second == b->end_second) & (a->value == b->value); }
static scheduler_entry_t old[16];
static void mk(void) {
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    N = (size_t)gel_choose(4); mk_table(&s, N);
#else
    N = GEL_SCHEDULER_MAX_ENTRIES;
#endif
    for (size_t i = 0; i < N; i++) old[i] = E(i) = any("entry");
}
static void unchanged_but(size_t k) { for (size_t i = 0; i < N; i++) if (i != k) PROVE(same(&E(i), &old[i]), "no other entry is changed"); }
static size_t index_(void) { size_t i = gel_u64("index"); int k = gel_choose((int)N + 1); if (k < (int)N) i = (size_t)k; else gel_assume(i >= N); return i; }
void C26_init(void) {
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    N = (size_t)gel_choose(4); s.num_entries = gel_u64("stale"); scheduler_init(&s, N); PROVE(s.num_entries == N, "the number of entries is remembered");
#else
    mk(); scheduler_init(&s);
#endif
    PROVE(scheduler_get_max_schedule_entries(&s) == N, "the number of entries is reported");
    for (size_t i = 0; i < N; i++) PROVE(E(i).enabled == 0 && E(i).days == 0 && E(i).start_second == 0 && E(i).end_second == 0 && E(i).value == 0, "initialisation zeroes every entry");
}
void C26_get(void) {
    mk(); size_t i = index_();
    const scheduler_entry_t *p = scheduler_get_entry(&s, i); scheduler_entry_t *q = scheduler_get_entry_mut(&s, i);
    if (i < N) PROVE(p == &E(i) && q == &E(i), "an existing entry is returned"); else PROVE(p == NULL && q == NULL, "a nonexistent entry is null");
    unchanged_but(N);
}
void C26_set(void) {
    mk(); size_t i = index_(); scheduler_entry_t e = any("new"); int r = scheduler_set_entry(&s, i, e);
    if (i < N) PROVE(r == 0 && same(&E(i), &e), "setting stores the whole entry"); else PROVE(r == -1, "setting a nonexistent entry fails");
    unchanged_but(i < N ? i : N);
}
void C26_disable(void) {
    mk(); size_t i = index_(); int r = scheduler_disable_schedule_entry(&s, i);
    if (i < N) { scheduler_entry_t e = old[i]; e.enabled = 0; PROVE(r == 0 && same(&E(i), &e), "disabling clears only the enabled mark"); } else PROVE(r == -1, "disabling a nonexistent entry fails");
    unchanged_but(i < N ? i : N);
}
void C26_enabled(void) {
    mk(); size_t i = index_(); uint8_t r = scheduler_is_schedule_entry_enabled(&s, i);
    if (i < N) PROVE(r == old[i].enabled, "the enabled mark is reported"); else PROVE(r == 0, "a nonexistent entry is not enabled");
    unchanged_but(N);
}
void C26_search(void) {
    mk(); size_t from = index_(); int first = scheduler_get_first_available_entry(&s), next = scheduler_get_next_enabled_entry(&s, from);
    int ef = -1, nx = -1;
    for (size_t i = 0; i < N && ef < 0; i++) if (!old[i].enabled) ef = (int)i;
    for (size_t i = from < N ? from : N; i < N && nx < 0; i++) if (old[i].enabled) nx = (int)i;
    PROVE(first == ef, "the first free entry is found, or -1");
    PROVE(next == nx, "the next enabled entry is found, or -1");
    unchanged_but(N);
}

#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
// tables longer than small counters reach
#define LONG 300
static scheduler_entry_t table[LONG];
void C26_long(void) {
    gel_loop_cap(2 * LONG); int k = LONG - 1 - gel_choose(3), from = gel_choose(2) ? 0 : k - 1; s.num_entries = LONG; s.entries = table; scheduler_entry_t e = any("new");
    for (int i = 0; i < LONG; i++) table[i].enabled = 1;
    PROVE(scheduler_get_max_schedule_entries(&s) == LONG, "the number of entries of a long table"); PROVE(scheduler_get_first_available_entry(&s) == -1, "nothing is free in a full long table");
    PROVE(scheduler_disable_schedule_entry(&s, (size_t)k) == 0 && table[k].enabled == 0 && table[k - 256].enabled == 1, "an entry at the end of a long table is disabled"); PROVE(scheduler_get_first_available_entry(&s) == k, "a free entry at the end of a long table is found");
    for (int i = 0; i < LONG; i++) table[i].enabled = 0;
    PROVE(scheduler_get_next_enabled_entry(&s, (size_t)from) == -1, "nothing is enabled in an empty long table");
    gel_assume(e.enabled != 0); PROVE(scheduler_set_entry(&s, (size_t)k, e) == 0 && same(&table[k], &e) && table[k - 256].enabled == 0, "an entry at the end of a long table is set");
    PROVE(scheduler_get_next_enabled_entry(&s, (size_t)from) == k, "an enabled entry at the end of a long table is found");
    PROVE(scheduler_get_entry(&s, (size_t)k) == &table[k] && scheduler_get_entry_mut(&s, (size_t)k) == &table[k] && scheduler_is_schedule_entry_enabled(&s, (size_t)k), "an entry at the end of a long table is returned");
    PROVE(scheduler_get_entry(&s, LONG) == NULL && scheduler_set_entry(&s, LONG, e) == -1, "a long table ends");
}
void C26_long_init(void) { gel_loop_cap(2 * LONG); scheduler_init(&s, LONG); PROVE(s.num_entries == LONG, "the number of entries of a long table"); for (int i = 0; i < LONG; i++) PROVE(s.entries[i].enabled == 0 && s.entries[i].value == 0, "initialisation zeroes every entry of a long table"); }
#endif
