#include "gel.h"
#include "gel/data_structures/watcher.h"
void watcher_trigger_all_cb(watcher_t *list);
#define M 3
static watcher_t l[M + 2]; static int n; static size_t sz[M]; static uint8_t *cur[M], *rem[M], oc[M][16], oo[M][16]; static unsigned long ts[M]; static int diff[M], mode;
static int calls[M]; static int bad;
static void cb(void *mem, void *data) { int i = (int)((char *)data - (char *)0x1000); if (i < 0 || i >= n || mem != cur[i]) bad = 1; else calls[i]++; }
#if GEL_MALLOC_AVAILABLE
#define OLD(i) ((uint8_t *)l[i].old)
#else
#define OLD(i) (l[i].old)
#endif
static unsigned long any_delay(void) { unsigned long d = gel_u64("delay"); 
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
    d &= 0xffff;
#endif
    gel_assume(d < GEL_HALF); return d; }
// an initialised list of n entries, each watching sz[i] bytes; the entry after the terminator must never be looked at
static void mk(int len, size_t a, size_t b, size_t c) {
    n = len; sz[0] = a; sz[1] = b; sz[2] = c; bad = 0;
    for (int i = 0; i < n; i++) {
        calls[i] = 0; cur[i] = gel_object(sz[i], 1, "watched"); gel_readonly(cur[i], 1);
        watcher_t w = WATCHER_DELAYED_ARRAY((uint8_t *)cur[i], sz[i], cb, (char *)0x1000 + i, any_delay()); l[i] = w;
    }
    watcher_t z = WATCHER_NULL; l[n] = z; l[n + 1].current = &l[n];
}
static void age(void) {    // remembered values and timers as any history leaves them
    for (int i = 0; i < n; i++) {
#if GEL_MALLOC_AVAILABLE
        l[i].old = gel_object(sz[i], 1, "remembered");
#else
        uint8_t *o = gel_object(sz[i], 1, "remembered"); memcpy(l[i].old, o, sz[i]);
#endif
        l[i].timestamp = ts[i] = gel_u64("since"); l[i].moved = l[i].delay ? gel_u8("moved") & 1 : 0;
        diff[i] = 0; for (size_t k = 0; k < sz[i]; k++) { oc[i][k] = cur[i][k]; oo[i][k] = OLD(i)[k]; }
        diff[i] = memcmp(oc[i], oo[i], sz[i]) != 0;
    }
}
static int any_diff(void) { int d = 0; for (int i = 0; i < n; i++) d |= diff[i]; return d; }
static void shape(void) { int k = gel_choose(6); if (k < 4) mk(k, 3, 1, 2); else if (k == 4) mk(1, 16, 0, 0); else mk(2, 1, 8, 0); }
static void watched_kept(void) { for (int i = 0; i < n; i++) for (size_t k = 0; k < sz[i]; k++) PROVE(cur[i][k] == oc[i][k], "watched memory is never modified"); }
void C11_check(void) {
    shape(); age(); watcher_t k[M + 2]; for (int i = 0; i <= n; i++) k[i] = l[i];
    PROVE(watcher_check_for_changes(l) == any_diff(), "a change is reported exactly when some watched byte differs");
    for (int i = 0; i < n; i++) { PROVE(l[i].moved == k[i].moved && l[i].timestamp == k[i].timestamp && l[i].delay == k[i].delay && l[i].current == k[i].current && l[i].size == k[i].size && l[i].data == k[i].data, "checking changes nothing"); for (size_t j = 0; j < sz[i]; j++) PROVE(OLD(i)[j] == oo[i][j], "checking does not remember the new value"); PROVE(!calls[i], "checking fires no callback"); }
    watched_kept();
}
void C11_process(void) {
    shape(); age(); PROVE(watcher_process_changes(l, gel_u64("now")) == any_diff(), "processing reports exactly whether something had changed");
    for (int i = 0; i < n; i++) for (size_t j = 0; j < sz[i]; j++) PROVE(OLD(i)[j] == cur[i][j], "after processing every location is remembered as it is");
    PROVE(watcher_check_for_changes(l) == 0, "no change remains after processing"); watched_kept();
}
void C11_clear(void) {
    shape(); age(); watcher_clear_changes(l, gel_u64("now"));
    for (int i = 0; i < n; i++) { for (size_t j = 0; j < sz[i]; j++) PROVE(OLD(i)[j] == cur[i][j], "after clearing every location is remembered as it is"); PROVE(!calls[i], "clearing fires no callback"); }
    PROVE(watcher_check_for_changes(l) == 0 && !bad, "no change remains after clearing"); watched_kept();
    for (int i = 0; i < n; i++) if (diff[i]) PROVE(!l[i].moved, "a cleared change is not pending any more");
}
void C11_init(void) {
    shape(); watcher_list_init(l);
    for (int i = 0; i < n; i++) { for (size_t j = 0; j < sz[i]; j++) PROVE(OLD(i)[j] == cur[i][j], "initialisation remembers every location"); PROVE(!calls[i] && !l[i].moved, "initialisation fires nothing and leaves nothing pending"); }
    PROVE(watcher_check_for_changes(l) == 0, "nothing has changed right after initialisation");
    PROVE(l[n].current == NULL, "the terminator stays");
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) PROVE(!gel_same_ptr(OLD(i), OLD(j)) && !gel_same_ptr(OLD(i), cur[i]), "remembered copies are separate");
}
// lists and locations larger than small counters reach
#define LONG 300
static uint8_t big[LONG]; static int hits;
static void lcb(void *mem, void *data) { (void)mem; (void)data; hits++; }
#if GEL_MALLOC_AVAILABLE || GEL_STATIC_BLOCK_SIZE <= 100
static watcher_t ll[LONG + 1]; static uint8_t small[LONG];
void C11_long(void) {
    gel_loop_cap(2 * LONG); int k = LONG - 1 - gel_choose(2), how = gel_choose(2); hits = 0;
    for (int i = 0; i < LONG; i++) { watcher_t w = WATCHER(&small[i], lcb, 0); ll[i] = w; }
    watcher_t z = WATCHER_NULL; ll[LONG] = z; watcher_list_init(ll); PROVE(!watcher_check_for_changes(ll), "nothing has changed in a long list right after initialisation");
    small[k]++; PROVE(watcher_check_for_changes(ll) == 1, "a change at the end of a long list is seen");
    if (how) watcher_clear_changes(ll, 1); else PROVE(watcher_process_changes(ll, 1) == 1 && hits == 1, "a change at the end of a long list is processed");
    PROVE(!watcher_check_for_changes(ll), "no change remains at the end of a long list");
}
#endif
// the largest location a configuration holds, and the size kept for the largest a list can name
#if GEL_MALLOC_AVAILABLE
#define LARGE LONG
#define LARGE_OLD ((uint8_t *)w[0].old)
#else
#define LARGE (GEL_STATIC_BLOCK_SIZE < LONG ? GEL_STATIC_BLOCK_SIZE : LONG)
#define LARGE_OLD (w[0].old)
#endif
void C11_large(void) {
    gel_loop_cap(2 * LONG); int k = LARGE - 1 - gel_choose(2); watcher_t w[] = {WATCHER_ARRAY(big, LARGE, lcb, 0), WATCHER_NULL}; watcher_list_init(w); PROVE(w[0].size == LARGE && !watcher_check_for_changes(w), "nothing has changed in a large location right after initialisation");
    big[k]++; PROVE(watcher_check_for_changes(w) == 1, "a change at the end of a large location is seen"); watcher_clear_changes(w, 1); PROVE(!watcher_check_for_changes(w), "no change remains at the end of a large location");
    big[k]++; PROVE(watcher_process_changes(w, 1) == 1 && !watcher_check_for_changes(w) && LARGE_OLD[k] == 2, "a change at the end of a large location is processed");
}
#if !defined GEL_WATCHER_REDUCE_RAM_FOOTPRINT && SIZE_MAX > 0xffff
static uint8_t huge[0x12345];
void C11_huge(void) { watcher_t w = WATCHER_ARRAY(huge, 0x12345, lcb, 0); PROVE(w.size == 0x12345, "an entry keeps the whole size of its location"); }
#endif
