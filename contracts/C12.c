#include "gel.h"
#include "gel/data_structures/watcher.h"
void watcher_trigger_all_cb(watcher_t *list);
#define M 3
static watcher_t l[M + 2]; static int n; static size_t sz[M]; static uint8_t *cur[M], *rem[M], oc[M][16], oo[M][16]; static unsigned long ts[M]; static unsigned long want[M]; static int diff[M], mode;
static int calls[M]; static int bad, order[2 * M], no;
static void called(int i, void *mem, void *data) { if (i >= n || (char *)data - (char *)0x1000 != i || mem != cur[i]) bad = 1; else { calls[i]++; if (no < 2 * M) order[no++] = i; } }
static void cb0(void *m, void *d) { called(0, m, d); } static void cb1(void *m, void *d) { called(1, m, d); } static void cb2(void *m, void *d) { called(2, m, d); }
#if GEL_MALLOC_AVAILABLE
#define OLD(i) ((uint8_t *)l[i].old)
#else
#define OLD(i) (l[i].old)
#endif
static unsigned long any_delay(void) {
    unsigned long d = gel_u64("delay");
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
    d &= 0xffff; // the documented range of this option
#endif
    gel_assume(d < GEL_HALF); return d;
}
// an initialised list of n entries, each watching sz[i] bytes; the entry after the terminator must never be looked at
static void mk(int len, size_t a, size_t b, size_t c) {
    n = len; no = 0; sz[0] = a; sz[1] = b; sz[2] = c; bad = 0;
    for (int i = 0; i < n; i++) {
        calls[i] = 0; want[i] = any_delay(); cur[i] = gel_object(sz[i], 1, "watched"); gel_readonly(cur[i], 1);
        watcher_t w = WATCHER_DELAYED_ARRAY((uint8_t *)cur[i], sz[i], i == 0 ? cb0 : i == 1 ? cb1 : cb2, (char *)0x1000 + i, want[i]); l[i] = w;
    }
    watcher_t z = WATCHER_NULL; l[n] = z; l[n + 1].current = &l[n];
}
static void age(void) {    // remembered values and timers as any history leaves them
    for (int i = 0; i < n; i++) {
#if GEL_MALLOC_AVAILABLE
        l[i].old = gel_object(sz[i], 1, "remembered");
#else
        uint8_t *o = gel_object(sz[i], 1, "remembered"); memcpy(l[i].old, o, sz[i]);
#endif
        l[i].timestamp = ts[i] = gel_u64("since"); l[i].moved = want[i] ? gel_u8("moved") & 1 : 0;
        diff[i] = 0; for (size_t k = 0; k < sz[i]; k++) { oc[i][k] = cur[i][k]; oo[i][k] = OLD(i)[k]; }
        diff[i] = memcmp(oc[i], oo[i], sz[i]) != 0;
    }
}

static void shape(void) { int k = gel_choose(4); if (k < 3) mk(k + 1, 1, 1, 1); else mk(1, 3, 0, 0); }
static int due(int i, unsigned long now) { return now - ts[i] >= want[i]; }
void C12_process(void) {
    shape(); age(); unsigned long now = gel_u64("now"), dl[M]; int mv[M];
    for (int i = 0; i < n; i++) { gel_assume(now - ts[i] < GEL_HALF); mv[i] = l[i].moved; dl[i] = want[i]; }
    watcher_process_changes(l, now);
    PROVE(!bad, "callbacks get the location's address and its own data");
    for (int i = 0; i < n; i++) {
        if (diff[i] && !dl[i]) PROVE(calls[i] == 1 && !l[i].moved, "an immediate callback fires exactly once per change");
        else if (diff[i]) PROVE(calls[i] == 0 && l[i].moved && l[i].timestamp == now, "a change with a delay only restarts the delay");
        else if (!mv[i]) PROVE(calls[i] == 0 && !l[i].moved, "an unchanged location fires nothing");
        else if (now - ts[i] >= dl[i]) PROVE(calls[i] == 1 && !l[i].moved, "a delayed callback fires once when the delay has passed quietly");
        else PROVE(calls[i] == 0 && l[i].moved && l[i].timestamp == ts[i], "a delayed callback waits for the whole delay");
        PROVE(l[i].delay == dl[i], "the delay is kept");
    }
    for (int i = 1; i < no; i++) PROVE(order[i - 1] < order[i], "callbacks fire in list order");
}
// a history seen from outside: initialise, change, wait, change again, wait
static void set(int i) { gel_readonly(cur[i], 0); cur[i][0] = (uint8_t)(cur[i][0] + 1 + (gel_u8("how") & 0x7f)); gel_readonly(cur[i], 1); }
void C12_history(void) {
    mk(1, 2, 0, 0); gel_assume(want[0] > 0); watcher_list_init(l); unsigned long d = want[0], t0 = gel_u64("t0"), a = gel_u64("a"), b = gel_u64("b"); gel_assume(a < GEL_HALF / 4 && b < GEL_HALF / 4); int again = gel_choose(2);
    watcher_process_changes(l, t0); PROVE(!calls[0], "nothing fires before the first change");
    set(0); PROVE(watcher_process_changes(l, t0) == 1 && !calls[0], "the change is seen and not yet fired");
    if (again) set(0);
    int r = watcher_process_changes(l, t0 + a); PROVE(r == again, "only a new change is reported");
    if (again) { PROVE(!calls[0], "a new change restarts the delay"); watcher_process_changes(l, t0 + a + b); PROVE(calls[0] == (b >= d), "the delay counts from the last change"); }
    else { PROVE(calls[0] == (a >= d), "the callback fires exactly when the delay has passed"); watcher_process_changes(l, t0 + a + b); PROVE(calls[0] == (a + b >= d), "and never a second time"); }
    int c = calls[0]; watcher_process_changes(l, t0 + a + b + d); PROVE(calls[0] == 1, "it has fired once in the end"); (void)c;
    watcher_process_changes(l, t0 + a + b + d + d); PROVE(calls[0] == 1 && !bad, "it never fires again without a change");
}
void C12_cleared(void) {
    mk(1, 2, 0, 0); watcher_list_init(l); unsigned long t0 = gel_u64("t0"), a = gel_u64("a"); gel_assume(a < GEL_HALF / 2);
    set(0); watcher_clear_changes(l, t0); watcher_process_changes(l, t0); watcher_process_changes(l, t0 + a); PROVE(!calls[0], "a cleared change never fires");
}
void C12_trigger(void) {
    shape(); age(); int how = gel_choose(3);
    if (how == 0) { int k = gel_choose(n); watcher_trigger_cb(l, k); for (int i = 0; i < n; i++) PROVE(calls[i] == (i == k), "triggering an entry calls exactly its callback"); }
    else { if (how == 1) watcher_trigger_all(l); else watcher_trigger_all_cb(l); PROVE(no == n, "triggering all calls every callback once"); for (int i = 0; i < no; i++) PROVE(order[i] == i, "in list order"); }
    PROVE(!bad, "triggered callbacks get the location's address and its own data");
}
// lists longer than small counters reach: the last entry is treated like the first
#define LONG 300
static watcher_t ll[LONG + 1]; static uint8_t small[LONG]; static int hits, last, wrong;
static void lcb(void *mem, void *data) { int i = (int)((uint8_t *)mem - small); if (data != &small[i] || i <= last) wrong = 1; last = i; hits++; }
void C12_long(void) {
    gel_loop_cap(2 * LONG); int how = gel_choose(3), late = gel_choose(2); hits = wrong = 0; last = -1;
    for (int i = 0; i < LONG; i++) { watcher_t w = WATCHER_DELAYED_ARRAY(&small[i], 1, lcb, &small[i], i == LONG - 2 ? 10 : 0); ll[i] = w; }
    watcher_t z = WATCHER_NULL; ll[LONG] = z; watcher_list_init(ll);
    if (how == 0) { watcher_trigger_all(ll); PROVE(hits == LONG && last == LONG - 1 && !wrong, "every callback of a long list is called"); return; }
    if (how == 1) { watcher_trigger_cb(ll, LONG - 1 - late); PROVE(hits == 1 && last == LONG - 1 - late && !wrong, "an entry of a long list can be triggered"); return; }
    small[LONG - 1 - late]++; PROVE(watcher_check_for_changes(ll) == 1, "a change at the end of a long list is seen");
    PROVE(watcher_process_changes(ll, 5) == 1 && hits == !late, "a change at the end of a long list is processed"); PROVE(watcher_process_changes(ll, 15) == 0 && hits == 1 && last == LONG - 1 - late && !wrong, "and fires its callback once");
}
