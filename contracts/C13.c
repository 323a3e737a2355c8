#include "gel.h"
#include "gel/debounce/debounce.h"
// Debouncing as a history property: r is the number of consecutive samples that differed from the accepted level so far.
static debounce_filter_t f;
static unsigned D, r, k;
#define LANE(v) (((unsigned)(v) >> k) & 1)
static unsigned cnt(unsigned q) { return q == 0 ? 0 : D - q + 1; }
static void any(unsigned from, unsigned n) {
    f.old_input = gel_u32("accepted"); f.buffered = gel_u32("buffered");
    for (int i = 0; i < GEL_INPUTS; i++) f.debounce_count[i] = gel_u32("count");
    D = gel_u32("debounce"); gel_assume(D <= GEL_INT_MAX); r = gel_u32("run"); gel_assume(r <= D);
    k = from + gel_choose(n);
    f.debounce_count[k] = cnt(r); gel_assume(LANE(f.old_input) == LANE(f.buffered));
}
static void stepped(unsigned acc, unsigned in, unsigned change) {
    unsigned now = acc, r2, ch = 0;
    if (in == acc) r2 = 0; else if (r + 1 > D) { r2 = 0; now = in; ch = 1; } else r2 = r + 1;
    PROVE(LANE(f.buffered) == now && LANE(f.old_input) == now, "a level is accepted exactly after debounce+1 consecutive differing samples");
    PROVE(LANE(change) == ch, "a change is reported exactly when the accepted level changes");
    PROVE(f.debounce_count[k] == cnt(r2), "the run of differing samples is counted from the last agreeing or accepted sample");
    PROVE(debounce_read(&f, k) == (int)now && LANE(debounce_value(&f)) == now, "reading an input gives the accepted level");
}
static void filter(unsigned from) {
    any(from, 4); unsigned in = gel_u32("input"), acc = LANE(f.buffered); gel_split(LANE(in) == acc);
    gel_key(&f.old_input, sizeof f.old_input, k); gel_key(&f.buffered, sizeof f.buffered, k); gel_key(&f.debounce_count[k], sizeof f.debounce_count[k], -1); gel_key(0, 0, k); gel_loop_mode(1);
    unsigned change = debounce_filter(&f, in, (int)D);
    gel_loop_mode(0);
    stepped(acc, LANE(in), change);
}
void C13_filter_0(void) { filter(0); }
void C13_filter_4(void) { filter(4); }
void C13_filter_8(void) { filter(8); }
void C13_filter_12(void) { filter(12); }
#if __INT_WIDTH__ > 16
void C13_filter_16(void) { filter(16); }
void C13_filter_20(void) { filter(20); }
void C13_filter_24(void) { filter(24); }
void C13_filter_28(void) { filter(28); }
#endif
void C13_single(void) {
    any(0, GEL_INPUTS); unsigned in = gel_u32("input"), acc = LANE(f.buffered), ob = f.buffered, oo = f.old_input, oc[32], same = 1;
    for (int j = 0; j < GEL_INPUTS; j++) oc[j] = f.debounce_count[j];
    unsigned change = debounce_filter_single(&f, in, k, (int)D);
    stepped(acc, in != 0, change);
    for (int j = 0; j < GEL_INPUTS; j++) same &= j == (int)k || f.debounce_count[j] == oc[j];
    PROVE((change & ~(1u << k)) == 0, "filtering one input reports only that input");
    PROVE(((f.buffered ^ ob) & ~(1u << k)) == 0 && ((f.old_input ^ oo) & ~(1u << k)) == 0 && same, "filtering one input leaves the others alone");
}
void C13_init(void) {
    any(0, GEL_INPUTS); debounce_filter_init(&f);
    PROVE(f.buffered == 0 && f.old_input == 0, "initialisation: every input is low"); PROVE(f.debounce_count[k] == 0, "initialisation: no run is in progress");
}
void C13_set(void) {
    any(0, GEL_INPUTS); unsigned v = gel_u32("set"); debounce_filter_set(&f, v);
    PROVE(f.buffered == v && f.old_input == v, "setting: every input has the given level"); PROVE(f.debounce_count[k] == 0, "setting: no run is in progress");
}
