#include "gel.h"
#include "gel/debounce/pulsecounter.h"
// Pulse counting as a history property: r is the number of consecutive samples that differed from the accepted level so far.
#ifndef LANES
#define LANES 1   // how many lanes are analysed per entry: 4 makes every one of the 32
#endif
static pulse_filter_t f;
static unsigned D, r, k;
#define LANE(v) (((unsigned)(v) >> k) & 1)
static unsigned cnt(unsigned q) { return q == 0 ? 0 : D - q + 1; }
static void any(unsigned from, unsigned n) {
    f.type = gel_choose(2) ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE;
    f.old_input = gel_u32("accepted");
    for (int i = 0; i < GEL_INPUTS; i++) { f.filters[i] = gel_u32("run"); f.count[i] = gel_u32("count"); }
    D = gel_u32("debounce"); gel_assume(D <= GEL_INT_MAX); r = gel_u32("run"); gel_assume(r <= D);
    k = from + gel_choose(n);
    f.filters[k] = cnt(r);
}
static void step(unsigned from, int alone) {
    any(from, alone ? 4 : LANES); unsigned in = gel_u32("input"), acc = LANE(f.old_input), oc = f.count[k]; if (alone) gel_assume(((in ^ f.old_input) & ~(1u << k)) == 0); gel_split(LANE(in) == acc); gel_split(acc);
    gel_key(&f.old_input, sizeof f.old_input, k); gel_key(&f.filters[k], sizeof f.filters[k], -1); gel_key(&f.count[k], sizeof f.count[k], -1); gel_key(0, 0, 0);
    gel_loop_mode(1); int change = pulse_filter(&f, in, (int)D); gel_loop_mode(0);
    unsigned b = LANE(in), r2, now = acc, pulse = 0;
    if (b == acc) r2 = 0; else if (r + 1 > D) { r2 = 0; now = b; pulse = f.type == COUNT_HIGH_PULSE ? !b : b; } else r2 = r + 1;
    PROVE(f.count[k] == oc + pulse, "a pulse is counted exactly when its closing edge has lasted debounce+1 samples");
    PROVE(LANE(f.old_input) == now, "a level is accepted exactly after debounce+1 consecutive differing samples");
    PROVE(f.filters[k] == cnt(r2), "the run of differing samples is counted from the last agreeing or accepted sample");
    PROVE(!pulse || change == 1, "a counted pulse is reported"); if (alone) PROVE(change == (int)pulse, "nothing is reported when no pulse is counted");
    PROVE(pulse_level(&f, (int)k) == (int)now, "reading a level gives the accepted level"); PROVE((unsigned)pulse_count(&f, (int)k) == oc + pulse, "reading a count gives the pulses counted");
}
void C14_step_0(void) { step(LANES == 1 ? 0 : 0, 0); }
void C14_step_4(void) { step(LANES == 1 ? 5 : 4, 0); }
void C14_step_8(void) { step(LANES == 1 ? 10 : 8, 0); }
void C14_step_12(void) { step(LANES == 1 ? 15 : 12, 0); }
#if __INT_WIDTH__ > 16
void C14_step_16(void) { step(LANES == 1 ? 16 : 16, 0); }
void C14_step_20(void) { step(LANES == 1 ? 21 : 20, 0); }
void C14_step_24(void) { step(LANES == 1 ? 26 : 24, 0); }
void C14_step_28(void) { step(LANES == 1 ? 31 : 28, 0); }
#endif
void C14_alone_0(void) { step(0, 1); }
void C14_alone_4(void) { step(4, 1); }
void C14_alone_8(void) { step(8, 1); }
void C14_alone_12(void) { step(12, 1); }
#if __INT_WIDTH__ > 16
void C14_alone_16(void) { step(16, 1); }
void C14_alone_20(void) { step(20, 1); }
void C14_alone_24(void) { step(24, 1); }
void C14_alone_28(void) { step(28, 1); }
#endif
void C14_init(void) {
    any(0, GEL_INPUTS); unsigned v = gel_u32("init"); pulse_type_t t = gel_choose(2) ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE; pulse_filter_init(&f, t, v);
    PROVE(f.type == t && f.old_input == v, "initialisation: type and levels are the given ones"); PROVE(f.count[k] == 0, "initialisation: nothing is counted"); PROVE(f.filters[k] == 0, "initialisation: no run is in progress");
}
void C14_clear(void) {
    any(0, GEL_INPUTS); unsigned oc[32], same = 1, old = f.old_input; for (int i = 0; i < GEL_INPUTS; i++) oc[i] = f.count[i];
    pulse_clear(&f, (int)k); PROVE(f.count[k] == 0, "clearing sets the counter to 0");
    for (int i = 0; i < GEL_INPUTS; i++) same &= i == (int)k || f.count[i] == oc[i];
    PROVE(same && f.old_input == old && f.filters[k] == cnt(r), "clearing leaves everything else alone");
}
