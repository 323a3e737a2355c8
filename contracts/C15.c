#include "gel.h"
#include "gel/debounce/debounce.h"
#include "gel/debounce/pulsecounter.h"
static debounce_filter_t d; static pulse_filter_t p;
static unsigned dold[34], pold[66]; static int t;
static void any(void) {
    d.old_input = gel_u32("accepted"); d.buffered = gel_u32("buffered"); p.old_input = gel_u32("accepted"); t = gel_choose(2); p.type = (pulse_type_t)t;
    for (int i = 0; i < GEL_INPUTS; i++) { d.debounce_count[i] = gel_u32("count"); p.filters[i] = gel_u32("run"); p.count[i] = gel_u32("pulses"); dold[i] = d.debounce_count[i]; pold[i] = p.filters[i]; pold[32 + i] = p.count[i]; }
    dold[32] = d.old_input; dold[33] = d.buffered; pold[64] = p.old_input;
}
static void same(void) {
    unsigned e = d.old_input == dold[32] && d.buffered == dold[33] && p.old_input == pold[64] && (int)p.type == t;
    for (int i = 0; i < GEL_INPUTS; i++) e &= d.debounce_count[i] == dold[i] && p.filters[i] == pold[i] && p.count[i] == pold[32 + i];
    PROVE(e, "an index outside the inputs changes nothing");
}
void C15_debounce(void) {
    any(); size_t i = gel_u64("index"); gel_assume(i >= (size_t)GEL_INPUTS);
    PROVE(debounce_read(&d, i) == -1, "reading an input that does not exist gives -1"); same();
    PROVE(debounce_filter_single(&d, gel_u32("input"), i, (int)gel_u32("debounce")) == 0, "filtering an input that does not exist reports no change"); same();
}
void C15_pulse(void) {
    any(); int i = (int)gel_u32("index"); gel_assume(i < 0 || i >= GEL_INPUTS);
    PROVE(pulse_count(&p, i) == -1, "the count of an input that does not exist is -1"); PROVE(pulse_level(&p, i) == -1, "the level of an input that does not exist is -1");
    pulse_clear(&p, i); same();
}
void C15_inside(void) {
    any(); int i = gel_choose(GEL_INPUTS);
    PROVE(debounce_read(&d, (size_t)i) == (int)((d.buffered >> i) & 1), "reading an input gives its level");
    PROVE(pulse_level(&p, i) == (int)((p.old_input >> i) & 1), "the level of an input is 0 or 1"); PROVE((unsigned)pulse_count(&p, i) == p.count[i], "the count of an input is the stored one"); same();
    pulse_clear(&p, i); PROVE(p.count[i] == 0, "clearing sets the counter to 0"); pold[32 + i] = 0; same();
}
