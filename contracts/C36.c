#include "log.h"
static int saves, result; static uint8_t *event; static circular_event_log_t *p;
static int save(uint8_t *e, size_t position) {
    saves++;
    PROVE(e == event && position == next, "the event is saved at the next position");
    PROVE(position < max, "which exists");
    return result;
}
static int load(uint8_t *e, size_t n, size_t s) { (void)e; (void)n; (void)s; forbidden("appending loads nothing"); return 0; }
void C36_append(void) {
    p = any(); event = gel_object(4, 1, "event"); gel_readonly(event, 1); result = gel_choose(2) ? (int)gel_u32("result") : 0; gel_split(result == 0); saves = 0;
    size_t before = circular_event_log_total_events(*p);
    PROVE(before == total(), "the total is the number saved until the log is full, the maximum afterwards");
    int r = circular_event_log_new_event(p, event);
    PROVE(saves == 1, "exactly one save"); PROVE(config_same(p), "the configuration stays");
    if (result) { PROVE(r == result && p->next_position == next && p->full_circle == full, "a failed save is returned and nothing advances"); return; }
    PROVE(r == 0, "success is returned");
    PROVE(p->next_position == (next + 1 == max ? 0 : next + 1), "the position advances by one and wraps at the maximum");
    PROVE(p->next_position < max, "the next position is always below the maximum");
    PROVE((p->full_circle != 0) == (full || next + 1 == max), "the log is full from the first wrap on");
    PROVE(circular_event_log_total_events(*p) == (full ? max : next + 1), "the total grows by one until it is the maximum");
}
// any number of events from an empty log of small size
void C36_history(void) {
    max = 1 + gel_choose(3); full = 0; size = 4; event = gel_object(4, 1, "event"); p = gel_object(sizeof *p, 8, "log");
    circular_event_log_t l = {.max_events = max, .event_size = size, .save_new_event = save, .load_events = load}; memcpy(p, &l, sizeof l);
    size_t n = 0; next = 0;
    for (int i = 0; i < 7; i++) {
        result = gel_choose(2) ? -1 : 0;
        PROVE(circular_event_log_new_event(p, event) == result, "the result of the save");
        if (!result) { n++; next = n % max; }
        PROVE(circular_event_log_total_events(*p) == (n < max ? n : max), "the total after any history");
    }
}
