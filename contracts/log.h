#include "gel.h"
#include "gel/circular_event_log/circular_event_log.h"
static size_t next, max, size; static int full;
static int save(uint8_t *event, size_t position); static int load(uint8_t *events, size_t number, size_t start);
static circular_event_log_t *any(void) {
    next = gel_u64("next"); max = gel_u64("max"); size = gel_u64("event size"); gel_assume(max >= 1 && next < max);
    full = gel_choose(2) ? 1 : 0;
    circular_event_log_t l = {.next_position = next, .max_events = max, .event_size = size, .full_circle = full, .save_new_event = save, .load_events = load};
    circular_event_log_t *p = gel_object(sizeof *p, 8, "log"); memcpy(p, &l, sizeof l);
    return p;
}
static int config_same(circular_event_log_t *p) { return p->max_events == max && p->event_size == size && p->save_new_event == save && p->load_events == load; }
static size_t total(void) { return full ? max : next; }
