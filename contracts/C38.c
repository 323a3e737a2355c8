// Instantiates the header-only parts of the library so that their code exists in one module (compiled with
// -Dinline=__attribute__((used)), so every inline function is kept); analysed, never run.
#include "gel_conf.h"
#include <stdint.h>
#include <stddef.h>
#include "gel/collections/queue.h"
#include "gel/collections/stack.h"
#include "gel/collections/listx.h"
#include "gel/data_structures/maybe.h"
#include "gel/data_structures/struct_update.h"
#include "gel/state_machine/state_machine.h"
#include "gel/serializer/serializer.h"
#include "gel/timer/timecheck.h"
#include "gel/timer/timer.h"
#include "gel/keypad/keypad.h"
#include "gel/parameter/parameter.h"
#include "gel/scheduler/scheduler.h"
typedef struct { int a, b; } pair_t;
QUEUE_DECLARATION(queue, pair_t, 8)
QUEUE_DEFINITION(queue, pair_t)
STACK_DECLARATION(stack, pair_t, 8)
STACK_DEFINITION(stack, pair_t)
MAYBE_DECLARATION(pair_t)
MAYBE_DEFINITION(pair_t)
DEFINE_STATE_MACHINE(machine, int, pair_t)
typedef struct { int v; struct list_head list; } item_t;
int use_list(struct list_head *h) {
    int s = 0; struct list_head *p; item_t *e;
    list_for_each(p, h) s += container_of(p, item_t, list)->v;
    list_for_each_prev(p, h) s += container_of(p, item_t, list)->v;
    list_for_each_entry(e, h, list) s += e->v;
    list_for_each_entry_reverse(e, h, list) s += e->v;
    LIST_HEAD(other); return s + (other.next == &other);
}
size_t use_pack(uint8_t *b, uint16_t v, uint32_t *o) { uint16_t w; uint8_t x; return PACK_UINT16_BE(b, v) + PACK_UINT8(b, v) + UNPACK_UINT16_BE(w, b) + UNPACK_UINT32_BE(*o, b) + UNPACK_UINT8(x, b) + w + x; }
int use_time(timestamp_t a, timestamp_t b, timestamp_t d) { return time_after(a, b) + time_before(a, b) + time_after_or_equal(a, b) + is_expired(a, b, d) + is_loosely_expired(a, b, d) + is_strictly_expired(a, b, d) + (int)time_interval(a, b); }
struct_update_t use_update(pair_t p, int v) { return STRUCT_UPDATE(p, b, v); }
gel_timer_t use_timer(void) { return GEL_TIMER_NULL; }
stopwatch_t use_stopwatch(unsigned long d, unsigned long t) { stopwatch_t s = STOPWATCH_NULL; stopwatch_setngo(&s, d, t); return s; }
keypad_key_t use_key(unsigned long b, int c) { keypad_key_t k = KEYPAD_KEY(b, c), n = KEYPAD_NULL_KEY; return c ? k : n; }
parameter_handle_t use_parameter(uint8_t *p, int8_t *q, uint8_t a, uint8_t b) { parameter_handle_t h = PARAMETER(p, a, b, a, 0, 1), g = PARAMETER_STEP(q, a, b, a, 2, 0, 1), k = PARAMETER_DLIMITS(p, p, p, a, b, a, 0, 1); return a ? h : b ? g : k; }
