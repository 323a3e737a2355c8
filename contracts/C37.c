#include "log.h"
// what was asked of the storage
static int calls; static uint8_t *at[3]; static size_t num[3], from[3]; static int res[3]; static uint8_t *dest; static size_t n, j;
static int save(uint8_t *e, size_t position) { (void)e; (void)position; forbidden("loading saves nothing"); return 0; }
static int load(uint8_t *e, size_t number, size_t start) {
    if (calls >= 2) { forbidden("at most two requests"); return -1; }
    PROVE(number <= max && start <= max && (number == 0 || start <= max - number), "no request reaches outside the log");
    PROVE(number <= n, "nor outside the caller's events");
    int c = calls++; at[c] = e; num[c] = number; from[c] = start;
    if (gel_choose(2)) { res[c] = (int)gel_u32("error"); gel_assume(res[c] < 0); } else res[c] = (int)number;
    return res[c];
}
static void one(int concrete_size) {
    circular_event_log_t *p = any(); n = gel_u64("n"); j = gel_u64("j"); calls = 0;
    // the results are ints
    gel_assume(max <= GEL_INT_MAX);
    if (concrete_size) gel_assume(size == (size_t)concrete_size);
    dest = gel_object(1, 1, "destination"); gel_readonly(p, 1);
    size_t t = total(), take = j >= t ? 0 : n < t - j ? n : t - j;
    gel_split(take == 0);
    int r = circular_event_log_load_last_events(*p, dest, n, j);
    // position of the oldest requested event: next - j - take, on the ring
    size_t back = take + (j < t ? j : t), start = next >= back ? next - back : max - (back - next);
    if (take == 0) { PROVE(calls == 0 || (calls == 1 && num[0] == 0), "nothing is loaded when nothing is asked for or left"); PROVE(r == (calls ? res[0] : 0), "and nothing is reported"); return; }
    PROVE(calls >= 1, "the storage is asked");
    PROVE(from[0] % max == start % max && at[0] == dest, "the first request starts at the oldest requested event, at the start of the destination");
    if (res[0] < 0) { PROVE(r < 0 && calls == 1, "an error of the first part is an error"); return; }
    if (start + take <= max) { PROVE(calls == 1 && num[0] == take, "one contiguous range is asked for at once"); PROVE(r == (int)take, "the number loaded is returned"); return; }
    PROVE(num[0] == max - start, "up to the end of the storage");
    PROVE(calls == 2 && from[1] == 0 && num[0] + num[1] == take, "then its beginning");
    PROVE(at[1] == dest + num[0] * size, "right after the first part in the destination");
    if (res[1] < 0) PROVE(r < 0, "an error of the second part is an error"); else PROVE(r == (int)take, "the number of both parts is returned");
}
void C37_load_1(void) { one(1); }
void C37_load_4(void) { one(4); }
void C37_load_7(void) { one(7); }
void C37_load_any(void) { one(0); }
