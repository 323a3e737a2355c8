#include "gel.h"
#include "gel/timer/stopwatch.h"
typedef struct { unsigned long s, e, t; int st; } shadow_t;
#define HALF (GEL_HALF)
static void any(stopwatch_t *w, shadow_t *h) {
    w->starting_time = gel_u64("start"); w->elapsed_time = gel_u64("elapsed"); w->total_time = gel_u64("total");
    w->state = (STOPWATCH_STATE)gel_choose(3);
    h->s = w->starting_time; h->e = w->elapsed_time; h->t = w->total_time; h->st = w->state;
}
static int same(stopwatch_t *w, shadow_t *h) { return w->starting_time == h->s && w->elapsed_time == h->e && w->total_time == h->t && (int)w->state == h->st; }
// now = start + d, d below half the range, and no overflow of the accumulated time
static unsigned long later(stopwatch_t *w, unsigned long *d) {
    *d = gel_u64("delta"); gel_assume(*d < HALF); gel_assume(w->elapsed_time < HALF); gel_assume(w->total_time < HALF);
    return w->starting_time + *d;
}
void C32_elapsed(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long d, now = later(&w, &d);
    unsigned long e = stopwatch_get_elapsed(&w, now);
    if (h.st == TIMER_COUNTING) PROVE(e == h.e + d, "elapsed while counting = accumulated + time since start");
    else PROVE(e == h.e, "elapsed while not counting = accumulated");
    PROVE(same(&w, &h), "get_elapsed changes nothing");
}
void C32_pause(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); gel_assume(w.state == TIMER_COUNTING); unsigned long d, now = later(&w, &d);
    stopwatch_pause(&w, now);
    PROVE(w.elapsed_time == h.e + d, "pause accumulates the time counted");
    unsigned long any2 = gel_u64("any");
    PROVE(stopwatch_get_elapsed(&w, any2) == h.e + d, "elapsed stays put while paused");
    unsigned long n2 = gel_u64("resume"); stopwatch_start(&w, n2);
    unsigned long d2 = gel_u64("d2"); gel_assume(d2 < HALF);
    PROVE(stopwatch_get_elapsed(&w, n2 + d2) == h.e + d + d2, "the pause is not counted");
}
void C32_remaining(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long d, now = later(&w, &d);
    unsigned long el = h.st == TIMER_COUNTING ? h.e + d : h.e;
    unsigned long r = stopwatch_get_remaining(&w, now);
    if (el < h.t) PROVE(r == h.t - el, "remaining = period - elapsed"); else PROVE(r == 0, "remaining is 0 once reached");
    PROVE(same(&w, &h), "get_remaining changes nothing");
}
void C32_reached(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long d, now = later(&w, &d);
    unsigned long el = h.st == TIMER_COUNTING ? h.e + d : h.e;
    int r = stopwatch_is_timer_reached(&w, now);
    if (h.st != TIMER_STOPPED && el >= h.t) PROVE(r != 0, "reached when elapsed >= period"); else PROVE(r == 0, "not reached before, nor when stopped");
    unsigned long rem = stopwatch_get_remaining(&w, now);
    if (h.st != TIMER_STOPPED) PROVE((rem == 0) == (r != 0), "reached and remaining agree");
    PROVE(same(&w, &h), "is_reached changes nothing");
}
void C32_getters(void) {
    stopwatch_t w; shadow_t h; any(&w, &h);
    PROVE(stopwatch_get_total_time(&w) == h.t, "get_total_time is the period");
    PROVE((int)stopwatch_get_state(&w) == h.st, "get_state is the state");
    PROVE(same(&w, &h), "getters change nothing");
}
// reached implies that it stays coherent over a run: start, count, query
void C32_run(void) {
    stopwatch_t w; stopwatch_init(&w); unsigned long p = gel_u64("p"), t0 = gel_u64("t0"), d = gel_u64("d"); gel_assume(p < HALF && d < HALF);
    PROVE(stopwatch_set(&w, p) == 0 && stopwatch_start(&w, t0) == 0, "set and start");
    PROVE((stopwatch_is_timer_reached(&w, t0 + d) != 0) == (d >= p), "reached exactly when the period has passed");
    PROVE(stopwatch_restart(&w, t0 + d) == 0 && stopwatch_get_elapsed(&w, t0 + d) == 0, "restart zeroes the elapsed time");
}
