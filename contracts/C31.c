#include "gel.h"
#include "gel/timer/stopwatch.h"
// Every state (legal enum value), every field value, every argument.
typedef struct { unsigned long s, e, t; int st; } shadow_t;
static void any(stopwatch_t *w, shadow_t *h) {
    w->starting_time = gel_u64("start"); w->elapsed_time = gel_u64("elapsed"); w->total_time = gel_u64("total");
    w->state = (STOPWATCH_STATE)gel_choose(3);
    h->s = w->starting_time; h->e = w->elapsed_time; h->t = w->total_time; h->st = w->state;
}
static int same(stopwatch_t *w, shadow_t *h) { return w->starting_time == h->s && w->elapsed_time == h->e && w->total_time == h->t && (int)w->state == h->st; }

void C31_init(void) {
    stopwatch_t w; shadow_t h; any(&w, &h);
    stopwatch_init(&w);
    PROVE(w.state == TIMER_STOPPED && w.elapsed_time == 0 && w.total_time == 0, "init gives a stopped zeroed stopwatch");
    PROVE(stopwatch_get_elapsed(&w, gel_u64("now")) == 0, "init: nothing elapsed");
    stopwatch_t n = STOPWATCH_NULL;
    PROVE(n.state == TIMER_STOPPED && n.elapsed_time == 0 && n.total_time == 0, "static initialiser is stopped and zeroed");
}
void C31_start(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long now = gel_u64("now");
    int r = stopwatch_start(&w, now);
    if (h.st == TIMER_COUNTING) { PROVE(r == -1, "start while counting fails"); PROVE(same(&w, &h), "failed start changes nothing"); }
    else { PROVE(r == 0, "start succeeds from stopped or paused"); PROVE(w.state == TIMER_COUNTING && w.starting_time == now, "start counts from the given time"); PROVE(w.elapsed_time == h.e && w.total_time == h.t, "start keeps elapsed time and period"); }
}
void C31_stop(void) {
    stopwatch_t w; shadow_t h; any(&w, &h);
    int r = stopwatch_stop(&w);
    PROVE(r == 0, "stop always succeeds"); PROVE(w.state == TIMER_STOPPED && w.elapsed_time == 0, "stop clears the elapsed time"); PROVE(w.total_time == h.t, "stop keeps the period");
}
void C31_pause(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long now = gel_u64("now");
    int r = stopwatch_pause(&w, now);
    if (h.st == TIMER_COUNTING) { PROVE(r == 0, "pause while counting succeeds"); PROVE(w.state == TIMER_PAUSED && w.total_time == h.t, "pause gives a paused stopwatch"); }
    else { PROVE(r == -1, "pause while not counting fails"); PROVE(same(&w, &h), "failed pause changes nothing"); }
}
void C31_restart(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long now = gel_u64("now");
    int r = stopwatch_restart(&w, now);
    PROVE(r == 0, "restart always succeeds"); PROVE(w.state == TIMER_COUNTING && w.starting_time == now && w.elapsed_time == 0 && w.total_time == h.t, "restart counts anew from the given time");
}
void C31_change(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long now = gel_u64("now"), p = gel_u64("period");
    stopwatch_change(&w, p, now);
    PROVE(w.state == TIMER_COUNTING && w.starting_time == now && w.elapsed_time == 0 && w.total_time == p, "changing the period restarts with it");
}
void C31_set(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long p = gel_u64("period");
    int r = stopwatch_set(&w, p);
    if (h.st == TIMER_STOPPED) { PROVE(r == 0, "set while stopped succeeds"); PROVE(w.total_time == p && w.state == TIMER_STOPPED && w.elapsed_time == h.e, "set changes only the period"); }
    else { PROVE(r == -1, "set while not stopped fails"); PROVE(same(&w, &h), "failed set changes nothing"); }
}
void C31_set_elapsed(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long p = gel_u64("value");
    int r = stopwatch_set_elapsed(&w, p);
    if (h.st == TIMER_STOPPED) { PROVE(r == 0, "set elapsed while stopped succeeds"); PROVE(w.elapsed_time == p && w.state == TIMER_STOPPED && w.total_time == h.t, "set elapsed changes only the elapsed time"); }
    else { PROVE(r == -1, "set elapsed while not stopped fails"); PROVE(same(&w, &h), "failed set elapsed changes nothing"); }
}
void C31_setngo(void) {
    stopwatch_t w; shadow_t h; any(&w, &h); unsigned long now = gel_u64("now"), p = gel_u64("period");
    stopwatch_setngo(&w, p, now);
    if (h.st == TIMER_STOPPED) PROVE(w.total_time == p && w.state == TIMER_COUNTING && w.starting_time == now, "set-and-go from stopped counts the period");
}
