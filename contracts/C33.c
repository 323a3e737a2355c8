#include "gel.h"
#include "gel/timer/timer.h"
#define HALF (GEL_HALF)
static gel_timer_t *t; static int calls; static void *user, *arg; static int mode, mark; static gel_timer_t *gott; static void *gotu, *gota;
static unsigned long now, period2; static uint8_t reload2;
static void cb(gel_timer_t *x, void *u, void *a) {
    calls++; gott = x; gotu = u; gota = a;
    switch (mode) {
    case 1: gel_timer_set_autoreload(x, reload2); break;
    case 2: gel_timer_change_period(x, period2, now); break;
    case 3: gel_timer_stop(x); break;
    case 4: gel_timer_pause(x, now); break;
    case 5: x->arg = &mark; x->callback = 0; break;
    }
}
typedef struct { unsigned long s, e, p; int st; uint8_t re; } sh;
static sh snap(void) { sh h = {t->stopwatch.starting_time, t->stopwatch.elapsed_time, t->stopwatch.total_time, t->stopwatch.state, t->autoreload}; return h; }
static int same(sh *h) { return t->stopwatch.starting_time == h->s && t->stopwatch.elapsed_time == h->e && t->stopwatch.total_time == h->p && (int)t->stopwatch.state == h->st && t->autoreload == h->re && t->callback == cb && t->arg == arg; }
static sh any(void) {
    t = gel_object(sizeof *t, 8, "timer"); arg = gel_object(4, 1, "arg"); user = gel_object(4, 1, "user");
    t->callback = cb; t->arg = arg; t->autoreload = gel_u8("autoreload");
    t->stopwatch.starting_time = gel_u64("start"); t->stopwatch.elapsed_time = gel_u64("elapsed"); t->stopwatch.total_time = gel_u64("period"); t->stopwatch.state = (STOPWATCH_STATE)gel_choose(3);
    gel_assume(t->stopwatch.elapsed_time < HALF && t->stopwatch.total_time < HALF);
    calls = 0; unsigned long d = gel_u64("delta"); gel_assume(d < HALF - 1); now = t->stopwatch.starting_time + d;
    return snap();
}
static unsigned long counted(sh *h) { return h->st == TIMER_COUNTING ? h->e + (now - h->s) : h->e; }
// a timer counting from `from` with nothing counted yet behaves as one: the remaining time says so
static void counting_from(unsigned long from, unsigned long period, const char *l) {
    unsigned long d = gel_u64("later"); gel_assume(d < HALF);
    gel_prove(t->stopwatch.state == TIMER_COUNTING, l);
    gel_prove(gel_timer_get_remaining(t, from + d) == (d < period ? period - d : 0), l);
}
void C33_service(void) {
    sh h = any(); mode = gel_choose(6); reload2 = gel_u8("reload"); period2 = gel_u64("period2"); gel_assume(period2 < HALF);
    int due = h.st != TIMER_STOPPED && counted(&h) >= h.p; gel_split(due);
    int r = gel_timer_manage_callback(t, now, user);
    if (!due) { PROVE(r == 0 && calls == 0, "no call before the period is reached, nor when stopped"); PROVE(same(&h), "nothing changes without an expiry"); return; }
    PROVE(r == 1 && calls == 1, "the callback is called exactly once per expiry, and reported");
    PROVE(gott == t && gotu == user && gota == arg, "with the timer, the user pointer and the registered argument");
    uint8_t re = mode == 1 ? reload2 : h.re; unsigned long p = mode == 2 && h.st != TIMER_STOPPED ? period2 : h.p;
    PROVE(t->autoreload == re && t->stopwatch.total_time == p, "period and automatic reload as the callback left them");
    PROVE(mode == 5 ? t->arg == &mark && !t->callback : t->arg == arg && t->callback == cb, "registered callback and argument as the callback left them");
    if (re) counting_from(now, p, "with automatic reload it counts again from the given time");
    else PROVE(t->stopwatch.state == TIMER_STOPPED, "without automatic reload it stops");
    if (!re) { calls = 0; unsigned long n2 = gel_u64("n2"); if (mode != 5) PROVE(gel_timer_manage_callback(t, n2, user) == 0 && calls == 0, "a stopped timer never fires"); }
}
void C33_init(void) {
    any(); t->callback = 0; t->arg = &calls; unsigned long p = gel_u64("p"), at = gel_u64("at"); gel_assume(p < HALF); void *given = gel_choose(2) ? arg : NULL;
    PROVE(gel_timer_init(t, p, at, cb, given) == t, "init returns the timer");
    PROVE(t->callback == cb && t->arg == given && t->autoreload == 0 && t->stopwatch.total_time == p, "callback, argument and period are registered, no reload");
    counting_from(at, p, "init counts from the given time");
}
void C33_stop(void) {
    sh h = any(); gel_timer_stop(t); calls = 0;
    unsigned long n2 = gel_u64("n2");
    PROVE(gel_timer_manage_callback(t, n2, user) == 0 && calls == 0, "a stopped timer does not fire");
    PROVE(t->stopwatch.state == TIMER_STOPPED && t->stopwatch.total_time == h.p && t->autoreload == h.re && t->callback == cb && t->arg == arg, "stop keeps what is registered");
}
void C33_reload(void) {
    sh h = any(); uint8_t v = gel_u8("v"); gel_timer_set_autoreload(t, v);
    PROVE((t->autoreload != 0) == (v != 0), "automatic reload is set"); h.re = t->autoreload; PROVE(same(&h), "and nothing else");
}
void C33_pause_resume(void) {
    sh h = any(); unsigned long c = counted(&h);
    gel_timer_pause(t, now);
    if (h.st != TIMER_COUNTING) PROVE(same(&h), "pausing a timer that is not counting changes nothing");
    else {
        PROVE(t->stopwatch.state == TIMER_PAUSED, "a counting timer is paused");
        unsigned long n2 = gel_u64("n2");
        PROVE(gel_timer_get_remaining(t, n2) == (c < h.p ? h.p - c : 0), "the remaining time stays put while paused");
        gel_timer_resume(t, n2);
        PROVE(t->stopwatch.state == TIMER_COUNTING, "a paused timer is resumed");
        unsigned long d = gel_u64("d"); gel_assume(d < HALF - 1);
        PROVE(gel_timer_get_remaining(t, n2 + d) == (c + d < h.p ? h.p - c - d : 0), "the pause is not counted");
        PROVE(t->stopwatch.total_time == h.p && t->autoreload == h.re && t->callback == cb && t->arg == arg, "pausing and resuming keep what is registered");
    }
}
void C33_resume(void) {
    sh h = any(); gel_timer_resume(t, now);
    if (h.st == TIMER_COUNTING) PROVE(same(&h), "resuming a counting timer changes nothing");
    else { unsigned long d = gel_u64("d"); gel_assume(d < HALF - 1); PROVE(t->stopwatch.state == TIMER_COUNTING && gel_timer_get_remaining(t, now + d) == (h.e + d < h.p ? h.p - h.e - d : 0), "resuming goes on from the time counted"); }
}
void C33_reset(void) {
    sh h = any(); int change = gel_choose(2); unsigned long p = gel_u64("p"); gel_assume(p < HALF);
    if (change) gel_timer_change_period(t, p, now); else { gel_timer_reset(t, now); p = h.p; }
    PROVE(t->autoreload == h.re && t->callback == cb && t->arg == arg && calls == 0, "reset and change of period keep what is registered");
    if (h.st == TIMER_STOPPED) PROVE(same(&h), "a stopped timer is not affected");
    else if (h.st == TIMER_COUNTING) counting_from(now, p, "a counting timer restarts from the given time");
    else {
        unsigned long n2 = gel_u64("n2");
        PROVE(t->stopwatch.state == TIMER_PAUSED && gel_timer_get_remaining(t, n2) == p, "a paused timer stays paused with nothing counted");
    }
}
void C33_null(void) {
    gel_timer_t n = GEL_TIMER_NULL; t = &n; calls = 0; unsigned long n2 = gel_u64("n2");
    PROVE(n.stopwatch.state == TIMER_STOPPED && n.autoreload == 0 && n.callback == 0 && n.arg == 0 && gel_timer_manage_callback(&n, n2, 0) == 0, "the null timer is stopped");
}
void C33_remaining(void) { sh h = any(); unsigned long c = counted(&h); PROVE(gel_timer_get_remaining(t, now) == (c < h.p ? h.p - c : 0), "remaining time"); PROVE(same(&h), "the query changes nothing"); }
