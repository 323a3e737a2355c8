#include "gel.h"
#include "gel/keypad/keypad.h"
#define HALF (GEL_HALF)
// One key of the list with its own clock readings; the other keys are idle and up.
static keypad_key_t keys[3];
static int q; static unsigned long click, longclick, period, now, bits, since, last;
static void any(int down, keypad_event_t l) {
    int n = 1 + gel_choose(2); q = gel_choose(n);
    for (int i = 0; i < n; i++) {
        keypad_key_t *k = &keys[i];
        unsigned long bit = gel_u64("bit"); gel_assume(bit != 0); k->bitvalue = bit; PROVE(k->bitvalue == bit, "a key keeps its whole bit map"); k->code = i; k->_state.time_state = gel_u64("state"); k->_state.time_period = gel_u64("timed"); k->_state.ignore = 0;
        k->_state.value = k->_state.oldvalue = 0; k->_state.lastevent = gel_choose(2) ? KEY_RELEASE : KEY_NOTHING;
    }
    keys[n].bitvalue = 0; bits = gel_u64("bits"); for (int i = 0; i < n; i++) gel_assume((i == q && down) ? bits == keys[i].bitvalue : bits != keys[i].bitvalue);
    keys[q]._state.value = keys[q]._state.oldvalue = (uint8_t)(l == KEY_CLICK || l == KEY_LONGCLICK || l == KEY_PRESS ? down : 0); keys[q]._state.lastevent = l;
    click = gel_u64("click"); longclick = gel_u64("longclick"); period = gel_u64("repeat"); gel_assume(click <= longclick && longclick < HALF && period < HALF);
    now = gel_u64("now"); since = now - keys[q]._state.time_state; last = now - keys[q]._state.time_period; gel_assume(since < HALF && last < HALF);
}
static keypad_event_t go(void) {
    keypad_update_t e = keypad_routine(keys, click, longclick, period, now, bits);
    if (e.event != KEY_NOTHING) PROVE(e.code == q, "the event is that of the key it happened to");
    return e.event;
}
#define ST(x) PROVE(keys[q]._state.time_state == (x), "the reference time of click, long click and release is kept exactly")
#define TP(x) PROVE(keys[q]._state.time_period == (x), "the reference time of the repeating events is kept exactly")
void C17_down_press(void) {
    any(1, KEY_PRESS); unsigned long s = keys[q]._state.time_state; keypad_event_t e = go();
    PROVE((e == KEY_CLICK) == (since > click), "click: as soon as, and only when, more than the click time passed since the press"); PROVE(e == KEY_CLICK || e == KEY_NOTHING, "before the click nothing is reported");
    ST(s); if (e == KEY_CLICK) TP(now);
}
void C17_down_click(void) {
    any(1, KEY_CLICK); unsigned long s = keys[q]._state.time_state, t = keys[q]._state.time_period; keypad_event_t e = go();
    PROVE((e == KEY_LONGCLICK) == (since > longclick), "long click: as soon as, and only when, more than the long-click time passed since the press");
    PROVE((e == KEY_PRESSING) == (since <= longclick && last > period), "pressing: as soon as, and only when, more than the period passed since the last timed event"); PROVE(e == KEY_LONGCLICK || e == KEY_PRESSING || e == KEY_NOTHING, "after the click only pressing and long click follow");
    if (e == KEY_LONGCLICK) { TP(now); } else { ST(s); TP(e == KEY_PRESSING ? now : t); }
}
void C17_down_longclick(void) {
    any(1, KEY_LONGCLICK); unsigned long t = keys[q]._state.time_period; keypad_event_t e = go();
    PROVE((e == KEY_LONGPRESS) == (last > period), "long press: as soon as, and only when, more than the period passed since the last timed event"); PROVE(e == KEY_LONGPRESS || e == KEY_NOTHING, "after the long click only long press follows");
    TP(e == KEY_LONGPRESS ? now : t);
}
void C17_up(void) {
    keypad_event_t l = gel_choose(2) ? KEY_CLICK : KEY_LONGCLICK; any(0, l); unsigned long s = keys[q]._state.time_state; keypad_event_t e = go();
    PROVE((e == KEY_RELEASE) == (since > click), "release: as soon as, and only when, more than the click time passed since the key went up"); PROVE(e == KEY_RELEASE || e == KEY_NOTHING, "an up key reports only its release"); ST(s);
}
void C17_edges(void) {
    int up = gel_choose(2), c = gel_choose(3); keypad_event_t l = c == 0 ? KEY_CLICK : c == 1 ? KEY_LONGCLICK : up ? KEY_PRESS : KEY_RELEASE;
    any(!up, l); keys[q]._state.value = keys[q]._state.oldvalue = (uint8_t)up; keypad_event_t e = go();
    ST(now); PROVE(e == (up ? (l == KEY_PRESS ? KEY_RELEASE : KEY_NOTHING) : KEY_PRESS), "going down reports a press, going up before the click a release, going up later waits for its time");
}
void C17_idle(void) { any(0, gel_choose(2) ? KEY_RELEASE : KEY_NOTHING); PROVE(go() == KEY_NOTHING, "an idle key reports nothing"); }
