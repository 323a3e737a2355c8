#include "gel.h"
#include "gel/keypad/keypad.h"
#ifndef KEYS
#define KEYS 2
#endif
static keypad_key_t keys[KEYS + 1], old[KEYS + 1];
static int n; static unsigned long click, longclick, period, now, bits;
static int pending(keypad_key_t *k) { return k->_state.lastevent == KEY_PRESS || k->_state.lastevent == KEY_CLICK || k->_state.lastevent == KEY_LONGCLICK; }
// What every call and every reset leave behind, per key
static int valid(keypad_key_t *k) {
    if (k->_state.value > 1 || k->_state.oldvalue > 1 || k->_state.ignore > 1) return 0;
    keypad_event_t l = k->_state.lastevent;
    if (k->_state.oldvalue) return k->_state.ignore == 0 && (l == KEY_PRESS || l == KEY_CLICK || l == KEY_LONGCLICK);
    if (k->_state.ignore) return l == KEY_NOTHING;
    return l == KEY_NOTHING || l == KEY_RELEASE || l == KEY_CLICK || l == KEY_LONGCLICK;
}
static void any(void) {
    n = 1 + gel_choose(KEYS); int p = 0;
    for (int i = 0; i < n; i++) {
        keypad_key_t *k = &keys[i];
        unsigned long bit = gel_u64("bit"); int code = (int)gel_u32("code"); gel_assume(bit != 0); k->bitvalue = bit; k->code = code; PROVE(k->bitvalue == bit && k->code == code, "a key keeps its whole bit map and code");
        k->_state.time_state = gel_u64("state"); k->_state.time_period = gel_u64("period");
        // a matching key may have been seen without being handled: value 1, oldvalue 0
        static const uint8_t v[] = {0, 0, 0, 0, 1, 1, 1, 0, 1, 1, 1, 1, 1}, o[] = {0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0}, ig[] = {0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0};
        static const keypad_event_t l[] = {KEY_NOTHING, KEY_RELEASE, KEY_CLICK, KEY_LONGCLICK, KEY_PRESS, KEY_CLICK, KEY_LONGCLICK, KEY_NOTHING, KEY_NOTHING, KEY_NOTHING, KEY_RELEASE, KEY_CLICK, KEY_LONGCLICK};
        int c = gel_choose(11);   // the last two are not reachable: a key waiting for its release is handled whenever it matches
        k->_state.value = v[c]; k->_state.oldvalue = o[c]; k->_state.ignore = ig[c]; k->_state.lastevent = l[c];
        p += pending(k); old[i] = *k;
        for (int j = 0; j < i; j++) { gel_assume(keys[j].code != k->code); gel_assume(keys[j].bitvalue != k->bitvalue); }
    }
    gel_assume(p <= 1);
    keys[n].bitvalue = 0;
    click = gel_u64("click"); longclick = gel_u64("longclick"); period = gel_u64("repeat"); now = gel_u64("now"); bits = gel_u64("bits");
    gel_assume(click <= longclick && longclick < GEL_HALF && period < GEL_HALF);
}
static int same(keypad_key_t *a, keypad_key_t *b) {
    return a->bitvalue == b->bitvalue && a->code == b->code && a->_state.lastevent == b->_state.lastevent && a->_state.oldvalue == b->_state.oldvalue && a->_state.ignore == b->_state.ignore && a->_state.time_state == b->_state.time_state && a->_state.time_period == b->_state.time_period;
}
void C16_event(void) {
    any();
    for (int i = 0; i < n; i++) if (pending(&keys[i])) gel_assume(now - keys[i]._state.time_state < GEL_HALF && now - keys[i]._state.time_period < GEL_HALF);
    keypad_update_t e = keypad_routine(keys, click, longclick, period, now, bits);
    int who = -1, moved = 0, p = 0;
    for (int i = 0; i < n; i++) { if (e.code == keys[i].code) who = i; p += pending(&keys[i]); }
    for (int i = 0; i < n; i++) if (!same(&keys[i], &old[i])) { moved++; PROVE(i == who, "only the reported key's history advances"); }
    PROVE(moved <= 1, "at most one key's history advances per call"); PROVE(p <= 1, "at most one key is between press and release");
    for (int i = 0; i < n; i++) { PROVE(valid(&keys[i]), "every key's history stays a legal one"); PROVE(!(pending(&keys[i]) && !keys[i]._state.oldvalue && keys[i]._state.value), "a key waiting for its release is handled whenever it matches"); PROVE(!(keys[i]._state.oldvalue && !keys[i]._state.value), "a key going up is handled in the same call"); }
    if (e.event == KEY_NOTHING) return;
    PROVE(who >= 0, "every event carries the code of a key of the list"); if (who < 0) return;
    PROVE(e.event <= KEY_RELEASE, "no other events exist");
    keypad_key_t *k = &keys[who], *b = &old[who]; keypad_event_t was = b->_state.lastevent; int down = bits == k->bitvalue;
    switch (e.event) {
    case KEY_PRESS: PROVE(down && !b->_state.oldvalue, "press: only when a key goes from up to down"); break;
    case KEY_CLICK: PROVE(down && was == KEY_PRESS, "click: only after a press, while down"); break;
    case KEY_PRESSING: PROVE(down && was == KEY_CLICK, "pressing: only after a click, while down"); break;
    case KEY_LONGCLICK: PROVE(down && (was == KEY_PRESS || was == KEY_CLICK), "long click: only after a press or click, while down"); break;
    case KEY_LONGPRESS: PROVE(down && was == KEY_LONGCLICK, "long press: only after a long click, while down"); break;
    case KEY_RELEASE: PROVE(!down && pending(b), "release: only of an up key with a press not yet released"); break;
    default: break;
    }
    PROVE(k->_state.lastevent == (e.event == KEY_PRESSING || e.event == KEY_LONGPRESS ? was : e.event), "the reported event is recorded as the key's last event");
}
void C16_press(void) {   // a press is noticed at once unless another key has unfinished business
    any(); int q = gel_choose(n); gel_assume(bits == keys[q].bitvalue && !keys[q]._state.oldvalue);
    for (int i = 0; i < n; i++) if (i != q) gel_assume(!pending(&keys[i]) && keys[i].bitvalue != bits);
    keypad_update_t e = keypad_routine(keys, click, longclick, period, now, bits);
    PROVE(e.event == KEY_PRESS && e.code == keys[q].code, "a key that goes down is reported as pressed"); PROVE(keypad_get_key_state(&keys[q]) == 1, "a pressed key's state is 1");
    PROVE(keys[q]._state.oldvalue == 1 && keys[q]._state.lastevent == KEY_PRESS, "a pressed key is recorded as down");
}
void C16_reset(void) {
    any(); keypad_reset_keys(keys);
    for (int i = 0; i < n; i++) {
        PROVE(keys[i].bitvalue == old[i].bitvalue && keys[i].code == old[i].code, "a reset keeps bit map and code"); PROVE(valid(&keys[i]) && !pending(&keys[i]) && !keys[i]._state.oldvalue && keypad_get_key_state(&keys[i]) == 0, "after a reset every key is up and without history");
        gel_assume(bits != keys[i].bitvalue); }
    keypad_update_t e = keypad_routine(keys, click, longclick, period, now, bits);
    PROVE(e.event == KEY_NOTHING, "after a reset a key reports nothing before it is pressed again");
}
// lists longer than small counters reach
#define LONG 300
static keypad_key_t lk[LONG + 1];
void C16_long(void) {
    gel_loop_cap(2 * LONG); int k = LONG - 1 - gel_choose(2);
    for (int i = 0; i < LONG; i++) { keypad_key_t x = KEYPAD_KEY((unsigned long)i + 1, 1000 + i); lk[i] = x; lk[i]._state.ignore = 2; }
    keypad_key_t z = KEYPAD_NULL_KEY; lk[LONG] = z; keypad_reset_keys(lk); for (int i = 0; i < LONG; i++) if (lk[i]._state.value || lk[i]._state.oldvalue || lk[i]._state.lastevent != KEY_NOTHING) forbidden("every key of a long list is reset");
    keypad_update_t u = keypad_routine(lk, 10, 100, 5, 50, (unsigned long)k + 1); PROVE(u.event == KEY_PRESS && u.code == 1000 + k, "a key at the end of a long list is pressed");
    u = keypad_routine(lk, 10, 100, 5, 61, (unsigned long)k + 1); PROVE(u.event == KEY_CLICK && u.code == 1000 + k, "a key at the end of a long list is clicked");
    u = keypad_routine(lk, 10, 100, 5, 62, 0); u = keypad_routine(lk, 10, 100, 5, 73, 0); PROVE(u.event == KEY_RELEASE && u.code == 1000 + k, "a key at the end of a long list is released");
}
