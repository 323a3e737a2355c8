#include "gel.h"
#include "gel/state_machine/state_machine.h"
#ifndef STATES
#define STATES 4
#endif
typedef struct { int a, b; } model_t;
typedef struct { uint32_t code; uint8_t arg; } event_t;
DEFINE_STATE_MACHINE(m, event_t, model_t)
DEFINE_STATE_MACHINE(i, int, void)
static int calls, who; static model_t *gotm; static event_t gote; static int result;
#define H(n) static int h##n(model_t *p, event_t e) { calls++; who = n; gotm = p; gote = e; p->a += 7; return result; }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7)
static int icalls, iwho, ievent; static void *imodel; static i_state_machine_t *ism; static unsigned istate; static i_event_manager_t *itab;
#define I(n) static int k##n(void *p, int e) { icalls++; iwho = n; imodel = p; ievent = e; PROVE(ism->state == istate && ism->managers == itab, "the state changes only after the handler returned"); return result; }
I(0) I(1) I(2) I(3) I(4) I(5) I(6) I(7)
void C29_send(void) {
    m_event_manager_t all[] = {h0, h1, h2, h3, h4, h5, h6, h7};
    m_event_manager_t *t = gel_object(STATES * sizeof *t, sizeof *t, "handlers");
    for (int i = 0; i < STATES; i++) t[i] = all[i];
    gel_readonly(t, 1);
    m_state_machine_t *sm = gel_object(sizeof *sm, 8, "machine"); unsigned s = gel_choose(STATES); sm->managers = t; sm->state = s;
    model_t *mo = gel_object(sizeof *mo, 4, "model"); int a = mo->a, b = mo->b; event_t e = {gel_u32("code"), gel_u8("arg")};
    result = (int)gel_u32("result"); gel_split(result < 0); calls = 0;
    int r = m_sm_send_event(sm, mo, e);
    PROVE(calls == 1 && who == (int)s, "exactly the current state's handler is called, once");
    PROVE(gotm == mo && gote.code == e.code && gote.arg == e.arg, "with the given model and event");
    PROVE(r == (result >= 0), "the result tells whether the event was handled");
    PROVE(sm->state == (result >= 0 ? (unsigned)result : s), "a non-negative result is the new state, a negative one leaves it");
    PROVE(sm->managers == t && mo->a == a + 7 && mo->b == b, "nothing else changes");
}
void C29_send_scalar(void) {
    i_event_manager_t all[] = {k0, k1, k2, k3, k4, k5, k6, k7};
    i_state_machine_t *sm = gel_object(sizeof *sm, 8, "machine"); unsigned s = gel_choose(STATES); sm->managers = all; sm->state = s;
    void *mo = gel_choose(2) ? gel_object(4, 1, "model") : 0; int e = (int)gel_u32("event");
    result = (int)gel_u32("result"); gel_split(result < 0); icalls = 0; ism = sm; istate = s; itab = all;
    int r = i_sm_send_event(sm, mo, e);
    PROVE(icalls == 1 && iwho == (int)s && imodel == mo && ievent == e && r == (result >= 0) && sm->state == (result >= 0 ? (unsigned)result : s), "the current state's handler is called once with the model and event given");
}
// two events in a row: the second goes to the state the first one asked for
void C29_sequence(void) {
    m_event_manager_t all[] = {h0, h1, h2, h3, h4, h5, h6, h7};
    m_state_machine_t *sm = gel_object(sizeof *sm, 8, "machine"); unsigned s = gel_choose(STATES); sm->managers = all; sm->state = s;
    model_t *mo = gel_object(sizeof *mo, 4, "model"); event_t e = {gel_u32("code"), gel_u8("arg")}; int n = gel_choose(STATES + 1) - 1;
    result = n; m_sm_send_event(sm, mo, e); result = -1; calls = 0; m_sm_send_event(sm, mo, e);
    PROVE(calls == 1 && who == (n < 0 ? (int)s : n), "events go to the state reached so far");
}
// tables larger than small counters reach
static m_event_manager_t many[300];
void C29_large(void) {
    gel_loop_cap(400); static const int at[] = {8, 63, 64, 127, 128, 255, 256, 299}; int s = at[gel_choose(8)], n = at[gel_choose(8)];
    for (int i = 0; i < 300; i++) many[i] = h7;
    many[s] = h1; m_state_machine_t *sm = gel_object(sizeof *sm, 8, "machine"); sm->managers = many; sm->state = (unsigned)s;
    model_t *mo = gel_object(sizeof *mo, 4, "model"); event_t e = {gel_u32("code"), gel_u8("arg")}; result = n; calls = 0;
    PROVE(m_sm_send_event(sm, mo, e) == 1 && calls == 1 && who == 1 && sm->state == (unsigned)n && sm->managers == many, "a state of a large table");
    many[s] = h7; many[n] = h2; result = -1; PROVE(m_sm_send_event(sm, mo, e) == 0 && calls == 2 && who == 2 && sm->state == (unsigned)n, "and the state it leads to");
}
