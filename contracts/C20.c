#include "param.h"
#define L 3
static parameter_handle_t hs[L], was[L]; static void *v[L]; static uint64_t before[L]; static int n, chosen;
static void refresh(struct _parameter_handle_t *h, void *a) { (void)h; (void)a; }
// list of n parameters: one of each type in turn, of any access level; the chosen one has variable limits at will
static void any(void) {
    n = 1 + gel_choose(L); chosen = gel_choose(n); int t0 = gel_choose(NTYPES), lim = gel_choose(3);
    for (int i = 0; i < n; i++) {
        parameter_handle_t *h = &hs[i]; parameter_type_t t = all_types[(t0 + 3 * (i - chosen) + 3 * NTYPES) % NTYPES]; size_t w = width(t);
        h->type = t; h->pointer = v[i] = gel_object(w, w, "value"); h->access_level = gel_u32("access"); h->runtime = i == chosen ? refresh : 0; h->arg = 0;
        h->pmin = i == chosen && (lim & 1) ? gel_object(w, w, "pmin") : 0; h->pmax = i == chosen && (lim & 2) ? gel_object(w, w, "pmax") : 0;
        if (h->pmin) gel_readonly(h->pmin, 1);
        if (h->pmax) gel_readonly(h->pmax, 1);
        switch (t) {
#define X(TT, T, n, g) case PARAMETER_TYPE_##TT: h->min.n = (T)g("min"); h->max.n = (T)g("max"); h->defaultv.n = (T)g("default"); h->step.n = (T)g("step"); break;
        TYPES(X)
#undef X
        }
        was[i] = *h; before[i] = 0; memcpy(&before[i], v[i], w);
    }
    gel_readonly(hs, 1);
}
// 1: the value lies within its limits, and nothing but a number does
static int inside(int i) {
    parameter_handle_t *h = &hs[i];
    switch (h->type) {
#define X(TT, T, n, g) case PARAMETER_TYPE_##TT: { T x, lo = h->pmin ? *(T *)h->pmin : h->min.n, hi = h->pmax ? *(T *)h->pmax : h->max.n; memcpy(&x, &before[i], sizeof(T)); return x >= lo && x <= hi; }
    TYPES(X)
#undef X
    }
    return 0;
}
void C20_check(void) {
    any(); int bad = 0;
    for (int i = 0; i < n; i++) {
        if (i == chosen) continue;
        gel_assume(inside(i));
    }
    int ok = inside(chosen); gel_split(ok); bad = !ok;
    PROVE(parameter_check_ranges(hs, (size_t)n) == bad, "the number of replaced parameters is reported");
    for (int i = 0; i < n; i++) PROVE(same_bits(v[i], i == chosen && !ok ? (void *)&was[i].defaultv : (void *)&before[i], width(hs[i].type)), "exactly the values outside their limits, or not a number, are replaced by their default");
}
void C20_all_bad(void) {
    any(); int bad = 0; gel_assume(n <= 2);
    for (int i = 0; i < n; i++) { int ok = inside(i); gel_split(ok); bad += !ok; before[i] = ok ? before[i] : 0; if (!ok) memcpy(&before[i], &was[i].defaultv, width(hs[i].type)); }
    PROVE(parameter_check_ranges(hs, (size_t)n) == bad, "the number of replaced parameters is reported");
    for (int i = 0; i < n; i++) PROVE(same_bits(v[i], &before[i], width(hs[i].type)), "each parameter of the list is judged by itself");
}
void C20_reset(void) {
    any(); parameter_reset_to_defaults(hs, (size_t)n);
    for (int i = 0; i < n; i++) PROVE(same_bits(v[i], &was[i].defaultv, width(hs[i].type)), "resetting stores the default into every parameter");
}
void C20_empty(void) { hs[0].runtime = refresh; gel_readonly(hs, 1); PROVE(parameter_check_ranges(hs, 0) == 0, "an empty list has nothing out of range"); parameter_reset_to_defaults(hs, 0); }
// lists longer than small counters reach
#define LONG 260
static parameter_handle_t lh[LONG]; static uint8_t lv[2];
void C20_long(void) {
    gel_loop_cap(2 * LONG); int all = 1;
    for (int i = 0; i < LONG; i++) { lh[i].pointer = &lv[all || i == LONG - 1]; lh[i].defaultv.u8 = 10; }   // limits of zero: a value of 10 stays out of range when replaced
    lv[1] = 10; PROVE(parameter_check_ranges(lh, LONG) == (all ? LONG : 1) && lv[0] == 0, "every parameter of a long list is checked and counted");
    lh[LONG - 1].pointer = &lv[0]; lh[LONG - 1].defaultv.u8 = 7; parameter_reset_to_defaults(lh, LONG); PROVE(lv[0] == 7 && (lv[1] == 10), "every parameter of a long list is reset");
}
