#include "param.h"
static char ud[1], ar[1]; static void refresh(struct _parameter_handle_t *h, void *a) { (void)h; (void)a; }
static int ptrs(parameter_handle_t *h, void *v, void *pmin, void *pmax, unsigned lvl, void (*rt)(struct _parameter_handle_t *, void *), void *arg) {
    return h->pointer == v && h->pmin == pmin && h->pmax == pmax && h->access_level == lvl && h->data == (void *)ud && h->runtime == rt && h->arg == arg;
}
#define FIELDS(TT, T, n, lo, hi, de, st) do { T l_ = (lo), h_ = (hi), d_ = (de), s_ = (st); PROVE(h.type == PARAMETER_TYPE_##TT, #TT ": the type is that of the variable"); \
        PROVE(same_bits(&h.min.n, &l_, sizeof(T)) && same_bits(&h.max.n, &h_, sizeof(T)), #TT ": minimum and maximum are the given values"); \
        PROVE(same_bits(&h.defaultv.n, &d_, sizeof(T)), #TT ": the default is the given value"); PROVE(same_bits(&h.step.n, &s_, sizeof(T)), #TT ": the step is the given value, or one"); } while (0)
#define X(TT, T, n, g)                                                                                                                  \
    static void macros_##TT(int k, T lo, T hi, T de, T st) {                                                                          \
        T v = 0, a = 0, b = 0; unsigned lvl = gel_u32("level"); parameter_handle_t h;                                                  \
        if (k == 0) { h = PARAMETER(&v, lo, hi, de, ud, lvl); st = 1; PROVE(ptrs(&h, &v, 0, 0, lvl, 0, 0), "PARAMETER: omitted parts are null, the others as given"); }\
        else if (k == 1) { h = PARAMETER_STEP(&v, lo, hi, de, st, ud, lvl); PROVE(ptrs(&h, &v, 0, 0, lvl, 0, 0), "PARAMETER_STEP: omitted parts are null, the others as given"); } \
        else if (k == 2) { h = PARAMETER_DLIMITS(&v, &a, &b, lo, hi, de, ud, lvl); st = 1; PROVE(ptrs(&h, &v, &a, &b, lvl, 0, 0), "PARAMETER_DLIMITS: omitted parts are null, the others as given"); } \
        else if (k == 3) { h = PARAMETER_FULL(&v, &a, &b, lo, hi, de, st, lvl, ud, refresh, ar); PROVE(ptrs(&h, &v, &a, &b, lvl, refresh, ar), "PARAMETER_FULL: everything as given"); } \
        else { h = PARAMETER_C99(PARAMETER_TYPE_##TT, &v, &a, &b, lo, hi, de, st, lvl, ud, refresh, ar); PROVE(ptrs(&h, &v, &a, &b, lvl, refresh, ar), "PARAMETER_C99: everything as given"); } \
        FIELDS(TT, T, n, lo, hi, de, st);                                                                                               \
    }                                                                                                                                   \
    void C23_typed_##TT(void) { macros_##TT(gel_choose(5), (T)g("min"), (T)g("max"), (T)g("default"), (T)g("step")); }
TYPES(X)
#undef X
// the same from expressions of a wider type whose value the variable's type can hold
#define X(TT, T, n, g)                                                                                                                  \
    void C23_wide_##TT(void) {                                                                                                         \
        T v = 0; long long lo = (long long)(T)g("min"), hi = (long long)(T)g("max"), de = (long long)(T)g("default"), st = (long long)(T)g("step"); parameter_handle_t h = PARAMETER_STEP(&v, lo, hi, de, st, ud, 0); \
        FIELDS(TT, T, n, (T)lo, (T)hi, (T)de, (T)st);                                                                                   \
    }
INT_TYPES(X)
#undef X
#define X(TT, T, n, g)                                                                                                                  \
    void C23_wide_##TT(void) {                                                                                                         \
        T v = 0; double lo = gel_f64("min"), hi = gel_f64("max"); int de = (int)gel_u32("default"); parameter_handle_t h = PARAMETER_STEP(&v, lo, hi, de, 0.5, ud, 0); \
        FIELDS(TT, T, n, (T)lo, (T)hi, (T)de, (T)0.5);                                                                                   \
    }
FLT_TYPES(X)
#undef X
