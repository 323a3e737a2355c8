#include "param.h"
#define X(TT, T, n, g)                                                                                                                  \
    void C19_step_##TT(void) {                                                                                                          \
        T *v = gel_object(sizeof(T), 1, "value"), *lo = gel_object(sizeof(T), 1, "pmin"), *hi = gel_object(sizeof(T), 1, "pmax"), was, nv, want; gel_align(v, sizeof(T)); gel_align(lo, sizeof(T)); gel_align(hi, sizeof(T)); \
        gel_readonly(lo, 1); gel_readonly(hi, 1);                                                                                       \
        parameter_handle_t h; h.type = PARAMETER_TYPE_##TT; h.pointer = v; h.pmin = gel_choose(2) ? lo : 0; h.pmax = gel_choose(2) ? hi : 0;\
        h.min.n = (T)g("min"); h.max.n = (T)g("max"); h.step.n = (T)g("step"); h.defaultv.n = (T)g("default"); h.runtime = 0;           \
        T L = h.pmin ? *lo : h.min.n, H = h.pmax ? *hi : h.max.n; gel_assume(L <= H);                                                   \
        int mod = (int)gel_u32("times"); gel_assume(mod != 0); was = *v; gel_readonly(&h, 1);                                          \
        nv = was + h.step.n * (mod);                                                                                                    \
        want = nv >= L && nv <= H ? nv : mod > 0 ? L : H;                                                                               \
        PROVE(parameter_operator(&h, mod) == 0, "stepping succeeds");                                                                   \
        PROVE(*v >= L && *v <= H, #T ": stepping leaves a value within the effective limits");                                          \
        PROVE(same_bits(v, &want, sizeof(T)), #T ": the stepped value if within limits, else minimum stepping up and maximum stepping down"); \
    }
TYPES(X)
#undef X
void C19_null(void) { PROVE(parameter_operator(0, (int)gel_u32("times")) == -1, "stepping nothing fails"); }
