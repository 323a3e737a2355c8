#include "param.h"
static char text[4], fmt[4]; static int calls; static uint64_t bits; static int kind; static char *to, *with;
int gel_model_sprintf(char *r, const char *f, uint64_t b, int k) { to = r; with = (char *)f; bits = b; kind = k; calls++; return 0; }
static parameter_handle_t any(parameter_type_t t, void *p) {
    parameter_handle_t h; memset(&h, 0, sizeof(h)); h.type = t; h.pointer = p; h.access_level = gel_u32("access"); h.runtime = 0; h.arg = fmt; h.pmin = h.pmax = 0; h.data = text; return h;
}
#define VIEWS(TT, T, n, g, LONG, IDX, KIND, BITS)                                                                                     \
    void C21_views_##TT(void) {                                                                                                       \
        T *v = gel_object(sizeof(T), sizeof(T), "value"); T was = *v; parameter_handle_t h = any(PARAMETER_TYPE_##TT, v); gel_readonly(v, 1); gel_readonly(&h, 1); \
        PROVE(parameter_to_long(&h) == (LONG), #TT ": the long view is the value with its sign");                                     \
        PROVE(parameter_to_index(&h) == (IDX), #TT ": the index view is the value with its sign");                                    \
        PROVE(!!parameter_to_bool(&h) == ((IDX) != 0), #TT ": the boolean view tells whether the index is not 0");                    \
        calls = 0; parameter_to_string_format(&h, text, fmt);                                                                         \
        PROVE(calls == 1 && to == text && with == fmt, #TT ": the text is formatted once, into the given buffer with the given format"); \
        PROVE(kind == (KIND) && bits == (BITS), #TT ": the formatted argument is the value, promoted as C does for its type");        \
    }
#define PROMOTED ((uint64_t)(sizeof(was) == 8 ? (uint64_t)was : sizeof(was) == 4 ? (uint32_t)was : (unsigned)was))
#define X(TT, T, n, g) VIEWS(TT, T, n, g, (long)was, (size_t)was, sizeof(T) == 8 ? 1 : 0, PROMOTED)
INT_TYPES(X)
#undef X
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
#define X(TT, T, n, g) VIEWS(TT, T, n, g, 0L, (size_t)0, 2, dbits((double)was))
FLT_TYPES(X)
#undef X
static int eqh(parameter_handle_t *a, parameter_handle_t *b) {
    return a->type == b->type && a->pmin == b->pmin && a->pmax == b->pmax && same_bits(&a->min, &b->min, S) && same_bits(&a->max, &b->max, S) && same_bits(&a->defaultv, &b->defaultv, S) && same_bits(&a->step, &b->step, S) &&
           a->access_level == b->access_level && a->data == b->data && a->runtime == b->runtime && a->arg == b->arg;
}
static void fill(parameter_handle_t *h) { uint64_t x[4] = {gel_u64("min"), gel_u64("max"), gel_u64("default"), gel_u64("step")}; memcpy(&h->min, &x[0], S); memcpy(&h->max, &x[1], S); memcpy(&h->defaultv, &x[2], S); memcpy(&h->step, &x[3], S); if (gel_choose(2)) { h->pmin = fmt; h->pmax = fmt + 1; } }
void C21_clone(void) {
    parameter_type_t t = all_types[gel_choose(NTYPES)]; size_t w = width(t); void *v = gel_object(w, w, "value"), *d = gel_object(w, w, "copy"); gel_readonly(v, 1);
    parameter_handle_t h = any(t, v), c; fill(&h); parameter_handle_t was = h; gel_readonly(&h, 1);
    parameter_clone(&c, &h, d);
    PROVE(eqh(&c, &was), "a clone keeps every descriptor field"); PROVE(c.pointer == d, "a clone uses the given storage"); PROVE(same_bits(d, v, w), "a clone starts with the source's value");
}
void C21_clone_buffer(void) {
    parameter_type_t t = all_types[gel_choose(NTYPES)]; size_t w = width(t); void *v = gel_object(w, w, "value"); uint8_t *d = gel_object(w, 1, "buffer"); gel_readonly(v, 1);
    parameter_handle_t h = any(t, v); fill(&h); parameter_handle_t was = h; gel_readonly(&h, 1);
    parameter_handle_t c = parameter_clone_with_buffer(&h, d);
    PROVE(eqh(&c, &was), "a clone into a buffer keeps every descriptor field"); PROVE(c.pointer == d, "a clone into a buffer uses the buffer"); PROVE(same_bits(d, v, w), "a clone into a buffer starts with the source's value");
}
void C21_copy(void) {
    parameter_type_t t = all_types[gel_choose(NTYPES)], t2 = all_types[gel_choose(NTYPES)]; size_t w = width(t), w2 = width(t2); void *v = gel_object(w, w, "value"); uint8_t *d = gel_object(w2, 1, "target"); gel_readonly(v, 1);
    if (t != t2) gel_readonly(d, 1);
    parameter_handle_t h = any(t, v), c = any(t2, d); fill(&h); gel_readonly(&h, 1); gel_readonly(&c, 1);
    int r = parameter_copy_value(&c, &h);
    PROVE(r == (t == t2 ? 0 : -1), "copying a value requires equal types"); if (t == t2) PROVE(same_bits(d, v, w), "copying takes exactly the bytes of the value");
}
void C21_null(void) {
    uint8_t a = gel_u8("value"), b = gel_u8("value"), b0 = b; parameter_handle_t h = any(PARAMETER_TYPE_UINT8, &a), c = any(PARAMETER_TYPE_UINT8, &b); gel_readonly(&a, 1); gel_readonly(&h, 1); gel_readonly(&c, 1); gel_readonly(&b, 1);
    PROVE(parameter_to_long(0) == 0 && parameter_to_index(0) == 0 && !parameter_to_bool(0), "a missing handle reads as 0"); calls = 0; parameter_to_string_format(0, text, fmt); PROVE(calls == 0, "a missing handle formats nothing");
    PROVE(parameter_copy_value(0, &h) == -1 && parameter_copy_value(&h, 0) == -1, "copying from or to a missing handle fails"); PROVE(parameter_get_total_values(0) == 0, "a missing handle has no values");
    parameter_clone(0, &h, &b); parameter_clone(&c, 0, &b); parameter_clone(&c, &h, 0); PROVE(b == b0, "cloning with a missing part does nothing");
    PROVE(parameter_get_user_data(&h) == (void *)text, "the user data is the stored one");
}
#define X(TT, T, n, g)                                                                                                                  \
    void C21_count_##TT(void) {                                                                                                       \
        T v = 0, lo = (T)g("lo"), hi = (T)g("hi"); parameter_handle_t h = any(PARAMETER_TYPE_##TT, &v); h.min.n = (T)g("min"); h.max.n = (T)g("max"); h.step.n = 1; h.defaultv.n = 0; \
        if (gel_choose(2)) h.pmin = &lo;                                                                                                \
        if (gel_choose(2)) h.pmax = &hi;                                                                                                \
        T L = h.pmin ? lo : h.min.n, H = h.pmax ? hi : h.max.n; gel_assume(L <= H); uint64_t d = (uint64_t)H - (uint64_t)L;             \
        gel_assume(d < SIZE_MAX); gel_assume(d < (sizeof(T) == 8 ? SIZE_MAX : sizeof(T) == 4 ? ((T)-1 < 0 ? INT32_MAX : UINT32_MAX) : UINT32_MAX));                           \
        PROVE(parameter_get_total_values(&h) == d + 1, #TT ": the number of values is maximum - minimum + 1");                          \
    }
INT_TYPES(X)
#undef X
