#include "gel.h"
#include "gel/data_structures/maybe.h"
typedef struct { uint32_t a; uint16_t b; uint8_t c; } rec; typedef char *ptr; typedef unsigned long ulong_;
#define EQ_S(x, y) ((x) == (y))
#define EQ_R(x, y) ((x).a == (y).a && (x).b == (y).b && (x).c == (y).c)
static char obj[4];
static rec any_rec(const char *n) { rec r; r.a = gel_u32(n); r.b = gel_u16(n); r.c = gel_u8(n); return r; }
#define SPEC(TYPE, ANY, EQ)                                                                                          \
    MAYBE_DECLARATION(TYPE) MAYBE_DEFINITION(TYPE)                                                                     \
    static int calls_##TYPE; static TYPE seen_##TYPE, result_##TYPE; static MAYBE(TYPE) bound_##TYPE;                   \
    static TYPE fn_##TYPE(TYPE x) { calls_##TYPE++; seen_##TYPE = x; return result_##TYPE; }                            \
    static MAYBE(TYPE) bn_##TYPE(TYPE x) { calls_##TYPE++; seen_##TYPE = x; return bound_##TYPE; }                      \
    static MAYBE(TYPE) any_maybe_##TYPE(const char *n) { MAYBE(TYPE) m; m.just = ANY(n); m.nothing = (int)gel_u32("nothing"); return m; } \
    void C09_make_##TYPE(void) {                                                                                       \
        TYPE v = ANY("value"); MAYBE(TYPE) m = maybe_##TYPE##_return(v); MAYBE(TYPE) n = maybe_##TYPE##_nothing(); MAYBE(TYPE) o = MAYBE_NOTHING; TYPE d = ANY("default"), e; \
        PROVE(maybe_##TYPE##_is_just(&m), "a value built from a value is present"); PROVE(EQ(m.just, v), "it carries exactly that value"); \
        PROVE(!maybe_##TYPE##_is_just(&n) && !maybe_##TYPE##_is_just(&o), "a value built as nothing is absent");         \
        e = maybe_##TYPE##_with_default(&m, d); PROVE(EQ(e, v), "the carried value wins over the default");               \
        e = maybe_##TYPE##_with_default(&n, d); PROVE(EQ(e, d), "an absent value gives the default");                     \
    }                                                                                                                  \
    void C09_use_##TYPE(void) {                                                                                        \
        MAYBE(TYPE) m = any_maybe_##TYPE("carried"), k = m; int p = !m.nothing; TYPE d = ANY("default"), e;               \
        PROVE((maybe_##TYPE##_is_just(&m) != 0) == p, "presence is reported");                                           \
        e = maybe_##TYPE##_with_default(&m, d); PROVE(p ? EQ(e, k.just) : EQ(e, d), "the default is used exactly when absent"); \
        PROVE(m.nothing == k.nothing && EQ(m.just, k.just), "queries change nothing");                                   \
        result_##TYPE = ANY("mapped"); bound_##TYPE = any_maybe_##TYPE("bound"); calls_##TYPE = 0;                        \
        if (gel_choose(2)) { MAYBE(TYPE) r = maybe_##TYPE##_map(m, fn_##TYPE); PROVE(calls_##TYPE == p, "the function is mapped exactly once if present and never if absent"); \
            PROVE(p ? maybe_##TYPE##_is_just(&r) && EQ(r.just, result_##TYPE) && EQ(seen_##TYPE, k.just) : !maybe_##TYPE##_is_just(&r), "mapping wraps the function's result"); } \
        else { MAYBE(TYPE) r = maybe_##TYPE##_bind(m, bn_##TYPE); PROVE(calls_##TYPE == p, "the function is bound exactly once if present and never if absent"); \
            if (p) { PROVE(EQ(seen_##TYPE, k.just), "the function gets the carried value"); PROVE(!r.nothing == !bound_##TYPE.nothing && (r.nothing || EQ(r.just, bound_##TYPE.just)), "binding returns the function's own result"); } \
            else PROVE(!maybe_##TYPE##_is_just(&r), "binding nothing gives nothing"); }                                  \
    }
static ptr any_ptr(const char *n) { (void)n; int k = gel_choose(3); return k == 2 ? NULL : &obj[k]; }
#define ANY8 gel_u8
#define ANYI (int)gel_u32
#define ANYL gel_u64
SPEC(uint8_t, ANY8, EQ_S) SPEC(int, ANYI, EQ_S) SPEC(ulong_, ANYL, EQ_S) SPEC(rec, any_rec, EQ_R) SPEC(ptr, any_ptr, EQ_S)
