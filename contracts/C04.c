#include "gel.h"
#include "gel/collections/stack.h"
typedef struct { uint32_t a; uint16_t b; uint8_t c; } item_t;
#define SZ(N, TYPE) STACK_DECLARATION(s##N##_##TYPE, TYPE, N) STACK_DEFINITION(s##N##_##TYPE, TYPE)
SZ(1, uint32_t) SZ(2, uint32_t) SZ(5, uint32_t) SZ(8, uint32_t) SZ(40, uint32_t) SZ(3, uint8_t) SZ(4, item_t) SZ(1000, uint32_t)
STACK_DECLARATION(deep, uint16_t, 300) STACK_DEFINITION(deep, uint16_t)
#define SPEC0(N, TYPE, MK, EQ)                                                                                         \
    static struct s##N##_##TYPE *mk##N##_##TYPE(void) {                                                                \
        struct s##N##_##TYPE *s = gel_object(sizeof(struct s##N##_##TYPE), sizeof(TYPE) == 1 ? 1 : 4, "stack");       \
        s->idx = gel_u16("idx"); gel_assume(s->idx <= N); return s;                                                    \
    }                                                                                                                  \
    void C04_init_##N##_##TYPE(void) {                                                                                 \
        struct s##N##_##TYPE *s = mk##N##_##TYPE(); s##N##_##TYPE##_init(s);                                           \
        PROVE(s->idx == 0 && s##N##_##TYPE##_is_empty(s) && !s##N##_##TYPE##_is_full(s), "init gives an empty stack"); \
    }                                                                                                                  \
    void C04_query_##N##_##TYPE(void) {                                                                                \
        struct s##N##_##TYPE *s = mk##N##_##TYPE(); uint16_t n = s->idx;                                               \
        PROVE((s##N##_##TYPE##_is_empty(s) != 0) == (n == 0), "is_empty is exact");                                    \
        PROVE((s##N##_##TYPE##_is_full(s) != 0) == (n == N), "is_full is exact");                                      \
        PROVE(s->idx == n, "queries change nothing");                                                                  \
    }                                                                                                                  \
    void C04_push_##N##_##TYPE(void) {                                                                                 \
        struct s##N##_##TYPE *s = mk##N##_##TYPE(); uint16_t n = s->idx, k = gel_u16("k"); TYPE x = MK("new"), y;      \
        if (n > 0) { gel_assume(k < n); y = s->items[k]; }                                                             \
        push_result_t e = s##N##_##TYPE##_push(s, &x);                                                                 \
        if (n == N) { PROVE(e == PUSH_RESULT_FULL, "push on a full stack fails"); PROVE(s->idx == n, "failed push changes nothing"); } \
        else { PROVE(e == PUSH_RESULT_SUCCESS, "push succeeds when there is room"); PROVE(s->idx == n + 1, "push adds one item"); TYPE z = s->items[n]; PROVE(EQ(z, x), "push stores the item on top"); } \
        if (n > 0) { TYPE z = s->items[k]; PROVE(EQ(z, y), "push leaves stored items alone"); }                        \
    }                                                                                                                  \
    void C04_pop_##N##_##TYPE(void) {                                                                                  \
        struct s##N##_##TYPE *s = mk##N##_##TYPE(); uint16_t n = s->idx, k = gel_u16("k"); TYPE x = MK("out"), x0 = x, y, t; \
        if (n > 0) { gel_assume(k < n); y = s->items[k]; t = s->items[n - 1]; }                                        \
        int how = gel_choose(4);                                                                                       \
        pop_result_t e = how == 0 ? s##N##_##TYPE##_pop(s, &x) : how == 1 ? s##N##_##TYPE##_pop(s, NULL) : how == 2 ? s##N##_##TYPE##_peek(s, &x) : s##N##_##TYPE##_peek(s, NULL); \
        if (n == 0) { PROVE(e == POP_RESULT_EMPTY, "pop and peek on an empty stack fail"); PROVE(s->idx == 0, "failed pop or peek changes nothing"); PROVE(EQ(x, x0), "failed pop or peek leaves the output alone"); } \
        else {                                                                                                         \
            PROVE(e == POP_RESULT_SUCCESS, "pop and peek succeed when there is an item");                              \
            PROVE(s->idx == (how < 2 ? n - 1 : n), "pop removes one item, peek none");                                 \
            if (how == 0) PROVE(EQ(x, t), "pop returns the most recent item"); if (how == 2) PROVE(EQ(x, t), "peek returns the most recent item"); \
            if (how >= 2 || k < n - 1) { TYPE z = s->items[k]; PROVE(EQ(z, y), "pop and peek leave the other items alone"); } \
        }                                                                                                              \
    }
#define SPEC(N, TYPE, MK, EQ) SPEC0(N, TYPE, MK, EQ)                                                                   \
    void C04_dequeue_##N##_##TYPE(void) {                                                                              \
        struct s##N##_##TYPE *s = mk##N##_##TYPE(); uint16_t n = s->idx, k = gel_u16("k"); TYPE y;                     \
        if (n > 1) { gel_assume(k >= 1 && k < n); y = s->items[k]; }                                                   \
        s##N##_##TYPE##_dequeue(s);                                                                                    \
        if (n == 0) PROVE(s->idx == 0, "removal from the bottom of an empty stack does nothing");                      \
        else { PROVE(s->idx == n - 1, "removal from the bottom removes one item"); if (n > 1) { TYPE z = s->items[k - 1]; PROVE(EQ(z, y), "removal from the bottom keeps the others in order"); } } \
    }
#define U32(n) gel_u32(n)
#define U8(n) gel_u8(n)
static item_t mk_item(void) { item_t i; memset(&i, 0, sizeof i); i.a = gel_u32("a"); i.b = gel_u16("b"); i.c = gel_u8("c"); return i; }
#define MKI(n) mk_item()
#define EQS(a, b) ((a) == (b))
#define EQI(p, q) ((p).a == (q).a && (p).b == (q).b && (p).c == (q).c)
SPEC(1, uint32_t, U32, EQS) SPEC(2, uint32_t, U32, EQS) SPEC(5, uint32_t, U32, EQS) SPEC(8, uint32_t, U32, EQS)
SPEC(3, uint8_t, U8, EQS) SPEC(4, item_t, MKI, EQI) SPEC0(1000, uint32_t, U32, EQS)
// removal from the bottom of stacks deeper than 256 elements: each depth spelled out, every remaining element compared
static void deep(unsigned n) {
    gel_loop_cap(400);
    struct deep *s = gel_object(sizeof(struct deep), 2, "deep stack"); s->idx = n;
    uint16_t y[300];
    for (unsigned i = 1; i < n; i++) y[i] = s->items[i];
    deep_dequeue(s);
    PROVE(s->idx == n - 1, "removal from the bottom of a deep stack removes one item");
    for (unsigned i = 1; i < n; i++) { uint16_t z = s->items[i - 1]; PROVE(z == y[i], "removal from the bottom of a deep stack keeps the others in order"); }
}
void C04_deep_257(void) { deep(257); }
void C04_deep_300(void) { deep(300); }
