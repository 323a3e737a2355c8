#include "gel.h"
#include "gel/collections/queue.h"
// Arbitrary 16-bit counters whose distance is at most the capacity (the representation invariant, shown to be
// established by init and kept by every operation), arbitrary contents, arbitrary observed position k.
typedef struct { uint32_t a; uint16_t b; uint8_t c; } item_t;
#define SZ(N, TYPE) QUEUE_DECLARATION(q##N##_##TYPE, TYPE, N) QUEUE_DEFINITION(q##N##_##TYPE, TYPE)
SZ(1, uint32_t) SZ(2, uint32_t) SZ(4, uint32_t) SZ(8, uint32_t) SZ(256, uint32_t) SZ(4, uint8_t) SZ(4, item_t)
#if __INT_WIDTH__ > 16     // larger than any object otherwise
SZ(32768, uint32_t)
#endif
#define OCC(q) ((uint16_t)((q)->write_idx - (q)->read_idx))
#define AT(q, N, k) ((q)->items[(uint16_t)((q)->read_idx + (k)) % (N)])
#define SPEC(N, TYPE, MK, EQ)                                                                                          \
    static struct q##N##_##TYPE *mk##N##_##TYPE(void) {                                                                \
        struct q##N##_##TYPE *q = gel_object(sizeof(struct q##N##_##TYPE), sizeof(TYPE) == 1 ? 1 : 4, "queue");       \
        q->read_idx = gel_u16("read_idx"); q->write_idx = gel_u16("write_idx"); gel_assume(OCC(q) <= N); return q;     \
    }                                                                                                                  \
    void C03_init_##N##_##TYPE(void) {                                                                                 \
        struct q##N##_##TYPE *q = mk##N##_##TYPE(); q##N##_##TYPE##_init(q);                                           \
        PROVE(OCC(q) == 0, "init gives an empty queue");                                                               \
        PROVE(q##N##_##TYPE##_is_empty(q) && !q##N##_##TYPE##_is_full(q) && q##N##_##TYPE##_count(q) == 0, "fresh queue reports empty"); \
        TYPE x; PROVE(q##N##_##TYPE##_dequeue(q, &x) != DEQUEUE_RESULT_SUCCESS, "fresh queue has nothing to dequeue"); \
    }                                                                                                                  \
    void C03_query_##N##_##TYPE(void) {                                                                                \
        struct q##N##_##TYPE *q = mk##N##_##TYPE(); uint16_t n = OCC(q), r = q->read_idx, w = q->write_idx;            \
        PROVE(q##N##_##TYPE##_count(q) == n, "count is the occupancy");                                                \
        PROVE((q##N##_##TYPE##_is_empty(q) != 0) == (n == 0), "is_empty is exact");                                    \
        PROVE((q##N##_##TYPE##_is_full(q) != 0) == (n == N), "is_full is exact");                                      \
        PROVE(q->read_idx == r && q->write_idx == w, "queries change nothing");                                        \
    }                                                                                                                  \
    void C03_enqueue_##N##_##TYPE(void) {                                                                              \
        struct q##N##_##TYPE *q = mk##N##_##TYPE(); uint16_t n = OCC(q), r = q->read_idx, w = q->write_idx;            \
        uint16_t k = gel_u16("k"); TYPE x = MK("new"), y; if (n > 0) { gel_assume(k < n); y = AT(q, N, k); }           \
        enqueue_result_t e = q##N##_##TYPE##_enqueue(q, &x);                                                           \
        if (n == N) { PROVE(e == ENQUEUE_RESULT_FULL, "enqueue on a full queue fails"); PROVE(q->read_idx == r && q->write_idx == w, "failed enqueue changes nothing"); } \
        else {                                                                                                         \
            PROVE(e == ENQUEUE_RESULT_SUCCESS, "enqueue succeeds when there is room");                                 \
            PROVE(OCC(q) == (uint16_t)(n + 1) && q->read_idx == r, "enqueue adds exactly one item");                   \
            TYPE z = AT(q, N, n); PROVE(EQ(z, x), "enqueue stores the item last, unchanged");                          \
        }                                                                                                              \
        if (n > 0) { TYPE z = AT(q, N, k); PROVE(EQ(z, y), "enqueue leaves stored items alone"); }                     \
    }                                                                                                                  \
    void C03_dequeue_##N##_##TYPE(void) {                                                                              \
        struct q##N##_##TYPE *q = mk##N##_##TYPE(); uint16_t n = OCC(q), w = q->write_idx, r = q->read_idx;            \
        uint16_t k = gel_u16("k"); TYPE x = MK("out"), x0 = x, y, f; if (n > 0) { gel_assume(k < n); y = AT(q, N, k); f = AT(q, N, 0); } \
        int how = gel_choose(3);                                                                                       \
        dequeue_result_t e = how == 0 ? q##N##_##TYPE##_dequeue(q, &x) : how == 1 ? q##N##_##TYPE##_dequeue(q, NULL) : q##N##_##TYPE##_drop(q); \
        if (n == 0) { PROVE(e == DEQUEUE_RESULT_EMPTY, "dequeue on an empty queue fails"); PROVE(EQ(x, x0), "failed dequeue leaves the output alone"); PROVE(q->read_idx == r && q->write_idx == w, "failed dequeue changes nothing"); } \
        else {                                                                                                         \
            PROVE(e == DEQUEUE_RESULT_SUCCESS, "dequeue succeeds when there is an item");                              \
            PROVE(OCC(q) == (uint16_t)(n - 1) && q->write_idx == w, "dequeue removes exactly one item");               \
            if (how == 0) PROVE(EQ(x, f), "dequeue returns the oldest item unchanged");                                \
            if (k > 0) { TYPE z = AT(q, N, k - 1); PROVE(EQ(z, y), "dequeue keeps the other items in order"); }        \
        }                                                                                                              \
    }
#define U32(n) gel_u32(n)
#define U8(n) gel_u8(n)
static item_t mk_item(void) { item_t i; memset(&i, 0, sizeof i); i.a = gel_u32("a"); i.b = gel_u16("b"); i.c = gel_u8("c"); return i; }
#define MKI(n) mk_item()
#define EQS(a, b) ((a) == (b))
#define EQI(p, q) ((p).a == (q).a && (p).b == (q).b && (p).c == (q).c)
SPEC(1, uint32_t, U32, EQS) SPEC(2, uint32_t, U32, EQS) SPEC(4, uint32_t, U32, EQS) SPEC(8, uint32_t, U32, EQS)
SPEC(256, uint32_t, U32, EQS) SPEC(4, uint8_t, U8, EQS) SPEC(4, item_t, MKI, EQI)
#if __INT_WIDTH__ > 16
SPEC(32768, uint32_t, U32, EQS)
#endif
