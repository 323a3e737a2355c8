#include "gel.h"
#include <time.h>
#include "gel_conf.h"
#include "gel/collections/queue.h"
#include "gel/collections/stack.h"
#include "gel/collections/listx.h"
#include "gel/data_structures/struct_update.h"
#include "gel/data_structures/watcher.h"
#include "gel/debounce/debounce.h"
#include "gel/debounce/pulsecounter.h"
#include "gel/keypad/keypad.h"
#include "gel/parameter/parameter.h"
#include "gel/serializer/serializer.h"
#include "gel/timer/timecheck.h"
#include "gel/timer/timer.h"
// the macros of the public headers, given arguments that are whole expressions, arguments with an effect, and
// used where one statement or one expression fits
#define ONCE "every argument is evaluated exactly once"
static int n1, n2, n3, n4, n5, n6, n7;
static void zero(void) { n1 = n2 = n3 = n4 = n5 = n6 = n7 = 0; }
#define E(n, v) (n++, (v))
static uint8_t buf[16]; static unsigned long t1_, t2_;
static int flag(const char *l) { return gel_choose(2) + 0 * (l != 0); }
static void fill(void) { for (int i = 0; i < 16; i++) buf[i] = gel_u8("byte"); }
static uint8_t *cur; static uint8_t *next_(int k) { uint8_t *p = cur; cur += k; return p; }
// ---- serializer
void C41_pack(void) {
    fill(); uint16_t a = gel_u16("a"), b = gel_u16("b"); int c = flag("c"); zero();
    size_t r = PACK_UINT16_BE(E(n1, buf + 3), E(n2, a | b)); PROVE(r == 2 && n1 == 1 && n2 == 1, ONCE);
    PROVE(buf[3] == ((a | b) >> 8) && buf[4] == ((a | b) & 0xff), "PACK_UINT16_BE takes whole expressions");
    r = PACK_UINT16_BE(c ? buf : buf + 8, c ? a : b); uint8_t *at = c ? buf : buf + 8; uint16_t v = c ? a : b; PROVE(r == 2 && at[0] == v >> 8 && at[1] == (v & 0xff), "PACK_UINT16_BE takes conditional arguments");
    zero(); r = PACK_UINT8(E(n1, buf + 5), E(n2, c ? a : b)); PROVE(r == 1 && n1 == 1 && n2 == 1, ONCE); PROVE(buf[5] == (v & 0xff), "PACK_UINT8 takes whole expressions");
    cur = buf; r = PACK_UINT16_BE(next_(2), a) + PACK_UINT8(next_(1), b) + PACK_UINT16_BE(next_(2), a ^ b); PROVE(r == 5 && cur == buf + 5, "a moving buffer moves once per packing");
    PROVE(buf[0] == a >> 8 && buf[1] == (a & 0xff) && buf[2] == (b & 0xff) && buf[3] == (a ^ b) >> 8 && buf[4] == ((a ^ b) & 0xff), "successive packings follow each other");
}
void C41_unpack(void) {
    fill(); int c = flag("c"); uint16_t w[2] = {0, 0}; uint32_t d[2] = {0, 0}; uint8_t e[2] = {0, 0}; int i = 0; size_t r;
    r = UNPACK_UINT16_BE(w[i++], c ? buf : buf + 8); uint8_t *at = c ? buf : buf + 8; PROVE(r == 2 && i == 1 && w[1] == 0 && w[0] == ((at[0] << 8) | at[1]), "UNPACK_UINT16_BE takes whole expressions, once");
    i = 0; r = UNPACK_UINT32_BE(d[i++], buf + 1 + c); at = buf + 1 + c; PROVE(r == 4 && i == 1 && d[1] == 0 && d[0] == ((uint32_t)at[0] << 24 | (uint32_t)at[1] << 16 | (uint32_t)at[2] << 8 | at[3]), "UNPACK_UINT32_BE takes whole expressions, once");
    i = 0; r = UNPACK_UINT8(e[i++], c ? buf : buf + 3); PROVE(r == 1 && i == 1 && e[1] == 0 && e[0] == (c ? buf[0] : buf[3]), "UNPACK_UINT8 takes whole expressions, once");
    cur = buf; uint16_t x; uint32_t y; uint8_t z; r = UNPACK_UINT16_BE(x, next_(2)); r += UNPACK_UINT32_BE(y, next_(4)); r += UNPACK_UINT8(z, next_(1)); PROVE(r == 7 && cur == buf + 7, "a moving buffer moves once per unpacking");
    PROVE(x == (buf[0] << 8 | buf[1]) && y == ((uint32_t)buf[2] << 24 | (uint32_t)buf[3] << 16 | (uint32_t)buf[4] << 8 | buf[5]) && z == buf[6], "successive unpackings follow each other");
    struct { uint8_t m; uint32_t *p; } s = {0, d}; if (c) UNPACK_UINT8(s.m, buf); else UNPACK_UINT32_BE(*s.p, buf); PROVE(s.m == (c ? buf[0] : 0), "an unpacking is one statement");
    if (c) PACK_UINT8(buf, 1); else PACK_UINT16_BE(buf, 0x0203); PROVE(buf[0] == (c ? 1 : 2), "a packing is one statement");
}
// ---- time
void C41_time(void) {
    timestamp_t a = gel_u64("a"), b = gel_u64("b"), d = gel_u64("d"), one = 1; int c = flag("c"); zero();
    timestamp_t m = a & b, o = a | d, s = c ? a : b;
    PROVE(time_after(a & b, a | d) == (time_after(m, o) != 0), "time_after takes whole expressions"); PROVE(time_after_or_equal(a & b, a | d) == (time_after_or_equal(m, o) != 0), "time_after_or_equal takes whole expressions"); PROVE(time_before(a & b, a | d) == (time_before(m, o) != 0), "time_before takes whole expressions");
    PROVE(time_after(c ? a : b, d) == (time_after(s, d) != 0), "time_after takes conditional arguments"); PROVE(time_after_or_equal(d, c ? a : b) == (time_after_or_equal(d, s) != 0), "time_after_or_equal takes conditional arguments");
    PROVE(is_expired(a & b, a | d, c ? one : d) == is_loosely_expired(m, o, c ? one : d), "is_expired takes whole expressions");
    PROVE((!time_after(a, b)) == (time_after(a, b) == 0) && 1 - time_after(a, b) == (time_after(a, b) ? 0 : 1), "a comparison is one expression");
    int r = time_after(E(n1, a), E(n2, b)) + time_after_or_equal(E(n3, a), E(n4, b)) + time_before(E(n5, a), E(n6, b)); PROVE(r >= 0 && n1 == 1 && n2 == 1 && n3 == 1 && n4 == 1 && n5 == 1 && n6 == 1, ONCE);
    zero(); r = is_expired(E(n1, a), E(n2, b), E(n3, d)); PROVE(r <= 1 && n1 == 1 && n2 == 1 && n3 == 1, ONCE);
}
// ---- stopwatch and timer
static stopwatch_t mk_watch(void) { stopwatch_t w; w.starting_time = gel_u64("starting"); w.elapsed_time = gel_u64("elapsed"); w.total_time = gel_u64("total"); w.state = (STOPWATCH_STATE)gel_choose(3); return w; }
static int same_watch(stopwatch_t *a, stopwatch_t *b) { return a->starting_time == b->starting_time && a->elapsed_time == b->elapsed_time && a->total_time == b->total_time && a->state == b->state; }
void C41_stopwatch(void) {
    stopwatch_t w = mk_watch(), x = w, v = mk_watch(), y = v; unsigned long d = gel_u64("duration"), t = gel_u64("now"); int c = flag("c"), q = flag("q");
    if (c) stopwatch_setngo(&w, d, t); else q++;
    if (c) { stopwatch_set(&x, d); stopwatch_start(&x, t); } PROVE(same_watch(&w, &x), "set and go is one statement, done or left out as a whole");
    zero(); w = x; stopwatch_setngo(E(n1, q ? &w : &v), E(n2, c ? d : t), E(n3, c ? t : d)); PROVE(n1 == 1 && n2 == 1 && n3 == 1, ONCE);
    stopwatch_t *o = q ? &x : &y; stopwatch_set(o, c ? d : t); stopwatch_start(o, c ? t : d); PROVE(same_watch(&w, &x) && same_watch(&v, &y), "set and go takes whole expressions");
    for (int i = 0; i < 1; i++) stopwatch_setngo(&v, t + d, t); stopwatch_set(&y, t + d); stopwatch_start(&y, t); PROVE(same_watch(&v, &y), "set and go works as the body of a loop");
    gel_timer_t g = c ? GEL_TIMER_NULL : (gel_timer_t){.arg = &w}; PROVE((g.arg == 0) == (c != 0) && g.callback == 0 && g.autoreload == 0 && g.stopwatch.state == TIMER_STOPPED, "the null timer is one expression");
}
// ---- struct update
typedef struct { char pad; uint32_t x; uint16_t a[4]; struct { uint8_t u, v; } in; } obj_t;
static obj_t o1, o2; static obj_t mk_obj(void) { obj_t o; memset(&o, 0, sizeof(o)); o.x = gel_u32("x"); for (int i = 0; i < 4; i++) o.a[i] = gel_u16("a"); o.in.u = gel_u8("u"); o.in.v = gel_u8("v"); return o; }
void C41_update(void) {
    o1 = mk_obj(); o2 = o1; obj_t *p = &o1, arr[2]; arr[0] = o1; arr[1] = o1; uint32_t v = gel_u32("v"), m = gel_u32("m"); int c = flag("c"); zero();
    struct_update_t s = STRUCT_UPDATE(*p, x, v | m); struct_update_apply(&o1, s); PROVE(o1.x == (v | m), "STRUCT_UPDATE takes an object reached through a pointer"); struct_update_free(s);
    s = STRUCT_UPDATE(arr[c], x, E(n1, c ? v : m)); struct_update_apply(&o1, s); PROVE(n1 == 1, ONCE); PROVE(o1.x == (c ? v : m), "STRUCT_UPDATE takes whole expressions"); struct_update_free(s);
    struct_update_apply(&o1, s = STRUCT_UPDATE(o1, in.v, v)); PROVE(o1.in.v == (v & 0xff), "STRUCT_UPDATE is one expression"); struct_update_free(s);
    if (c) s = STRUCT_UPDATE(o1, in.u, 1); else s = STRUCT_UPDATE_ARRAY(o1, in, &o2.in, 1); struct_update_apply(&o1, s); PROVE(o1.in.u == (c ? 1 : o2.in.u), "an update is one statement"); struct_update_free(s);
    uint16_t w[6]; for (int i = 0; i < 6; i++) w[i] = gel_u16("w");
    struct_update_apply(&o1, s = STRUCT_UPDATE_ARRAY(*p, a, E(n2, w + 1 + c), E(n3, 1 + 1))); PROVE(n2 == 1 && n3 == 1, ONCE); PROVE(s.size == 4 && o1.a[0] == w[1 + c] && o1.a[1] == w[2 + c] && o1.a[2] == o2.a[2], "STRUCT_UPDATE_ARRAY takes whole expressions and is one expression"); struct_update_free(s);
    s = STRUCT_UPDATE_ARRAY(arr[0], a, c ? w : w + 2, c ? 4 : 3); struct_update_apply(&o1, s); PROVE(s.size == (c ? 8 : 6) && o1.a[0] == (c ? w[0] : w[2]), "STRUCT_UPDATE_ARRAY takes conditional arguments"); struct_update_free(s);
}
// ---- watcher
static void cb1(void *m, void *d) { (void)m; (void)d; } static void cb2(void *m, void *d) { (void)m; (void)d; }
void C41_watcher(void) {
    static uint16_t v[4]; static int dat[2]; int c = flag("c"); unsigned long d = gel_u64("delay"), e = gel_u64("more"); gel_assume(d < 1000 && e < 1000); zero();
    watcher_t w = WATCHER_DELAYED_ARRAY(E(n1, v + c), E(n2, 1 + c), E(n3, c ? cb1 : cb2), E(n4, dat + c), E(n5, d | e)); PROVE(n1 == 1 && n2 == 1 && n3 == 1 && n4 == 1 && n5 == 1, ONCE);
    PROVE(w.current == v + c && w.size == 2u * (1 + c) && w.cb == (c ? cb1 : cb2) && w.data == dat + c && w.delay == (d | e) && !w.moved, "WATCHER_DELAYED_ARRAY takes whole expressions");
    zero(); w = WATCHER_ARRAY(E(n1, c ? v : v + 1), E(n2, c ? 3 : 2), E(n3, cb1), E(n4, c ? dat : 0)); PROVE(n1 == 1 && n2 == 1 && n3 == 1 && n4 == 1, ONCE);
    PROVE(w.current == (c ? v : v + 1) && w.size == (c ? 6 : 4) && w.cb == cb1 && w.data == (c ? dat : 0) && w.delay == 0, "WATCHER_ARRAY takes whole expressions");
    w = WATCHER_ARRAY(v, 1, c ? cb1 : cb2, dat); PROVE(w.cb == (c ? cb1 : cb2), "WATCHER_ARRAY takes a conditional callback");
    w = WATCHER_ARRAY(v + c, 1 + c, c ? cb1 : cb2, c ? dat : 0); PROVE(w.current == v + c && w.size == 2u * (1 + c) && w.cb == (c ? cb1 : cb2) && w.data == (c ? dat : 0), "WATCHER_ARRAY without parentheses");
    w = WATCHER_ARRAY(c ? v : v + 1, c ? 2 : 3, cb1, dat + c); PROVE(w.current == (c ? v : v + 1) && w.size == (c ? 4 : 6) && w.data == dat + c, "WATCHER_ARRAY without parentheses");
    w = WATCHER_DELAYED_ARRAY(v + c, 1 + c, c ? cb1 : cb2, c ? dat : 0, d | e); PROVE(w.current == v + c && w.size == 2u * (1 + c) && w.cb == (c ? cb1 : cb2) && w.data == (c ? dat : 0) && w.delay == (d | e), "WATCHER_DELAYED_ARRAY without parentheses");
    w = WATCHER_DELAYED_ARRAY(c ? v : v + 1, c ? 2 : 3, cb1, dat + c, c ? d : e); PROVE(w.current == (c ? v : v + 1) && w.size == (c ? 4 : 6) && w.data == dat + c && w.delay == (c ? d : e), "WATCHER_DELAYED_ARRAY without parentheses");
    w = WATCHER(v + c, c ? cb1 : cb2, c ? dat : 0); PROVE(w.current == v + c && w.size == 2 && w.cb == (c ? cb1 : cb2) && w.data == (c ? dat : 0), "WATCHER without parentheses");
    w = WATCHER_DELAYED(c ? v : v + 1, c ? cb1 : cb2, dat + c, d | e); PROVE(w.current == (c ? v : v + 1) && w.size == 2 && w.cb == (c ? cb1 : cb2) && w.data == dat + c && w.delay == (d | e), "WATCHER_DELAYED without parentheses");
    zero(); w = c ? WATCHER(E(n1, v + 1), E(n2, cb2), E(n3, dat + 1)) : WATCHER_DELAYED(E(n1, v + 1), E(n2, cb2), E(n3, dat + 1), E(n4, d + e)); PROVE(n1 == 1 && n2 == 1 && n3 == 1 && n4 == !c, ONCE);
    PROVE(w.current == v + 1 && w.size == 2 && w.cb == cb2 && w.data == dat + 1 && w.delay == (c ? 0 : d + e), "WATCHER and WATCHER_DELAYED take whole expressions and are one expression");
    w = c ? WATCHER_NULL : WATCHER(v, 0, 0); PROVE((w.current == 0) == (c != 0), "the null watcher is one expression");
}
// ---- keypad
void C41_keypad(void) {
    unsigned long a = gel_u64("a"), b = gel_u64("b"); int c = flag("c"), k = (int)gel_u32("k"); zero();
    keypad_key_t r = KEYPAD_KEY(E(n1, a | b), E(n2, c ? k : 7)); PROVE(n1 == 1 && n2 == 1, ONCE); PROVE(r.bitvalue == (a | b) && r.code == (c ? k : 7), "KEYPAD_KEY takes whole expressions");
    keypad_key_t l[2] = {KEYPAD_KEY(c ? a : b, k), KEYPAD_NULL_KEY}; PROVE(l[0].bitvalue == (c ? a : b) && l[0].code == k && l[1].bitvalue == 0 && l[1].code == 0, "KEYPAD_KEY and KEYPAD_NULL_KEY initialise one element each");
    PROVE(sizeof(l) / sizeof(l[0]) == ARRAY_LENGTH(l) && 8 % ARRAY_LENGTH(l) == 0 && ARRAY_LENGTH(c ? l : l) * 2 >= 0, "ARRAY_LENGTH is one expression");
    PROVE(2 * PULSE_NUM == 2 * GEL_INPUTS && 64 / PULSE_NUM == 64 / GEL_INPUTS && 64 / NUM_INPUTS == 64 / GEL_INPUTS, "the numbers of inputs are one expression");
}
// ---- parameters
static char ud[2]; static void run1(struct _parameter_handle_t *h, void *a) { (void)h; (void)a; } static void run2(struct _parameter_handle_t *h, void *a) { (void)h; (void)a; }
/* quotients that come out differently when only the first operand is converted, for every type that can tell */
#define Q1 0x12345678901 / 0x1000000000
#define Q2 0x3a345678905 / 0x1000000000
#define Q3 0x23345678907 / 0x1000000000
#define Q4 0x18345678903 / 0x1000000000
#define PTR(T, TT, n)                                                                                                                                                   \
    static void param_##TT(void) {                                                                                                                                      \
        static T a[4], z; int c = gel_choose(2), k = gel_choose(3); uint8_t x = gel_u8("x"), y = gel_u8("y"), l = gel_u8("level"); gel_assume(x < 64 && y < 64 && l < 64); T *p; parameter_handle_t h; zero();    \
        if (k == 0) { h = PARAMETER(E(n1, a + 1 + c), E(n2, x & y), E(n3, x | y), E(n4, c ? x : y), E(n5, ud + c), E(n6, l | 1)); p = a + 1 + c; PROVE(h.step.n == 1, "the step is one"); } \
        else if (k == 1) { h = PARAMETER_STEP(E(n1, c ? a : &z), E(n2, x & y), E(n3, x | y), E(n4, c ? x : y), E(n7, c ? x : 3), E(n5, ud + c), E(n6, l | 1)); p = c ? a : &z; PROVE(n7 == 1, ONCE); PROVE(h.step.n == (T)(c ? x : 3), "the step may be a whole expression"); } \
        else { int m1 = 0, m2 = 0; h = PARAMETER_DLIMITS(E(n1, a + c), E(m1, a + 2), E(m2, c ? a : &z), E(n2, x & y), E(n3, x | y), E(n4, c ? x : y), E(n5, ud + c), E(n6, l | 1)); p = a + c; PROVE(m1 == 1 && m2 == 1, ONCE); PROVE(h.pmin == a + 2 && h.pmax == (c ? a : &z), "the limit pointers may be whole expressions"); } \
        PROVE(n1 == 1 && n2 == 1 && n3 == 1 && n4 == 1 && n5 == 1 && n6 == 1, ONCE);                                                                                    \
        PROVE(h.type == PARAMETER_TYPE_##TT && h.pointer == p, "the pointer may be a whole expression, and gives the type");                                             \
        PROVE(h.min.n == (T)(x & y) && h.max.n == (T)(x | y) && h.defaultv.n == (T)(c ? x : y) && h.data == (void *)(ud + c) && h.access_level == (l | 1u), "the limits, default, data and level may be whole expressions"); \
        /* the bare macros, whose arguments reach the body unprotected by an enclosing pair of parentheses */                                                            \
        h = PARAMETER(a + 1, x & y, x | y, c ? x : y, ud + c, l | 1); PROVE(h.type == PARAMETER_TYPE_##TT && h.pointer == a + 1, "PARAMETER: a sum as the pointer gives the element's type"); PROVE(h.min.n == (T)(x & y) && h.max.n == (T)(x | y) && h.defaultv.n == (T)(c ? x : y), "PARAMETER: limits and default without parentheses"); PROVE(h.data == (void *)(ud + c) && h.access_level == (l | 1u), "PARAMETER: data and level without parentheses"); \
        h = PARAMETER_STEP(c ? a : a + 2, x & y, x | y, c ? x : y, c ? x : y, ud + c, l | 1); PROVE(h.type == PARAMETER_TYPE_##TT && h.pointer == (c ? a : a + 2) && h.step.n == (T)(c ? x : y) && h.min.n == (T)(x & y), "PARAMETER_STEP without parentheses"); \
        h = PARAMETER_DLIMITS(&a[1] + c, c ? a : 0, a + 3, x ^ y, x | y, c ? x : y, ud, c ? l : 2); PROVE(h.type == PARAMETER_TYPE_##TT && h.pointer == a + 1 + c && h.pmin == (c ? a : 0) && h.pmax == a + 3 && h.min.n == (T)(x ^ y) && h.access_level == (c ? l : 2u), "PARAMETER_DLIMITS without parentheses"); \
        h = PARAMETER_FULL(a + c, a + 1, c ? &z : a, x & y, x | y, c ? x : y, x ^ y, l | 1, ud + c, c ? run1 : run2, c ? ud : ud + 1); PROVE(h.type == PARAMETER_TYPE_##TT && h.pointer == a + c && h.pmin == a + 1 && h.pmax == (c ? &z : a) && h.step.n == (T)(x ^ y) && h.max.n == (T)(x | y) && h.runtime == (c ? run1 : run2) && h.arg == (c ? ud : ud + 1), "PARAMETER_FULL without parentheses"); \
        h = PARAMETER_FULL(a, a, a, Q1, Q2, Q3, Q4, l, ud, run1, ud); PROVE(h.min.n == (T)(Q1) && h.max.n == (T)(Q2) && h.defaultv.n == (T)(Q3) && h.step.n == (T)(Q4), "PARAMETER_FULL: the whole quotient is converted"); \
        h = PARAMETER_STEP(a, Q1, Q2, Q3, Q4, ud, l); PROVE(h.min.n == (T)(Q1) && h.max.n == (T)(Q2) && h.defaultv.n == (T)(Q3) && h.step.n == (T)(Q4), "PARAMETER_STEP: the whole quotient is converted"); \
        h = PARAMETER_DLIMITS(a, a, a, Q1, Q2, Q3, ud, l); PROVE(h.min.n == (T)(Q1) && h.max.n == (T)(Q2) && h.defaultv.n == (T)(Q3), "PARAMETER_DLIMITS: the whole quotient is converted"); \
        h = PARAMETER(a, Q1, Q2, Q3, ud, l); PROVE(h.min.n == (T)(Q1) && h.max.n == (T)(Q2) && h.defaultv.n == (T)(Q3), "PARAMETER: the whole quotient is converted"); \
    }                                                                                                                                                                    \
    void C41_param_##TT(void) { param_##TT(); }
PTR(uint8_t, UINT8, u8) PTR(int8_t, INT8, i8) PTR(uint16_t, UINT16, u16) PTR(int16_t, INT16, i16) PTR(uint32_t, UINT32, u32) PTR(int32_t, INT32, i32) PTR(uint64_t, UINT64, u64) PTR(int64_t, INT64, i64) PTR(float, FLOAT, f) PTR(double, DOUBLE, d)
void C41_param_c99(void) {
    static uint8_t a[4], z; int c = gel_choose(2); uint8_t x = gel_u8("x"), y = gel_u8("y"), l = gel_u8("level"); zero();
    parameter_handle_t h = PARAMETER_C99(PARAMETER_TYPE_UINT8, E(n1, a + c), E(n2, a + 1), E(n3, c ? &z : a), E(n4, x & y), E(n5, x | y), E(n6, c ? x : y), E(n7, x ^ y), l | 1, ud + c, c ? run1 : run2, c ? ud : ud + 1);
    PROVE(n1 == 1 && n2 == 1 && n3 == 1 && n4 == 1 && n5 == 1 && n6 == 1 && n7 == 1, ONCE);
    PROVE(h.pointer == a + c && h.pmin == a + 1 && h.pmax == (c ? &z : a) && h.min.u8 == (x & y) && h.max.u8 == (x | y) && h.defaultv.u8 == (c ? x : y) && h.step.u8 == (x ^ y) && h.access_level == (l | 1u) && h.data == (void *)(ud + c) && h.runtime == (c ? run1 : run2) && h.arg == (c ? ud : ud + 1), "PARAMETER_C99 takes whole expressions");
    h = PARAMETER_C99(PARAMETER_TYPE_UINT8, a + c, c ? a : 0, a + 1 + c, x & y, x | y, c ? x : y, x ^ y, c ? l : 2, ud + c, c ? run1 : run2, c ? ud : 0); PROVE(h.pointer == a + c && h.pmin == (c ? a : 0) && h.pmax == a + 1 + c && h.min.u8 == (x & y) && h.max.u8 == (x | y) && h.defaultv.u8 == (c ? x : y) && h.step.u8 == (x ^ y) && h.access_level == (c ? l : 2u) && h.data == (void *)(ud + c) && h.runtime == (c ? run1 : run2) && h.arg == (c ? ud : 0), "PARAMETER_C99 without parentheses");
    parameter_handle_t v[2] = {PARAMETER(a, 0, 1, 0, ud, 0), PARAMETER(&z, x, y, 2, ud, 1)}; PROVE(v[1].pointer == &z && v[1].max.u8 == y && v[0].max.u8 == 1, "a descriptor is one expression");
}
// ---- lists and containers
typedef struct { int v; struct list_head l; } item_t;
void C41_list(void) {
    item_t it[2]; struct list_head h[2]; INIT_LIST_HEAD(&h[0]); INIT_LIST_HEAD(h + 1); int c = gel_choose(2), n = 0, s = 0; it[0].v = (int)gel_u32("v"); it[1].v = (int)gel_u32("v"); list_add_tail(&it[0].l, h + c); list_add_tail(&it[1].l, h + c);
    struct list_head *p; item_t *e; zero();
    PROVE(container_of(E(n1, &it[0].l), item_t, l) == it && n1 == 1, "container_of evaluates its pointer once"); PROVE(container_of(c ? &it[1].l : &it[0].l, item_t, l) == it + c && container_of((h + c)->next, item_t, l)->v == it[0].v, "container_of takes whole expressions");
    list_for_each(p, h + c) n++; PROVE(n == 2, "list_for_each takes a whole expression"); n = 0; list_for_each_prev(p, c ? h + 1 : h) n++; PROVE(n == 2, "list_for_each_prev takes a whole expression");
    n = 0; list_for_each_entry(e, h + c, l) { PROVE(e == it + n, "list_for_each_entry takes a whole expression"); n++; } PROVE(n == 2, "list_for_each_entry takes a whole expression");
    n = 0; list_for_each_entry_reverse(e, c ? h + 1 : h, l) { n++; PROVE(e == it + 2 - n, "list_for_each_entry_reverse takes a whole expression"); } PROVE(n == 2, "list_for_each_entry_reverse takes a whole expression");
    if (c) list_for_each(p, h) s++; else s = 5; PROVE(s == (c ? 0 : 5), "a loop is one statement"); if (c) list_for_each_entry(e, h, l) s++; else s = 6; PROVE(s == (c ? 0 : 6), "a loop over entries is one statement");
    struct list_head q[2] = {LIST_HEAD_INIT(q[0]), LIST_HEAD_INIT(*(q + 1))}; PROVE(q[1].next == q + 1 && q[1].prev == q + 1 && q[0].next == q, "LIST_HEAD_INIT takes whole expressions");
}
typedef struct { int a, b; } pair_t;
QUEUE_DECLARATION(qu, pair_t, 2 + 2)
QUEUE_DEFINITION(qu, pair_t)
STACK_DECLARATION(st, pair_t, 1 + 2)
STACK_DEFINITION(st, pair_t)
void C41_sizes(void) { PROVE(ARRAY_LENGTH(((struct qu *)0)->items) == 4 && ARRAY_LENGTH(((struct st *)0)->items) == 3, "the number of items may be a whole expression"); struct qu q; qu_init(&q); PROVE(qu_is_empty(&q) && !qu_is_full(&q), ""); }
