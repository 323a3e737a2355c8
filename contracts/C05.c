#include "gel.h"
#include "gel/collections/listx.h"
typedef struct list_head L;
// An arbitrary interior position of an arbitrarily long list: the nodes around it may coincide (short lists).
static L a, b, c, d, e, n;      // a <-> b <-> c <-> d <-> e are consecutive; other links go to unknown nodes
static int untouched(const L *p, const L *next, const L *prev) { return p->next == next && p->prev == prev; }
#define RING(x, y) ((x)->next == (y) && (y)->prev == (x))
static L far1, far2;
static void seg(void) {
    b.next = &c; c.prev = &b; c.next = &d; d.prev = &c; d.next = &e; e.prev = &d; b.prev = &a; a.next = &b;
    a.prev = &far1; e.next = &far2; n.next = &far1; n.prev = &far2;      // a new entry may hold stale links
}
void C05_init(void) { n.next = &a; n.prev = 0; INIT_LIST_HEAD(&n); PROVE(RING(&n, &n), "a new list is its own ring"); PROVE(list_empty(&n), "a new list is empty"); PROVE(!list_next(&n) && !list_prev(&n), "an empty list has no next or previous entry"); }
void C05_static_init(void) { LIST_HEAD(l); PROVE(RING(&l, &l) && list_empty(&l), "a statically defined list is an empty ring"); }
void C05_add_interior(void) {
    seg(); list_add(&n, &c);
    PROVE(RING(&c, &n) && RING(&n, &d), "add inserts right after the given entry");
    PROVE(RING(&b, &c) && RING(&d, &e) && RING(&a, &b) && a.prev == &far1 && e.next == &far2, "add changes only the neighbours");
}
void C05_add_tail_interior(void) {
    seg(); list_add_tail(&n, &c);
    PROVE(RING(&b, &n) && RING(&n, &c), "tail add inserts right before the given entry");
    PROVE(RING(&c, &d) && RING(&d, &e) && RING(&a, &b) && a.prev == &far1 && e.next == &far2, "tail add changes only the neighbours");
}
void C05_del_interior(void) {
    seg(); list_del(&c);
    PROVE(RING(&b, &d), "removal joins the neighbours");
    PROVE(RING(&a, &b) && RING(&d, &e) && a.prev == &far1 && e.next == &far2, "removal changes only the neighbours");
}
void C05_low_level(void) {
    seg(); __list_add(&n, &b, &c); PROVE(RING(&b, &n) && RING(&n, &c) && RING(&a, &b) && RING(&c, &d), "insertion between two neighbours");
    __list_del(&b, &d); PROVE(RING(&b, &d) && RING(&a, &b) && RING(&d, &e), "removal of everything between two nodes");
}
// whole rings of length 0..4
typedef struct { int x; L link; char y; } mid_t; typedef struct { L link; long x; } first_t; typedef struct { char s[5]; long x; L link; } last_t;
#define WHOLE(T)                                                                                                      \
    static T it_##T[5]; static L h_##T;                                                                               \
    static int build_##T(int *ord) {                                                                                  \
        int m = gel_choose(5); INIT_LIST_HEAD(&h_##T); int lo = 0, hi = 0, tmp[10]; lo = hi = 5;                       \
        for (int i = 0; i < m; i++) { it_##T[i].link.next = &far1; it_##T[i].link.prev = 0;                            \
            if (gel_choose(2)) { list_add(&it_##T[i].link, &h_##T); tmp[--lo] = i; } else { list_add_tail(&it_##T[i].link, &h_##T); tmp[hi++] = i; } } \
        for (int i = 0; i < m; i++) ord[i] = tmp[lo + i];                                                             \
        return m; }                                                                                                   \
    static void walk_##T(int *ord, int m) {                                                                           \
        int i = 0; L *p; T *q;                                                                                        \
        list_for_each(p, &h_##T) { PROVE(i < m && p == &it_##T[ord[i]].link, "forward traversal visits each entry once in order"); PROVE(container_of(p, T, link) == &it_##T[ord[i]], "the enclosing structure is recovered"); PROVE(RING(p, p->next) && RING(p->prev, p), "links are a ring"); PROVE(list_is_last(p, &h_##T) == (i == m - 1), "is-last is exact"); PROVE(list_next(p) == p->next && list_prev(p) == p->prev, "next and previous follow the links"); i++; } PROVE(i == m, "forward traversal reaches every entry"); \
        list_for_each_prev(p, &h_##T) { i--; PROVE(i >= 0 && p == &it_##T[ord[i]].link, "backward traversal visits each entry once in order"); } PROVE(i == 0, "backward traversal reaches every entry"); \
        list_for_each_entry(q, &h_##T, link) { PROVE(i < m && q == &it_##T[ord[i]], "forward entry traversal visits each structure once in order"); i++; } PROVE(i == m, "forward entry traversal reaches every structure"); \
        list_for_each_entry_reverse(q, &h_##T, link) { i--; PROVE(i >= 0 && q == &it_##T[ord[i]], "backward entry traversal visits each structure once in order"); } PROVE(i == 0, "backward entry traversal reaches every structure"); \
        PROVE(list_empty(&h_##T) == (m == 0), "empty is exact");                                                      \
        PROVE(m ? list_next(&h_##T) == &it_##T[ord[0]].link && list_prev(&h_##T) == &it_##T[ord[m - 1]].link : !list_next(&h_##T) && !list_prev(&h_##T), "the head's next and previous are the ends, or none"); } \
    void C05_whole_##T(void) {                                                                                        \
        int ord[5]; int m = build_##T(ord); walk_##T(ord, m);                                                         \
        if (m) { int k = gel_choose(m); list_del(&it_##T[ord[k]].link); for (int i = k; i + 1 < m; i++) ord[i] = ord[i + 1]; walk_##T(ord, m - 1); } }
WHOLE(mid_t) WHOLE(first_t) WHOLE(last_t)
// rings longer than small counters reach
#define LONG 300
static mid_t li[LONG];
void C05_long(void) {
    gel_loop_cap(2 * LONG); int tail = gel_choose(2), i = 0, gone = -1; L h, *p; mid_t *q; INIT_LIST_HEAD(&h);
    for (i = 0; i < LONG; i++) { if (tail) list_add_tail(&li[i].link, &h); else list_add(&li[LONG - 1 - i].link, &h); }
    if (gel_choose(2)) { gone = LONG - 2; list_del(&li[gone].link); }
    i = 0; list_for_each(p, &h) { if (i == gone) i++; PROVE(p == &li[i].link, "forward traversal of a long ring"); i++; } PROVE(i == LONG, "reaches every entry of a long ring");
    list_for_each_prev(p, &h) { i--; if (i == gone) i--; PROVE(p == &li[i].link, "backward traversal of a long ring"); } PROVE(i == 0, "reaches every entry of a long ring");
    list_for_each_entry(q, &h, link) { if (i == gone) i++; PROVE(q == &li[i], "forward entry traversal of a long ring"); i++; } PROVE(i == LONG, "reaches every structure of a long ring");
    list_for_each_entry_reverse(q, &h, link) { i--; if (i == gone) i--; PROVE(q == &li[i], "backward entry traversal of a long ring"); } PROVE(i == 0, "reaches every structure of a long ring");
    PROVE(!list_empty(&h) && list_next(&h) == &li[0].link && list_prev(&h) == &li[LONG - 1].link, "the ends of a long ring");
}
