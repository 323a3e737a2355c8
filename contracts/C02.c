#include "gel.h"
#include "gel/collections/circular_buffer.h"
// One side runs a library call; the other side is an interference callback that runs before every load of the
// index it owns (and after every store that gives it slots) and advances it by any legal amount.
typedef GEL_CBUF_TYPE el_t;
// GEL_BOUNDED: the same obligations for small storages and requests, when the code copies element by element
#ifdef GEL_BOUNDED
#define SIZE_() ((size_t)2 + gel_choose(2))
#define LEN_() ((unsigned)gel_choose(4))
#define CAP 24
#else
#define BIG (1u << (sizeof(unsigned) * 8 - 2))
static size_t size_(void) { size_t n = gel_u32("N"); gel_assume(n >= 2 && n < BIG); return n; }
static unsigned len_(void) { unsigned n = gel_u32("len"); gel_assume(n < BIG); return n; }
#define SIZE_() size_()
#define LEN_() len_()
#define CAP 8
#endif
#define ES sizeof(el_t)
static circular_buf_t c; static size_t N, H, Tl, n, q; static el_t *buf;
static size_t sh_head, sh_tail;      // what each index must be: only its owner moves it
static el_t expect; static int known;// value slot q must hold while it is occupied
static size_t acts, act_limit, eaten;
#ifndef ACT_LIMIT     // times the other side acts during one call (each time by any legal amount, at any of its accesses)
#define ACT_LIMIT 2
#endif
static size_t wrap(size_t x) { return x >= N ? x - N : x; }
static size_t dist(size_t from, size_t to) { return to >= from ? to - from : N + to - from; }
static size_t occ(void) { return dist(c.tail, c.head); }
static int q_in(size_t from, size_t count) { return dist(from, q) < count; }
static el_t any(const char *s) { return (el_t)gel_u64(s); }
static void mk(void) {
    N = SIZE_(); buf = gel_object(N * ES, ES, "storage");
    H = gel_u32("head"); Tl = gel_u32("tail"); gel_assume(H < N && Tl < N);
    c.buffer = buf; c.bufsize = N; c.head = H; c.tail = Tl; sh_head = H; sh_tail = Tl;
    n = dist(Tl, H); q = gel_u32("slot"); gel_assume(q < N); acts = 0; eaten = 0; act_limit = ACT_LIMIT;
    known = q_in(Tl, n); if (known) expect = buf[q];
    gel_loop_cap(CAP);
}
// ---- producer call, consumer interferes
static el_t *src; static size_t len, pub;
static void consumer_acts(void) {
    PROVE(c.tail == sh_tail, "the producer never writes the consumer's index");
    PROVE(c.buffer == buf && c.bufsize == N, "storage and size are never changed");
    if (acts >= act_limit) return;
    acts++;
    if (known && q_in(c.tail, occ())) PROVE(buf[q] == expect, "slots the consumer may read hold what was put");
    size_t j = gel_u32("consumed"); gel_assume(j <= occ());
    if (known && q_in(c.tail, j)) known = 0;
    eaten += j;
    c.tail = wrap(c.tail + j); sh_tail = c.tail;
}
static void head_published(void) {
    PROVE(c.head < N, "the published write position is valid");
    size_t d = dist(sh_head, c.head), freeb = N - 1 - dist(c.tail, sh_head);
    PROVE(d <= freeb, "the write position never passes the read position");
    PROVE(pub + d <= len, "no more elements are published than were put");
    if (q_in(sh_head, d)) { PROVE(buf[q] == src[pub + dist(sh_head, q)], "a slot is completely written before it is published"); known = 1; expect = buf[q]; }
    pub += d; sh_head = c.head;
}
static void finish_put(void) {
    gel_unhook();
    PROVE(c.tail == sh_tail && c.head == sh_head && c.buffer == buf && c.bufsize == N, "each index has moved only under its owner");
    if (known && q_in(c.tail, occ())) PROVE(buf[q] == expect, "slots the consumer may read hold what was put");
}
static void hook_put(void) { gel_readonly(src, 1); pub = 0; gel_hook_load(&c.tail, sizeof c.tail, consumer_acts); gel_hook_store(&c.tail, sizeof c.tail, consumer_acts); gel_hook_store(&c.head, sizeof c.head, head_published); }
void C02_putc(void) {
    mk(); len = 1; src = gel_object(ES, ES, "data"); el_t x = src[0]; hook_put();
    int r = circular_buf_putc(&c, x); finish_put();
    PROVE(r == 0 ? pub == 1 : pub == 0, "putc reports what it did");
    if (n < N - 1) PROVE(r == 0, "putc succeeds when there was room from the start");
}
static void puts_(void) {
    src = gel_object(len * ES, ES, "data"); hook_put();
    int r = circular_buf_puts(&c, src, len); finish_put();
    size_t room = N - 1 - n;
    PROVE(r >= 0 && (size_t)r == pub, "puts reports the number of elements transferred");
    PROVE(pub <= len && pub >= (len < room ? len : room), "puts transfers at least what fitted from the start");
    if (pub < len && eaten == 0) PROVE(occ() == N - 1, "puts stops early only when full");
}
void C02_puts_short(void) { mk(); len = (size_t)gel_choose(MAXLEN + 1); puts_(); }                                  // consumer may act at every access
void C02_puts_long(void) { mk(); len = LEN_(); act_limit = 1; puts_(); }   // any length, consumer acts once, anywhere
// ---- consumer call, producer interferes
static size_t x, taken; static int pubx, freed;   // x: the element followed, counted from the initial read position
static void producer_acts(void) {
    PROVE(c.head == sh_head, "the consumer never writes the producer's index");
    PROVE(c.buffer == buf && c.bufsize == N, "storage and size are never changed");
    if (acts >= act_limit) return;
    acts++;
    size_t j = gel_u32("produced"); gel_assume(j <= N - 1 - occ());
    if (!pubx && q_in(c.head, j)) { pubx = 1; expect = any("put"); buf[q] = expect; }
    c.head = wrap(c.head + j); sh_head = c.head;
}
static void tail_published(void) {
    PROVE(c.tail < N, "the published read position is valid");
    size_t d = dist(sh_tail, c.tail);
    PROVE(d <= dist(sh_tail, c.head), "the read position never passes the write position");
    taken += d; sh_tail = c.tail;
    if (pubx && !freed && dist(c.head, q) < N - 1 - occ()) { freed = 1; buf[q] = any("overwritten"); }     // the producer may write the slot at once
}
static void mk_get(void) {
    mk(); x = gel_u32("x"); gel_assume(x < N - 1); q = wrap(Tl + x); pubx = x < n; freed = 0; taken = 0; if (pubx) expect = buf[q];
    gel_hook_load(&c.head, sizeof c.head, producer_acts); gel_hook_store(&c.head, sizeof c.head, producer_acts); gel_hook_store(&c.tail, sizeof c.tail, tail_published);
}
static void finish_get(void) { gel_unhook(); PROVE(c.head == sh_head && c.tail == sh_tail && c.buffer == buf && c.bufsize == N, "each index has moved only under its owner"); if (pubx && !freed) PROVE(buf[q] == expect, "the consumer never changes stored elements"); }
void C02_getc(void) {
    mk_get(); el_t o = any("out"), o0 = o; int r = circular_buf_getc(&c, &o); finish_get();
    if (r == 0) { PROVE(taken == 1, "getc takes one element"); if (x == 0) PROVE(pubx && o == expect, "getc returns the oldest published element"); }
    else { PROVE(taken == 0 && o == o0 && n == 0, "getc fails only on a buffer that was empty, taking nothing"); }
}
static void gets_(int how) {   // 0 gets 1 peek 2 drop
    mk_get(); int l = (int)LEN_(); el_t *d = gel_object((size_t)l * ES, ES, "data");
    int r = how == 0 ? circular_buf_gets(&c, d, l) : how == 1 ? circular_buf_peek(&c, d, l) : circular_buf_drop(&c, l); finish_get();
    size_t m = (size_t)l < n ? (size_t)l : n;
    PROVE(r >= 0 && r <= l && (size_t)r >= m, "gets returns at least what was stored from the start");
    PROVE(how == 1 ? taken == 0 : taken == (size_t)r, "gets reports the number of elements transferred");
    if (how != 2 && x < (size_t)r) PROVE(pubx && d[x] == expect, "gets returns published elements in order, read before their slots are freed");
}
void C02_gets(void) { gets_(0); }
void C02_peek(void) { gets_(1); }
void C02_drop(void) { gets_(2); }
// ---- queries from either side
void C02_query_consumer(void) {
    mk_get(); size_t s = circular_buf_size(&c); int e = is_circular_buf_empty(&c); finish_get();
    PROVE(s >= n && s <= occ(), "size seen by the consumer is between the initial and the final occupancy");
    if (!e) PROVE(occ() > 0, "not empty stays true for the consumer");
}
void C02_query_producer(void) {
    mk(); len = 0; src = gel_object(0, ES, "data"); hook_put(); size_t s = circular_buf_size(&c); int f = is_circular_buf_full(&c); finish_put();
    PROVE(s <= n && s >= occ(), "size seen by the producer is between the final and the initial occupancy");
    if (!f) PROVE(occ() < N - 1, "not full stays true for the producer");
}
