#include "gel.h"
#include "gel/collections/circular_buffer.h"
// Every size N >= 2 (below 2^30 elements), every position of head and tail, every contents, every request length.
typedef GEL_CBUF_TYPE el_t;
// GEL_BOUNDED: the same obligations for small storages and requests, when the code copies element by element
#define BIG (1u << (sizeof(unsigned) * 8 - 2))
#ifdef GEL_BOUNDED
#define SIZE_(s, lo) ((size_t)(lo) + gel_choose(6 - (lo)))
#define LEN_(s) ((unsigned)gel_choose(7))
#define CAP 24
#else
static size_t size_(const char *s, size_t lo) { size_t n = gel_u32(s); gel_assume(n >= lo && n < BIG); return n; }
static unsigned len_(const char *s) { unsigned n = gel_u32(s); gel_assume(n < BIG); return n; }
#define SIZE_(s, lo) size_(s, lo)
#define LEN_(s) len_(s)
#define CAP 4
#endif
#define ES sizeof(el_t)
static circular_buf_t c; static size_t N, H, Tl, n; static el_t *buf;
static size_t wrap(size_t x) { return x >= N ? x - N : x; }
static void mk(void) {
    N = SIZE_("N", 1); buf = gel_object(N * ES, ES, "storage");
    H = gel_u32("head"); Tl = gel_u32("tail"); gel_assume(H < N && Tl < N);
    c.buffer = buf; c.bufsize = N; c.head = H; c.tail = Tl;
    if (H >= Tl) n = H - Tl; else n = N + H - Tl;
    gel_loop_cap(CAP);
}
static el_t old(size_t k) { return buf[wrap(Tl + k)]; }          // k-th oldest element before the call
static size_t occ(void) { return c.head >= c.tail ? c.head - c.tail : N + c.head - c.tail; }
static el_t now(size_t k) { return buf[wrap(c.tail + k)]; }
static el_t any(const char *s) { return (el_t)gel_u64(s); }
static void sane(void) { PROVE(c.head < N && c.tail < N, "indices stay inside the storage"); PROVE(c.buffer == buf && c.bufsize == N, "storage and size are never changed"); }

void C01_query(void) {
    mk(); gel_readonly(buf, 1);
    PROVE(circular_buf_size(&c) == n, "size is the number of stored elements");
    PROVE((is_circular_buf_empty(&c) != 0) == (n == 0), "empty is exact");
    PROVE((is_circular_buf_full(&c) != 0) == (n == N - 1), "full is exact");
    PROVE(circular_buf_capacity(&c) == N - 1, "capacity is size - 1");
    PROVE(c.head == H && c.tail == Tl, "queries change nothing"); sane();
}
void C01_init(void) {
    size_t sz = gel_u32("size"); gel_assume(sz < BIG); el_t *b = gel_object(sz * ES, ES, "storage"); circular_buf_t o; memset(&o, 0, sizeof o);
    int r = circular_buf_init(&o, b, sz);
    if (sz == 0) PROVE(r != 0, "init rejects a zero size");
    else { PROVE(r == 0, "init accepts a non-empty storage"); PROVE(o.buffer == b && o.bufsize == sz && o.head == o.tail && o.head < sz, "init gives an empty buffer on the given storage"); PROVE(is_circular_buf_empty(&o), "a fresh buffer is empty"); if (sz >= 2) PROVE(circular_buf_size(&o) == 0 && !is_circular_buf_full(&o) && circular_buf_capacity(&o) == sz - 1, "a fresh buffer has size 0 and full capacity"); }
    PROVE(circular_buf_init(&o, NULL, gel_u32("size2")) != 0, "init rejects a null storage");
}
void C01_reset(void) {
    mk(); gel_readonly(buf, 1); circular_buf_reset(&c); sane();
    PROVE(c.head == c.tail && is_circular_buf_empty(&c) && circular_buf_size(&c) == 0, "reset empties the buffer");
}
void C01_putc(void) {
    mk(); el_t x = any("x"); size_t k = gel_u32("k"); el_t o = 0; if (k < n) o = old(k);
    int r = circular_buf_putc(&c, x); sane();
    if (n == N - 1) { PROVE(r != 0, "putc on a full buffer fails"); PROVE(c.head == H && c.tail == Tl, "failed putc changes nothing"); }
    else { PROVE(r == 0, "putc succeeds when there is room"); PROVE(occ() == n + 1 && c.tail == Tl, "putc adds one element"); PROVE(now(n) == x, "putc stores the element behind the others"); }
    if (k < n) PROVE(now(k) == o, "putc keeps the stored elements");
}
void C01_puts(void) {
    mk(); size_t len = LEN_("len"); el_t *d = gel_object(len * ES, ES, "data"); gel_readonly(d, 1);
    size_t k = gel_u32("k"); el_t o = 0; if (k < n) o = old(k);
    int r = circular_buf_puts(&c, d, len); sane();
    size_t room = N - 1 - n, w = len < room ? len : room;
    PROVE(r >= 0 && (size_t)r == w, "puts reports min(len, free)");
    PROVE(occ() == n + w && c.tail == Tl, "puts adds exactly the reported number");
    if (k < n) PROVE(now(k) == o, "puts keeps the stored elements");
    else if (k < n + w) PROVE(now(k) == d[k - n], "puts stores the elements in order behind the others");
}
void C01_getc(void) {
    mk(); gel_readonly(buf, 1); el_t x = any("out"), x0 = x; size_t k = gel_u32("k"); el_t o = 0, f = 0; if (k < n) { o = old(k); f = old(0); }
    int null = gel_choose(2);
    int r = circular_buf_getc(&c, null ? NULL : &x); sane();
    if (n == 0) { PROVE(r != 0, "getc on an empty buffer fails"); PROVE(c.head == H && c.tail == Tl && x == x0, "failed getc changes nothing"); }
    else { PROVE(r == 0, "getc succeeds when there is data"); PROVE(occ() == n - 1 && c.head == H, "getc removes one element");
        if (k < n) { if (!null) PROVE(x == f, "getc returns the oldest element"); if (k > 0) PROVE(now(k - 1) == o, "getc keeps the other elements in order"); } }
}
static void get(int how) {   // 0 gets, 1 peek, 2 drop, 3 gets to null
    mk(); gel_readonly(buf, 1); int len = (int)LEN_("len");
    el_t *d = gel_object(len * ES, ES, "data"); size_t k = gel_u32("k"); gel_assume(k < N + (size_t)len);
    el_t o = 0, dk = 0; if (k < n) o = old(k); if (k < (size_t)len) dk = d[k];
    int r = how == 0 ? circular_buf_gets(&c, d, len) : how == 1 ? circular_buf_peek(&c, d, len) : how == 2 ? circular_buf_drop(&c, len) : circular_buf_gets(&c, NULL, len);
    sane();
    size_t m = (size_t)len < n ? (size_t)len : n;
    PROVE(r >= 0 && (size_t)r == m, "gets, peek and drop report min(len, stored)");
    PROVE(c.head == H, "reading leaves the write position alone");
    if (how == 1) PROVE(c.tail == Tl, "peek consumes nothing"); else PROVE(occ() == n - m, "gets and drop remove exactly the reported number");
    if (how <= 1) { if (k < m) PROVE(d[k] == o, "gets and peek return the oldest elements in order"); else if (k < (size_t)len) PROVE(d[k] == dk, "gets and peek write no more than they report"); }
    if (how != 1 && k >= m && k < n) PROVE(now(k - m) == o, "gets and drop keep the remaining elements in order");
}
void C01_gets(void) { get(0); }
void C01_peek(void) { get(1); }
void C01_drop(void) { get(2); }
void C01_gets_null(void) { get(3); }
static void failed(int r) { PROVE(r < 0, "calls without a usable buffer fail"); }
void C01_null(void) {
    int e = gel_choose(2); circular_buf_t o; o.buffer = NULL; o.bufsize = gel_u32("N"); o.head = gel_u32("head"); o.tail = gel_u32("tail"); gel_assume(o.bufsize > 0 && o.head < o.bufsize && o.tail < o.bufsize);
    circular_buf_t s = o, *p = e ? &o : NULL; el_t x = any("x"), x0 = x, d[2]; d[0] = any("d0"); d[1] = any("d1"); el_t d0 = d[0];
    switch (gel_choose(7)) {
    case 0: failed(circular_buf_putc(p, x)); break;
    case 1: failed(circular_buf_puts(p, d, 2)); break;
    case 2: failed(circular_buf_getc(p, &x)); break;
    case 3: failed(circular_buf_gets(p, d, 2)); break;
    case 4: failed(circular_buf_peek(p, d, 2)); break;
    case 5: failed(circular_buf_drop(p, 2)); break;
    case 6: if (!e) { circular_buf_reset(p); PROVE(circular_buf_size(p) == 0 && circular_buf_capacity(p) == 0 && is_circular_buf_empty(p) && !is_circular_buf_full(p), "a null buffer reports empty"); } break;
    }
    PROVE(o.buffer == s.buffer && o.bufsize == s.bufsize && o.head == s.head && o.tail == s.tail && x == x0 && d[0] == d0, "failed calls change nothing");
}
