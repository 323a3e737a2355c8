#include "wl.h"
static size_t blocks, asked; static uint8_t m[256]; static int fail_at, err;
static int rd(size_t b, uint8_t *buf, size_t n) { (void)b; (void)buf; (void)n; forbidden("initialisation reads no data"); return 0; }
static int wr(size_t b, uint8_t k, uint8_t *buf, size_t n) { (void)b; (void)buf; (void)n; (void)k; forbidden("initialisation writes nothing"); return 0; }
static int rm(size_t b, uint8_t *out) {
    PROVE(b < blocks, "only existing blocks are read");
    PROVE(b == asked, "markers are read in block order from 0"); asked++;
    if ((int)b == fail_at) return err;
    *out = m[b]; return 0;
}
static wear_leveled_memory_t *w;
static void scan(size_t n) {
    gel_loop_cap(300);
    w = gel_object(sizeof *w, 8, "memory"); blocks = n; asked = 0;
    for (size_t i = 0; i < n; i++) m[i] = gel_u8("marker");
    INIT(w, rd, wr, rm, n);
    size_t e = 0; while (e + 1 < n && m[e + 1] == (uint8_t)(m[e] + 1)) e++;
    PROVE(w->last_active_block == e, "the active block is the last one of the run of consecutive markers from block 0");
    PROVE(w->last_marker == m[e], "with its marker");
    PROVE(w->read_block == rd && w->write_block == wr && w->read_marker == rm && w->blocks_in_page == n, "the configuration is kept");
}
void C35_scan(void) { fail_at = -1; scan(1 + gel_choose(BLOCKS)); }
#ifdef BLOCKS_MANY
void C35_scan_many(void) { fail_at = -1; scan(BLOCKS_MANY); }
#endif
// many blocks: the run of consecutive markers ends at a chosen place, with anything after it
void C35_scan_large(void) {
    static const uint8_t sizes[] = {100, 129, 255}, ends[] = {0, 1, 62, 63, 64, 98, 99, 126, 127, 128, 129, 200, 253, 254};
    fail_at = -1; gel_loop_cap(300); w = gel_object(sizeof *w, 8, "memory"); size_t n = blocks = sizes[gel_choose(3)], e = ends[gel_choose(14)]; asked = 0; if (e >= n) return;
    uint8_t m0 = gel_u8("first marker");
    for (size_t i = 0; i < n; i++) m[i] = i <= e ? (uint8_t)(m0 + i) : gel_u8("marker");
    if (e + 1 < n) gel_assume(m[e + 1] != (uint8_t)(m[e] + 1));
    INIT(w, rd, wr, rm, n);
    PROVE(w->last_active_block == e && w->last_marker == (uint8_t)(m0 + e), "the end of a long run of consecutive markers is found");
    PROVE(w->read_block == rd && w->write_block == wr && w->read_marker == rm && w->blocks_in_page == n, "the configuration is kept");
}
void C35_failure(void) {
    size_t n = 1 + gel_choose(BLOCKS); fail_at = gel_choose(BLOCKS); err = (int)gel_u32("err"); gel_assume(err != 0 && fail_at < (int)n);
    w = gel_object(sizeof *w, 8, "memory"); blocks = n; asked = 0;
    for (size_t i = 0; i < n; i++) m[i] = gel_u8("marker");
    int r = INIT(w, rd, wr, rm, n);
    size_t e = 0; while (e + 1 < n && m[e + 1] == (uint8_t)(m[e] + 1)) e++;
    int hit = fail_at <= (int)e + 1;   // the run is decided before the failing block otherwise
    PROVE(w->last_active_block < n, "a failed marker read never yields a block out of range");
    if (hit) { PROVE(w->last_active_block == 0, "a failed marker read starts from block 0"); if (__builtin_types_compatible_p(init_result_t, int)) PROVE(r == err, "and is reported"); }
    else PROVE(w->last_active_block == e && w->last_marker == m[e] && (!__builtin_types_compatible_p(init_result_t, int) || r == 0), "an unread block does not matter");
}
// restart: from a page written in order, some more writes, of which any may fail; a new initialisation finds the last completed one
static uint8_t store[8][2]; static uint8_t mk[8];
static int rd2(size_t b, uint8_t *buf, size_t n) { PROVE(b < blocks, "only existing blocks are read"); memcpy(buf, store[b], n); return 0; }
static int wr2(size_t b, uint8_t k, uint8_t *buf, size_t n) { PROVE(b < blocks, "only existing blocks are written"); if (gel_choose(2)) return -1; memcpy(store[b], buf, n); mk[b] = k; return 0; }
static int rm2(size_t b, uint8_t *out) { PROVE(b < blocks, "only existing blocks are read"); *out = mk[b]; return 0; }
static void restart(int fresh) {
    size_t n = blocks = 1 + gel_choose(BLOCKS); uint8_t m0 = gel_u8("first marker"); w = gel_object(sizeof *w, 8, "memory");
    size_t a = fresh ? 0 : gel_choose(BLOCKS); gel_assume(a < n);
    // blocks up to a hold this round's markers, the others the previous round's (or the erased value)
    for (size_t i = 0; i < n; i++) mk[i] = fresh ? m0 : (uint8_t)(i <= a ? m0 + i : m0 + i - n);
    for (size_t i = 0; i < n; i++) { store[i][0] = gel_u8("old"); store[i][1] = gel_u8("old"); }
    INIT(w, rd2, wr2, rm2, n);
    PROVE(w->last_active_block == a, "the last block written is found");
    uint8_t last[2] = {store[a][0], store[a][1]};
    for (int i = 0; i < 2; i++) {
        uint8_t d[2] = {gel_u8("new"), gel_u8("new")}; gel_assume(d[0] != last[0]);
        if (wearleveling_write(w, d, 2) == 0) { last[0] = d[0]; last[1] = d[1]; }
    }
    size_t b = w->last_active_block; uint8_t k = w->last_marker;
    wear_leveled_memory_t *v = gel_object(sizeof *v, 8, "memory after restart"); uint8_t got[2];
    INIT(v, rd2, wr2, rm2, n);
    PROVE(v->last_active_block == b && v->last_marker == k, "a restart finds the block and marker of the last completed write");
    wearleveling_read(v, got, 2);
    PROVE(got[0] == last[0] && got[1] == last[1], "and its data");
}
void C35_restart(void) { restart(0); }
void C35_restart_fresh(void) { restart(1); }
