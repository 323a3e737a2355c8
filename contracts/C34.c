#include "wl.h"
static uint8_t *stored, *data; static size_t blocks, active, len; static uint8_t marker;
static int reads, writes, rerr, werr; static size_t rblock; static wear_leveled_memory_t *w;
static int rd(size_t b, uint8_t *buf, size_t n) {
    reads++; rblock = b;
    PROVE(n == len, "the active block is read with the caller's length");
    memcpy(buf, stored, n); return rerr;
}
static int wr(size_t b, uint8_t m, uint8_t *buf, size_t n) {
    writes++;
    PROVE(b == (active + 1 == blocks ? 0 : active + 1), "the write goes to the block after the active one");
    PROVE(m == (uint8_t)(marker + 1), "with the marker following the last one");
    PROVE(n == len && buf == data, "with the caller's data and length");
    return werr;
}
static int rm(size_t b, uint8_t *m) { forbidden("no marker is read while reading or writing"); (void)b; (void)m; return 0; }
static void any(void) {
    w = gel_object(sizeof *w, 8, "memory");
    blocks = gel_u64("blocks"); gel_assume(blocks >= 1 && blocks < 256); active = gel_u64("active"); gel_assume(active < blocks); marker = gel_u8("marker");
    w->read_block = rd; w->write_block = wr; w->read_marker = rm; w->blocks_in_page = blocks; w->last_active_block = active; w->last_marker = marker;
    reads = writes = 0;
}
static void data_of(size_t n) { len = n; stored = gel_object(n ? n : 1, 1, "stored"); data = gel_object(n ? n : 1, 1, "data"); gel_readonly(data, 1); gel_readonly(stored, 1); }
static int same(void) { return w->last_active_block == active && w->last_marker == marker; }
static void frame(void) { PROVE(w->read_block == rd && w->write_block == wr && w->read_marker == rm && w->blocks_in_page == blocks, "the configuration stays"); }
static void one(size_t n) {
    any(); data_of(n); rerr = gel_choose(2) ? (int)gel_u32("rerr") : 0; werr = gel_choose(2) ? (int)gel_u32("werr") : 0; gel_split(rerr == 0); gel_split(werr == 0);
    int equal = 1; for (size_t i = 0; i < n; i++) if (stored[i] != data[i]) { equal = 0; break; }
    int r = wearleveling_write(w, data, n);
    PROVE(reads == 1 && rblock == active, "the active block is compared");
    if (rerr) { PROVE(r == rerr && writes == 0 && same(), "a read error is returned, nothing is written and the position stays"); frame(); return; }
    if (equal) { PROVE(r == 0 && writes == 0 && same(), "equal content is not written again"); frame(); return; }
    PROVE(writes == 1, "a change is written exactly once");
    if (werr) PROVE(r == werr && same(), "a write error is returned and the position stays, so a retry goes to the same block");
    else PROVE(r == 0 && w->last_active_block == (active + 1 == blocks ? 0 : active + 1) && w->last_marker == (uint8_t)(marker + 1), "a successful write makes the next block the active one");
    frame();
}
void C34_write(void) { one(gel_choose(MAXLEN + 1)); }
void C34_write_long(void) { one(33); }
// long blocks that differ from the stored content in one byte, or not at all
void C34_write_300(void) {
    gel_loop_cap(400);
    any(); len = 300; stored = gel_object(300, 1, "stored"); data = gel_object(300, 1, "data"); rerr = 0; werr = gel_choose(2) ? (int)gel_u32("werr") : 0; gel_split(werr == 0);
    static const int at[] = {-1, 0, 1, 63, 64, 127, 128, 254, 255, 256, 257, 298, 299}; int c = gel_choose(13);
    static uint8_t base[300]; for (int i = 0; i < 300; i++) base[i] = gel_u8("content");
    memcpy(stored, base, 300); memcpy(data, base, 300);
    if (at[c] >= 0) { data[at[c]] = gel_u8("changed"); gel_assume(data[at[c]] != stored[at[c]]); }
    gel_readonly(data, 1); gel_readonly(stored, 1);
    int r = wearleveling_write(w, data, 300);
    PROVE(reads == 1 && rblock == active, "the active block is compared");
    if (at[c] < 0) { PROVE(r == 0 && writes == 0 && same(), "equal content is not written again"); frame(); return; }
    PROVE(writes == 1, "a change in one byte of a long block is written exactly once");
    PROVE(r == werr && (werr ? same() : w->last_active_block == (active + 1 == blocks ? 0 : active + 1) && w->last_marker == (uint8_t)(marker + 1)), "and makes the next block the active one, unless it fails");
    frame();
}
static uint8_t *target;
static int rda(size_t b, uint8_t *buf, size_t n) { reads++; rblock = b; PROVE(n == len && buf == target, "the caller's buffer and length are passed on, whatever the length"); return rerr; }
void C34_read_any(void) {
    any(); w->read_block = rda; len = gel_u64("length"); target = gel_object(4, 1, "buf"); rerr = (int)gel_u32("rerr");
    int r = wearleveling_read(w, target, len);
    PROVE(reads == 1 && rblock == active && r == rerr && writes == 0, "reading reads the active block once and returns its result");
    PROVE(same() && w->read_block == rda && w->write_block == wr && w->read_marker == rm && w->blocks_in_page == blocks, "and changes nothing");
}
void C34_read(void) {
    any(); data_of(5); rerr = (int)gel_u32("rerr"); uint8_t *buf = gel_object(5, 1, "buf"); size_t k = gel_u64("k"); gel_assume(k < 5);
    int r = wearleveling_read(w, buf, 5);
    PROVE(reads == 1 && rblock == active && r == rerr && writes == 0, "reading reads the active block and returns its result");
    PROVE(buf[k] == stored[k] && same(), "into the caller's buffer, and changes nothing"); frame();
}
