#include "gel.h"
#include "gel/crc/crc16-ccitt.h"
#include "gel/crc/crc32.h"
static uint16_t p16(uint16_t c, uint8_t x) { c ^= (uint16_t)(x << 8); for (int j = 0; j < 8; j++) c = (uint16_t)(c << 1) ^ (uint16_t)(0x1021 & -(c >> 15)); return c; }
static uint32_t p32(uint32_t c, uint8_t x) { c ^= (uint32_t)x << 24; for (int j = 0; j < 8; j++) c = (c << 1) ^ (0x04c11db7u & -(c >> 31)); return c; }
#ifndef MAXB
#define MAXB 17
#endif
#define LARGEB 129
static void any16(int n) {
    uint8_t *m = gel_object(n, 1, "message"); gel_readonly(m, 1); uint16_t c = gel_u16("init"), r = c;
    for (int i = 0; i < n; i++) r = p16(r, m[i]);
    PROVE(crc16_ccitt(m, n, c) == r, "crc16 is the remainder by 0x1021, most significant bit first");
}
static void any32(int n) {
    uint8_t *m = gel_object(n, 1, "message"); gel_readonly(m, 1); uint32_t c = gel_u32("init"), r = c;
    for (int i = 0; i < n; i++) r = p32(r, m[i]);
    PROVE(crc32(m, n, c) == r, "crc32 is the remainder by 0x04c11db7, most significant bit first");
}
void C06_crc16(void) { any16(gel_choose(MAXB)); }
void C06_crc32(void) { any32(gel_choose(MAXB)); }
void C06_crc16_large(void) { any16(MAXB + gel_choose(LARGEB - MAXB)); }
void C06_crc32_large(void) { any32(MAXB + gel_choose(LARGEB - MAXB)); }
// longer messages of a fixed, irregular content: every length up to 80, and around the widths of small counters
#define BIG (sizeof(size_t) > 2 ? 70000 : 30000)
#define T1(i) (uint8_t)((i) * 37u + ((i) >> 8) * 11u + ((i) >> 13) * 5u + 1),
#define T8(i) T1(i) T1(i + 1) T1(i + 2) T1(i + 3) T1(i + 4) T1(i + 5) T1(i + 6) T1(i + 7)
#define T64(i) T8(i) T8(i + 8) T8(i + 16) T8(i + 24) T8(i + 32) T8(i + 40) T8(i + 48) T8(i + 56)
#define T512(i) T64(i) T64(i + 64) T64(i + 128) T64(i + 192) T64(i + 256) T64(i + 320) T64(i + 384) T64(i + 448)
#define T4K(i) T512(i) T512(i + 512) T512(i + 1024) T512(i + 1536) T512(i + 2048) T512(i + 2560) T512(i + 3072) T512(i + 3584)
#if __INT_WIDTH__ > 16
#define BIG 70000
static const uint8_t text[] = {T4K(0u) T4K(4096u) T4K(8192u) T4K(12288u) T4K(16384u) T4K(20480u) T4K(24576u) T4K(28672u) T4K(32768u) T4K(36864u) T4K(40960u) T4K(45056u) T4K(49152u) T4K(53248u) T4K(57344u) T4K(61440u) T4K(65536u) T512(69632u)};
#else
#define BIG 30000
static const uint8_t text[] = {T4K(0ul) T4K(4096ul) T4K(8192ul) T4K(12288ul) T4K(16384ul) T4K(20480ul) T4K(24576ul) T4K(28672ul)};
#endif
#define LONG(W, F) void C06_long##W(void) { gel_loop_cap(sizeof(int) > 2 ? 80000 : 32000); int n = gel_choose(2) ? BIG : 300; uint##W##_t c = n == BIG ? 0x1d0f : 0xfedc, r = c; for (int i = 0; i < n; i++) r = p##W(r, text[i]); PROVE(F(text, n, c) == r, "checksum of a long message"); } \
    void C06_middle##W(void) { gel_loop_cap(300); int n = 9 + gel_choose(75), at = gel_choose(2); if (n > 80) n = n == 81 ? 127 : n == 82 ? 255 : n == 83 ? 256 : 257; uint##W##_t c = (uint##W##_t)~0u, r = c; for (int i = 0; i < n; i++) r = p##W(r, text[at + i]); PROVE(F(text + at, n, c) == r, "checksum of a message of middle length"); }
LONG(16, crc16_ccitt) LONG(32, crc32)
void C06_chunks(void) {
    uint8_t *m = gel_object(20, 1, "message"); int k = gel_choose(21); uint16_t c = gel_u16("init"); uint32_t d = gel_u32("init32");
    PROVE(crc16_ccitt(m + k, 20 - k, crc16_ccitt(m, k, c)) == crc16_ccitt(m, 20, c), "crc16 continues from the previous result");
    PROVE(crc32(m + k, 20 - k, crc32(m, k, d)) == crc32(m, 20, d), "crc32 continues from the previous result");
}
