#include "gel.h"
#include "gel/serializer/serializer.h"
#define BYTE(v, i) ((uint8_t)((v) >> (8 * (i))))
// a window of W bytes inside a larger buffer whose other bytes must not change
#define GUARD 3
#define LANE_LE(i, W) (i)
#define LANE_BE(i, W) ((W) - 1 - (i))
#define SER(NAME, T, W, LANE)                                                                                        \
    void C07_ser_##NAME(void) {                                                                                      \
        uint8_t *b = gel_object(W + 2 * GUARD, 1, "buffer"), old[W + 2 * GUARD]; memcpy(old, b, sizeof old); T v = (T)gel_u64("value"); \
        PROVE(serialize_##NAME(b + GUARD, v) == W, "the number of bytes is returned");                                \
        for (int i = 0; i < W; i++) PROVE(b[GUARD + LANE(i, W)] == BYTE(v, i), "every byte has its place");            \
        for (int i = 0; i < GUARD; i++) PROVE(b[i] == old[i] && b[GUARD + W + i] == old[GUARD + W + i], "no other byte is touched"); \
    }
#define DES(NAME, T, U, W, LANE)                                                                                     \
    void C07_des_##NAME(void) {                                                                                      \
        uint8_t *b = gel_object(W, 1, "buffer"); gel_readonly(b, 1); U e = 0; for (int i = 0; i < W; i++) e |= (U)b[LANE(i, W)] << (8 * i); \
        T v[3]; v[0] = v[2] = (T)gel_u64("other"); T g = v[0]; v[1] = (T)gel_u64("old");                               \
        PROVE(deserialize_##NAME(&v[1], b) == W, "the number of bytes is returned when reading");                      \
        PROVE((U)v[1] == e && v[1] == (T)e, "the value is read back from its layout");                                 \
        PROVE(v[0] == g && v[2] == g, "reading changes only the value");                                               \
    }
#define RT(SN, DN, T, W)                                                                                             \
    void C07_rt_##DN(void) { uint8_t *b = gel_object(W, 1, "buffer"); T v = (T)gel_u64("value"), r = (T)gel_u64("old"); serialize_##SN(b, v); deserialize_##DN(&r, b); PROVE(r == v, "reading inverts writing"); }
SER(uint8, uint8_t, 1, LANE_LE) SER(uint16_le, uint16_t, 2, LANE_LE) SER(uint32_le, uint32_t, 4, LANE_LE) SER(uint64_le, uint64_t, 8, LANE_LE)
SER(uint16_be, uint16_t, 2, LANE_BE) SER(uint32_be, uint32_t, 4, LANE_BE) SER(uint64_be, uint64_t, 8, LANE_BE)
DES(uint8, uint8_t, uint8_t, 1, LANE_LE) DES(uint16_le, uint16_t, uint16_t, 2, LANE_LE) DES(uint32_le, uint32_t, uint32_t, 4, LANE_LE) DES(uint64_le, uint64_t, uint64_t, 8, LANE_LE)
DES(uint16_be, uint16_t, uint16_t, 2, LANE_BE) DES(uint32_be, uint32_t, uint32_t, 4, LANE_BE) DES(uint64_be, uint64_t, uint64_t, 8, LANE_BE)
DES(int8, int8_t, uint8_t, 1, LANE_LE) DES(int16_le, int16_t, uint16_t, 2, LANE_LE) DES(int32_le, int32_t, uint32_t, 4, LANE_LE) DES(int64_le, int64_t, uint64_t, 8, LANE_LE)
DES(int16_be, int16_t, uint16_t, 2, LANE_BE) DES(int32_be, int32_t, uint32_t, 4, LANE_BE) DES(int64_be, int64_t, uint64_t, 8, LANE_BE)
RT(uint8, uint8, uint8_t, 1) RT(uint8, int8, int8_t, 1)
RT(uint16_le, uint16_le, uint16_t, 2) RT(uint16_le, int16_le, int16_t, 2) RT(uint32_le, uint32_le, uint32_t, 4) RT(uint32_le, int32_le, int32_t, 4) RT(uint64_le, uint64_le, uint64_t, 8) RT(uint64_le, int64_le, int64_t, 8)
RT(uint16_be, uint16_be, uint16_t, 2) RT(uint16_be, int16_be, int16_t, 2) RT(uint32_be, uint32_be, uint32_t, 4) RT(uint32_be, int32_be, int32_t, 4) RT(uint64_be, uint64_be, uint64_t, 8) RT(uint64_be, int64_be, int64_t, 8)
void C07_macros(void) {
    uint8_t *b = gel_object(12, 1, "buffer"); uint8_t old[12]; memcpy(old, b, 12); uint64_t v = gel_u64("value"); int which = gel_choose(2); size_t s;
    if (which == 0) { s = PACK_UINT16_BE(b + 4, v); PROVE(s == 2 && b[4] == BYTE(v, 1) && b[5] == BYTE(v, 0), "16-bit packing has the big-endian layout"); for (int i = 0; i < 12; i++) if (i != 4 && i != 5) PROVE(b[i] == old[i], "packing touches only its bytes"); }
    else { s = PACK_UINT8(b + 4, v); PROVE(s == 1 && b[4] == BYTE(v, 0), "8-bit packing"); for (int i = 0; i < 12; i++) if (i != 4) PROVE(b[i] == old[i], "packing touches only its bytes"); }
    uint8_t o8; uint16_t o16; uint32_t o32; uint64_t o64; gel_readonly(b, 1);
    s = UNPACK_UINT8(o8, b); PROVE(s == 1 && o8 == b[0], "8-bit unpacking");
    s = UNPACK_UINT16_BE(o16, b + 1); PROVE(s == 2 && o16 == (uint16_t)(b[1] << 8 | b[2]), "16-bit unpacking");
    s = UNPACK_UINT32_BE(o32, b + 3); PROVE(s == 4 && o32 == ((uint32_t)b[3] << 24 | (uint32_t)b[4] << 16 | (uint32_t)b[5] << 8 | b[6]), "32-bit unpacking");
    s = UNPACK_UINT32_BE(o64, b + 3); PROVE(s == 4 && o64 == ((uint32_t)b[3] << 24 | (uint32_t)b[4] << 16 | (uint32_t)b[5] << 8 | b[6]), "unpacking into a wider variable does not sign-extend");
    int64_t w; s = UNPACK_UINT16_BE(w, b + 7); PROVE(s == 2 && w == (int64_t)((uint32_t)b[7] << 8 | b[8]), "unpacking into a wider signed variable stays non-negative");
}
void C07_names(void) {   // the caller's own variable names: tmp and size are the obvious ones
    uint8_t *b = gel_object(12, 1, "buffer"); uint16_t tmp = gel_u16("tmp"), t0 = tmp; uint32_t size = gel_u32("size"), s0 = size;
    PACK_UINT16_BE(b, tmp); PROVE(b[0] == BYTE(t0, 1) && b[1] == BYTE(t0, 0) && tmp == t0, "16-bit packing of a variable with any name");
    PACK_UINT8(b + 2, tmp); PROVE(b[2] == BYTE(t0, 0), "8-bit packing of a variable with any name");
    PACK_UINT16_BE(b + 3, size); PROVE(b[3] == BYTE(s0, 1) && b[4] == BYTE(s0, 0) && size == s0, "16-bit packing of a variable with any name");
    UNPACK_UINT16_BE(tmp, b + 5); PROVE(tmp == (uint16_t)(b[5] << 8 | b[6]), "16-bit unpacking into a variable with any name");
    UNPACK_UINT8(tmp, b + 5); PROVE(tmp == b[5], "8-bit unpacking into a variable with any name");
    UNPACK_UINT32_BE(size, b + 7); PROVE(size == ((uint32_t)b[7] << 24 | (uint32_t)b[8] << 16 | (uint32_t)b[9] << 8 | b[10]), "32-bit unpacking into a variable with any name");
    UNPACK_UINT16_BE(size, b + 5); PROVE(size == (uint16_t)(b[5] << 8 | b[6]), "16-bit unpacking into a variable with any name");
}
