int use(uint8_t *b, uint32_t v) { uint8_t x; uint16_t y; uint32_t z; int32_t s; uint64_t w = v; size_t n = PACK_UINT8(b, v) + PACK_UINT16_BE(b, v) + UNPACK_UINT8(x, b) + UNPACK_UINT16_BE(y, b) + UNPACK_UINT32_BE(z, b); return (int)(n + serialize_uint64_le(b, w) + deserialize_int32_be(&s, b) + x + y + z); }
