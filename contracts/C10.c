#include "gel.h"
#include "gel/data_structures/struct_update.h"
#define BOUND (sizeof(size_t) == 2 ? (size_t)1 << 14 : sizeof(size_t) > 4 ? (size_t)1 << (sizeof(size_t) * 8 - 24) : (size_t)1 << 30)
// any offset, any size, any target size that holds the region
static uint8_t *src, *dst; static size_t off, size, total;
static void mk(void) { off = gel_u64("offset"); size = gel_u64("size"); total = gel_u64("total"); gel_assume(size < BOUND && off < BOUND && total < 2 * BOUND && off + size <= total); src = gel_object(size, 1, "source"); dst = gel_object(total, 1, "target"); }
void C10_any_region(void) {
    mk(); size_t k = gel_u64("byte"); gel_assume(k < total); int in = k >= off && k < off + size;
    uint8_t old = dst[k], s = in ? src[k - off] : 0;
    gel_readonly(dst, 1); gel_readonly(src, 1); struct_update_t u = struct_update_from_data(off, src, size); gel_readonly(src, 0); gel_readonly(dst, 0);
    PROVE(u.offset == off && u.size == size, "offset and size are recorded");
    PROVE(!gel_same_ptr(u.data, src) && !gel_same_ptr(u.data, dst), "the data is a private copy");
    if (in) src[k - off] = gel_u8("reused source");
    struct_update_apply(dst, u);
    PROVE(dst[k] == (in ? s : old), "exactly the recorded bytes are written, nothing else");
    dst[k] = gel_u8("later change"); uint8_t late = dst[k]; struct_update_apply(dst, u);
    PROVE(dst[k] == (in ? s : late), "applying again writes the same bytes");
    uint8_t *other = gel_object(total, 1, "other target"); uint8_t oo = other[k]; struct_update_apply(other, u);
    PROVE(other[k] == (in ? s : oo), "applying to another target writes the same bytes");
    PROVE(!gel_freed(u.data), "the private copy lives until freed"); struct_update_free(u); PROVE(gel_freed(u.data), "freeing releases the private copy");
}
void C10_freed_once(void) {   // freeing releases the private copy: the copy is heap memory, and the source stays usable
    size = 4; uint8_t buf[4] = {1, 2, 3, 4}; struct_update_t a = struct_update_from_data(0, buf, 4), b = struct_update_from_data(0, buf, 4);
    struct_update_free(a); uint8_t t[4]; struct_update_apply(t, b); PROVE(t[0] == 1 && t[3] == 4, "records are independent"); struct_update_free(b);
}
typedef struct { char pad; uint32_t x; double y; struct { uint16_t u, v; } in; uint8_t arr[5]; int64_t z; float f; } obj_t;
static int eq(const obj_t *a, const obj_t *b, int skip) {
    int r = 1; r &= a->pad == b->pad; if (skip != 1) r &= a->x == b->x; if (skip != 3) r &= (a->in.u == b->in.u) & (a->in.v == b->in.v); if (skip != 4) for (int i = 0; i < 5; i++) r &= a->arr[i] == b->arr[i]; if (skip != 5) r &= a->z == b->z;
    return r & (memcmp(&a->y, &b->y, 8) == 0);
}
void C10_macros(void) {
    obj_t *o = gel_object(sizeof(obj_t), 1, "object"), k = *o; int w = gel_choose(6); struct_update_t u;
    if (w == 0) { uint32_t v = gel_u32("v"); u = STRUCT_UPDATE(k, x, v); v = 0; PROVE(u.offset == offsetof(obj_t, x) && u.size == 4, "field offset and size are recorded"); uint32_t e; memcpy(&e, u.data, 4); struct_update_apply(o, u); PROVE(o->x == e && eq(o, &k, 1), "the field update changes the field only"); }
    else if (w == 1) { uint8_t v = gel_u8("v"); u = STRUCT_UPDATE(k, z, v); PROVE(u.offset == offsetof(obj_t, z) && u.size == 8, "field offset and size are recorded"); struct_update_apply(o, u); PROVE(o->z == v && eq(o, &k, 5), "a narrower value is widened to the field"); }
    else if (w == 2) { uint16_t v = gel_u16("v"); u = STRUCT_UPDATE(k, in.v, v); PROVE(u.offset == offsetof(obj_t, in.v) && u.size == 2, "nested field offset and size are recorded"); struct_update_apply(o, u); PROVE(o->in.v == v && o->in.u == k.in.u && eq(o, &k, 3), "the nested field update changes it only"); }
    else if (w == 3) { uint8_t a[5]; for (int i = 0; i < 5; i++) a[i] = gel_u8("a"); int n = gel_choose(6); u = STRUCT_UPDATE_ARRAY(k, arr, a, n); PROVE(u.offset == offsetof(obj_t, arr) && u.size == (size_t)n, "array offset and size are recorded"); struct_update_apply(o, u); for (int i = 0; i < 5; i++) PROVE(o->arr[i] == (i < n ? a[i] : k.arr[i]), "the array update changes the given elements only"); PROVE(eq(o, &k, 4), "the array update changes the array only"); }
    else if (w == 4) { uint16_t _value = gel_u16("v"); u = STRUCT_UPDATE(k, in.v, _value); struct_update_apply(o, u); PROVE(o->in.v == _value && o->in.u == k.in.u && eq(o, &k, 3), "a value of any name"); }
    else { uint16_t a[2] = {gel_u16("a"), gel_u16("b")}; int one = 1; u = STRUCT_UPDATE_ARRAY(k, in, a, one + 1); PROVE(u.size == 4 && u.offset == offsetof(obj_t, in), "element size counts"); struct_update_apply(o, u); PROVE(o->in.u == a[0] && o->in.v == a[1] && eq(o, &k, 3), "the element update changes the elements only"); }
    struct_update_free(u);
}
