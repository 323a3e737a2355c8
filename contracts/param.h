// Shared by the parameter contracts: one block per supported type.
#include "gel.h"
#include "gel/parameter/parameter.h"
#include <string.h>
#define S GEL_PARAMETER_MAX_SIZE
#if S >= 2
#define IF2(...) __VA_ARGS__
#else
#define IF2(...)
#endif
#if S >= 4
#define IF4(...) __VA_ARGS__
#else
#define IF4(...)
#endif
#if S >= 8
#define IF8(...) __VA_ARGS__
#else
#define IF8(...)
#endif
#define INT_TYPES(X) X(UINT8, uint8_t, u8, gel_u8) X(INT8, int8_t, i8, gel_u8) IF2(X(UINT16, uint16_t, u16, gel_u16) X(INT16, int16_t, i16, gel_u16)) \
    IF4(X(UINT32, uint32_t, u32, gel_u32) X(INT32, int32_t, i32, gel_u32)) IF8(X(UINT64, uint64_t, u64, gel_u64) X(INT64, int64_t, i64, gel_u64))
#define FLT_TYPES(X) IF4(X(FLOAT, float, f, gel_f32)) IF8(X(DOUBLE, double, d, gel_f64))
#define TYPES(X) INT_TYPES(X) FLT_TYPES(X)
enum { NTYPES = S >= 8 ? 10 : S >= 4 ? 7 : S >= 2 ? 4 : 2 };
static const parameter_type_t all_types[] = {
#define X(T, t, n, g) PARAMETER_TYPE_##T,
    TYPES(X)
#undef X
};
static inline size_t width(parameter_type_t t) {
    switch (t) {
#define X(T, t, n, g) case PARAMETER_TYPE_##T: return sizeof(t);
    TYPES(X)
#undef X
    }
    return 0;
}
static inline int same_bits(void *a, void *b, size_t n) { uint8_t *x = a, *y = b; int e = 1; for (size_t i = 0; i < n; i++) e &= x[i] == y[i]; return e; }
static inline int is_float(parameter_type_t t) { (void)t; IF4(if (t == PARAMETER_TYPE_FLOAT) return 1;) IF8(if (t == PARAMETER_TYPE_DOUBLE) return 1;) return 0; }
