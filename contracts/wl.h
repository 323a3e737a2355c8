#include "gel.h"
#include "gel/wearleveling/wearleveling.h"
#ifndef MAXLEN
#define MAXLEN 4
#endif
#ifndef BLOCKS
#define BLOCKS 4
#endif
typedef __typeof__(wearleveling_init(0, 0, 0, 0, 0)) init_result_t;
typedef int (*init_fn)(wear_leveled_memory_t *, wl_read_block_t, wl_write_block_t, wl_read_marker_t, size_t);
// the result of initialisation where it has one
#define INIT(...) __builtin_choose_expr(__builtin_types_compatible_p(init_result_t, int), ((init_fn)wearleveling_init)(__VA_ARGS__), (wearleveling_init(__VA_ARGS__), 0))
