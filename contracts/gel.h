// Contract primitives understood by the abstract interpreter (engine/interp.cpp). A contract is never
// executed: its functions named C<nn>_* are analysis entry points, gel_* values are unconstrained
// abstract values, and gel_prove is an obligation on the abstract states that reach it.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
uint8_t  gel_u8(const char *name);
uint16_t gel_u16(const char *name);
uint32_t gel_u32(const char *name);
uint64_t gel_u64(const char *name);
float    gel_f32(const char *name);
double   gel_f64(const char *name);
void    *gel_object(size_t size, size_t granule, const char *name);  // unconstrained contents
void     gel_readonly(const void *p, int on);
void     gel_align(const void *p, size_t n);     // the object lies at a multiple of n (by default of its granule)
void     gel_assume(int c);
void     gel_prove(int c, const char *label);
int      gel_choose(int n);                       // one abstract state per value
void     gel_split(int c);                        // keep the outcomes apart
void     gel_loop_mode(int m);                    // 0 unroll, 1 join by key, 2 generalise
void     gel_loop_cap(int n);
void     gel_loop_hint(uint64_t a, uint64_t b);
void     gel_malloc_may_fail(int on);
void     gel_key(const void *p, size_t size, int bit);   // partitioning key (bit < 0: whole cell)
void     gel_key_clear(void);
void     gel_hook_load(const void *p, size_t size, void (*cb)(void));
void     gel_hook_store(const void *p, size_t size, void (*cb)(void));
void     gel_unhook(void);
int      gel_same_ptr(const void *a, const void *b);
int      gel_freed(const void *p);                // heap memory that has been freed
void     gel_must_stop(const char *label);         // from here every execution has to end in a failing assertion
void     gel_dump(uint64_t v);
void     gel_facts(void);
#define GEL_INPUTS ((int)sizeof(unsigned) * 8)   // one bit of an unsigned int for each input
#define GEL_INT_MAX (~0u >> 1)
#define GEL_HALF (~0ul / 2 + 1)                  // half the range of unsigned long
#define PROVE(c, l) gel_prove((c) != 0, l)
#define CHECK(c) gel_prove((c) != 0, __FILE_NAME__ ": " #c)
static inline void forbidden(const char *l) { gel_prove(0, l); }   // reaching it is the violation
