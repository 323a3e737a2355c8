// the exact-width types of the target (those of the host's C library take int to have 32 bits)
#pragma once
#define GEL_T(N) typedef __INT##N##_TYPE__ int##N##_t; typedef __UINT##N##_TYPE__ uint##N##_t; typedef __INT_LEAST##N##_TYPE__ int_least##N##_t; typedef __UINT_LEAST##N##_TYPE__ uint_least##N##_t; typedef __INT_FAST##N##_TYPE__ int_fast##N##_t; typedef __UINT_FAST##N##_TYPE__ uint_fast##N##_t;
GEL_T(8) GEL_T(16) GEL_T(32) GEL_T(64)
#undef GEL_T
typedef __INTPTR_TYPE__ intptr_t; typedef __UINTPTR_TYPE__ uintptr_t; typedef __INTMAX_TYPE__ intmax_t; typedef __UINTMAX_TYPE__ uintmax_t;
#define INT8_MAX __INT8_MAX__
#define INT8_MIN (-__INT8_MAX__ - 1)
#define UINT8_MAX __UINT8_MAX__
#define INT16_MAX __INT16_MAX__
#define INT16_MIN (-__INT16_MAX__ - 1)
#define UINT16_MAX __UINT16_MAX__
#define INT32_MAX __INT32_MAX__
#define INT32_MIN (-__INT32_MAX__ - 1)
#define UINT32_MAX __UINT32_MAX__
#define INT64_MAX __INT64_MAX__
#define INT64_MIN (-__INT64_MAX__ - 1)
#define UINT64_MAX __UINT64_MAX__
#define INTPTR_MAX __INTPTR_MAX__
#define INTPTR_MIN (-__INTPTR_MAX__ - 1)
#define UINTPTR_MAX __UINTPTR_MAX__
#define INTMAX_MAX __INTMAX_MAX__
#define INTMAX_MIN (-__INTMAX_MAX__ - 1)
#define UINTMAX_MAX __UINTMAX_MAX__
#define SIZE_MAX __SIZE_MAX__
#define PTRDIFF_MAX __PTRDIFF_MAX__
#define PTRDIFF_MIN (-__PTRDIFF_MAX__ - 1)
#define INT8_C(c) c
#define INT16_C(c) c
#define INT32_C(c) c##L
#define INT64_C(c) c##LL
#define UINT8_C(c) c
#define UINT16_C(c) c##U
#define UINT32_C(c) c##UL
#define UINT64_C(c) c##ULL
#define INTMAX_C(c) c##LL
#define UINTMAX_C(c) c##ULL
