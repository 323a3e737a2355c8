/* Assertions as the analysis sees them: always evaluated, with marks around (no include guard, as the standard asks). */
#undef assert
#ifdef __cplusplus
extern "C" {
#endif
void __gel_assert_begin(void);
void __gel_assert_end(int);
#ifdef __cplusplus
}
#endif
#define assert(e) ((void)(__gel_assert_begin(), __gel_assert_end(!!(e))))
#ifndef static_assert
#define static_assert _Static_assert
#endif
