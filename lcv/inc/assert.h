/* Used only while extracting the AST of /repo's sources for the verifier:
 * assert(e) becomes a call whose reachability with a false argument is a
 * proof obligation.  The build of LAIK itself uses the system's assert.h. */
#ifndef LCV_ASSERT_H
#define LCV_ASSERT_H
extern void __lcv_assert(int);
#undef assert
#define assert(e) __lcv_assert((e) ? 1 : 0)
#ifndef static_assert
#define static_assert _Static_assert
#endif
#endif
