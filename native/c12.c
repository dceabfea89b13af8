// C12: predefined types: initialisation and reduction
// CFLAGS: -fno-sanitize=signed-integer-overflow
#include "h.h"
#include <float.h>
#include <math.h>
static const Laik_ReductionOperation OPS[6] = { LAIK_RO_Sum, LAIK_RO_Prod, LAIK_RO_Min, LAIK_RO_Max, LAIK_RO_And, LAIK_RO_Or };
static const char* ON[6] = { "sum", "prod", "min", "max", "and", "or" };
#define MAXN 70
// the documented element-wise operation, as an oracle per type
#define ORC_I(NM, T, U) static T NM##_op(int o, T a, T b) { switch (o) { case 0: return (T)((U) a + (U) b); case 1: return (T)(U)((unsigned long long)(U) a * (unsigned long long)(U) b); case 2: return a < b ? a : b; case 3: return a > b ? a : b; case 4: return (T)(a & b); default: return (T)(a | b); } }
#define ORC_F(NM, T) static T NM##_op(int o, T a, T b) { switch (o) { case 0: return a + b; case 1: return a * b; case 2: return a < b ? a : b; default: return a > b ? a : b; } }
ORC_I(char, signed char, unsigned char) ORC_I(uchar, unsigned char, unsigned char) ORC_I(int32, int32_t, uint32_t) ORC_I(uint32, uint32_t, uint32_t) ORC_I(int64, int64_t, uint64_t) ORC_I(uint64, uint64_t, uint64_t)
ORC_F(double, double) ORC_F(float, float)
#define RNDI(T) (T) (chance(20) ? (chance(50) ? (T) ~(T) 0 : (T) 0) : (chance(40) ? (T) rn(-4, 4) : (chance(30) ? (T) (1ull << (sizeof(T) * 8 - 1)) : (T) rnd())))
#define RNDF(T, MX) (T) (chance(10) ? (chance(50) ? MX : -MX) : (chance(20) ? 0.0 : (chance(50) ? (double) rn(-9, 9) : ldexp((double) rn(-1000000, 1000000), (int) rn(-30, 20)))))
#define TESTT(NM, T, RND, NOPS, LT, SAFE) \
    if (begin(#NM, 0.12)) { \
        while (next(30000)) { \
            int n = chance(15) ? 0 : (int) rn(1, 40), o = (int) rn(0, NOPS - 1), mode = (int) rn(0, 5), alias = (int) rn(0, 3); \
            T *a = malloc(sizeof(T) * (size_t) (n + 1)), *b = malloc(sizeof(T) * (size_t) (n + 1)), *r = malloc(sizeof(T) * (size_t) (n + 1)), ka[MAXN], kb[MAXN]; \
            for (int i = 0; i < n; i++) { a[i] = RND; b[i] = RND; if (chance(10)) b[i] = a[i]; SAFE; ka[i] = a[i]; kb[i] = b[i]; } \
            memset(&a[n], 0x5a, sizeof(T)); memset(&b[n], 0x5a, sizeof(T)); for (int i = 0; i <= n; i++) memset(&r[i], 0x5a, sizeof(T)); \
            T *i1 = a, *i2 = b; if (mode == 0) i1 = 0; if (mode == 1) i2 = 0; if (mode == 2) i1 = i2 = 0; \
            T* out = r; if (alias == 1 && i1) out = a; if (alias == 2 && i2) out = b; \
            d("%s n=%d in1=%s in2=%s out=%s values", ON[o], n, i1 ? "given" : "none", i2 ? "given" : "none", out == a ? "in1" : out == b ? "in2" : "own"); for (int i = 0; i < n && i < 6; i++) d(" (%.17g,%.17g)", (double) a[i], (double) b[i]); \
            CHECK(LT->size == (int) sizeof(T), "size"); (LT->reduce)(out, i1, i2, n, OPS[o]); \
            for (int i = 0; i < n; i++) { T e = out[i], w; \
                if (i1 && i2) { w = NM##_op(o, ka[i], kb[i]); CHECK(!memcmp(&e, &w, sizeof(T)) || e == w, "element %d is %.17g, expected %.17g", i, (double) e, (double) w); } \
                else if (i1 || i2) { w = i1 ? ka[i] : kb[i]; CHECK(!memcmp(&e, &w, sizeof(T)), "element %d is %.17g, expected copy %.17g", i, (double) e, (double) w); } \
                else { w = NM##_op(o, e, ka[i]); CHECK(w == ka[i], "%.17g is not neutral: combined with %.17g gives %.17g", (double) e, (double) ka[i], (double) w); } } \
            { T g; memset(&g, 0x5a, sizeof(T)); CHECK(!memcmp(&out[n], &g, sizeof(T)), "element behind the end written"); } \
            if (out != a) for (int i = 0; i < n; i++) CHECK(!memcmp(&a[i], &ka[i], sizeof(T)), "input 1 changed"); \
            if (out != b) for (int i = 0; i < n; i++) CHECK(!memcmp(&b[i], &kb[i], sizeof(T)), "input 2 changed"); \
            (LT->init)(r, n, OPS[o]); \
            for (int i = 0; i < n; i++) { T w = NM##_op(o, r[i], kb[i]), w2 = NM##_op(o, kb[i], r[i]); CHECK(w == kb[i] && w2 == kb[i], "initial value %.17g is not neutral for %.17g", (double) r[i], (double) kb[i]); } \
            free(a); free(b); free(r); \
        } endtest(); }
int main(int argc, char** argv) {
    setup(argc, argv);
    TESTT(char, signed char, RNDI(signed char), 6, laik_Char, ) TESTT(uchar, unsigned char, RNDI(unsigned char), 6, laik_UChar, )
    TESTT(int32, int32_t, RNDI(int32_t), 6, laik_Int32, ) TESTT(uint32, uint32_t, RNDI(uint32_t), 6, laik_UInt32, )
    TESTT(int64, int64_t, RNDI(int64_t), 6, laik_Int64, ) TESTT(uint64, uint64_t, RNDI(uint64_t), 6, laik_UInt64, )
    TESTT(double, double, RNDF(double, DBL_MAX), 4, laik_Double, ) TESTT(float, float, RNDF(float, FLT_MAX), 4, laik_Float, )
    return finish();
}
