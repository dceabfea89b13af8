// C01: range geometry against explicit point sets
#include "h.h"
static int64_t bigs[] = { -2305843009213693952ll, -3000000000ll, -2147483649ll, -2147483648ll, -1, 0, 1, 2, 2147483647ll, 2147483648ll, 4294967296ll, 4294967297ll, 2305843009213693950ll };
static int64_t coord(int big) { return big ? bigs[rn(0, (int64_t)(sizeof bigs / sizeof *bigs) - 1)] + rn(0, 1) : rn(-2, 4); }
static int eqr(const Laik_Range* a, const int64_t* f, const int64_t* t, int dims) {
    for (int k = 0; k < dims; k++) if (a->from.i[k] != f[k] || a->to.i[k] != t[k]) return 0;
    return 1;
}
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("geometry", 1.0)) {
        while (next(400000)) {
            int dims = (int) rn(1, 3), big = chance(30);
            int64_t f[3] = {-2305843009213693952ll, -2305843009213693952ll, -2305843009213693952ll}, t[3] = {2305843009213693952ll, 2305843009213693952ll, 2305843009213693952ll};
            for (int k = 0; k < 3; k++) if (!big) { f[k] = rn(-2, 2); t[k] = f[k] + rn(0, 4); }
            Laik_Space* s = mkspace(dims, f, t);
            Laik_Range a, b, e; memset(&a, 0x55, sizeof a); memset(&b, 0x77, sizeof b);
            a.space = b.space = s;
            int neB = chance(80);
            for (int k = 0; k < dims; k++) {
                a.from.i[k] = coord(big); a.to.i[k] = coord(big); b.from.i[k] = coord(big); b.to.i[k] = coord(big);
                if (neB && a.from.i[k] >= a.to.i[k]) { int64_t x = a.from.i[k]; a.from.i[k] = a.to.i[k]; a.to.i[k] = x + 1; }
                if (neB && b.from.i[k] >= b.to.i[k]) { int64_t x = b.from.i[k]; b.from.i[k] = b.to.i[k]; b.to.i[k] = x + 1; }
                if (chance(10)) b.from.i[k] = a.to.i[k], b.to.i[k] = a.to.i[k] + rn(0, 2);
                if (chance(10)) b.from.i[k] = a.from.i[k];
                if (chance(10)) b.to.i[k] = a.to.i[k];
            }
            d("dims=%d a=", dims); drange(&a, dims); d(" b="); drange(&b, dims); d(" space="); drange(&s->range, dims);
            int ea = rempty(&a, dims), eb = rempty(&b, dims);
            CHECK(laik_range_isEmpty(&a) == ea, "isEmpty(a)");
            // intersection
            int64_t mf[3], mt[3]; int disj = 0;
            for (int k = 0; k < dims; k++) {
                mf[k] = a.from.i[k] > b.from.i[k] ? a.from.i[k] : b.from.i[k];
                mt[k] = a.to.i[k] < b.to.i[k] ? a.to.i[k] : b.to.i[k];
                if (mf[k] >= mt[k]) disj = 1;
            }
            Laik_Range a0 = a, b0 = b;
            Laik_Range* r = laik_range_intersect(&a, &b);
            if (!ea && !eb) {
                CHECK((r == 0) == disj, "intersection emptiness");
                if (r) CHECK(r->space == s && eqr(r, mf, mt, dims), "intersection value");
            } else if (r) CHECK(rempty(r, dims), "intersection with empty range must be empty");
            CHECK(!memcmp(&a, &a0, sizeof a) && !memcmp(&b, &b0, sizeof b), "intersection changes operands");
            // expand
            e = a; laik_range_expand(&e, &b);
            for (int k = 0; k < dims; k++) {
                CHECK(e.from.i[k] == (a.from.i[k] < b.from.i[k] ? a.from.i[k] : b.from.i[k]), "expand from dim %d", k);
                CHECK(e.to.i[k] == (a.to.i[k] > b.to.i[k] ? a.to.i[k] : b.to.i[k]), "expand to dim %d", k);
            }
            CHECK(!memcmp(&b, &b0, sizeof b), "expand changes source");
            // containment
            if (!ea) {
                int in = 1, ins = 1;
                for (int k = 0; k < dims; k++) {
                    if (a.from.i[k] < b.from.i[k] || a.to.i[k] > b.to.i[k]) in = 0;
                    if (a.from.i[k] < s->range.from.i[k] || a.to.i[k] > s->range.to.i[k]) ins = 0;
                }
                CHECK(laik_range_within_range(&a, &b) == in, "within range");
                CHECK(laik_range_within_space(&a, s) == ins, "within space");
            }
            // equality
            int eq = 1;
            for (int k = 0; k < dims; k++) if (a.from.i[k] != b.from.i[k] || a.to.i[k] != b.to.i[k]) eq = 0;
            CHECK(laik_range_isEqual(&a, &b) == eq, "isEqual");
            e = a; CHECK(laik_range_isEqual(&a, &e), "isEqual with copy");
            Laik_Space* s2 = mkspace(dims, f, t); e.space = s2; CHECK(!laik_range_isEqual(&a, &e), "equal in other space"); rmspace(s2);
            // size
            int ok = 1; for (int k = 0; k < dims; k++) if (a.from.i[k] > a.to.i[k]) ok = 0;
            if (ok && (!big || dims == 1)) {
                uint64_t n = 1; for (int k = 0; k < dims; k++) n *= (uint64_t)(a.to.i[k] - a.from.i[k]);
                CHECK(laik_range_size(&a) == n, "size");
                if (!big && !ea) { uint64_t c = 0; FORPOINTS(a, dims, x, y, z) { CHECK(inr(&a, dims, x, y, z), "pt"); c++; } CHECK(c == n, "size vs points"); }
            }
            // invalid range
            e = a; e.space = 0;
            CHECK(laik_range_isEmpty(&e) && laik_range_size(&e) == 0 && !laik_range_isEqual(&e, &b) && !laik_range_within_range(&e, &b), "invalid range");
            // initialisers
            Laik_Range q; memset(&q, 0x33, sizeof q);
            if (dims == 1) laik_range_init_1d(&q, s, a.from.i[0], a.to.i[0]);
            if (dims == 2) laik_range_init_2d(&q, s, a.from.i[0], a.to.i[0], a.from.i[1], a.to.i[1]);
            if (dims == 3) laik_range_init_3d(&q, s, a.from.i[0], a.to.i[0], a.from.i[1], a.to.i[1], a.from.i[2], a.to.i[2]);
            CHECK(q.space == s && eqr(&q, a.from.i, a.to.i, dims), "range initialiser");
            laik_range_init(&q, s, &b.from, &b.to); CHECK(q.space == s && eqr(&q, b.from.i, b.to.i, dims), "laik_range_init");
            laik_range_init_copy(&q, &a); CHECK(q.space == s && eqr(&q, a.from.i, a.to.i, dims), "copy");
            rmspace(s);
        }
        endtest();
    }
    return finish();
}
