// C09: lexicographical layouts
#include "h.h"
static void build(int dims, int maps, Laik_Range* r, Laik_Space* s) {
    for (int i = 0; i < maps; i++) { r[i] = subrange(s); for (int k = dims; k < 3; k++) { r[i].from.i[k] = rn(-3, 3); r[i].to.i[k] = rn(-3, 3); } drange(&r[i], dims); d(" "); }
}
// offsets of section n: all inside the section's element count, pairwise different, default order
static void checksec(Laik_Layout* l, int n, Laik_Range* r, int dims, uint64_t maxcount) {
    static int64_t* seen; static char* mark; if (!mark) mark = calloc(1, 1 << 20);
    int64_t size = rsize(r, dims); (void) seen;
    int64_t w0 = r->to.i[0] - r->from.i[0], w1 = dims > 1 ? r->to.i[1] - r->from.i[1] : 1;
    CHECK(laik_layout_lex_stride(l, n, 0) == 1, "stride 0 of %d", n);
    if (dims > 1) CHECK(laik_layout_lex_stride(l, n, 1) == (uint64_t) w0, "stride 1 of %d is %llu", n, (unsigned long long) laik_layout_lex_stride(l, n, 1));
    if (dims > 2) CHECK(laik_layout_lex_stride(l, n, 2) == (uint64_t) (w0 * w1), "stride 2 of %d", n);
    memset(mark, 0, (size_t) size);
    FORPOINTS(*r, dims, x, y, z) {
        Laik_Index i = {{x, dims > 1 ? y : rn(-9, 9), dims > 2 ? z : rn(-9, 9)}};
        int64_t o = laik_offset(l, n, &i);
        CHECK(o >= 0 && o < size && (uint64_t) o < maxcount, "offset %lld of %lld,%lld,%lld outside section %d of %lld elements", (long long) o, (long long) x, (long long) y, (long long) z, n, (long long) size);
        CHECK(!mark[o], "offset %lld used twice in section %d", (long long) o, n); mark[o] = 1;
        int64_t e = (x - r->from.i[0]) + (dims > 1 ? (y - r->from.i[1]) * w0 : 0) + (dims > 2 ? (z - r->from.i[2]) * w0 * w1 : 0);
        CHECK(o == e, "offset of %lld,%lld,%lld in section %d is %lld, expected %lld", (long long) x, (long long) y, (long long) z, n, (long long) o, (long long) e);
        // and back: the offset determines the index
        int64_t bx = o % w0, by = dims > 1 ? o / w0 % w1 : 0, bz = dims > 2 ? o / w0 / w1 : 0;
        CHECK(bx == x - r->from.i[0] && (dims < 2 || by == y - r->from.i[1]) && (dims < 3 || bz == z - r->from.i[2]), "offset does not convert back");
    }
}
int main(int argc, char** argv) {
    setup(argc, argv); laik_set_loglevel(LAIK_LL_Error);
    if (begin("layout", 0.4)) {
        while (next(40000)) {
            int dims = (int) rn(1, 3), maps = (int) rn(1, chance(20) ? 30 : 5); Laik_Range r[32];
            Laik_Space* s = rndspace(dims, dims == 1 ? 60 : 9, 1); d("dims %d maps %d: ", dims, maps); build(dims, maps, r, s);
            if (chance(20)) for (int i = 0; i < maps; i++) for (int k = 0; k < dims; k++) { r[i].from.i[k] += 5000000000ll; r[i].to.i[k] += 5000000000ll; }
            Laik_Layout* l = laik_new_layout_lex(maps, r);
            CHECK(l->dims == dims && l->map_count == maps, "layout fields");
            int64_t total = 0; for (int i = 0; i < maps; i++) { total += rsize(&r[i], dims); CHECK(l->mapno(l, i) == i, "section %d uses map %d", i, l->mapno(l, i)); }
            CHECK((int64_t) l->count == total, "count %llu, expected %lld", (unsigned long long) l->count, (long long) total);
            for (int i = 0; i < maps; i++) checksec(l, i, &r[i], dims, l->count);
            // section of an index: contains it; -1 only if in none; the first one
            for (int k = 0; k < 30; k++) {
                Laik_Range b = r[rn(0, maps - 1)];
                Laik_Index i; for (int j = 0; j < 3; j++) i.i[j] = j < dims ? rn(b.from.i[j] - 2, b.to.i[j] + 1) : rn(-5, 5);
                int n = l->section(l, &i), e = -1; for (int q = maps - 1; q >= 0; q--) if (inr(&r[q], dims, i.i[0], i.i[1], i.i[2])) e = q;
                CHECK(n == e, "section of %lld,%lld,%lld is %d, expected %d", (long long) i.i[0], (long long) i.i[1], (long long) i.i[2], n, e);
            }
            char* t = l->describe(l); CHECK(strlen(t) < 200 && strncmp(t, "lex", 3) == 0, "describe"); free(l); rmspace(s);
        }
        endtest();
    }
    if (begin("large", 0.1)) {
        while (next(20000)) {
            int dims = (int) rn(1, 3); int64_t f[3], t[3], m = dims == 1 ? 1ll << 55 : dims == 2 ? 1ll << 28 : 1ll << 19;
            for (int k = 0; k < 3; k++) { f[k] = rn(-m, m); t[k] = f[k] + rn(1, m); } Laik_Space* s = mkspace(dims, f, t); d("large "); drange(&s->range, dims);
            Laik_Range r[2]; r[0] = s->range; r[1] = subrange(s); Laik_Layout* l = laik_new_layout_lex(2, r);
            for (int n = 0; n < 2; n++) for (int k = 0; k < 10; k++) {
                Laik_Index i; for (int j = 0; j < 3; j++) i.i[j] = j < dims ? (chance(30) ? r[n].from.i[j] : chance(30) ? r[n].to.i[j] - 1 : rn(r[n].from.i[j], r[n].to.i[j] - 1)) : 0;
                int64_t w0 = r[n].to.i[0] - r[n].from.i[0], w1 = dims > 1 ? r[n].to.i[1] - r[n].from.i[1] : 0;
                int64_t e = i.i[0] - r[n].from.i[0] + (dims > 1 ? (i.i[1] - r[n].from.i[1]) * w0 : 0) + (dims > 2 ? (i.i[2] - r[n].from.i[2]) * w0 * w1 : 0);
                CHECK(laik_offset(l, n, &i) == e, "offset in large section: %lld expected %lld", (long long) laik_offset(l, n, &i), (long long) e);
            }
            CHECK((int64_t) l->count == rsize(&r[0], dims) + rsize(&r[1], dims), "count of large layout"); free(l); rmspace(s);
        }
        endtest();
    }
    if (begin("reuse", 0.5)) {
        while (next(40000)) {
            int dims = (int) rn(1, 3), mo = (int) rn(1, 4), mn = (int) rn(1, 4); Laik_Range a[4], b[4];
            Laik_Space* s = rndspace(dims, dims == 1 ? 20 : 6, 1); d("dims %d old: ", dims); build(dims, mo, a, s); d(" new: "); build(dims, mn, b, s);
            int n = (int) rn(0, mn - 1), o = (int) rn(0, mo - 1);
            if (chance(60)) for (int k = 0; k < dims; k++) {      // new inside old
                b[n].from.i[k] = chance(30) ? a[o].from.i[k] : rn(a[o].from.i[k], a[o].to.i[k] - 1); b[n].to.i[k] = chance(30) ? a[o].to.i[k] : rn(b[n].from.i[k] + 1, a[o].to.i[k]); }
            d(" reuse old %d for new %d ", o, n); drange(&b[n], dims);
            Laik_Layout *lo = laik_new_layout_lex(mo, a), *ln = laik_new_layout_lex(mn, b);
            int inside = 1; for (int k = 0; k < dims; k++) if (b[n].from.i[k] < a[o].from.i[k] || b[n].to.i[k] > a[o].to.i[k]) inside = 0;
            bool res = ln->reuse(ln, n, lo, o);
            if (res) CHECK(inside, "declared reusable though the range is not inside the old one");
            // old layout untouched
            for (int i = 0; i < mo; i++) checksec(lo, i, &a[i], dims, lo->count);
            int64_t tot = 0;
            for (int i = 0; i < mn; i++) {
                if (res && i == n) { checksec(ln, n, &a[o], dims, ln->count); tot += rsize(&a[o], dims);
                    FORPOINTS(b[n], dims, x, y, z) { Laik_Index p = {{x, y, z}}; CHECK(laik_offset(ln, n, &p) == laik_offset(lo, o, &p), "index moved by reuse"); } }
                else { checksec(ln, i, &b[i], dims, ln->count); tot += rsize(&b[i], dims); }
            }
            CHECK((int64_t) ln->count == tot, "count after reuse %llu, expected %lld", (unsigned long long) ln->count, (long long) tot);
            // reuse again from the reusing layout
            if (res && chance(50)) {
                Laik_Range c = b[n]; Laik_Layout* l3 = laik_new_layout_lex(1, &c); CHECK(l3->reuse(l3, 0, ln, n), "second reuse");
                FORPOINTS(c, dims, x, y, z) { Laik_Index p = {{x, y, z}}; CHECK(laik_offset(l3, 0, &p) == laik_offset(lo, o, &p), "index moved by second reuse"); } free(l3);
            }
            free(lo); free(ln); rmspace(s);
        }
        endtest();
    }
    return finish();
}
