// C03: coverage and shape predicates against point sets
#include "h.h"
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("cover", 0.6)) {
        while (next(60000)) {
            int dims = (int) rn(1, 3), tasks = (int) rn(1, 4);
            Laik_Space* s = rndspace(dims, dims == 1 ? 12 : (dims == 2 ? 5 : 3), 1);
            Laik_RangeList* l = laik_rangelist_new(s, (unsigned) tasks);
            int n = (int) rn(0, 10);
            static unsigned char cov[4096]; memset(cov, 0, sizeof cov);
            int64_t w0 = s->range.to.i[0] - s->range.from.i[0], w1 = dims > 1 ? s->range.to.i[1] - s->range.from.i[1] : 1;
            d("dims=%d space=", dims); drange(&s->range, dims); d(" ranges:");
            int k = 0, full = 0;
            int mode = (int) rn(0, 2);
            if (mode == 0) {
                // exact tiling, sometimes with a hole punched by shrinking one tile
                int cuts[3][3], nc[3];
                for (int a = 0; a < 3; a++) { int w = a < dims ? (int)(s->range.to.i[a] - s->range.from.i[a]) : 1; nc[a] = w > 1 && chance(70) ? 2 : 1; cuts[a][0] = 0; cuts[a][nc[a]] = w; if (nc[a] == 2) cuts[a][1] = (int) rn(1, w - 1); }
                int hole = (int) rn(-1, nc[0] * nc[1] * nc[2] - 1), id = 0;
                for (int z = 0; z < nc[2]; z++) for (int y = 0; y < nc[1]; y++) for (int x = 0; x < nc[0]; x++, id++) {
                    int c[3] = {x, y, z}; Laik_Range r = s->range;
                    for (int a = 0; a < dims; a++) { r.from.i[a] = s->range.from.i[a] + cuts[a][c[a]]; r.to.i[a] = s->range.from.i[a] + cuts[a][c[a] + 1]; }
                    if (id == hole) { if (chance(40)) continue; int a = (int) rn(0, dims - 1); if (r.to.i[a] - r.from.i[a] > 1) { if (chance(50)) r.from.i[a]++; else r.to.i[a]--; } }
                    laik_rangelist_append(l, (int) rn(0, tasks - 1), &r, 0, 0); drange(&r, dims);
                    FORPOINTS(r, dims, px, py, pz) cov[(px - s->range.from.i[0]) + w0 * ((dims > 1 ? py - s->range.from.i[1] : 0) + w1 * (dims > 2 ? pz - s->range.from.i[2] : 0))] = 1;
                }
            } else for (k = 0; k < n; k++) {
                Laik_Range r = subrange(s);
                if (mode == 2 && chance(60)) for (int a = 0; a < dims; a++) if (chance(60)) { r.from.i[a] = s->range.from.i[a]; r.to.i[a] = s->range.to.i[a]; }
                laik_rangelist_append(l, (int) rn(0, tasks - 1), &r, 0, 0); drange(&r, dims);
                FORPOINTS(r, dims, px, py, pz) cov[(px - s->range.from.i[0]) + w0 * ((dims > 1 ? py - s->range.from.i[1] : 0) + w1 * (dims > 2 ? pz - s->range.from.i[2] : 0))] = 1;
            }
            laik_rangelist_freeze(l, 0);
            full = 1; for (int64_t i = 0; i < rsize(&s->range, dims); i++) if (!cov[i]) full = 0;
            CHECK(laik_rangelist_coversSpace(l) == full, "coversSpace should be %d", full);
            laik_rangelist_free(l); free(l); rmspace(s);
        }
        endtest();
    }
    if (begin("manyranges", 0.1)) {        // large regular decompositions: the work list must hold them
        while (next(60)) {
            int dims = (int) rn(1, 3), g = (int) (dims == 1 ? rn(2, 400) : (dims == 2 ? rn(2, 40) : rn(2, 10)));
            int64_t f[3] = {0,0,0}, t[3] = {g, g, g}; Laik_Space* s = mkspace(dims, f, t);
            Laik_RangeList* l = laik_rangelist_new(s, 4);
            int64_t skip = chance(50) ? rn(0, rsize(&s->range, dims) - 1) : -1, id = 0;
            int many = chance(50); d("many=%d dims=%d grid=%d skip=%lld", many, dims, g, (long long) skip);
            FORPOINTS(s->range, dims, x, y, z) { Laik_Range r = s->range; int64_t p[3] = {x, y, z}; for (int a = 0; a < dims; a++) { r.from.i[a] = p[a]; r.to.i[a] = p[a] + 1; } int drop = skip >= 0 && (id == skip || (many && ((x + y + z) & 1))); id++; if (!drop) laik_rangelist_append(l, 0, &r, 0, 0); }
            laik_rangelist_freeze(l, 0);
            CHECK(laik_rangelist_coversSpace(l) == (skip < 0), "coversSpace");
            laik_rangelist_free(l); free(l); rmspace(s);
        }
        endtest();
    }
    if (begin("shape", 0.3)) {
        while (next(60000)) {
            int dims = (int) rn(1, 3), tasks = (int) rn(1, 4);
            Laik_Space* s = rndspace(dims, 3, 1); Laik_Space* s2 = mkspace(dims, s->range.from.i, s->range.to.i);
            Laik_RangeList* l[2]; int own[2][8], cnt[2] = {0, 0}; Laik_Range rr[2][40]; int tt[2][40];
            int same = chance(50);
            for (int q = 0; q < 2; q++) {
                int tk = q ? (chance(90) ? tasks : tasks + 1) : tasks;
                Laik_Space* sp = q && chance(5) ? s2 : s;
                l[q] = laik_rangelist_new(sp, (unsigned) tk);
                memset(own[q], 0, sizeof own[q]);
                if (q && same) { for (int i = 0; i < cnt[0]; i++) { int j = i; rr[1][j] = rr[0][i]; tt[1][j] = tt[0][i]; if (chance(8)) rr[1][j] = subrange(s); if (chance(6)) tt[1][j] = (int) rn(0, tk - 1); } cnt[1] = cnt[0]; if (chance(10) && cnt[1]) cnt[1]--; }
                else {
                    int n = chance(60) ? (chance(60) ? tk : 1) : (int) rn(0, 5);
                    for (int i = 0; i < n; i++) { rr[q][i] = chance(75) ? s->range : subrange(s); tt[q][i] = n == tk && chance(80) ? i : (int) rn(0, tk - 1); }
                    cnt[q] = n;
                }
                d(" list%d tasks=%d:", q, tk);
                for (int i = 0; i < cnt[q]; i++) { Laik_Range r = rr[q][i]; r.space = sp; d(" T%d", tt[q][i]); drange(&r, dims); laik_rangelist_append(l[q], tt[q][i], &r, 0, 0); }
                laik_rangelist_freeze(l[q], 0);
                // all / single
                int all = cnt[q] == tk, single = -1;
                int seen[8] = {0};
                for (int i = 0; i < cnt[q]; i++) { if (memcmp(rr[q][i].from.i, s->range.from.i, 8 * (size_t) dims) || memcmp(rr[q][i].to.i, s->range.to.i, 8 * (size_t) dims)) all = 0; if (seen[tt[q][i]]++) all = 0; }
                if (cnt[q] == 1 && !memcmp(rr[q][0].from.i, s->range.from.i, 8 * (size_t) dims) && !memcmp(rr[q][0].to.i, s->range.to.i, 8 * (size_t) dims)) single = tt[q][0];
                CHECK(laik_rangelist_isAll(l[q]) == all, "isAll of list %d should be %d", q, all);
                CHECK(laik_rangelist_isSingle(l[q]) == single, "isSingle of list %d should be %d", q, single);
            }
            // equality: same tasks, space and same sorted ranges
            int eq = l[0]->tid_count == l[1]->tid_count && l[0]->space == l[1]->space && l[0]->count == l[1]->count;
            for (unsigned i = 0; eq && i < l[0]->count; i++) {
                if (l[0]->trange[i].task != l[1]->trange[i].task) eq = 0;
                for (int k = 0; k < dims; k++) if (l[0]->trange[i].range.from.i[k] != l[1]->trange[i].range.from.i[k] || l[0]->trange[i].range.to.i[k] != l[1]->trange[i].range.to.i[k]) eq = 0;
            }
            CHECK(laik_rangelist_isEqual(l[0], l[1]) == eq, "isEqual should be %d", eq);
            for (int q = 0; q < 2; q++) { laik_rangelist_free(l[q]); free(l[q]); }
            rmspace(s); rmspace(s2);
        }
        endtest();
    }
    return finish();
}
