// C04: all / master / copy / corner-halo / halo partitioners
#include "h.h"
typedef struct { int task, tag; Laik_Range r; } E;
static int ecmp(const void* a, const void* b) {
    const E *x = a, *y = b;
    if (x->task != y->task) return x->task - y->task;
    if (x->tag != y->tag) return x->tag < y->tag ? -1 : 1;
    for (int k = 0; k < 3; k++) { if (x->r.from.i[k] != y->r.from.i[k]) return x->r.from.i[k] < y->r.from.i[k] ? -1 : 1; if (x->r.to.i[k] != y->r.to.i[k]) return x->r.to.i[k] < y->r.to.i[k] ? -1 : 1; }
    return 0;
}
static void norm(E* e, int n, int dims) { for (int i = 0; i < n; i++) for (int k = dims; k < 3; k++) { e[i].r.from.i[k] = 0; e[i].r.to.i[k] = 1; } qsort(e, (size_t) n, sizeof(E), ecmp); }
static void cmp(Laik_Partitioning* p, E* e, int n, int dims, const char* what) {
    static E g[4096]; Laik_RangeList* l = laik_partitioning_allranges(p);
    CHECK((int) l->count == n, "%s: %d ranges instead of %d", what, (int) l->count, n);
    for (int i = 0; i < n; i++) { g[i].task = l->trange[i].task; g[i].tag = l->trange[i].tag; g[i].r = l->trange[i].range; }
    norm(g, n, dims); norm(e, n, dims);
    for (int i = 0; i < n; i++) CHECK(ecmp(&g[i], &e[i]) == 0, "%s: range %d differs: task %d tag %d from %lld,%lld,%lld to %lld,%lld,%lld expected task %d tag %d from %lld,%lld,%lld to %lld,%lld,%lld", what, i, g[i].task, g[i].tag,
        (long long) g[i].r.from.i[0], (long long) g[i].r.from.i[1], (long long) g[i].r.from.i[2], (long long) g[i].r.to.i[0], (long long) g[i].r.to.i[1], (long long) g[i].r.to.i[2], e[i].task, e[i].tag,
        (long long) e[i].r.from.i[0], (long long) e[i].r.from.i[1], (long long) e[i].r.from.i[2], (long long) e[i].r.to.i[0], (long long) e[i].r.to.i[1], (long long) e[i].r.to.i[2]);
}
static E ex[4096];
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("allmaster", 0.2)) {
        while (next(20000)) {
            int dims = (int) rn(1, 3), g = (int) rn(1, MAXP); gsize(g, (int) rn(0, g - 1));
            Laik_Space* s = rndspace(dims, chance(10) ? 1000000 : 6, 1); d("dims=%d tasks=%d space ", dims, g); drange(&s->range, dims);
            Laik_Partitioning* p = laik_new_partitioning(laik_new_all_partitioner(), WORLD, s, 0);
            for (int t = 0; t < g; t++) { ex[t].task = t; ex[t].tag = 0; ex[t].r = s->range; }
            cmp(p, ex, g, dims, "all"); CHECK(laik_partitioning_isAll(p), "isAll of all"); rmpart(p);
            p = laik_new_partitioning(laik_Master, WORLD, s, 0);
            ex[0].task = 0; ex[0].tag = 0; ex[0].r = s->range; cmp(p, ex, 1, dims, "master");
            CHECK(laik_partitioning_isSingle(p) == 0, "isSingle of master");
            p = laik_new_partitioning(laik_All, WORLD, s, 0);
            for (int t = 0; t < g; t++) { ex[t].task = t; ex[t].tag = 0; ex[t].r = s->range; }
            cmp(p, ex, g, dims, "laik_All"); rmspace(s);
        }
        endtest();
    }
    if (begin("copy", 0.25)) {
        while (next(20000)) {
            int dims = (int) rn(1, 3), dims2 = (int) rn(1, 3), g = (int) rn(1, 6); gsize(g, (int) rn(0, g - 1));
            Laik_Space* s = rndspace(dims, 7, 1); int fd = (int) rn(0, dims - 1), td = (int) rn(0, dims2 - 1);
            int64_t f[3], t[3]; for (int k = 0; k < 3; k++) { f[k] = rn(-5, 5); t[k] = f[k] + rn(1, 7); }
            f[td] = s->range.from.i[fd]; t[td] = s->range.to.i[fd];        // same extent in the copied dimension
            Laik_Space* s2 = mkspace(dims2, f, t);
            static UR u; if (chance(50)) rndtiles(&u, s, g, chance(50) ? 3 : 0); else rndur(&u, s, g, 8, chance(50) ? 3 : 0);
            d("tasks=%d dim %d -> %d, space ", g, fd, td); drange(&s->range, dims); d(" target "); drange(&s2->range, dims2); dur(&u, dims);
            Laik_Partitioning* p = mkpart(s, &u);
            Laik_Partitioner* pr = laik_new_copy_partitioner(fd, td); pr->flags = LAIK_PF_NoFullCoverage;
            Laik_Partitioning* q = laik_new_partitioning(pr, WORLD, s2, p);
            for (int i = 0; i < u.n; i++) { ex[i].task = u.task[i]; ex[i].tag = u.tag[i]; ex[i].r = s2->range; ex[i].r.from.i[td] = u.r[i].from.i[fd]; ex[i].r.to.i[td] = u.r[i].to.i[fd]; }
            cmp(q, ex, u.n, dims2, "copy"); free(pr->data); rmpart(q); rmpart(p); rmspace(s); rmspace(s2);
        }
        endtest();
    }
    for (int mode = 0; mode < 2; mode++) if (begin(mode ? "halo" : "cornerhalo", 0.27)) {
        while (next(40000)) {
            int dims = (int) rn(1, 3), g = (int) rn(1, 6), depth = (int) (chance(30) ? 1 : rn(1, 5)); gsize(g, (int) rn(0, g - 1));
            Laik_Space* s = rndspace(dims, chance(20) ? 4 : 12, 1);
            static UR u; if (chance(60)) rndtiles(&u, s, g, 3); else rndur(&u, s, g, 8, 3);
            if (mode) for (int i = 0; i < u.n; i++) if (u.tag[i] == 0) u.tag[i] = 1;
            d("tasks=%d depth=%d space ", g, depth); drange(&s->range, dims); dur(&u, dims);
            Laik_Partitioning* p = mkpart(s, &u);
            Laik_Partitioner* pr = mode ? laik_new_halo_partitioner(depth) : laik_new_cornerhalo_partitioner(depth); pr->flags = LAIK_PF_NoFullCoverage;
            Laik_Partitioning* q = laik_new_partitioning(pr, WORLD, s, p);
            int n = 0;
            for (int i = 0; i < u.n; i++) {
                Laik_Range c = u.r[i];
                if (!mode) {
                    for (int k = 0; k < dims; k++) { c.from.i[k] -= depth; c.to.i[k] += depth; if (c.from.i[k] < s->range.from.i[k]) c.from.i[k] = s->range.from.i[k]; if (c.to.i[k] > s->range.to.i[k]) c.to.i[k] = s->range.to.i[k]; }
                    ex[n].task = u.task[i]; ex[n].tag = u.tag[i]; ex[n++].r = c; continue;
                }
                ex[n].task = u.task[i]; ex[n].tag = u.tag[i]; ex[n++].r = c;
                for (int k = 0; k < dims; k++) for (int side = 0; side < 2; side++) {
                    Laik_Range h = c;
                    if (side == 0) { h.to.i[k] = c.from.i[k]; h.from.i[k] = c.from.i[k] - depth; if (h.from.i[k] < s->range.from.i[k]) h.from.i[k] = s->range.from.i[k]; }
                    else { h.from.i[k] = c.to.i[k]; h.to.i[k] = c.to.i[k] + depth; if (h.to.i[k] > s->range.to.i[k]) h.to.i[k] = s->range.to.i[k]; }
                    if (h.from.i[k] >= h.to.i[k]) continue;
                    ex[n].task = u.task[i]; ex[n].tag = u.tag[i]; ex[n++].r = h;
                }
            }
            cmp(q, ex, n, dims, mode ? "halo" : "cornerhalo"); free(pr->data); rmpart(q); rmpart(p); rmspace(s);
        }
        endtest();
    }
    return finish();
}
