// C06: partial computation of a partitioning (own ranges only; ranges intersecting own ranges)
#include "h.h"
typedef struct { int task, tag; int64_t f[3], t[3]; } E;
static int ecmp(const void* a, const void* b) { return memcmp(a, b, sizeof(E)); }
static int tolist(E* e, Laik_RangeList* l, int tid) {
    int n = 0, dims = l->space->dims; int c = laik_rangelist_rangecount(l);
    for (int i = 0; i < c; i++) {
        Laik_TaskRange trr = { .list = l, .no = i }; Laik_TaskRange* tr = &trr;
        int task = laik_taskrange_get_task(tr); if (tid >= 0 && task != tid) continue;
        const Laik_Range* r = laik_taskrange_get_range(tr);
        memset(&e[n], 0, sizeof(E)); e[n].task = task; e[n].tag = laik_taskrange_get_tag(tr);
        for (int k = 0; k < dims; k++) { e[n].f[k] = r->from.i[k]; e[n].t[k] = r->to.i[k]; }
        n++;
    }
    qsort(e, (size_t) n, sizeof(E), ecmp); return n;
}
static E A[4096], B[4096];
static Laik_Partitioning* empty(Laik_Space* s, UR* u) { return laik_new_empty_partitioning(WORLD, s, urpart(u), 0); }
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("own", 0.4)) {
        while (next(60000)) {
            int dims = (int) rn(1, 3), g = (int) rn(1, 6), single = dims == 1 && chance(25); gsize(g, (int) rn(0, g - 1));
            Laik_Space* s = rndspace(dims, 12, 1); static UR u; rndur(&u, s, g, 12, chance(50) ? 3 : 0); u.single = single; u.fl = (dims == 1 && chance(30)) ? LAIK_PF_Merge : 0;
            d("tasks=%d me=%d single=%d merge=%d space ", g, WORLD->myid, single, (int) u.fl); drange(&s->range, dims); dur(&u, dims);
            Laik_Partitioning *p = mkpart(s, &u), *q = empty(s, &u);
            laik_partitioning_store_myranges(q);
            CHECK(laik_partitioning_allranges(q) == 0, "own ranges taken for a full run");
            Laik_RangeList* l = laik_partitioning_myranges(q); CHECK(l != 0, "own ranges not stored");
            int na = tolist(A, laik_partitioning_allranges(p), WORLD->myid), nb = tolist(B, l, -1);
            CHECK(na == nb, "%d own ranges instead of %d", nb, na);
            CHECK(!memcmp(A, B, sizeof(E) * (size_t) na), "own ranges differ from the full computation");
            CHECK(laik_rangelist_tidrangecount(l, WORLD->myid) == na, "own range count %d instead of %d", laik_rangelist_tidrangecount(l, WORLD->myid), na);
            CHECK(laik_rangelist_tidmapcount(l, WORLD->myid) == laik_rangelist_tidmapcount(laik_partitioning_allranges(p), WORLD->myid), "number of own mappings");
            rmpart(p); rmpart(q); rmspace(s);
        }
        endtest();
    }
    if (begin("intersect", 0.6)) {
        while (next(120000)) {
            int g = (int) rn(1, 6); gsize(g, (int) rn(0, g - 1));
            Laik_Space* s = rndspace(1, chance(50) ? 12 : 40, 1); static UR u, v;
            if (chance(40)) rndtiles(&u, s, g, chance(30) ? 2 : 0); else rndur(&u, s, g, 14, chance(30) ? 2 : 0);
            if (chance(40)) rndtiles(&v, s, g, chance(30) ? 2 : 0); else rndur(&v, s, g, 14, chance(30) ? 2 : 0);
            int full1 = chance(20), full2 = chance(20);      // own ranges taken from a full run
            int same = chance(10);
            d("tasks=%d me=%d space ", g, WORLD->myid); drange(&s->range, 1); dur(&u, 1); d(" other"); dur(&v, 1); if (same) d(" (same object)");
            Laik_Partitioning *p = empty(s, &u), *q = same ? p : empty(s, &v), *f = mkpart(s, &u);
            laik_partitioning_store_myranges(p); if (!same) { if (full2) laik_partitioning_store_allranges(q); else laik_partitioning_store_myranges(q); }
            (void) full1;
            laik_partitioning_store_intersectranges(p, q);
            Laik_RangeList *l = laik_partitioning_interranges(p, q), *a = laik_partitioning_allranges(f); CHECK(l != 0, "intersecting ranges not stored");
            CHECK(laik_partitioning_allranges(p) == 0, "filtered ranges taken for a full run");
            int nb = tolist(B, l, -1), na = 0, me = WORLD->myid; UR* o = same ? &u : &v;
            int n0 = tolist(A, a, -1);
            for (int i = 0; i < n0; i++) {
                int keep = 0;
                for (int j = 0; j < u.n && !keep; j++) keep = u.task[j] == me && A[i].f[0] < u.r[j].to.i[0] && A[i].t[0] > u.r[j].from.i[0];
                for (int j = 0; j < o->n && !keep; j++) keep = o->task[j] == me && A[i].f[0] < o->r[j].to.i[0] && A[i].t[0] > o->r[j].from.i[0];
                if (keep) A[na++] = A[i];
            }
            CHECK(na == nb, "%d ranges kept instead of %d", nb, na);
            CHECK(!memcmp(A, B, sizeof(E) * (size_t) na), "kept ranges differ");
            if (q != p) { free(q->partitioner); q->partitioner = malloc(1); rmpart(q); } 
            rmpart(p); rmpart(f); rmspace(s);
        }
        endtest();
    }
    return finish();
}
