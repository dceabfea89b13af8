// C02: freezing a range list keeps exactly the reported ownership
#include "h.h"
#define N 64
static struct { int task, tag; Laik_Range r; } in[N]; static int nin;
static int64_t PT[256]; static int npt, single;      // index points to look at
static void points(int64_t lo, int64_t hi) { npt = 0; for (int64_t x = lo; x < hi; x++) PT[npt++] = x; }
// a space with clusters of indexes that are far apart
static int64_t FAR[64]; static int nfar;
static Laik_Space* farspace(void) {
    static const int64_t gap[] = {1, 2, 3, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 1ll << 40, 3ll << 31};
    nfar = 0; int64_t v = rn(-3, 3); int n = (int) rn(4, 14);
    for (int i = 0; i < n; i++) { FAR[nfar++] = v; v += chance(50) ? 1 : gap[rn(0, 9)]; }
    npt = 0; for (int i = 0; i < nfar; i++) { PT[npt++] = FAR[i] - 1; PT[npt++] = FAR[i]; PT[npt++] = FAR[i] + 1; }
    return mkspace(1, &FAR[0], &FAR[nfar - 1]);
}
static void check_list(Laik_RangeList* l, Laik_Space* s, int tasks, int merged, int dims) {
    int n = laik_rangelist_rangecount(l);
    // accessors agree with the list
    int sum = 0;
    for (int t = 0; t < tasks; t++) {
        int c = laik_rangelist_tidrangecount(l, t);
        CHECK(c >= 0, "negative count"); 
        for (int k = 0; k < c; k++) {
            Laik_TaskRange* tr = laik_rangelist_tidrange(l, t, k);
            CHECK(tr, "missing range %d of task %d", k, t);
            CHECK(laik_taskrange_get_task(tr) == t, "range %d listed for task %d has task %d", k, t, laik_taskrange_get_task(tr));
            CHECK(tr->no == sum + k, "ranges of tasks not consecutive");
        }
        CHECK(laik_rangelist_tidrange(l, t, c) == 0 && laik_rangelist_tidrange(l, t, -1) == 0, "range behind the end");
        sum += c;
    }
    CHECK(sum == n, "task counts sum up to %d, list has %d", sum, n);
    CHECK(laik_rangelist_taskrange(l, n) == 0, "taskrange past end");
    // sorted
    for (int i = 0; i < n; i++) {
        Laik_TaskRange_Gen* a = &l->trange[i];
        CHECK(a->range.space == s, "space of range");
        if (i == 0) continue;
        Laik_TaskRange_Gen* p = a - 1;
        CHECK(p->task < a->task || (p->task == a->task && (p->tag < a->tag || (p->tag == a->tag && p->range.from.i[0] <= a->range.from.i[0]))), "not sorted at %d", i);
    }
    // map numbers
    for (int t = 0; t < tasks; t++) {
        int c = laik_rangelist_tidrangecount(l, t), m = -1, lasttag = 0, o = (int) l->off[t];
        for (int k = 0; k < c; k++) {
            Laik_TaskRange_Gen* a = &l->trange[o + k];
            if (k == 0 || (!single && a->tag == 0) || a->tag != lasttag) m++;
            lasttag = a->tag;
            CHECK(a->mapNo == m, "map number of range %d of task %d is %d, expected %d", k, t, a->mapNo, m);
        }
        CHECK(laik_rangelist_tidmapcount(l, t) == m + 1, "map count of task %d", t);
    }
    int t = (int) rn(0, tasks - 1);
    int mc = laik_rangelist_tidmapcount(l, t), tot = 0;
    for (int m = 0; m < mc; m++) {
        int c = (int) laik_rangelist_tidmaprangecount(l, t, m);
        CHECK(c > 0, "map without range");
        for (int k = 0; k < c; k++) {
            Laik_TaskRange* tr = laik_rangelist_tidmaprange(l, t, m, k);
            CHECK(tr && laik_taskrange_get_task(tr) == t && laik_taskrange_get_mapNo(tr) == m && tr->no == (int) l->off[t] + tot + k, "range %d in map %d of task %d", k, m, t);
        }
        CHECK(laik_rangelist_tidmaprange(l, t, m, c) == 0 && laik_rangelist_tidmaprange(l, t, m, -1) == 0, "map range past end");
        tot += c;
    }
    CHECK(tot == laik_rangelist_tidrangecount(l, t), "maps do not hold all ranges");
    CHECK(laik_rangelist_tidmaprange(l, t, mc, 0) == 0 && laik_rangelist_tidmaprange(l, t, -1, 0) == 0, "map past end");
    if (!merged) {
        // multiset equality
        CHECK(n == nin, "%d ranges reported, %d listed", nin, n);
        static char used[N]; memset(used, 0, sizeof used);
        for (int i = 0; i < n; i++) {
            int ok = 0;
            for (int j = 0; j < nin && !ok; j++) if (!used[j] && in[j].task == l->trange[i].task && in[j].tag == l->trange[i].tag) {
                int eq = 1; for (int k = 0; k < dims; k++) if (in[j].r.from.i[k] != l->trange[i].range.from.i[k] || in[j].r.to.i[k] != l->trange[i].range.to.i[k]) eq = 0;
                if (eq && l->trange[i].data == (void*)(intptr_t) j) { used[j] = 1; ok = 1; }
            }
            CHECK(ok, "listed range %d was not reported", i);
        }
    } else {
        for (int i = 0; i < n; i++) {
            CHECK(l->trange[i].range.from.i[0] < l->trange[i].range.to.i[0] || nin, "empty");
            if (i && l->trange[i-1].task == l->trange[i].task && l->trange[i-1].tag == l->trange[i].tag)
                CHECK(l->trange[i-1].range.to.i[0] < l->trange[i].range.from.i[0], "ranges %d and %d overlap or touch after merging", i - 1, i);
        }
        // pointwise per (task, tag)
        for (int t2 = 0; t2 < tasks; t2++) for (int tag = 0; tag < 5; tag++) for (int pi = 0; pi < npt; pi++) { int64_t x = PT[pi];
            int a = 0, b = 0;
            for (int j = 0; j < nin; j++) if (in[j].task == t2 && in[j].tag == tag && in[j].r.from.i[0] <= x && x < in[j].r.to.i[0]) a = 1;
            for (int i = 0; i < n; i++) if (l->trange[i].task == t2 && l->trange[i].tag == tag && l->trange[i].range.from.i[0] <= x && x < l->trange[i].range.to.i[0]) b = 1;
            CHECK(a == b, "index %lld of task %d tag %d: reported %d, listed %d", (long long) x, t2, tag, a, b);
        }
    }
}
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("ranges", 0.5)) {
        while (next(60000)) {
            int dims = (int) rn(1, 3), tasks = (int) rn(1, 6); if (chance(50)) dims = 1;
            Laik_Space* s = rndspace(dims, 9, 1); int far_ = dims == 1 && chance(30); if (far_) { rmspace(s); s = farspace(); }
            Laik_RangeList* l = laik_rangelist_new(s, (unsigned) tasks);
            int merge = dims == 1 && chance(60);
            nin = (int) rn(0, chance(20) ? 40 : 10);
            int tagmax = (int) rn(0, 4);
            d("dims=%d tasks=%d merge=%d ranges:", dims, tasks, merge);
            for (int i = 0; i < nin; i++) {
                in[i].task = (int) rn(0, tasks - 1); in[i].tag = (int) rn(0, tagmax); in[i].r = subrange(s); if (far_) { int a = (int) rn(0, nfar - 2), b = (int) rn(a + 1, nfar - 1); in[i].r.from.i[0] = FAR[a]; in[i].r.to.i[0] = FAR[b]; }
                d(" T%d/%d", in[i].task, in[i].tag); drange(&in[i].r, dims);
                laik_rangelist_append(l, in[i].task, &in[i].r, in[i].tag, (void*)(intptr_t) i);
            }
            if (!far_) points(s->range.from.i[0], s->range.to.i[0]);
            laik_rangelist_freeze(l, merge);
            check_list(l, s, tasks, merge, dims);
            if (chance(40)) {     // other process numbering
                int used[6] = {0}, nu = 0, map[6], ids[12]; for (int i = 0; i < nin; i++) used[in[i].task] = 1;
                for (int k = 0; k < tasks; k++) nu += used[k];
                int nc = (int) rn(nu ? nu : 1, 8), p = 0; for (int k = 0; k < nc; k++) ids[k] = k;
                for (int k = nc - 1; k > 0; k--) { int q = (int) rn(0, k), x = ids[k]; ids[k] = ids[q]; ids[q] = x; }
                for (int k = 0; k < tasks; k++) if (used[k]) map[k] = ids[p++];
                for (int k = 0; k < tasks; k++) if (!used[k]) map[k] = p < nc && chance(60) ? ids[p++] : -1;
                d(" migrated to %d:", nc); for (int k = 0; k < tasks; k++) d(" %d", map[k]);
                for (int i = 0; i < nin; i++) in[i].task = map[in[i].task];
                laik_rangelist_migrate(l, map, (unsigned) nc);
                CHECK((int) l->tid_count == nc, "migrated list is for %u processes", l->tid_count);
                check_list(l, s, nc, merge, dims);
            }
            laik_rangelist_free(l); free(l); rmspace(s);
        }
        endtest();
    }
    if (begin("single", 0.3)) {
        while (next(40000)) {
            int tasks = (int) rn(1, 5);
            Laik_Space* s = rndspace(1, 12, 1); int far_ = chance(40); if (far_) { rmspace(s); s = farspace(); }
            Laik_RangeList* l = laik_rangelist_new(s, (unsigned) tasks);
            nin = (int) rn(1, 40);
            d("tasks=%d single indexes:", tasks);
            for (int i = 0; i < nin; i++) {
                in[i].task = (int) rn(0, tasks - 1); in[i].tag = 0; in[i].r = s->range;
                int64_t x = far_ ? FAR[rn(0, nfar - 2)] : rn(s->range.from.i[0], s->range.to.i[0] - 1); in[i].r.from.i[0] = x; in[i].r.to.i[0] = x + 1;
                d(" T%d:%lld", in[i].task, (long long) x);
                laik_rangelist_append_single1d(l, in[i].task, x);
            }
            if (!far_) points(s->range.from.i[0], s->range.to.i[0]);
            single = 1; laik_rangelist_freeze(l, chance(50));
            check_list(l, s, tasks, 1, 1);
            laik_rangelist_free(l); free(l); rmspace(s);
        }
        endtest();
    }
    single = 0;
    if (begin("extreme", 0.2)) {     // extreme coordinates and tags
        while (next(20000)) {
            int tasks = (int) rn(1, 4);
            int64_t f[3] = {-4000000000000000000ll, 0, 0}, t[3] = {4000000000000000000ll, 1, 1};
            Laik_Space* s = mkspace(1, f, t);
            Laik_RangeList* l = laik_rangelist_new(s, (unsigned) tasks);
            nin = (int) rn(0, 12);
            static const int64_t cs[] = {-4000000000000000000ll, -2147483649ll, -2147483648ll, -1, 0, 1, 2147483647ll, 2147483648ll, 4294967296ll, 3999999999999999999ll};
            static const int tg[] = {INT_MIN, -1, 0, 1, 2, INT_MAX};
            d("tasks=%d:", tasks);
            for (int i = 0; i < nin; i++) {
                in[i].task = (int) rn(0, tasks - 1); in[i].tag = tg[rn(0, 5)]; in[i].r = s->range;
                int64_t x = cs[rn(0, 9)], y = cs[rn(0, 9)]; if (x > y) { int64_t z = x; x = y; y = z; } if (x == y) y++;
                in[i].r.from.i[0] = x; in[i].r.to.i[0] = y;
                d(" T%d/%d", in[i].task, in[i].tag); drange(&in[i].r, 1);
                laik_rangelist_append(l, in[i].task, &in[i].r, in[i].tag, (void*)(intptr_t) i);
            }
            laik_rangelist_freeze(l, 0);
            check_list(l, s, tasks, 0, 1);
            laik_rangelist_free(l); free(l); rmspace(s);
        }
        endtest();
    }
    return finish();
}
