// C05: block / bisection / grid / reassign partitioners
#include "h.h"
static double IW[4096]; static int64_t IW0; static int IWD; static double TW[64];
static double iw(Laik_Index* i, const void* d) { return IW[i->i[IWD] - IW0]; }
static double tw(int rank, const void* d) { return TW[rank]; }
static double rw(void) { int k = (int) rn(0, 5); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (double) rn(0, 10) : k == 3 ? (double) rn(1, 1000000) * 1e-6 : k == 4 ? 1e9 : 0.1; }
// every index owned exactly once, ranges inside the space, tasks in the group
static void cover(Laik_Partitioning* p, Laik_Space* s, int g, const char* what) {
    Laik_RangeList* l = laik_partitioning_allranges(p); int dims = s->dims;
    static int cnt[1 << 16]; int64_t n = rsize(&s->range, dims); memset(cnt, 0, sizeof(int) * (size_t) n);
    for (unsigned i = 0; i < l->count; i++) {
        Laik_Range r = l->trange[i].range;
        CHECK(l->trange[i].task >= 0 && l->trange[i].task < g, "%s: task %d outside the group", what, l->trange[i].task);
        for (int k = 0; k < dims; k++) CHECK(r.from.i[k] >= s->range.from.i[k] && r.to.i[k] <= s->range.to.i[k] && r.from.i[k] < r.to.i[k], "%s: range %u (task %d) dim %d [%lld;%lld[ empty or outside the space", what, i, l->trange[i].task, k, (long long) r.from.i[k], (long long) r.to.i[k]);
        FORPOINTS(r, dims, x, y, z) cnt[pnum(s, x, y, z)]++;
    }
    for (int64_t i = 0; i < n; i++) CHECK(cnt[i] == 1, "%s: index number %lld owned %d times", what, (long long) i, cnt[i]);
}
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("block", 0.35)) {
        while (next(60000)) {
            int dims = (int) rn(1, 3), g = (int) rn(1, MAXP), pd = (int) rn(0, dims - 1), cyc = chance(60) ? 1 : (int) rn(1, 10); gsize(g, (int) rn(0, g - 1));
            int64_t f[3], t[3]; for (int k = 0; k < 3; k++) { f[k] = rn(-5, 5); t[k] = f[k] + rn(1, 3); }
            t[pd] = f[pd] + (chance(30) ? rn(1, 200) : rn(1, 25)); Laik_Space* s = mkspace(dims, f, t); int64_t N = t[pd] - f[pd];
            int ui = chance(40), ut = chance(40); IW0 = f[pd]; IWD = pd;
            d("tasks=%d dim=%d cycles=%d space ", g, pd, cyc); drange(&s->range, dims);
            if (ui) { int zero = chance(20); d(" idxw"); for (int64_t i = 0; i < N; i++) { IW[i] = zero ? 0 : rw(); d(" %g", IW[i]); } }
            if (ut) { int zero = chance(10); d(" taskw"); for (int i = 0; i < g; i++) { TW[i] = zero ? 0 : rw(); d(" %g", TW[i]); } }
            Laik_Partitioner* pr = laik_new_block_partitioner(pd, cyc, ui ? iw : 0, ut ? tw : 0, 0);
            if (chance(20)) { laik_set_cycle_count(pr, cyc); if (ui) laik_set_index_weight(pr, iw, 0); if (ut) laik_set_task_weight(pr, tw, 0); }
            Laik_Partitioning* p = laik_new_partitioning(pr, WORLD, s, 0);
            cover(p, s, g, "block");
            if (!ui && !ut && cyc == 1) {
                Laik_RangeList* l = laik_partitioning_allranges(p); int64_t pos = f[pd], lo = 1 << 30, hi = 0;
                for (unsigned i = 0; i < l->count; i++) { Laik_Range r = l->trange[i].range; CHECK(r.from.i[pd] == pos, "block: ranges not in task order"); pos = r.to.i[pd]; int64_t w = r.to.i[pd] - r.from.i[pd]; if (w < lo) lo = w; if (w > hi) hi = w; if (i) CHECK(l->trange[i].task > l->trange[i - 1].task, "block: tasks not consecutive"); }
                if (N >= g) CHECK((int) l->count == g && hi - lo <= 1, "block: %u ranges, sizes %lld..%lld", l->count, (long long) lo, (long long) hi);
            }
            free(pr->data); rmpart(p); rmspace(s);
        }
        endtest();
    }
    if (begin("bigblock", 0.1)) {      // block sizes with many indexes per task
        while (next(6)) {
            int g = (int) rn(2, 7); gsize(g, 0); int64_t n = rn(20000000, 60000000); if (CASE == 1) { g = 3; gsize(3, 0); n = 100000002; } int64_t f[3] = {rn(-5, 5), 0, 0}, t[3] = {f[0] + n, 1, 1}; Laik_Space* s = mkspace(1, f, t);
            d("tasks=%d indexes %lld", g, (long long) n);
            Laik_Partitioning* p = laik_new_partitioning(laik_new_block_partitioner1(), WORLD, s, 0); Laik_RangeList* l = laik_partitioning_allranges(p); int64_t lo = n, hi = 0;
            for (unsigned i = 0; i < l->count; i++) { int64_t w = l->trange[i].range.to.i[0] - l->trange[i].range.from.i[0]; if (w < lo) lo = w; if (w > hi) hi = w; }
            CHECK((int) l->count == g && hi - lo <= 1, "block: %u ranges, sizes %lld..%lld", l->count, (long long) lo, (long long) hi);
            rmpart(p); rmspace(s);
        }
        endtest();
    }
    if (begin("bisection", 0.2)) {
        while (next(60000)) {
            int dims = (int) rn(1, 3), g = (int) rn(1, MAXP); gsize(g, (int) rn(0, g - 1)); Laik_Space* s = rndspace(dims, dims == 1 ? 60 : 12, 1);
            d("tasks=%d space ", g); drange(&s->range, dims);
            Laik_Partitioning* p = laik_new_partitioning(laik_new_bisection_partitioner(), WORLD, s, 0); cover(p, s, g, "bisection"); rmpart(p); rmspace(s);
        }
        endtest();
    }
    if (begin("grid", 0.2)) {
        while (next(60000)) {
            int b[3] = {(int) rn(1, 4), (int) rn(1, 4), (int) rn(1, 4)}; while (b[0] * b[1] * b[2] > MAXP) b[rn(0, 2)] = 1;
            if (chance(10)) { b[0] = b[1] = b[2] = 1; b[rn(0, 2)] = MAXP; }
            int g = (int) rn(b[0] * b[1] * b[2], MAXP); gsize(g, (int) rn(0, g - 1));
            int64_t f[3], t[3]; for (int k = 0; k < 3; k++) { f[k] = rn(-7, 7); t[k] = f[k] + rn(1, chance(15) ? 40 : 9); } Laik_Space* s = mkspace(3, f, t);
            d("tasks=%d blocks %dx%dx%d space ", g, b[0], b[1], b[2]); drange(&s->range, 3);
            Laik_Partitioner* pr = laik_new_grid_partitioner(b[0], b[1], b[2]); Laik_Partitioning* p = laik_new_partitioning(pr, WORLD, s, 0); cover(p, s, g, "grid"); free(pr->data); rmpart(p); rmspace(s);
        }
        endtest();
    }
    if (begin("reassign", 0.25)) {
        while (next(60000)) {
            int g = (int) rn(2, MAXP); gsize(g, 0); Laik_Space* s = rndspace(1, 60, 1);
            static UR u; rndtiles(&u, s, g, 0);
            Laik_Group ng; memset(&ng, 0, sizeof ng); static int fp[MAXP], tp[MAXP]; int n = 0;
            for (int i = 0; i < g; i++) { if (chance(65)) { fp[i] = n; tp[n++] = i; } else fp[i] = -1; }
            if (n == 0) { fp[g - 1] = 0; tp[0] = g - 1; n = 1; }
            ng.size = n; ng.parent = WORLD; ng.fromParent = fp; ng.toParent = tp; ng.inst = INST;
            int ui = chance(50); IW0 = s->range.from.i[0]; IWD = 0;
            d("tasks=%d remaining", g); for (int i = 0; i < n; i++) d(" %d", tp[i]);
            d(" space "); drange(&s->range, 1); dur(&u, 1);
            if (ui) { int zero = chance(20); d(" idxw"); for (int64_t i = 0; i < 60; i++) { IW[i] = zero ? 0 : rw(); d(" %g", IW[i]); } }
            Laik_Partitioning* p = mkpart(s, &u);
            Laik_Partitioner* pr = laik_new_reassign_partitioner(&ng, ui ? iw : 0, 0); Laik_Partitioning* q = laik_new_partitioning(pr, WORLD, s, p);
            cover(q, s, g, "reassign");
            Laik_RangeList* l = laik_partitioning_allranges(q);
            for (unsigned i = 0; i < l->count; i++) CHECK(fp[l->trange[i].task] >= 0, "reassign: range for removed task %d", l->trange[i].task);
            for (int i = 0; i < u.n; i++) if (fp[u.task[i]] >= 0) for (int64_t x = u.r[i].from.i[0]; x < u.r[i].to.i[0]; x++) {
                int ok = 0; for (unsigned k = 0; k < l->count; k++) if (l->trange[k].task == u.task[i] && inr(&l->trange[k].range, 1, x, 0, 0)) ok = 1;
                CHECK(ok, "reassign: index %lld taken from surviving task %d", (long long) x, u.task[i]);
            }
            free(pr->data); rmpart(q); rmpart(p); rmspace(s);
        }
        endtest();
    }
    return finish();
}
