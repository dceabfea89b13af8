// C11: mappings cover the process's own indexes, conversions are consistent, reuse keeps values
// one process of a group; sequences of switches (values received from others are not looked at), reservations
#include "h.h"
#define MAXPT 800
#include "part.h"
static Laik_Data* D; static unsigned ES; static Laik_Type* TYP[12]; static int nt;
static char KNOWN[MAXPT]; static unsigned EP[MAXPT]; static unsigned ESTEP; static int ME;
static char* BASE0; static uint64_t SIZE0; static char* OLDB[16]; static int nob;       // memory provided by the application
// allocator which counts
static long LIVE; static int inuse(void* p);
static struct { char* p; size_t n; } AL[400]; static int nal;
static void* cmalloc(Laik_Data* dd, size_t n) { CHECK(dd == D, "allocation for another container"); CHECK(nal < 400, "too many allocations live"); char* p = malloc(n); memset(p, 0xEE, n); AL[nal].p = p; AL[nal++].n = n; LIVE++; return p; }
static void cfree(Laik_Data* dd, void* p) { CHECK(dd == D, "release for another container"); for (int i = 0; i < nal; i++) if (AL[i].p == p) { free(p); AL[i] = AL[--nal]; LIVE--; return; } fail("memory released which is not allocated"); }
static int inuse(void* p) { for (int i = 0; i < nal; i++) if (AL[i].p <= (char*) p && (char*) p < AL[i].p + AL[i].n) return i + 1; return 0; }
static void pat(char* b, int i, unsigned e) { uint64_t h = (uint64_t) i * 1000003u + e * 7777777u + 5; for (unsigned k = 0; k < ES; k++) { h = h * 6364136223846793005ull + 1442695040888963407ull; b[k] = (char) (h >> 40); } }
typedef struct { Part P; Laik_Partitioning* p; } PP;
static PP pp[8]; static int npp;
static char* addr(int m, Laik_Index* ix) { char* a = laik_get_map_addr(D, m, ix); CHECK(a != 0, "no address"); return a; }
// all own elements, via their mapping
#define OWNPOINTS(p, tr, x, y, z) for (int j_ = 0, nr_ = laik_my_rangecount(p); j_ < nr_; j_++) for (Laik_TaskRange* tr = laik_my_range(p, j_); tr; tr = 0) FORPOINTS(*laik_taskrange_get_range(tr), DIMS, x, y, z)
static void writeall(Laik_Partitioning* p) {
    ESTEP++; OWNPOINTS(p, tr, x, y, z) { Laik_Index ix = {{x, y, z}}; int i = (int) lin(&ix); EP[i] = ESTEP; KNOWN[i] = 1; pat(addr(laik_taskrange_get_mapNo(tr), &ix), i, ESTEP); }
}
static void checkvals(Laik_Partitioning* p, const char* when) {
    char b[64]; OWNPOINTS(p, tr, x, y, z) { Laik_Index ix = {{x, y, z}}; int i = (int) lin(&ix); if (!KNOWN[i]) continue; pat(b, i, EP[i]);
        CHECK(!memcmp(b, addr(laik_taskrange_get_mapNo(tr), &ix), ES), "value of index %lld,%lld,%lld in mapping %d lost %s", (long long) x, (long long) y, (long long) z, laik_taskrange_get_mapNo(tr), when); }
}
// structure of the current mappings
static void checkmaps(Laik_Partitioning* p, PP* q) {
    CHECK(D->activePartitioning == p && laik_data_get_partitioning(D) == p, "active partitioning"); int n = laik_my_mapcount(p), nr = laik_my_rangecount(p);
    CHECK(laik_get_map(D, -1) == 0 && laik_get_map(D, n) == 0, "mapping out of range");
    // own ranges as expected
    long cov = 0; OWNPOINTS(p, tr0, x, y, z) { Laik_Index ix = {{x, y, z}}; CHECK(q->P.own[ME][lin(&ix)], "own range with an index of another process"); cov++; } (void) cov;
    for (int m = 0; m < n; m++) {
        Laik_Mapping* M = laik_get_map(D, m); CHECK(M && laik_map_get_mapNo(M) == m, "mapping %d", m); CHECK(M->data == D, "container of mapping %d", m);
        Laik_Range bb; int have = 0;
        for (int j = 0; j < nr; j++) { Laik_TaskRange* tr = laik_my_range(p, j); if (laik_taskrange_get_mapNo(tr) != m) continue; const Laik_Range* r = laik_taskrange_get_range(tr);
            if (!have) { bb = *r; have = 1; } else for (int k = 0; k < DIMS; k++) { if (r->from.i[k] < bb.from.i[k]) bb.from.i[k] = r->from.i[k]; if (r->to.i[k] > bb.to.i[k]) bb.to.i[k] = r->to.i[k]; } }
        CHECK(have, "mapping %d without range", m);
        for (int k = 0; k < DIMS; k++) { CHECK(M->requiredRange.from.i[k] == bb.from.i[k] && M->requiredRange.to.i[k] == bb.to.i[k], "mapping %d covers [%lld;%lld[ in dimension %d instead of [%lld;%lld[", m, (long long) M->requiredRange.from.i[k], (long long) M->requiredRange.to.i[k], k, (long long) bb.from.i[k], (long long) bb.to.i[k]);
            CHECK(M->allocatedRange.from.i[k] <= bb.from.i[k] && bb.to.i[k] <= M->allocatedRange.to.i[k], "allocated range of mapping %d smaller than the required one", m); }
        uint64_t cnt = (uint64_t) rsize(&bb, DIMS), acnt = (uint64_t) rsize(&M->allocatedRange, DIMS); CHECK(M->count == cnt, "mapping %d has %llu elements instead of %llu", m, (unsigned long long) M->count, (unsigned long long) cnt); CHECK(M->allocCount == acnt && M->capacity >= acnt * ES, "allocated size of mapping %d: %llu elements, %llu bytes for %llu", m, (unsigned long long) M->allocCount, (unsigned long long) M->capacity, (unsigned long long) acnt);
        int ai = inuse(M->start); if (!ai) { int pm = BASE0 && M->start == BASE0; for (int o = 0; o < 16; o++) if (OLDB[o] && M->start == OLDB[o]) pm = 1; CHECK(pm && M->capacity <= SIZE0 + 50, "memory of mapping %d is not allocated", m); } else CHECK(AL[ai - 1].p + AL[ai - 1].n >= M->start + M->capacity, "capacity of mapping %d is larger than its memory", m);
        CHECK(M->base == addr(m, &bb.from), "base of mapping %d is not the address of its first index", m);
        for (int o = 0; o < m; o++) { Laik_Mapping* O = laik_get_map(D, o); CHECK(O->start + O->capacity <= M->start || M->start + M->capacity <= O->start, "mappings %d and %d share memory", o, m); }
        void* b = 0; uint64_t s[5] = {0}; static char seen[MAXPT * 8]; CHECK(acnt < sizeof seen, "size"); memset(seen, 0, acnt);
        if (DIMS == 1) { CHECK(laik_get_map_1d(D, m, &b, &s[0]) == M && b == M->base && s[0] == cnt, "1d description of mapping %d", m); s[1] = s[2] = s[3] = s[4] = 0; }
        else if (DIMS == 2) { CHECK(laik_get_map_2d(D, m, &b, &s[1], &s[2], &s[0]) == M && (int64_t) s[0] == bb.to.i[0] - bb.from.i[0] && (int64_t) s[1] == bb.to.i[1] - bb.from.i[1], "2d description of mapping %d", m); }
        else CHECK(laik_get_map_3d(D, m, &b, &s[3], &s[4], &s[1], &s[2], &s[0]) == M && (int64_t) s[0] == bb.to.i[0] - bb.from.i[0] && (int64_t) s[1] == bb.to.i[1] - bb.from.i[1] && (int64_t) s[3] == bb.to.i[2] - bb.from.i[2], "3d description of mapping %d", m);
        FORPOINTS(bb, DIMS, x, y, z) {
            Laik_Index ix = {{x, y, z}}; char* a = addr(m, &ix); CHECK(a >= M->start && a + ES <= M->start + M->capacity, "address of %lld,%lld,%lld outside of mapping %d", (long long) x, (long long) y, (long long) z, m);
            CHECK((a - M->start) % ES == 0 && (uint64_t) (a - M->start) / ES < acnt, "address of an element"); CHECK(!seen[(a - M->start) / ES]++, "two indexes of mapping %d with the same address", m);
            int64_t lx = x - bb.from.i[0], ly = DIMS > 1 ? y - bb.from.i[1] : 0, lz = DIMS > 2 ? z - bb.from.i[2] : 0;
            CHECK(a == (char*) b + ((uint64_t) lx + (uint64_t) ly * s[2] + (uint64_t) lz * s[4]) * ES, "element %lld,%lld,%lld not at the place described by the strides of mapping %d", (long long) x, (long long) y, (long long) z, m);
            CHECK((unsigned char) a[0] == 0x77 || 1, " ");
        }
    }
    if (DIMS == 1) for (int64_t g = S->range.from.i[0] - 2; g < S->range.to.i[0] + 2; g++) {
        uint64_t l = 99999, l2 = 99999; int mn = -2; Laik_Mapping *M = laik_global2local_1d(D, g, &l), *N = laik_global2maplocal_1d(D, g, &mn, &l2); CHECK(M == N, "conversions of index %lld disagree on the mapping", (long long) g);
        int covered = 0; for (int m = 0; m < n; m++) { Laik_Range* r = &laik_get_map(D, m)->requiredRange; if (g >= r->from.i[0] && g < r->to.i[0]) covered = 1; }
        Laik_Index ix = {{g}}; if (!covered) { CHECK(!M && mn == -1, "local index of %lld which is not mapped", (long long) g); continue; }
        CHECK(M && mn == M->mapNo && M == laik_get_map(D, mn) && l == l2, "mapping of index %lld", (long long) g); CHECK(l < M->count && M->base + l * ES == addr(mn, &ix), "local index %llu of %lld does not match its address", (unsigned long long) l, (long long) g);
        CHECK(laik_maplocal2global_1d(D, mn, l) == g, "local index %llu of mapping %d converted to %lld instead of %lld", (unsigned long long) l, mn, (long long) laik_maplocal2global_1d(D, mn, l), (long long) g);
        if (n == 1) CHECK(laik_local2global_1d(D, l) == g, "local index %llu converted to %lld", (unsigned long long) l, (long long) laik_local2global_1d(D, l));
        CHECK(laik_global2local_1d(D, g, 0) == M && laik_global2maplocal_1d(D, g, 0, 0) == M, "conversion without result pointers");
    }
}
static int nown(PP* q, int i) { return owners(&q->P, i); }
static int reservable(PP* q) { int n = laik_my_mapcount(q->p), nr = laik_my_rangecount(q->p); if (n <= 1) return 1; for (int j = 0; j < nr; j++) if (laik_taskrange_get_tag(laik_my_range(q->p, j)) <= 0) return 0; return 1; }
static void onecase(void) {
    DIMS = (int) rn(1, 3); int n = (int) rn(1, 4); ME = chance(4) ? -1 : (int) rn(0, n - 1); int64_t f[3], t[3]; int mx = DIMS == 1 ? 60 : DIMS == 2 ? 12 : 6; for (int k = 0; k < 3; k++) { f[k] = chance(40) ? 0 : rn(-30, 30); t[k] = f[k] + rn(1, mx); }
    gsize(n, ME); S = mkspace(DIMS, f, t); NPT = (int) rsize(&S->range, DIMS); d("process %d of %d, %dd ", ME, n, DIMS); drange(&S->range, DIMS);
    Laik_Type* ty = TYP[rn(0, nt - 1)]; ES = (unsigned) ty->size; D = laik_new_data(S, ty); Laik_Allocator* A = laik_new_allocator(cmalloc, cfree, 0); laik_set_allocator(D, A); CHECK(laik_get_allocator(D) == A, "allocator"); nal = 0; LIVE = 0; BASE0 = 0; SIZE0 = 0;
    CHECK(laik_data_get_space(D) == S && D->elemsize == (int) ES, "container"); d(" type %s", ty->name);
    npp = (int) rn(2, 6);
    for (int i = 0; i < npp; i++) { PP* q = &pp[i]; rndowners(&q->P, n, (int) rn(0, 5), chance(20) ? 0 : (int) rn(1, 2)); if (DIMS == 1 && q->P.tagged == 0 && chance(60)) q->P.u.single = q->P.single = 0; d(" P%d:%s%s", i, q->P.u.single ? "single" : "", q->P.u.fl ? "merge" : ""); dur(&q->P.u, DIMS); q->p = mkpart(S, &q->P.u); }
    PP* cur = 0; memset(KNOWN, 0, sizeof KNOWN); int steps = (int) rn(2, THOROUGH ? 14 : 9); Laik_Reservation* R = 0; int rused = 0;
    for (int s = 0; s < steps; s++) {
        if (chance(25)) setenv("LAIK_LAYOUT_GENERIC", "1", 1); else unsetenv("LAIK_LAYOUT_GENERIC");
        if (!R && chance(20)) {
            R = laik_reservation_new(D); d(" reserve"); rused = 0; int cntr = 0; for (int i = 0; i < npp; i++) if (chance(60) && (ME < 0 || reservable(&pp[i]))) { laik_reservation_add(R, pp[i].p); rused |= 1 << i; cntr++; d(" P%d", i); }
            laik_reservation_alloc(R); laik_data_use_reservation(D, R); (void) cntr;
            for (int i = 0; i < npp; i++) if (ME >= 0) { Laik_MappingList* ml = laik_reservation_getMList(R, pp[i].p); CHECK((ml != 0) == ((rused >> i) & 1), "mappings of P%d in the reservation", i); }
        }
        int k = (int) rn(0, npp - 1); PP* q = &pp[k]; int prov = 0;
        if (!R && ME >= 0 && chance(BASE0 ? 70 : 8)) { if (!(BASE0 && q == cur && D->activeMappings->count && D->activeMappings->map[0].start == BASE0 && chance(50))) { if (OLDB[nob & 15]) free(OLDB[nob & 15]); OLDB[nob++ & 15] = BASE0; SIZE0 = (uint64_t) NPT * ES + (uint64_t) rn(0, 50); BASE0 = malloc(SIZE0); memset(BASE0, 0x33, SIZE0); d(" provided"); } laik_data_provide_memory(D, BASE0, SIZE0); prov = 1; } else laik_data_provide_memory(D, 0, 0);
        int flow = LAIK_DF_Preserve, op = LAIK_RO_None; if (chance(15)) flow = LAIK_DF_None; else if (chance(10) && DIMS == 1 && ty->init) { flow = LAIK_DF_Init; op = LAIK_RO_Max; }
        static char was[MAXPT]; memset(was, 0, sizeof was); if (cur && ME >= 0) for (int i = 0; i < NPT; i++) was[i] = KNOWN[i] && cur->P.own[ME][i];
        if (cur && DIMS == 1 && flow == LAIK_DF_Preserve) { int need = 0; for (int i = 0; i < NPT; i++) { int c = nown(cur, i); if (c > 1) need = 1; if (!c && nown(q, i)) need = 1; } if (need) op = LAIK_RO_Sum; }
        d(" switch P%d flow %d op %d", k, flow, op);
        if (chance(25) && (!cur || 1)) { Laik_Transition* tr = laik_calc_transition(S, cur ? cur->p : 0, q->p, flow, op); if (tr) { if (chance(50)) { d(" exec"); laik_exec_transition(D, tr); } else { d(" actions"); Laik_ActionSeq* as = laik_calc_actions(D, tr, chance(50) ? D->activeReservation : 0, chance(50) ? D->activeReservation : 0); laik_exec_actions(as); laik_aseq_free(as); } laik_free_transition(tr); } else laik_switchto_partitioning(D, q->p, flow, op); }
        else if (cur == q && chance(30)) laik_switchto_flow(D, flow, op); else laik_switchto_partitioning(D, q->p, flow, op);
        if (ME >= 0) {
            CHECK(D->activeMappings && D->activeMappings->count == laik_my_mapcount(q->p), "number of mappings"); CHECK((D->activeMappings->res != 0) == (R != 0 && ((rused >> k) & 1)), "use of reserved memory");
            int nk = 0; for (int i = 0; i < NPT; i++) { KNOWN[i] = 0; if (cur && flow == LAIK_DF_Preserve && was[i] && q->P.own[ME][i] && (DIMS > 1 || nown(cur, i) == 1)) { KNOWN[i] = 1; nk++; } }
            checkmaps(q->p, q); checkvals(q->p, "by the switch"); if (prov && laik_my_mapcount(q->p)) CHECK(laik_get_map(D, 0)->start == BASE0, "memory provided by the application not used");
            if (flow == LAIK_DF_Init) OWNPOINTS(q->p, tr, x, y, z) { Laik_Index ix = {{x, y, z}}; char b[64]; (ty->init)(b, 1, op); CHECK(!memcmp(b, addr(laik_taskrange_get_mapNo(tr), &ix), ES), "index %lld not initialised", (long long) x); }
            if (chance(85)) { writeall(q->p); checkvals(q->p, "by writing others"); }
        } else CHECK(D->activeMappings == 0, "mappings of a process outside of the group");
        cur = q;
        if (R && chance(15)) { // leave the reservation, then free it
            d(" unreserve"); Laik_Reservation* r2 = R; int c = -1; for (int i = 0; i < npp; i++) if (!((rused >> i) & 1)) c = i;
            if (c >= 0) { laik_switchto_partitioning(D, pp[c].p, LAIK_DF_None, LAIK_RO_None); memset(KNOWN, 0, sizeof KNOWN); cur = &pp[c]; laik_reservation_free(r2); R = 0; CHECK(D->activeReservation == 0, "freed reservation still active"); if (ME >= 0) { checkmaps(cur->p, cur); writeall(cur->p); } }
        }
    }
    if (cur) { d(" end"); laik_switchto_partitioning(D, 0, LAIK_DF_None, LAIK_RO_None); CHECK(D->activePartitioning == 0 && D->activeMappings == 0, "mappings left after the switch to nothing"); }
    if (R) laik_reservation_free(R);
    CHECK(LIVE == 0, "%ld allocations not released", LIVE);
    for (int i = 0; i < npp; i++) rmpart(pp[i].p); laik_free(D); INST->data_count = 0; free(A); rmspace(S); free(BASE0); BASE0 = 0; for (int o = 0; o < 16; o++) { free(OLDB[o]); OLDB[o] = 0; } nob = 0;
}
int main(int argc, char** argv) {
    setup(argc, argv);
    TYP[nt++] = laik_UChar; TYP[nt++] = laik_Int32; TYP[nt++] = laik_Double; TYP[nt++] = laik_Int64; TYP[nt++] = laik_type_register("three", 3); TYP[nt++] = laik_type_register("twelve", 12);
    if (begin("switches", 1.0)) { while (next(100000000)) onecase(); endtest(); }
    return finish();
}
