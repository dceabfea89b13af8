// C20: switching partitionings moves every value to where it belongs
// several processes with the real MPI backend on a simulated message passing library (see sim.h)
#include "sim.h"
#include "laik-backend-single.h"
#define MAXPT 600
#include "part.h"
enum { NONE = -1000000000 };
static Laik_Type* TY; static int TI; static Laik_Data* D; static Laik_Group* G; static int STEP;
static int64_t VAL[SP][MAXPT]; static char OWN[SP][MAXPT]; static char KNOWN[MAXPT];      // oracle: values per member of the current group; KNOWN: value defined
static unsigned char NEUTRAL[MAXPT];
static void tobytes(int64_t v, unsigned char* b) {
    switch (TI) { case 0: *(double*) b = (double) v; break; case 1: *(float*) b = (float) v; break; case 2: *(int64_t*) b = v; break; case 3: *(int32_t*) b = (int32_t) v; break;
        case 4: *(uint64_t*) b = (uint64_t) v; break; case 5: *(uint32_t*) b = (uint32_t) v; break; case 6: *(int8_t*) b = (int8_t) v; break; default: *(uint8_t*) b = (uint8_t) v; }
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void build(Part* P, Laik_Group* g) { P->g = g; P->p = laik_new_partitioning(urpart(&P->u), g, S, 0); }
#define EACHMINE(P, BODY) { int nr_ = laik_my_rangecount((P)->p); for (int n_ = 0; n_ < nr_; n_++) { Laik_TaskRange* tr_ = laik_my_range((P)->p, n_); Laik_Range r_ = *laik_taskrange_get_range(tr_); int mapNo = laik_taskrange_get_mapNo(tr_); \
    FORPOINTS(r_, DIMS, x, y, z) { Laik_Index ix = {{x, y, z}}; int i = (int) lin(&ix); unsigned char* a = (unsigned char*) laik_get_map_addr(D, mapNo, &ix); BODY } } }
static void setvals(Part* P, int distinct, int maxv) {       // every owner writes
    int me = P->g->myid; STEP++;
    for (int i = 0; i < NPT; i++) { KNOWN[i] = 1; NEUTRAL[i] = 0; for (int k = 0; k < P->n; k++) { OWN[k][i] = P->own[k][i]; VAL[k][i] = (int64_t) (mix((uint64_t) STEP * 1000003u + (uint64_t) i, distinct ? (uint64_t) k + 1 : 0) % (uint64_t) (maxv + 1)); } }
    if (me >= 0) EACHMINE(P, { SCHECK(a, "no address"); tobytes(VAL[me][i], a); })
}
static void checkvals(Part* P, const char* when, Laik_ReductionOperation op) {
    int me = P->g->myid; if (me < 0) { SCHECK(D->activeMappings == 0 || D->activeMappings->count == 0, "%s: process outside of the group has mappings", when); return; }
    char seen[MAXPT]; memset(seen, 0, sizeof seen); unsigned char nb[16]; if (TY->init) (TY->init)(nb, 1, op == LAIK_RO_None || op >= LAIK_RO_Any ? LAIK_RO_Sum : op);
    EACHMINE(P, {
        unsigned char e[16]; SCHECK(a, "%s: no address of an own index", when); seen[i] = 1; SCHECK(P->own[me][i], "%s: own range contains a foreign index", when);
        if (!KNOWN[i]) continue;
        if (NEUTRAL[i]) memcpy(e, nb, 16); else tobytes(VAL[me][i], e);
        if (memcmp(a, e, (size_t) D->elemsize)) { char h1[40] = ""; char h2[40] = ""; for (int q = 0; q < D->elemsize; q++) { sprintf(h1 + 2 * q, "%02x", a[q]); sprintf(h2 + 2 * q, "%02x", e[q]); }
            sfail("%s: value of index (%lld,%lld,%lld) is 0x%s, expected %s (%lld = 0x%s)", when, (long long) x, (long long) y, (long long) z, h1, NEUTRAL[i] ? "the neutral element" : "", (long long) VAL[me][i], h2); } })
    for (int i = 0; i < NPT; i++) SCHECK(seen[i] == P->own[me][i], "%s: own index %d missing", when, i);
}
static int64_t comb(int op, int64_t a, int64_t b) { switch (op) { case LAIK_RO_Sum: return a + b; case LAIK_RO_Prod: return a * b; case LAIK_RO_Min: return a < b ? a : b; case LAIK_RO_Max: return a > b ? a : b; case LAIK_RO_And: return a & b; default: return a | b; } }
// oracle of a switch between partitionings of the same group
static void oracle(Part* A, Part* B, Laik_DataFlow flow, int op) {
    for (int i = 0; i < NPT; i++) {
        int c = 0; int64_t v = 0; for (int k = 0; k < A->n; k++) if (A->own[k][i]) { v = c && op != LAIK_RO_None && op < LAIK_RO_Any ? comb(op, v, VAL[k][i]) : VAL[k][i]; c++; }
        if (flow == LAIK_DF_None) { KNOWN[i] = 0; continue; }
        if (flow == LAIK_DF_Init) { KNOWN[i] = 1; NEUTRAL[i] = 1; continue; }
        if (c == 0) { NEUTRAL[i] = 1; KNOWN[i] = op != LAIK_RO_None && op < LAIK_RO_Any; continue; }
        if (c > 1 && NEUTRAL[i] && op != LAIK_RO_None) { KNOWN[i] = 0; continue; }
        for (int k = 0; k < B->n; k++) VAL[k][i] = v;
    }
}
static int isAllP(Part* P) { for (int i = 0; i < NPT; i++) if (owners(P, i) != P->n) return 0; for (int i = 0; i < P->u.n; i++) if (rsize(&P->u.r[i], DIMS) != NPT) return 0; return P->u.n == P->n; }
static int isSingleP(Part* P) { return P->u.n == 1 && rsize(&P->u.r[0], DIMS) == NPT; }
static int realop(int maxn, int* maxv) { int o; do o = (int) rn(LAIK_RO_Sum, LAIK_RO_Or); while (TI < 2 && (o == LAIK_RO_And || o == LAIK_RO_Or)); *maxv = o == LAIK_RO_Prod ? 2 : TI >= 6 ? 20 : 1000; return o; }
// choose flow and reduction which are legal for the two partitionings
static void choose(Part* A, Part* B, Laik_DataFlow* flow, int* op, int* maxv, int* distinct) {
    int multi = 0, miss = 0, noout = 0; *maxv = TI >= 6 ? 100 : 100000; *distinct = 1;
    for (int i = 0; i < NPT; i++) { int c = owners(A, i), o = owners(B, i); if (c > 1) { multi = 1; if (!o) noout = 1; } if (!c && o) miss = 1; }
    (void) noout; *flow = LAIK_DF_Preserve; *op = LAIK_RO_None;
    if (chance(7)) { *flow = LAIK_DF_None; if (DIMS == 1) *op = chance(50) ? LAIK_RO_None : LAIK_RO_Sum; return; }
    if (DIMS == 1 && chance(10)) { *flow = LAIK_DF_Init; *op = realop(A->n, maxv); return; }
    if (DIMS == 1) { if (multi || miss || chance(30)) *op = realop(A->n, maxv); else if (chance(20)) *op = chance(50) ? LAIK_RO_Any : LAIK_RO_Single; }
    else if (INST->backend != &laik_backend_mpi && isAllP(A) && isAllP(B)) *op = realop(1, maxv); else *distinct = 0;      // the MPI backend implements reductions for 1d only
}
static Part PT[6]; static int np;
static void steps(int k) {
    Part* cur = 0; Laik_Transition* tr[36] = {0};
    for (int s = 0; s < k; s++) {
        Part* nx = &PT[rn(0, np - 1)]; Laik_DataFlow fl = LAIK_DF_None; int op = 0, mv = 100, dist = 1, path = (int) rn(0, 4);
        if (cur) choose(cur, nx, &fl, &op, &mv, &dist);
        int how = (int) rn(0, 99);
        d(" | %s%d flow %d op %d path %d", cur ? "->P" : "P", (int) (nx - PT), fl, op, path);
        if (!cur) { if (how < 30) laik_set_initial_partitioning(D, nx->p), laik_switchto_partitioning(D, nx->p, LAIK_DF_None, LAIK_RO_None); else laik_switchto_partitioning(D, nx->p, how < 60 && DIMS == 1 ? LAIK_DF_Init : LAIK_DF_None, how < 60 && DIMS == 1 ? LAIK_RO_Sum : LAIK_RO_None);
            cur = nx; for (int i = 0; i < NPT; i++) { KNOWN[i] = how >= 30 && how < 60 && DIMS == 1; NEUTRAL[i] = 1; } checkvals(cur, "first", LAIK_RO_Sum); continue; }
        setvals(cur, dist, mv); checkvals(cur, "written", LAIK_RO_Sum);
        if (path <= 1) laik_switchto_partitioning(D, nx->p, fl, op);
        else {
            Laik_Transition* t = laik_calc_transition(S, cur->p, nx->p, fl, op); SCHECK(t, "no transition");
            if (path == 2 || t->redCount) laik_exec_transition(D, t);       // action sequences for reductions need reserved memory
            else { Laik_ActionSeq* as = laik_calc_actions(D, t, 0, 0); laik_exec_actions(as); laik_aseq_free(as); }
        }
        oracle(cur, nx, fl, op); cur = nx; checkvals(cur, "after switch", op);
    }
    (void) tr;
}
// two partitionings in one reservation, switched forth and back with precomputed actions
static void reserve(void) {
    int a = 0, b = 1, mvA, mvB, dA, dB, oA, oB; Laik_DataFlow fA, fB; Part *A = &PT[a], *B = &PT[b];
    Laik_Reservation* r = laik_reservation_new(D); laik_reservation_add(r, A->p); laik_reservation_add(r, B->p); if (np > 2 && chance(50)) laik_reservation_add(r, PT[2].p);
    laik_reservation_alloc(r); laik_data_use_reservation(D, r);
    laik_switchto_partitioning(D, A->p, LAIK_DF_None, LAIK_RO_None);
    choose(A, B, &fA, &oA, &mvA, &dA); choose(B, A, &fB, &oB, &mvB, &dB); d(" | reservation P0 -> P1 flow %d op %d, P1 -> P0 flow %d op %d", fA, oA, fB, oB);
    Laik_Transition *tA = laik_calc_transition(S, A->p, B->p, fA, oA), *tB = laik_calc_transition(S, B->p, A->p, fB, oB); int prep = (int) rn(0, 2); if (tA->redCount || tB->redCount) prep = 2;
    Laik_ActionSeq *sA = laik_calc_actions(D, tA, prep ? r : 0, prep ? r : 0), *sB = laik_calc_actions(D, tB, prep > 1 ? r : 0, prep > 1 ? r : 0); d(" prepared %d", prep);
    for (int i = 0; i < 3; i++) {
        setvals(A, dA, mvA); if (chance(80)) laik_exec_actions(sA); else laik_exec_transition(D, tA); oracle(A, B, fA, oA); checkvals(B, "reservation, forth", oA);
        setvals(B, dB, mvB); if (chance(80)) laik_exec_actions(sB); else laik_exec_transition(D, tB); oracle(B, A, fB, oB); checkvals(A, "reservation, back", oB);
    }
    laik_aseq_free(sA); laik_aseq_free(sB);
    if (np > 3) {        // leave the reservation
        Part* C = &PT[3]; Laik_DataFlow f; int o, mv, dd; choose(A, C, &f, &o, &mv, &dd); setvals(A, dd, mv); laik_switchto_partitioning(D, C->p, f, o); oracle(A, C, f, o); checkvals(C, "after reservation", o);
        laik_reservation_free(r); Part* E = &PT[np > 4 ? 4 : 0]; choose(C, E, &f, &o, &mv, &dd); setvals(C, dd, mv); laik_switchto_partitioning(D, E->p, f, o); oracle(C, E, f, o); checkvals(E, "after freed reservation", o);
    }
}
static int MODE;
static void body(int me, int n) {
    static const int dimw[] = {1, 1, 1, 2, 2, 3}; DIMS = dimw[rn(0, 5)]; char env[8]; sprintf(env, "%d", (int) rn(0, 1)); setenv("LAIK_MPI_REDUCE", env, 1); d("%d processes, %dd, reduce %s", n, DIMS, env); sprintf(env, "%d", (int) rn(0, 1)); setenv("LAIK_MPI_ASYNC", env, 1); d(" async %s", env);
    if (n == 1 && chance(60)) { INST = laik_init_single(); d(" single backend"); } else INST = laik_init_mpi(0, 0);
    int sb = INST->backend != &laik_backend_mpi;
    WORLD = INST->world; if (!WORLD) WORLD = laik_world(INST); G = WORLD; SCHECK(WORLD->size == n && WORLD->myid == me, "world");
    TI = (int) rn(0, 7); Laik_Type* ty[] = {laik_Double, laik_Float, laik_Int64, laik_Int32, laik_UInt64, laik_UInt32, laik_Char, laik_UChar}; TY = ty[TI]; d(" type %s", TY->name);
    int64_t f[3], t[3]; int mx = DIMS == 1 ? 40 : DIMS == 2 ? 10 : 6; for (int k = 0; k < 3; k++) { f[k] = chance(50) ? 0 : rn(-20, 20); t[k] = f[k] + rn(DIMS == 1 ? 2 : 1, mx); }
    S = mkspace(DIMS, f, t); S->id = 1; NPT = (int) rsize(&S->range, DIMS); d(" space "); drange(&S->range, DIMS);
    D = laik_new_data(S, TY);
    if (MODE == 0 || MODE == 1) {
        np = (int) rn(2, 5); int tg = MODE == 1 ? (chance(60) ? 1 : 2) : -1;
        for (int i = 0; i < np; i++) {
            rndowners(&PT[i], n, (int) rn(0, 5), tg >= 0 ? tg : (int) rn(0, 2));
            build(&PT[i], G); d(" P%d:%s%s", i, PT[i].u.single ? "single" : "", PT[i].u.fl ? "merge" : ""); dur(&PT[i].u, DIMS);
        }
        if (MODE == 0) steps((int) rn(2, 8)); else reserve();
    } else {            // switch to a partitioning of a smaller group and back to work within it
        int rm[SP], nrm = (int) rn(1, n - 1), gone[SP] = {0}, map[SP], k2 = 0; for (int i = 0; i < nrm; i++) { rm[i] = (int) rn(0, n - 1); gone[rm[i]] = 1; } for (int i = 0; i < n; i++) map[i] = gone[i] ? -1 : k2++;
        d(" removed"); for (int i = 0; i < n; i++) if (gone[i]) d(" %d", i);
        Laik_Group* g2 = laik_new_shrinked_group(G, nrm, rm); SCHECK(g2->size == k2, "size");
        rndowners(&PT[0], n, chance(50) ? 0 : 1, (int) rn(0, 2)); build(&PT[0], G); rndowners(&PT[1], k2, chance(60) ? 0 : 1, (int) rn(0, 2)); build(&PT[1], g2); rndowners(&PT[2], k2, 0, 0); build(&PT[2], g2);
        for (int i = 0; i < 3; i++) { d(" P%d(%d):", i, PT[i].n); dur(&PT[i].u, DIMS); }
        laik_switchto_partitioning(D, PT[0].p, LAIK_DF_None, LAIK_RO_None);
        // oracle in numbering of the large group
        Part* L = malloc(sizeof *L); *L = PT[1]; L->n = n; memset(L->own, 0, sizeof L->own); for (int i = 0; i < n; i++) if (map[i] >= 0) memcpy(L->own[i], PT[1].own[map[i]], MAXPT); for (int i = 0; i < L->u.n; i++) for (int q = 0; q < n; q++) if (map[q] == PT[1].u.task[i]) { L->u.task[i] = q; break; }
        Laik_DataFlow fl; int op, mv, dist; choose(&PT[0], L, &fl, &op, &mv, &dist); d(" flow %d op %d", fl, op); setvals(&PT[0], dist, mv);
        laik_switchto_partitioning(D, PT[1].p, fl, op); oracle(&PT[0], L, fl, op);
        for (int i = 0; i < n; i++) if (map[i] >= 0) memcpy(VAL[map[i]], VAL[i], sizeof VAL[i]);
        checkvals(&PT[1], "after switch to smaller group", op);
        choose(&PT[1], &PT[2], &fl, &op, &mv, &dist); d(" flow %d op %d", fl, op); setvals(&PT[1], dist, mv); laik_switchto_partitioning(D, PT[2].p, fl, op); oracle(&PT[1], &PT[2], fl, op); checkvals(&PT[2], "within smaller group", op);
    }
    if (me == 0) snprintf(SIM->indesc, sizeof SIM->indesc, "%s", DESC);
}
int main(int argc, char** argv) {
    simsetup(argc, argv);
    static const struct { const char* n; double sh; } T[] = {{"switch", 0.5}, {"reservation", 0.25}, {"shrink", 0.25}};
    for (MODE = 0; MODE < 3; MODE++) if (begin(T[MODE].n, T[MODE].sh)) {
        while (next(1000000)) simrun((int) (chance(12) ? rn(6, 11) : rn(MODE == 2 ? 2 : 1, 5)), body);
        endtest();
    }
    return finish();
}
