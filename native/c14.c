// C14: buffers of action sequences are large enough and never shared
#define C14
#include "c13.c"
#include <sys/resource.h>
// random sequence of one process: reservations and uses, in any order after the reservation, several allocations
static Laik_CopyEntry CEB[400];
static void res_case(void) {
    AN = 3; DIMS = 1; Laik_Type* ty[] = {laik_UInt32, laik_UInt64, laik_UChar}; ATY = ty[rn(0, 2)]; AES = (unsigned) ATY->size; int64_t f[3] = {0, 0, 0}, t[3] = {500, 1, 1}; gsize(AN, 0); S = mkspace(1, f, t);
    AProc* p = &AP[0]; UR all; memset(&all, 0, sizeof all); all.r[0] = S->range; all.n = 1; Laik_Partitioning* pp = mkpart(S, &all); p->t = laik_calc_transition(S, pp, pp, LAIK_DF_Preserve, LAIK_RO_Sum); p->d = mkdata(S); p->from = mklist(p->d, pp, &p->fmem, &p->fn); p->to = mklist(p->d, pp, &p->tmem, &p->tn); amem(p);
    p->as = laik_aseq_new(INST); laik_aseq_addTContext(p->as, p->d, p->t, p->from, p->to); Laik_ActionSeq* as = p->as; d("%u bytes", AES); AWHEN = "reservations"; nrg = 0; int nc = 0; int id0 = as->id; (void) id0;
    int phases = (int) rn(1, ASEQ_BUFFER_MAX);
    for (int ph = 0; ph < phases; ph++) {
        if (ph) laik_aseq_copySeq(as);
        // keep the present actions, add new ones
        { Laik_Action* a = as->action; for (unsigned i = 0; i < as->actionCount; i++, a = nextAction(a)) laik_aseq_add(a, as, -1); }
        int nr = (int) rn(0, chance(20) ? 60 : 8), ids[64], sz[64], seen = 0, uses = (int) rn(0, 20); d(" | alloc %d:", ph);
        for (int i = 0, u = 0; seen < nr || u < uses;) {
            if (seen < nr && (u >= uses || !seen || chance(50))) { sz[seen] = (int) rn(seen ? 0 : 1, chance(10) ? 3000 : 40); if (seen && chance(10)) sz[seen] = 0; ids[seen] = laik_aseq_addBufReserve(as, (unsigned) sz[seen] * AES, -1); for (int q = 0; q < seen; q++) CHECK(ids[q] != ids[seen], "two reservations with ID %d", ids[q]); CHECK(ids[seen] >= 100, "ID %d of a reservation", ids[seen]); d(" r%d", sz[seen]); seen++; continue; }
            if (!seen) break; u++; i = (int) rn(0, seen - 1); if (sz[i] == 0 || nrg > 380 || nc > 380) continue; int c = (int) rn(1, sz[i]), o = (int) rn(0, sz[i] - c), r = (int) rn(0, 3), id = ids[i]; unsigned ob = (unsigned) o * AES; if (c > 400 && chance(50)) c = 400;
            Laik_Range* R = &RG[nrg++]; *R = S->range; R->from.i[0] = rn(0, 500 - (c > 500 ? 500 : c)); R->to.i[0] = R->from.i[0] + (c > 500 ? 500 : c); if (c > 500) c = 500; char* mb = p->tmem; int k = (int) rn(0, 11); d(" %c%d:%d+%d", 'a' + k, i, o, c);
            switch (k) {
            case 0: laik_aseq_addRBufSend(as, r, id, ob, (unsigned) c, (int) rn(1, 2)); break; case 1: laik_aseq_addRBufRecv(as, r, id, ob, (unsigned) c, (int) rn(1, 2)); break;
            case 2: laik_aseq_addRBufLocalReduce(as, r, ATY, LAIK_RO_Max, id, ob, mb, (unsigned) c); break; case 3: laik_aseq_addRBufCopy(as, r, id, ob, mb, (unsigned) c); break;
            case 4: laik_aseq_addPackToRBuf(as, r, &p->from->map[0], R, id, ob); break; case 5: laik_aseq_addMapPackToRBuf(as, r, 0, R, id, ob); break; case 6: laik_aseq_addUnpackFromRBuf(as, r, id, ob, &p->to->map[0], R); break; case 7: laik_aseq_addMapUnpackFromRBuf(as, r, id, ob, 0, R); break;
            case 8: case 9: { int n = (int) rn(1, c < 4 ? c : 4), w = 0; Laik_CopyEntry* ce = &CEB[nc]; nc += n; for (int q = 0; q < n; q++) { int m = q == n - 1 ? c - w : (int) rn(1, c - w - (n - 1 - q)); ce[q].ptr = mb; ce[q].bytes = (unsigned) m * AES; ce[q].offset = (unsigned) (o + w) * AES; w += m; }
                if (k == 8) laik_aseq_addCopyToRBuf(as, r, ce, id, 0, (unsigned) n); else laik_aseq_addCopyFromRBuf(as, r, ce, id, 0, (unsigned) n); break; }
            case 10: laik_aseq_addRBufReduce(as, r, id, ob, (unsigned) c, (int) rn(-1, 2), LAIK_RO_Sum); break; default: laik_aseq_addRBufGroupReduce(as, r, -1, -1, id, ob, (unsigned) c, LAIK_RO_Sum);
            }
            if (chance(20)) laik_aseq_addBufSend(as, r, mb, (unsigned) c, 1); if (chance(5)) laik_aseq_addHalt(as);
        }
        laik_aseq_activateNewActions(as); checked_alloc(0);
    }
    laik_aseq_free(as); p->as = 0; laik_free_transition(p->t); rmpart(pp); afree(); rmspace(S);
}
// sizes which do not fit: stop with an error report or allocate enough, never a smaller buffer
static void large_case(void) {
    int n = (int) rn(2, 6); unsigned sz[8]; uint64_t sum = 0; AN = 1; DIMS = 1; ATY = laik_UChar; AES = 1; d("reservations"); for (int i = 0; i < n; i++) { sz[i] = (unsigned) rn(1ll << 29, chance(50) ? 0xffffffffll : 3ll << 30); sum += sz[i]; d(" %u", sz[i]); }
    fflush(stdout); pid_t c = fork(); if (!c) {
        fork_child_flag = 1; done_ok = 1; freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); signal(SIGABRT, SIG_DFL);
        int64_t f[3] = {0, 0, 0}, t[3] = {8, 1, 1}; gsize(1, 0); S = mkspace(1, f, t); Laik_Transition tr; memset(&tr, 0, sizeof tr); tr.group = WORLD; tr.name = "t"; Laik_Data* D = mkdata(S);
        Laik_ActionSeq* as = laik_aseq_new(INST); laik_aseq_addTContext(as, D, &tr, 0, 0); char mb[8]; int ids[8]; for (int i = 0; i < n; i++) { ids[i] = laik_aseq_addBufReserve(as, sz[i], -1); laik_aseq_addRBufCopy(as, 0, ids[i], 0, mb, 1); } laik_aseq_activateNewActions(as);
        laik_aseq_allocBuffer(as); uint64_t have = 0; for (int i = 0; i < as->bufferCount; i++) have += as->bufSize[i]; _exit(have >= sum ? 42 : 43);
    }
    int st; waitpid(c, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 43), "buffer smaller than its reservations (%llu bytes)", (unsigned long long) sum);
    CHECK(WIFEXITED(st) || WTERMSIG(st) == SIGABRT, "signal %d", WTERMSIG(st));
}
// optimising transitions with messages above 4 GB
static void largetrans_case(void) {
    AN = 2; DIMS = 2; Laik_Type* ty[] = {laik_UInt32, laik_UInt64, laik_UChar}; ATY = ty[rn(0, 2)]; AES = (unsigned) ATY->size; int64_t f[3] = {0, 0, 0}, t[3] = {rn(1ll << 8, 1ll << 16), rn(1ll << 8, 1ll << 16), 1}; if (t[0] * t[1] >= (1ll << 32)) t[1] = 1 << 15; d("%lldx%lld of %u bytes", (long long) t[0], (long long) t[1], AES);
    fflush(stdout); pid_t c = fork(); if (!c) {
        fork_child_flag = 1; done_ok = 1; freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); signal(SIGABRT, SIG_DFL);
        gsize(2, 0); S = mkspace(2, f, t); Laik_Transition tr; memset(&tr, 0, sizeof tr); tr.group = WORLD; tr.name = "t"; Laik_Data* D = mkdata(S); Laik_ActionSeq* as = laik_aseq_new(INST); laik_aseq_addTContext(as, D, &tr, 0, 0);
        if (chance(50)) laik_aseq_addMapPackAndSend(as, 0, 0, &S->range, 1); else laik_aseq_addMapRecvAndUnpack(as, 0, 0, &S->range, 1); laik_aseq_activateNewActions(as); laik_aseq_flattenPacking(as);
        uint64_t need = (uint64_t) t[0] * (uint64_t) t[1] * AES, have = 0; Laik_Action* a = as->action; for (unsigned i = 0; i < as->actionCount; i++, a = nextAction(a)) if (a->type == LAIK_AT_BufReserve) have += ((Laik_A_BufReserve*) a)->size; _exit(have >= need ? 42 : 43);
    }
    int st; waitpid(c, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 43), "reservation smaller than the message"); CHECK(WIFEXITED(st) || WTERMSIG(st) == SIGABRT, "signal %d", WTERMSIG(st));
}
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("reservations", 0.5)) { while (next(1000000000)) res_case(); endtest(); }
    if (begin("transition", 0.25)) { while (next(1000000000)) trans_case(); endtest(); }
    if (begin("recorded", 0.15)) { while (next(1000000000)) rec_case(); endtest(); }
    if (begin("large", 0.05)) { while (next(200)) large_case(); endtest(); }
    if (begin("largetrans", 0.05)) { while (next(200)) largetrans_case(); endtest(); }
    return finish();
}
