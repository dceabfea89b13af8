// C13: transformations of action sequences do not change what is communicated and computed
#include "act.h"
enum { X_SPLIT, X_FLAT, X_ALLRED, X_COMB, X_ALLOC, X_SRED, X_ROUNDS, X_2PH, X_DIG, X_COPY, X_N };
static const char* XN[] = {"splitTransitionExecs", "flattenPacking", "replaceWithAllReduce", "combineActions", "allocBuffer", "splitReduce", "sort_rounds", "sort_2phases", "sort_rankdigits", "copySeq"};
static int bytesame(Laik_ActionSeq* as, char* old, size_t n, unsigned cnt) { return as->actionCount == cnt && as->bytesUsed == n && !memcmp(old, as->action, n); }
// buffer allocation: every use inside of its reservation, reservations inside of the buffer and disjoint
static int checked_alloc(int k) {
    AProc* p = &AP[k]; Laik_ActionSeq* as = p->as; gsize(AN, k); size_t n = as->bytesUsed; unsigned cnt = as->actionCount; char* old = malloc(n + 1); if (n) memcpy(old, as->action, n); int bc = as->bufferCount; uint64_t sum = 0;
    static struct { unsigned size; int seen, known; int64_t base; } R[1200]; memset(R, 0, sizeof R); Laik_Action* a = (void*) old; int nres = 0;
    for (unsigned i = 0; i < cnt; i++, a = nextAction(a)) if (a->type == LAIK_AT_BufReserve && ((Laik_A_BufReserve*) a)->bufID >= 100) { Laik_A_BufReserve* r = (void*) a; int id = r->bufID - 100; ACHECK(id < 1200, "buffer ID %d", r->bufID); R[id].size = r->size; R[id].seen = 1; sum += r->size; nres++; }
    int did = laik_aseq_allocBuffer(as);
    ACHECK(did == (sum > 0), "process %d: %llu bytes reserved, but %s", k, (unsigned long long) sum, did ? "a buffer allocated" : "no buffer allocated");
    ACHECK(as->bufferCount == bc + (did ? 1 : 0), "process %d: %d buffers", k, as->bufferCount);
    if (!did) { free(old); return 0; }
    char* buf = as->buf[bc]; int64_t bs = (int64_t) as->bufSize[bc]; ACHECK(buf && bs >= (int64_t) sum, "process %d: buffer of %lld bytes for reservations of %llu bytes", k, (long long) bs, (unsigned long long) sum);
    memset(buf, 0x3C, (size_t) bs); // allocated in fact
    for (int j = 0; j < bc; j++) ACHECK(!as->buf[j] || as->buf[j] + as->bufSize[j] <= buf || buf + bs <= as->buf[j], "process %d: buffers %d and %d overlap", k, j, bc);
    a = (void*) old; Laik_Action* b = as->action; unsigned nb = 0;
    for (unsigned i = 0; i < cnt; i++, a = nextAction(a)) {
        if (a->type == LAIK_AT_BufReserve || a->type == LAIK_AT_Nop) continue;
        ACHECK(nb < as->actionCount, "process %d: action %u lost", k, i); Laik_BackendAction *x = (void*) a, *y = (void*) b; int id = -1, want = a->type, cp = 0; int64_t off = 0, ptr = 0, len = 0; ACHECK(b->round == a->round && b->tid == a->tid, "process %d: round of action %u changed", k, i);
#define RB(ID, OFF, CNT) { id = (ID); off = (OFF); len = (int64_t) (CNT) * AES; }
#define NP(P) { ptr = (P) - buf; }
        switch (a->type) {
        case LAIK_AT_RBufSend: { Laik_A_RBufSend* q = (void*) a; Laik_A_BufSend* z = (void*) b; RB(q->bufID, q->offset, q->count) want = LAIK_AT_BufSend; ACHECK(b->type == want && z->count == q->count && z->to_rank == q->to_rank, "process %d: send %u changed", k, i); NP(z->buf) break; }
        case LAIK_AT_RBufRecv: { Laik_A_RBufRecv* q = (void*) a; Laik_A_BufRecv* z = (void*) b; RB(q->bufID, q->offset, q->count) want = LAIK_AT_BufRecv; ACHECK(b->type == want && z->count == q->count && z->from_rank == q->from_rank, "process %d: receive %u changed", k, i); NP(z->buf) break; }
        case LAIK_AT_RBufCopy: case LAIK_AT_RBufLocalReduce: RB(x->bufID, x->offset, x->count) ACHECK(b->type == want && y->count == x->count && y->toBuf == x->toBuf && (want == LAIK_AT_RBufCopy || (y->redOp == x->redOp && y->dtype == x->dtype)), "process %d: action %u changed", k, i); ACHECK(id < 100 ? y->bufID == id : y->bufID == bc, "process %d: action %u refers to buffer %d", k, i, y->bufID); ptr = y->offset; break;
        case LAIK_AT_PackToRBuf: RB(x->bufID, x->offset, x->count) want = LAIK_AT_PackToBuf; ACHECK(b->type == want && y->map == x->map && y->range == x->range && y->count == x->count, "process %d: action %u changed", k, i); NP(y->toBuf) break;
        case LAIK_AT_MapPackToRBuf: RB(x->bufID, x->offset, x->count) want = LAIK_AT_MapPackToBuf; ACHECK(b->type == want && y->fromMapNo == x->fromMapNo && y->range == x->range && y->count == x->count, "process %d: action %u changed", k, i); NP(y->toBuf) break;
        case LAIK_AT_UnpackFromRBuf: RB(x->bufID, x->offset, x->count) want = LAIK_AT_UnpackFromBuf; ACHECK(b->type == want && y->map == x->map && y->range == x->range && y->count == x->count, "process %d: action %u changed", k, i); NP(y->fromBuf) break;
        case LAIK_AT_MapUnpackFromRBuf: RB(x->bufID, x->offset, x->count) want = LAIK_AT_MapUnpackFromBuf; ACHECK(b->type == want && y->toMapNo == x->toMapNo && y->range == x->range && y->count == x->count, "process %d: action %u changed", k, i); NP(y->fromBuf) break;
        case LAIK_AT_CopyToRBuf: case LAIK_AT_CopyFromRBuf: RB(x->bufID, x->offset, 0) for (unsigned q = 0; q < x->count; q++) if ((int64_t) x->ce[q].offset + x->ce[q].bytes > len) len = (int64_t) x->ce[q].offset + x->ce[q].bytes;
            want = a->type == LAIK_AT_CopyToRBuf ? LAIK_AT_CopyToBuf : LAIK_AT_CopyFromBuf; ACHECK(b->type == want && y->ce == x->ce && y->count == x->count, "process %d: action %u changed", k, i); NP(want == LAIK_AT_CopyToBuf ? y->toBuf : y->fromBuf) break;
        case LAIK_AT_RBufReduce: RB(x->bufID, x->offset, x->count) want = LAIK_AT_Reduce; ACHECK(b->type == want && y->count == x->count && y->rank == x->rank && y->redOp == x->redOp && y->fromBuf == y->toBuf, "process %d: action %u changed", k, i); NP(y->toBuf) break;
        case LAIK_AT_RBufGroupReduce: RB(x->bufID, x->offset, x->count) want = LAIK_AT_GroupReduce; ACHECK(b->type == want && y->count == x->count && y->inputGroup == x->inputGroup && y->outputGroup == x->outputGroup && y->redOp == x->redOp && y->fromBuf == y->toBuf, "process %d: action %u changed", k, i); NP(y->toBuf) break;
        default: ACHECK(b->type == a->type && b->len == a->len && !memcmp((char*) a + 4, (char*) b + 4, (size_t) a->len - 4), "process %d: action %u of type %d changed", k, i, a->type); cp = 1;
        }
        if (!cp && id >= 100) {
            id -= 100; ACHECK(R[id].seen, "process %d: use of a buffer which is not reserved", k); int64_t base = ptr - off; ACHECK(base >= 0 && base + R[id].size <= bs, "process %d: reservation %d (%u bytes) at %lld of a buffer of %lld bytes", k, id, R[id].size, (long long) base, (long long) bs);
            ACHECK(!R[id].known || R[id].base == base, "process %d: reservation %d used at %lld and at %lld", k, id, (long long) base, (long long) R[id].base); R[id].known = 1; R[id].base = base; ACHECK(ptr + len <= base + R[id].size, "process %d: action %u uses %lld bytes at %lld of a reservation of %u bytes", k, i, (long long) len, (long long) off, R[id].size);
        }
        b = nextAction(b); nb++; (void) want;
    }
    ACHECK(nb == as->actionCount, "process %d: %u actions instead of %u", k, as->actionCount, nb);
    for (int i = 0; i < 1200; i++) if (R[i].known) for (int j = 0; j < i; j++) if (R[j].known && R[i].size && R[j].size) ACHECK(R[i].base + R[i].size <= R[j].base || R[j].base + R[j].size <= R[i].base, "process %d: reservations %d and %d overlap", k, i, j);
    free(old); return 1;
}
static int xapply(int k, int x) {
    AProc* p = &AP[k]; Laik_ActionSeq* as = p->as; gsize(AN, k); size_t n = as->bytesUsed; unsigned cnt = as->actionCount; char* old = malloc(n + 1); if (n) memcpy(old, as->action, n); int r = 0;
    switch (x) {
    case X_SPLIT: r = laik_aseq_splitTransitionExecs(as); break; case X_FLAT: r = laik_aseq_flattenPacking(as); break; case X_ALLRED: r = laik_aseq_replaceWithAllReduce(as); break;
    case X_COMB: r = laik_aseq_combineActions(as); break; case X_ALLOC: free(old); return checked_alloc(k); case X_SRED: r = laik_aseq_splitReduce(as); break;
    case X_ROUNDS: r = laik_aseq_sort_rounds(as); break; case X_2PH: r = laik_aseq_sort_2phases(as); break; case X_DIG: r = laik_aseq_sort_rankdigits(as); break;
    default: laik_aseq_copySeq(as); r = 1;
    }
    if (!r) ACHECK(as->actionCount == cnt && as->bytesUsed == n, "process %d: no change reported, but the sequence is another one", k);
    // after sorting: rounds in order and without gap, all other actions as before
    if (x == X_ROUNDS || x == X_2PH || x == X_DIG) {
        ACHECK(as->actionCount == cnt, "process %d: %u actions instead of %u", k, as->actionCount, cnt); int lr = -1; Laik_Action* a = as->action;
        for (unsigned i = 0; i < cnt; i++, a = nextAction(a)) { ACHECK(a->round >= lr, "process %d: action %u of round %d after round %d", k, i, a->round, lr); if (r) ACHECK(a->round <= lr + 1, "process %d: round %d follows %d", k, a->round, lr); lr = a->round; }
    }
    free(old); (void) bytesame; return r;
}
static int rounds(void) { int m = 0; for (int k = 0; k < AN; k++) if (AP[k].as->roundCount > m) m = AP[k].as->roundCount; return m; }
static void pipeline(int split0, int redok) { int split;
    static char w[600]; AWHEN = "original sequence"; arun(0); aref();
    split = split0; int flat = 0, comb = 0, alloc = 0, open = 0, openred = 0, steps = (int) rn(1, 12), last = -1, std = chance(35), si = 0; w[0] = 0;
    static const int S1[] = {X_SPLIT, X_FLAT, X_ALLRED, X_COMB, X_ALLOC, X_SRED, X_ALLOC, X_ROUNDS, X_COMB, X_ALLOC, X_2PH, -1};
    for (int s = 0; std ? S1[si] >= 0 : s < steps; s++) {
        int x = std ? S1[si++] : chance(split ? 0 : 60) ? X_SPLIT : (int) rn(0, X_N - 1);
        if (std && x == X_ALLRED && chance(40)) continue;
        if (!split && x != X_SPLIT && x != X_COPY && x != X_ROUNDS && chance(80)) continue;
        if ((x == X_FLAT || x == X_COMB || x == X_SRED) && rounds() > 80) continue;
        if (x == X_FLAT && flat) { if (chance(80)) continue; }
        if (x == X_COMB && comb >= 5) continue; if (x == X_ALLOC) { int full = 0; for (int k = 0; k < AN; k++) if (AP[k].as->bufferCount >= ASEQ_BUFFER_MAX) full = 1; if (full) continue; }
        if (x == X_SRED && !redok) continue;
        // sorting may put an action before the reservation it refers to: allocate before
        if ((x == X_ROUNDS || x == X_2PH || x == X_DIG) && open) { if (AP[0].as->bufferCount >= ASEQ_BUFFER_MAX) continue; x = X_ALLOC; s--; if (std) si--; int full = 0; for (int k = 0; k < AN; k++) if (AP[k].as->bufferCount >= ASEQ_BUFFER_MAX) full = 1; if (full) return; }
        // combining needs the same kind of send and receive actions at both ends: buffers of split reductions must be allocated before
        if (x == X_COMB && openred) continue;
        snprintf(w + strlen(w), 60, "%s%s", w[0] ? ", " : "", XN[x]); d(" %s", XN[x]); AWHEN = w;
        int did = 0; for (int k = 0; k < AN; k++) did |= xapply(k, x);
        if (x == X_SPLIT) split = 1; if (x == X_FLAT) { flat = 1; open = 1; } if (x == X_COMB) { comb++; open = 1; } if (x == X_SRED) open = openred = 1; if (x == X_ALLOC) open = openred = 0; if (x == X_ALLOC) alloc++;
        arun(0); acompare(); last = x;
        if (split && (x == X_2PH || x == X_DIG)) { arun(1); acompare(); }
    }
    (void) alloc; (void) last;
}
static void done_seq(void) { for (int k = 0; k < AN; k++) { gsize(AN, k); AP[k].as->context[0] ? (void) 0 : (void) 0; laik_aseq_free(AP[k].as); } }
// a transition between two random partitionings
static Part A, B;
static void trans_case(void) {
    AN = (int) (chance(15) ? rn(1, 12) : rn(1, 5)); DIMS = chance(60) ? 1 : (int) rn(2, 3); int64_t f[3], t[3]; int mx = DIMS == 1 ? 50 : DIMS == 2 ? 9 : 5; for (int k = 0; k < 3; k++) { f[k] = chance(50) ? 0 : rn(-20, 20); t[k] = f[k] + rn(1, mx); }
    gsize(AN, 0); S = mkspace(DIMS, f, t); NPT = (int) rsize(&S->range, DIMS); rndowners(&A, AN, (int) rn(0, 5), (int) rn(0, 2)); rndowners(&B, AN, (int) rn(0, 5), (int) rn(0, 2)); if (chance(15)) B = A;
    int red = 0; if (DIMS == 1) for (int i = 0; i < NPT; i++) if (owners(&A, i) != 1) red = 1; int op = red ? (int) rn(LAIK_RO_Sum, LAIK_RO_Or) : LAIK_RO_None;
    Laik_Type* ty[] = {laik_UInt32, laik_UInt64, laik_UChar}; ATY = ty[rn(0, 2)]; AES = (unsigned) ATY->size; int nomap = !red && chance(25), nolist = chance(50);
    d("%d processes, %dd %u bytes %s", AN, DIMS, AES, nomap ? nolist ? "without mappings" : "without memory" : ""); drange(&S->range, DIMS); d(" A:"); dur(&A.u, DIMS); d(" B:"); dur(&B.u, DIMS); d(" op %d:", op);
    Laik_Partitioning *pa[SP], *pb[SP]; char* sv[SP][2]; (void) sv;
    for (int k = 0; k < AN; k++) {
        gsize(AN, k); AProc* p = &AP[k]; pa[k] = mkpart(S, &A.u); pb[k] = mkpart(S, &B.u); p->t = laik_calc_transition(S, pa[k], pb[k], LAIK_DF_Preserve, op); p->d = mkdata(S);
        p->from = mklist(p->d, pa[k], &p->fmem, &p->fn); p->to = mklist(p->d, pb[k], &p->tmem, &p->tn);
        int same = p->from->count == p->to->count; for (int m = 0; same && m < p->from->count; m++) for (int c = 0; c < DIMS; c++) if (p->from->map[m].requiredRange.from.i[c] != p->to->map[m].requiredRange.from.i[c] || p->from->map[m].requiredRange.to.i[c] != p->to->map[m].requiredRange.to.i[c]) same = 0;
        if (same && chance(60)) { free(p->tmem); p->tmem = p->fmem; p->alias = 1; for (int m = 0; m < p->to->count; m++) p->to->map[m].base = p->to->map[m].start = p->from->map[m].base; }
        amem(p); p->as = laik_aseq_new(INST);
        int tid = laik_aseq_addTContext(p->as, p->d, p->t, nomap && nolist ? 0 : p->from, nomap && nolist ? 0 : p->to); laik_aseq_addTExec(p->as, tid); laik_aseq_activateNewActions(p->as);
        p->fmem = p->fmem;
    }
    if (nomap && !nolist) { // mappings known, but not yet allocated when the sequence is optimised: run in two phases
        char* bs[SP][2][64]; int ok = 1; for (int k = 0; k < AN; k++) if (AP[k].from->count > 64 || AP[k].to->count > 64) ok = 0;
        if (ok) {
            AWHEN = "original sequence"; arun(0); aref();
            for (int k = 0; k < AN; k++) { AProc* p = &AP[k]; for (int m = 0; m < p->from->count; m++) { bs[k][0][m] = p->from->map[m].base; p->from->map[m].base = 0; } for (int m = 0; m < p->to->count; m++) { bs[k][1][m] = p->to->map[m].base; p->to->map[m].base = 0; } }
            AWHEN = "optimised before allocation"; for (int k = 0; k < AN; k++) { static const int S2[] = {X_SPLIT, X_FLAT, X_COMB, X_ALLOC, X_ROUNDS, X_COMB, X_ALLOC, X_2PH, -1}; for (int i = 0; S2[i] >= 0; i++) xapply(k, S2[i]); }
            for (int k = 0; k < AN; k++) { AProc* p = &AP[k]; for (int m = 0; m < p->from->count; m++) p->from->map[m].base = bs[k][0][m]; for (int m = 0; m < p->to->count; m++) p->to->map[m].base = bs[k][1][m]; }
            arun(0); acompare(); arun(1); acompare();
        }
    } else pipeline(0, 1);
    for (int k = 0; k < AN; k++) { gsize(AN, k); laik_aseq_free(AP[k].as); laik_free_transition(AP[k].t); rmpart(pa[k]); rmpart(pb[k]); }
    afree(); rmspace(S);
}
// hand-recorded sequences: messages, buffers, copies and reductions in several rounds
static Laik_Range RG[400]; static int nrg;
static void rec_case(void) {
    AN = (int) rn(2, chance(20) ? 10 : 5); DIMS = 1; Laik_Type* ty[] = {laik_UInt32, laik_UInt64, laik_UChar}; ATY = ty[rn(0, 2)]; AES = (unsigned) ATY->size; int N = 1200; nrg = 0;
    int64_t f[3] = {rn(-5, 5), 0, 0}, t[3] = {f[0] + N, 1, 1}; gsize(AN, 0); S = mkspace(1, f, t); UR all; memset(&all, 0, sizeof all); for (int k = 0; k < AN; k++) { all.r[k] = S->range; all.task[k] = k; } all.n = AN;
    int ng = (int) rn(1, 6); static int gs[8]; for (int g = 0; g < ng; g++) gs[g] = (int) rn(1, (1 << AN) - 1);
    Laik_Partitioning* pp[SP]; static TaskGroup tg[SP][8]; static int tasks[SP][8][SP];
    for (int k = 0; k < AN; k++) {
        gsize(AN, k); AProc* p = &AP[k]; pp[k] = mkpart(S, &all); p->t = laik_calc_transition(S, pp[k], pp[k], LAIK_DF_Preserve, LAIK_RO_Sum); p->d = mkdata(S); p->from = mklist(p->d, pp[k], &p->fmem, &p->fn); p->to = mklist(p->d, pp[k], &p->tmem, &p->tn); amem(p);
        for (int g = 0; g < ng; g++) { int c = 0; for (int q = 0; q < AN; q++) if ((gs[g] >> q) & 1) tasks[k][g][c++] = q; tg[k][g].count = c; tg[k][g].task = tasks[k][g]; } p->t->subgroup = tg[k]; p->t->subgroupCount = ng;
        p->as = laik_aseq_new(INST); laik_aseq_addTContext(p->as, p->d, p->t, p->from, p->to);
    }
    d("%d processes, %u bytes, groups", AN, AES); for (int g = 0; g < ng; g++) d(" 0x%x", gs[g]);
    int pos = 0, ev = (int) rn(1, 25), maxr = (int) rn(0, 3), redok = 1, noflat = 0, nred = chance(50); static Laik_CopyEntry CE[SP][200]; int nce[SP] = {0};
    for (int e = 0; e < ev && pos < N - 60; e++) {
        int kind = (int) rn(0, nred ? 6 : 4), c = (int) rn(1, 12), r = (int) rn(0, maxr), a = (int) rn(0, AN - 1), b = (int) ((a + rn(1, AN - 1)) % AN); int off = (int) rn(0, N - 40), ob = pos; pos += c + (int) rn(0, 1);
        if (nrg > 390) break; Laik_Range *fr = &RG[nrg++], *to = &RG[nrg++]; *fr = S->range; fr->from.i[0] = f[0] + off; fr->to.i[0] = f[0] + off + c; *to = S->range; to->from.i[0] = f[0] + ob; to->to.i[0] = f[0] + ob + c;
        char *fb = AP[a].fmem + (size_t) off * AES, *tb = AP[b].tmem + (size_t) ob * AES; d("; %d:", r);
        switch (kind) {
        case 0: d("buf %d->%d %d", a, b, c); laik_aseq_addBufSend(AP[a].as, r, fb, (unsigned) c, b); laik_aseq_addBufRecv(AP[b].as, r, tb, (unsigned) c, a); break;
        case 1: d("map %d->%d %d", a, b, c); laik_aseq_addMapPackAndSend(AP[a].as, r, 0, fr, b); laik_aseq_addMapRecvAndUnpack(AP[b].as, r, 0, to, a); break;
        case 2: { d("rbuf %d->%d %d", a, b, c); int x = (int) rn(0, 3), y = (int) rn(0, 3); int i1 = laik_aseq_addBufReserve(AP[a].as, (unsigned) (c + x + y) * AES, -1), i2 = laik_aseq_addBufReserve(AP[b].as, (unsigned) (c + x) * AES, -1);
            if (chance(50)) laik_aseq_addPackToRBuf(AP[a].as, r, &AP[a].from->map[0], fr, i1, (unsigned) x * AES); else laik_aseq_addMapPackToRBuf(AP[a].as, r, 0, fr, i1, (unsigned) x * AES);
            laik_aseq_addRBufSend(AP[a].as, r + 1, i1, (unsigned) x * AES, (unsigned) c, b); laik_aseq_addRBufRecv(AP[b].as, r + 1, i2, 0, (unsigned) c, a);
            switch (rn(0, 3)) { case 0: laik_aseq_addUnpackFromRBuf(AP[b].as, r + 2, i2, 0, &AP[b].to->map[0], to); break; case 1: laik_aseq_addMapUnpackFromRBuf(AP[b].as, r + 2, i2, 0, 0, to); break; case 2: laik_aseq_addRBufCopy(AP[b].as, r + 2, i2, 0, tb, (unsigned) c); break;
            default: laik_aseq_addRBufCopy(AP[b].as, r + 2, i2, 0, tb, (unsigned) c); laik_aseq_addRBufLocalReduce(AP[b].as, r + 3, ATY, LAIK_RO_Sum, i2, 0, tb, (unsigned) c); } break; }
        case 3: { d("copy %d:%d", a, c); char* tb2 = AP[a].tmem + (size_t) ob * AES; if (chance(50)) { if (chance(50)) laik_aseq_addBufCopy(AP[a].as, r, fb, tb2, (unsigned) c); else laik_aseq_addBufInit(AP[a].as, r, ATY, LAIK_RO_Sum, tb2, (unsigned) c); break; }
            int x = (int) rn(0, 4), id = laik_aseq_addBufReserve(AP[a].as, (unsigned) (c + x) * AES, -1), n = (int) rn(1, c < 4 ? c : 4), u = 0; if (nce[a] + 2 * n > 200) break; Laik_CopyEntry* ce = &CE[a][nce[a]]; nce[a] += 2 * n;
            for (int i = 0; i < n; i++) { int m = i == n - 1 ? c - u : (int) rn(1, c - u - (n - 1 - i)); ce[i].ptr = fb + (size_t) u * AES; ce[i].bytes = (unsigned) m * AES; ce[i].offset = (unsigned) (x + u) * AES; ce[n + i] = ce[i]; ce[n + i].ptr = tb2 + (size_t) u * AES; u += m; }
            laik_aseq_addCopyToRBuf(AP[a].as, r, ce, id, 0, (unsigned) n); laik_aseq_addCopyFromRBuf(AP[a].as, r + 1, ce + n, id, 0, (unsigned) n); break; }
        case 4: d("map in buffer %d->%d %d", a, b, c); laik_aseq_addPackAndSend(AP[a].as, r, &AP[a].from->map[0], fr, b); laik_aseq_addRecvAndUnpack(AP[b].as, r, &AP[b].to->map[0], to, a); break;
        case 5: case 6: { int gi = chance(30) ? -1 : (int) rn(0, ng - 1), go = chance(30) ? -1 : (int) rn(0, ng - 1), in = gi < 0 ? (1 << AN) - 1 : gs[gi], out = go < 0 ? (1 << AN) - 1 : gs[go], op = (int) rn(LAIK_RO_Sum, LAIK_RO_Or), inpl = chance(40); d("reduce 0x%x->0x%x %d op %d%s", in, out, c, op, inpl ? " in place" : "");
            for (int k = 0; k < AN; k++) if (((in | out) >> k) & 1) { char* o = AP[k].tmem + (size_t) ob * AES; char* i = inpl ? o : AP[k].fmem + (size_t) off * AES; if (kind == 6 && !inpl && off == ob) laik_aseq_addMapGroupReduce(AP[k].as, r, gi, go, 0, 0, to, op);
                else laik_aseq_addGroupReduce(AP[k].as, r, gi, go, (in >> k) & 1 ? i : 0, (out >> k) & 1 ? o : 0, (unsigned) c, op); } break; }
        }
    }
    d(" :"); for (int k = 0; k < AN; k++) laik_aseq_activateNewActions(AP[k].as); (void) noflat;
    pipeline(1, redok);
    for (int k = 0; k < AN; k++) { gsize(AN, k); laik_aseq_free(AP[k].as); AP[k].t->subgroup = 0; AP[k].t->subgroupCount = 0; laik_free_transition(AP[k].t); rmpart(pp[k]); }
    afree(); rmspace(S);
}
#ifndef C14
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("transition", 0.5)) { while (next(1000000000)) trans_case(); endtest(); }
    if (begin("recorded", 0.5)) { while (next(1000000000)) rec_case(); endtest(); }
    (void) done_seq; return finish();
}
#endif
