// action sequences of all processes of a group, executed by an interpreter in one address space:
// messages per pair of processes stay in order, sends buffered or rendezvous, reductions are collective in their group
#ifndef ACT_H
#define ACT_H
#include "h.h"
#define MAXPT 600
#include "part.h"
#define MAXA 3000
typedef struct { long bytes; unsigned count; char* p; } AMsg;
typedef struct { AMsg m[600]; int first, n; } AChan;
typedef struct {
    Laik_Data* d; Laik_Transition* t; Laik_MappingList *from, *to; Laik_ActionSeq* as;
    char *fmem, *tmem, *fsave, *tsave, *fref, *tref; size_t fn, tn; int alias;      // memory behind the mappings: contents before, and after the reference run
    Laik_BackendAction* xp[MAXA]; int xn, pc; Laik_BackendAction* own[MAXA]; int ownn;
} AProc;
static AProc AP[SP]; static int AN; static AChan ACH[SP][SP]; static int RDV; static unsigned AES; static const char* AWHEN = "";
static Laik_Type* ATY;
#define AF(...) do { char w_[700]; snprintf(w_, sizeof w_, __VA_ARGS__); fail("%s: %s", AWHEN, w_); } while (0)
#define ACHECK(c, ...) do { if (!(c)) AF(__VA_ARGS__); } while (0)
static int gbits(Laik_Transition* t, int g) { int n = laik_trans_groupCount(t, g), s = 0; for (int i = 0; i < n; i++) s |= 1 << laik_trans_taskInGroup(t, g, i); return s; }
static char* mapaddr(Laik_MappingList* l, int no, Laik_Mapping* m, Laik_Index* ix) {
    if (!m) { ACHECK(l && no >= 0 && no < l->count, "mapping %d of %d", no, l ? l->count : -1); m = &l->map[no]; }
    int64_t o = 0, mul = 1; for (int k = 0; k < DIMS; k++) { ACHECK(ix->i[k] >= m->requiredRange.from.i[k] && ix->i[k] < m->requiredRange.to.i[k], "index outside of the mapping"); o += (ix->i[k] - m->requiredRange.from.i[k]) * mul; mul *= m->requiredRange.to.i[k] - m->requiredRange.from.i[k]; }
    return m->base + o * (int64_t) AES;
}
static void packr(Laik_MappingList* l, int no, Laik_Mapping* m, Laik_Range* r, char* buf) { FORPOINTS(*r, DIMS, x, y, z) { Laik_Index ix = {{x, y, z}}; memcpy(buf, mapaddr(l, no, m, &ix), AES); buf += AES; } }
static void unpackr(Laik_MappingList* l, int no, Laik_Mapping* m, Laik_Range* r, const char* buf) { FORPOINTS(*r, DIMS, x, y, z) { Laik_Index ix = {{x, y, z}}; memcpy(mapaddr(l, no, m, &ix), buf, AES); buf += AES; } }
// normalised access to the different kinds of actions
typedef struct { int kind; int peer; unsigned count; } SR;      // kind 1 send, 2 receive
static SR sr(Laik_Action* a) {
    SR s = {0}; Laik_BackendAction* b = (Laik_BackendAction*) a;
    switch (a->type) {
    case LAIK_AT_RBufSend: s.kind = 1; s.peer = ((Laik_A_RBufSend*) a)->to_rank; s.count = ((Laik_A_RBufSend*) a)->count; break;
    case LAIK_AT_BufSend: s.kind = 1; s.peer = ((Laik_A_BufSend*) a)->to_rank; s.count = ((Laik_A_BufSend*) a)->count; break;
    case LAIK_AT_MapPackAndSend: s.kind = 1; s.peer = ((Laik_A_MapPackAndSend*) a)->to_rank; s.count = ((Laik_A_MapPackAndSend*) a)->count; break;
    case LAIK_AT_MapSend: case LAIK_AT_PackAndSend: s.kind = 1; s.peer = b->rank; s.count = b->count; break;
    case LAIK_AT_RBufRecv: s.kind = 2; s.peer = ((Laik_A_RBufRecv*) a)->from_rank; s.count = ((Laik_A_RBufRecv*) a)->count; break;
    case LAIK_AT_BufRecv: s.kind = 2; s.peer = ((Laik_A_BufRecv*) a)->from_rank; s.count = ((Laik_A_BufRecv*) a)->count; break;
    case LAIK_AT_MapRecvAndUnpack: s.kind = 2; s.peer = ((Laik_A_MapRecvAndUnpack*) a)->from_rank; s.count = ((Laik_A_MapRecvAndUnpack*) a)->count; break;
    case LAIK_AT_MapRecv: case LAIK_AT_RecvAndUnpack: s.kind = 2; s.peer = b->rank; s.count = b->count; break;
    }
    return s;
}
// buffers of reservations not yet allocated
static char* RES[SP][1200]; static unsigned RESN[SP][1200];
static char* rbuf(int k, int id, unsigned off, size_t n) {
    Laik_ActionSeq* as = AP[k].as;
    if (id >= 100) { ACHECK(id - 100 < 1200 && RES[k][id - 100], "process %d: use of buffer %d which is not reserved", k, id); ACHECK(off + n <= RESN[k][id - 100], "process %d: use of %zu bytes at %u of a reservation of %u bytes", k, n, off, RESN[k][id - 100]); return RES[k][id - 100] + off; }
    ACHECK(id >= 0 && id < as->bufferCount && as->buf[id], "process %d: buffer %d not allocated", k, id); ACHECK(off + n <= as->bufSize[id], "process %d: access outside of buffer %d", k, id); return as->buf[id] + off;
}
static Laik_BackendAction* mkown(AProc* p, int type, int round) { Laik_BackendAction* b = calloc(1, sizeof *b); b->h.type = (unsigned char) type; b->h.len = sizeof *b; b->h.round = (unsigned char) round; p->own[p->ownn++] = b; return b; }
static void aload(int k) {        // expand, and sort by rounds (as required for execution)
    AProc* p = &AP[k]; Laik_ActionSeq* as = p->as; p->xn = 0; p->pc = 0; for (int i = 0; i < p->ownn; i++) free(p->own[i]); p->ownn = 0;
    for (int i = 0; i < 1200; i++) { free(RES[k][i]); RES[k][i] = 0; }
    Laik_Action* a = as->action; int mr = 0;
    for (unsigned i = 0; i < as->actionCount; i++, a = nextAction(a)) {
        ACHECK(a->len >= sizeof(Laik_Action), "process %d: action %u of length %d", k, i, a->len); ACHECK((char*) a + a->len <= (char*) as->action + as->bytesUsed, "process %d: actions exceed the sequence", k);
        if (a->round > mr) mr = a->round;
        if (a->type == LAIK_AT_TExec) {
            Laik_Transition* t = p->t; ACHECK(p->xn + t->redCount + t->sendCount + t->recvCount < MAXA, "too many actions");
            for (int j = 0; j < t->redCount; j++) { Laik_BackendAction* b = mkown(p, LAIK_AT_MapGroupReduce, a->round); b->inputGroup = t->red[j].inputGroup; b->outputGroup = t->red[j].outputGroup; b->fromMapNo = t->red[j].myInputMapNo; b->toMapNo = t->red[j].myOutputMapNo; b->range = &t->red[j].range; b->redOp = t->red[j].redOp; b->count = (unsigned) rsize(b->range, DIMS); p->xp[p->xn++] = b; }
            for (int j = 0; j < t->sendCount; j++) { Laik_BackendAction* b = mkown(p, LAIK_AT_MapPackAndSend, a->round); Laik_A_MapPackAndSend* q = (void*) b; q->to_rank = t->send[j].toTask; q->fromMapNo = t->send[j].mapNo; q->range = &t->send[j].range; q->count = (unsigned) rsize(q->range, DIMS); p->xp[p->xn++] = b; }
            for (int j = 0; j < t->recvCount; j++) { Laik_BackendAction* b = mkown(p, LAIK_AT_MapRecvAndUnpack, a->round); Laik_A_MapRecvAndUnpack* q = (void*) b; q->from_rank = t->recv[j].fromTask; q->toMapNo = t->recv[j].mapNo; q->range = &t->recv[j].range; q->count = (unsigned) rsize(q->range, DIMS); p->xp[p->xn++] = b; }
            continue;
        }
        if (a->type == LAIK_AT_BufReserve) { Laik_A_BufReserve* r = (void*) a; if (r->bufID >= 100) { int id = r->bufID - 100; ACHECK(id < 1200 && !RES[k][id], "process %d: buffer %d reserved twice", k, id + 100); RES[k][id] = malloc(r->size + 1u); memset(RES[k][id], 0x5A, r->size); RESN[k][id] = r->size; } continue; }
        ACHECK(p->xn < MAXA, "too many actions"); p->xp[p->xn++] = (void*) a;
    }
    ACHECK((char*) a == (char*) as->action + as->bytesUsed, "process %d: %u actions do not fill the sequence", k, as->actionCount); ACHECK(as->actionCount == 0 || as->roundCount == mr + 1, "process %d: %d rounds, last round %d", k, as->roundCount, mr);
    ACHECK(as->newActionCount == 0 && as->newBytesUsed == 0, "process %d: unfinished actions", k);
    for (int i = 1; i < p->xn; i++) { Laik_BackendAction* x = p->xp[i]; int j = i; while (j > 0 && p->xp[j - 1]->h.round > x->h.round) { p->xp[j] = p->xp[j - 1]; j--; } p->xp[j] = x; }
}
static void payload(int k, Laik_Action* a, char* out) {
    AProc* p = &AP[k]; Laik_BackendAction* b = (void*) a;
    switch (a->type) {
    case LAIK_AT_RBufSend: { Laik_A_RBufSend* q = (void*) a; memcpy(out, rbuf(k, q->bufID, q->offset, (size_t) q->count * AES), (size_t) q->count * AES); break; }
    case LAIK_AT_BufSend: memcpy(out, ((Laik_A_BufSend*) a)->buf, (size_t) ((Laik_A_BufSend*) a)->count * AES); break;
    case LAIK_AT_MapPackAndSend: { Laik_A_MapPackAndSend* q = (void*) a; ACHECK(q->count == rsize(q->range, DIMS), "count %u of a range of %lld", q->count, (long long) rsize(q->range, DIMS)); packr(p->from, q->fromMapNo, 0, q->range, out); break; }
    case LAIK_AT_MapSend: ACHECK(p->from && b->fromMapNo >= 0 && b->fromMapNo < p->from->count, "mapping"); memcpy(out, p->from->map[b->fromMapNo].base + b->offset, (size_t) b->count * AES); break;
    case LAIK_AT_PackAndSend: ACHECK(b->count == rsize(b->range, DIMS), "count"); packr(0, 0, b->map, b->range, out); break;
    }
}
static void deliver(int k, Laik_Action* a, char* in) {
    AProc* p = &AP[k]; Laik_BackendAction* b = (void*) a;
    switch (a->type) {
    case LAIK_AT_RBufRecv: { Laik_A_RBufRecv* q = (void*) a; memcpy(rbuf(k, q->bufID, q->offset, (size_t) q->count * AES), in, (size_t) q->count * AES); break; }
    case LAIK_AT_BufRecv: memcpy(((Laik_A_BufRecv*) a)->buf, in, (size_t) ((Laik_A_BufRecv*) a)->count * AES); break;
    case LAIK_AT_MapRecvAndUnpack: { Laik_A_MapRecvAndUnpack* q = (void*) a; ACHECK(q->count == rsize(q->range, DIMS), "count %u of a range of %lld", q->count, (long long) rsize(q->range, DIMS)); unpackr(p->to, q->toMapNo, 0, q->range, in); break; }
    case LAIK_AT_MapRecv: ACHECK(p->to && b->toMapNo >= 0 && b->toMapNo < p->to->count, "mapping"); memcpy(p->to->map[b->toMapNo].base + b->offset, in, (size_t) b->count * AES); break;
    case LAIK_AT_RecvAndUnpack: ACHECK(b->count == rsize(b->range, DIMS), "count"); unpackr(0, 0, b->map, b->range, in); break;
    }
}
// a reduction: members, in- and output of process k
typedef struct { int is, in, out, op; unsigned count; char *ib, *ob; } GR;
static GR gr(int k, Laik_Action* a) {
    GR g; memset(&g, 0, sizeof g); AProc* p = &AP[k]; Laik_BackendAction* b = (void*) a; int all = (1 << AN) - 1;
    switch (a->type) {
    case LAIK_AT_GroupReduce: g.is = 1; g.in = gbits(p->t, b->inputGroup); g.out = gbits(p->t, b->outputGroup); g.ib = b->fromBuf; g.ob = b->toBuf; g.count = b->count; break;
    case LAIK_AT_RBufGroupReduce: g.is = 1; g.in = gbits(p->t, b->inputGroup); g.out = gbits(p->t, b->outputGroup); g.ib = g.ob = rbuf(k, b->bufID, b->offset, (size_t) b->count * AES); g.count = b->count; break;
    case LAIK_AT_Reduce: g.is = 1; g.in = all; g.out = b->rank < 0 ? all : 1 << b->rank; g.ib = b->fromBuf; g.ob = b->toBuf; g.count = b->count; break;
    case LAIK_AT_RBufReduce: g.is = 1; g.in = all; g.out = b->rank < 0 ? all : 1 << b->rank; g.ib = g.ob = rbuf(k, b->bufID, b->offset, (size_t) b->count * AES); g.count = b->count; break;
    case LAIK_AT_MapGroupReduce: { g.is = 1; g.in = gbits(p->t, b->inputGroup); g.out = gbits(p->t, b->outputGroup); g.count = (unsigned) rsize(b->range, DIMS);
        if ((g.in >> k) & 1) g.ib = mapaddr(p->from, b->fromMapNo, 0, &b->range->from); if ((g.out >> k) & 1) g.ob = mapaddr(p->to, b->toMapNo, 0, &b->range->from); break; }
    }
    if (g.is) g.op = b->redOp; return g;
}
static int astep(int k) {       // 1: something happened
    AProc* p = &AP[k]; if (p->pc >= p->xn) return 0;
    Laik_Action* a = (void*) p->xp[p->pc]; Laik_BackendAction* b = (void*) a; SR s = sr(a); static char buf[1 << 20];
    if (s.kind) {
        ACHECK(s.peer >= 0 && s.peer < AN && s.peer != k, "process %d communicates with %d", k, s.peer); ACHECK(s.count > 0 && (size_t) s.count * AES <= sizeof buf, "process %d: %u elements", k, s.count);
        if (s.kind == 1) {
            if (RDV) { AProc* q = &AP[s.peer]; if (q->pc >= q->xn) return 0; SR r = sr((Laik_Action*) q->xp[q->pc]); if (r.kind != 2 || r.peer != k) return 0; }
            payload(k, a, buf); AChan* c = &ACH[k][s.peer]; ACHECK(c->n < 600, "too many messages"); AMsg* m = &c->m[c->n++]; m->count = s.count; m->bytes = (long) s.count * AES; m->p = malloc((size_t) m->bytes); memcpy(m->p, buf, (size_t) m->bytes); p->pc++; return 1;
        }
        AChan* c = &ACH[s.peer][k]; if (c->first >= c->n) return 0; AMsg* m = &c->m[c->first++]; ACHECK(m->count == s.count, "process %d receives %u elements from %d, which sent %u", k, s.count, s.peer, m->count); memcpy(buf, m->p, (size_t) m->bytes); deliver(k, a, buf); free(m->p); p->pc++; return 1;
    }
    GR g = gr(k, a);
    if (g.is) {
        int mem = g.in | g.out; ACHECK((mem >> k) & 1, "process %d takes part in a reduction of other processes", k);
        for (int q = 0; q < AN; q++) if (((mem >> q) & 1) && q != k) { if (AP[q].pc >= AP[q].xn) return 0; GR h = gr(q, (Laik_Action*) AP[q].xp[AP[q].pc]); if (!h.is) return 0; if ((h.in | h.out) != mem && !(((h.in | h.out) >> k) & 1)) return 0;
            ACHECK(h.in == g.in && h.out == g.out && h.op == g.op && h.count == g.count, "processes %d and %d meet in different reductions (0x%x to 0x%x, %u elements; 0x%x to 0x%x, %u elements)", k, q, g.in, g.out, g.count, h.in, h.out, h.count); }
        char *acc = malloc((size_t) g.count * AES + 1); (ATY->init)(acc, (int) g.count, g.op); int first = 1;
        for (int q = 0; q < AN; q++) if ((g.in >> q) & 1) { GR h = gr(q, (Laik_Action*) AP[q].xp[AP[q].pc]); ACHECK(h.ib, "process %d: no input", q); if (first) memcpy(acc, h.ib, (size_t) g.count * AES); else (ATY->reduce)(acc, acc, h.ib, (int) g.count, g.op); first = 0; }
        for (int q = 0; q < AN; q++) if ((g.out >> q) & 1) { GR h = gr(q, (Laik_Action*) AP[q].xp[AP[q].pc]); ACHECK(h.ob, "process %d: no output", q); memcpy(h.ob, acc, (size_t) g.count * AES); }
        for (int q = 0; q < AN; q++) if ((mem >> q) & 1) AP[q].pc++;
        free(acc); return 1;
    }
    size_t n = a->len >= sizeof *b ? (size_t) b->count * AES : 0;
    switch (a->type) {
    case LAIK_AT_Nop: case LAIK_AT_BufReserve: break;
    case LAIK_AT_RBufLocalReduce: ACHECK(b->dtype == ATY, "type of a local reduction"); (ATY->reduce)(b->toBuf, b->toBuf, rbuf(k, b->bufID, b->offset, n), (int) b->count, b->redOp); break;
    case LAIK_AT_BufInit: ACHECK(b->dtype == ATY, "type of an initialisation"); (ATY->init)(b->toBuf, (int) b->count, b->redOp); break;
    case LAIK_AT_RBufCopy: memcpy(b->toBuf, rbuf(k, b->bufID, b->offset, n), n); break;
    case LAIK_AT_BufCopy: memcpy(b->toBuf, b->fromBuf, n); break;
    case LAIK_AT_CopyFromBuf: for (unsigned i = 0; i < b->count; i++) memcpy(b->ce[i].ptr, b->fromBuf + b->ce[i].offset, b->ce[i].bytes); break;
    case LAIK_AT_CopyToBuf: for (unsigned i = 0; i < b->count; i++) memcpy(b->toBuf + b->ce[i].offset, b->ce[i].ptr, b->ce[i].bytes); break;
    case LAIK_AT_CopyFromRBuf: for (unsigned i = 0; i < b->count; i++) memcpy(b->ce[i].ptr, rbuf(k, b->bufID, b->offset + b->ce[i].offset, b->ce[i].bytes), b->ce[i].bytes); break;
    case LAIK_AT_CopyToRBuf: for (unsigned i = 0; i < b->count; i++) memcpy(rbuf(k, b->bufID, b->offset + b->ce[i].offset, b->ce[i].bytes), b->ce[i].ptr, b->ce[i].bytes); break;
    case LAIK_AT_PackToBuf: packr(0, 0, b->map, b->range, b->toBuf); break;
    case LAIK_AT_UnpackFromBuf: unpackr(0, 0, b->map, b->range, b->fromBuf); break;
    case LAIK_AT_MapPackToBuf: packr(p->from, b->fromMapNo, 0, b->range, b->toBuf); break;
    case LAIK_AT_MapUnpackFromBuf: unpackr(p->to, b->toMapNo, 0, b->range, b->fromBuf); break;
    case LAIK_AT_PackToRBuf: packr(0, 0, b->map, b->range, rbuf(k, b->bufID, b->offset, n)); break;
    case LAIK_AT_UnpackFromRBuf: unpackr(0, 0, b->map, b->range, rbuf(k, b->bufID, b->offset, n)); break;
    case LAIK_AT_MapPackToRBuf: packr(p->from, b->fromMapNo, 0, b->range, rbuf(k, b->bufID, b->offset, n)); break;
    case LAIK_AT_MapUnpackFromRBuf: unpackr(p->to, b->toMapNo, 0, b->range, rbuf(k, b->bufID, b->offset, n)); break;
    default: AF("process %d: unknown action %d", k, a->type);
    }
    p->pc++; return 1;
}
static void arun(int rdv) {       // execute all sequences from the initial memory contents
    RDV = rdv; for (int i = 0; i < AN; i++) for (int j = 0; j < AN; j++) { while (ACH[i][j].first < ACH[i][j].n) free(ACH[i][j].m[ACH[i][j].first++].p); ACH[i][j].first = ACH[i][j].n = 0; }
    for (int k = 0; k < AN; k++) { AProc* p = &AP[k]; memcpy(p->tmem, p->tsave, p->tn); memcpy(p->fmem, p->fsave, p->fn); aload(k); }
    int left = 1; while (left) {
        int did = 0; left = 0; for (int k = 0; k < AN; k++) { while (astep(k)) did = 1; } for (int k = 0; k < AN; k++) if (AP[k].pc < AP[k].xn) left = 1;
        if (left && !did) { int k = 0; while (AP[k].pc >= AP[k].xn) k++; AF("deadlock%s: process %d waits at action %d of %d (type %d)", rdv ? " with rendezvous sends" : "", k, AP[k].pc, AP[k].xn, AP[k].xp[AP[k].pc]->h.type); }
    }
    for (int i = 0; i < AN; i++) for (int j = 0; j < AN; j++) ACHECK(ACH[i][j].first == ACH[i][j].n, "message of %d to %d never received", i, j);
}
static void aref(void) { for (int k = 0; k < AN; k++) { AProc* p = &AP[k]; memcpy(p->tref, p->tmem, p->tn); memcpy(p->fref, p->fmem, p->fn); } }
static void acompare(void) {
    for (int k = 0; k < AN; k++) { AProc* p = &AP[k];
        for (size_t i = 0; i < p->tn; i++) ACHECK(p->tmem[i] == p->tref[i], "process %d: result at byte %zu of the new mappings differs from that of the original sequence", k, i);
        for (size_t i = 0; i < p->fn; i++) ACHECK(p->fmem[i] == p->fref[i], "process %d: byte %zu of the old mappings is changed", k, i); }
}
// mapping list of partitioning p; memory at *mem
static Laik_MappingList* mklist(Laik_Data* D, Laik_Partitioning* p, char** mem, size_t* n) {
    int nm = laik_my_mapcount(p), nr = laik_my_rangecount(p); Laik_Range* rg = calloc((size_t) nm + 1, sizeof *rg); char* have = calloc((size_t) nm + 1, 1);
    for (int j = 0; j < nr; j++) { Laik_TaskRange* tr = laik_my_range(p, j); int m = laik_taskrange_get_mapNo(tr); const Laik_Range* r = laik_taskrange_get_range(tr); if (!have[m]) { rg[m] = *r; have[m] = 1; } else for (int k = 0; k < DIMS; k++) { if (r->from.i[k] < rg[m].from.i[k]) rg[m].from.i[k] = r->from.i[k]; if (r->to.i[k] > rg[m].to.i[k]) rg[m].to.i[k] = r->to.i[k]; } }
    Laik_Layout* lay = nm ? laik_new_layout_lex(nm, rg) : 0; Laik_MappingList* ml = laik_mappinglist_new(D, nm, lay); size_t tot = 0;
    for (int m = 0; m < nm; m++) { Laik_Mapping* x = &ml->map[m]; x->requiredRange = rg[m]; x->allocatedRange = rg[m]; x->count = x->allocCount = (uint64_t) rsize(&rg[m], DIMS); x->layout = lay; x->layoutSection = m; tot += x->count * AES; }
    *n = tot; *mem = malloc(tot + 1); size_t o = 0; for (int m = 0; m < nm; m++) { Laik_Mapping* x = &ml->map[m]; x->start = x->base = *mem + o; x->capacity = x->count * AES; o += x->capacity; }
    free(rg); free(have); return ml;
}
static Laik_Data* mkdata(Laik_Space* s) { Laik_Data* d = laik_new_data(s, ATY); INST->data_count = 0; return d; }
static void afree(void) { for (int k = 0; k < AN; k++) { AProc* p = &AP[k]; for (int i = 0; i < p->ownn; i++) free(p->own[i]); for (int i = 0; i < 1200; i++) { free(RES[k][i]); RES[k][i] = 0; } free(p->fsave); free(p->tsave); free(p->fref); free(p->tref); if (!p->alias) free(p->tmem); free(p->fmem); } memset(AP, 0, sizeof AP); }
static void amem(AProc* p) {      // contents before
    p->fsave = malloc(p->fn + 1); p->tsave = malloc(p->tn + 1); p->fref = malloc(p->fn + 1); p->tref = malloc(p->tn + 1);
    for (size_t i = 0; i < p->fn; i++) p->fsave[i] = (char) rnd();
    if (DIMS > 1) { char* q = p->fsave; for (int m = 0; m < p->from->count; m++) { Laik_Range* r = &p->from->map[m].requiredRange; FORPOINTS(*r, DIMS, x, y, z) { uint64_t h = (uint64_t) (x * 1000003 + y * 7919 + z * 31 + 5) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; memcpy(q, &h, AES); q += AES; } } }      // several owners hold the same value
    for (size_t i = 0; i < p->tn; i++) p->tsave[i] = p->alias ? p->fsave[i] : (char) rnd();
}
#endif
