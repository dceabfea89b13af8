// transitions of all processes of a group, compared with an oracle by points of the space and with each other
#include "h.h"
#include "part.h"
static int64_t K; static Laik_Space* L;        // scale of the coordinates (1d), space in scaled coordinates
static UR SU[2];
typedef struct { Laik_Range r; int peer, mapNo, map2; int in, out, op; } TOp;
typedef struct { int nl, ni, ns, nr, nd; TOp *l, *i, *s, *r, *d; int inset[400], outset[400]; int isnull; } TR;
static TR T[SP];
static int sm(Laik_Range* a, Laik_Range* o) {       // to small coordinates; 0 if not on the grid
    memset(o, 0, sizeof *o); for (int k = 0; k < DIMS; k++) { if (a->from.i[k] % K || a->to.i[k] % K) return 0; o->from.i[k] = a->from.i[k] / K; o->to.i[k] = a->to.i[k] / K; if (o->from.i[k] >= o->to.i[k] || o->from.i[k] < S->range.from.i[k] || o->to.i[k] > S->range.to.i[k]) return 0; } return 1;
}
static int gset(Laik_Transition* t, int g, int n) {
    int c = laik_trans_groupCount(t, g), s = 0, last = -1; CHECK(c >= 0 && c <= n, "group %d has %d members", g, c);
    for (int i = 0; i < c; i++) { int x = laik_trans_taskInGroup(t, g, i); CHECK(x > last && x < n, "members of group %d: %d after %d", g, x, last); s |= 1 << x; last = x; }
    for (int k = 0; k < n; k++) CHECK(laik_trans_isInGroup(t, g, k) == ((s >> k) & 1), "membership of %d in group %d (members 0x%x)", k, g, s);
    return s;
}
static void freetr(int n) { for (int k = 0; k < n; k++) { free(T[k].l); free(T[k].i); free(T[k].s); free(T[k].r); free(T[k].d); } memset(T, 0, sizeof T); }
// is the range part of an own range with the given mapping?
static int inmap(Laik_Partitioning* p, Laik_Range* r, int mapNo) {
    int nr = laik_my_rangecount(p);
    for (int j = 0; j < nr; j++) { Laik_TaskRange* tr = laik_my_range(p, j); const Laik_Range* q = laik_taskrange_get_range(tr); if (laik_taskrange_get_mapNo(tr) != mapNo) continue;
        int ok = 1; for (int k = 0; k < DIMS; k++) if (r->from.i[k] < q->from.i[k] || r->to.i[k] > q->to.i[k]) ok = 0;
        if (ok) return 1; }
    // merged by several own ranges of the mapping? (1d, single indexes and merged ranges are one range)
    return 0;
}
static TOp* tops(int n) { return calloc((size_t) n + 1, sizeof(TOp)); }
// transition of process me
static void calc(int me, int n, Part* A, Part* B, int haveA, int haveB, Laik_DataFlow flow, int op, int partial) {
    gsize(n, me); TR* t = &T[me]; Laik_Partitioning *a = 0, *b = 0;
    if (haveA) { a = partial ? laik_new_empty_partitioning(WORLD, L, urpart(&SU[0]), 0) : mkpart(L, &SU[0]); }
    if (haveB) { b = partial ? laik_new_empty_partitioning(WORLD, L, urpart(&SU[1]), 0) : mkpart(L, &SU[1]); }
    if (partial) { if (a) laik_partitioning_store_myranges(a); if (b) laik_partitioning_store_myranges(b); if (a && b) { laik_partitioning_store_intersectranges(a, b); laik_partitioning_store_intersectranges(b, a); } }
    Laik_Transition* x = laik_calc_transition(L, a, b, flow, op);
    CHECK(x != 0, "no transition for process %d", me);
    CHECK(x->actionCount == x->localCount + x->initCount + x->sendCount + x->recvCount + x->redCount, "number of operations");
    CHECK(x->flow == flow && x->redOp == op && x->fromPartitioning == a && x->toPartitioning == b && x->group == WORLD && x->space == L && x->dims == DIMS, "attributes of the transition");
    t->nl = x->localCount; t->l = tops(t->nl);
    for (int i = 0; i < t->nl; i++) { struct localTOp* o = &x->local[i]; CHECK(sm(&o->range, &t->l[i].r), "process %d: local range %lld-%lld", me, (long long) o->range.from.i[0], (long long) o->range.to.i[0]); CHECK(inmap(a, &o->range, o->fromMapNo), "process %d: local copy from mapping %d which does not cover it", me, o->fromMapNo); CHECK(inmap(b, &o->range, o->toMapNo), "process %d: local copy to mapping %d which does not cover it", me, o->toMapNo); }
    t->ni = x->initCount; t->i = tops(t->ni);
    for (int i = 0; i < t->ni; i++) { struct initTOp* o = &x->init[i]; CHECK(sm(&o->range, &t->i[i].r), "init range"); CHECK(inmap(b, &o->range, o->mapNo), "process %d: initialisation of mapping %d which does not cover it", me, o->mapNo); CHECK(o->redOp == (Laik_ReductionOperation) op, "initialisation for another reduction"); }
    t->ns = x->sendCount; t->s = tops(t->ns);
    for (int i = 0; i < t->ns; i++) { struct sendTOp* o = &x->send[i]; CHECK(sm(&o->range, &t->s[i].r), "send range"); CHECK(inmap(a, &o->range, o->mapNo), "process %d: send from mapping %d which does not cover it", me, o->mapNo); t->s[i].peer = o->toTask; CHECK(o->toTask >= 0 && o->toTask < n && o->toTask != me, "process %d sends to %d", me, o->toTask); }
    t->nr = x->recvCount; t->r = tops(t->nr);
    for (int i = 0; i < t->nr; i++) { struct recvTOp* o = &x->recv[i]; CHECK(sm(&o->range, &t->r[i].r), "receive range"); CHECK(inmap(b, &o->range, o->mapNo), "process %d: receive into mapping %d which does not cover it", me, o->mapNo); t->r[i].peer = o->fromTask; CHECK(o->fromTask >= 0 && o->fromTask < n && o->fromTask != me, "process %d receives from %d", me, o->fromTask); }
    t->nd = x->redCount; t->d = tops(t->nd);
    for (int i = 0; i < t->nd; i++) { struct redTOp* o = &x->red[i]; CHECK(sm(&o->range, &t->d[i].r), "reduction range"); CHECK(o->redOp == (Laik_ReductionOperation) op, "another reduction"); t->d[i].in = gset(x, o->inputGroup, n); t->d[i].out = gset(x, o->outputGroup, n);
        CHECK((o->inputGroup == -1) == (t->d[i].in == (1 << n) - 1) && (o->outputGroup == -1) == (t->d[i].out == (1 << n) - 1), "group of all processes not given as such");
        if ((t->d[i].in >> me) & 1) CHECK(inmap(a, &o->range, o->myInputMapNo), "process %d: reduction of mapping %d which does not cover it", me, o->myInputMapNo);
        if ((t->d[i].out >> me) & 1) CHECK(inmap(b, &o->range, o->myOutputMapNo), "process %d: reduction to mapping %d which does not cover it", me, o->myOutputMapNo); }
    for (int g = 0; g < x->subgroupCount; g++) { int s = gset(x, g, n); for (int h = 0; h < g; h++) CHECK(gset(x, h, n) != s, "groups %d and %d have the same members", h, g); }
    laik_free_transition(x); if (a) rmpart(a); if (b) rmpart(b);
}
static int at(TOp* o, int n, int64_t x, int64_t y, int64_t z, int peer) { int c = 0; for (int i = 0; i < n; i++) if ((peer < 0 || o[i].peer == peer) && inr(&o[i].r, DIMS, x, y, z)) c++; return c; }
static void verify(int n, Part* A, Part* B, int haveA, int haveB, Laik_DataFlow flow, int op) {
    int red = laik_is_reduction(op), all2d = 0;
    if (DIMS > 1 && red) all2d = 1;
    FORPOINTS(S->range, DIMS, x, y, z) {
        Laik_Index ix = {{x, y, z}}; int i = (int) lin(&ix), in = 0, out = 0, nin = 0, own = -1;
        for (int k = 0; k < n; k++) { if (haveA && A->own[k][i]) { in |= 1 << k; nin++; own = k; } if (haveB && B->own[k][i]) out |= 1 << k; }
        for (int k = 0; k < n; k++) {
            TR* t = &T[k]; int nl = at(t->l, t->nl, x, y, z, -1), ni = at(t->i, t->ni, x, y, z, -1), ns = at(t->s, t->ns, x, y, z, -1), nr = at(t->r, t->nr, x, y, z, -1), nd = at(t->d, t->nd, x, y, z, -1), a = (in >> k) & 1, b = (out >> k) & 1;
#define PT "process %d, index %lld,%lld,%lld (owners before 0x%x, after 0x%x): "
#define PA k, (long long) x, (long long) y, (long long) z, in, out
            if (!haveA || !haveB || flow != LAIK_DF_Preserve) CHECK(!nl && !ns && !nr && !nd, PT "%d copies, %d sends, %d receives, %d reductions without preserving values", PA, nl, ns, nr, nd);
            if (flow != LAIK_DF_Init || !haveB) CHECK(!ni, PT "%d initialisations not asked for", PA, ni); else CHECK(b ? ni >= 1 && (DIMS > 1 || ni == 1) : ni == 0, PT "%d initialisations", PA, ni);
            if (!haveA || !haveB || flow != LAIK_DF_Preserve) continue;
            // only owners take part
            CHECK(!nl || (a && b), PT "local copy", PA); CHECK(!ns || a, PT "send by a process which does not own it", PA); CHECK(!nr || b, PT "receive by a process which does not own it", PA);
            for (int q = 0; q < n; q++) { int f = at(t->r, t->nr, x, y, z, q), g = at(t->s, t->ns, x, y, z, q); CHECK(!f || ((in >> q) & 1), PT "receive from %d", PA, q); CHECK(!g || ((out >> q) & 1), PT "send to %d", PA, q); }
            if (DIMS == 1) {
                if (nin == 1) { // a copy
                    CHECK(nd == 0, PT "reduction of one input", PA); CHECK(nl == (a && b), PT "%d local copies", PA, nl); CHECK(nr == (b && !a), PT "%d receives", PA, nr);
                    for (int q = 0; q < n; q++) CHECK(at(t->s, t->ns, x, y, z, q) == (k == own && q != k && ((out >> q) & 1)), PT "%d sends to %d", PA, at(t->s, t->ns, x, y, z, q), q);
                } else { CHECK(!nl && !ns && !nr, PT "%d copies, %d sends, %d receives of an index with %d inputs", PA, nl, ns, nr, nin); CHECK(nd == (out && (a || b)), PT "%d reductions", PA, nd); }
            } else if (all2d) { CHECK(nd == 1, PT "%d reductions", PA, nd); CHECK(!ns && !nr, PT "sends and receives", PA); }
            else {
                CHECK(!nd, PT "reduction", PA); CHECK(!(a && b) || nl >= 1, PT "no local copy", PA);
                if (b && !a) CHECK(in == 0 || nr >= 1, PT "value of a previous owner does not arrive", PA);
            }
            for (int j = 0; j < t->nd; j++) if (inr(&t->d[j].r, DIMS, x, y, z)) CHECK(t->d[j].in == in && t->d[j].out == out, PT "reduction from 0x%x to 0x%x", PA, t->d[j].in, t->d[j].out);
        }
    }
    // sends and receives match one to one, in order
    for (int k = 0; k < n; k++) for (int q = 0; q < n; q++) if (k != q) {
        int i = 0, j = 0;
        while (1) {
            while (i < T[k].ns && T[k].s[i].peer != q) i++; while (j < T[q].nr && T[q].r[j].peer != k) j++;
            int e1 = i >= T[k].ns, e2 = j >= T[q].nr; if (e1 && e2) break;
            CHECK(!e1, "process %d receives more from %d than %d sends", q, k, k); CHECK(!e2, "process %d sends more to %d than %d receives", k, q, q);
            Laik_Range *a = &T[k].s[i].r, *b = &T[q].r[j].r; for (int c = 0; c < DIMS; c++) CHECK(a->from.i[c] == b->from.i[c] && a->to.i[c] == b->to.i[c], "send %d of process %d to %d does not match receive %d (dimension %d: %lld-%lld and %lld-%lld)", i, k, q, j, c, (long long) a->from.i[c], (long long) a->to.i[c], (long long) b->from.i[c], (long long) b->to.i[c]);
            i++; j++;
        }
        // reductions both take part in: same order, same ranges and groups
        i = j = 0; int bk = 1 << k, bq = 1 << q;
        while (k < q) {
            while (i < T[k].nd && !((T[k].d[i].in | T[k].d[i].out) & bq)) i++; while (j < T[q].nd && !((T[q].d[j].in | T[q].d[j].out) & bk)) j++;
            int e1 = i >= T[k].nd, e2 = j >= T[q].nd; if (e1 && e2) break; CHECK(!e1 && !e2, "processes %d and %d disagree on the number of common reductions", k, q);
            TOp *a = &T[k].d[i], *b = &T[q].d[j]; CHECK(a->in == b->in && a->out == b->out && a->op == b->op, "common reductions of processes %d and %d differ", k, q);
            for (int c = 0; c < DIMS; c++) CHECK(a->r.from.i[c] == b->r.from.i[c] && a->r.to.i[c] == b->r.to.i[c], "ranges of common reductions of processes %d and %d differ", k, q);
            i++; j++;
        }
    }
    // reductions: only members take part
    for (int k = 0; k < n; k++) for (int i = 0; i < T[k].nd; i++) { TOp* o = &T[k].d[i]; CHECK(((o->in | o->out) >> k) & 1, "process %d has a reduction it does not take part in", k); }
}
static void scale(UR* u, UR* o) { *o = *u; for (int i = 0; i < u->n; i++) for (int k = 0; k < DIMS; k++) { o->r[i].from.i[k] *= K; o->r[i].to.i[k] *= K; } }
static void onecase(int wantred) {
    int n = (int) (chance(20) ? rn(1, 12) : rn(1, 5)); static Part A, B; DIMS = wantred ? (chance(80) ? 1 : (int) rn(2, 3)) : (int) rn(1, 3);
    int64_t f[3], t[3]; int mx = DIMS == 1 ? 60 : DIMS == 2 ? 12 : 6; for (int k = 0; k < 3; k++) { f[k] = chance(50) ? 0 : rn(-20, 20); t[k] = f[k] + rn(1, mx); }
    K = DIMS == 1 && chance(40) ? (chance(50) ? (1ll << 31) : (1ll << rn(1, 50)) + rn(0, 5)) : 1; gsize(n, 0); S = mkspace(DIMS, f, t); for (int k = 0; k < 3; k++) { f[k] *= K; t[k] *= K; } L = mkspace(DIMS, f, t); NPT = (int) rsize(&S->range, DIMS);
    d("%d processes, %dd, scale %lld space ", n, DIMS, (long long) K); drange(&S->range, DIMS);
    int m1 = (int) rn(0, 5), m2 = (int) rn(0, 5); if (wantred && DIMS > 1) { m1 = 3; m2 = chance(50) ? 3 : 4; }
    rndowners(&A, n, m1, (int) rn(0, 2)); rndowners(&B, n, m2, (int) rn(0, 2));
    if (wantred && DIMS > 1) { A.u.n = 0; for (int k = 0; k < n; k++) { A.u.r[k] = S->range; A.u.task[k] = k; A.u.tag[k] = 0; } A.u.n = n; memset(A.own, 1, sizeof A.own); int one = (int) rn(0, n - 1); memset(B.own, 0, sizeof B.own); B.u.n = 0; for (int k = 0; k < n; k++) if (m2 == 3 || k == one) { int c = B.u.n++; B.u.r[c] = S->range; B.u.task[c] = k; B.u.tag[c] = 0; memset(B.own[k], 1, MAXPT); } }
    if (chance(15)) { B = A; }
    if (K > 1) A.u.single = B.u.single = 0;
    scale(&A.u, &SU[0]); scale(&B.u, &SU[1]); d(" A:%s%s", A.u.single ? "single" : "", A.u.fl ? "merge" : ""); dur(&A.u, DIMS); d(" B:%s%s", B.u.single ? "single" : "", B.u.fl ? "merge" : ""); dur(&B.u, DIMS);
    int multi = 0, miss = 0; for (int i = 0; i < NPT; i++) { int c = owners(&A, i), o = owners(&B, i); if (c > 1) multi = 1; if (!c && o) miss = 1; }
    int op = LAIK_RO_None, haveA = 1, haveB = 1; Laik_DataFlow flow = LAIK_DF_Preserve;
    if (wantred) op = (int) rn(LAIK_RO_Sum, LAIK_RO_Or);
    else {
        if (DIMS == 1 && (multi || miss)) op = (int) rn(LAIK_RO_Sum, LAIK_RO_Or); else if (DIMS == 1 && chance(20)) op = (int) rn(LAIK_RO_Any, LAIK_RO_Single);
        if (chance(10)) { flow = LAIK_DF_None; } else if (chance(12)) { flow = LAIK_DF_Init; op = (int) rn(LAIK_RO_Sum, LAIK_RO_Or); }
        if (flow != LAIK_DF_Preserve) { if (chance(30)) haveA = 0; else if (flow == LAIK_DF_None && chance(30)) haveB = 0; }
    }
    int partial = DIMS == 1 && haveA && haveB && chance(50); d(" flow %d op %d from %d to %d partial %d", flow, op, haveA, haveB, partial);
    if (chance(3) && haveA && haveB) { gsize(n, -1); Laik_Partitioning *a = mkpart(L, &SU[0]), *b = mkpart(L, &SU[1]); CHECK(laik_calc_transition(L, a, b, flow, op) == 0, "transition of a process outside of the group"); rmpart(a); rmpart(b); }
    for (int k = 0; k < n; k++) calc(k, n, &A, &B, haveA, haveB, flow, op, partial);
    verify(n, &A, &B, haveA, haveB, flow, op); freetr(n); rmspace(S); rmspace(L);
}
