// random partitionings given by tiles of the space, each with a set of owners
#ifndef PART_H
#define PART_H
#ifndef SP
#define SP 12
#endif
#ifndef MAXPT
#define MAXPT 600
#endif
typedef struct { UR u; Laik_Partitioning* p; Laik_Group* g; int n; char own[SP][MAXPT]; int tagged, single; } Part;
static Laik_Space* S; static int DIMS;
static int64_t lin(const Laik_Index* i) { int64_t r = 0, m = 1; for (int k = 0; k < DIMS; k++) { r += (i->i[k] - S->range.from.i[k]) * m; m *= S->range.to.i[k] - S->range.from.i[k]; } return r; }
static int NPT;
// a partitioning: tiles of the space, each with a set of owners
static void rndowners(Part* P, int n, int mode, int tagmode) {
    UR t; memset(P, 0, sizeof *P); P->n = n; UR* u = &P->u; rndtiles(&t, S, n, 0); int one = (int) rn(0, n - 1);
    for (int i = 0; i < t.n; i++) {
        int set = 0;
        switch (mode) {
        case 0: set = 1 << rn(0, n - 1); break;                                  // one owner per tile
        case 1: set = (int) rn(1, (1 << n) - 1); break;                          // any non-empty set
        case 2: set = (int) rn(0, (1 << n) - 1); break;                          // any set
        case 3: set = (1 << n) - 1; break;                                       // all
        case 4: set = 1 << one; break;                                           // single process
        default: set = chance(50) ? (1 << n) - 1 : 1 << rn(0, n - 1); break;
        }
        for (int k = 0; k < n; k++) if ((set >> k) & 1) if (u->n < MAXR) { u->r[u->n] = t.r[i]; u->task[u->n] = k; u->n++; }
    }
    if ((mode == 3 || mode == 4) && chance(70)) { u->n = 0; for (int k = 0; k < n; k++) if (mode == 3 || k == one) { u->r[u->n] = S->range; u->task[u->n] = k; u->n++; } }
    if (DIMS > 1 && mode >= 1 && mode != 3 && mode != 4 && chance(40)) for (int i = 0; i < u->n; i++) if (chance(50)) { Laik_Range* r = &u->r[i]; for (int k = 0; k < DIMS; k++) { if (r->from.i[k] > S->range.from.i[k] && chance(60)) r->from.i[k]--; if (r->to.i[k] < S->range.to.i[k] && chance(60)) r->to.i[k]++; } }
    for (int i = u->n - 1; i > 0; i--) { int j = (int) rn(0, i); Laik_Range r = u->r[i]; u->r[i] = u->r[j]; u->r[j] = r; int q = u->task[i]; u->task[i] = u->task[j]; u->task[j] = q; }
    P->tagged = tagmode; for (int i = 0; i < u->n; i++) u->tag[i] = tagmode == 0 ? 0 : tagmode == 1 ? 1 : (int) rn(1, 3);
    if (DIMS == 1 && tagmode == 0 && chance(15)) { u->single = 1; P->single = 1; }
    if (DIMS == 1 && !u->single && chance(20)) u->fl = LAIK_PF_Merge;
    for (int i = 0; i < u->n; i++) FORPOINTS(u->r[i], DIMS, x, y, z) { Laik_Index ix = {{x, y, z}}; P->own[u->task[i]][lin(&ix)] = 1; }
}
static int owners(Part* P, int i) { int c = 0; for (int k = 0; k < P->n; k++) c += P->own[k][i]; return c; }
#endif
