// small helpers of the demonstrations: a LAIK instance without communication, ranges given by a list
#include "laik-internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#define MAXP 16
#define CHECK(c, ...) do { if (!(c)) { printf("DEMO FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } } while (0)
static void fake_exec(Laik_ActionSeq* as) { (void) as; }
static void fake_sync(Laik_KVStore* k) { (void) k; }
static Laik_Backend fake_backend = { .name = "none", .exec = fake_exec, .sync = fake_sync };
static Laik_Instance* INST; static Laik_Group* WORLD;
static void setup(int n, int me) {
    if (!INST) {
        INST = laik_new_instance(&fake_backend, MAXP, 0, 0, 0, "here", 0);
        WORLD = laik_create_group(INST, MAXP); INST->world = WORLD;
        for (int i = 0; i < MAXP; i++) WORLD->locationid[i] = i;
    }
    WORLD->size = n; WORLD->myid = me; INST->mylocationid = me; INST->locations = n;
}
static Laik_Space* mkspace(int dims, int64_t x0, int64_t x1, int64_t y0, int64_t y1, int64_t z0, int64_t z1) {
    Laik_Space* s = laik_new_space_1d(INST, 10); s->dims = 3;
    laik_range_init_3d(&s->range, s, x0, x1, y0, y1, z0, z1); s->dims = dims; s->range.space = s; return s;
}
static Laik_Range R1(Laik_Space* s, int64_t a, int64_t b) { Laik_Range r; memset(&r, 0, sizeof r); r.space = s; r.from.i[0] = a; r.to.i[0] = b; return r; }
static Laik_Range R3(Laik_Space* s, int64_t a, int64_t b, int64_t c, int64_t d, int64_t e, int64_t f) { Laik_Range r = R1(s, a, b); r.from.i[1] = c; r.to.i[1] = d; r.from.i[2] = e; r.to.i[2] = f; return r; }
typedef struct { int n, single; int task[64], tag[64]; Laik_Range r[64]; } UR;
static void add(UR* u, int task, int tag, Laik_Range r) { u->task[u->n] = task; u->tag[u->n] = tag; u->r[u->n] = r; u->n++; }
static void runUser(Laik_RangeReceiver* rr, Laik_PartitionerParams* p) {
    UR* u = p->partitioner->data;
    for (int i = 0; i < u->n; i++) {
        Laik_Range r = u->r[i]; r.space = p->space;
        if (u->single) { for (int64_t x = r.from.i[0]; x < r.to.i[0]; x++) laik_append_index_1d(rr, u->task[i], x); }
        else laik_append_range(rr, u->task[i], &r, u->tag[i], 0);
    }
}
static Laik_Partitioning* mkpart(Laik_Space* s, UR* u, int flags) {
    return laik_new_partitioning(laik_new_partitioner("user", runUser, u, LAIK_PF_NoFullCoverage | flags), WORLD, s, 0);
}
