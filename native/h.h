// common helpers of the native harnesses: run the real code on many concrete inputs
#ifndef NATIVE_H
#define NATIVE_H
#include "laik-internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <limits.h>

#include <sys/wait.h>
static char DESC[1 << 16]; static int dpos; static long CASE; static const char* TEST = "?"; static int done_ok;
static int fork_child_flag;
static uint64_t SEED = 1; static double BUDGET = 30; static const char* ONLYTEST; static long ONLYCASE = -1;
static int THOROUGH;
static uint64_t rs;

static void dreset(void) { dpos = 0; DESC[0] = 0; }
static void d(const char* f, ...) {
    va_list ap; va_start(ap, f);
    if (dpos < (int)sizeof(DESC) - 4096) dpos += vsnprintf(DESC + dpos, 4000, f, ap);
    va_end(ap);
}
static void report(const char* what) {
    static char w[1 << 14]; snprintf(w, sizeof w, "%s", what);
    for (char* p = w; *p; p++) if ((unsigned char) *p < 32 || (unsigned char) *p > 126) *p = '?';
    for (char* p = DESC; *p; p++) if ((unsigned char) *p < 32 || (unsigned char) *p > 126) *p = '?';
    printf("\nFAILCASE test=%s case=%ld seed=%llu what=%s\nINPUT %s\n", TEST, CASE, (unsigned long long) SEED, w, DESC);
    fflush(stdout);
}
static void fail(const char* f, ...) {
    char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    report(b); done_ok = 1; _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static void onsig(int s) { char b[64]; snprintf(b, sizeof b, "signal %d (assertion or crash in the code)", s); report(b); _exit(1); }
static void onexit_(void) { if (!done_ok && !fork_child_flag) { report("the code called exit (panic)"); _exit(1); } }
void __asan_on_error(void);
void __asan_on_error(void) { report("memory error (AddressSanitizer)"); }
void __ubsan_on_report(void);
void __ubsan_on_report(void) { report("undefined behaviour (UBSan)"); fflush(stdout); _exit(1); }

static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static int64_t rn(int64_t lo, int64_t hi) { return lo + (int64_t)(rnd() % (uint64_t)(hi - lo + 1)); }   // inclusive
static int chance(int pct) { return (int)(rnd() % 100) < pct; }

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double tstart, tbudget;
static long CASES;
// begin a test of n random cases; returns 0 when the test is not selected
static int begin(const char* t, double share) {
    TEST = t; CASE = 0; tstart = now(); tbudget = BUDGET * share; dreset();
    if (ONLYTEST && strcmp(ONLYTEST, t)) return 0;
    return 1;
}
// distinct inputs seen (by hash of their description)
static uint64_t* HS; static long DISTINCT; static int NSAMP; static const char* STEST;
static void note(void) {
    if (!dpos) return;
    uint64_t h = 1469598103934665603ull; for (const char* p = TEST; *p; p++) h = (h ^ (unsigned char) *p) * 1099511628211ull;
    for (int i = 0; i < dpos && DESC[i]; i++) h = (h ^ (unsigned char) DESC[i]) * 1099511628211ull;
    if (!h) h = 1;
    if (!HS) HS = calloc(1u << 22, 8);
    if (DISTINCT < (3l << 20)) { uint64_t i = h >> 42; while (HS[i] && HS[i] != h) i = (i + 1) & ((1u << 22) - 1); if (!HS[i]) { HS[i] = h; DISTINCT++; } }
    if (STEST != TEST && CASE > 2 && NSAMP < 12) { STEST = TEST; NSAMP++; for (char* p = DESC; *p; p++) if ((unsigned char) *p < 32 || (unsigned char) *p > 126) *p = '?'; printf("SAMPLE %s case %ld: %.300s\n", TEST, CASE, DESC); }
}
static void onalarm(int s) { report("no answer for 60 s (endless loop)"); _exit(1); }
// next case: re-seeds per case, so that a case can be replayed alone
static int next(long n) {
    note(); alarm(60);
    if (CASE >= n) return 0;
    if (ONLYCASE >= 0 && CASE < ONLYCASE) CASE = ONLYCASE - 0;
    if (ONLYCASE >= 0 && CASE > ONLYCASE) return 0;
    if (ONLYCASE < 0 && (CASE & 15) == 0 && now() - tstart > tbudget) { return 0; }
    CASE++; CASES++;
    rs = SEED * 1000003ull + (uint64_t) CASE * 7919ull + 17;
    for (const char* p = TEST; *p; p++) rs = rs * 31 + (uint64_t) *p;
    rnd(); dreset();
    return 1;
}
static void endtest(void) { printf("COVER %s cases=%ld\n", TEST, CASE); fflush(stdout); }

// ---- LAIK set-up: an instance without communication backend
static void fake_exec(Laik_ActionSeq* as) { (void) as; }
static void fake_sync(Laik_KVStore* k) { (void) k; }
static Laik_Backend fake_backend = { .name = "none", .exec = fake_exec, .sync = fake_sync };
static Laik_Instance* INST;
static Laik_Group* WORLD;
#define MAXP 16
static void setup(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) SEED = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--budget")) BUDGET = atof(argv[++i]);
        else if (!strcmp(argv[i], "--test")) ONLYTEST = argv[++i];
        else if (!strcmp(argv[i], "--case")) ONLYCASE = atol(argv[++i]) - 1;
        else if (!strcmp(argv[i], "--thorough")) THOROUGH = 1;
    }
    signal(SIGALRM, onalarm); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig);
#ifndef __SANITIZE_ADDRESS__
    signal(SIGSEGV, onsig);
#endif
    atexit(onexit_);
    INST = laik_new_instance(&fake_backend, MAXP, 0, 0, 0, "here", 0);
    WORLD = laik_create_group(INST, MAXP);
    WORLD->size = MAXP; WORLD->myid = 0;
    for (int i = 0; i < MAXP; i++) WORLD->locationid[i] = i;
    INST->world = WORLD;
}
static int finish(void) { done_ok = 1; printf("OK total=%ld distinct=%ld\n", CASES, DISTINCT); return 0; }
static void gsize(int n, int me) { WORLD->size = n; WORLD->myid = me; INST->mylocationid = me; INST->locations = n; }

// ---- ranges as sets of points
static Laik_Space* mkspace(int dims, const int64_t* from, const int64_t* to) {
    Laik_Range r; memset(&r, 0, sizeof r);
    for (int k = 0; k < 3; k++) { r.from.i[k] = k < dims ? from[k] : 0; r.to.i[k] = k < dims ? to[k] : 1; }
    Laik_Space* s = calloc(1, sizeof *s);
    s->dims = dims; s->inst = INST; s->name = strdup("s"); s->range = r; s->range.space = s;
    return s;
}
static void rmspace(Laik_Space* s) { free(s->name); free(s); }
static int inr(const Laik_Range* r, int dims, int64_t x, int64_t y, int64_t z) {
    int64_t p[3] = {x, y, z};
    for (int k = 0; k < dims; k++) if (p[k] < r->from.i[k] || p[k] >= r->to.i[k]) return 0;
    return 1;
}
static int rempty(const Laik_Range* r, int dims) { for (int k = 0; k < dims; k++) if (r->from.i[k] >= r->to.i[k]) return 1; return 0; }
static void drange(const Laik_Range* r, int dims) {
    d("[");
    for (int k = 0; k < dims; k++) d("%s%lld:%lld", k ? "," : "", (long long) r->from.i[k], (long long) r->to.i[k]);
    d("]");
}
// random space with small extent
static Laik_Space* rndspace(int dims, int maxw, int neg) {
    int64_t f[3], t[3];
    for (int k = 0; k < 3; k++) { f[k] = neg ? rn(-5, 5) : 0; t[k] = f[k] + rn(1, maxw); }
    return mkspace(dims, f, t);
}
// random non-empty sub range of the space
static Laik_Range subrange(Laik_Space* s) {
    Laik_Range r = s->range;
    for (int k = 0; k < s->dims; k++) {
        int64_t a = rn(s->range.from.i[k], s->range.to.i[k] - 1), b = rn(a + 1, s->range.to.i[k]);
        if (chance(15)) { a = s->range.from.i[k]; b = s->range.to.i[k]; }
        r.from.i[k] = a; r.to.i[k] = b;
    }
    return r;
}
#define FORPOINTS(r, dims, x, y, z) \
    for (int64_t z = (dims > 2 ? (r).from.i[2] : 0); z < (dims > 2 ? (r).to.i[2] : 1); z++) \
    for (int64_t y = (dims > 1 ? (r).from.i[1] : 0); y < (dims > 1 ? (r).to.i[1] : 1); y++) \
    for (int64_t x = (r).from.i[0]; x < (r).to.i[0]; x++)
static int64_t rsize(const Laik_Range* r, int dims) { int64_t n = 1; for (int k = 0; k < dims; k++) n *= r->to.i[k] - r->from.i[k]; return n; }

// ---- partitionings given by an explicit list of ranges
#define MAXR 64
typedef struct { int n; int task[MAXR], tag[MAXR]; Laik_Range r[MAXR]; int flags; int single; Laik_PartitionerFlag fl; } UR;
static void runUser(Laik_RangeReceiver* rr, Laik_PartitionerParams* p) {
    UR* u = (UR*) p->partitioner->data;
    for (int i = 0; i < u->n; i++) {
        Laik_Range r = u->r[i]; r.space = p->space;
        if (u->single) { for (int64_t x = r.from.i[0]; x < r.to.i[0]; x++) laik_append_index_1d(rr, u->task[i], x); }
        else laik_append_range(rr, u->task[i], &r, u->tag[i], 0);
    }
}
static Laik_Partitioner* urpart(UR* u) { return laik_new_partitioner("user", runUser, u, LAIK_PF_NoFullCoverage | u->fl); }
static Laik_Partitioning* mkpart(Laik_Space* s, UR* u) {
    Laik_Partitioner* pr = urpart(u);
    return laik_new_partitioning(pr, WORLD, s, 0);
}
static void rmpart(Laik_Partitioning* p) {      // partitioner, lists and object
    RangeList_Entry* e = p->rangeList;
    while (e) { RangeList_Entry* nx = e->next; laik_rangelist_free(e->ranges); free(e->ranges); free(e); e = nx; }
    free(p->partitioner); free(p->name); free(p);
}
// random ranges: n ranges of random tasks; maxtag 0: tag 0 only
static void rndur(UR* u, Laik_Space* s, int tasks, int maxn, int maxtag) {
    memset(u, 0, sizeof *u); u->n = (int) rn(0, maxn);
    for (int i = 0; i < u->n; i++) { u->task[i] = (int) rn(0, tasks - 1); u->tag[i] = maxtag ? (int) rn(0, maxtag) : 0; u->r[i] = subrange(s); }
}
// random partition of the space into boxes (each index owned once)
static void rndtiles(UR* u, Laik_Space* s, int tasks, int maxtag) {
    memset(u, 0, sizeof *u); u->n = 1; u->r[0] = s->range; u->task[0] = (int) rn(0, tasks - 1);
    int want = (int) rn(1, 12);
    for (int t = 0; t < 60 && u->n < want; t++) {
        int i = (int) rn(0, u->n - 1), a = (int) rn(0, s->dims - 1);
        if (u->r[i].to.i[a] - u->r[i].from.i[a] < 2) continue;
        int64_t c = rn(u->r[i].from.i[a] + 1, u->r[i].to.i[a] - 1);
        u->r[u->n] = u->r[i]; u->r[i].to.i[a] = c; u->r[u->n].from.i[a] = c; u->task[u->n] = (int) rn(0, tasks - 1); u->n++;
    }
    for (int i = 0; i < u->n; i++) u->tag[i] = maxtag ? (int) rn(0, maxtag) : 0;
}
static void dur(UR* u, int dims) { for (int i = 0; i < u->n; i++) { d(" T%d/%d", u->task[i], u->tag[i]); drange(&u->r[i], dims); } }
// number of a point in the space
static int64_t pnum(Laik_Space* s, int64_t x, int64_t y, int64_t z) {
    int64_t w0 = s->range.to.i[0] - s->range.from.i[0], w1 = s->dims > 1 ? s->range.to.i[1] - s->range.from.i[1] : 1;
    return (x - s->range.from.i[0]) + w0 * ((s->dims > 1 ? y - s->range.from.i[1] : 0) + w1 * (s->dims > 2 ? z - s->range.from.i[2] : 0));
}
#endif
