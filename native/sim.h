// several real processes (fork) running the real MPI backend on a simulated message passing library:
// messages go through shared memory; per pair of processes, communicator and tag they keep their order.
#ifndef SIM_H
#define SIM_H
#include "h.h"
#include <sys/mman.h>
#include <pthread.h>
#include <mpi.h>
#define SP 12
#define SMSG 4096
#define SARENA (4 << 20)
typedef struct { int comm, tag, count, type; long bytes, off; int used; } SMsg;
typedef struct { int comm, tag; long posted, sent; } SCnt;
typedef struct { int n, first; long top; SMsg m[SMSG]; char data[SARENA]; int ncnt; SCnt cnt[16]; } SChan;
typedef struct {
    pthread_mutex_t mu; pthread_cond_t cv; int n, alive, waiting, dead, failed; int wsrc[SP], wcomm[SP], wtag[SP]; int rdv; long wseq[SP]; char what[4000], indesc[1 << 15];
    SChan ch[SP][SP];       // [dst][src]
} Sim;
static Sim* SIM; static int SME = -1;
static void simstop(void) { done_ok = 1; fork_child_flag = 1; _exit(7); }
static void sfail(const char* f, ...) {
    char b[3000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (!__sync_lock_test_and_set(&SIM->failed, 1)) { snprintf(SIM->what, sizeof SIM->what, "process %d: %s", SME, b); snprintf(SIM->indesc, sizeof SIM->indesc, "%s", DESC); }
    pthread_cond_broadcast(&SIM->cv); simstop();
}
#define SCHECK(c, ...) do { if (!(c)) sfail(__VA_ARGS__); } while (0)
static void slock(void) { pthread_mutex_lock(&SIM->mu); if (SIM->failed) { pthread_mutex_unlock(&SIM->mu); simstop(); } }
static void sunlock(void) { pthread_mutex_unlock(&SIM->mu); }
static int tsize(int t) { switch (t) { case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: return 8; case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: case MPI_INTEGER: case MPI_INT: return 4; default: return 1; } }
// communicators (local tables, equal ids in all members)
typedef struct { int id, n, rank[SP], me, splits; } SComm;
static SComm SC[64]; static int nsc;
static SComm* scomm(MPI_Comm c) { for (int i = 0; i < nsc; i++) if (SC[i].id == c) return &SC[i]; sfail("invalid communicator"); return 0; }
static void siminit(int n, int me) { SME = me; nsc = 1; SC[0].id = 0; SC[0].n = n; SC[0].me = me; SC[0].splits = 0; for (int i = 0; i < n; i++) SC[0].rank[i] = i; }
static void sput(int dst, int comm, int tag, const void* p, int count, int type) {
    slock(); SChan* c = &SIM->ch[dst][SME]; long b = (long) count * tsize(type);
    if (c->first == c->n) { c->first = c->n = 0; c->top = 0; }
    if (c->n >= SMSG || c->top + b > SARENA) { sunlock(); sfail("too many unreceived messages to process %d", dst); }
    SMsg* m = &c->m[c->n++]; m->comm = comm; m->tag = tag; m->count = count; m->type = type; m->bytes = b; m->off = c->top; m->used = 0; memcpy(c->data + c->top, p, (size_t) b); c->top += b;
    if (SIM->wsrc[dst] == SME && SIM->wcomm[dst] == comm && SIM->wtag[dst] == tag) { SIM->wsrc[dst] = -1; SIM->waiting--; }
    pthread_cond_broadcast(&SIM->cv); sunlock();
}
static SCnt* scnt(SChan* c, int comm, int tag) { for (int i = 0; i < c->ncnt; i++) if (c->cnt[i].comm == comm && c->cnt[i].tag == tag) return &c->cnt[i]; if (c->ncnt >= 16) { sunlock(); sfail("too many communicators and tags"); } SCnt* x = &c->cnt[c->ncnt++]; x->comm = comm; x->tag = tag; x->posted = x->sent = 0; return x; }
// a receive is posted: a send waiting for it may complete (with rendezvous)
static void spost(int src, int comm, int tag) {
    slock(); SCnt* x = scnt(&SIM->ch[SME][src], comm, tag); x->posted++;
    if (SIM->wsrc[src] == -2 - SME && SIM->wcomm[src] == comm && SIM->wtag[src] == tag && x->posted >= SIM->wseq[src]) { SIM->wsrc[src] = -1; SIM->waiting--; pthread_cond_broadcast(&SIM->cv); }
    sunlock();
}
static long ssent(int dst, int comm, int tag) { slock(); long r = ++scnt(&SIM->ch[dst][SME], comm, tag)->sent; sunlock(); return r; }
// with rendezvous: wait until the receiver posted the matching receive
static void srdv(int dst, int comm, int tag, long seq) {
    if (!SIM->rdv) return;
    slock(); SCnt* x = scnt(&SIM->ch[dst][SME], comm, tag);
    if (x->posted < seq) {
        SIM->wsrc[SME] = -2 - dst; SIM->wcomm[SME] = comm; SIM->wtag[SME] = tag; SIM->wseq[SME] = seq; SIM->waiting++;
        if (SIM->waiting >= SIM->alive) { sunlock(); sfail("deadlock: waiting for process %d to receive a message (tag %d), all other processes wait or are done", dst, tag); }
        while (SIM->wsrc[SME] == -2 - dst && !SIM->failed) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; pthread_cond_timedwait(&SIM->cv, &SIM->mu, &ts); }
        if (SIM->failed) { sunlock(); simstop(); }
    }
    sunlock();
}
// blocking; returns number of elements
static int sget(int src, int comm, int tag, void* p, int count, int type) {
    slock(); SChan* c = &SIM->ch[SME][src]; int i, r;
    while (1) {
        for (i = c->first; i < c->n; i++) if (!c->m[i].used && c->m[i].comm == comm && c->m[i].tag == tag) break;
        if (i < c->n) break;
        SIM->wsrc[SME] = src; SIM->wcomm[SME] = comm; SIM->wtag[SME] = tag; SIM->waiting++;
        if (SIM->waiting >= SIM->alive) { sunlock(); sfail("deadlock: waiting for a message of process %d (tag %d) which is never sent, all other processes wait or are done", src, tag); }
        while (SIM->wsrc[SME] == src && !SIM->failed) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; pthread_cond_timedwait(&SIM->cv, &SIM->mu, &ts); }
        if (SIM->failed) { sunlock(); simstop(); }
    }
    SMsg* m = &c->m[i]; m->used = 1; r = m->count; int bad = m->type != type || m->count > count, mt = m->type, mc = m->count;
    if (!bad) memcpy(p, c->data + m->off, (size_t) m->bytes);
    while (c->first < c->n && c->m[c->first].used) c->first++;
    sunlock();
    if (bad) sfail("receive of %d elements of type %d from process %d matches a message of %d elements of type %d", count, type, src, mc, mt);
    return r;
}
static void simexit(void) {       // regular end of a process: all messages received?
    slock(); for (int s = 0; s < SIM->n; s++) { SChan* c = &SIM->ch[SME][s]; if (c->first < c->n) { sunlock(); sfail("message of process %d never received (%d elements, tag %d)", s, c->m[c->first].count, c->m[c->first].tag); } }
    SIM->alive--; int dl = SIM->alive > 0 && SIM->waiting >= SIM->alive; sunlock(); if (dl) sfail("deadlock: the remaining processes wait for messages which are never sent");
    done_ok = 1; fork_child_flag = 1; _exit(0);
}
static int ALIVECHK;
// ---- MPI calls
int MPI_Init(int* a, char*** b) { return 0; } int MPI_Finalize(void) { return 0; } int MPI_Comm_set_errhandler(MPI_Comm c, int h) { return 0; }
static MPI_Comm newcomm(int id, int n, const int* rank) { if (nsc >= 64) sfail("too many communicators"); SComm* s = &SC[nsc++]; s->id = id; s->n = n; s->splits = 0; s->me = -1; for (int i = 0; i < n; i++) { s->rank[i] = rank[i]; if (rank[i] == SME) s->me = i; } return id; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { SComm* s = scomm(c); s->splits++; *o = newcomm(c * 31 + s->splits * 2 + 1, s->n, s->rank); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = scomm(c)->n; return 0; } int MPI_Comm_rank(MPI_Comm c, int* r) { *r = scomm(c)->me; return 0; }
int MPI_Get_processor_name(char* b, int* n) { strcpy(b, "sim"); *n = 3; return 0; } int MPI_Error_string(int e, char* b, int* n) { strcpy(b, "error"); *n = 5; return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) {
    SComm* s = scomm(c); s->splits++; int id = c * 31 + s->splits * 2, ck[2] = {color, key}, all[SP][2];
    for (int i = 0; i < s->n; i++) if (i != s->me) sput(s->rank[i], ~c, 900 + s->splits, ck, 2, MPI_INT);
    for (int i = 0; i < s->n; i++) if (i == s->me) { all[i][0] = color; all[i][1] = key; } else sget(s->rank[i], ~c, 900 + s->splits, all[i], 2, MPI_INT);
    if (color == MPI_UNDEFINED) { *o = -1; return 0; }
    int rk[SP], ky[SP], n = 0;
    for (int i = 0; i < s->n; i++) if (all[i][0] == color) { int j = n++; while (j > 0 && ky[j - 1] > all[i][1]) { ky[j] = ky[j - 1]; rk[j] = rk[j - 1]; j--; } ky[j] = all[i][1]; rk[j] = s->rank[i]; }
    *o = newcomm(id * 7 + color, n, rk); return 0;
}
static void chk(SComm* s, const void* b, int n, int t, int rank) { SCHECK(n >= 0, "negative count"); SCHECK(rank >= 0 && rank < s->n, "invalid rank %d", rank); SCHECK(s->me >= 0, "not in communicator"); (void) t; if (n > 0) { volatile const char* p = b; (void) p[0]; (void) p[(long) n * tsize(t) - 1]; } }
// pending receives, in posting order
static MPI_Request PEND[4096]; static int npend;
static void drain(int src, int comm, int tag, MPI_Request upto) {      // earlier receives of the same source match first
    for (int i = 0; i < npend; i++) { MPI_Request r = PEND[i]; if (r->src != src || r->comm != comm || r->tag != tag) continue;
        r->cnt = sget(src, comm, tag, r->buf, r->cnt, r->type); r->done = 1; memmove(PEND + i, PEND + i + 1, sizeof *PEND * (size_t) (npend - i - 1)); npend--; i--; if (r == upto) return; }
}
static unsigned long sumof(const void* b, long n) { unsigned long h = 7; const unsigned char* p = b; for (long i = 0; i < n; i++) h = h * 1099511628211ul + p[i] + 1; return h; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { SComm* s = scomm(c); chk(s, b, n, t, dst); SCHECK(dst != s->me, "blocking send to itself"); long q = ssent(s->rank[dst], c, tag); sput(s->rank[dst], c, tag, b, n, t); srdv(s->rank[dst], c, tag, q); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) {
    SComm* s = scomm(c); chk(s, b, n, t, src); SCHECK(src != s->me, "blocking receive from itself"); spost(s->rank[src], c, tag); drain(s->rank[src], c, tag, 0);
    int r = sget(s->rank[src], c, tag, b, n, t); if (st) { st->count = r; st->type = t; st->MPI_SOURCE = src; st->MPI_TAG = tag; } return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) {
    SComm* s = scomm(c); chk(s, b, n, t, dst); SCHECK(dst != s->me, "send to itself"); long sq = ssent(s->rank[dst], c, tag); sput(s->rank[dst], c, tag, b, n, t);
    MPI_Request q = calloc(1, sizeof *q); q->kind = 1; q->src = s->rank[dst]; q->comm = c; q->tag = tag; q->seq = sq; q->buf = (void*) b; q->cnt = n; q->type = t; q->sum = sumof(b, (long) n * tsize(t)); *r = q; return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) {
    SComm* s = scomm(c); chk(s, b, n, t, src); SCHECK(npend < 4096, "too many receives"); MPI_Request q = calloc(1, sizeof *q); q->kind = 2; q->buf = b; q->cnt = n; q->type = t; q->src = s->rank[src]; q->tag = tag; q->comm = c;
    memset(b, 0xA5, (size_t) n * (size_t) tsize(t));      // the library may write at any time from now on
    PEND[npend++] = q; *r = q; spost(q->src, c, tag); return 0;
}
int MPI_Wait(MPI_Request* rr, MPI_Status* st) {
    MPI_Request r = *rr; SCHECK(r, "wait for an invalid request");
    if (r->kind == 1) { srdv(r->src, r->comm, r->tag, r->seq); SCHECK(sumof(r->buf, (long) r->cnt * tsize(r->type)) == r->sum, "buffer of a non-blocking send changed before completion"); }
    else if (r->kind == 2 && !r->done) drain(r->src, r->comm, r->tag, r);
    if (st) { st->count = r->cnt; st->type = r->type; } free(r); *rr = 0; return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = (int) ((long) st->count * tsize(st->type) / tsize(t)); return 0; }
#define OPT(T) { T *o = acc, *i = (T*) in; for (int k = 0; k < n; k++) switch (op) { case MPI_SUM: o[k] += i[k]; break; case MPI_PROD: o[k] *= i[k]; break; case MPI_MIN: if (i[k] < o[k]) o[k] = i[k]; break; case MPI_MAX: if (i[k] > o[k]) o[k] = i[k]; break; \
    case MPI_LAND: o[k] = o[k] && i[k]; break; case MPI_LOR: o[k] = o[k] || i[k]; break; BITS sfail("operation"); } break; }
static void sop(void* acc, const void* in, int n, int t, int op) {
    switch (t) {
#define BITS case MPI_BAND: o[k] &= i[k]; break; case MPI_BOR: o[k] |= i[k]; break; default:
    case MPI_INT64_T: OPT(int64_t) case MPI_INT32_T: OPT(int32_t) case MPI_INT8_T: OPT(int8_t) case MPI_UINT64_T: OPT(uint64_t) case MPI_UINT32_T: OPT(uint32_t) case MPI_UINT8_T: OPT(uint8_t)
#undef BITS
#define BITS default:
    case MPI_DOUBLE: OPT(double) case MPI_FLOAT: OPT(float)
    default: sfail("type of reduction");
    }
}
static int sreduce(const void* in, void* out, int n, int t, int op, int root, MPI_Comm c) {
    SComm* s = scomm(c); chk(s, in == MPI_IN_PLACE ? out : in, n, t, root < 0 ? 0 : root); long b = (long) n * tsize(t); int r = root < 0 ? 0 : root; s->splits += 0; int hdr[4] = {n, t, op, root}, h2[4];
    if (in == MPI_IN_PLACE) { SCHECK(root < 0 || s->me == root, "in-place reduction at a non-root process"); in = out; } else SCHECK(in != out || (root >= 0 && s->me != root), "reduction with aliased buffers");
    if (s->me != r) {
        sput(s->rank[r], ~c, 800, hdr, 4, MPI_INT); sput(s->rank[r], ~c, 801, in, n, t);
        if (root < 0) { int g = sget(s->rank[r], ~c, 802, out, n, t); (void) g; }
        return 0;
    }
    char* acc = malloc((size_t) b + 1); char* tmp = malloc((size_t) b + 1); int have = 0;
    for (int i = 0; i < s->n; i++) {
        const void* p = in;
        if (i != r) { sget(s->rank[i], ~c, 800, h2, 4, MPI_INT); SCHECK(!memcmp(hdr, h2, sizeof hdr), "processes call reductions with different counts, types, operations or roots"); sget(s->rank[i], ~c, 801, tmp, n, t); p = tmp; }
        if (!have) { memcpy(acc, p, (size_t) b); have = 1; } else sop(acc, p, n, t, op);
    }
    memcpy(out, acc, (size_t) b); free(acc); free(tmp);
    if (root < 0) for (int i = 0; i < s->n; i++) if (i != r) sput(s->rank[i], ~c, 802, out, n, t);
    return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return sreduce(in, out, n, t, op, root, c); }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return sreduce(in, out, n, t, op, -1, c); }

// ---- the MPI backend under test, with access to its static functions
#define USE_MPI 1
#include "backend-mpi.c"

static void simsetup(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) SEED = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--budget")) BUDGET = atof(argv[++i]);
        else if (!strcmp(argv[i], "--test")) ONLYTEST = argv[++i];
        else if (!strcmp(argv[i], "--case")) ONLYCASE = atol(argv[++i]) - 1;
        else if (!strcmp(argv[i], "--thorough")) THOROUGH = 1;
    }
    signal(SIGALRM, onalarm); atexit(onexit_);
    SIM = mmap(0, sizeof(Sim), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (SIM == MAP_FAILED) { printf("no shared memory\n"); exit(2); }
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&SIM->mu, &a);
    pthread_condattr_t b; pthread_condattr_init(&b); pthread_condattr_setpshared(&b, PTHREAD_PROCESS_SHARED); pthread_cond_init(&SIM->cv, &b);
}
static void onsig2(int s) { char b[80]; snprintf(b, sizeof b, "signal %d (assertion or crash in the code)", s); sfail("%s", b); }
static void onexit2(void) { if (!done_ok && SME >= 0) sfail("the code called exit (panic)"); }
// run n processes; each executes body(me, n) with the random stream of the case; on failure report and stop
static void simrun(int n, void (*body)(int, int)) {
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&SIM->mu, &a);
    pthread_condattr_t b; pthread_condattr_init(&b); pthread_condattr_setpshared(&b, PTHREAD_PROCESS_SHARED); pthread_cond_init(&SIM->cv, &b);
    SIM->n = SIM->alive = n; SIM->waiting = SIM->dead = SIM->failed = 0; SIM->rdv = chance(40); SIM->what[0] = SIM->indesc[0] = 0;
    for (int i = 0; i < n; i++) { SIM->wsrc[i] = -1; for (int j = 0; j < n; j++) { SIM->ch[i][j].n = SIM->ch[i][j].first = 0; SIM->ch[i][j].top = 0; SIM->ch[i][j].ncnt = 0; } }
    pid_t pid[SP]; fflush(stdout);
    for (int i = 0; i < n; i++) {
        pid[i] = fork();
        if (!pid[i]) {
            fork_child_flag = 1; done_ok = 0; siminit(n, i); atexit(onexit2); signal(SIGABRT, onsig2); signal(SIGFPE, onsig2); signal(SIGBUS, onsig2);
#ifndef __SANITIZE_ADDRESS__
            signal(SIGSEGV, onsig2);
#endif
            signal(SIGALRM, onsig2); alarm(50);
            body(i, n); simexit();
        }
    }
    int bad = 0, st; char how[200] = "";
    for (int left = n; left > 0; left--) {
        pid_t p = wait(&st); int i = 0; while (i < n && pid[i] != p) i++;
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0))) { if (!bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 7)) snprintf(how, sizeof how, "process %d ended with status %x", i, st);
            bad = 1; pthread_cond_broadcast(&SIM->cv); if (!SIM->failed) SIM->failed = 2; for (int j = 0; j < n; j++) if (j != i) { usleep(1000); } }
    }
    if (bad) { if (SIM->indesc[0]) { dreset(); d("%.30000s", SIM->indesc); } fail("%s%s%s", SIM->what, how[0] ? " / " : "", how); }
    if (SIM->indesc[0]) { dreset(); d("%.30000s", SIM->indesc); }
}
#endif
