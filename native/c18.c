// C18: byte streams of the TCP backend are decoded independently of how they are segmented
// the real receive, send and synchronisation functions of src/backend-tcp2.c; the other processes and the sockets
// are simulated (select/read/write/close are stand-ins): every read returns a random piece of what the peer has sent
// SKIP: backend-tcp2.c
#include "h.h"
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <errno.h>
#include <assert.h>
#include <netdb.h>
#include <regex.h>
static ssize_t x_read(int fd, void* b, size_t n); static ssize_t x_write(int fd, const void* b, size_t n);
static int x_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv); static int x_close(int fd);
#define read x_read
#define write x_write
#define select x_select
#define close x_close
#define accept(a, b, c) (fail("accept called"), -1)
#define connect(a, b, c) (fail("connect called"), -1)
#include "backend-tcp2.c"
#undef read
#undef write
#undef select
#undef close
#undef accept
#undef connect

#define NPEER 6
#define FD0 10
#define NFD 40
typedef struct { unsigned char* b; long n, cap, pos; int eof, closed, open; } Str;
static Str IN[NFD];                     // bytes on their way to the process under test
static int ME, N, BIN[NPEER], FDOF[NPEER], SEG, WSEG; static InstData* ID;
enum { RECV, SEND, SYNC };
#define NKV 6
typedef struct { int kind, p, es, cnt, text, ro; Laik_Range r; unsigned char* data; char name[20]; int nkv[NPEER]; char* key[NPEER][NKV]; char* val[NPEER][NKV]; } Op;
static Op OPS[20]; static int NOPS;
typedef struct { int pc, ann; int allow, acnt, aes; unsigned char* rx; long rxn, rxcap; int kvallow, kvchg, kvn; char kvname[64]; char* kk[64]; char* vv[64];
    unsigned char line[20000]; int ln, bin, hdr; } PeerSim;
static PeerSim PS[NPEER];
static void put(int fd, const void* b, long n) { Str* s = &IN[fd]; if (s->n + n > s->cap) { s->cap = 2 * (s->n + n); s->b = realloc(s->b, (size_t) s->cap); } memcpy(s->b + s->n, b, (size_t) n); s->n += n; }
static void puts_(int fd, const char* f, ...) { char b[12000]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); put(fd, b, n); }
static void noise(int p) {
    int fd = FDOF[p];
    while (chance(15)) switch (rn(0, 3)) { case 0: puts_(fd, "# comment B 12 \r\n"); break; case 1: puts_(fd, "\n"); break; case 2: puts_(fd, "#%0*d\n", (int) rn(1, chance(10) ? 3000 : 60), 7); break; default: puts_(fd, "#\r\r\n"); }
}
static const char* nl(void) { return chance(15) ? "\r\n" : "\n"; }
static void putdata(int p, Op* o) {
    int fd = FDOF[p], e = 0; long dims = o->r.space->dims; Laik_Index ix = o->r.from;
    while (e < o->cnt) {
        if (o->text == 1 || (o->text == 2 && chance(30) && o->es < 300)) {     // one element as text
            char pos[80] = ""; if (chance(60)) { if (dims == 1) sprintf(pos, "(%d:%lld) ", e, (long long) ix.i[0]); else if (dims == 2) sprintf(pos, "(%d:%lld/%lld) ", e, (long long) ix.i[0], (long long) ix.i[1]); else sprintf(pos, "(%d:%lld/%lld/%lld) ", e, (long long) ix.i[0], (long long) ix.i[1], (long long) ix.i[2]); }
            puts_(fd, "data %d %s", o->es, pos); for (int i = 0; i < o->es; i++) puts_(fd, i ? " %02x" : "%02x", o->data[(long) e * o->es + i]); puts_(fd, "\n"); e++; next_lex(&o->r, &ix);
        } else {
            int mx = (8 * 1024 - 3) / o->es, k = (int) rn(1, chance(50) ? mx : mx < 4 ? mx : 4); if (k > o->cnt - e) k = o->cnt - e; unsigned char h[3]; h[0] = 'B'; h[1] = (unsigned char) ((k * o->es) & 255); h[2] = (unsigned char) ((k * o->es) >> 8);
            put(fd, h, 3); put(fd, o->data + (long) e * o->es, (long) k * o->es); for (int i = 0; i < k; i++) { e++; next_lex(&o->r, &ix); }
            if (chance(3)) put(fd, "B\0\0", 3);
        }
        if (e < o->cnt) noise(p);
    }
}
static const char* merged(Op* o, const char* key) { const char* v = 0; for (int p = 0; p < N; p++) for (int i = 0; i < o->nkv[p]; i++) if (!strcmp(o->key[p][i], key)) v = o->val[p][i]; return v; }
static void simstep(int p) {
    PeerSim* s = &PS[p]; int fd = FDOF[p];
    while (s->pc < NOPS) {
        Op* o = &OPS[s->pc];
        if (o->kind == RECV && o->p == p) {
            if (!s->allow) return;
            if (s->acnt != o->cnt || s->aes != o->es) fail("send right for %d elements of %d bytes given, %d of %d expected", s->acnt, s->aes, o->cnt, o->es);
            s->allow = 0; noise(p); putdata(p, o); noise(p);
        } else if (o->kind == SEND && o->p == p) {
            if (!s->ann) { noise(p); puts_(fd, "allowsend %d %d%s", o->cnt, o->es, nl()); noise(p); s->ann = 1; }
            long want = (long) o->cnt * o->es; if (s->rxn > want) fail("more data sent to LID %d than allowed", p);
            if (s->rxn < want) return;
            if (memcmp(s->rx, o->data, (size_t) want)) fail("wrong data sent to LID %d", p);
            s->rxn = 0; s->ann = 0;
        } else if (o->kind == SYNC && ME == 0) {
            if (s->ann == 0) { if (!s->kvallow) return; if (strcmp(s->kvname, o->name)) fail("allowance for KVS '%s', expected '%s'", s->kvname, o->name); s->kvallow = 0; s->ann = 1; s->kvchg = -1; s->kvn = 0;
                noise(p); puts_(fd, "kvs changes %d%s", o->nkv[p], nl()); for (int i = 0; i < o->nkv[p]; i++) { noise(p); puts_(fd, "kvs data %s %s\n", o->key[p][i], o->val[p][i]); } }
            if (s->kvchg < 0 || s->kvn < s->kvchg) return;
            if (s->kvn > s->kvchg) fail("more KVS entries sent than announced");
            for (int q = 0; q < N; q++) for (int i = 0; i < o->nkv[q]; i++) { const char* m = merged(o, o->key[q][i]); int f = 0; for (int k = 0; k < s->kvn; k++) if (!strcmp(s->kk[k], o->key[q][i])) { f++; if (strcmp(s->vv[k], m)) fail("KVS entry '%s' sent as '%s', expected '%s'", s->kk[k], s->vv[k], m); } if (f != 1) fail("KVS entry '%s' sent %d times", o->key[q][i], f); }
            s->ann = 0; s->kvchg = -1;
        } else if (o->kind == SYNC && p == 0) {
            if (!s->ann) { noise(p); puts_(fd, "kvs allow %s%s", o->name, nl()); s->ann = 1; s->kvchg = -1; s->kvn = 0; noise(p); }
            if (s->kvchg < 0 || s->kvn < s->kvchg) return;
            if (s->kvn != o->nkv[ME]) fail("%d own KVS entries announced, %d expected", s->kvn, o->nkv[ME]);
            for (int i = 0; i < o->nkv[ME]; i++) { int f = 0; for (int k = 0; k < s->kvn; k++) if (!strcmp(s->kk[k], o->key[ME][i]) && !strcmp(s->vv[k], o->val[ME][i])) f++; if (f != 1) fail("own KVS entry '%s' sent %d times", o->key[ME][i], f); }
            int c = 0; for (int pass = 0; pass < 2; pass++) { if (pass) puts_(fd, "kvs changes %d\n", c); for (int q = 0; q < N; q++) for (int i = 0; i < o->nkv[q]; i++) { int dup = 0; for (int q2 = 0; q2 < q; q2++) for (int i2 = 0; i2 < o->nkv[q2]; i2++) if (!strcmp(o->key[q][i], o->key[q2][i2])) dup = 1;
                if (!dup) { if (!pass) c++; else { noise(p); puts_(fd, "kvs data %s %s\n", o->key[q][i], merged(o, o->key[q][i])); } } } }
            s->ann = 0; s->kvchg = -1; noise(p);
        }
        s->pc++;
        if (p == 0 && ME && chance(20)) { int a = (int) rn(0, 1000), b = (int) rn(0, 50); puts_(fd, "phase %d %d%s", a, b, nl()); ID->host[0] = 'h'; OPS[19].cnt = a; OPS[19].es = b; OPS[19].kind = 77; }
    }
}
// ---- decode what the process under test sends
static void gotline(int p, char* l) {
    PeerSim* s = &PS[p]; int a, b, n;
    if (l[0] == '#' || !l[0]) return;
    if (sscanf(l, "allowsend %d %d", &a, &b) == 2) { if (s->allow) fail("second send right given to LID %d", p); s->allow = 1; s->acnt = a; s->aes = b; return; }
    if (sscanf(l, "data %d %n", &a, &n) == 1) { char* q = l + n; if (*q == '(') { while (*q && *q != ')') q++; if (*q) q++; } for (int i = 0; i < a; i++) { unsigned v; int k = 0; if (sscanf(q, " %x%n", &v, &k) != 1) fail("data command sent: '%s'", l); q += k; if (s->rxn + 1 > s->rxcap) { s->rxcap = 2 * s->rxcap + 100; s->rx = realloc(s->rx, (size_t) s->rxcap); } s->rx[s->rxn++] = (unsigned char) v; } return; }
    if (sscanf(l, "kvs allow %50s", s->kvname) == 1) { if (s->kvallow) fail("second KVS allowance"); s->kvallow = 1; return; }
    if (sscanf(l, "kvs changes %d", &a) == 1) { s->kvchg = a; s->kvn = 0; return; }
    if (!strncmp(l, "kvs data ", 9)) { char* v = strchr(l + 9, ' '); if (!v || s->kvchg < 0 || s->kvn >= 64) fail("unexpected '%s'", l); *v = 0; s->kk[s->kvn] = strdup(l + 9); s->vv[s->kvn] = strdup(v + 1); s->kvn++; return; }
    if (!strncmp(l, "myid", 4)) return;
    fail("unexpected command '%s' sent to LID %d", l, p);
}
static void gotbyte(int p, unsigned char c) {
    PeerSim* s = &PS[p];
    if (s->bin) { if (s->rxn + 1 > s->rxcap) { s->rxcap = 2 * s->rxcap + 100; s->rx = realloc(s->rx, (size_t) s->rxcap); } s->rx[s->rxn++] = c; s->bin--; return; }
    if (s->ln >= (int) sizeof s->line - 1) fail("command too long");
    s->line[s->ln++] = c;
    if (s->line[0] == 'B') { if (s->ln == 3) { s->bin = s->line[1] | (s->line[2] << 8); s->ln = 0; } return; }
    if (c == '\n') { s->line[s->ln - 1] = 0; s->ln = 0; gotline(p, (char*) s->line); }
}
static ssize_t x_write(int fd, const void* b, size_t n) {
    CHECK(fd >= 0 && fd < NFD && IN[fd].open && !IN[fd].closed, "write to file descriptor %d which is not open", fd);
    if (n == 0) return 0;
    size_t k = WSEG && chance(50) ? (size_t) rn(1, (int64_t) n) : n;
    for (int p = 0; p < N; p++) if (p != ME && FDOF[p] == fd) { for (size_t i = 0; i < k; i++) gotbyte(p, ((const unsigned char*) b)[i]); simstep(p); }
    return (ssize_t) k;
}
static int ready(int fd) { return IN[fd].open && !IN[fd].closed && (IN[fd].pos < IN[fd].n || IN[fd].eof); }
static int x_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    (void) w; (void) e; int any = 0, c = 0; fd_set o; FD_ZERO(&o);
    for (int fd = 0; fd < NFD; fd++) if (FD_ISSET(fd, r) && fd < n && ready(fd)) any++;
    if (!any) { if (tv) { FD_ZERO(r); return 0; } fail("waits for input although the peers have sent everything"); }
    while (!c) for (int fd = 0; fd < NFD; fd++) if (FD_ISSET(fd, r) && fd < n && ready(fd) && chance(60)) { FD_SET(fd, &o); c++; }
    *r = o; return c;
}
static ssize_t x_read(int fd, void* b, size_t n) {
    CHECK(fd >= 0 && fd < NFD && ready(fd), "read from file descriptor %d without data", fd); Str* s = &IN[fd];
    CHECK(n > 0 && n <= 8 * 1024, "read of %zu bytes", n);
    long av = s->n - s->pos; if (!av) return 0;
    long k; switch (SEG) { case 0: k = 1; break; case 1: k = rn(1, 3); break; case 2: k = rn(1, 20); break; case 3: k = rn(1, 1500); break; case 4: k = av; break; default: k = chance(40) ? 1 : chance(50) ? rn(1, 12) : rn(1, 9000); }
    if (k > av) k = av;
    if (k > (long) n) k = (long) n;
    memcpy(b, s->b + s->pos, (size_t) k); s->pos += k; return k;
}
static int x_close(int fd) { CHECK(fd >= 0 && fd < NFD && IN[fd].open && !IN[fd].closed, "close of file descriptor %d which is not open", fd); IN[fd].closed = 1; return 0; }

static void red(void* out, const void* a, const void* b, int c, Laik_ReductionOperation o) { (void) o; unsigned char* q = out; const unsigned char *x = a, *y = b; int es = OPS[18].es; for (int i = 0; i < c * es; i++) q[i] = (unsigned char) (x[i] * 3 + y[i]); }
static Laik_Type* TY[16]; static const int ES[] = {1, 2, 3, 4, 7, 8, 12, 16, 24, 40, 99, 250, 1000, 3000, 5000, 8189};
static char* rndstr(int mx, int key) { int n = (int) rn(1, mx); char* s = malloc((size_t) n + 1); for (int i = 0; i < n; i++) s[i] = (char) (key ? rn('a', 'z') : i && i < n - 1 && chance(10) ? ' ' : rn(33, 126)); s[n] = 0; return s; }
static void build(int n, int me, int late) {
    N = n; ME = me; for (int i = 0; i < NFD; i++) { free(IN[i].b); memset(&IN[i], 0, sizeof IN[i]); }
    for (int i = 0; i < NPEER; i++) { free(PS[i].rx); memset(&PS[i], 0, sizeof PS[i]); PS[i].kvchg = -1; }
    ID = new_inst_data("host", "loc"); ID->mylid = me; ID->mystate = PS_Ready; ID->maxid = n - 1; ID->phase = ID->epoch = 0; ID->listenport = 7777; ID->peers = n - 1; ID->listenfd = 3;
    instance = INST; INST->backend = &laik_backend; INST->backend_data = ID; gsize(n, me); NOPS = 0; OPS[19].kind = 0;
    add_rfd(ID, 3, got_connect);        // never ready
    for (int p = 0; p < n; p++) {
        BIN[p] = chance(60); ID->peer[p].state = PS_Ready; ID->peer[p].host = strdup("host"); ID->peer[p].location = strdup("loc"); ID->peer[p].port = 1234; ID->peer[p].accepts_bin_data = BIN[p];
        if (p == me) continue;
        int fd = FDOF[p] = FD0 + 2 * p + (int) rn(0, 1); IN[fd].open = 1; add_rfd(ID, fd, got_bytes);
        if (late && chance(40)) { puts_(fd, "myid %d\n", p); ID->fds[fd].state = PS_Unknown; } else { ID->fds[fd].lid = p; ID->peer[p].fd = fd; }
    }
    sbuf_used = 3; sbuf_toLID = -1;
}
static void tearDown(void) {
    for (int fd = 0; fd < NFD; fd++) if (ID->fds[fd].cb) free(ID->fds[fd].rbuf);
    for (int p = 0; p < N; p++) { free(ID->peer[p].host); free(ID->peer[p].location); }
    for (int i = 0; i < NOPS; i++) free(OPS[i].data), OPS[i].data = 0;
    free(ID->host); free(ID->location); free(ID);
}
static Laik_Range subr(Laik_Space* s, int mx) {
    Laik_Range r = s->range; for (int t = 0; t < 50; t++) { r = subrange(s); if (!rempty(&r, s->dims) && rsize(&r, s->dims) <= mx) return r; }
    r = s->range; for (int k = 0; k < s->dims; k++) r.to.i[k] = r.from.i[k] + 1; return r;
}
static void mkops(int k, Laik_Space* sp) {
    for (int i = 0; i < k; i++) {
        Op* o = &OPS[NOPS]; memset(o, 0, sizeof *o); o->kind = chance(20) ? SYNC : chance(60) ? RECV : SEND; NOPS++;
        if (o->kind == SYNC) {
            sprintf(o->name, "kvs%d", (int) rn(0, 9999)); d(" sync"); for (int p = 0; p < N; p++) { o->nkv[p] = (int) rn(0, 3); for (int e = 0; e < o->nkv[p]; e++) { char* key = 0; while (1) { key = rndstr(chance(10) ? 200 : 3, 1); int dup = 0; for (int q = 0; q < e; q++) dup |= !strcmp(o->key[p][q], key); if (!dup) break; }
                o->key[p][e] = key; o->val[p][e] = rndstr(chance(20) ? 3000 : 90, 0); d(" %d:%.10s", p, key); } }
            continue;
        }
        do o->p = (int) rn(0, N - 1); while (o->p == ME);
        o->text = o->kind == RECV ? (int) rn(0, 2) : !BIN[o->p]; int t = (int) rn(0, 15); if (o->text == 1 && t > 11) t = (int) rn(0, 10); if (ES[t] > 300 && chance(50)) t = 5; o->es = ES[t];
        int mx = 30000 / o->es; if (mx > 2000) mx = 2000; if (mx > 60 && chance(70)) mx = 60; o->r = subr(sp, mx); o->cnt = (int) rsize(&o->r, sp->dims); o->ro = o->kind == RECV && chance(30) ? LAIK_RO_Sum : LAIK_RO_None;
        o->data = malloc((size_t) o->cnt * (size_t) o->es); for (long q = 0; q < (long) o->cnt * o->es; q++) o->data[q] = (unsigned char) (chance(20) ? "B\n\r\004\0d"[rn(0, 5)] : rn(0, 255));
        d(" %s %d %dx%d", o->kind == RECV ? "recv" : "send", o->p, o->cnt, o->es);
    }
}
static void runops(Laik_Space* sp) {
    Laik_Range all = sp->range; Laik_Layout* l = laik_new_layout_lex(1, &all); long npt = (long) rsize(&all, sp->dims);
    for (int i = 0; i < NOPS; i++) {
        Op* o = &OPS[i]; if (chance(30)) tcp2_make_progress();
        if (o->kind == SYNC) {
            Laik_KVStore* k = laik_kvs_new(o->name, INST); for (int e = 0; e < o->nkv[ME]; e++) laik_kvs_sets(k, o->key[ME][e], o->val[ME][e]);
            tcp2_sync(k); CHECK(ID->kvs == 0, "KVS still registered after synchronisation"); int c = 0;
            for (int q = 0; q < N; q++) for (int e = 0; e < o->nkv[q]; e++) { char* v = laik_kvs_get(k, o->key[q][e], 0); const char* m = merged(o, o->key[q][e]); CHECK(v && !strcmp(v, m), "KVS entry '%s' is '%s' after synchronisation, expected '%s'", o->key[q][e], v ? v : "(none)", m);
                int dup = 0; for (int q2 = 0; q2 < q; q2++) for (int i2 = 0; i2 < o->nkv[q2]; i2++) if (!strcmp(o->key[q][e], o->key[q2][i2])) dup = 1; c += !dup; }
            CHECK((int) laik_kvs_count(k) == c, "%d KVS entries after synchronisation, expected %d", (int) laik_kvs_count(k), c); laik_kvs_free(k); continue;
        }
        Laik_Type t; memset(&t, 0, sizeof t); t.size = o->es; t.reduce = red; t.name = "t"; OPS[18].es = o->es; Laik_Data D; memset(&D, 0, sizeof D); D.space = sp; D.elemsize = o->es; D.type = &t; D.name = "d";
        Laik_Mapping m; memset(&m, 0, sizeof m); m.data = &D; m.layout = l; m.layoutSection = 0; m.allocatedRange = m.requiredRange = all; m.count = m.allocCount = (uint64_t) npt; m.start = malloc((size_t) npt * (size_t) o->es); m.base = m.start; m.capacity = (uint64_t) npt * (uint64_t) o->es;
        unsigned char* ref = malloc((size_t) npt * (size_t) o->es); for (long q = 0; q < npt * o->es; q++) ref[q] = (unsigned char) (q * 7 + 13); memcpy(m.start, ref, (size_t) npt * (size_t) o->es);
        int c = 0; Laik_Range r = o->r;
        for (int64_t z = r.from.i[2]; z < (sp->dims > 2 ? r.to.i[2] : r.from.i[2] + 1); z++) for (int64_t y = r.from.i[1]; y < (sp->dims > 1 ? r.to.i[1] : r.from.i[1] + 1); y++) for (int64_t x = r.from.i[0]; x < r.to.i[0]; x++) {
            int64_t off = x - all.from.i[0]; if (sp->dims > 1) off += (all.to.i[0] - all.from.i[0]) * (y - all.from.i[1]); if (sp->dims > 2) off += (all.to.i[0] - all.from.i[0]) * (all.to.i[1] - all.from.i[1]) * (z - all.from.i[2]);
            unsigned char *a = ref + off * o->es, *b = o->data + (long) c * o->es; for (int q = 0; q < o->es; q++) a[q] = o->kind == RECV && o->ro != LAIK_RO_None ? (unsigned char) (a[q] * 3 + b[q]) : b[q]; c++;
        }
        CHECK(c == o->cnt, "harness");
        if (o->kind == RECV) { recv_range(&r, o->p, &m, (Laik_ReductionOperation) o->ro); for (long q = 0; q < npt * o->es; q++) CHECK(((unsigned char*) m.start)[q] == ref[q], "operation %d: byte %ld of the mapping is %02x after receiving, expected %02x (%d bytes per element)", i, q, ((unsigned char*) m.start)[q], ref[q], o->es); }
        else { memcpy(m.start, ref, (size_t) npt * (size_t) o->es); send_range(&m, &r, o->p); CHECK(ID->peer[o->p].scount == 0, "send right not withdrawn"); CHECK(PS[o->p].pc > i, "operation %d: data not completely sent", i); }
        free(m.start); free(ref);
    }
}
static void drain(void) { for (int i = 0; i < 5; i++) check_loop(ID); }
static void done(void) {
    drain();
    for (int p = 0; p < N; p++) if (p != ME) {
        CHECK(PS[p].pc == NOPS, "LID %d waits in operation %d", p, PS[p].pc); CHECK(PS[p].ln == 0 && PS[p].bin == 0 && PS[p].rxn == 0 && !PS[p].allow, "incomplete command sent to LID %d", p);
        FDState* f = &ID->fds[FDOF[p]]; CHECK(IN[FDOF[p]].pos == IN[FDOF[p]].n, "input of LID %d not consumed", p); CHECK(f->rbuf_used == 0, "%d bytes of LID %d left in receive buffer", f->rbuf_used, p); CHECK(f->outstanding_bin == 0, "binary mode at end of stream");
        CHECK(ID->peer[p].rcount == 0 && ID->peer[p].scount == 0, "receive or send right left over");
    }
    if (OPS[19].kind == 77) CHECK(ID->phase == OPS[19].cnt && ID->epoch == OPS[19].es, "phase %d epoch %d, expected %d and %d", ID->phase, ID->epoch, OPS[19].cnt, OPS[19].es);
}
// random programs of receives, sends and synchronisations with pipelining peers
static void t_ops(const char* name, double share, int big) {
    if (!begin(name, share)) return;
    while (next(100000000)) {
        int n = (int) rn(2, NPEER - 1), me = (int) rn(0, n - 1), dims = chance(60) ? 1 : (int) rn(2, 3); SEG = (int) rn(0, 5); WSEG = chance(30); if (big) SEG = (int) rn(2, 5);
        int64_t f[3], t[3]; int w[] = {0, big ? 2500 : 80, big ? 50 : 9, big ? 13 : 5}; for (int k = 0; k < 3; k++) { f[k] = rn(0, 10); t[k] = f[k] + rn(1, w[dims]); } Laik_Space* sp = mkspace(dims, f, t);
        d("%d processes, LID %d, %dd, segments %d,%d:", n, me, dims, SEG, WSEG); build(n, me, 1); mkops((int) rn(1, 8), sp);
        for (int p = 0; p < n; p++) if (p != me) simstep(p);
        for (int p = 0; p < n; p++) if (p != me) while (ID->peer[p].fd < 0) tcp2_make_progress();
        runops(sp); done(); tearDown(); rmspace(sp);
    }
    endtest();
}
// clients from outside (nc, telnet): connect, ask, close in any way while the program runs
static void t_clients(void) {
    if (!begin("clients", 0.2)) return;
    while (next(100000000)) {
        int n = (int) rn(2, 4), me = (int) rn(0, n - 1); SEG = (int) rn(0, 5); WSEG = chance(30); int64_t f[3] = {0, 0, 0}, t[3] = {20, 1, 1}; Laik_Space* sp = mkspace(1, f, t);
        d("%d processes, LID %d, segments %d,%d:", n, me, SEG, WSEG); build(n, me, 0); mkops((int) rn(1, 4), sp); int nc = (int) rn(1, 3);
        for (int c = 0; c < nc; c++) {
            int fd = 30 + c; IN[fd].open = 1; add_rfd(ID, fd, got_bytes); ID->fds[fd].state = PS_Unknown;
            while (chance(50)) switch (rn(0, 3)) { case 3: { int k = (int) rn(1, 600); char h[3] = {'B', (char) (k & 255), (char) (k >> 8)}; put(fd, h, 3); while (k--) put(fd, "d", 1); break; } case 0: puts_(fd, "status%s", nl()); break; case 1: puts_(fd, "# hello\n"); break; default: puts_(fd, "help\n"); }
            int k = (int) rn(0, 6); d(" client end %d", k);
            switch (k) { case 0: puts_(fd, "quit\n"); break; case 1: puts_(fd, "quit"); break; case 2: puts_(fd, "\004"); break; case 3: puts_(fd, "sta\004more\n"); break; case 4: puts_(fd, "quit\r\n# more\nquit\nB"); break; case 5: puts_(fd, "# unfinished"); break; default: break; }
            IN[fd].eof = 1;
        }
        for (int p = 0; p < n; p++) if (p != me) simstep(p);
        runops(sp); done();
        for (int c = 0; c < nc; c++) { CHECK(IN[30 + c].closed, "connection of client not closed"); CHECK(ID->fds[30 + c].cb == 0 && !FD_ISSET(30 + c, &ID->rset), "closed connection still watched"); }
        tearDown(); rmspace(sp);
    }
    endtest();
}
// last command of a stream without end of line, followed by a closed connection
static void t_eof(void) {
    if (!begin("eof", 0.1)) return;
    while (next(100000000)) {
        SEG = (int) rn(0, 5); WSEG = 0; int a = (int) rn(0, 10000), b = (int) rn(0, 100); d("segments %d phase %d %d", SEG, a, b); build(2, 1, 0); int nlend = chance(50);
        for (int i = (int) rn(0, 4); i > 0; i--) noise(0); puts_(FDOF[0], "phase %d %d%s", a, b, nlend ? "\n" : ""); IN[FDOF[0]].eof = 1;
        drain(); CHECK(ID->phase == a && ID->epoch == b, "phase %d epoch %d, expected %d and %d", ID->phase, ID->epoch, a, b); CHECK(IN[FDOF[0]].closed && ID->peer[0].fd == -1, "connection not closed"); tearDown();
    }
    endtest();
}
int main(int argc, char** argv) {
    setup(argc, argv); setenv("LAIK_TCP2_BIN", "1", 1);
    t_clients(); t_eof(); t_ops("ops", 0.45, 0); t_ops("big", 0.25, 1);
    return finish();
}
