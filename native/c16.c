// C16: key-value synchronisation gives all processes the same store
// the real journal functions, and the real MPI backend's sync on several processes (see sim.h)
// CFLAGS: -Wno-unused
#include "sim.h"
#define NK 40
typedef struct { char key[20]; int has, len; char val[64]; } KV;
static KV K[NK], A[NK], B[NK]; static int nk;
static void mkkeys(int max) {
    nk = (int) rn(1, max);
    for (int i = 0; i < nk; i++) { int again = 1; while (again) {
        int l = (int) rn(0, 4), p = 0; memset(K[i].key, 0, sizeof K[i].key); if (i && chance(40)) { strcpy(K[i].key, K[rn(0, i - 1)].key); p = (int) strlen(K[i].key); if (p > l) l = p; }
        for (; p < l; p++) K[i].key[p] = chance(70) ? (char) rn('a', 'c') : (char) rn(1, 255);
        again = 0; for (int j = 0; j < i; j++) if (!strcmp(K[i].key, K[j].key)) again = 1; } K[i].has = 0; }
}
static void rndval(KV* v) { v->len = chance(25) ? 0 : (int) rn(1, chance(80) ? 6 : 60); for (int i = 0; i < v->len; i++) v->val[i] = chance(70) ? (char) rn(0, 1) : (char) rn(0, 255); }
static void dv(const KV* v) { d("'%s'=", v->key); for (int i = 0; i < v->len; i++) d("%02x", (unsigned char) v->val[i]); d(" "); }
static int find(const char* k) { for (int i = 0; i < nk; i++) if (!strcmp(K[i].key, k)) return i; return -1; }
// random journal with several updates per key; ref: last update per key
static void rndjournal(Laik_KVS_Changes* c, KV* ref, int max) {
    for (int i = 0; i < nk; i++) { ref[i] = K[i]; ref[i].has = 0; }
    int n = (int) rn(0, max);
    for (int i = 0; i < n; i++) { int k = (int) rn(0, nk - 1); rndval(&ref[k]); ref[k].has = 1; dv(&ref[k]); char* key = strdup(K[k].key); char* v = malloc((size_t) ref[k].len + 1); memcpy(v, ref[k].val, (size_t) ref[k].len); laik_kvs_changes_add(c, key, ref[k].len, ref[k].len ? v : 0, true, false); free(key); free(v); }
}
static void chkraw(const Laik_KVS_Changes* c, const char* w) {       // well-formed journal
    if (c->offUsed == 0) { CHECK(c->dataUsed == 0, "%s: data without changes", w); return; }
    CHECK((c->offUsed & 1) && c->offUsed <= c->offSize && c->dataUsed <= c->dataSize && c->off[0] == 0 && c->off[c->offUsed - 1] == c->dataUsed, "%s: journal not well-formed", w);
    for (int i = 1; i < c->offUsed; i++) CHECK(c->off[i] >= c->off[i - 1], "%s: offsets", w);
}
static void chksorted(const Laik_KVS_Changes* c, const KV* ref, const char* w) {
    int n = 0; for (int i = 0; i < nk; i++) n += ref[i].has;
    CHECK(c->entryUsed == n, "%s: %d keys, expected %d", w, c->entryUsed, n);
    for (int j = 0; j < n; j++) {
        const Laik_KVS_Entry* e = &c->entry[j]; int i = find(e->key); CHECK(i >= 0 && ref[i].has, "%s: key '%s' not expected", w, e->key);
        if (j) CHECK(strcmp(c->entry[j - 1].key, e->key) < 0, "%s: keys not sorted or not unique", w);
        CHECK((int) e->vlen == ref[i].len && !memcmp(e->value, ref[i].val, e->vlen), "%s: value of '%s' wrong", w, e->key);
        CHECK(e->key >= c->data && e->value + e->vlen <= c->data + c->dataUsed, "%s: value outside of the journal", w);
    }
}
static int cbn[3][NK], cblast[NK]; static int cbbad; static Laik_KVStore* cbk;
static void fcre(Laik_KVStore* k, Laik_KVS_Entry* e) { int i = find(e->key); if (i < 0 || k != cbk || !e->value) cbbad = 1; else { cbn[0][i]++; cblast[i] = 0; } }
static void fchg(Laik_KVStore* k, Laik_KVS_Entry* e) { int i = find(e->key); if (i < 0 || k != cbk || !e->value) cbbad = 1; else { cbn[1][i]++; cblast[i] = 1; } }
static void frem(Laik_KVStore* k, char* key) { int i = find(key); if (i < 0 || k != cbk) cbbad = 1; else { cbn[2][i]++; cblast[i] = 2; } }
static void rmkvs(Laik_KVStore* k) { for (unsigned i = 0; i < k->used; i++) { free(k->entry[i].key); free(k->entry[i].value); } laik_kvs_free(k); }
static void chkstore(Laik_KVStore* k, const KV* ref, const char* w) {
    for (int i = 0; i < nk; i++) { unsigned sz = 0; char* v = laik_kvs_get(k, K[i].key, &sz); CHECK(!!v == !!(ref[i].has && ref[i].len), "%s: key '%s' %s", w, K[i].key, v ? "has a value" : "has no value"); if (v) CHECK((int) sz == ref[i].len && !memcmp(v, ref[i].val, sz), "%s: value of key '%s'", w, K[i].key); }
    for (unsigned j = 0; j < laik_kvs_count(k); j++) CHECK(find(laik_kvs_key(laik_kvs_getn(k, j))) >= 0, "%s: unknown key", w);
}
// ---- several processes
static KV ST[NK]; static int ROUND;
static void body(int me, int n) {
    INST = laik_init_mpi(0, 0); Laik_KVStore *k = laik_kvs_new("t", INST); int cbs = chance(50); if (cbs) { laik_kvs_reg_callbacks(k, fcre, fchg, frem); cbk = k; }
    mkkeys(chance(10) ? NK : 8); for (int i = 0; i < nk; i++) ST[i] = K[i];
    int rounds = (int) rn(1, 6); d("%d processes, %d keys:", n, nk);
    for (int r = 0; r < rounds; r++) {
        KV old[NK]; memcpy(old, ST, sizeof old); memset(cbn, 0, sizeof cbn); memset(cblast, -1, sizeof cblast); cbbad = 0; int writer[NK]; static int by[NK][SP]; memset(by, 0, sizeof by);
        for (int i = 0; i < nk; i++) writer[i] = chance(8) ? n : (int) rn(0, n - 1);       // n: all processes write the same value
        int upd = chance(15) ? 0 : (int) rn(1, 3 * nk), busy = chance(20) ? (int) rn(0, n - 1) : -1;
        for (int u = 0; u < upd; u++) {
            int i = (int) rn(0, nk - 1), w = writer[i]; if (busy >= 0 && w != busy) continue; KV v = K[i]; rndval(&v); if (chance(20)) { v.len = ST[i].has ? ST[i].len : 0; memcpy(v.val, ST[i].val, sizeof v.val); }
            if (v.len == 0 && !ST[i].has) continue;       // removal of unknown key
            d(" %d:", w); dv(&v);
            for (int q = 0; q < n; q++) if (w == n || w == q) by[i][q] = 1;
            if (w == me || w == n) { if (v.len == 0) laik_kvs_remove(k, v.key); else { char b[64]; memcpy(b, v.val, (size_t) v.len); SCHECK(laik_kvs_set(k, v.key, (unsigned) v.len, b), "set"); memset(b, 1, sizeof b); } }
            ST[i].has = 1; ST[i].len = v.len; memcpy(ST[i].val, v.val, sizeof v.val);
        }
        d(" sync;"); laik_kvs_sync(k);
        SCHECK(k->changes.offUsed == 0 && k->changes.dataUsed == 0 && !k->in_sync, "journal not empty after sync");
        for (int i = 0; i < nk; i++) {
            unsigned sz = 0; char* v = laik_kvs_get(k, K[i].key, &sz); int live = ST[i].has && ST[i].len;
            SCHECK(!!v == live, "round %d: key '%s' %s", r, K[i].key, v ? "has a value" : "has no value"); if (v) SCHECK((int) sz == ST[i].len && !memcmp(v, ST[i].val, sz), "round %d: value of key '%s' differs", r, K[i].key);
            int was = old[i].has && old[i].len, same = was && live && old[i].len == ST[i].len && !memcmp(old[i].val, ST[i].val, (size_t) old[i].len);
            if (cbs && !by[i][me]) {       // intermediate values may be reported, but the last report tells about the final state
                int touched = 0; for (int q = 0; q < n; q++) touched |= by[i][q]; int calls = cbn[0][i] + cbn[1][i] + cbn[2][i];
                if (!touched) SCHECK(calls == 0, "round %d: callbacks for untouched key '%s'", r, K[i].key);
                if (was != live || (live && !same)) SCHECK(calls > 0, "round %d: change of key '%s' not reported", r, K[i].key);
                if (calls) SCHECK(live ? cblast[i] < 2 : cblast[i] == 2, "round %d: key '%s': last callback is for %s", r, K[i].key, cblast[i] == 2 ? "removal" : "creation or change");
                if (!was && live) SCHECK(cbn[0][i] >= 1 && cbn[0][i] <= cbn[2][i] + 1, "round %d: creation of key '%s' reported %d times, removal %d times", r, K[i].key, cbn[0][i], cbn[2][i]);
                if (was && live && !same) SCHECK(cbn[1][i] > 0 || cbn[0][i] > 0, "round %d: change of key '%s' not reported", r, K[i].key);
                if (was && live) SCHECK(cbn[0][i] <= cbn[2][i], "round %d: key '%s' created %d times, removed %d times", r, K[i].key, cbn[0][i], cbn[2][i]);
            }
        }
        SCHECK(!cbbad, "callback with wrong arguments");
        for (unsigned j = 1; j < laik_kvs_count(k); j++) SCHECK(strcmp(laik_kvs_key(laik_kvs_getn(k, j - 1)), laik_kvs_key(laik_kvs_getn(k, j))) < 0, "store not sorted after sync");
    }
}
int main(int argc, char** argv) {
    simsetup(argc, argv);
    static Laik_Backend fb = {.name = "none", .exec = fake_exec, .sync = fake_sync};
    if (begin("journal", 0.35)) {
        static Laik_Instance fi; fi.backend = &fb; Laik_Instance* in = &fi;
        while (next(40000)) {
            mkkeys(chance(10) ? NK : 6); Laik_KVS_Changes c1, c2, dst; laik_kvs_changes_init(&c1); laik_kvs_changes_init(&c2); laik_kvs_changes_init(&dst);
            int mx = chance(10) ? 100 : 10; rndjournal(&c1, A, mx); d("/ "); rndjournal(&c2, B, mx); chkraw(&c1, "journal"); chkraw(&c2, "journal");
            // equal values for common keys (usually)
            int conflict = 0;
            for (int i = 0; i < nk; i++) if (A[i].has && B[i].has && (A[i].len != B[i].len || memcmp(A[i].val, B[i].val, (size_t) A[i].len))) { if (chance(97)) { B[i] = A[i]; laik_kvs_changes_add(&c2, B[i].key, B[i].len, B[i].len ? B[i].val : 0, true, false); } else conflict = 1; }
            laik_kvs_changes_sort(&c1); chksorted(&c1, A, "sorted journal"); laik_kvs_changes_sort(&c2); chksorted(&c2, B, "sorted journal 2"); chkraw(&c1, "sorted"); chkraw(&c2, "sorted 2");
            if (chance(20)) { for (int i = 0; i < 3; i++) laik_kvs_changes_add(&dst, "old", 3, "abc", true, false); }      // reused
            if (conflict) { d(" conflict"); fflush(stdout); pid_t p = fork(); int st; if (!p) { fork_child_flag = 1; laik_set_loglevel(LAIK_LL_Panic + 1); int fd = dup(1); (void) fd; close(1); close(2); laik_kvs_changes_merge(&dst, &c1, &c2); _exit(0); } waitpid(p, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "journals with different values for a key are merged without complaint"); }
            else {
                laik_kvs_changes_merge(&dst, &c1, &c2); chkraw(&dst, "merged");
                KV M[NK]; for (int i = 0; i < nk; i++) M[i] = A[i].has ? A[i] : B[i]; chksorted(&dst, M, "merged journal");
                // offsets of the result, as sent to the others
                CHECK(dst.offUsed == (dst.entryUsed ? 2 * dst.entryUsed + 1 : 0), "offsets of merged journal"); for (int i = 0; i < dst.entryUsed; i++) CHECK(dst.data + dst.off[2 * i] == dst.entry[i].key && dst.data + dst.off[2 * i + 1] == dst.entry[i].value && dst.off[2 * i + 2] - dst.off[2 * i + 1] == (int) dst.entry[i].vlen, "offsets of merged journal");
                // apply to a store with some keys
                Laik_KVStore* k = laik_kvs_new("k", in); KV S[NK]; for (int i = 0; i < nk; i++) { S[i] = K[i]; if (chance(50)) { do rndval(&S[i]); while (!S[i].len); if (M[i].has && M[i].len && chance(20)) S[i] = M[i]; S[i].has = 1; laik_kvs_set(k, S[i].key, (unsigned) S[i].len, S[i].val); } } laik_kvs_sync(k); if (chance(30)) k->sorted_upto = 0;
                laik_kvs_reg_callbacks(k, fcre, fchg, frem); cbk = k; memset(cbn, 0, sizeof cbn); cbbad = 0; k->in_sync = true;
                KV T[NK]; int raw = chance(40), used = (int) k->used; const KV* ap = M;
                if (raw) { Laik_KVS_Changes r; laik_kvs_changes_init(&r); laik_kvs_changes_ensure_size(&r, dst.offUsed, dst.dataUsed); memcpy(r.off, dst.off, (size_t) dst.offUsed * sizeof(int)); memcpy(r.data, dst.data, (size_t) dst.dataUsed); laik_kvs_changes_set_size(&r, dst.offUsed, dst.dataUsed); laik_kvs_changes_apply(&r, k); laik_kvs_changes_free(&r); }
                else laik_kvs_changes_apply(&dst, k);
                k->in_sync = false; (void) used;
                for (int i = 0; i < nk; i++) { T[i] = ap[i].has ? ap[i] : S[i]; int was = S[i].has, live = T[i].has && T[i].len, same = was && live && S[i].len == T[i].len && !memcmp(S[i].val, T[i].val, (size_t) S[i].len);
                    CHECK(cbn[0][i] == (!was && live) && cbn[1][i] == (was && live && !same) && cbn[2][i] == (was && !live), "callbacks for key '%s': created %d, changed %d, removed %d", K[i].key, cbn[0][i], cbn[1][i], cbn[2][i]); }
                CHECK(!cbbad, "callback with wrong arguments"); chkstore(k, T, "after apply"); CHECK(k->changes.offUsed == 0, "applied changes are propagated again"); rmkvs(k);
            }
            laik_kvs_changes_free(&c1); laik_kvs_changes_free(&c2); laik_kvs_changes_free(&dst);
        }
        endtest();
        if (begin("history", 0.15)) {        // the journal holds the updates since the last sync
            while (next(20000)) {
                mkkeys(6); Laik_KVStore* k = laik_kvs_new("k", in); KV L[64], S[NK]; int nl = 0, n = (int) rn(1, 40); memcpy(S, K, sizeof S);
                for (int u = 0; u < n; u++) {
                    int i = (int) rn(0, nk - 1); if (chance(8)) { d(" sync"); laik_kvs_sync(k); nl = 0; }
                    if (chance(5)) { d(" sort"); laik_kvs_sort(k); }
                    if (chance(25)) { d(" rm '%s'", K[i].key); bool r = laik_kvs_remove(k, K[i].key); CHECK(r == !!S[i].has, "remove"); if (r) { L[nl] = K[i]; L[nl].len = 0; nl++; S[i].len = 0; } continue; }
                    KV v = K[i]; do rndval(&v); while (!v.len); dv(&v); int same = S[i].has && S[i].len == v.len && !memcmp(S[i].val, v.val, (size_t) v.len); laik_kvs_set(k, v.key, (unsigned) v.len, v.val); v.has = 1; S[i] = v; if (!same) L[nl++] = v;
                }
                Laik_KVS_Changes* c = &k->changes; chkraw(c, "journal"); CHECK(c->offUsed == (nl ? 2 * nl + 1 : 0), "journal has %d offsets, %d updates expected", c->offUsed, nl);
                for (int i = 0; i < nl; i++) { CHECK(!strcmp(c->data + c->off[2 * i], L[i].key) && c->off[2 * i + 1] - c->off[2 * i] == (int) strlen(L[i].key) + 1, "key of update %d", i); CHECK(c->off[2 * i + 2] - c->off[2 * i + 1] == L[i].len && !memcmp(c->data + c->off[2 * i + 1], L[i].val, (size_t) L[i].len), "value of update %d of key '%s'", i, L[i].key); }
                rmkvs(k);
            }
            endtest();
        }
    }
    if (begin("sync", 0.5)) { while (next(100000)) simrun((int) rn(1, 6), body); endtest(); }
    return finish();
}
