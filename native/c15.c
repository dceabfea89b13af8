// C15: the key-value store returns the last value set for each key
#include "h.h"
#define NK 60
typedef struct { char key[24]; int live, used, len; char val[200]; } Ref;
static Ref R[NK]; static int nk;
static void mkkeys(void) {          // keys with common prefixes, empty key, keys differing in last byte, bytes above 127
    nk = (int) rn(1, chance(20) ? NK : 8);
    for (int i = 0; i < nk; i++) {
        int again = 1;
        while (again) {
            int l = (int) rn(0, chance(20) ? 20 : 3), p = 0; memset(R[i].key, 0, sizeof R[i].key);
            if (i && chance(40)) { strcpy(R[i].key, R[rn(0, i - 1)].key); p = (int) strlen(R[i].key); if (p > l) l = p; }
            for (; p < l; p++) R[i].key[p] = chance(70) ? (char) rn('a', 'c') : (char) rn(1, 255);
            again = 0; for (int j = 0; j < i; j++) if (!strcmp(R[i].key, R[j].key)) again = 1;
        }
        R[i].live = R[i].used = 0;
    }
}
static void hex(const char* v, int n) { for (int i = 0; i < n && i < 24; i++) d("%02x", (unsigned char) v[i]); }
static void checkall(Laik_KVStore* k) {
    unsigned live = 0, used = 0;
    for (int i = 0; i < nk; i++) {
        unsigned sz = 7777; char* v = laik_kvs_get(k, R[i].key, &sz); Laik_KVS_Entry* e = laik_kvs_entry(k, R[i].key);
        live += R[i].live; used += R[i].used;
        if (!R[i].used) { CHECK(!v && !e, "key '%s' was never set but has a value", R[i].key); continue; }
        if (!R[i].live) { CHECK(!v, "removed key '%s' has a value", R[i].key); CHECK(!e || laik_kvs_size(e) == 0, "removed key '%s' has a size", R[i].key); continue; }
        CHECK(v && e, "value of key '%s' lost", R[i].key); CHECK((int) sz == R[i].len, "size of value of key '%s' is %u, expected %d", R[i].key, sz, R[i].len);
        CHECK(!memcmp(v, R[i].val, sz), "value of key '%s' differs", R[i].key);
        CHECK(!strcmp(laik_kvs_key(e), R[i].key) && laik_kvs_size(e) == sz && laik_kvs_data(e, 0) == v, "entry of key '%s'", R[i].key);
        char b[220]; int m = (int) rn(0, 210); memset(b, 'Z', sizeof b); unsigned c = laik_kvs_copy(e, b, (unsigned) m);
        CHECK((int) c == (m < (int) sz ? m : (int) sz) && !memcmp(b, R[i].val, c) && b[c] == 'Z', "copy of key '%s'", R[i].key);
    }
    // enumeration: each key once
    int seen[NK] = {0}; unsigned n = laik_kvs_count(k), nl = 0; CHECK(!laik_kvs_getn(k, n) && !laik_kvs_getn(k, n + 5), "entry beyond the count");
    CHECK(n == used, "count %u, expected %u", n, used);
    for (unsigned j = 0; j < n; j++) {
        Laik_KVS_Entry* e = laik_kvs_getn(k, j); CHECK(e, "entry %u missing", j); int f = -1;
        for (int i = 0; i < nk; i++) if (!strcmp(R[i].key, laik_kvs_key(e))) f = i;
        CHECK(f >= 0 && !seen[f], "entry %u: key '%s' %s", j, laik_kvs_key(e), f < 0 ? "unknown" : "twice"); seen[f] = 1; if (laik_kvs_data(e, 0)) { nl++; CHECK(R[f].live, "dead key listed with value"); }
    }
    CHECK(nl == live, "%u live entries, expected %u", nl, live);
}
static void setkey(Laik_KVStore* k, int i) {
    char v[200]; int l = chance(85) ? (int) rn(1, 12) : (int) rn(0, 199);
    for (int j = 0; j < l; j++) v[j] = chance(60) ? (char) rn(0, 2) : (char) rn(0, 255);
    if (R[i].live && chance(40)) {        // prefix / extension / same / last byte changed
        l = R[i].len; memcpy(v, R[i].val, (size_t) l); int w = (int) rn(0, 3);
        if (w == 0 && l > 1) l = (int) rn(1, l - 1); if (w == 1 && l < 190) { int m = (int) rn(1, 9); for (int j = 0; j < m; j++) v[l + j] = (char) rn(0, 2); l += m; } if (w == 2 && l) v[l - 1] ^= 1;
    }
    char* kk = strdup(R[i].key); char* vv = malloc((size_t) (l ? l : 1)); memcpy(vv, v, (size_t) l);        // exact sizes, own copies
    Laik_KVS_Entry* e;
    if (l && chance(30)) { int z = -1; for (int j = 0; j < l; j++) if (!v[j]) { z = j; break; } if (z >= 0) l = z + 1; else { v[l - 1] = 0; vv[l - 1] = 0; } d(" sets '%s'=", kk); hex(v, l); e = laik_kvs_sets(k, kk, vv); }
    else { d(" set '%s'=", kk); hex(v, l); d("(%d)", l); e = laik_kvs_set(k, kk, (unsigned) l, vv); }
    memset(kk, 'x', strlen(kk)); memset(vv, 'y', (size_t) l); free(kk); free(vv);
    R[i].used = R[i].live = 1; R[i].len = l; memcpy(R[i].val, v, (size_t) l);
    CHECK(e && !strcmp(laik_kvs_key(e), R[i].key) && (int) laik_kvs_size(e) == l, "returned entry");
}
static void rmkvs(Laik_KVStore* k) { for (unsigned i = 0; i < k->used; i++) { free(k->entry[i].key); free(k->entry[i].value); } laik_kvs_free(k); }
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("history", 0.7)) {
        while (next(30000)) {
            mkkeys(); Laik_KVStore* k = laik_kvs_new("s", INST); int n = (int) rn(1, chance(10) ? 200 : 25);
            int syncs = chance(70);
            for (int s = 0; s < n; s++) {
                int i = (int) rn(0, nk - 1), w = (int) rn(0, 99);
                if (w < 60) setkey(k, i);
                else if (w < 80) { d(" rm '%s'", R[i].key); bool r = laik_kvs_remove(k, R[i].key); CHECK(r || !R[i].used, "remove of '%s' found nothing", R[i].key); CHECK(!r || R[i].used, "remove of unknown key"); R[i].live = 0; }
                else if (w < 84) { d(" setnull '%s'", R[i].key); CHECK(!laik_kvs_set(k, R[i].key, 3, 0), "set to nothing"); R[i].live = 0; }
                else if (w < 88) { d(" clean"); laik_kvs_clean(k); for (int j = 0; j < nk; j++) R[j].live = 0; }
                else if (w < 93) { d(" sort"); laik_kvs_sort(k); for (unsigned j = 1; j < k->used; j++) CHECK(strcmp(k->entry[j - 1].key, k->entry[j].key) < 0, "not sorted"); }
                else if (w < 97 && syncs) { d(" sync"); laik_kvs_sync(k); }
                else checkall(k);
                if (n < 30) checkall(k);
            }
            checkall(k); laik_kvs_sort(k); checkall(k); rmkvs(k);
        }
        endtest();
    }
    if (begin("large", 0.3)) {          // growth of the table
        while (next(60)) {
            int n = (int) rn(900, 4300); d("%d keys", n); Laik_KVStore* k = laik_kvs_new("big", INST); char b[32]; int st = (int) rn(1, 50) * 2 + 1;
            int* val = malloc(sizeof(int) * 5000);
            for (int i = 0; i < n; i++) { int kk = (i * st) % 4999; sprintf(b, "k%d", kk); val[kk] = i; laik_kvs_set(k, b, sizeof(int), (char*) &i); if (chance(1) && chance(20)) { d(" sort at %d", i); laik_kvs_sort(k); } if (chance(1) && chance(30)) { d(" sync at %d", i); laik_kvs_sync(k); } }
            CHECK((int) laik_kvs_count(k) == n, "count %u", laik_kvs_count(k));
            int rmd = (int) rn(0, n - 1); sprintf(b, "k%d", (rmd * st) % 4999); CHECK(laik_kvs_remove(k, b), "remove");
            for (int i = 0; i < n; i++) { int kk = (i * st) % 4999; sprintf(b, "k%d", kk); unsigned sz; int* v = (int*) laik_kvs_get(k, b, &sz); if (i == rmd) { CHECK(!v, "removed key"); continue; } CHECK(v && sz == sizeof(int) && *v == i, "value of key %s", b); }
            laik_kvs_sort(k); for (unsigned j = 1; j < k->used; j++) CHECK(strcmp(k->entry[j - 1].key, k->entry[j].key) < 0, "not sorted");
            for (int i = 0; i < n; i += 7) { int kk = (i * st) % 4999; sprintf(b, "k%d", kk); int* v = (int*) laik_kvs_get(k, b, 0); if (i == rmd) continue; CHECK(v && *v == i, "value of key %s after sort", b); }
            free(val); rmkvs(k);
        }
        endtest();
    }
    return finish();
}
