// C17: groups translate process numbers consistently
#include "h.h"
static Laik_Group* mkgroup(int n, int me, int distinct) {
    Laik_Group* g = laik_create_group(INST, n); g->size = n; g->myid = me;
    for (int i = 0; i < n; i++) g->locationid[i] = distinct ? 100 + 7 * i : i;
    return g;
}
static void rmgroup(Laik_Group* g) { INST->group_count--; free(g); }
// five int arrays behind the struct, not overlapping, writable (ASan checks the bounds)
static void check_create(Laik_Group* g, int n) {
    int* a[5] = {g->locationid, g->fromParent, g->toParent, g->fromParent2, g->toParent2};
    for (int k = 0; k < 5; k++) for (int i = 0; i < n; i++) a[k][i] = k * 1000 + i;
    for (int k = 0; k < 5; k++) for (int i = 0; i < n; i++) CHECK(a[k][i] == k * 1000 + i, "create: arrays %d overlaps", k);
    CHECK(g->inst == INST && g->size == 0 && g->maxsize == n && g->parent == 0 && g->parent2 == 0, "create: fields");
    CHECK(INST->group[g->gid] == g && g->gid == INST->group_count - 1, "create: group id");
}
int main(int argc, char** argv) {
    setup(argc, argv); int base = INST->group_count;
    if (begin("create", 0.05)) {
        while (next(200)) { int n = (int) (CASE % 40); d("size %d", n); Laik_Group* g = laik_create_group(INST, n); check_create(g, n); rmgroup(g); }
        endtest();
    }
    if (begin("shrink", 0.5)) {
        while (next(40000)) {
            int n = (int) rn(1, chance(10) ? 40 : 12), me = (int) rn(-1, n - 1); INST->mylocationid = me < 0 ? 5 : 100 + 7 * me; Laik_Group* g = mkgroup(n, me, 1);
            int rm[64], nrm = (int) rn(0, n), gone[64] = {0}; if (chance(10)) nrm = 0;
            d("size %d own %d remove", n, me);
            for (int i = 0; i < nrm; i++) { rm[i] = (int) rn(0, n - 1); gone[rm[i]] = 1; d(" %d", rm[i]); }
            int keep[64], nk = 0; for (int i = 0; i < n; i++) if (!gone[i]) keep[nk++] = i;
            Laik_Group* h = laik_new_shrinked_group(g, nrm, rm);
            CHECK(h != g && h->parent == g && laik_group_parent(h) == g, "parent");
            CHECK(h->size == nk && laik_size(h) == nk, "size %d, expected %d", h->size, nk);
            for (int i = 0; i < nk; i++) { CHECK(h->toParent[i] == keep[i], "toParent[%d] is %d, expected %d", i, h->toParent[i], keep[i]); CHECK(h->locationid[i] == 100 + 7 * keep[i], "location of %d", i);
                CHECK(h->fromParent[keep[i]] == i, "fromParent[%d]", keep[i]); }
            for (int i = 0; i < n; i++) { if (gone[i]) CHECK(h->fromParent[i] == -1, "removed %d translates to %d", i, h->fromParent[i]); CHECK(g->locationid[i] == 100 + 7 * i, "parent changed"); }
            CHECK(h->myid == (me < 0 ? -1 : h->fromParent[me]) && laik_myid(h) == h->myid, "own id %d", h->myid);
            CHECK(g->size == n && g->myid == me && g->parent == 0, "parent changed");
            // shrink again
            if (nk > 1) { int r2 = (int) rn(0, nk - 1); d(" then %d", r2); Laik_Group* k = laik_new_shrinked_group(h, 1, &r2); CHECK(k->size == nk - 1 && k->fromParent[r2] == -1, "second shrink");
                for (int i = 0; i < nk - 1; i++) CHECK(h->toParent[k->toParent[i]] == keep[i < r2 ? i : i + 1] && k->locationid[i] == 100 + 7 * keep[i < r2 ? i : i + 1], "second shrink member %d", i); rmgroup(k); }
            rmgroup(h); rmgroup(g);
        }
        endtest();
    }
    if (begin("clone", 0.1)) {
        while (next(5000)) {
            int n = (int) rn(1, 30), me = (int) rn(-1, n - 1); d("size %d own %d", n, me); Laik_Group* g = mkgroup(n, me, 1); Laik_Group* h = laik_clone_group(g);
            CHECK(h != g && h->parent == g && h->size == n && h->myid == me, "clone fields"); for (int i = 0; i < n; i++) CHECK(h->toParent[i] == i && h->fromParent[i] == i && h->locationid[i] == 100 + 7 * i, "clone member %d", i);
            rmgroup(h); rmgroup(g);
        }
        endtest();
    }
    if (begin("union", 0.35)) {
        while (next(30000)) {
            // two groups over locations 0..19, members in ascending order of location
            int in1[20] = {0}, in2[20] = {0}, l1[20], l2[20], lu[20], n1 = 0, n2 = 0, nu = 0, p = (int) rn(10, 90), q = (int) rn(10, 90);
            for (int i = 0; i < 20; i++) { in1[i] = chance(p); in2[i] = chance(q); } in1[rn(0, 19)] = 1; in2[rn(0, 19)] = 1;
            for (int i = 0; i < 20; i++) { if (in1[i]) l1[n1++] = i; if (in2[i]) l2[n2++] = i; if (in1[i] || in2[i]) lu[nu++] = i; }
            // any order of members
            if (chance(50)) for (int i = 0; i < n1; i++) { int j = (int) rn(0, n1 - 1), t = l1[i]; l1[i] = l1[j]; l1[j] = t; }
            if (chance(50)) for (int i = 0; i < n2; i++) { int j = (int) rn(0, n2 - 1), t = l2[i]; l2[i] = l2[j]; l2[j] = t; }
            int me = (int) rn(0, 19); INST->mylocationid = me;
            d("me %d group1", me); for (int i = 0; i < n1; i++) d(" %d", l1[i]); d(" group2"); for (int i = 0; i < n2; i++) d(" %d", l2[i]);
            Laik_Group *a = mkgroup(n1, -1, 0), *b = mkgroup(n2, -1, 0);
            for (int i = 0; i < n1; i++) { a->locationid[i] = l1[i]; if (l1[i] == me) a->myid = i; } for (int i = 0; i < n2; i++) { b->locationid[i] = l2[i]; if (l2[i] == me) b->myid = i; }
            Laik_Group* u = laik_new_union_group(a, b); CHECK(u->size == nu, "union size %d, expected %d", u->size, nu);
            int seen[20] = {0}; for (int i = 0; i < nu; i++) { int l = u->locationid[i]; CHECK(l >= 0 && l < 20 && !seen[l] && (in1[l] || in2[l]), "union member %d at location %d", i, l); seen[l] = 1; if (l == me) CHECK(u->myid == i, "own id"); }
            if (!in1[me] && !in2[me]) CHECK(u->myid == -1, "own id of a non-member");
            if (u != a && u != b) {
                CHECK(u->parent == a && u->parent2 == b, "parents");
                for (int i = 0; i < nu; i++) { int l = u->locationid[i]; CHECK(l == lu[i], "order");
                    CHECK(in1[l] ? (u->toParent[i] >= 0 && u->toParent[i] < n1 && a->locationid[u->toParent[i]] == l && u->fromParent[u->toParent[i]] == i) : u->toParent[i] == -1, "toParent of %d", i);
                    CHECK(in2[l] ? (u->toParent2[i] >= 0 && u->toParent2[i] < n2 && b->locationid[u->toParent2[i]] == l && u->fromParent2[u->toParent2[i]] == i) : u->toParent2[i] == -1, "toParent2 of %d", i); }
                rmgroup(u);
            }
            rmgroup(b); rmgroup(a);
        }
        endtest();
    }
    CHECK(INST->group_count == base, "groups");
    return finish();
}
