// C19: a space description survives serialisation
#include "h.h"
char* laik_space_serialize(Laik_Space*, unsigned*); bool laik_space_set(Laik_Space*, char*); Laik_KVStore* laik_spacestore(Laik_Instance*); void laik_spacestore_set(Laik_Space*); Laik_Space* laik_spacestore_get(Laik_Instance*, char*);
static int64_t coord(void) {
    switch (rn(0, 5)) { case 0: return rn(-9, 9); case 1: return INT64_MIN + rn(0, 3); case 2: return INT64_MAX - rn(0, 3); case 3: return rn(-100000000000ll, 100000000000ll);
        case 4: { int64_t v = 1; int k = (int) rn(0, 18); while (k--) v *= 10; v += rn(-1, 1); return chance(50) ? v : -v; } default: return (int64_t) rnd(); }
}
int main(int argc, char** argv) {
    setup(argc, argv);
    if (begin("roundtrip", 0.8)) {
        while (next(400000)) {
            int dims = (int) rn(1, 3); int64_t f[3], t[3]; for (int k = 0; k < 3; k++) { f[k] = coord(); t[k] = coord(); }
            if (chance(5)) for (int k = 0; k < 3; k++) { f[k] = INT64_MIN; t[k] = INT64_MIN + 1; }
            Laik_Space *s = mkspace(dims, f, t), *r = mkspace((int) rn(1, 3), t, f); drange(&s->range, dims);
            unsigned len = 0; char* b = laik_space_serialize(s, &len); CHECK(b && strlen(b) == len, "length %u of '%s'", len, b);
            char* c = malloc(len + 1); memcpy(c, b, len + 1); CHECK(laik_space_serialize(s, 0), "without size");
            CHECK(laik_space_set(r, c), "'%s' cannot be read back", c);
            CHECK(r->dims == dims, "dimensions of '%s' read as %d", c, r->dims);
            for (int k = 0; k < dims; k++) CHECK(r->range.from.i[k] == f[k] && r->range.to.i[k] == t[k], "'%s': dimension %d read as %lld:%lld", c, k, (long long) r->range.from.i[k], (long long) r->range.to.i[k]);
            free(c); rmspace(s); rmspace(r);
        }
        endtest();
    }
    if (begin("invalid", 0.05)) {
        const char* bad[] = {"", "0(1/2)", "4(1/2)", "1", "1(", "1(3", "1(3/", "2(1/2)", "2(1,2/3)", "3(1,2/3,4)", "3(1,2,3/4,5)", "x(1/2)", "1[1/2)"};
        while (next((long) (sizeof bad / sizeof *bad))) { int64_t z[3] = {0, 0, 0}; Laik_Space* r = mkspace(1, z, z); d("'%s'", bad[CASE - 1]); CHECK(!laik_space_set(r, (char*) bad[CASE - 1]), "invalid description accepted"); rmspace(r); }
        endtest();
    }
    if (begin("store", 0.15)) {          // through the space store: as another process sees it after synchronisation
        while (next(20000)) {
            int dims = (int) rn(1, 3); int64_t f[3], t[3]; for (int k = 0; k < 3; k++) { f[k] = coord(); t[k] = coord(); }
            Laik_Instance *in = malloc(sizeof *in), *in2 = malloc(sizeof *in); *in = *INST; *in2 = *INST; in->spaceStore = in2->spaceStore = 0;
            Laik_Space* s = mkspace(dims, f, t); s->inst = in; s->kvs = 0; drange(&s->range, dims);
            laik_spacestore_set(s); Laik_Space* g = laik_spacestore_get(in, s->name); CHECK(g == s, "space not found"); CHECK(!laik_spacestore_get(in, "other"), "unknown space");
            Laik_KVStore* k2 = laik_spacestore(in2); k2->in_sync = true; laik_kvs_changes_apply(&in->spaceStore->changes, k2); k2->in_sync = false;
            Laik_Space* o = laik_spacestore_get(in2, s->name); CHECK(o && o->dims == dims && !strcmp(o->name, s->name) && o->inst == in2, "space missing at the other process");
            for (int k = 0; k < dims; k++) CHECK(o->range.from.i[k] == f[k] && o->range.to.i[k] == t[k], "dimension %d differs at the other process", k);
            // change of the range
            Laik_Range nr = s->range; nr.from.i[0] = coord(); nr.to.i[dims - 1] = coord(); s->range = nr; laik_kvs_changes_set_size(&in->spaceStore->changes, 0, 0); laik_kvs_sync(in->spaceStore);
            laik_spacestore_set(s); k2->in_sync = true; laik_kvs_changes_apply(&in->spaceStore->changes, k2); k2->in_sync = false;
            CHECK(laik_spacestore_get(in2, s->name) == o, "space was replaced"); for (int k = 0; k < dims; k++) CHECK(o->range.from.i[k] == nr.from.i[k] && o->range.to.i[k] == nr.to.i[k], "changed dimension %d differs at the other process", k);
            laik_kvs_free(in->spaceStore); laik_kvs_free(in2->spaceStore); rmspace(s); free(in); free(in2);
        }
        endtest();
    }
    return finish();
}
