// C10: packing, unpacking and copying
#include "h.h"
unsigned int laik_layout_pack_gen(Laik_Mapping*, Laik_Range*, Laik_Index*, char*, unsigned int);
unsigned int laik_layout_unpack_gen(Laik_Mapping*, Laik_Range*, Laik_Index*, char*, unsigned int);
// a custom layout: elements in reversed order of dimensions, with a gap between elements
typedef struct { Laik_Layout h; Laik_Range r[4]; int gap; } Rev;
static int64_t rev_offset(Laik_Layout* l, int n, Laik_Index* i) {
    Rev* v = (Rev*) l; int64_t o = 0;
    for (int k = 0; k < l->dims; k++) { CHECK(i->i[k] >= v->r[n].from.i[k] && i->i[k] < v->r[n].to.i[k], "offset asked for index outside of section"); o = o * (v->r[n].to.i[k] - v->r[n].from.i[k]) + i->i[k] - v->r[n].from.i[k]; }
    return o * v->gap;
}
static int rev_mapno(Laik_Layout* l, int n) { return n; }
static Laik_Layout* rev_new(int n, Laik_Range* r, int dims, int gap) {
    Rev* v = calloc(1, sizeof *v); laik_init_layout(&v->h, dims, n, 0, 0, rev_mapno, rev_offset, 0, 0, 0, 0, 0);
    for (int i = 0; i < n; i++) v->r[i] = r[i]; v->gap = gap; return &v->h;
}
// a mapping with its own memory; section sec of a layout with several sections
typedef struct { Laik_Mapping m; Laik_Data d; Laik_Layout* l; unsigned char *mem, *copy; int64_t n; int gap; Laik_Range alloc; } M;
static void mkm(M* q, Laik_Space* s, Laik_Range req, int es, int lex) {
    memset(q, 0, sizeof *q); int dims = s->dims;
    int secs = (int) rn(1, 4), sec = (int) rn(0, secs - 1); Laik_Range r[4];
    for (int i = 0; i < secs; i++) r[i] = subrange(s);
    Laik_Range al = req; if (chance(40)) for (int k = 0; k < dims; k++) { al.from.i[k] -= rn(0, 3); al.to.i[k] += rn(0, 3); }   // embedded in a larger allocation
    r[sec] = req; q->gap = 1;
    if (lex) {
        q->l = laik_new_layout_lex(secs, r);
        if (memcmp(&al, &req, sizeof al)) { Laik_Range o[3]; int on = (int) rn(1, 3), oi = (int) rn(0, on - 1); for (int i = 0; i < on; i++) o[i] = subrange(s); o[oi] = al;
            Laik_Layout* lo = laik_new_layout_lex(on, o); CHECK(q->l->reuse(q->l, sec, lo, oi), "reuse"); free(lo); }
    } else { q->gap = (int) rn(1, 3); r[sec] = al; q->l = rev_new(secs, r, dims, q->gap); }
    q->alloc = al; q->n = rsize(&al, dims) * q->gap;
    q->mem = malloc((size_t) (q->n * es)); q->copy = malloc((size_t) (q->n * es));
    for (int64_t i = 0; i < q->n * es; i++) q->mem[i] = q->copy[i] = (unsigned char) rnd();
    q->d.elemsize = (unsigned) es; q->d.name = "d"; q->d.space = s;
    q->m.data = &q->d; q->m.layout = q->l; q->m.layoutSection = sec; q->m.mapNo = sec; q->m.requiredRange = req; q->m.allocatedRange = al; q->m.count = (uint64_t) rsize(&req, dims);
    q->m.start = (char*) q->mem; q->m.capacity = (uint64_t) (q->n * es); q->m.reusedFor = -1;
    Laik_Index f = req.from; q->m.base = q->m.start + laik_offset(q->l, sec, &f) * es;
    d(" %s sec %d of %d, required ", lex ? "lex" : "rev", sec, secs); drange(&req, dims); d(" in "); drange(&al, dims);
}
static void rmm(M* q) { free(q->mem); free(q->copy); free(q->l); }
// expected place of an element, by an independent formula
static int64_t place(M* q, int dims, int lex, int64_t x, int64_t y, int64_t z) {
    int64_t p[3] = {x, y, z}, o = 0; Laik_Range* a = &q->alloc;
    if (lex) { for (int k = dims - 1; k >= 0; k--) o = o * (a->to.i[k] - a->from.i[k]) + p[k] - a->from.i[k]; return o; }
    for (int k = 0; k < dims; k++) o = o * (a->to.i[k] - a->from.i[k]) + p[k] - a->from.i[k]; return o * q->gap;
}
static Laik_Range inter(Laik_Space* s, Laik_Range* in) { Laik_Space t = *s; t.range = *in; Laik_Range r = subrange(&t); r.space = s; return r; }
int main(int argc, char** argv) {
    setup(argc, argv); laik_set_loglevel(LAIK_LL_Error);
    for (int pass = 0; pass < 3; pass++) {
        static const char* nm[3] = {"lex", "generic", "mixed"};
        if (!begin(nm[pass], 0.33)) continue;
        if (pass == 1) setenv("LAIK_LAYOUT_GENERIC", "1", 1); else unsetenv("LAIK_LAYOUT_GENERIC");
        while (next(60000)) {
            int dims = (int) rn(1, 3), es = (int) (chance(50) ? 8 : rn(1, 9)); Laik_Space* s = rndspace(dims, dims == 1 ? 40 : dims == 2 ? 12 : 7, 1);
            if (chance(10)) for (int k = 0; k < dims; k++) { s->range.from.i[k] += 1ll << 40; s->range.to.i[k] += 1ll << 40; }
            Laik_Range com = subrange(s), a = com, b = com;           // common part
            for (int k = 0; k < dims; k++) { if (chance(60)) a.from.i[k] -= rn(0, 3), a.to.i[k] += rn(0, 3); if (chance(60)) b.from.i[k] -= rn(0, 3), b.to.i[k] += rn(0, 3); }
            for (int k = dims; k < 3; k++) { a.from.i[k] = rn(-2, 2); a.to.i[k] = rn(-2, 2); b.from.i[k] = rn(-2, 2); b.to.i[k] = rn(-2, 2); }
            int lexf = pass == 2 ? chance(50) : 1, lext = pass == 2 ? !lexf || chance(50) : 1; if (pass == 2 && lexf && lext) lext = 0;
            d("dims %d elemsize %d from", dims, es); M f, t; mkm(&f, s, a, es, lexf); d(" to"); mkm(&t, s, b, es, lext);
            Laik_Range r = inter(s, &com); for (int k = dims; k < 3; k++) { r.from.i[k] = com.from.i[k]; r.to.i[k] = com.to.i[k]; } d(" range "); drange(&r, dims);
            int64_t total = rsize(&r, dims); int how = (int) rn(0, 2);
            Laik_Index zero = {{0, 0, 0}}; (void) zero;
            if (how == 0) { d(" copy"); laik_data_copy(&r, &f.m, &t.m); }
            else {
                // pack in steps into one stream, then unpack it in steps of other sizes (or pack/unpack alternating)
                unsigned char* stream = malloc((size_t) (total * es + 1)); int64_t got = 0; Laik_Index ix = r.from; int k = 0;
                d(" pack steps");
                for (;;) {
                    int64_t left = total - got; if (++k > 2000) fail("packing never ends");
                    unsigned sz = chance(20) ? (unsigned) rn(0, es - 1) : chance(15) ? (unsigned) (left * es) : chance(10) ? (unsigned) (left * es + rn(0, 50)) : (unsigned) rn(0, 8 * es);
                    char* buf = malloc(sz + 1); memset(buf, 0x5a, sz + 1); if (k < 30) d(" %u", sz);
                    unsigned n = pass && chance(50) && pass == 2 ? laik_layout_pack_gen(&f.m, &r, &ix, buf, sz) : f.l->pack(&f.m, &r, &ix, buf, sz);
                    CHECK((int64_t) n * es <= sz && (int64_t) n <= left, "packed %u elements into %u bytes, %lld left", n, sz, (long long) left);
                    CHECK(n > 0 || sz < (unsigned) es, "packed nothing into %u bytes", sz);
                    for (unsigned q = n * (unsigned) es; q < sz + 1; q++) CHECK(buf[q] == 0x5a, "byte behind the packed elements written");
                    memcpy(stream + got * es, buf, n * (unsigned) es); free(buf); got += n;
                    if (got == total) { CHECK(laik_index_isEqual(dims, &ix, &r.to), "position after the last element is not the end of the range"); char c = 1; CHECK(f.l->pack(&f.m, &r, &ix, &c, 100) == 0 && c == 1, "packed more than the range"); break; }
                }
                // order of the stream: lexicographic
                int64_t p = 0; FORPOINTS(r, dims, x, y, z) { CHECK(memcmp(stream + p * es, f.copy + place(&f, dims, lexf, x, y, z) * es, (size_t) es) == 0, "element %lld of the stream is not the one of index %lld,%lld,%lld", (long long) p, (long long) x, (long long) y, (long long) z); p++; }
                ix = r.from; got = 0; d(" unpack steps"); k = 0;
                while (got < total) {
                    if (++k > 3000) fail("unpacking never ends");
                    int64_t left = total - got, m = chance(15) ? left : rn(0, left < 8 ? left : 8); unsigned sz = (unsigned) (m * es + (chance(20) ? rn(0, es - 1) : 0)); if (!sz) sz = (unsigned) es, m = 1;
                    char* buf = malloc(sz); memcpy(buf, stream + got * es, (size_t) (m * es)); if (sz > m * es) memset(buf + m * es, 0x77, sz - (size_t) (m * es));
                    if (k < 30) d(" %u", sz);
                    unsigned n = pass == 2 && chance(50) ? laik_layout_unpack_gen(&t.m, &r, &ix, buf, sz) : t.l->unpack(&t.m, &r, &ix, buf, sz); free(buf);
                    CHECK((int64_t) n == m, "unpacked %u elements of %lld", n, (long long) m); got += n;
                }
                CHECK(laik_index_isEqual(dims, &ix, &r.to), "position after unpacking all"); free(stream);
            }
            // exactly the elements of the range changed
            CHECK(memcmp(f.mem, f.copy, (size_t) (f.n * es)) == 0, "source changed");
            FORPOINTS(r, dims, x, y, z) {
                int64_t pf = place(&f, dims, lexf, x, y, z) * es, pt = place(&t, dims, lext, x, y, z) * es;
                CHECK(memcmp(t.mem + pt, f.mem + pf, (size_t) es) == 0, "element %lld,%lld,%lld not transferred", (long long) x, (long long) y, (long long) z);
                memcpy(t.copy + pt, f.mem + pf, (size_t) es);
            }
            CHECK(memcmp(t.mem, t.copy, (size_t) (t.n * es)) == 0, "byte outside of the range changed");
            rmm(&f); rmm(&t); rmspace(s);
        }
        endtest();
    }
    unsetenv("LAIK_LAYOUT_GENERIC");
    return finish();
}
