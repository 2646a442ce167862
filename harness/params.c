/* P15: lengths described in parameter lists, selectors among siblings with similar names, containers with the linking member
 * at every kind of offset: every arrangement x every length x operation x mode. */
#include "h.h"
#include "metac/reflect.h"
extern void ha_resume(void);
typedef unsigned short us_t; enum en { EN0, EN1, ENX = 100000 };
/* ---- counted parameters: function, count type, position ---- */
void pa(int *p, int n) { } METAC_GSYM_LINK(pa);
void pb(unsigned char n, int *p) { } METAC_GSYM_LINK(pb);
void pc(int nn, int n1, short n, int *p, long n_, int N) { } METAC_GSYM_LINK(pc);
void pd(long n, int *p, int *n2) { } METAC_GSYM_LINK(pd);
void pe(int *p, us_t n) { } METAC_GSYM_LINK(pe);
void pf(enum en n, int *p) { } METAC_GSYM_LINK(pf);
void pg(const char *s, unsigned long long nmemb, int *p, const unsigned n) { } METAC_GSYM_LINK(pg);
void pm(int m, int *p) { } METAC_GSYM_LINK(pm);         /* the count does not exist */
void ps(int *n, int *p) { } METAC_GSYM_LINK(ps);        /* the count is no number */
/* ---- siblings with similar names ---- */
struct pt { short x, y; };
union un { int i; short a[4]; struct pt p; };
struct sa { char n1, nn; short n; int *p; char n_; long N; }; struct sa sa_v; METAC_GSYM_LINK(sa_v);
struct sb { char s1, ss; union un u; short s; char s_; }; struct sb sb_v; METAC_GSYM_LINK(sb_v);
struct sc { char k1, kk, c1, cc; void *p; short k; int c; char k_, c_; }; struct sc sc_v; METAC_GSYM_LINK(sc_v);
struct sf { char n1, nn; short n; char n_; short f[]; }; struct sf *sf_v; METAC_GSYM_LINK(sf_v);
/* ---- containers ---- */
#define OFFS(X) X(0, 0) X(1, 8) X(2, 124) X(3, 128) X(4, 244) X(5, 248) X(6, 252) X(7, 256) X(8, 508) X(9, 512) X(10, 1020) X(11, 32764) X(12, 65528) X(13, 65536)
#define DC(i, P) struct lh##i { struct lh##i *next; }; struct it##i { int pad[(P) / 4 + ((P) == 0)]; int a; struct lh##i l; short b; }; struct ct##i { int z; struct lh##i *first; short q; }; struct ct##i ct_v##i; METAC_GSYM_LINK(ct_v##i);
OFFS(DC)
struct lhz { struct lhz *next; }; struct itz { struct lhz l; int a; short b; }; struct ctz { int z; struct lhz *first; short q; }; struct ctz ct_vz; METAC_GSYM_LINK(ct_vz);
#define TAG(T, m, ...) METAC_TAG_MAP_ENTRY_FROM_TYPE(T) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = m}), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
#define PARN(f, nm, ...) METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(f)) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = nm}), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final),},)
    PARN(pa, "p", METAC_COUNT_BY(n)) PARN(pb, "p", METAC_COUNT_BY(n)) PARN(pc, "p", METAC_COUNT_BY(n)) PARN(pd, "p", METAC_COUNT_BY(n)) PARN(pe, "p", METAC_COUNT_BY(n)) PARN(pf, "p", METAC_COUNT_BY(n)) PARN(pg, "p", METAC_COUNT_BY(n)) PARN(pm, "p", METAC_COUNT_BY(n)) PARN(ps, "p", METAC_COUNT_BY(n))
    TAG(struct sa, "p", METAC_COUNT_BY(n)) TAG(struct sf, "f", METAC_COUNT_BY(n)) TAG(struct sb, "u", METAC_UNION_MEMBER_SELECT_BY(s)) TAG(struct sc, "p", METAC_CAST_PTR(c, k, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(int *)}, {.fld_val = 2, .p_ptr_entry = METAC_ENTRY_OF(struct pt *)}, {.fld_val = 3, .p_ptr_entry = METAC_ENTRY_OF(long *)}))
#define TC(i, P) TAG(struct lh##i, "next", METAC_CONTAINER_OF(struct it##i, l)) TAG(struct ct##i, "first", METAC_CONTAINER_OF(struct it##i, l))
    OFFS(TC) TC(z, 0)
METAC_TAG_MAP_END
static metac_tag_map_t *tags;
#define ENT(f) METAC_GSYM_LINK_ENTRY(f)
enum { PA, PB, PC, PD, PE, PF, PG, PM, PS, NPF };
static const char *const fn[] = {"(p, int n)", "(unsigned char n, p)", "(nn, n1, short n, p, n_, N)", "(long n, p, n2)", "(p, us_t n)", "(enum n, p)", "(s, nmemb, p, const unsigned n)", "no such count", "the count is a pointer"};
static const int pidx[] = {0, 1, 3, 1, 0, 1, 2, 1, 1};
static metac_entry_t *fe(int f) { switch (f) { case PA: return ENT(pa); case PB: return ENT(pb); case PC: return ENT(pc); case PD: return ENT(pd); case PE: return ENT(pe); case PF: return ENT(pf); case PG: return ENT(pg); case PM: return ENT(pm); default: return ENT(ps); } }
static int other;
static metac_value_t *cap(int f, long n, int *p) {
    metac_value_t *v = metac_new_value_with_call_params(fe(f)), *r = NULL; if (!v) return NULL;
    switch (f) {
        case PA: r = metac_value_parameter_wrap(v, tags, p, (int)n); break; case PB: r = metac_value_parameter_wrap(v, tags, (unsigned char)n, p); break; case PC: r = metac_value_parameter_wrap(v, tags, 1, 2, (short)n, p, 3L, 4); break;
        case PD: r = metac_value_parameter_wrap(v, tags, n, p, &other); break; case PE: r = metac_value_parameter_wrap(v, tags, p, (us_t)n); break; case PF: r = metac_value_parameter_wrap(v, tags, (enum en)n, p); break;
        case PG: r = metac_value_parameter_wrap(v, tags, (char *)NULL, 2ULL, p, (unsigned)n); break; case PM: r = metac_value_parameter_wrap(v, tags, (int)n, p); break; default: r = metac_value_parameter_wrap(v, tags, &other, p);
    }
    return r;
}
static void delv(metac_value_t *v) { if (v) metac_value_with_call_params_delete(v); }
static metac_value_memory_map_mode_t mode(int tree) { metac_value_memory_map_mode_t m = {0}; m.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; return m; }
static void *param_ptr(metac_value_t *v, int i) { void *p = NULL; metac_value_t *x = metac_value_parameter_new_item(v, i); if (x && metac_value_addr(x)) memcpy(&p, metac_value_addr(x), sizeof p); if (x) metac_value_delete(x); return p; }
static long ints_in(const char *s, const char *open) { const char *q = s ? strstr(s, open) : NULL; long c = 0; if (!q) return -1; for (q += strlen(open); *q && *q != '}'; ++q) c += *q == ','; return c; }
static void params(int f, long n, int tree) {
    int bad = f >= PM || n < 0; if (!h_begin("call %s, %ld elements, %s mode", fn[f], n, tree ? "tree" : "dag")) return;
    long m = n < 0 ? 0 : n; int *a = malloc(4 * (size_t)(m + 1)), *b = malloc(4 * (size_t)(m + 1)); for (long i = 0; i <= m; ++i) a[i] = b[i] = (int)(i * 3 + 7); metac_value_memory_map_mode_t md = mode(tree); h_state((uint64_t)(f * 2 + tree) << 32 ^ (uint64_t)n);
    metac_value_t *x = cap(f, n, a), *y = cap(f, n, b), *d = metac_new_value_with_call_params(fe(f)); h_ops(1);
    if (!x || !y || !d) h_fail("the call is not captured");
    else {
        ha_start(0, 0); int e = metac_value_equal_ex(x, y, &md, tags); if (bad ? e >= 0 : e != 1) h_fail("calls with equal arguments: answered %d", e); h_ops(1);
        long at[] = {0, 1, 126, 127, 128, 254, 255, 256, n - 1};
        for (int i = 0; i < 9 && !bad && !h_failed(); ++i) if (at[i] >= 0 && at[i] < n) { b[at[i]] ^= 1; e = metac_value_equal_ex(x, y, &md, tags); b[at[i]] ^= 1; h_ops(1); if (e != 0) h_fail("element %ld of %ld differs: answered %d", at[i], n, e); }
        if (!bad) { b[n] ^= 1; e = metac_value_equal_ex(x, y, &md, tags); b[n] ^= 1; if (e != 1) h_fail("an element behind the described ones matters: answered %d", e); }
        char *s = metac_value_string_ex(x, METAC_WMODE_deep, tags); if (bad ? s != NULL : !s) h_fail(bad ? "printed although the length can not be found" : "not printed"); else if (s && n > 0) { long c = ints_in(s, "(int []){7,"); if (c + 1 != n) h_fail("%ld of %ld elements are printed", c + 1, n); } h_ops(1);
        free(s); if (ha_live()) h_fail("%ld blocks are left", ha_live()); ha_stop();
        if (f != PG) { /* a constant is not written */
            ha_start(0, 0); metac_value_t *r = metac_value_copy_ex(x, d, &md, NULL, NULL, tags); ha_stop(); h_ops(1); if (bad ? r != NULL : r != d) h_fail(bad ? "copied although the length can not be found" : "copy failed");
            if (r == d && n > 0 && !bad) { int *p = param_ptr(d, pidx[f]); if (!p || !ha_is_live(p) || ha_live_size(p) != 4 * (size_t)n) h_fail("copied %zu bytes instead of %ld", p && ha_is_live(p) ? ha_live_size(p) : 0, 4 * n); else if (memcmp(p, a, 4 * (size_t)n)) h_fail("the copied elements differ"); }
            if (r == d && !bad && !h_failed()) { e = metac_value_equal_ex(x, d, &md, tags); if (e != 1) h_fail("the copy does not compare equal: %d", e); if (metac_value_free_ex(d, NULL, NULL, tags) != 1) h_fail("the copy can not be freed"); }
        }
    }
    delv(x); delv(y); delv(d); free(a); free(b); h_outcome("call %s", bad ? "refused" : "described"); h_end();
}
/* ---- similar names: which 0..3, selector value, the other siblings hold oth ---- */
static void names(int w, int v, int oth, int tree) {
    static const char *const wn[] = {"count", "union selector", "cast selector and count", "flexible array count"};
    if (!h_begin("siblings with similar names: %s %d, the others %d, %s mode", wn[w], v, oth, tree ? "tree" : "dag")) return;
    int data[8] = {11, 12, 13, 14, 15, 16, 17, 18}; union { struct sa a; struct sb b; struct sc c; void *p; char raw[64]; } o, q, c; char flx[64] = {0}, fly[64]; size_t need = 0; memset(&o, 0, sizeof o); h_state((uint64_t)(w * 1000 + v * 100 + oth * 2 + tree)); metac_value_memory_map_mode_t md = mode(tree); metac_entry_t *e = NULL; size_t po = 0; const char *want = "";
    if (w == 0) { o.a = (struct sa){.n1 = oth, .nn = oth, .n = (short)v, .p = data, .n_ = oth, .N = oth}; e = ENT(sa_v); po = offsetof(struct sa, p); need = 4 * (size_t)v; want = v == 1 ? "(int []){11,}" : v == 2 ? "(int []){11, 12,}" : v == 3 ? "(int []){11, 12, 13,}" : ""; }
    else if (w == 1) { o.b = (struct sb){.s1 = oth, .ss = oth, .s = (short)v, .s_ = oth}; o.b.u.i = 0x50004; e = ENT(sb_v); want = v == 0 ? ".i = 327684" : v == 1 ? ".a = {4, 5, 0, 0,}" : ".p = {.x = 4, .y = 5,}"; if (v > 2) { h_end(); return; } }
    else if (w == 2) { int k = v == 0 ? 1 : v; o.c = (struct sc){.k1 = oth, .kk = oth, .c1 = oth, .cc = oth, .p = data, .k = (short)k, .c = 2, .k_ = oth, .c_ = oth}; e = ENT(sc_v); po = offsetof(struct sc, p); need = k == 3 ? 16 : 8; want = k == 1 ? "(int []){11, 12,}" : k == 2 ? "(struct pt []){{.x = 11, .y = 0,}, {.x = 12, .y = 0,},}" : "(long int []){51539607563, 60129542157,}"; }
    else { struct sf *s = (void *)flx; s->n1 = s->nn = s->n_ = (char)oth; s->n = (short)v; for (int i = 0; i < 8; ++i) s->f[i] = (short)(21 + i); o.p = flx; e = ENT(sf_v); need = sizeof *s + 2 * (size_t)v; need = offsetof(struct sf, f) + 2 * (size_t)v; want = v == 1 ? "{21,}" : v == 2 ? "{21, 22,}" : v == 3 ? "{21, 22, 23,}" : ""; }
    q = o; memcpy(fly, flx, sizeof fly); if (w == 3) q.p = fly; int dq[8]; memcpy(dq, data, sizeof dq); if (w == 0) q.a.p = dq; if (w == 2) q.c.p = dq;
    metac_value_t *x = metac_new_value(e, &o), *y = metac_new_value(e, &q); memset(&c, 0x66, sizeof c); metac_value_t *d = metac_new_value(e, &c);
    int r = metac_value_equal_ex(x, y, &md, tags); h_ops(1); if (r != 1) h_fail("equal objects: answered %d", r);
    char *blk = w == 3 ? fly : (char *)dq; size_t from = w == 3 ? offsetof(struct sf, f) : 0;
    for (size_t i = from; w != 1 && i < from + 16 && !h_failed(); ++i) { blk[i] ^= 1; r = metac_value_equal_ex(x, y, &md, tags); blk[i] ^= 1; h_ops(1); if (r != (i >= need)) h_fail("byte %zu differs, %zu are described: answered %d", i, need, r); }
    for (int i = 0; w == 1 && i < 8 && !h_failed(); ++i) { char *z = (char *)&q.b.u; z[i] ^= 1; r = metac_value_equal_ex(x, y, &md, tags); z[i] ^= 1; h_ops(1); if (r != (i >= (v == 1 ? 8 : 4))) h_fail("byte %d of member %d differs: answered %d", i, v, r); }
    char *s = metac_value_string_ex(x, METAC_WMODE_deep, tags); h_ops(1); if (!s) h_fail("not printed"); else if (!strstr(s, want)) h_fail("'%s' is not in %s", want, s); free(s);
    ha_start(0, 0); metac_value_t *t = metac_value_copy_ex(x, d, &md, NULL, NULL, tags); ha_stop(); h_ops(1);
    if (t != d) h_fail("copy failed"); else if (w != 1 && v > 0) { void *p; memcpy(&p, (char *)&c + po, 8); if (!p || !ha_is_live(p) || ha_live_size(p) < need || ha_live_size(p) > need + 8) h_fail("%zu bytes were copied, %zu are described", p && ha_is_live(p) ? ha_live_size(p) : 0, need); else if (memcmp(p, w == 3 ? (void *)flx : data, need)) h_fail("the copy differs"); }
    if (t == d && !h_failed()) { r = metac_value_equal_ex(x, d, &md, tags); if (r != 1) h_fail("the copy does not compare equal: %d", r); ha_resume(); if (!metac_value_free_ex(d, NULL, NULL, tags) || ha_live()) h_fail("the copy is not freed"); ha_stop(); }
    metac_value_delete(x); metac_value_delete(y); metac_value_delete(d); h_outcome("similar names"); h_end();
}
/* ---- containers ---- */
struct cl { metac_entry_t *e; size_t off, size, a, b, link; long pad; };
static void *fr[16]; static int nfr; static void rec(void *p) { if (nfr < 16) fr[nfr] = p; ++nfr; }
static char *mkc(struct cl *c, int n, int ring, char *top, int rev) {
    char *it[4]; for (int j = 0; j < n; ++j) { int i = rev ? n - 1 - j : j; it[i] = malloc(c->size); memset(it[i], 0, c->size); for (size_t k = 0; k < (size_t)c->pad; ++k) it[i][k] = (char)(k * 7 + (size_t)i); *(int *)(it[i] + c->a) = 100 + i; *(short *)(it[i] + c->b) = (short)(200 + i); }
    for (int i = 0; i < n; ++i) { char *nx = i + 1 < n ? it[i + 1] + c->link : ring ? it[0] + c->link : NULL; memcpy(it[i] + c->link, &nx, 8); }
    memset(top, 0, sizeof(struct ctz)); ((struct ctz *)top)->z = 5; ((struct ctz *)top)->q = 6; char *f = n ? it[0] + c->link : NULL; memcpy(top + offsetof(struct ctz, first), &f, 8); return n ? it[0] : NULL;
}
static char *nextc(struct cl *c, char *it) { char *p; memcpy(&p, it + c->link, 8); return p ? p - c->link : NULL; }
static void delc(struct cl *c, char *first, int n) { for (int i = 0; i < n; ++i) { char *x = nextc(c, first); free(first); first = x; } }
static void containers(struct cl *c, int n, int ring, int tree) {
    if (!h_begin("%d containers with the linking member at %zu%s, %s mode", n, c->link, ring ? " in a ring" : "", tree ? "tree" : "dag")) return;
    char t1[sizeof(struct ctz)], t2[sizeof t1], t3[sizeof t1]; char *f1 = mkc(c, n, ring, t1, 0), *f2 = mkc(c, n, ring, t2, 1); memset(t3, 0x66, sizeof t3); metac_value_memory_map_mode_t md = mode(tree); h_state((uint64_t)c->link * 64 + (uint64_t)(n * 4 + ring * 2 + tree));
    metac_value_t *x = metac_new_value(c->e, t1), *y = metac_new_value(c->e, t2), *d = metac_new_value(c->e, t3);
    int r = metac_value_equal_ex(x, y, &md, tags); h_ops(1); if (r != 1) h_fail("equal lists: answered %d", r);
    char *p = f2; for (int i = 0; i < n && !h_failed(); ++i, p = nextc(c, p)) for (int k = 0; k < 3; ++k) { size_t at = k == 0 ? c->a : k == 1 ? c->b : (size_t)c->pad - 1; if (k == 2 && !c->pad) continue; p[at] ^= 1; r = metac_value_equal_ex(x, y, &md, tags); p[at] ^= 1; h_ops(1); if (r != 0) h_fail("byte %zu of container %d differs: answered %d", at, i, r); }
    ha_start(0, 0); metac_value_t *t = metac_value_copy_ex(x, d, &md, NULL, NULL, tags); ha_stop(); h_ops(1);
    if (t != d) h_fail("copy failed");
    else {
        char *q; memcpy(&q, t3 + offsetof(struct ctz, first), 8); char *q0 = q; if (!n != !q) h_fail("the link of the copy is %s", q ? "set" : "NULL"); if (q) q -= c->link, q0 = q; p = f1; if (((struct ctz *)t3)->z != 5 || ((struct ctz *)t3)->q != 6) h_fail("the head was not copied");
        for (int i = 0; i < n && !h_failed(); ++i) { if (!ha_is_live(q) || ha_live_size(q) < c->size) { h_fail("container %d was not copied as a whole: %zu bytes", i, ha_is_live(q) ? ha_live_size(q) : 0); break; } if (memcmp(q, p, (size_t)c->pad) || memcmp(q + c->a, p + c->a, 4) || memcmp(q + c->b, p + c->b, 2)) h_fail("container %d differs", i); p = nextc(c, p); q = nextc(c, q); if (!q && i + 1 < n) { h_fail("the list ends behind container %d", i); break; } }
        if (!h_failed() && n && q != (ring ? q0 : NULL)) h_fail("the list does not end as the source"); if (!h_failed() && ha_live() != n) h_fail("%ld blocks for %d containers", ha_live(), n);
        if (!h_failed()) { r = metac_value_equal_ex(x, d, &md, tags); if (r != 1) h_fail("the copy does not compare equal: %d", r); ha_resume(); if (!metac_value_free_ex(d, NULL, NULL, tags) || ha_live()) h_fail("the copy is not freed: %ld blocks left", ha_live()); ha_stop(); }
    }
    if (!tree && !h_failed()) {
        nfr = 0; if (!metac_value_free_ex(x, NULL, rec, tags) || nfr != n) h_fail("%d blocks freed instead of %d", nfr, n); else { p = f1; for (int i = 0; i < n; ++i, p = nextc(c, p)) { int k = 0; while (k < n && fr[k] != p) ++k; if (k == n) h_fail("container %d was not freed", i); } }
        if (!ring) { char *s = metac_value_string_ex(x, METAC_WMODE_deep, tags); h_ops(1); if (!s && (!n || !c->link)) h_fail("not printed"); else if (s) for (int i = 0; i < n; ++i) { char w[32]; snprintf(w, sizeof w, ".a = %d", 100 + i); if (!strstr(s, w)) h_fail("'%s' is not in the text", w); snprintf(w, sizeof w, ".b = %d", 200 + i); if (!strstr(s, w)) h_fail("'%s' is not in the text", w); } free(s); }
    }
    metac_value_delete(x); metac_value_delete(y); metac_value_delete(d); delc(c, f1, n); delc(c, f2, n); h_outcome("containers"); h_end();
}
void h_main_enumerate(void) {
    tags = new_tags(); if (!tags) { fprintf(stderr, "SETUP tag map\n"); exit(3); }
    static const long lens[] = {-1, 0, 1, 2, 3, 7, 16, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1025};
    for (int f = 0; f < NPF; ++f) for (unsigned i = 0; i < sizeof lens / sizeof *lens; ++i) for (int tree = 0; tree < 2; ++tree) { if ((f == PB && (lens[i] > 255 || lens[i] < 0)) || ((f == PE || f == PF || f == PG) && lens[i] < 0) || (lens[i] > 600 && !h_thorough && f != PA && f != PC)) continue; params(f, lens[i], tree); }
    for (int w = 0; w < 4; ++w) for (int v = 0; v < 4; ++v) for (int o = 0; o < 5; ++o) for (int tree = 0; tree < 2; ++tree) names(w, v, o, tree);
#define IC(i, P) {ENT(ct_v##i), 0, sizeof(struct it##i), offsetof(struct it##i, a), offsetof(struct it##i, b), offsetof(struct it##i, l), (long)sizeof(((struct it##i *)0)->pad)},
    struct cl c[] = {OFFS(IC) {ENT(ct_vz), 0, sizeof(struct itz), offsetof(struct itz, a), offsetof(struct itz, b), 0, 0}};
    for (unsigned i = 0; i < sizeof c / sizeof *c; ++i) for (int n = 0; n <= (c[i].pad > 2000 && !h_thorough ? 1 : 3); ++n) for (int ring = 0; ring < (n ? 2 : 1); ++ring) for (int tree = 0; tree < 2; ++tree) containers(&c[i], n, ring, tree);
}
