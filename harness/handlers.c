/* P15: described lengths, active members and real types: every selector type and value x operation x mode.
 * Each object comes with the set of bytes its description makes visible; every other byte must not matter. */
#include "h.h"
#include "metac/reflect.h"
#include <stdbool.h>
#include <limits.h>

enum en { EM1 = -1, E0, E1, E2, E3, EBIG = 1000 };
typedef int ti_t; struct pt { short x, y; };
#define SELS(X) X(c, char) X(uc, unsigned char) X(s, short) X(us, unsigned short) X(i, int) X(u, unsigned) X(l, long) X(ul, unsigned long) X(ll, long long) X(ull, unsigned long long) X(e, enum en) X(ti, ti_t) X(ci, const int) X(vs, volatile short)
#define BITS(X) X(b4, int, 4) X(b3, unsigned, 3) X(b5, short, 5) X(b40, long, 40)
union un { int i; short a[4]; char *s; struct pt p; };
/* count in front of / behind the pointer, flexible array, union by id, union by cases, anonymous union, cast */
#define DEF_(k, DECL) \
    struct cb_##k { DECL; int *p; int z; }; struct ca_##k { int *p; int z; DECL; }; struct cf_##k { DECL; short q; short f[]; }; \
    struct ui_##k { DECL; union un u; int z; }; struct uc_##k { int z; union un u; DECL; }; struct ua_##k { DECL; union { int ui; short ua[4]; char *us; struct pt up; }; }; \
    struct vc_##k { DECL; void *p; short cnt; }; struct v1_##k { void *p; DECL; }; \
    struct cb_##k cb_v_##k; METAC_GSYM_LINK(cb_v_##k); struct ca_##k ca_v_##k; METAC_GSYM_LINK(ca_v_##k); struct cf_##k *cf_v_##k; METAC_GSYM_LINK(cf_v_##k); \
    struct ui_##k ui_v_##k; METAC_GSYM_LINK(ui_v_##k); struct uc_##k uc_v_##k; METAC_GSYM_LINK(uc_v_##k); struct ua_##k ua_v_##k; METAC_GSYM_LINK(ua_v_##k); struct vc_##k vc_v_##k; METAC_GSYM_LINK(vc_v_##k); struct v1_##k v1_v_##k; METAC_GSYM_LINK(v1_v_##k);
#define DEFS(k, T) DEF_(k, T n)
#define DEFB(k, T, w) DEF_(k, T n : w)
SELS(DEFS) BITS(DEFB)
struct zs { int a; char *s; int z; }; struct zs zs_v; METAC_GSYM_LINK(zs_v);
struct zc { const char *s; }; struct zc zc_v; METAC_GSYM_LINK(zc_v); typedef char *str_t; struct zt { str_t s; }; struct zt zt_v; METAC_GSYM_LINK(zt_v);
struct zf { int a; char s[]; }; struct zf *zf_v; METAC_GSYM_LINK(zf_v);
struct zi { int *s; }; struct zi zi_v; METAC_GSYM_LINK(zi_v); struct zu { unsigned short *s; }; struct zu zu_v; METAC_GSYM_LINK(zu_v);
struct nm { int n; int *p; int z; }; struct nm nm_v; METAC_GSYM_LINK(nm_v);              /* count by a member that does not exist */
struct ns { struct pt n; int *p; int z; }; struct ns ns_v; METAC_GSYM_LINK(ns_v);        /* count by a member that is no number */
struct um { int n; union un u; }; struct um um_v; METAC_GSYM_LINK(um_v);                 /* select by a member that does not exist */
struct ub { int n; union un u; }; struct ub ub_v; METAC_GSYM_LINK(ub_v);                 /* cases naming members that do not exist */
struct up0 { int z; union un u; }; struct up0 up0_v; METAC_GSYM_LINK(up0_v); struct up1 { int z; union un u; }; struct up1 up1_v; METAC_GSYM_LINK(up1_v);
struct up2 { int z; union un u; }; struct up2 up2_v; METAC_GSYM_LINK(up2_v); struct up3 { int z; union un u; }; struct up3 up3_v; METAC_GSYM_LINK(up3_v); struct up4 { int z; union un u; }; struct up4 up4_v; METAC_GSYM_LINK(up4_v); struct upm { int z; union un u; }; struct upm upm_v; METAC_GSYM_LINK(upm_v);
/* long arrays and strings */
struct lgp { int n; char *p; char z; }; struct lgp lgp_v; METAC_GSYM_LINK(lgp_v); struct lgu { unsigned short n; short *p; char z; }; struct lgu lgu_v; METAC_GSYM_LINK(lgu_v); struct lgf { unsigned long n; char p[]; }; struct lgf *lgf_v; METAC_GSYM_LINK(lgf_v);
struct lgz { char *p; char z; }; struct lgz lgz_v; METAC_GSYM_LINK(lgz_v); struct lgc { int k; void *p; unsigned n; }; struct lgc lgc_v; METAC_GSYM_LINK(lgc_v); struct lgs { int n; struct pt *p; char z; }; struct lgs lgs_v; METAC_GSYM_LINK(lgs_v); struct lgb { unsigned n : 20; char *p; }; struct lgb lgb_v; METAC_GSYM_LINK(lgb_v);

#define MEM(m) METAC_TAG_MAP_ENTRY_MEMBER({.n = m})
#define TAG(T, m, ...) METAC_TAG_MAP_ENTRY_FROM_TYPE(T) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, MEM(m), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
#define TAGI(T, m, ...) METAC_TAG_MAP_ENTRY_FROM_TYPE(T) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.i = m}), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final),},)
#define T_(k) \
    TAG(struct cb_##k, "p", METAC_COUNT_BY(n)) TAG(struct ca_##k, "p", METAC_COUNT_BY(n)) TAG(struct cf_##k, "f", METAC_COUNT_BY(n)) \
    TAG(struct ui_##k, "u", METAC_UNION_MEMBER_SELECT_BY(n)) \
    TAG(struct uc_##k, "u", METAC_UNION_MEMBER_SELECT_BY(n, {.fld_val = 3, .union_fld_name = "a"}, {.fld_val = -1, .union_fld_name = "i"}, {.fld_val = 0, .union_fld_id = 3}, {.fld_val = 3, .union_fld_name = "i"}, {.fld_val = 2, .union_fld_id = 2})) \
    TAGI(struct ua_##k, 1, METAC_UNION_MEMBER_SELECT_BY(n)) \
    TAG(struct vc_##k, "p", METAC_CAST_PTR(cnt, n, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(int *)}, {.fld_val = -1, .p_ptr_entry = METAC_ENTRY_OF(struct pt *)}, {.fld_val = 3, .p_ptr_entry = METAC_ENTRY_OF(char *)}, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(long *)})) \
    TAG(struct v1_##k, "p", METAC_CAST_PTR(, n, {.fld_val = 0, .p_ptr_entry = METAC_ENTRY_OF(int *)}, {.fld_val = 2, .p_ptr_entry = METAC_ENTRY_OF(struct pt *)}))
#define TS(k, T) T_(k)
#define TB(k, T, w) T_(k)
    SELS(TS) BITS(TB)
    TAG(struct zs, "s", METAC_ZERO_ENDED_STRING()) TAG(struct zc, "s", METAC_ZERO_ENDED_STRING()) TAG(struct zt, "s", METAC_ZERO_ENDED_STRING()) TAG(struct zf, "s", METAC_ZERO_ENDED_STRING()) TAG(struct zi, "s", METAC_ZERO_ENDED_STRING()) TAG(struct zu, "s", METAC_ZERO_ENDED_STRING())
    TAG(struct lgp, "p", METAC_COUNT_BY(n)) TAG(struct lgu, "p", METAC_COUNT_BY(n)) TAG(struct lgf, "p", METAC_COUNT_BY(n)) TAG(struct lgz, "p", METAC_ZERO_ENDED_STRING()) TAG(struct lgs, "p", METAC_COUNT_BY(n)) TAG(struct lgb, "p", METAC_COUNT_BY(n)) TAG(struct lgc, "p", METAC_CAST_PTR(n, k, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(char *)}))
    TAG(struct nm, "p", METAC_COUNT_BY(nosuch)) TAG(struct ns, "p", METAC_COUNT_BY(n)) TAG(struct um, "u", METAC_UNION_MEMBER_SELECT_BY(nosuch))
    TAG(struct ub, "u", METAC_UNION_MEMBER_SELECT_BY(n, {.fld_val = 0, .union_fld_name = "nosuch"}, {.fld_val = 1, .union_fld_id = 4}, {.fld_val = 2, .union_fld_id = -1}, {.fld_val = 3, .union_fld_name = "i"}))
    TAG(struct up0, "u", METAC_UNION_MEMBER_PARMANENT_SELECTION(0)) TAG(struct up1, "u", METAC_UNION_MEMBER_PARMANENT_SELECTION(1)) TAG(struct up2, "u", METAC_UNION_MEMBER_PARMANENT_SELECTION(2)) TAG(struct up3, "u", METAC_UNION_MEMBER_PARMANENT_SELECTION(3)) TAG(struct up4, "u", METAC_UNION_MEMBER_PARMANENT_SELECTION(4)) TAG(struct upm, "u", METAC_UNION_MEMBER_PARMANENT_SELECTION(-1))
METAC_TAG_MAP_END
static metac_tag_map_t *tags;

/* one object: top-level bytes and at most one block behind pointer slot pslot */
struct obj { char *t, *b; size_t ts, bs, need; long pslot; unsigned char vt[128], vb[128]; /* 1 visible, 2 pointer or selector: not varied */ };
struct sh { const char *name; metac_entry_t *e; int ok, zero, notext; char text[160], notxt[64]; void (*build)(struct sh *, struct obj *); long par[4]; };
static void mkt(struct obj *o, size_t n) { o->t = malloc(n); o->ts = n; memset(o->t, 0, n); memset(o->vt, 0, sizeof o->vt); memset(o->vb, 0, sizeof o->vb); o->b = NULL; o->bs = o->need = 0; o->pslot = -1; }
static void blk(struct obj *o, size_t n, size_t slot, const void *data) { o->b = malloc(n ? n : 1); o->bs = n; memcpy(o->b, data, n); o->pslot = (long)slot; memcpy(o->t + slot, &o->b, 8); memset(o->vt + slot, 2, 8); }
static const int ints[3] = {11, 12, 13}; static const short shorts[4] = {21, 22, 23, 24};
/* selector classes */
enum { SH_CB, SH_CA, SH_CF, SH_UI, SH_UC, SH_UA, SH_VC, SH_V1, SH_N };
static const char *const shn[] = {"count in front", "count behind", "flexible array", "union by number", "union by cases", "anonymous union by number", "cast with count", "cast"};
struct lay { metac_entry_t *e; size_t size, p, z, n; void (*put)(void *, long); long (*get)(const void *); };
enum {
#define I_(k, ...) S_##k,
    SELS(I_) BITS(I_) S_N };
static const char *const sname[] = {
#define N_(k, T) #T,
#define NB_(k, T, w) #T " : " #w,
    SELS(N_) BITS(NB_) };
static struct lay L[S_N][SH_N];
#define FN(k, st, T) static void put_##st##_##k(void *p, long v) { struct st##_##k *s = p; typedef __typeof__((T)0) t_; union { t_ t; char c[sizeof(t_)]; } x; x.t = (T)v; memcpy((char *)p + offsetof(struct st##_##k, n), x.c, sizeof(t_)); (void)s; } static long get_##st##_##k(const void *p) { __auto_type x = ((const struct st##_##k *)p)->n; return x > 0 && (long)x < 0 ? LONG_MIN : (long)x; }
#define FNB(k, st, T) static void put_##st##_##k(void *p, long v) { ((struct st##_##k *)p)->n = (T)v; } static long get_##st##_##k(const void *p) { return (long)((const struct st##_##k *)p)->n; }
#define ALLFN(k, T) FN(k, cb, T) FN(k, ca, T) FN(k, cf, T) FN(k, ui, T) FN(k, uc, T) FN(k, ua, T) FN(k, vc, T) FN(k, v1, T)
#define ALLFB(k, T, w) FNB(k, cb, T) FNB(k, ca, T) FNB(k, cf, T) FNB(k, ui, T) FNB(k, uc, T) FNB(k, ua, T) FNB(k, vc, T) FNB(k, v1, T)
SELS(ALLFN) BITS(ALLFB)
static void init(void) {
#define LAY(k, st, pm, zm) (struct lay){METAC_GSYM_LINK_ENTRY(st##_v_##k), sizeof(struct st##_##k), offsetof(struct st##_##k, pm), offsetof(struct st##_##k, zm), 0, put_##st##_##k, get_##st##_##k}
#define INI(k, ...) L[S_##k][SH_CB] = LAY(k, cb, p, z); L[S_##k][SH_CA] = LAY(k, ca, p, z); L[S_##k][SH_CF] = LAY(k, cf, f, q); L[S_##k][SH_UI] = LAY(k, ui, u, z); L[S_##k][SH_UC] = LAY(k, uc, u, z); L[S_##k][SH_UA] = LAY(k, ua, ui, ui); L[S_##k][SH_VC] = LAY(k, vc, p, cnt); L[S_##k][SH_V1] = LAY(k, v1, p, p);
    SELS(INI) BITS(INI)
    tags = new_tags(); if (!tags) { fprintf(stderr, "SETUP: the tag map could not be created\n"); _exit(3); }
}
/* selector bytes and padding: the selector is marked 2 by difference of two stores */
static void seln(struct lay *l, char *base, unsigned char *v, size_t n, long val) { char *a = malloc(n), *b = malloc(n); memset(a, 0, n); memset(b, 0, n); l->put(a, -1); l->put(b, 0); for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) v[i] = 2; free(a); free(b); l->put(base, val); }
static void mem_visible(struct sh *s, struct obj *o, size_t at, int id, const char *pre) { /* member id of union un at offset */
    static const char *const mn[] = {"i", "a", "s", "p"}; memset(o->t + at, 0, 8);
    if (id == 0) { int v = 77; memcpy(o->t + at, &v, 4); memset(o->vt + at, 1, 4); }
    else if (id == 1) { memcpy(o->t + at, shorts, 8); memset(o->vt + at, 1, 8); }
    else if (id == 2) { blk(o, 1, at, "q"); o->need = 1; o->vb[0] = 1; }
    else if (id == 3) { struct pt p = {5, 6}; memcpy(o->t + at, &p, 4); memset(o->vt + at, 1, 4); }
    if (id >= 0 && id < 4) snprintf(s->text, sizeof s->text, ".%s%s = ", pre, mn[id]);
    if (id > 0) snprintf(s->notxt, sizeof s->notxt, ".%si = ", pre); else snprintf(s->notxt, sizeof s->notxt, ".%sa = ", pre);
    if (id < 0 || id > 3) s->ok = 0;
}
static void build_sel(struct sh *s, struct obj *o) {
    struct lay *l = &L[s->par[0]][s->par[1]]; long v = s->par[2], x = s->par[3]; s->ok = 1; s->zero = 0; s->text[0] = s->notxt[0] = 0;
    switch (s->par[1]) {
    case SH_CB: case SH_CA: { mkt(o, l->size); blk(o, sizeof ints, l->p, ints); int z = 9; memcpy(o->t + l->z, &z, 4); memset(o->vt + l->z, 1, 4); seln(l, o->t, o->vt, l->size, v);
        if (l->get(o->t) < 0 || l->get(o->t) > 3) s->ok = 0; else { memset(o->vb, 1, 4 * v); o->need = 4 * v; s->zero = v == 0; } if (v > 0) snprintf(s->text, sizeof s->text, v == 1 ? "(int []){11,}" : v == 2 ? "(int []){11, 12,}" : "(int []){11, 12, 13,}"); break; }
    case SH_CF: { mkt(o, 8); char d[64] = {0}; size_t n = l->p + 8; memcpy(d + l->p, shorts, 8); blk(o, n, 0, d); short q = 4; memcpy(o->b + l->z, &q, 2); memset(o->vb + l->z, 1, 2); seln(l, o->b, o->vb, l->p, v); long g = l->get(o->b);
        if (g < 0 || g > 4) s->ok = 0; else { memset(o->vb + l->p, 1, 2 * v); o->need = l->p + 2 * v; } if (v > 0) snprintf(s->text, sizeof s->text, v == 1 ? "{21,}" : v == 2 ? "{21, 22,}" : "{21, 22, 23,}"); break; }
    case SH_UI: mkt(o, l->size); seln(l, o->t, o->vt, l->size, v); { int z = 9; memcpy(o->t + l->z, &z, 4); memset(o->vt + l->z, 1, 4); } { long g = l->get(o->t); mem_visible(s, o, l->p, g < 0 || g > 3 ? -1 : (int)g, ""); } break;
    case SH_UC: mkt(o, l->size); seln(l, o->t, o->vt, l->size, v); { int z = 9; memcpy(o->t + l->z, &z, 4); memset(o->vt + l->z, 1, 4); } { long g = l->get(o->t); mem_visible(s, o, l->p, g == 3 ? 1 : g == -1 ? 0 : g == 0 ? 3 : g == 2 ? 2 : -1, ""); } break;
    case SH_UA: mkt(o, l->size); seln(l, o->t, o->vt, l->size, v); { long g = l->get(o->t); mem_visible(s, o, l->p, g < 0 || g > 3 ? -1 : (int)g, "u"); } break;
    case SH_VC: case SH_V1: { int vc = s->par[1] == SH_VC; mkt(o, l->size); seln(l, o->t, o->vt, l->size, v); blk(o, sizeof ints, l->p, ints); long c = 1; if (vc) { short n = (short)x; memcpy(o->t + l->z, &n, 2); memset(o->vt + l->z, 2, 2); c = x; }
        long g = l->get(o->t), es = vc ? (g == 1 || g == -1 ? 4 : g == 3 ? 1 : 0) : (g == 0 || g == 2 ? 4 : 0);
        if (!es) s->ok = 0, s->notext = 0; else if (c < 0 || c > 3) s->ok = 0; else { memset(o->vb, 1, es * c); o->need = es * c; s->zero = c == 0; }
        if (c > 0) snprintf(s->text, sizeof s->text, vc ? (g == 1 ? "(int []){11," : g == -1 ? "(struct pt []){{.x = 11," : "") : g == 0 ? "(int []){11,}" : "(struct pt []){{.x = 11, .y = 0,},}"); break; }
    }
}
static void build_str(struct sh *s, struct obj *o) { /* par: which, length */
    int w = (int)s->par[0]; size_t n = (size_t)s->par[1]; char d[64]; memset(d, 0, sizeof d); s->ok = 1; s->zero = 0; s->text[0] = s->notxt[0] = 0; for (size_t i = 0; i < n; ++i) d[i] = "abcdefghij"[i % 10];
    if (w == 3) { char x[64] = {0}; mkt(o, 8); int a = 3; memcpy(x, &a, 4); memcpy(x + 4, d, n + 1); memcpy(x + 4 + n + 1, "ZZZ", 3); blk(o, 4 + n + 4, 0, x); memset(o->vb, 1, 4 + n + 1); if (n < sizeof x) o->vb[4 + n] = 2; for (size_t i = 0; i < n; ++i) o->vb[4 + i] = 1; o->need = 4 + n + 1; }
    else { size_t at = w == 0 ? offsetof(struct zs, s) : 0; mkt(o, w == 0 ? sizeof(struct zs) : 8); if (w == 0) { struct zs *z = (void *)o->t; z->a = 1; z->z = 2; memset(o->vt + offsetof(struct zs, a), 1, 4); memset(o->vt + offsetof(struct zs, z), 1, 4); } memcpy(d + n + 1, "ZZZ", 3); blk(o, n + 4, at, d); memset(o->vb, 1, n + 1); o->vb[n] = 2; o->need = n + 1; if (w == 4 || w == 5) s->ok = 0; }
    if (s->ok) snprintf(s->text, sizeof s->text, "\"%.*s\"", (int)n, d);
    if (w == 3 || !n) s->text[0] = 0;
}
static void build_bad(struct sh *s, struct obj *o) { /* par: which, selector */
    int w = (int)s->par[0]; long v = s->par[1]; s->ok = 0; s->zero = 0; s->text[0] = s->notxt[0] = 0;
    if (w == 0) { mkt(o, sizeof(struct nm)); ((struct nm *)o->t)->n = (int)v; blk(o, sizeof ints, offsetof(struct nm, p), ints); }
    else if (w == 1) { mkt(o, sizeof(struct ns)); ((struct ns *)o->t)->n.x = (short)v; blk(o, sizeof ints, offsetof(struct ns, p), ints); }
    else if (w == 2 || w == 3) { mkt(o, sizeof(struct um)); ((struct um *)o->t)->n = (int)v; memset(o->vt, 2, 4); if (w == 3 && v == 3) { s->ok = 1; mem_visible(s, o, offsetof(struct um, u), 0, ""); } }
    else { mkt(o, sizeof(struct up0)); ((struct up0 *)o->t)->z = 9; memset(o->vt + offsetof(struct up0, z), 1, 4); s->ok = 1; mem_visible(s, o, offsetof(struct up0, u), (int)v, ""); }
}
static void drop(struct obj *o) { free(o->t); free(o->b); }
static int nfreed; static void *freed[8]; static void rec_free(void *p) { if (nfreed < 8) freed[nfreed] = p; ++nfreed; }
static const char *const ops[] = {"copy", "compare", "free", "text"};
static void desc(char *b, size_t n, void *c) { struct sh *s = c; snprintf(b, n, "%s (%ld, %ld, %ld, %ld)", s->name, s->par[0], s->par[1], s->par[2], s->par[3]); }
static void run(struct sh *s, int op, int tol, int tree) {
    char nm[128]; snprintf(nm, sizeof nm, "%s: %s, %s, %s mode", ops[op], s->name, tol ? "tolerant" : "strict", tree ? "tree" : "dag"); struct sh q = *s; q.name = nm;
    if (!h_begin_fn(desc, &q)) return;
    struct obj o, d; s->build(s, &o); int ok = s->ok; metac_value_t *v = metac_new_value(s->e, o.t);
    metac_value_memory_map_mode_t md = {0}; md.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; metac_value_memory_map_non_handled_mode_t fm = {0};
    if (tol) { md.unknown_ptr_mode = fm.unknown_ptr_mode = METAC_UPTR_ignore; md.union_mode = fm.union_mode = METAC_UNION_ignore; md.flex_array_mode = fm.flex_array_mode = METAC_FLXARR_ignore; }
    uint64_t h0 = h_hash(h_hash(H_HASH0, o.t, o.ts), o.b ? o.b : "", o.bs); h_state(h_hash(h_hash(H_HASH0, s->par, sizeof s->par), nm, strlen(nm))); h_ops(1);
    if (op == 0) {
        char *t = malloc(o.ts); memset(t, 0x77, o.ts); metac_value_t *w = metac_new_value(s->e, t);
        ha_start(0, 0); metac_value_t *r = metac_value_copy_ex(v, w, &md, NULL, NULL, tags); ha_stop();
        if (ok != (r != NULL)) h_fail("%s", r ? "copied although the description can not be evaluated" : "copy failed");
        if (!r && ha_live()) h_fail("failed copy leaked %ld blocks", ha_live());
        if (r && !h_failed()) {
            for (size_t i = 0; i < o.ts; ++i) if (o.vt[i] == 1 && t[i] != o.t[i]) { h_fail("byte %zu was not copied", i); break; }
            if (o.pslot >= 0 && !s->zero) { char *b; memcpy(&b, t + o.pslot, 8); if (!b || !ha_is_live(b)) h_fail("the block was not copied"); else if (ha_live_size(b) < o.need || ha_live_size(b) > o.need + 8) h_fail("the block was copied as %zu bytes, described are %zu", ha_live_size(b), o.need); else for (size_t i = 0; i < o.need; ++i) if (o.vb[i] && b[i] != o.b[i]) { h_fail("byte %zu of the block was not copied", i); break; }
                if (ha_live() != 1) h_fail("%ld blocks allocated", ha_live()); }
            else if (o.pslot < 0 && ha_live()) h_fail("%ld blocks allocated", ha_live());
        }
        metac_value_delete(w); free(t);
    } else if (op == 1) {
        s->build(s, &d); metac_value_t *w = metac_new_value(s->e, d.t); ha_start(0, 0);
        int e = metac_value_equal_ex(v, w, &md, tags); if (ok ? e != 1 : e >= 0) h_fail("equal objects: answered %d", e);
        for (int in_b = 0; in_b < 2 && ok && !h_failed(); ++in_b) for (size_t i = 0; i < (in_b ? d.bs : d.ts) && !h_failed(); ++i) {
            int vis = in_b ? d.vb[i] : d.vt[i]; char *p = in_b ? d.b : d.t; if (vis == 2) continue;
            if (in_b && i >= 64) break;
            p[i] ^= 1; e = metac_value_equal_ex(v, w, &md, tags); int e2 = metac_value_equal_ex(w, v, &md, tags); p[i] ^= 1; h_ops(2);
            if (e != !vis || e2 != !vis) h_fail("%s byte %zu differs, it is %s the description: answered %d / %d", in_b ? "block" : "top-level", i, vis ? "part of" : "outside of", e, e2);
        }
        if (ha_live()) h_fail("leaked %ld blocks", ha_live());
        ha_stop(); metac_value_delete(w); drop(&d);
    } else if (op == 2) {
        nfreed = 0; ha_start(0, 0); metac_flag_t r = metac_value_free_ex(v, &fm, rec_free, tags); if (ha_live()) h_fail("leaked %ld blocks", ha_live()); ha_stop();
        if (ok != (r != 0)) h_fail("%s", r ? "freed although the description can not be evaluated" : "free failed");
        int want = ok && o.pslot >= 0; if (s->zero ? nfreed > 1 : nfreed != want) h_fail("%d blocks freed, expected %d", nfreed, want);
        if (nfreed == 1 && freed[0] != o.b) h_fail("another address was freed");
    } else {
        ha_start(0, 0); char *x = metac_value_string_ex(v, METAC_WMODE_deep, tags); if (ha_live() != (x != NULL)) h_fail("%ld blocks left", ha_live()); 
        if (!ok && x && !(s->par[1] >= SH_VC && s->build == build_sel)) h_fail("printed although the description can not be evaluated: %s", x);
        if (ok && !x) h_fail("not printed");
        if (ok && x && s->text[0] && !strstr(x, s->text)) h_fail("'%s' is not in %s", s->text, x);
        if (ok && x && s->notxt[0] && strstr(x, s->notxt)) h_fail("'%s' is in %s", s->notxt, x);
        free(x); ha_stop();
    }
    if (h0 != h_hash(h_hash(H_HASH0, o.t, o.ts), o.b ? o.b : "", o.bs)) h_fail("the object was modified");
    h_outcome("%s %s", ops[op], ok ? "described" : "refused"); metac_value_delete(v); drop(&o); h_end();
}
/* ---- lengths around the limits of small integer types ---- */
static const char *const lgn[] = {"counted characters", "counted shorts, 16-bit count", "flexible array, 64-bit count", "string", "cast with count", "counted structures", "bit-field count"};
static const int lges[] = {1, 2, 1, 1, 1, 4, 1};
static char *lg_make(int w, long n, char *top, size_t *bs) {
    size_t pre = w == 2 ? offsetof(struct lgf, p) : 0; *bs = pre + (size_t)n * lges[w] + (w == 3); char *b = malloc(*bs + 3); memset(b, 'Z', *bs + 3);
    for (size_t i = pre; i < *bs; ++i) b[i] = (char)('a' + (i * 7 + i / 256) % 26);
    if (w == 3) b[*bs - 1] = 0;
    memset(top, 0, 32);
    if (w == 0) *(struct lgp *)top = (struct lgp){(int)n, b, 3}; else if (w == 1) *(struct lgu *)top = (struct lgu){(unsigned short)n, (short *)b, 3}; else if (w == 2) { ((struct lgf *)b)->n = (unsigned long)n; *(void **)top = b; }
    else if (w == 3) *(struct lgz *)top = (struct lgz){b, 3}; else if (w == 4) *(struct lgc *)top = (struct lgc){1, b, (unsigned)n}; else if (w == 5) *(struct lgs *)top = (struct lgs){(int)n, (struct pt *)b, 3}; else { ((struct lgb *)top)->n = (unsigned)n; ((struct lgb *)top)->p = b; }
    return b;
}
extern void ha_resume(void);
static void lg_case(int w, long n) {
    static const size_t po[] = {offsetof(struct lgp, p), offsetof(struct lgu, p), 0, 0, offsetof(struct lgc, p), offsetof(struct lgs, p), offsetof(struct lgb, p)};
    metac_entry_t *es[] = {METAC_GSYM_LINK_ENTRY(lgp_v), METAC_GSYM_LINK_ENTRY(lgu_v), METAC_GSYM_LINK_ENTRY(lgf_v), METAC_GSYM_LINK_ENTRY(lgz_v), METAC_GSYM_LINK_ENTRY(lgc_v), METAC_GSYM_LINK_ENTRY(lgs_v), METAC_GSYM_LINK_ENTRY(lgb_v)};
    if (n > 5000 && lges[w] == 1) { /* text only: the other operations take a step per element */
        if (!h_begin("text of %s, %ld elements", lgn[w], n)) return;
        char t[32]; size_t bs; char *b = lg_make(w, n, t, &bs); metac_value_t *v = metac_new_value(es[w], t); size_t pre = w == 2 ? offsetof(struct lgf, p) : 0, len = bs - pre - (w == 3); if (w != 3) b[bs - 1] = 0, --len;
        char *s = metac_value_string_ex(v, METAC_WMODE_deep, tags), *q = s ? strchr(s, '"') : NULL; h_ops(1); h_state((uint64_t)w * 100000 + (uint64_t)n + 77777777);
        if (!s) h_fail("not printed"); else if (!q || strncmp(q + 1, b + pre, len) || q[1 + len] != '"') h_fail("the text is not complete: %zu of %zu characters", q ? strcspn(q + 1, "\"") : 0, len);
        free(s); metac_value_delete(v); free(b); h_end();
        return;
    }
    for (int tree = 0; tree < 2; ++tree) {
        if (!h_begin("%s, %ld elements, %s mode", lgn[w], n, tree ? "tree" : "dag")) continue;
        char t1[32], t2[32], t3[32]; size_t bs, x; char *b1 = lg_make(w, n, t1, &bs), *b2 = lg_make(w, n, t2, &x); memset(t3, 0x66, 32); size_t pre = w == 2 ? offsetof(struct lgf, p) : 0;
        metac_value_t *v1 = metac_new_value(es[w], t1), *v2 = metac_new_value(es[w], t2), *v3 = metac_new_value(es[w], t3); metac_value_memory_map_mode_t md = {0}; md.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; h_ops(1); h_state((uint64_t)(w * 2 + tree) * 100000 + (uint64_t)n + 1);
        ha_start(0, 0); metac_value_t *r = metac_value_copy_ex(v1, v3, &md, NULL, NULL, tags); ha_stop();
        char *b3; memcpy(&b3, t3 + po[w], 8);
        if (!r) h_fail("copy failed"); else if (ha_live() != 1 || !ha_is_live(b3)) h_fail("copy allocated %ld blocks", ha_live()); else if (ha_live_size(b3) != bs) h_fail("copied %zu bytes instead of %zu", ha_live_size(b3), bs); else if (memcmp(b1, b3, bs)) h_fail("the copied array differs");
        if (r) { int e = metac_value_equal_ex(v1, v3, &md, tags); if (e != 1) h_fail("the copy does not compare equal: %d", e); ha_resume(); metac_flag_t f = metac_value_free_ex(v3, NULL, NULL, tags); ha_stop(); if (!f || ha_live()) h_fail("the copy was not freed"); }
        size_t at[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, bs - pre - 2, bs - pre - 1}; 
        for (unsigned i = 0; i < sizeof at / sizeof *at && !h_failed(); ++i) {
            if (at[i] >= bs - pre - (w == 3) || (n > 600 && i < 14 && !h_thorough)) continue;
            b2[pre + at[i]] ^= 1; int e = metac_value_equal_ex(v1, v2, &md, tags); b2[pre + at[i]] ^= 1; h_ops(1); if (e != 0) h_fail("a difference in byte %zu of %zu: answered %d", at[i], bs - pre, e);
        }
        b2[bs] ^= 1; int e = metac_value_equal_ex(v1, v2, &md, tags); b2[bs] ^= 1; if (e != 1) h_fail("a byte behind the array matters: answered %d", e);
        if (!tree && n <= 5000) {
            nfreed = 0; if (!metac_value_free_ex(v2, NULL, rec_free, tags) || nfreed != 1 || freed[0] != b2) h_fail("free: %d blocks", nfreed);
            char *s = metac_value_string_ex(v1, METAC_WMODE_deep, tags); if (!s) h_fail("not printed"); else if (w == 3) { char *q = strchr(s, '"'); if (!q || strncmp(q + 1, b1, (size_t)n) || q[1 + n] != '"') h_fail("the text of the string is not complete"); } else if (w == 5) { long c = 0; for (char *q = s; (q = strstr(q, ".x = ")); ++q) ++c; if (c != n) h_fail("%ld of %ld elements printed", c, n); } else if (w == 1) { long c = 0; char *q = strstr(s, "){"); for (; q && *q && *q != '}'; ++q) c += *q == ','; if (c != n) h_fail("%ld of %ld elements printed", c, n); }
            free(s);
        }
        metac_value_delete(v1); metac_value_delete(v2); metac_value_delete(v3); free(b1); free(b2); h_end();
    }
}
static void all(struct sh *s) { for (int op = (s->build == build_sel && s->par[0] == S_ci) || (s->build == build_str && s->par[0] == 1); op < 4; ++op) /* a constant can not be the target of a copy */ for (int tol = 0; tol < (op == 3 ? 1 : 2); ++tol) for (int tree = 0; tree < (op < 2 ? 2 : 1); ++tree) run(s, op, tol, tree); }
void h_main_enumerate(void) {
    init(); struct sh s; char nm[96];
    static const long vals[] = {-2, -1, 0, 1, 2, 3, 4, 7, 127, 128, 255, 256, 1000, 65535, -32768, 1L << 32, (1L << 32) + 1, (1L << 32) + 2, (1L << 32) + 3, 0x500000001, 0x500000003, 0x7fffffff, -(1L << 32) - 1};
    for (int k = 0; k < S_N; ++k) for (int h = 0; h < SH_N; ++h) for (unsigned i = 0; i < sizeof vals / sizeof *vals; ++i) for (int x = (h == SH_VC ? -1 : 1); x <= (h == SH_VC ? 3 : 1); ++x) {
        long v = vals[i]; char tmp[64] = {0}; L[k][h].put(tmp, v); long g = L[k][h].get(tmp); int big = h <= SH_CF; /* counts larger than the memory are the caller's lie */
        if (g != v && !(v == -1 && g == -1) && !(!big && v == -1)) { int u64 = k == S_ul || k == S_ull; if (!u64) continue; }
        if (big && g > 3) continue;
        if (h == SH_VC && x < 0 && k > 2) continue;
        memset(&s, 0, sizeof s); snprintf(nm, sizeof nm, "%s, selector %s = %ld", shn[h], sname[k], g); s.name = nm; s.e = L[k][h].e; s.build = build_sel; s.par[0] = k; s.par[1] = h; s.par[2] = g; s.par[3] = x;
        /* an unmatched cast leaves an untyped pointer, which is P07's business in tolerant mode */
        struct obj o; s.build(&s, &o); int ok = s.ok; drop(&o);
        if (h >= SH_VC && !ok) { for (int op = 0; op < 4; ++op) run(&s, op, 0, 0); continue; }
        all(&s);
    }
    static const char *const zn[] = {"string", "const string", "typedef string", "flexible string", "int pointer marked as string", "unsigned short pointer marked as string"};
    metac_entry_t *ze[] = {METAC_GSYM_LINK_ENTRY(zs_v), METAC_GSYM_LINK_ENTRY(zc_v), METAC_GSYM_LINK_ENTRY(zt_v), METAC_GSYM_LINK_ENTRY(zf_v), METAC_GSYM_LINK_ENTRY(zi_v), METAC_GSYM_LINK_ENTRY(zu_v)};
    for (int w = 0; w < 6; ++w) for (int n = 0; n < 20; ++n) { memset(&s, 0, sizeof s); s.name = zn[w]; s.e = ze[w]; s.build = build_str; s.par[0] = w; s.par[1] = n; all(&s); }
    metac_entry_t *be[] = {METAC_GSYM_LINK_ENTRY(nm_v), METAC_GSYM_LINK_ENTRY(ns_v), METAC_GSYM_LINK_ENTRY(um_v), METAC_GSYM_LINK_ENTRY(ub_v)}; static const char *const bn[] = {"count by a missing member", "count by a structure", "union by a missing member", "union cases with wrong members"};
    for (int w = 0; w < 4; ++w) for (int v = -1; v < 5; ++v) { memset(&s, 0, sizeof s); s.name = bn[w]; s.e = be[w]; s.build = build_bad; s.par[0] = w; s.par[1] = v; all(&s); }
    metac_entry_t *pe[] = {METAC_GSYM_LINK_ENTRY(upm_v), METAC_GSYM_LINK_ENTRY(up0_v), METAC_GSYM_LINK_ENTRY(up1_v), METAC_GSYM_LINK_ENTRY(up2_v), METAC_GSYM_LINK_ENTRY(up3_v), METAC_GSYM_LINK_ENTRY(up4_v)};
    for (int v = -1; v < 5; ++v) { memset(&s, 0, sizeof s); s.name = "permanently selected member"; s.e = pe[v + 1]; s.build = build_bad; s.par[0] = 4; s.par[1] = v; all(&s); }
    static const long lens[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000};
    for (int w = 0; w < 7; ++w) for (unsigned i = 0; i < sizeof lens / sizeof *lens; ++i) { if (w == 1 && lens[i] > 65535) continue; if (lens[i] > 5000 && lges[w] > 1) continue; if (lens[i] > 4000 && lens[i] < 5000 && !h_thorough && (lens[i] != 4096 || w > 3)) continue; lg_case(w, lens[i]); }
}
