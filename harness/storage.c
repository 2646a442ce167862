/* P16: parameter storages. mode "history": every sequence of appends into a storage and its nested storages, then copy,
 * mutation, cleanup and reuse, against a reference sequence. mode "values": comparison, copy, release and text of captured calls. */
#include "h.h"
#include "metac/reflect.h"
#include <stdarg.h>
#include <stdbool.h>

enum en { EA, EB, EC };
struct pt { int x; short y[2]; char z[4]; };
struct list { int v; struct list *next; };
void host(char c, int i, struct pt s, int *p, long l, ...) { } METAC_GSYM_LINK(host);
void hostl(const char *f, va_list ap) { } METAC_GSYM_LINK(hostl);
char *anystr; METAC_GSYM_LINK(anystr);

/* ---- histories ---- */
#undef I
enum { C, I, S, P, DY, VA, VL, NK };
static const char *const kn[NK] = {"char", "int", "struct", "pointer", "char[3]", "...", "va_list"};
static const size_t ks[NK] = {1, 4, sizeof(struct pt), 8, 3, 0, 0};
struct node { int k; unsigned char b[16]; struct seq *in; };
struct seq { int n; struct node v[8]; };
static struct seq pool[24]; static int npool; static unsigned char ctr;
static metac_entry_t *E[NK];
static struct seq *newseq(void) { struct seq *s = &pool[npool++]; memset(s, 0, sizeof *s); return s; }
static struct seq *mdup(struct seq *s) { struct seq *d = newseq(); *d = *s; for (int i = 0; i < d->n; ++i) if (d->v[i].in) d->v[i].in = mdup(d->v[i].in); return d; }
static metac_parameter_storage_t *inner(metac_parameter_storage_t *st, int i) { metac_value_t *v = metac_parameter_storage_new_param_value(st, i); if (!v) return NULL; void *a = metac_value_addr(v); metac_value_delete(v); return a; }
static void verify(metac_parameter_storage_t *st, struct seq *m, const char *what) {
    h_ops(1);
    if ((int)metac_parameter_storage_size(st) != m->n) { h_fail("%s: %d parameters, %d were appended", what, (int)metac_parameter_storage_size(st), m->n); return; }
    for (int i = 0; i < m->n && !h_failed(); ++i) {
        metac_value_t *v = metac_parameter_storage_new_param_value(st, i);
        if (!v) { h_fail("%s: parameter %d (%s) cannot be read", what, i, kn[m->v[i].k]); return; }
        metac_entry_t *e = metac_value_entry(v);
        metac_size_t sz = 0;
        if (m->v[i].k == DY) { metac_num_t cnt = 0; if (metac_entry_byte_size(e, &sz) != 0 || sz != 3) h_fail("%s: parameter %d: an array of 3 is described with %zu bytes", what, i, (size_t)sz); (void)cnt; }
        else H_CHECK(e == E[m->v[i].k], "%s: parameter %d (%s) has another description", what, i, kn[m->v[i].k]);
        if (m->v[i].in) { if (!metac_value_addr(v)) h_fail("%s: nested list %d missing", what, i); else verify(metac_value_addr(v), m->v[i].in, what); }
        else H_CHECK(metac_value_addr(v) && memcmp(metac_value_addr(v), m->v[i].b, ks[m->v[i].k]) == 0, "%s: parameter %d (%s) holds other bytes than stored", what, i, kn[m->v[i].k]);
        metac_value_delete(v);
    }
    metac_value_t *o = metac_parameter_storage_new_param_value(st, m->n);
    H_CHECK(!o, "%s: a parameter behind the last", what); if (o) metac_value_delete(o);
    o = metac_parameter_storage_new_param_value(st, -1);
    H_CHECK(!o, "%s: a parameter before the first", what); if (o) metac_value_delete(o);
}
static void put(metac_parameter_storage_t *st, struct seq *m, int i) {
    metac_value_t *v = metac_parameter_storage_new_param_value(st, i);
    if (!v) { h_fail("parameter %d just appended cannot be read", i); return; }
    for (size_t j = 0; j < ks[m->v[i].k]; ++j) m->v[i].b[j] = ++ctr ? ctr : ++ctr;
    memcpy(metac_value_addr(v), m->v[i].b, ks[m->v[i].k]);
    metac_value_delete(v);
}
static void append(metac_parameter_storage_t *st, struct seq *m, int k) {
    int rc;
    h_ops(1);
    if (ks[k]) rc = metac_parameter_storage_append_by_buffer(st, E[k], ks[k]); else rc = metac_parameter_storage_append_by_parameter_storage(st, E[k]);
    if (rc) { h_fail("append of %s failed: %d", kn[k], rc); return; }
    m->v[m->n].k = k; m->v[m->n].in = ks[k] ? NULL : newseq(); m->n++;
    if (ks[k]) put(st, m, m->n - 1);
}
static void mutate(metac_parameter_storage_t *st, struct seq *m) { for (int i = 0; i < m->n && !h_failed(); ++i) if (m->v[i].in) mutate(inner(st, i), m->v[i].in); else put(st, m, i); }
static int last_nested(struct seq *m) { for (int i = m->n - 1; i >= 0; --i) if (m->v[i].in) return i; return -1; }
static void history(const int *op, int n) {
    npool = 0; ctr = 0;
    ha_start(0, 0);
    metac_parameter_storage_t *a = metac_new_parameter_storage(), *b, *c; struct seq *ma = newseq();
    for (int i = 0; i < n && !h_failed(); ++i) {
        int t = op[i] / NK, k = op[i] % NK; metac_parameter_storage_t *st = a; struct seq *m = ma;
        while (t-- > 0) { int q = last_nested(m); st = inner(st, q); m = m->v[q].in; }
        append(st, m, k);
        verify(a, ma, "after append");
    }
    /* refused appends change nothing */
    H_CHECK(metac_parameter_storage_append_by_buffer(a, NULL, 4) < 0, "append without description accepted");
    H_CHECK(metac_parameter_storage_append_by_buffer(a, E[I], 0) < 0, "append of nothing accepted");
    H_CHECK(metac_parameter_storage_append_by_buffer(a, E[I], -1) < 0, "append of negative size accepted");
    H_CHECK(metac_parameter_storage_append_by_buffer(NULL, E[I], 4) < 0, "append to no storage accepted");
    verify(a, ma, "after refused appends");
    if (!h_failed()) {
        uint64_t hs = H_HASH0; for (int i = 0; i < n; ++i) hs = h_hash(hs, &op[i], sizeof op[i]); h_state(hs);
        b = metac_new_parameter_storage(); struct seq *mb = mdup(ma);
        H_CHECK(metac_parameter_storage_copy(a, b) == 0, "copy failed");
        if (!h_failed()) { verify(b, mb, "copy"); verify(a, ma, "source after copy"); }
        if (!h_failed()) { mutate(b, mb); verify(b, mb, "changed copy"); verify(a, ma, "source after its copy changed"); }
        if (!h_failed()) { append(b, mb, I); append(b, mb, VA); append(inner(b, mb->n - 1), mb->v[mb->n - 1].in, DY); verify(b, mb, "extended copy"); verify(a, ma, "source after its copy grew"); }
        c = metac_new_parameter_storage(); struct seq *mc = mdup(mb);
        if (!h_failed()) { metac_parameter_storage_copy(b, c); metac_parameter_storage_cleanup(b); mb->n = 0; verify(b, mb, "cleaned"); verify(c, mc, "copy of the cleaned"); verify(a, ma, "source"); }
        if (!h_failed()) { append(b, mb, S); append(b, mb, VL); append(inner(b, 1), mb->v[1].in, C); verify(b, mb, "reused"); verify(c, mc, "copy of the reused"); }
        metac_parameter_storage_delete(a); a = NULL;
        if (!h_failed()) { verify(b, mb, "after the source is gone"); verify(c, mc, "copy after the source is gone"); }
        metac_parameter_storage_delete(b); metac_parameter_storage_delete(c);
    }
    metac_parameter_storage_delete(a); metac_parameter_storage_delete(NULL); metac_parameter_storage_cleanup(NULL);
    H_CHECK(metac_parameter_storage_size(NULL) == 0, "size of no storage");
    H_CHECK(h_failed() || ha_live() == 0, "%ld blocks are still allocated", ha_live());
    ha_stop();
}
/* many parameters, large parameters */
static unsigned char pat(int i, int j) { return (unsigned char)(1 + i * 7 + j * 13 + (j >> 8) * 3); }
static int fillv(metac_parameter_storage_t *st, int i, int sz, int seed, int check, const char *w) {
    metac_value_t *v = metac_parameter_storage_new_param_value(st, i); if (!v) { h_fail("%s: parameter %d cannot be read", w, i); return 0; }
    unsigned char *a = metac_value_addr(v); int bad = a == NULL;
    for (int j = 0; a && j < sz; ++j) if (!check) a[j] = pat(i + seed, j); else if (a[j] != pat(i + seed, j)) { h_fail("%s: byte %d of parameter %d is not the one stored", w, j, i); bad = 1; break; }
    metac_value_delete(v); return !bad;
}
static void bulkcheck(metac_parameter_storage_t *st, int n, int sz, int nest, int seed, const char *w) {
    h_ops(1);
    if ((int)metac_parameter_storage_size(st) != n + !!nest) { h_fail("%s: %d parameters, %d were appended", w, (int)metac_parameter_storage_size(st), n + !!nest); return; }
    for (int i = 0; i < n && fillv(st, i, sz, seed, 1, w); ++i);
    metac_value_t *o = metac_parameter_storage_new_param_value(st, n + !!nest); H_CHECK(!o, "%s: a parameter behind the last", w); if (o) metac_value_delete(o);
    if (nest && !h_failed()) { metac_parameter_storage_t *in = inner(st, n); if (!in) h_fail("%s: nested list missing", w); else bulkcheck(in, n, sz, nest - 1, seed + 1, w); }
}
static void bulkfill(metac_parameter_storage_t *st, int n, int sz, int nest, int seed) {
    for (int i = 0; i < n && !h_failed(); ++i) { int rc = metac_parameter_storage_append_by_buffer(st, E[S], sz); h_ops(1); if (rc) h_fail("append %d of %d bytes failed: %d", i, sz, rc); else fillv(st, i, sz, seed, 0, "appended"); }
    if (nest && !h_failed()) { if (metac_parameter_storage_append_by_parameter_storage(st, E[VA])) h_fail("append of a nested list failed"); else bulkfill(inner(st, n), n, sz, nest - 1, seed + 1); }
}
static void bulk(int n, int sz, int nest) {
    ha_start(0, 0);
    metac_parameter_storage_t *a = metac_new_parameter_storage(), *b = metac_new_parameter_storage();
    bulkfill(a, n, sz, nest, 0); if (!h_failed()) bulkcheck(a, n, sz, nest, 0, "filled");
    if (!h_failed()) { H_CHECK(metac_parameter_storage_copy(a, b) == 0, "copy failed"); bulkcheck(b, n, sz, nest, 0, "copy"); }
    if (!h_failed()) { metac_parameter_storage_cleanup(a); bulkcheck(a, 0, sz, 0, 0, "cleaned"); bulkcheck(b, n, sz, nest, 0, "copy of the cleaned"); }
    if (!h_failed()) { bulkfill(a, n / 2 + 1, sz, nest, 5); bulkcheck(a, n / 2 + 1, sz, nest, 5, "reused"); bulkcheck(b, n, sz, nest, 0, "copy of the reused"); }
    metac_parameter_storage_delete(a); if (!h_failed()) bulkcheck(b, n, sz, nest, 0, "after the source is gone");
    metac_parameter_storage_delete(b);
    H_CHECK(h_failed() || ha_live() == 0, "%ld blocks are still allocated", ha_live());
    h_state(h_hash(h_hash(H_HASH0, &n, 4), &sz, 4) ^ nest); h_outcome("bulk"); ha_stop();
}
static void rec(int *op, int n, int max, int depth_of_nested[4]) {
    char d[200]; int l = 0; d[0] = 0;
    for (int i = 0; i < n; ++i) l += snprintf(d + l, sizeof d - l, "%s%.*s%s", i ? ", " : "", op[i] / NK, ">>>>", kn[op[i] % NK]);
    if (h_begin("append %s", n ? d : "nothing")) { history(op, n); h_outcome("depth %d", n); h_end(); }
    if (n == max) return;
    /* which targets exist: follow the model */
    int lv = 0; struct { int has; } st[6] = {{0}};
    for (int i = 0; i < n; ++i) { int t = op[i] / NK; if (op[i] % NK >= VA) { st[t].has = 1; for (int j = t + 1; j < 6; ++j) st[j].has = 0; } }
    while (lv < 3 && st[lv].has) lv++;
    for (int t = 0; t <= lv; ++t) for (int k = 0; k < NK; ++k) { op[n] = t * NK + k; rec(op, n + 1, max, depth_of_nested); }
}

/* ---- captured calls ---- */
void g_none(void) { } METAC_GSYM_LINK(g_none);
void g_base(char a, short b, int c, long d, double e, bool f, enum en g) { } METAC_GSYM_LINK(g_base);
typedef void g_base_t(char a, short b, int c, long d, double e, bool f, enum en g); g_base_t *g_base_v; METAC_GSYM_LINK(g_base_v);
void g_struct(struct pt a, int n, struct pt b) { } METAC_GSYM_LINK(g_struct);
void g_arr(int *arr, int len) { } METAC_GSYM_LINK(g_arr);
void g_str(char *s, int x) { } METAC_GSYM_LINK(g_str);
void g_list(struct list *l, long t) { } METAC_GSYM_LINK(g_list);
void g_two(int *a, int *b) { } METAC_GSYM_LINK(g_two);
int g_pr(char *fmt, ...) { return 0; } METAC_GSYM_LINK(g_pr);
int g_cpr(const char *fmt, ...) { return 0; } METAC_GSYM_LINK(g_cpr);
int g_vpr(char *fmt, va_list ap) { return 0; } METAC_GSYM_LINK(g_vpr);
void g_mix(int a, char *fmt, va_list ap, int b) { } METAC_GSYM_LINK(g_mix);
#define PARN(f, nm, ...) METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(f)) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER(nm), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final),},)
    PARN(g_arr, {.n = "arr"}, METAC_COUNT_BY(len)) PARN(g_str, {.n = "s"}, METAC_ZERO_ENDED_STRING())
    PARN(g_pr, {.n = "fmt"}, METAC_ZERO_ENDED_STRING()) PARN(g_pr, {.i = 1}, METAC_FORMAT_BASED_VA_ARG())
    PARN(g_cpr, {.n = "fmt"}, METAC_ZERO_ENDED_STRING()) PARN(g_cpr, {.i = 1}, METAC_FORMAT_BASED_VA_ARG())
    PARN(g_vpr, {.n = "fmt"}, METAC_ZERO_ENDED_STRING()) PARN(g_vpr, {.n = "ap"}, METAC_FORMAT_BASED_VA_ARG())
    PARN(g_mix, {.n = "fmt"}, METAC_ZERO_ENDED_STRING()) PARN(g_mix, {.n = "ap"}, METAC_FORMAT_BASED_VA_ARG())
METAC_TAG_MAP_END
static metac_tag_map_t *tags;
#define ENT(f) METAC_GSYM_LINK_ENTRY(f)
enum { F_NONE, F_BASE, F_STRUCT, F_ARR, F_STR, F_LIST, F_TWO, F_PR, F_VPR, F_MIX, F_CPR, NF };
static const char *const fname[NF] = {"g_none", "g_base", "g_struct", "g_arr", "g_str", "g_list", "g_two", "g_pr", "g_vpr", "g_mix", "g_cpr"};
static const int nvar[NF] = {1, 8, 9, 7, 6, 8, 4, 8, 8, 10, 8};
static metac_entry_t *fent(int f) { switch (f) { case F_NONE: return ENT(g_none); case F_BASE: return ENT(g_base); case F_STRUCT: return ENT(g_struct); case F_ARR: return ENT(g_arr); case F_STR: return ENT(g_str); case F_LIST: return ENT(g_list); case F_TWO: return ENT(g_two); case F_PR: return ENT(g_pr); case F_VPR: return ENT(g_vpr); case F_CPR: return ENT(g_cpr); default: return ENT(g_mix); } }
/* memory the arguments point to: one arena per capture */
struct arena { int a[4], b[4]; char s[16], f[32]; struct list l[4]; };
static metac_value_t *vpr(metac_value_t *v, int mix, int x, int y, char *fmt, ...) { va_list ap; va_start(ap, fmt); metac_value_t *r = mix ? metac_value_parameter_wrap(v, tags, x, fmt, ap, y) : metac_value_parameter_wrap(v, tags, fmt, ap); va_end(ap); return r; }
static metac_value_t *capture(int f, int k, struct arena *m) {
    metac_value_t *v = metac_new_value_with_call_params(fent(f));
    if (!v) return NULL;
    memset(m, 0, sizeof *m);
    for (int i = 0; i < 4; ++i) { m->a[i] = 10 + i; m->b[i] = 10 + i; m->l[i].v = 50 + i; m->l[i].next = i < 2 ? &m->l[i + 1] : NULL; }
    strcpy(m->s, "text"); strcpy(m->f, "%d|%s|%ld");
    switch (f) {
        case F_NONE: return metac_value_parameter_wrap(v, tags);
        case F_BASE: return metac_value_parameter_wrap(v, tags, (char)(k == 1 ? 'b' : 'a'), (short)(k == 2 ? -2 : 2), k == 3 ? 0x10003 : 3, k == 4 ? 4L + (1L << 40) : 4L, k == 5 ? 5.25 : 5.5, k == 6, k == 7 ? EC : EB);
        case F_STRUCT: { struct pt a = {1, {2, 3}, "abc"}, b = {4, {5, 6}, "xyz"}; int n = 7; if (k == 1) a.x = 9; if (k == 2) a.y[1] = 9; if (k == 3) a.z[3] = 1; if (k == 4) n = 8; if (k == 5) b.x = -4; if (k == 6) b.y[0] = 0; if (k == 7) b.z[0] = 'y'; if (k == 8) b.z[3] = 'q'; return metac_value_parameter_wrap(v, tags, a, n, b); }
        case F_ARR: if (k >= 1 && k <= 3) m->a[k - 1]++; return metac_value_parameter_wrap(v, tags, k == 4 ? NULL : m->a, k == 5 ? 2 : k == 6 ? 0 : 3);
        case F_STR: if (k == 1) m->s[3] = 'T'; if (k == 2) m->s[3] = 0; if (k == 3) m->s[0] = 0; return metac_value_parameter_wrap(v, tags, k == 4 ? NULL : m->s, k == 5 ? 1 : 0);
        case F_LIST: if (k == 1) m->l[0].v++; if (k == 2) m->l[1].v++; if (k == 3) m->l[2].v++; if (k == 4) m->l[1].next = NULL; if (k == 5) m->l[2].next = &m->l[0]; if (k == 6) return metac_value_parameter_wrap(v, tags, NULL, 1L); return metac_value_parameter_wrap(v, tags, &m->l[0], k == 7 ? 1L << 33 : 1L);
        case F_TWO: if (k == 1) m->a[0]++; if (k == 2) m->b[0]++; return metac_value_parameter_wrap(v, tags, m->a, k == 3 ? NULL : m->b);
        case F_PR: case F_CPR: if (k == 4) strcpy(m->f, "%d|%s|%lx"); if (k == 5) strcpy(m->f, "%d"); if (k == 6) strcpy(m->f, ""); if (k == 7) strcpy(m->f, "%d|%s"); return metac_value_parameter_wrap(v, tags, m->f, k == 1 ? 12 : 11, k == 2 ? "world" : "hello", k == 3 ? -6L : -5L);
        case F_VPR: case F_MIX: if (k == 4) strcpy(m->f, "%d|%s|%lx"); if (k == 5) strcpy(m->f, "%d"); if (k == 6) strcpy(m->f, ""); if (k == 7) strcpy(m->f, "%d|%s"); return vpr(v, f == F_MIX, k == 8 ? 1 : 0, k == 9 ? 1 : 0, m->f, k == 1 ? 12 : 11, k == 2 ? "world" : "hello", k == 3 ? -6L : -5L);
    }
    return NULL;
}
/* every byte that may be reached is different afterwards */
static void spoil(struct arena *m) { for (int i = 0; i < 4; ++i) { m->a[i] ^= 0x5555; m->b[i] ^= 0x5555; m->l[i].v ^= 0x5555; m->l[i].next = NULL; } m->s[0] ^= 1; m->f[0] = '#'; }
static long del_n; static void del(metac_value_t *v) { if (v) metac_value_with_call_params_delete(v); del_n++; }
static metac_value_memory_map_mode_t md(int tree) { return (metac_value_memory_map_mode_t){.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag}; }
static void pairs(int f, int i, int j, int tree) {
    static struct arena A, B;
    ha_start(0, 0);
    metac_value_t *x = capture(f, i, &A), *y = capture(f, j, &B);
    if (!x || !y) h_fail("the call is not captured");
    else {
        metac_value_memory_map_mode_t mo = md(tree);
        int e1 = metac_value_equal_ex(x, y, &mo, tags), e2 = metac_value_equal_ex(y, x, &mo, tags), e3 = metac_value_equal_ex(x, x, &mo, tags);
        h_ops(3);
        H_CHECK(i != j && f >= F_PR && ((i >= 4 && i <= 7) || (j >= 4 && j <= 7)) ? e1 != 1 : e1 == (i == j), "calls with %s arguments compare %d", i == j ? "equal" : "different", e1);
        H_CHECK((e2 == 1) == (e1 == 1), "comparison is not symmetric: %d and %d", e1, e2);
        H_CHECK(e3 == 1, "a call compares %d with itself", e3);
        char *s = metac_value_string_ex(x, METAC_WMODE_deep, tags), *t = metac_value_string_ex(y, METAC_WMODE_deep, tags);
        H_CHECK(s && t, "no text");
        if (s && t) { H_CHECK((strcmp(s, t) == 0) == (i == j), "calls with %s arguments print as %s and %s", i == j ? "equal" : "different", s, t); h_state(h_hash(H_HASH0, s, strlen(s))); }
        free(s); free(t);
        h_outcome("compare %d", e1);
    }
    del(x); del(y);
    H_CHECK(h_failed() || ha_live() == 0, "%ld blocks are still allocated", ha_live());
    ha_stop();
}
static void copyv(int f, int i, int tree) {
    static struct arena A, B;
    ha_start(0, 0);
    metac_value_memory_map_mode_t mo = md(tree);
    metac_value_t *x = capture(f, i, &A), *y = capture(f, i, &B), *d = metac_new_value_with_call_params(fent(f));
    char *t0 = metac_value_string_ex(y, METAC_WMODE_deep, tags);
    struct arena sv = A;
    metac_value_t *r = metac_value_copy_ex(x, d, &mo, NULL, NULL, tags);
    h_ops(1);
    if (r != d && f == F_CPR) h_outcome("copy of const data refused"); /* the bytes behind a const pointer are not written */
    else if (r != d) h_fail("the call cannot be copied");
    else {
        H_CHECK(memcmp(&sv, &A, sizeof A) == 0, "copying changed the source");
        H_CHECK(metac_value_equal_ex(x, d, &mo, tags) == 1 && metac_value_equal_ex(d, x, &mo, tags) == 1, "the copy differs from the source");
        spoil(&A);
        H_CHECK(metac_value_equal_ex(y, d, &mo, tags) == 1, "the copy changes with the source");
        del(x); x = NULL;
        char *t = metac_value_string_ex(d, METAC_WMODE_deep, tags);
        H_CHECK((f == F_LIST && i == 5) || (t && t0 && strcmp(t, t0) == 0), /* a cycle has no text */ "the copy prints as %s, the source as %s", t ? t : "(nothing)", t0 ? t0 : "(nothing)");
        free(t);
        int n = (int)metac_value_parameter_count(d);
        H_CHECK(metac_value_free_ex(d, &mo, NULL, tags) == 1, "the copy cannot be freed");
        H_CHECK((int)metac_value_parameter_count(d) == n, "freeing changed the number of parameters");
    }
    free(t0); del(x); del(y); del(d);
    H_CHECK(h_failed() || ha_live() == 0, "%ld blocks are still allocated", ha_live());
    h_outcome("copy");
    ha_stop();
}
void h_main_enumerate(void) {
    if (!strcmp(h_mode, "history")) {
        metac_entry_t *h = ENT(host), *hl = ENT(hostl);
        E[C] = metac_entry_by_paremeter_id(h, 0); E[I] = metac_entry_by_paremeter_id(h, 1); E[S] = metac_entry_by_paremeter_id(h, 2); E[P] = metac_entry_by_paremeter_id(h, 3);
        E[VA] = metac_entry_by_paremeter_id(h, 5); E[VL] = metac_entry_by_paremeter_id(hl, 1);
        E[DY] = metac_new_element_count_entry(metac_entry_final_entry(ENT(anystr), NULL), 3);
        for (int i = 0; i < NK; ++i) if (!E[i]) { fprintf(stderr, "SETUP no description of %s\n", kn[i]); exit(3); }
        int op[8]; int dn[4] = {0};
        rec(op, 0, h_thorough ? 6 : 5, dn);
        static const int cnt[] = {9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 128, 129, 199, 255, 256, 257, 300, 513, 1000}, szs[] = {1, 2, 12, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 70000};
        for (unsigned i = 0; i < sizeof cnt / sizeof *cnt; ++i) for (int ne = 0; ne < 3; ++ne) if (h_begin("%d parameters of 12 bytes, %d nested lists of as many", cnt[i], ne)) { bulk(cnt[i], 12, ne); h_end(); }
        for (unsigned i = 0; i < sizeof szs / sizeof *szs; ++i) for (int n = 1; n < 4; ++n) for (int ne = 0; ne < 2; ++ne) if (h_begin("%d parameters of %d bytes, %d nested lists", n, szs[i], ne)) { bulk(n, szs[i], ne); h_end(); }
        for (int ne = 3; ne < 40; ++ne) if (h_begin("lists nested %d deep", ne)) { bulk(2, 12, ne); h_end(); }
        metac_entry_delete(E[DY]);
        return;
    }
    tags = new_tags();
    if (!tags) { fprintf(stderr, "SETUP tag map\n"); exit(3); }
    for (int f = 0; f < NF; ++f) for (int tree = 0; tree < 2; ++tree) for (int i = 0; i < nvar[f]; ++i) {
        if (f == F_LIST && i == 5 && tree) continue; /* a cycle is not a tree */
        for (int j = 0; j < nvar[f]; ++j) {
            if (f == F_LIST && j == 5 && tree) continue;
            if (f == F_LIST && (i == 5 || j == 5)) continue; /* text of a cycle: see P08 */
            if (h_begin("compare %s(variant %d) with variant %d, %s", fname[f], i, j, tree ? "tree" : "dag")) { pairs(f, i, j, tree); h_end(); }
        }
        if (h_begin("copy %s(variant %d), %s", fname[f], i, tree ? "tree" : "dag")) { copyv(f, i, tree); h_end(); }
    }
    /* calls with other parameter lists never compare equal */
    for (int f = 0; f < F_CPR; ++f) for (int g = 0; g < F_CPR; ++g) if (f != g && h_begin("compare %s with %s", fname[f], fname[g])) {
        static struct arena A, B;
        metac_value_t *x = capture(f, 0, &A), *y = capture(g, 0, &B);
        int e = x && y ? metac_value_equal_ex(x, y, NULL, tags) : -1000;
        H_CHECK(e != 1 && e != -1000, "calls of different functions compare %d", e);
        del(x); del(y); h_ops(1); h_end();
    }
    metac_tag_map_delete(tags);
}
