/* P06: every operation x every allocation of that operation failing, alone and together with all later ones.
 * A call that is told "no memory" either reports failure or delivers exactly the result of the undisturbed call; it keeps
 * nothing allocated beyond what it returned, releases nothing it does not own, leaves its inputs alone, and the same call
 * succeeds again afterwards. */
#include "h.h"
#include "metac/reflect.h"
#include "metac/backend/printf_format.h"
#include "metac/backend/va_list_ex.h"
#include <stdarg.h>
#include <stdbool.h>
#include <errno.h>

/* ---- the program under reflection ---- */
enum en { EA, EB, EC };
typedef struct { char c; double d; } in_t;
struct bits { int a : 5; unsigned b : 9; enum en e; short arr[3]; in_t in; char z[4]; union { int ai; }; int mat[2][2]; float complex fc; long cl; };
struct nd { int v; struct nd *a, *b; int x; int *w; };
struct lh { struct lh *next; }; struct it { short v; struct lh l; char *name; };
struct tg { int sel; union un { int i; struct nd *pn; char c[4]; struct { short k; int *q; } st; } u; char *s; int n; struct nd *cnt; unsigned char kind; void *p; short pn; struct lh *first; int **pp; int (*pa)[2]; int *ap[2]; short fn; short fl[]; };
struct unk { int n; void *p; int *ok; void (*f)(int); struct fwd *d; union { int i; char *s; } u; int z; };
int o_int = 7; METAC_GSYM_LINK(o_int); double o_dbl; METAC_GSYM_LINK(o_dbl); enum en o_en; METAC_GSYM_LINK(o_en); char o_str[8]; METAC_GSYM_LINK(o_str); char *o_ps; METAC_GSYM_LINK(o_ps);
struct bits o_bits; METAC_GSYM_LINK(o_bits); struct bits o_ab[2]; METAC_GSYM_LINK(o_ab); int o_mat[2][3]; METAC_GSYM_LINK(o_mat);
struct nd *o_nd; METAC_GSYM_LINK(o_nd); struct nd o_top; METAC_GSYM_LINK(o_top); struct tg *o_tg; METAC_GSYM_LINK(o_tg); struct unk o_unk; METAC_GSYM_LINK(o_unk); int *o_pi; METAC_GSYM_LINK(o_pi); int **o_pp; METAC_GSYM_LINK(o_pp);
typedef struct bits *pbits_t; pbits_t o_pb; METAC_GSYM_LINK(o_pb); long double _Complex o_ldc; METAC_GSYM_LINK(o_ldc); bool o_bool; METAC_GSYM_LINK(o_bool); unsigned long long o_ull; METAC_GSYM_LINK(o_ull); void *o_vp; METAC_GSYM_LINK(o_vp);
int (*(*c_fpf)(int (*)(char, ...), struct nd *))[3]; METAC_GSYM_LINK(c_fpf); struct { int a; enum { X1, X2 = 5 } e; union { short s; char *p[2]; } u; struct { unsigned q : 3; } in[2]; int (*cb)(void); } c_anon[2]; METAC_GSYM_LINK(c_anon);
const char *const c_cc; METAC_GSYM_LINK(c_cc); volatile unsigned char *c_arr[4][5]; METAC_GSYM_LINK(c_arr); void (*c_np)(); METAC_GSYM_LINK(c_np);
/* functions */
void g_none(void) { } METAC_GSYM_LINK(g_none);
double g_base(char a, short b, int c, long d, double e, bool f, enum en g) { return 0; } METAC_GSYM_LINK(g_base);
struct bits g_struct(in_t a, int n, struct nd *b) { struct bits r = {0}; return r; } METAC_GSYM_LINK(g_struct);
int *g_arr(int *arr, int len) { return 0; } METAC_GSYM_LINK(g_arr);
char *g_str(char *s, int x) { return 0; } METAC_GSYM_LINK(g_str);
int g_pr(char *fmt, ...) { return 0; } METAC_GSYM_LINK(g_pr);
int g_vpr(int a, char *fmt, va_list ap, int b) { return 0; } METAC_GSYM_LINK(g_vpr);
void g_fp(int (*cb)(int), struct unk *u) { } METAC_GSYM_LINK(g_fp);

#define MEM(m) METAC_TAG_MAP_ENTRY_MEMBER({.n = m})
#define TAG(T, m, ...) METAC_TAG_MAP_ENTRY_FROM_TYPE(T) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, MEM(m), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
#define PARN(f, nm, ...) METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(f)) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER(nm), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final),},)
    TAG(struct tg, "u", METAC_UNION_MEMBER_SELECT_BY(sel, {.fld_val = 0, .union_fld_name = "i"}, {.fld_val = 1, .union_fld_name = "pn"}, {.fld_val = 2, .union_fld_name = "c"}, {.fld_val = 3, .union_fld_name = "st"}))
    TAG(struct tg, "s", METAC_ZERO_ENDED_STRING()) TAG(struct tg, "cnt", METAC_COUNT_BY(n)) TAG(struct tg, "fl", METAC_COUNT_BY(fn))
    TAG(struct tg, "p", METAC_CAST_PTR(pn, kind, {.fld_val = 0, .p_ptr_entry = METAC_ENTRY_OF(struct nd *)}, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(int *)}))
    TAG(struct tg, "first", METAC_CONTAINER_OF(struct it, l)) TAG(struct lh, "next", METAC_CONTAINER_OF(struct it, l)) TAG(struct it, "name", METAC_ZERO_ENDED_STRING())
    PARN(g_arr, {.n = "arr"}, METAC_COUNT_BY(len)) PARN(g_str, {.n = "s"}, METAC_ZERO_ENDED_STRING())
    PARN(g_pr, {.n = "fmt"}, METAC_ZERO_ENDED_STRING()) PARN(g_pr, {.i = 1}, METAC_FORMAT_BASED_VA_ARG())
    PARN(g_vpr, {.n = "fmt"}, METAC_ZERO_ENDED_STRING()) PARN(g_vpr, {.n = "ap"}, METAC_FORMAT_BASED_VA_ARG())
METAC_TAG_MAP_END
static metac_tag_map_t *tags;
#define ENT(f) METAC_GSYM_LINK_ENTRY(f)

/* ---- objects: everything lies in one arena, so that "the inputs are unchanged" is one comparison ---- */
struct arena { char top[512]; struct nd n[4]; struct nd c[3]; int i[8]; char s[2][16]; struct it it[3]; struct bits b; int *pi; char tgm[sizeof(struct tg) + 16]; int pa[2]; };
static struct arena A, B, SA, SB;
enum { O_INT, O_DBL, O_EN, O_STR, O_PS, O_BITS, O_AB, O_MAT, O_PI, O_PP, O_PB, O_LDC, O_BOOL, O_ULL, O_NULL, O_LIST, O_CYC, O_DIA, O_SELF, O_INNER, O_TG0, O_TG1, O_TG2, O_TG3, O_TGZ, O_UNK, O_UNKZ, O_VP, NO };
static const char *const on[NO] = {"int", "double", "enumeration", "char array", "char pointer", "structure with bit-fields", "array of structures", "matrix", "int pointer", "pointer to pointer", "typedef of a structure pointer", "complex", "bool", "unsigned long long", "null pointer", "list", "cycle", "diamond", "self reference", "interior pointer", "tagged structure, union int", "tagged structure, union pointer", "tagged structure, union text", "tagged structure, union structure", "tagged structure, empty", "undescribed data", "undescribed data, null", "void pointer"};
static metac_entry_t *oe(int o) { switch (o) { case O_INT: return ENT(o_int); case O_DBL: return ENT(o_dbl); case O_EN: return ENT(o_en); case O_STR: return ENT(o_str); case O_PS: return ENT(o_ps); case O_BITS: return ENT(o_bits); case O_AB: return ENT(o_ab); case O_MAT: return ENT(o_mat); case O_PI: return ENT(o_pi); case O_PP: return ENT(o_pp); case O_PB: return ENT(o_pb); case O_LDC: return ENT(o_ldc); case O_BOOL: return ENT(o_bool); case O_ULL: return ENT(o_ull); case O_INNER: return ENT(o_top); case O_TG0: case O_TG1: case O_TG2: case O_TG3: case O_TGZ: return ENT(o_tg); case O_UNK: case O_UNKZ: return ENT(o_unk); case O_VP: return ENT(o_vp); default: return ENT(o_nd); } }
static struct bits mkbits(int k) { struct bits b = {.a = -3 + k, .b = 300, .e = EB, .arr = {1, 2, 3}, .in = {'c', 2.5}, .z = "xyz", .ai = 9, .mat = {{1, 2}, {3, 4}}, .fc = 1.5f, .cl = 12}; return b; }
static void build(int o, struct arena *m, int var) { /* var: another content */
    memset(m, 0, sizeof *m);
    for (int i = 0; i < 4; ++i) m->n[i] = (struct nd){.v = 10 + i, .x = i}; for (int i = 0; i < 8; ++i) m->i[i] = i * 3; for (int i = 0; i < 3; ++i) m->c[i] = (struct nd){.v = 90 + i};
    strcpy(m->s[0], "some\"text"); strcpy(m->s[1], "x"); m->b = mkbits(0); m->pi = &m->i[1]; m->pa[0] = 4; m->pa[1] = 5;
    if (var) m->b.mat[1][1]++, m->i[1]++, m->n[3].v++;
    void *t = m->top; 
    switch (o) {
    case O_INT: *(int *)t = 42 + var; break; case O_DBL: *(double *)t = 2.5 + var; break; case O_EN: *(enum en *)t = var ? EC : EB; break; case O_STR: strcpy(t, var ? "abD" : "abd"); break; case O_PS: *(char **)t = m->s[1]; m->s[1][0] += var; break;
    case O_BITS: { struct bits b = mkbits(var); memcpy(t, &b, sizeof b); break; } case O_AB: { struct bits b[2] = {mkbits(0), mkbits(1 + var)}; memcpy(t, b, sizeof b); break; } case O_MAT: for (int i = 0; i < 6; ++i) ((int *)t)[i] = i + (i == 5 ? var : 0); break;
    case O_PI: *(int **)t = &m->i[1]; break; case O_PP: *(int ***)t = &m->pi; break; case O_PB: *(struct bits **)t = &m->b; break; case O_LDC: *(long double _Complex *)t = 1.5L + var; break; case O_BOOL: *(bool *)t = !var; break; case O_ULL: *(unsigned long long *)t = ~0ULL - var; break; case O_NULL: *(void **)t = var ? &m->n[3] : NULL; break;
    case O_LIST: m->n[0].a = &m->n[1]; m->n[1].a = &m->n[2]; m->n[2].a = &m->n[3]; m->n[1].w = &m->i[1]; *(void **)t = m->n; break;
    case O_CYC: m->n[0].a = &m->n[3]; m->n[3].a = &m->n[0]; *(void **)t = m->n; break;
    case O_DIA: m->n[0].a = &m->n[1]; m->n[0].b = &m->n[2]; m->n[1].a = m->n[2].b = &m->n[3]; *(void **)t = m->n; break;
    case O_SELF: m->n[3].b = &m->n[3]; *(void **)t = &m->n[3]; break;
    case O_INNER: { struct nd *n = t; n->v = 3; n->x = 5; n->a = &m->n[3]; m->n[3].w = &m->n[3].x; n->b = &m->n[1]; break; }
    case O_UNK: { struct unk *u = t; *u = (struct unk){.n = 1 + var, .p = m->i, .ok = &m->i[2], .f = (void (*)(int))&m->i[3], .d = (void *)&m->i[4], .z = 6}; u->u.i = 4; break; }
    case O_UNKZ: ((struct unk *)t)->n = 1 + var; break;
    case O_VP: *(void **)t = m->i + var; break;
    default: { struct tg *g = (void *)m->tgm; *(void **)t = g;
        if (o == O_TGZ) { g->n = 0; g->sel = 0; g->u.i = var; break; }
        g->sel = o - O_TG0; if (g->sel == 0) g->u.i = 5; if (g->sel == 1) g->u.pn = &m->n[0]; if (g->sel == 2) memcpy(g->u.c, "ab\0", 4); if (g->sel == 3) g->u.st.k = 2, g->u.st.q = &m->i[6];
        g->s = m->s[0]; g->n = 2; g->cnt = m->c; g->kind = (unsigned char)(o & 1); g->pn = 2; g->p = g->kind ? (void *)&m->i[4] : (void *)&m->n[2]; g->pp = &m->pi; g->pa = &m->pa; g->ap[0] = &m->i[0]; g->ap[1] = NULL; g->fn = 3; g->fl[0] = 1; g->fl[1] = 2; g->fl[2] = 3;
        m->it[0] = (struct it){1, {&m->it[1].l}, m->s[1]}; m->it[1] = (struct it){2, {NULL}, NULL}; g->first = &m->it[0].l; }
    }
}
static size_t osize(int o) { metac_size_t z = 0; metac_entry_byte_size(oe(o), &z); return z; }

/* ---- the exploration of one operation ---- */
/* op returns 0: failed, 1: succeeded with its result as text in res; rel releases what the call returned */
struct sc { const char *what; int o, a, b; int (*op)(struct sc *); void (*rel)(struct sc *); void *keep; metac_value_t *v, *w; metac_parameter_storage_t *st; };
static char res[16384], ref[16384]; static int ref_ok;
static void putres(const char *f, ...) { size_t l = strlen(res); va_list ap; va_start(ap, f); vsnprintf(res + l, sizeof res - l, f, ap); va_end(ap); }
static void once(struct sc *s, long k, int sticky) { /* k = 0: undisturbed */
    char pre[96]; if (k) snprintf(pre, sizeof pre, "allocation %ld%s fails: ", k, sticky ? " and all later ones" : ""); else snprintf(pre, sizeof pre, "%s", sticky ? "afterwards: " : "");
    res[0] = 0; s->keep = NULL; ha_start(k, sticky); h_ops(1);
    int r = s->op(s); int hit = ha_faulted(); ha_disarm();
    if (!k && !sticky) { ref_ok = r; memcpy(ref, res, sizeof ref); }
    else if (!hit || !k) { if (r != ref_ok || strcmp(res, ref)) h_fail("%sthe call %s [%s], undisturbed it %s [%s]", pre, r ? "gives" : "fails", res, ref_ok ? "gives" : "fails", ref); }
    else if (r && (!ref_ok || strcmp(res, ref))) h_fail("%sthe call succeeds with [%s], undisturbed it %s [%s]", pre, res, ref_ok ? "gives" : "fails", ref);
    if (!r && s->keep) h_fail("%sfailed and returned something", pre);
    if (r && s->rel) s->rel(s);
    if (ha_live()) h_fail("%s%ld blocks are not released", pre, ha_live());
    if (ha_foreign_frees()) h_fail("%s%ld blocks were released that the call does not own", pre, ha_foreign_frees());
    ha_stop();
    if (memcmp(&A, &SA, sizeof A) || memcmp(&B, &SB, sizeof B)) { h_fail("%sthe input was changed", pre); A = SA; B = SB; }
    h_state(h_hash(h_hash(H_HASH0, s->what, strlen(s->what)), &(struct { long k; int o, a, b, s, r; }){k, s->o, s->a, s->b, sticky, r}, sizeof(struct { long k; int o, a, b, s, r; })));
}
static void explore(struct sc *s) {
    SA = A; SB = B;
    once(s, 0, 0);
    long n = ha_allocs();
    for (int sticky = 0; sticky < 2 && !h_failed(); ++sticky) for (long k = 1; k <= n && !h_failed(); ++k) { once(s, k, sticky); if (!h_failed() && (!sticky || h_thorough)) once(s, 0, 1); }
    h_outcome("%s", ref_ok ? "succeeds undisturbed" : "refused undisturbed");
}

/* ---- operations on values ---- */
static metac_value_memory_map_mode_t md(struct sc *s) { metac_value_memory_map_mode_t m = {.memory_block_mode = s->a & 1 ? METAC_MMODE_tree : METAC_MMODE_dag}; if (s->a & 2) { m.unknown_ptr_mode = METAC_UPTR_as_values; m.union_mode = METAC_UNION_as_mem; } return m; }
static metac_value_memory_map_non_handled_mode_t fm(struct sc *s) { metac_value_memory_map_non_handled_mode_t m = {0}; if (s->a & 2) { m.unknown_ptr_mode = METAC_UPTR_as_values; m.union_mode = METAC_UNION_as_mem; } return m; }
static char dst[512]; static metac_value_t *dv;
static int op_copy(struct sc *s) {
    memset(dst, 0, sizeof dst); metac_value_memory_map_mode_t m = md(s);
    metac_value_t *r = metac_value_copy_ex(s->v, dv, &m, NULL, NULL, tags);
    if (!r) return 0;
    if (r != dv) { h_fail("another value is returned"); return 1; }
    ha_disarm(); long live = ha_live(); int e = metac_value_equal_ex(s->v, dv, &m, tags), e2 = metac_value_equal_ex(dv, s->v, &m, tags);
    char *t = s->o == O_UNK || s->o == O_VP ? NULL : metac_value_string_ex(dv, METAC_WMODE_deep, tags);
    putres("%ld blocks, compares %d %d, %s", live, e, e2, t ? t : "no text"); free(t);
    return 1;
}
static void rel_copy(struct sc *s) { metac_value_memory_map_non_handled_mode_t m = fm(s); if (!metac_value_free_ex(dv, &m, NULL, tags)) h_fail("the copy cannot be freed"); }
/* caller's own functions */
static long my_live; static void *my_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) ++my_live; return p; } static void my_free(void *p) { if (p) --my_live; free(p); }
static int op_copy2(struct sc *s) {
    memset(dst, 0, sizeof dst); my_live = 0; metac_value_memory_map_mode_t m = md(s);
    metac_value_t *r = metac_value_copy_ex(s->v, dv, &m, my_calloc, my_free, tags);
    if (!r) { if (my_live) h_fail("a failed copy keeps %ld blocks of the caller's allocator, or released them with another function", my_live); return 0; }
    putres("%ld blocks", my_live); return 1;
}
static void rel_copy2(struct sc *s) { metac_value_memory_map_non_handled_mode_t m = fm(s); if (!metac_value_free_ex(dv, &m, my_free, tags)) h_fail("the copy cannot be freed"); if (my_live) h_fail("%ld blocks of the caller's allocator are left", my_live); }
static int op_equal(struct sc *s) { metac_value_memory_map_mode_t m = md(s); int e = s->b ? metac_value_equal_ex(s->w, s->v, &m, tags) : metac_value_equal_ex(s->v, s->w, &m, tags); if (e < 0) return 0; putres("%d", e); return 1; }
static void *fr[64]; static int nfr; static void rec_free(void *p) { if (nfr < 64) fr[nfr] = p; ++nfr; }
static int op_free(struct sc *s) { /* addresses are recorded, nothing is released: the arena is static */
    metac_value_memory_map_non_handled_mode_t m = fm(s); nfr = 0; metac_flag_t r = metac_value_free_ex(s->v, &m, rec_free, tags);
    if (!r && nfr) h_fail("free failed after it had released %d blocks", nfr);
    if (!r) return 0;
    for (int i = 0; i < nfr && i < 64; ++i) putres("%ld ", (long)((char *)fr[i] - (char *)&A)); return 1;
}
static int op_string(struct sc *s) { char *t = metac_value_string_ex(s->v, s->a ? METAC_WMODE_shallow : METAC_WMODE_deep, tags); if (!t) return 0; putres("%s", t); s->keep = t; return 1; }
static void rel_free(struct sc *s) { free(s->keep); }
static int op_newval(struct sc *s) { metac_value_t *v = metac_new_value(metac_value_entry(s->v), metac_value_addr(s->v)); if (!v) return 0; putres("%d %d", metac_value_entry(v) == metac_value_entry(s->v), metac_value_addr(v) == metac_value_addr(s->v)); s->keep = v; return 1; }
static int op_fromval(struct sc *s) { metac_value_t *v = metac_new_value_from_value(s->v); if (!v) return 0; putres("%d %d", metac_value_entry(v) == metac_value_entry(s->v), metac_value_addr(v) == metac_value_addr(s->v)); s->keep = v; return 1; }
static void rel_val(struct sc *s) { if (s->keep) metac_value_delete(s->keep); }
static int op_sub(struct sc *s) { /* element b: member or element, dynamic count */
    metac_value_t *v = NULL;
    switch (s->a) { case 0: v = metac_new_value_by_member_id(s->v, s->b); break; case 1: v = metac_new_value_by_element_id(s->v, s->b); break; case 2: v = metac_new_element_count_value(s->v, s->b); break; }
    if (!v) return 0;
    ha_disarm(); metac_size_t z = 0; metac_entry_byte_size(metac_value_entry(v), &z); char *t = s->a == 2 && s->b > 1 ? NULL : metac_value_string_ex(v, METAC_WMODE_shallow, tags);
    metac_num_t cnt = metac_value_has_elements(v) ? metac_value_element_count(v) : -1;
    putres("%ld %zu %ld %s", (long)((char *)metac_value_addr(v) - (char *)&A), (size_t)z, (long)cnt, t ? t : "-"); free(t); s->keep = v; return 1;
}
static int op_text(struct sc *s) { char *t = s->a == 0 ? metac_value_base_type_string(s->v) : s->a == 1 ? metac_value_enumeration_string(s->v) : metac_value_pointer_string(s->v); if (!t) return 0; putres("%s", t); s->keep = t; return 1; }

/* ---- operations on descriptions ---- */
static metac_entry_t *ce[40]; static const char *cn[40]; static int nce;
static int op_cdecl(struct sc *s) { char *t = metac_entry_cdecl(s->a == 0 ? ce[s->o] : s->a == 1 ? metac_entry_final_entry(ce[s->o], NULL) : metac_entry_pointer_entry(ce[s->o])); if (!t) return 0; putres("%s", t); s->keep = t; return 1; }
static int op_entry(struct sc *s) { metac_entry_t *e = s->a < 0 ? metac_new_entry(ce[s->o]) : metac_new_element_count_entry(metac_entry_final_entry(ce[s->o], NULL), s->a); if (!e) return 0; metac_size_t z = 0; int r = metac_entry_byte_size(e, &z); putres("%d %zu %d", r, (size_t)z, metac_entry_kind(e)); s->keep = e; return 1; }
static void rel_entry(struct sc *s) { metac_entry_delete(s->keep); }
static int op_member(struct sc *s) { metac_num_t i = metac_entry_member_name_to_id(metac_entry_final_entry(oe(s->o), NULL), s->b ? "nosuch" : "x"); putres("%d", (int)i); return 1; }

/* ---- tag maps ---- */
static int ctxfree; static int ctxv; static void cfree(void *p) { if (p != &ctxv) h_fail("another context is released"); ++ctxfree; }
static int op_map(struct sc *s) { /* a: number of levels, b: default tag */
    metac_tag_map_entry_t me[3] = {{.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member)}, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)}, {.p_ext_map = tags, .mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member)}};
    metac_entry_tag_t d = {.p_tagstring = "a:\"b\"", .p_context = &ctxv, .context_free_handler = cfree}; ctxfree = 0;
    metac_tag_map_t *m = s->a ? metac_new_tag_map_ex(s->a, me, s->b ? &d : NULL) : metac_new_tag_map(s->b ? &d : NULL);
    if (!m) { if (ctxfree > 1) h_fail("the context was released %d times", ctxfree); return 0; }
    metac_entry_tag_t *t = metac_tag_map_tag(m, oe(O_INT)); putres("%s", t && t->p_tagstring ? t->p_tagstring : "-"); s->keep = m; return 1;
}
static void rel_map(struct sc *s) { metac_tag_map_delete(s->keep); int want = s->b; if (ctxfree != want) h_fail("the default context was released %d times, expected %d", ctxfree, want); }
static metac_tag_map_t *um; static metac_entry_t *ue; static int uset;
static int op_settag(struct sc *s) { /* a: override of an existing tag; the map is new each time */
    ha_mute(1); um = metac_new_tag_map_ex(1, (metac_tag_map_entry_t[]){{.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)}}, NULL);
    metac_entry_t *st = metac_entry_final_entry(oe(O_INNER), NULL); ue = metac_entry_by_member_id(st, 1); metac_entry_tag_t o = {.p_tagstring = "old:\"1\""}, t = {.p_tagstring = s->b ? "new:\"2\"" : NULL, .p_context = &ctxv, .context_free_handler = cfree}; ctxfree = 0;
    for (int i = 0; i < s->o; ++i) { metac_entry_t *e = i == 0 ? st : metac_entry_by_member_id(st, i == 1 ? 0 : i); metac_entry_tag_t x = {.p_tagstring = "other:\"3\""}; if (e) metac_tag_map_set_tag(um, 0, 0, e, METAC_TEO_entry, &x); }
    if (s->a) metac_tag_map_set_tag(um, 0, 0, ue, METAC_TEO_entry, &o);
    metac_entry_tag_t *before = metac_tag_map_tag(um, ue); int had = before != NULL;
    ha_mute(0); int r = metac_tag_map_set_tag(um, 0, s->a == 1, ue, METAC_TEO_entry, &t); int hit = ha_faulted(); ha_disarm(); ha_mute(1);
    metac_entry_tag_t *x = metac_tag_map_tag(um, ue);
    if (r) { /* nothing was attached: the map is what it was, the context remains the caller's */
        if ((x != NULL) != had || (x && strcmp(x->p_tagstring ? x->p_tagstring : "", "old:\"1\""))) h_fail("a failed set changed the map: %s", x ? x->p_tagstring ? x->p_tagstring : "(no text)" : "(nothing)");
        if (ctxfree) h_fail("a failed set released the caller's context");
        (void)hit;
    } else { if (!x || x->p_context != &ctxv) h_fail("a successful set is not visible"); putres("%s %d", x && x->p_tagstring ? x->p_tagstring : "-", r); }
    metac_tag_map_delete(um); /* in both cases: the map owns what was attached */
    if (ctxfree != (r == 0)) h_fail("the context was released %d times", ctxfree);
    ha_mute(0); return r == 0;
}
static int op_ctx(struct sc *s) {
    switch (s->a) {
    case 0: s->keep = metac_new_count_by_context("abc"); break; case 1: s->keep = metac_new_container_of_context(8, oe(O_INNER)); break;
    case 2: { struct metac_union_member_select_by_case c[2] = {{1, "x", 0}, {2, NULL, 1}}; s->keep = metac_new_union_member_select_by_context("abc", c, sizeof c); break; }
    case 3: s->keep = metac_new_union_member_select_by_context("abc", NULL, 0); break; case 4: s->keep = metac_new_union_member_permanent_selection(2); break;
    case 5: { struct metac_ptr_cast_case c[2] = {{.fld_val = 1, .p_ptr_entry = oe(O_PI)}, {.fld_val = 2, .p_ptr_entry = oe(O_PP)}}; s->keep = metac_new_ptr_cast_context("cnt", "sel", c, sizeof c); break; }
    }
    return s->keep != NULL;
}
static void rel_ctx(struct sc *s) { switch (s->a) { case 0: metac_count_by_context_delete(s->keep); break; case 1: metac_container_of_context_delete(s->keep); break; case 5: metac_ptr_cast_context_delete(s->keep); break; default: metac_union_member_select_by_context_delete(s->keep); } }
static const char *const tl[] = {"a:\"b\"", "a:\"b\" c:\"d\\\"e\"", "c:\"\" a:\"x\"", "junk", ""};
static int op_lookup(struct sc *s) { metac_entry_tag_t t = {.p_tagstring = (char *)tl[s->o]}; char *r = (char *)metac_entry_tag_string_lookup(&t, (char *)(s->a ? "c" : "a")); if (!r) return 0; putres("%s", r); s->keep = r; return 1; }

/* ---- parameter storages and captured calls ---- */
static void stext(metac_parameter_storage_t *st) { putres("("); for (int i = 0; i < (int)metac_parameter_storage_size(st); ++i) { metac_value_t *v = metac_parameter_storage_new_param_value(st, i); if (!v) { putres("?"); continue; } metac_entry_t *e = metac_value_entry(v); char *t = metac_value_string_ex(v, METAC_WMODE_shallow, tags); if (metac_entry_is_unspecified_parameter(e) || metac_entry_is_va_list_parameter(e)) stext(metac_value_addr(v)); else putres("%s", t ? t : "-"); free(t); putres(","); metac_value_delete(v); } putres(")"); }
static metac_entry_t *pe(int i) { return metac_entry_by_paremeter_id(ENT(g_base), i); }
static int app(metac_parameter_storage_t *st, int buf, metac_entry_t *e, int sz) { int n = (int)metac_parameter_storage_size(st), r = buf ? metac_parameter_storage_append_by_buffer(st, e, sz) : metac_parameter_storage_append_by_parameter_storage(st, e); if ((int)metac_parameter_storage_size(st) != n + (r == 0)) h_fail("an append that answers %d leads from %d to %d parameters", r, n, (int)metac_parameter_storage_size(st)); return r; }
static int op_storage(struct sc *s) { metac_parameter_storage_t *st = metac_new_parameter_storage(); if (!st) return 0; putres("%d", (int)metac_parameter_storage_size(st)); s->keep = st; return 1; }
static void rel_storage(struct sc *s) { metac_parameter_storage_delete(s->keep); }
/* a life cycle: create, append, nest, fill, copy; everything deleted at the end whatever failed */
static metac_entry_t *dyn;
static int op_life(struct sc *s) {
    int ok = 0; metac_parameter_storage_t *a = metac_new_parameter_storage(), *b = NULL; metac_value_t *v = NULL;
    if (!a) return 0;
    do {
        for (int i = 0; i < s->o; ++i) if (app(a, 1, pe(i), (metac_num_t[]){1, 2, 4, 8, 8, 1, 4}[i])) goto out;
        if (s->b && app(a, 1, dyn, 12)) goto out; /* an array with a description of its own, which the storage duplicates */
        for (int d = 0; d < s->a; ++d) if (app(a, 0, metac_entry_by_paremeter_id(ENT(g_pr), 1), 0)) goto out;
        if (s->a) { v = metac_parameter_storage_new_param_value(a, s->o + s->b); if (!v) break; metac_parameter_storage_t *in = metac_value_addr(v); if (app(in, 1, pe(2), 4) || app(in, 0, metac_entry_by_paremeter_id(ENT(g_pr), 1), 0) || app(in, 1, pe(3), 8)) break; }
        b = metac_new_parameter_storage(); if (!b) break;
        if (metac_parameter_storage_copy(a, b)) break;
        ok = 1;
    } while (0);
out:
    ha_disarm(); if (ok) { stext(a); stext(b); }
    if (v) metac_value_delete(v); metac_parameter_storage_delete(a); if (b) metac_parameter_storage_delete(b);
    return ok;
}
static int op_scopy(struct sc *s) { /* copy of a captured call's storage into a new one */
    ha_mute(1); metac_parameter_storage_t *b = metac_new_parameter_storage(); ha_mute(0);
    int r = metac_parameter_storage_copy(metac_value_addr(s->v), b); ha_disarm(); if (!r) stext(b);
    metac_parameter_storage_delete(b);
    return r == 0;
}
enum { G_NONE, G_BASE, G_STRUCT, G_ARR, G_STR, G_PR, G_PR0, G_VPR, G_FP, NG };
static const char *const gn[NG] = {"no parameters", "basic types", "structures", "counted array", "string", "variable arguments", "no variable arguments", "argument list", "function pointer"};
static metac_entry_t *ge(int g) { switch (g) { case G_NONE: return ENT(g_none); case G_BASE: return ENT(g_base); case G_STRUCT: return ENT(g_struct); case G_ARR: return ENT(g_arr); case G_STR: return ENT(g_str); case G_VPR: return ENT(g_vpr); case G_FP: return ENT(g_fp); default: return ENT(g_pr); } }
static metac_value_t *vpr(metac_value_t *v, char *f, ...) { va_list ap; va_start(ap, f); metac_value_t *r = metac_value_parameter_wrap(v, tags, 3, f, ap, 4); va_end(ap); return r; }
static metac_value_t *vw(metac_value_t *v, metac_tag_map_t *t, ...) { va_list ap; va_start(ap, t); metac_value_t *r = metac_value_parameter_vwrap(v, t, ap); va_end(ap); return r; }
static char fmt1[] = "%d|%s|%5.2f|%c|%p|%lld", fmt0[] = "plain %%";
static metac_value_t *cap(int g, metac_value_t *v, struct arena *m) {
    switch (g) {
    case G_NONE: return metac_value_parameter_wrap(v, tags);
    case G_BASE: return vw(v, tags, 'a', 2, 3, 4L, 5.5, 1, EB);
    case G_STRUCT: return metac_value_parameter_wrap(v, tags, (in_t){'q', 1.5}, 7, &m->n[0]);
    case G_ARR: return metac_value_parameter_wrap(v, tags, m->i, 3);
    case G_STR: return metac_value_parameter_wrap(v, tags, m->s[0], 1);
    case G_PR: return metac_value_parameter_wrap(v, tags, fmt1, 1, m->s[0], 2.5, 'z', NULL, 5LL);
    case G_PR0: return metac_value_parameter_wrap(v, tags, fmt0);
    case G_VPR: return vpr(v, fmt1, 1, m->s[0], 2.5, 'z', NULL, 5LL);
    case G_FP: return metac_value_parameter_wrap(v, tags, (void *)&m->i[0], NULL);
    }
    return NULL;
}
static int op_wrap(struct sc *s) { /* the storage is the caller's, the value is released by a failed call */
    metac_parameter_storage_t *st = NULL; metac_value_t *v;
    st = metac_new_parameter_storage(); if (!st) return 0;
    v = metac_new_value(ge(s->o), st); if (!v) { ha_disarm(); metac_parameter_storage_delete(st); return 0; }
    metac_value_t *r = cap(s->o, v, &A); ha_disarm();
    if (r && r != v) h_fail("another value is returned");
    if (r) { char *t = s->o == G_FP ? NULL : metac_value_string_ex(r, METAC_WMODE_deep, tags); putres("%s", t ? t : "-"); free(t); stext(st); metac_value_delete(r); }
    metac_parameter_storage_delete(st);
    return r != NULL;
}
static int op_params(struct sc *s) { metac_value_t *v = metac_new_value_with_call_params(ge(s->o)); if (!v) return 0; putres("%d %d", metac_value_entry(v) == ge(s->o), metac_value_addr(v) != NULL); s->keep = v; return 1; }
static void rel_params(struct sc *s) { metac_value_with_call_params_delete(s->keep); }
static int op_result(struct sc *s) { metac_value_t *v = metac_new_value_with_call_result(ge(s->o)); if (!v) return 0; metac_size_t z = 0; metac_entry_byte_size(metac_value_entry(v), &z); putres("%zu %s", (size_t)z, metac_value_addr(v) ? "place" : "no place"); for (size_t i = 0; i < z && metac_value_addr(v); ++i) if (((char *)metac_value_addr(v))[i]) putres("!"); s->keep = v; return 1; }
static void rel_result(struct sc *s) { metac_value_with_call_result_delete(s->keep); }
static int op_param(struct sc *s) { metac_value_t *v = metac_value_parameter_new_item(s->v, s->a); if (!v) return 0; ha_disarm(); char *t = metac_value_string_ex(v, METAC_WMODE_shallow, tags); putres("%s", t ? t : "-"); free(t); s->keep = v; return 1; }
static metac_value_t *newcall(int g, struct arena *m) { metac_value_t *v = metac_new_value_with_call_params(ge(g)); return v ? cap(g, v, m) : NULL; }
static int op_ccopy(struct sc *s) {
    ha_mute(1); metac_value_t *d = metac_new_value_with_call_params(ge(s->o)); ha_mute(0); metac_value_memory_map_mode_t m = md(s);
    metac_value_t *r = metac_value_copy_ex(s->v, d, &m, NULL, NULL, tags); ha_disarm();
    if (r) { int e = metac_value_equal_ex(s->v, d, &m, tags); char *t = metac_value_string_ex(d, METAC_WMODE_deep, tags); putres("compares %d, %s", e, t ? t : "-"); free(t); metac_value_memory_map_non_handled_mode_t f = fm(s); if (!metac_value_free_ex(d, &f, NULL, tags)) h_fail("the copy cannot be freed"); }
    metac_value_with_call_params_delete(d); /* whatever a failed copy left belongs to the storage */
    return r != NULL;
}

/* ---- enumeration ---- */
static void go(struct sc *s) { explore(s); }
static const char *const mn[] = {"dag", "tree", "dag tolerant", "tree tolerant"};
static void values(int o) {
    struct sc s; metac_entry_t *e = oe(o);
#define CASE(W, ...) if (h_begin(W " of %s" __VA_ARGS__)) 
    for (int m = 0; m < 4; ++m) {
        if (m & 1 && (o == O_CYC || o == O_SELF)) continue;
        for (int v = 0; v < 2; ++v) for (int sw = 0; sw < 2; ++sw) if (h_begin("compare %s with %s content, %s%s", on[o], v ? "another" : "the same", mn[m], sw ? ", exchanged" : "")) {
            build(o, &A, 0); build(o, &B, v); s = (struct sc){.what = "equal", .o = o, .a = m, .b = sw, .op = op_equal}; s.v = metac_new_value(e, A.top); s.w = metac_new_value(e, B.top); go(&s); metac_value_delete(s.v); metac_value_delete(s.w); h_end();
        }
        for (int own = 0; own < 2; ++own) if (h_begin("copy %s, %s%s", on[o], mn[m], own ? ", caller's allocator" : "")) {
            build(o, &A, 0); memset(&B, 0, sizeof B); s = (struct sc){.what = "copy", .o = o, .a = m, .b = own, .op = own ? op_copy2 : op_copy, .rel = own ? rel_copy2 : rel_copy}; s.v = metac_new_value(e, A.top); dv = metac_new_value(e, dst); go(&s); metac_value_delete(s.v); metac_value_delete(dv); h_end();
        }
        if (!(m & 1) && h_begin("free %s, %s", on[o], mn[m])) { build(o, &A, 0); memset(&B, 0, sizeof B); s = (struct sc){.what = "free", .o = o, .a = m, .op = op_free}; s.v = metac_new_value(e, A.top); go(&s); metac_value_delete(s.v); h_end(); }
    }
    for (int w = 0; w < 2; ++w) if (h_begin("text of %s, %s", on[o], w ? "shallow" : "deep")) { build(o, &A, 0); memset(&B, 0, sizeof B); s = (struct sc){.what = "string", .o = o, .a = w, .op = op_string, .rel = rel_free}; s.v = metac_new_value(e, A.top); go(&s); metac_value_delete(s.v); h_end(); }
    for (int w = 0; w < 2; ++w) if (h_begin("%s %s", w ? "duplicate value of" : "new value of", on[o])) { build(o, &A, 0); memset(&B, 0, sizeof B); s = (struct sc){.what = "value", .o = o, .a = w, .op = w ? op_fromval : op_newval, .rel = rel_val}; s.v = metac_new_value(e, A.top); go(&s); metac_value_delete(s.v); h_end(); }
    build(o, &A, 0); metac_value_t *v = metac_new_value(e, A.top);
    int nm = metac_value_has_members(v) ? (int)metac_value_member_count(v) : 0, ne = metac_value_has_elements(v) ? (int)metac_value_element_count(v) : 0, p = metac_value_is_pointer(v);
    for (int k = 0; k < 3; ++k) for (int i = 0; i < (k == 0 ? nm : k == 1 ? ne : p ? 3 : 0); ++i) if (h_begin("%s %d of %s", k == 0 ? "member" : k == 1 ? "element" : "array view of length", i, on[o])) { build(o, &A, 0); memset(&B, 0, sizeof B); s = (struct sc){.what = "part", .o = o, .a = k, .b = i, .op = op_sub, .rel = rel_val, .v = v}; go(&s); h_end(); }
    int k = metac_value_is_base_type(v) ? 0 : metac_value_is_enumeration(v) ? 1 : p ? 2 : -1;
    if (k >= 0 && h_begin("plain text of %s", on[o])) { build(o, &A, 0); memset(&B, 0, sizeof B); s = (struct sc){.what = "plain", .o = o, .a = k, .op = op_text, .rel = rel_free, .v = v}; go(&s); h_end(); }
    metac_value_delete(v);
}
#define ADD(x) ce[nce] = ENT(x), cn[nce++] = #x
void h_main_enumerate(void) {
    tags = new_tags(); if (!tags) { fprintf(stderr, "SETUP tag map\n"); exit(3); }
    struct sc s;
    for (int o = 0; o < NO; ++o) values(o);
    memset(&A, 0, sizeof A); memset(&B, 0, sizeof B);
    ADD(o_int); ADD(o_bits); ADD(o_ab); ADD(o_mat); ADD(o_nd); ADD(o_tg); ADD(o_pb); ADD(o_ldc); ADD(o_vp); ADD(o_en); ADD(o_pp); ADD(c_fpf); ADD(c_anon); ADD(c_cc); ADD(c_arr); ADD(c_np); ADD(g_none); ADD(g_base); ADD(g_struct); ADD(g_arr); ADD(g_pr); ADD(g_vpr); ADD(g_fp);
    for (int i = 0; i < nce; ++i) for (int a = 0; a < 3; ++a) {
        if (a == 2 && !metac_entry_is_pointer(ce[i])) continue;
        if (h_begin("declaration of %s%s", a == 0 ? "" : a == 1 ? "the type of " : "the target of ", cn[i])) { s = (struct sc){.what = "cdecl", .o = i, .a = a, .op = op_cdecl, .rel = rel_free}; go(&s); h_end(); }
    }
    for (int i = 0; i < nce; ++i) for (int a = -1; a < 3; ++a) if (h_begin("%s description of %s, %d", a < 0 ? "duplicate" : "array", cn[i], a)) { s = (struct sc){.what = "entry", .o = i, .a = a, .op = op_entry, .rel = rel_entry}; go(&s); h_end(); }
    for (int b = 0; b < 2; ++b) if (h_begin("member by name %d", b)) { s = (struct sc){.what = "name", .o = O_INNER, .b = b, .op = op_member}; go(&s); h_end(); }
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 2; ++b) if (h_begin("new tag map, %d levels, %s", a, b ? "default tag" : "no default")) { s = (struct sc){.what = "map", .a = a, .b = b, .op = op_map, .rel = rel_map}; go(&s); h_end(); }
    for (int o = 0; o < 4; ++o) for (int a = 0; a < 3; ++a) for (int b = 0; b < 2; ++b) if (h_begin("attach a tag%s to a map of %d%s", b ? "" : " without text", o, a == 1 ? ", replacing one" : a == 2 ? ", refused because there is one" : "")) { s = (struct sc){.what = "set", .o = o, .a = a, .b = b, .op = op_settag}; go(&s); h_end(); }
    for (int a = 0; a < 6; ++a) if (h_begin("context %d", a)) { s = (struct sc){.what = "context", .a = a, .op = op_ctx, .rel = rel_ctx}; go(&s); h_end(); }
    for (int o = 0; o < 5; ++o) for (int a = 0; a < 2; ++a) if (h_begin("look up %c in %s", a ? 'c' : 'a', tl[o])) { s = (struct sc){.what = "lookup", .o = o, .a = a, .op = op_lookup, .rel = rel_free}; go(&s); h_end(); }
    if (h_begin("new storage")) { s = (struct sc){.what = "storage", .op = op_storage, .rel = rel_storage}; go(&s); h_end(); }
    dyn = metac_new_element_count_entry(metac_entry_final_entry(ENT(o_pi), NULL), 3); if (!dyn) { fprintf(stderr, "SETUP array description\n"); exit(3); }
    for (int o = 0; o < 8; ++o) for (int a = 0; a < 3; ++a) for (int b = 0; b < 2; ++b) if (h_begin("storage life cycle: %d parameters, %d nested%s", o, a, b ? ", array with its own description" : "")) { s = (struct sc){.what = "life", .o = o, .a = a, .b = b, .op = op_life}; go(&s); h_end(); }
    for (int g = 0; g < NG; ++g) {
        int tab[] = {G_NONE}; (void)tab; build(O_LIST, &A, 0); build(O_LIST, &B, 0);
        if (h_begin("capture a call: %s", gn[g])) { s = (struct sc){.what = "wrap", .o = g, .op = op_wrap}; go(&s); h_end(); }
        if (h_begin("new call value: %s", gn[g])) { s = (struct sc){.what = "params", .o = g, .op = op_params, .rel = rel_params}; go(&s); h_end(); }
        if (h_begin("new result value: %s", gn[g])) { s = (struct sc){.what = "result", .o = g, .op = op_result, .rel = rel_result}; go(&s); h_end(); }
        metac_value_t *x = newcall(g, &A), *y = newcall(g, &B);
        if (!x || !y) { if (h_begin("capture without fault: %s", gn[g])) { h_fail("the call cannot be captured"); h_end(); } continue; }
        for (int i = 0; i < (int)metac_value_parameter_count(x); ++i) if (h_begin("parameter %d of a captured call: %s", i, gn[g])) { s = (struct sc){.what = "param", .o = g, .a = i, .op = op_param, .rel = rel_val, .v = x}; go(&s); h_end(); }
        for (int w = 0; w < 2; ++w) if (h_begin("text of a captured call: %s, %s", gn[g], w ? "shallow" : "deep")) { s = (struct sc){.what = "ctext", .o = g, .a = w, .op = op_string, .rel = rel_free, .v = x}; go(&s); h_end(); }
        if (h_begin("copy the storage of a captured call: %s", gn[g])) { s = (struct sc){.what = "scopy", .o = g, .op = op_scopy, .v = x}; go(&s); h_end(); }
        for (int m = 0; m < 4; ++m) {
            if (h_begin("copy a captured call: %s, %s", gn[g], mn[m])) { s = (struct sc){.what = "ccopy", .o = g, .a = m, .op = op_ccopy, .v = x}; go(&s); h_end(); }
            if (h_begin("compare captured calls: %s, %s", gn[g], mn[m])) { s = (struct sc){.what = "cequal", .o = g, .a = m, .op = op_equal, .v = x, .w = y}; go(&s); h_end(); }
        }
        metac_value_with_call_params_delete(x); metac_value_with_call_params_delete(y);
    }
    metac_tag_map_delete(tags);
    metac_entry_delete(dyn);
}
