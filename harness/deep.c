/* P03/P04/P05: deep copy, free and comparison over every bounded object graph.
 * The reference is a table-driven walker that knows the C layout of the types below and shares nothing with the library. */
#include "h.h"
#include "metac/reflect.h"
#include <stdarg.h>

/* ---- the program under reflection ---- */
struct node { int v; struct node *a; char pad; struct node *b; int x; int *w; };
struct elem { short s; struct elem *link; };
struct slices { unsigned char n; struct elem *p; unsigned char m; struct elem *q; };
struct var {
    int sel; union { int i; struct elem *pe; char c[4]; struct { short k; struct node *pn; } st; } u;
    char *s; int ns; unsigned bf1 : 3, bf2 : 7; int **pp; struct elem arr[2]; int (*pa)[2]; short n; struct elem fl[];
};
/* items linked through an inner member at different places of the item: first, early, middle, far, last, inside an inner structure */
#define LISTS(X) X(0, , short v; char *name;, l) X(1, short v;, char *name;, l) X(2, short v; char *name; char p[16];, char q[16]; int w;, l) X(3, char p[301];, short v; char *name; , l) X(4, short v; char *name; char p[24];, , l) X(5, int k; struct { char c; , } in; short v; char *name;, in.l)
#define LT(i, PRE, POST, PATH) struct lh##i { struct lh##i *next; }; struct it##i { PRE struct lh##i l; POST }; struct lst##i { long z; struct lh##i *first; struct it##i *direct; }; struct lst##i top_lst##i; METAC_GSYM_LINK(top_lst##i);
LISTS(LT)
struct cast { unsigned char kind; void *p; unsigned char cnt; };
struct node *root_node; METAC_GSYM_LINK(root_node);
struct node top_node; METAC_GSYM_LINK(top_node);
struct slices top_slices; METAC_GSYM_LINK(top_slices);
struct var *root_var; METAC_GSYM_LINK(root_var);
struct cast top_cast; METAC_GSYM_LINK(top_cast);
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final),},)
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct slices)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "p"}), METAC_COUNT_BY(n))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "q"}), METAC_COUNT_BY(m))
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct var)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "u"}), METAC_UNION_MEMBER_SELECT_BY(sel, {.fld_val = 0, .union_fld_name = "i"}, {.fld_val = 1, .union_fld_name = "pe"}, {.fld_val = 2, .union_fld_name = "c"}, {.fld_val = 7, .union_fld_name = "st"}))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "s"}), METAC_ZERO_ENDED_STRING())
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "fl"}), METAC_COUNT_BY(n))
    METAC_TAG_MAP_ENTRY_END
#define LTAG(i, PATH) \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct lh##i) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "next"}), METAC_CONTAINER_OF(struct it##i, PATH)) \
    METAC_TAG_MAP_ENTRY_END \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct it##i) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "name"}), METAC_ZERO_ENDED_STRING()) \
    METAC_TAG_MAP_ENTRY_END \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct lst##i) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "first"}), METAC_CONTAINER_OF(struct it##i, PATH)) \
    METAC_TAG_MAP_ENTRY_END
    LTAG(0, l) LTAG(1, l) LTAG(2, l) LTAG(3, l) LTAG(4, l) LTAG(5, in.l)
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct cast)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "p"}), METAC_CAST_PTR(cnt, kind, {.fld_val = 0, .p_ptr_entry = METAC_ENTRY_OF(struct elem *)}, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(int *)}))
    METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_END

/* ---- reference description of the same types ---- */
enum fk { SC, BF, PT, PN, STR, SUB, UN, FX, CO, CAST, END };
struct T; struct F { enum fk k; size_t off, size; const struct T *t; size_t coff, csize; int n; };
struct T { const char *name; size_t size; struct F f[14]; };
#define O(S, m) offsetof(struct S, m), sizeof(((struct S *)0)->m)
#define C(S, m) .coff = offsetof(struct S, m), .csize = sizeof(((struct S *)0)->m)
static const struct T t_int = {"int", 4, {{SC, 0, 4}, {END}}}, t_char = {"char", 1, {{SC, 0, 1}, {END}}}, t_int2 = {"int2", 8, {{SUB, 0, 8, &t_int, .n = 2}, {END}}};
static const struct T t_node, t_elem;
static const struct T t_node = {"node", sizeof(struct node), {{SC, O(node, v)}, {PT, O(node, a), &t_node}, {SC, O(node, pad)}, {PT, O(node, b), &t_node}, {SC, O(node, x)}, {PT, O(node, w), &t_int}, {END}}};
static const struct T t_elem = {"elem", sizeof(struct elem), {{SC, O(elem, s)}, {PT, O(elem, link), &t_elem}, {END}}};
static const struct T t_slices = {"slices", sizeof(struct slices), {{SC, O(slices, n)}, {PN, O(slices, p), &t_elem, C(slices, n)}, {SC, O(slices, m)}, {PN, O(slices, q), &t_elem, C(slices, m)}, {END}}};
static const struct T t_pint = {"int*", 8, {{PT, 0, 8, &t_int}, {END}}};
static const struct T u_i = {"u.i", 4, {{SC, 0, 4}, {END}}}, u_pe = {"u.pe", 8, {{PT, 0, 8, &t_elem}, {END}}}, u_c = {"u.c", 4, {{SUB, 0, 4, &t_char, .n = 4}, {END}}}, u_st = {"u.st", 16, {{SC, 0, 2}, {PT, 8, 8, &t_node}, {END}}};
static const struct T t_var = {"var", sizeof(struct var), {{SC, O(var, sel)}, {UN, O(var, u), NULL, C(var, sel)}, {STR, O(var, s)}, {BF, 0, 0}, {SC, O(var, ns)}, {PT, O(var, pp), &t_pint}, {SUB, O(var, arr), &t_elem, .n = 2}, {PT, O(var, pa), &t_int2}, {SC, O(var, n)}, {FX, offsetof(struct var, fl), 0, &t_elem, C(var, n)}, {END}}};
#define LREF(i, PRE, POST, PATH) static const struct T t_it##i, t_lh##i = {"lh", sizeof(struct lh##i), {{CO, O(lh##i, next), &t_it##i, .n = offsetof(struct it##i, PATH)}, {END}}}; \
static const struct T t_it##i = {"it", sizeof(struct it##i), {{SC, O(it##i, v)}, {SUB, O(it##i, PATH), &t_lh##i, .n = 1}, {STR, O(it##i, name)}, LMORE##i {END}}}; \
static const struct T t_lst##i = {"lst", sizeof(struct lst##i), {{SC, O(lst##i, z)}, {CO, O(lst##i, first), &t_it##i, .n = offsetof(struct it##i, PATH)}, {PT, O(lst##i, direct), &t_it##i}, {END}}};
#define LMORE0
#define LMORE1
#define LMORE2 {SUB, O(it2, p), &t_char, .n = 16}, {SUB, O(it2, q), &t_char, .n = 16}, {SC, O(it2, w)},
#define LMORE3 {SUB, O(it3, p), &t_char, .n = 301},
#define LMORE4 {SUB, O(it4, p), &t_char, .n = 24},
#define LMORE5 {SC, O(it5, k)}, {SC, O(it5, in.c)},
LISTS(LREF)
#define LENT(i, PRE, POST, PATH) {&t_it##i, &t_lst##i, offsetof(struct it##i, PATH), offsetof(struct it##i, v), offsetof(struct it##i, name)},
static const struct { const struct T *it, *lst; size_t l, v, name; } lt[] = {LISTS(LENT)}; enum { NLT = sizeof lt / sizeof *lt };
static const struct T t_cast = {"cast", sizeof(struct cast), {{SC, O(cast, kind)}, {CAST, O(cast, p), NULL, C(cast, cnt)}, {SC, O(cast, cnt)}, {END}}};
static const struct T t_pnode = {"node*", 8, {{PT, 0, 8, &t_node}, {END}}}, t_pvar = {"var*", 8, {{PT, 0, 8, &t_var}, {END}}};

static long rd(const char *p, size_t off, size_t size) { long r = 0; if (size == 1) r = *(unsigned char *)(p + off); else if (size == 2) r = *(short *)(p + off); else if (size == 4) r = *(int *)(p + off); else memcpy(&r, p + off, 8); return r; }
static void *rp(const char *p, size_t off) { void *r; memcpy(&r, p + off, sizeof r); return r; }
/* the pointed-to object of a pointer slot: base address, element type and count */
static int target(const char *base, const struct F *f, char **to, const struct T **t, long *n) {
    char *p = rp(base, f->off);
    if (!p) return 0;
    *to = p; *t = f->t; *n = 1;
    if (f->k == PN) *n = rd(base, f->coff, f->csize);
    else if (f->k == STR) { *t = &t_char; *n = (long)strlen(p) + 1; }
    else if (f->k == CO) *to = p - f->n;
    else if (f->k == CAST) { *t = ((struct cast *)base)->kind ? &t_int : &t_elem; *n = ((struct cast *)base)->cnt; }
    return 1;
}
static const struct T *umem(const char *base) { int s = ((struct var *)base)->sel; return s == 0 ? &u_i : s == 1 ? &u_pe : s == 2 ? &u_c : &u_st; }

/* ---- memory of one graph ---- */
struct blk { char *p; size_t size; int owned; };
struct mem { struct blk b[24]; int n; char *arena, *at; int lay; };
/* where blocks are placed: 0 - anywhere; 1 - in one arena, each directly behind the previous one; 2 - directly in front of it */
static int lay; static const char *const layn[] = {"", ", blocks one behind another", ", blocks one in front of another"};
#define ARENA 8192
static void *mk(struct mem *m, size_t size, int owned) {
    char *p; size_t al = size % 8 == 0 ? 8 : size % 4 == 0 ? 4 : size % 2 == 0 ? 2 : 1;
    if (m->n == 0) { m->lay = lay; m->arena = NULL; if (lay) { m->arena = malloc(ARENA); memset(m->arena, 0x21, ARENA); m->at = lay == 1 ? m->arena : m->arena + ARENA; } }
    if (m->lay == 0) p = malloc(size);
    else if (m->lay == 1) { p = (char *)(((uintptr_t)m->at + al - 1) & ~(uintptr_t)(al - 1)); m->at = p + size; }
    else { p = (char *)(((uintptr_t)m->at - size) & ~(uintptr_t)(al - 1)); m->at = p; }
    memset(p, 0x5a + m->n * 7, size); m->b[m->n++] = (struct blk){p, size, owned}; return p;
}
static void drop(struct mem *m) { if (m->n && m->lay) free(m->arena); else for (int i = 0; i < m->n; ++i) free(m->b[i].p); m->n = 0; }
static int blk_of(struct mem *m, const char *p, size_t len) { for (int i = 0; i < m->n; ++i) if (p >= m->b[i].p && p + len <= m->b[i].p + m->b[i].size && (len || p < m->b[i].p + m->b[i].size || p == m->b[i].p)) return i; return -1; }

/* ---- reference serializations ---- */
static char out_[1 << 16]; static size_t on; static int bad;
static void em(const char *fmt, ...) { va_list ap; va_start(ap, fmt); on += (size_t)vsnprintf(out_ + on, sizeof out_ - on, fmt, ap); va_end(ap); if (on >= sizeof out_ - 64) { fprintf(stderr, "serialization too big\n"); _Exit(3); } }
static int ids[24], nids; static struct { const char *p; const struct T *t; long n; } seen[256]; static int nseen;
static int id_of(int b) { for (int i = 0; i < nids; ++i) if (ids[i] == b) return i; ids[nids] = b; return nids++; }
static void ser(struct mem *m, const char *p, const struct T *t);
static void ser_ptr(struct mem *m, const char *base, const struct F *f) {
    char *to; const struct T *t; long n;
    if (!target(base, f, &to, &t, &n)) { em("0,"); return; }
    int b = blk_of(m, to, t->size * (size_t)n);
    if (b < 0) { em("!"); bad = 1; return; }
    em("%d+%ld*%ld", id_of(b), (long)(to - m->b[b].p), n);
    for (int i = 0; i < nseen; ++i) if (seen[i].p == to && seen[i].t == t && seen[i].n == n) { em(","); return; }
    if (nseen >= 256) _Exit(3);
    seen[nseen].p = to; seen[nseen].t = t; seen[nseen++].n = n;
    em("(");
    for (long i = 0; i < n; ++i) ser(m, to + (size_t)i * t->size, t);
    em("),");
}
static void ser(struct mem *m, const char *p, const struct T *t) {
    for (const struct F *f = t->f; f->k != END && !bad; ++f) switch (f->k) {
        case SC: em("%ld,", rd(p, f->off, f->size)); break;
        case BF: em("%u:%u,", ((struct var *)p)->bf1, ((struct var *)p)->bf2); break;
        case SUB: for (int i = 0; i < f->n; ++i) { em("{"); ser(m, p + f->off + (size_t)i * f->t->size, f->t); em("}"); } break;
        case FX: { long n = rd(p, f->coff, f->csize); for (long i = 0; i < n; ++i) { em("{"); ser(m, p + f->off + (size_t)i * f->t->size, f->t); em("}"); } break; }
        case UN: em("<"); ser(m, p + f->off, umem(p)); em(">"); break;
        default: ser_ptr(m, p, f);
    }
}
/* unfolded form: every followed pointer is a fresh object unless it repeats a pointer on the way to it */
static char *anc[64]; static int nanc; static long unf_blocks; static struct { char *p; size_t n; } ub[512];
static void unf(const char *p, const struct T *t) {
    for (const struct F *f = t->f; f->k != END; ++f) switch (f->k) {
        case SC: em("%ld,", rd(p, f->off, f->size)); break;
        case BF: em("%u:%u,", ((struct var *)p)->bf1, ((struct var *)p)->bf2); break;
        case SUB: for (int i = 0; i < f->n; ++i) { em("{"); unf(p + f->off + (size_t)i * f->t->size, f->t); em("}"); } break;
        case FX: { long n = rd(p, f->coff, f->csize); for (long i = 0; i < n; ++i) { em("{"); unf(p + f->off + (size_t)i * f->t->size, f->t); em("}"); } break; }
        case UN: em("<"); unf(p + f->off, umem(p)); em(">"); break;
        default: {
            char *to; const struct T *u; long n; int l = 0;
            if (!target(p, f, &to, &u, &n)) { em("0,"); break; }
            char *raw = rp(p, f->off);
            for (int i = nanc - 1; i >= 0; --i) if (anc[i] == raw) { l = nanc - i; break; }
            if (l) { em("^%d,", l); break; }
            if (nanc >= 64 || unf_blocks >= 512) _Exit(3);
            ub[unf_blocks].p = to; ub[unf_blocks].n = u->size * (size_t)n; ++unf_blocks; anc[nanc++] = raw; em("(*%ld:", n);
            for (long i = 0; i < n; ++i) unf(to + (size_t)i * u->size, u);
            em("),"); --nanc; }
    }
}
static char *do_ser(struct mem *m, const void *top, const struct T *t, int *isbad) { on = 0; nids = nseen = bad = 0; id_of(0); ser(m, top, t); *isbad = bad; return out_; }
static char *do_unf(const void *top, const struct T *t) { on = 0; nanc = 0; unf_blocks = 0; unf(top, t); return out_; }
/* same unfolding (bisimilarity) of two graphs */
static struct { const char *a, *b; const struct T *t; long n; } pr[512]; static int npr;
static int bis(const char *a, const char *b, const struct T *t) {
    for (const struct F *f = t->f; f->k != END; ++f) switch (f->k) {
        case SC: if (rd(a, f->off, f->size) != rd(b, f->off, f->size)) return 0; break;
        case BF: if (((struct var *)a)->bf1 != ((struct var *)b)->bf1 || ((struct var *)a)->bf2 != ((struct var *)b)->bf2) return 0; break;
        case SUB: for (int i = 0; i < f->n; ++i) if (!bis(a + f->off + (size_t)i * f->t->size, b + f->off + (size_t)i * f->t->size, f->t)) return 0; break;
        case FX: { long n = rd(a, f->coff, f->csize); if (n != rd(b, f->coff, f->csize)) return 0; for (long i = 0; i < n; ++i) if (!bis(a + f->off + (size_t)i * f->t->size, b + f->off + (size_t)i * f->t->size, f->t)) return 0; break; }
        case UN: if (umem(a) != umem(b) || !bis(a + f->off, b + f->off, umem(a))) return 0; break;
        default: {
            char *x, *y; const struct T *tx, *ty; long nx, ny;
            int ra = target(a, f, &x, &tx, &nx), rb = target(b, f, &y, &ty, &ny), known = 0;
            if (ra != rb || (ra && (tx != ty || nx != ny))) return 0;
            if (!ra) break;
            for (int i = 0; i < npr; ++i) if (pr[i].a == x && pr[i].b == y && pr[i].t == tx && pr[i].n == nx) known = 1;
            if (known) break;
            if (npr >= 512) _Exit(3);
            pr[npr].a = x; pr[npr].b = y; pr[npr].t = tx; pr[npr++].n = nx;
            for (long i = 0; i < nx; ++i) if (!bis(x + (size_t)i * tx->size, y + (size_t)i * tx->size, tx)) return 0; }
    }
    return 1;
}

/* ---- the graph of the current case ---- */
struct graph { struct mem m; void *top; const struct T *t; metac_entry_t *e; };
static metac_tag_map_t *tags; static metac_entry_t *e_rnode, *e_tnode, *e_slices, *e_rvar, *e_lst[NLT], *e_cast;
static void snap(struct mem *m, uint64_t *h) { for (int i = 0; i < m->n; ++i) h[i] = h_hash(H_HASH0, m->b[i].p, m->b[i].size); }
static void unchanged(struct mem *m, uint64_t *h, const char *what) { for (int i = 0; i < m->n; ++i) if (h[i] != h_hash(H_HASH0, m->b[i].p, m->b[i].size)) { h_fail("%s modified its source", what); return; } }
static void *freed[64]; static int nfreed; static void rec_free(void *p) { if (nfreed < 64) freed[nfreed++] = p; }
static long ncalloc; static void *cnt_calloc(size_t a, size_t b) { ++ncalloc; return calloc(a, b); }
static long ncfree; static void cnt_free(void *p) { ++ncfree; free(p); }
static void add_live(void *p, size_t sz, void *ctx) { struct mem *m = ctx; if (m->n < 24) m->b[m->n++] = (struct blk){p, sz, 1}; }
static metac_value_memory_map_mode_t mmode(int tree) { metac_value_memory_map_mode_t m = {0}; m.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; return m; }

static void check_free(metac_value_t *v, struct mem *m, const char *what) {
    nfreed = 0;
    ha_start(0, 0); metac_flag_t r = metac_value_free_ex(v, NULL, rec_free, tags); ha_stop(); h_ops(1);
    if (!r) { h_fail("%s: free reported failure", what); return; }
    if (ha_live()) h_fail("%s: free leaked %ld of its own blocks", what, ha_live());
    int owned = 0;
    for (int i = 0; i < m->n; ++i) owned += m->b[i].owned;
    for (int i = 0; i < nfreed; ++i) {
        int k = -1;
        for (int j = 0; j < m->n; ++j) if (m->b[j].p == freed[i]) k = j;
        if (k < 0) { int in = blk_of(m, freed[i], 0); h_fail("%s: free was called with %s", what, in < 0 ? "an address outside of the object" : "an interior address"); return; }
        if (!m->b[k].owned) { h_fail("%s: free was called for the top-level object itself", what); return; }
        for (int j = 0; j < i; ++j) if (freed[j] == freed[i]) { h_fail("%s: a block was freed twice", what); return; }
    }
    if (nfreed != owned) h_fail("%s: %d of %d owned blocks freed", what, nfreed, owned);
}
static void ops(struct graph *g, int do_copy, int do_free, int do_eq) {
    static char want[1 << 16]; uint64_t h[24]; int isbad;
    size_t tsz = g->t->size; char *dst = malloc(tsz);
    metac_value_t *vs = metac_new_value(g->e, g->top), *vd = metac_new_value(g->e, dst);
    snap(&g->m, h);
    { char *s = do_ser(&g->m, g->top, g->t, &isbad); if (isbad) { fprintf(stderr, "bad graph of the harness: %s\n", s); _Exit(3); } h_state(h_hash(H_HASH0, s, on)); }
    if (do_copy) for (int tree = 0; tree < 2 && !h_failed(); ++tree) {
        metac_value_memory_map_mode_t md = mmode(tree);
        memset(dst, 0xa7, tsz);
        if (tree) strcpy(want, do_unf(g->top, g->t)); else strcpy(want, do_ser(&g->m, g->top, g->t, &isbad));
        long blocks = 0; if (tree) blocks = unf_blocks; else for (int i = 0; i < g->m.n; ++i) blocks += g->m.b[i].owned;
        int custom = tree == 0;
        ncalloc = ncfree = 0;
        ha_start(0, 0);
        metac_value_t *r = metac_value_copy_ex(vs, vd, &md, custom ? cnt_calloc : NULL, custom ? cnt_free : NULL, tags);
        ha_stop(); h_ops(1);
        const char *nm = tree ? "tree copy" : "copy";
        unchanged(&g->m, h, nm);
        if (r != vd) { h_fail("%s failed (returned %s)", nm, r ? "another value" : "NULL"); if (ha_live()) h_log("%ld live", ha_live()); break; }
        if (ha_live() != blocks) { h_fail("%s left %ld blocks allocated, expected %ld", nm, ha_live(), blocks); break; }
        if (custom && (ncalloc != blocks || ncfree)) { h_fail("%s took %ld blocks from the given allocator and returned %ld, expected %ld and 0", nm, ncalloc, ncfree, blocks); break; }
        struct mem dm = {.n = 0}; dm.b[dm.n++] = (struct blk){dst, tsz, 0};
        if (!tree) {
            ha_each(add_live, &dm);
            char *s = do_ser(&dm, dst, g->t, &isbad);
            if (isbad) { h_fail("%s: a pointer of the copy leaves the copied memory: got %s, source %s", nm, s, want); break; }
            if (strcmp(s, want)) { h_fail("%s differs from the source: got %s, source %s", nm, s, want); break; }
        } else {
            char *s = do_unf(dst, g->t);
            if (strcmp(s, want)) { h_fail("%s differs from the source: got %s, source %s", nm, s, want); break; }
            for (int i = 0; i < unf_blocks && !h_failed(); ++i) if (!ha_is_live(ub[i].p) || ha_live_size(ub[i].p) < ub[i].n) h_fail("%s: a pointer of the copy does not lead to a block of its own", nm);
        }
        if (h_failed()) break;
        /* equal to its source, both ways, and releasable by one free */
        uint64_t hd[24]; snap(&dm, hd);
        int e1 = metac_value_equal_ex(vs, vd, &md, tags), e2 = metac_value_equal_ex(vd, vs, &md, tags); h_ops(2);
        if (e1 != 1 || e2 != 1) { h_fail("%s does not compare equal to its source: %d / %d", nm, e1, e2); break; }
        unchanged(&g->m, h, "comparison"); unchanged(&dm, hd, "comparison");
        /* ha table still describes the copy: count frees with the default free */
        extern void ha_resume(void); ha_resume();
        metac_flag_t fr = metac_value_free_ex(vd, NULL, NULL, tags); ha_stop(); h_ops(1);
        if (!fr) h_fail("freeing the copy failed");
        else if (ha_live()) h_fail("freeing the %s left %ld blocks", nm, ha_live());
        else if (ha_foreign_frees()) h_fail("freeing the %s released a block it does not own", nm);
        unchanged(&g->m, h, "freeing the copy");
    }
    if (do_free && !h_failed()) { check_free(vs, &g->m, "free"); unchanged(&g->m, h, "free"); }
    if (do_eq && !h_failed()) for (int tree = 0; tree < 2; ++tree) { metac_value_memory_map_mode_t md = mmode(tree); int r = metac_value_equal_ex(vs, vs, &md, tags); h_ops(1); if (r != 1) h_fail("%s comparison with itself: %d", tree ? "tree" : "dag", r); unchanged(&g->m, h, "comparison"); }
    metac_value_delete(vs); metac_value_delete(vd); free(dst);
}
/* the verdict the comparison has to give: 1 when the graphs are the same up to addresses, 0 when they differ to an observer that follows pointers, otherwise unspecified */
static int verdict(struct graph *a, struct graph *b) {
    static char s1[1 << 16]; int x, y; npr = 0;
    if (!bis(a->top, b->top, a->t)) return 0;
    strcpy(s1, do_ser(&a->m, a->top, a->t, &x)); h_state(h_hash(H_HASH0, s1, on)); char *s2 = do_ser(&b->m, b->top, b->t, &y);
    return x || y ? -1 : !strcmp(s1, s2) ? 1 : -1;
}
static void compare(struct graph *a, struct graph *b, const char *what) {
    int want = verdict(a, b);
    metac_value_t *va = metac_new_value(a->e, a->top), *vb = metac_new_value(b->e, b->top);
    uint64_t ha[24], hb[24]; snap(&a->m, ha); snap(&b->m, hb);
    for (int tree = 0; tree < 2 && !h_failed(); ++tree) {
        metac_value_memory_map_mode_t md = mmode(tree);
        ha_start(0, 0);
        int r1 = metac_value_equal_ex(va, vb, &md, tags), r2 = metac_value_equal_ex(vb, va, &md, tags);
        ha_stop(); h_ops(2);
        if (ha_live()) h_fail("%s: comparison leaked %ld blocks", what, ha_live());
        if (r1 < 0 || r2 < 0) h_fail("%s: comparison failed: %d / %d", what, r1, r2);
        else if (r1 != r2) h_fail("%s: comparison is not symmetric: %d / %d", what, r1, r2);
        else if (want >= 0 && r1 != want) h_fail("%s: %s comparison answered %d, expected %d", what, tree ? "tree" : "dag", r1, want);
        h_outcome("verdict %d%s", want, want < 0 ? (r1 ? " (said equal)" : " (said different)") : "");
        unchanged(&a->m, ha, "comparison"); unchanged(&b->m, hb, "comparison");
    }
    metac_value_delete(va); metac_value_delete(vb);
}

/* ---- family G: node graphs ---- */
struct gp { int n, inl; signed char a[4], b[4]; signed char w[4]; /* w: -1 NULL, -2 own int, 2*i node i's v, 2*i+1 node i's x */ int same, rev; };
static void gdesc(char *s, size_t sz, void *c) {
    struct gp *p = c; size_t l = (size_t)snprintf(s, sz, "%d node(s)%s%s:", p->n, p->inl ? ", the first one is the top-level object" : ", reached through a pointer", layn[lay]);
    for (int i = 0; i < p->n; ++i) {
        char w[16]; if (p->w[i] == -1) strcpy(w, "NULL"); else if (p->w[i] == -2) strcpy(w, "own int"); else snprintf(w, sizeof w, "&n%d.%c", p->w[i] / 2, p->w[i] % 2 ? 'x' : 'v');
        char a[8], b[8]; snprintf(a, 8, p->a[i] < 0 ? "NULL" : "n%d", p->a[i]); snprintf(b, 8, p->b[i] < 0 ? "NULL" : "n%d", p->b[i]);
        l += (size_t)snprintf(s + l, sz - l, " n%d{a=%s b=%s w=%s}", i, a, b, w);
    }
}
static void gbuild(struct gp *p, struct graph *g) {
    struct node *nd[4]; void **root = NULL;
    g->m.n = 0;
    if (p->inl) { g->top = nd[0] = mk(&g->m, sizeof(struct node), 0); g->t = &t_node; g->e = e_tnode; }
    else { root = mk(&g->m, sizeof(void *), 0); g->top = root; g->t = &t_pnode; g->e = e_rnode; }
    for (int k = 0; k < p->n; ++k) { int i = p->rev ? p->n - 1 - k : k; if (i > 0 || !p->inl) nd[i] = mk(&g->m, sizeof(struct node), 1); }
    if (root) *root = nd[0];
    for (int i = 0; i < p->n; ++i) {
        nd[i]->v = p->same ? 7 : 10 + i; nd[i]->x = p->same ? 7 : 20 + i; nd[i]->pad = (char)(p->same ? 1 : 2 + i);
        nd[i]->a = p->a[i] < 0 ? NULL : nd[p->a[i]]; nd[i]->b = p->b[i] < 0 ? NULL : nd[p->b[i]];
        if (p->w[i] == -1) nd[i]->w = NULL; else if (p->w[i] == -2) { nd[i]->w = mk(&g->m, sizeof(int), 1); *nd[i]->w = p->same ? 7 : 30 + i; }
        else nd[i]->w = p->w[i] % 2 ? &nd[p->w[i] / 2]->x : &nd[p->w[i] / 2]->v;
    }
}
/* all nodes reachable, discovered in index order (each shape once) */
static int gcanon(struct gp *p) {
    int q[4], qn = 1, next = 1; q[0] = 0;
    for (int h = 0; h < qn; ++h) for (int s = 0; s < 2; ++s) { int t = s ? p->b[q[h]] : p->a[q[h]]; if (t < 0 || t < next) continue; if (t != next) return 0; q[qn++] = next++; }
    return next == p->n;
}
typedef void (*gfn)(struct gp *);
/* wmask: nodes whose w is enumerated; others have NULL */
static void genum(int n, int inl, int wmask, int wkinds, gfn fn) {
    struct gp p = {.n = n, .inl = inl};
    long combos = 1; for (int i = 0; i < 2 * n; ++i) combos *= n + 1;
    for (long c = 0; c < combos; ++c) {
        long r = c;
        for (int i = 0; i < n; ++i) { p.a[i] = (signed char)(r % (n + 1) - 1); r /= n + 1; p.b[i] = (signed char)(r % (n + 1) - 1); r /= n + 1; }
        if (!gcanon(&p)) continue;
        int nw = wkinds ? wkinds : 2 + 2 * n; long wc = 1;
        for (int i = 0; i < n; ++i) if (wmask >> i & 1) wc *= nw;
        for (long w = 0; w < wc; ++w) {
            long q = w;
            for (int i = 0; i < n; ++i) if (wmask >> i & 1) { p.w[i] = (signed char)(q % nw - 2); q /= nw; } else p.w[i] = -1;
            fn(&p);
        }
    }
}
static int want_copy, want_free, want_eq;
static void g_ops(struct gp *p) { if (!h_begin_fn(gdesc, p)) return; struct graph g; gbuild(p, &g); ops(&g, want_copy, want_free, want_eq); drop(&g.m); h_end(); }
static struct gp *all; static long nall, call_;
static void g_collect(struct gp *p) { if (nall == call_) { call_ = call_ ? call_ * 2 : 1024; all = realloc(all, (size_t)call_ * sizeof *all); } all[nall++] = *p; }
static void pdesc(char *s, size_t sz, void *c) { struct gp **pp = c; char a[512], b[512]; gdesc(a, sizeof a, pp[0]); gdesc(b, sizeof b, pp[1]); snprintf(s, sz, "equal(%s | %s)", a, b); }
/* one graph and every single change of one slot */
static void mutations(struct graph *a, struct graph *b, const char *fam) {
    (void)fam;
    for (int i = 0; i < b->m.n && !h_failed(); ++i) for (size_t o = 0; o < b->m.b[i].size && !h_failed(); ++o) {
        /* every byte of every block: scalar, padding or part of a pointer (pointers are not changed bytewise) */
        unsigned char old = (unsigned char)b->m.b[i].p[o];
        int isptr = 0;
        for (int k = 0; k < b->m.n && !isptr; ++k) for (size_t s = 0; s + 8 <= b->m.b[i].size; s += 8) { void *pv; memcpy(&pv, b->m.b[i].p + s, 8); if (o >= s && o < s + 8 && pv && blk_of(&b->m, pv, 0) >= 0) isptr = 1; }
        if (isptr) continue;
        for (int bit = 0; bit < 8; bit += h_thorough ? 5 : 8) {
            b->m.b[i].p[o] = (char)(old ^ (1 << bit));
            void *pv; size_t s = o & ~(size_t)7; int wild = 0;
            if (s + 8 <= b->m.b[i].size) { memcpy(&pv, b->m.b[i].p + s, 8); void *ov = NULL; b->m.b[i].p[o] = (char)old; memcpy(&ov, b->m.b[i].p + s, 8); b->m.b[i].p[o] = (char)(old ^ (1 << bit)); wild = ov == NULL; }
            int nb = 0; if (!wild) do_ser(&b->m, b->top, b->t, &nb);
            if (!wild && !nb) { char w[64]; snprintf(w, sizeof w, "block %d byte %zu bit %d changed", i, o, bit); compare(a, b, w); }
            b->m.b[i].p[o] = (char)old;
        }
    }
}
static void g_mut(struct gp *p) {
    if (!h_begin_fn(gdesc, p)) return;
    struct graph a, b; struct gp q = *p; q.rev = 1; gbuild(p, &a); gbuild(&q, &b);
    for (int i = 0; i < b.m.n; ++i) (void)0;
    compare(&a, &b, "same graph built in another order");
    if (!h_failed()) mutations(&a, &b, "node");
    /* every pointer redirected to every node */
    for (int i = 0; i < p->n && !h_failed(); ++i) for (int s = 0; s < 2; ++s) for (int t = -1; t < p->n; ++t) {
        q = *p; if (s) q.b[i] = (signed char)t; else q.a[i] = (signed char)t;
        drop(&b.m); gbuild(&q, &b); char w[64]; snprintf(w, sizeof w, "n%d.%c -> %d", i, s ? 'b' : 'a', t);
        if (!h_failed()) compare(&a, &b, w);
    }
    drop(&a.m); drop(&b.m); h_end();
}

/* ---- family S: slices of arrays ---- */
struct sp { int i, n, j, m, sep; signed char link[3]; };
static void sdesc(char *s, size_t sz, void *c) { struct sp *p = c; char q[64] = "NULL"; if (p->sep == 1) snprintf(q, 64, "own[%d]", p->m); else if (p->sep == 0) snprintf(q, 64, "arr[%d..%d)", p->j, p->j + p->m); snprintf(s, sz, "p=arr[%d..%d) q=%s links %d,%d,%d%s", p->i, p->i + p->n, q, p->link[0], p->link[1], p->link[2], layn[lay]); }
static void sbuild(struct sp *p, struct graph *g) {
    g->m.n = 0; struct slices *t = mk(&g->m, sizeof *t, 0); g->top = t; g->t = &t_slices; g->e = e_slices;
    int end = p->i + p->n; if (p->sep == 0 && p->j + p->m > end) end = p->j + p->m;
    struct elem *ar = end ? mk(&g->m, sizeof(struct elem) * (size_t)end, 1) : mk(&g->m, 1, 1);
    struct elem *o = NULL; if (p->sep == 1) o = p->m ? mk(&g->m, sizeof(struct elem) * (size_t)p->m, 1) : mk(&g->m, 1, 1);
    t->n = (unsigned char)p->n; t->m = (unsigned char)p->m; t->p = ar + p->i; t->q = p->sep == 2 ? NULL : p->sep == 1 ? o : ar + p->j;
    for (int k = 0; k < end; ++k) { ar[k].s = (short)(k + 1); ar[k].link = p->link[k] < 0 ? NULL : ar + p->link[k]; }
    for (int k = 0; o && k < p->m; ++k) { o[k].s = (short)(k + 5); o[k].link = p->link[k] < 0 || p->link[k] >= end ? NULL : ar + p->link[k]; }
}
static void senum(void (*fn)(struct sp *)) {
    struct sp p; int K = 3;
    for (p.sep = 0; p.sep < 3; ++p.sep) for (p.i = 0; p.i <= K; ++p.i) for (p.n = 0; p.i + p.n <= K; ++p.n) for (p.j = 0; p.j <= K; ++p.j) for (p.m = 0; p.j + p.m <= K; ++p.m) {
        int end = p.i + p.n;
        if (p.sep) { if (p.j || p.i) continue; if (p.sep == 2 && p.m) continue; }
        else {
            /* the block is known by its beginning and each further slice starts inside what is known of it */
            int lo = p.i < p.j ? p.i : p.j, lon = p.i < p.j ? p.n : p.i > p.j ? p.m : p.n > p.m ? p.n : p.m, hi = p.i < p.j ? p.j : p.i;
            if (lo) continue;
            if (hi && hi >= lon) continue;
            if (p.j + p.m > end) end = p.j + p.m;
            if (!end) continue;
        }
        long lc = 1; for (int k = 0; k < 3; ++k) lc *= end + 1;
        for (long c = 0; c < lc; ++c) { long r = c; for (int k = 0; k < 3; ++k) { p.link[k] = (signed char)(r % (end + 1) - 1); r /= end + 1; } int skip = 0; for (int k = end; k < 3; ++k) if (p.link[k] != -1 && !(p.sep == 1 && k < p.m)) skip = 1; if (!skip) fn(&p); }
    }
}
static void s_ops(struct sp *p) { if (!h_begin_fn(sdesc, p)) return; struct graph g; sbuild(p, &g); ops(&g, want_copy, want_free, want_eq); drop(&g.m); h_end(); }
static void s_mut(struct sp *p) { if (!h_thorough && p->link[0] != p->link[1] && p->link[1] != p->link[2]) return; if (!h_begin_fn(sdesc, p)) return; struct graph a, b; sbuild(p, &a); sbuild(p, &b); compare(&a, &b, "built twice"); if (!h_failed()) mutations(&a, &b, "slices"); drop(&a.m); drop(&b.m); h_end(); }

/* ---- family V: unions, strings, flexible arrays, arrays, pointers to pointers and to arrays ---- */
struct vp { int sel, s, pp, pa, n, lk, u; };
static void vdesc(char *s, size_t sz, void *c) { struct vp *p = c; snprintf(s, sz, "var sel=%d(ptr %d) s=%d pp=%d pa=%d flex=%d links=%d%s", p->sel, p->u, p->s, p->pp, p->pa, p->n, p->lk, layn[lay]); }
static void vbuild(struct vp *p, struct graph *g) {
    static const char *const str[] = {NULL, "", "x", "ab", "q\n\x80z"};
    g->m.n = 0; struct var **r = mk(&g->m, sizeof *r, 0); g->top = r; g->t = &t_pvar; g->e = e_rvar;
    struct var *v = *r = mk(&g->m, offsetof(struct var, fl) + sizeof(struct elem) * (size_t)p->n > sizeof(struct var) ? offsetof(struct var, fl) + sizeof(struct elem) * (size_t)p->n : sizeof(struct var), 1);
    v->sel = p->sel; v->ns = 77; v->bf1 = 5; v->bf2 = 99; v->n = (short)p->n;
    v->s = str[p->s] ? strcpy(mk(&g->m, strlen(str[p->s]) + 1, 1), str[p->s]) : NULL;
    struct elem *own = NULL;
    v->arr[0].s = 1; v->arr[1].s = 2; v->arr[0].link = v->arr[1].link = NULL;
    for (int i = 0; i < p->n; ++i) { v->fl[i].s = (short)(50 + i); v->fl[i].link = NULL; }
    switch (p->lk) {
    case 1: v->arr[0].link = &v->arr[1]; break;
    case 2: v->arr[1].link = &v->arr[1]; v->arr[0].link = &v->arr[1]; break;
    case 3: own = v->arr[0].link = mk(&g->m, sizeof *own, 1); own->s = 9; own->link = &v->arr[0]; v->arr[1].link = own; break;
    case 4: if (p->n) { v->arr[0].link = &v->fl[p->n - 1]; v->fl[0].link = &v->arr[1]; } break;
    case 5: if (p->n) { own = v->fl[p->n - 1].link = mk(&g->m, sizeof *own, 1); own->s = 9; own->link = own; v->arr[1].link = own; } break;
    }
    switch (p->sel) {
    case 0: v->u.i = -3; break;
    case 1: v->u.pe = p->u == 0 ? NULL : p->u == 1 ? &v->arr[1] : p->u == 2 ? (own ? own : &v->arr[0]) : mk(&g->m, sizeof(struct elem), 1); if (p->u == 3) { v->u.pe->s = 4; v->u.pe->link = p->n ? &v->fl[0] : NULL; } break;
    case 2: memcpy(v->u.c, "w\0yz", 4); break;
    case 7: v->u.st.k = 6; v->u.st.pn = NULL; if (p->u) { v->u.st.pn = mk(&g->m, sizeof(struct node), 1); *v->u.st.pn = (struct node){.v = 1, .x = 2, .pad = 3}; v->u.st.pn->a = p->u == 2 ? v->u.st.pn : NULL; v->u.st.pn->w = p->u == 3 ? &v->u.st.pn->x : NULL; v->u.st.pn->b = NULL; } break;
    }
    v->pp = NULL; v->pa = NULL;
    if (p->pp) { v->pp = mk(&g->m, sizeof(int *), 1); *v->pp = p->pp == 1 ? NULL : p->pp == 2 ? &v->ns : mk(&g->m, sizeof(int), 1); if (p->pp == 3) **v->pp = 8; }
    if (p->pa) { v->pa = mk(&g->m, sizeof(int[2]), 1); (*v->pa)[0] = 3; (*v->pa)[1] = 4; if (p->pa == 2 && v->pp && p->pp == 1) *v->pp = &(*v->pa)[1]; }
}
static void venum(void (*fn)(struct vp *), int full) {
    struct vp p; static const int sels[] = {0, 1, 2, 7};
    for (int s = 0; s < 4; ++s) for (p.u = 0; p.u < (sels[s] & 1 ? 4 : 1); ++p.u) for (p.s = 0; p.s < 5; ++p.s) for (p.pp = 0; p.pp < 4; ++p.pp) for (p.pa = 0; p.pa < 3; ++p.pa) for (p.n = 0; p.n < (full ? 4 : 3); ++p.n) for (p.lk = 0; p.lk < 6; ++p.lk) { p.sel = sels[s]; fn(&p); }
}
static void v_ops(struct vp *p) { if (!h_begin_fn(vdesc, p)) return; struct graph g; vbuild(p, &g); ops(&g, want_copy, want_free, want_eq); drop(&g.m); h_end(); }
static void v_mut(struct vp *p) {
    if ((p->s + p->pp + p->pa + p->n + p->lk + p->u) % (h_thorough ? 1 : 4)) return;
    if (!h_begin_fn(vdesc, p)) return;
    struct graph a, b; vbuild(p, &a); vbuild(p, &b); compare(&a, &b, "built twice");
    /* change every scalar, string and selector through the reference, one at a time */
    struct var *v = *(struct var **)b.top;
#define TRY(st, w) do { if (!h_failed()) { struct vp q = *p; (void)q; st; compare(&a, &b, w); drop(&b.m); vbuild(p, &b); v = *(struct var **)b.top; } } while (0)
    TRY(v->ns ^= 1 << 20, "ns"); TRY(v->bf1 = 4, "bf1"); TRY(v->bf2 ^= 64, "bf2"); TRY(v->arr[0].s++, "arr[0].s"); TRY(v->arr[1].s++, "arr[1].s");
    TRY(if (p->n) v->fl[0].s++, "fl[0].s"); TRY(if (p->n) v->fl[p->n - 1].s++, "last fl"); TRY(if (p->n) { v->n--; }, "n");
    TRY(if (v->s && *v->s) v->s[strlen(v->s) - 1] ^= 1, "string"); TRY(if (v->s && *v->s) v->s[strlen(v->s) - 1] = 0, "string length"); TRY(v->s = NULL, "string NULL");
    TRY(if (p->sel == 0) v->u.i ^= 1 << 31, "u.i"); TRY(if (p->sel == 2) v->u.c[3] ^= 1, "u.c[3]"); TRY(if (p->sel == 7) v->u.st.k ^= 1, "u.st.k"); TRY(if (p->sel == 7 && v->u.st.pn) v->u.st.pn->x ^= 1, "node"); TRY(if (p->sel == 1 && p->u == 3) v->u.pe->s ^= 1, "u.pe->s");
    TRY(if (v->pp && *v->pp && p->pp == 3) **v->pp ^= 1, "**pp"); TRY(if (v->pp) *v->pp = NULL, "*pp NULL"); TRY(v->pp = NULL, "pp NULL"); TRY(if (v->pa) (*v->pa)[1]++, "pa[1]"); TRY(if (v->pa) (*v->pa)[0]++, "pa[0]"); TRY(v->pa = NULL, "pa NULL");
    TRY(v->arr[0].link = NULL, "link0 NULL"); TRY(v->arr[1].link = NULL, "link1 NULL"); TRY(v->arr[0].link = &v->arr[0], "link0 self"); TRY(v->arr[1].link = &v->arr[0], "link1 arr0");
    TRY(if (p->sel == 0) { v->sel = 2; }, "selector");
    drop(&a.m); drop(&b.m); h_end();
}

/* ---- family L: lists of items linked through an inner member ---- */
struct lp { int n, end, names, direct, ty; };
static void ldesc(char *s, size_t sz, void *c) { struct lp *p = c; snprintf(s, sz, "list of %d (link at %zu), last->%d, names %d, direct %d%s", p->n, lt[p->ty].l, p->end, p->names, p->direct, layn[lay]); }
static void lbuild(struct lp *p, struct graph *g) {
    struct top { long z; char *first, *direct; }; g->m.n = 0; struct top *t = mk(&g->m, sizeof *t, 0); g->top = t; g->t = lt[p->ty].lst; g->e = e_lst[p->ty]; char *x[4], *pn = NULL; size_t lo = lt[p->ty].l;
    t->z = -1; t->first = NULL; t->direct = NULL;
    for (int i = 0; i < p->n; ++i) {
        x[i] = mk(&g->m, lt[p->ty].it->size, 1); short v = (short)(i + 1); memcpy(x[i] + lt[p->ty].v, &v, 2);
        int nm = p->names >> (2 * i) & 3; char *s = NULL; if (nm) { s = nm == 3 && i ? pn : mk(&g->m, (size_t)nm, 1); if (s && !(nm == 3 && i)) { memset(s, 'k', (size_t)nm); s[nm - 1] = 0; } }
        memcpy(x[i] + lt[p->ty].name, &s, 8); pn = s;
    }
    for (int i = 0; i < p->n; ++i) { char *nx = i + 1 < p->n ? x[i + 1] + lo : p->end < 0 ? NULL : x[p->end] + lo; memcpy(x[i] + lo, &nx, 8); }
    if (p->n) t->first = x[0] + lo;
    if (p->direct >= 0) t->direct = x[p->direct];
}
static void lenum(void (*fn)(struct lp *), int max) { struct lp p; for (p.ty = 0; p.ty < NLT; ++p.ty) for (p.n = 0; p.n <= (p.ty == 1 ? max : max - 1); ++p.n) for (p.end = -1; p.end < p.n; ++p.end) for (p.direct = -1; p.direct < p.n; ++p.direct) for (p.names = 0; p.names < 1 << (2 * p.n); ++p.names) fn(&p); }
static void l_ops(struct lp *p) { if (!h_begin_fn(ldesc, p)) return; struct graph g; lbuild(p, &g); ops(&g, want_copy, want_free, want_eq); drop(&g.m); h_end(); }
static void l_mut(struct lp *p) { if (!h_begin_fn(ldesc, p)) return; struct graph a, b; lbuild(p, &a); lbuild(p, &b); compare(&a, &b, "built twice"); for (int e = -1; e < p->n && !h_failed(); ++e) { struct lp q = *p; q.end = e; drop(&b.m); lbuild(&q, &b); compare(&a, &b, "other end"); } if (p->n && !h_failed()) { struct lp q = *p; q.names ^= 1; drop(&b.m); lbuild(&q, &b); compare(&a, &b, "other name"); } drop(&a.m); drop(&b.m); h_end(); }

/* ---- family K: untyped pointers with a described type and count ---- */
struct kp { int kind, cnt, self; };
static void kdesc(char *s, size_t sz, void *c) { struct kp *p = c; snprintf(s, sz, "void* of kind %d, %d element(s), links %d%s", p->kind, p->cnt, p->self, layn[lay]); }
static void kbuild(struct kp *p, struct graph *g) {
    g->m.n = 0; struct cast *t = mk(&g->m, sizeof *t, 0); g->top = t; g->t = &t_cast; g->e = e_cast; t->kind = (unsigned char)p->kind; t->cnt = (unsigned char)p->cnt; t->p = NULL;
    if (p->cnt < 0) { t->cnt = 3; return; }
    if (p->kind) { int *a = mk(&g->m, sizeof(int) * (size_t)p->cnt + !p->cnt, 1); for (int i = 0; i < p->cnt; ++i) a[i] = i * 3; t->p = a; }
    else { struct elem *a = mk(&g->m, sizeof(*a) * (size_t)p->cnt + !p->cnt, 1); for (int i = 0; i < p->cnt; ++i) { a[i].s = (short)i; a[i].link = p->self == 0 ? NULL : p->self == 1 ? &a[i] : &a[0]; } t->p = a; }
}
static void kenum(void (*fn)(struct kp *)) { struct kp p; for (p.kind = 0; p.kind < 2; ++p.kind) for (p.cnt = -1; p.cnt < 4; ++p.cnt) for (p.self = 0; p.self < 3; ++p.self) fn(&p); }
static void k_ops(struct kp *p) { if (!h_begin_fn(kdesc, p)) return; struct graph g; kbuild(p, &g); ops(&g, want_copy, want_free, want_eq); drop(&g.m); h_end(); }
static void k_mut(struct kp *p) { if (!h_begin_fn(kdesc, p)) return; struct graph a, b; kbuild(p, &a); kbuild(p, &b); compare(&a, &b, "built twice"); if (!h_failed()) mutations(&a, &b, "cast"); drop(&a.m); drop(&b.m); h_end(); }

void h_main_enumerate(void) {
    tags = new_tags();
    e_rnode = METAC_GSYM_LINK_ENTRY(root_node); e_tnode = METAC_GSYM_LINK_ENTRY(top_node); e_slices = METAC_GSYM_LINK_ENTRY(top_slices); e_rvar = METAC_GSYM_LINK_ENTRY(root_var); e_cast = METAC_GSYM_LINK_ENTRY(top_cast);
#define LE(i, PRE, POST, PATH) e_lst[i] = METAC_GSYM_LINK_ENTRY(top_lst##i);
    LISTS(LE)
    if (!tags || !e_rnode || !e_cast) { fprintf(stderr, "reflection data not found\n"); if (h_begin("reflection of the harness")) { h_fail("tags or entries not found"); h_end(); } return; }
    want_copy = !strcmp(h_mode, "copy"); want_free = !strcmp(h_mode, "free"); want_eq = !strcmp(h_mode, "equal");
    if (want_copy || want_free) {
        for (int inl = 0; inl < 2; ++inl) { for (int n = 1; n <= 2; ++n) genum(n, inl, -1, 0, g_ops); genum(3, inl, h_thorough ? 7 : inl ? 1 : 4, 0, g_ops); if (h_thorough) genum(4, inl, 8, 0, g_ops); }
        senum(s_ops); venum(v_ops, h_thorough); lenum(l_ops, h_thorough ? 4 : 3); kenum(k_ops);
        for (lay = 1; lay < 3; ++lay) {
            for (int inl = 0; inl < 2; ++inl) { for (int n = 1; n <= 2; ++n) genum(n, inl, -1, 0, g_ops); genum(3, inl, h_thorough ? 5 : 4, h_thorough ? 0 : 2, g_ops); }
            senum(s_ops); venum(v_ops, 0); lenum(l_ops, h_thorough ? 3 : 2); kenum(k_ops);
        }
        lay = 0;
    } else if (want_eq) {
        for (int inl = 0; inl < 2; ++inl) {
            nall = 0; genum(1, inl, -1, 0, g_collect); genum(2, inl, h_thorough ? 3 : 2 - inl, h_thorough ? 0 : 4, g_collect);
            for (long i = 0; i < nall; ++i) for (long j = i; j < nall; ++j) {
                struct gp p = all[i], q = all[j]; p.same = q.same = 1; q.rev = 1; struct gp *pp[2] = {&p, &q};
                if (!h_begin_fn(pdesc, pp)) continue;
                struct graph a, b; gbuild(&p, &a); gbuild(&q, &b); compare(&a, &b, "pair"); drop(&a.m); drop(&b.m); h_end();
            }
            genum(1, inl, -1, 0, g_mut); genum(2, inl, h_thorough ? -1 : 2 - inl, 0, g_mut); genum(3, inl, h_thorough ? 5 : 0, 0, g_mut);
        }
        senum(s_mut); venum(v_mut, 0); lenum(l_mut, h_thorough ? 4 : 3); kenum(k_mut);
        for (lay = 1; lay < 3; ++lay) { for (int inl = 0; inl < 2; ++inl) { genum(1, inl, -1, 0, g_mut); genum(2, inl, h_thorough ? -1 : 0, 0, g_mut); } lenum(l_mut, 2); kenum(k_mut); }
        lay = 0;
    }
}
