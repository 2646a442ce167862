/* P03/P04/P05/P08: the same operations on long and wide object graphs: every shape x every size of a list around the limits of
 * small counters, tables and tables that grow. The shape is a formula, so that every pointer of a result has exactly one right value. */
#include "h.h"
#include "metac/reflect.h"
#include <sys/mman.h>
struct bn { int v; struct bn *a; struct bn *b; short x; short *w; };
struct wide { long n; struct bn **s; };
struct bn *root; METAC_GSYM_LINK(root);
struct wide wide_v; METAC_GSYM_LINK(wide_v);
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member),},)
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct wide)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "s"}), METAC_COUNT_BY(n))
    METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_END
extern void ha_resume(void);
static metac_tag_map_t *tags;
enum { CHAIN, RING, LASSO, BACK, FIRST, SELF, DOUBLY, OWNX, NEXTX, SHORTS, W_OWN, W_PAIRS, W_FEW, W_PREVX, W_MUTUAL, NSH };
static const char *const shn[] = {"chain", "ring", "chain back to its middle", "chain back to its last but one", "chain, all refer to the first", "chain ending in itself", "doubly linked chain", "chain with pointers into the same node", "chain with pointers into the next node", "chain with separate numbers",
    "array of pointers", "array of pointers, two share a node each", "array of pointers to 7 nodes", "array of pointers with pointers into the previous node", "array of pointers, neighbours refer to each other"};
#define WIDE(s) ((s) >= W_OWN)
struct g { int far, sh; long n, k; struct bn **nd; short **own; struct bn *root; struct wide wide; }; /* n slots, k nodes */
static long nodes(int sh, long n) { return sh == W_PAIRS ? (n + 1) / 2 : sh == W_FEW ? (n < 7 ? n : 7) : n; }
static long slot(int sh, long i) { return sh == W_PAIRS ? i / 2 : sh == W_FEW ? i % 7 : i; }
static long fa(int sh, long k, long i) { /* where a of node i leads: -1 NULL */
    if (sh == W_MUTUAL) return (i ^ 1) < k ? (i ^ 1) : -1;
    if (WIDE(sh)) return -1;
    if (i + 1 < k) return i + 1;
    return sh == RING ? 0 : sh == LASSO ? k / 2 : sh == BACK ? (k > 1 ? k - 2 : 0) : sh == SELF ? k - 1 : -1;
}
static long fb(int sh, long i) { return sh == FIRST ? 0 : sh == DOUBLY ? i - 1 : -1; }
/* w: -1 NULL, -2 separate number, otherwise x of that node */
static long fw(int sh, long k, long i) { return sh == OWNX ? i : sh == NEXTX ? (i + 1 < k ? i + 1 : -1) : sh == SHORTS ? -2 : sh == W_PREVX ? (i ? i - 1 : -1) : -1; }
static int far_on; static char *far_at[2]; /* objects that lie a multiple of 4 GiB apart: equal low halves of their addresses */
#define FARN 10
static struct bn *far_node(int set, long i) {
    if (!far_at[set]) { char *p = mmap(NULL, (size_t)(FARN + 1) << 32, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("SETUP mmap"); exit(3); } far_at[set] = p; for (long j = 0; j < FARN; ++j) if (mprotect(p + (j << 32), 4096, PROT_READ | PROT_WRITE)) { perror("SETUP mprotect"); exit(3); } }
    return (struct bn *)(far_at[set] + (i << 32) + 64);
}
static void build(struct g *g, int sh, long n, int rev) {
    memset(g, 0, sizeof *g); g->sh = sh; g->far = far_on; g->n = n; g->k = nodes(sh, n); g->nd = calloc((size_t)g->k, sizeof *g->nd); g->own = calloc((size_t)g->k, sizeof *g->own);
    for (long j = 0; j < g->k; ++j) { long i = rev ? g->k - 1 - j : j; g->nd[i] = far_on ? far_node(rev, i) : malloc(sizeof(struct bn)); memset(g->nd[i], 0x3c + rev, sizeof(struct bn)); if (fw(sh, g->k, i) == -2) { g->own[i] = malloc(2); *g->own[i] = (short)(i * 3 + 1); } }
    for (long i = 0; i < g->k; ++i) { struct bn *p = g->nd[i]; long a = fa(sh, g->k, i), b = fb(sh, i), w = fw(sh, g->k, i); p->v = (int)(1000 + i); p->x = (short)(i * 5); p->a = a < 0 ? NULL : g->nd[a]; p->b = b < 0 ? NULL : g->nd[b]; p->w = w == -1 ? NULL : w == -2 ? g->own[i] : &g->nd[w]->x; }
    if (WIDE(sh)) { g->wide.n = n; g->wide.s = malloc(sizeof(void *) * (size_t)n); for (long i = 0; i < n; ++i) g->wide.s[i] = g->nd[slot(sh, i)]; } else g->root = g->nd[0];
}
static void drop(struct g *g) { for (long i = 0; i < g->k; ++i) { if (!g->far) free(g->nd[i]); free(g->own[i]); } free(g->nd); free(g->own); free(g->wide.s); }
static metac_value_t *val(struct g *g) { return WIDE(g->sh) ? metac_new_value(METAC_GSYM_LINK_ENTRY(wide_v), &g->wide) : metac_new_value(METAC_GSYM_LINK_ENTRY(root), &g->root); }
static long separate(struct g *g) { long r = 0; for (long i = 0; i < g->k; ++i) r += g->own[i] != NULL; return r; }
static int mine(void *p, size_t n) { return p && ha_is_live(p) && ha_live_size(p) >= n; }
/* the copy at root/wide has the shape of g; what it consists of is alive in the allocation table */
static void same(struct g *g, struct bn *r, struct wide *wd, int tree) {
    struct bn **d = calloc((size_t)g->k, sizeof *d); long blocks;
    if (WIDE(g->sh)) {
        blocks = 1;
        if (wd->n != g->n || !mine(wd->s, sizeof(void *) * (size_t)g->n)) h_fail("the array was not copied");
        else if (!tree) { for (long i = 0; i < g->n && !h_failed(); ++i) { long s = slot(g->sh, i); if (!d[s]) d[s] = wd->s[i]; else if (d[s] != wd->s[i]) h_fail("element %ld does not share its node", i); } }
        else for (long i = 0; i < g->n && !h_failed(); ++i) {
            struct bn *q = wd->s[i], *o = g->nd[slot(g->sh, i)]; ++blocks;
            if (!mine(q, sizeof *q)) { h_fail("element %ld has no node of its own", i); break; }
            if (q->v != o->v || q->x != o->x || !q->a != !o->a || q->b || !q->w != !o->w) { h_fail("element %ld differs", i); break; }
            if (q->a) { ++blocks; if (!mine(q->a, sizeof *q) || q->a->v != o->a->v || q->a->x != o->a->x || q->a->a != q) h_fail("the neighbour of element %ld differs", i); }
            if (q->w) { ++blocks; if (!mine(q->w, 2) || *q->w != *o->w) h_fail("the number of element %ld differs", i); }
        }
    } else {
        blocks = 0; struct bn *q = r;
        for (long i = 0; i < g->k && !h_failed(); ++i) { if (!mine(q, sizeof *q)) { h_fail("node %ld was not copied", i); break; } d[i] = q; q = q->a; }
    }
    if (!(WIDE(g->sh) && tree)) {
        for (long i = 0; i < g->k && !h_failed(); ++i) {
            struct bn *p = d[i]; long a = fa(g->sh, g->k, i), b = fb(g->sh, i), w = fw(g->sh, g->k, i); ++blocks;
            if (!mine(p, sizeof *p)) { h_fail("node %ld was not copied", i); break; }
            if (p->v != 1000 + i || p->x != (short)(i * 5)) h_fail("node %ld has other contents", i);
            else if (p->a != (a < 0 ? NULL : d[a])) h_fail("a of node %ld leads elsewhere", i);
            else if (p->b != (b < 0 ? NULL : d[b])) h_fail("b of node %ld leads elsewhere", i);
            else if (w == -1 ? p->w != NULL : w == -2 || tree ? !mine(p->w, 2) || *p->w != *g->nd[i]->w : p->w != &d[w]->x) h_fail("w of node %ld leads elsewhere", i);
            if (w == -2 || (w >= 0 && tree)) ++blocks;
        }
        for (long i = 1; i < g->k && !h_failed(); ++i) for (long j = i > 3 ? i - 3 : 0; j < i; ++j) if (d[i] == d[j]) h_fail("nodes %ld and %ld are the same", i, j);
    }
    if (!h_failed() && ha_live() != blocks) h_fail("%ld blocks allocated, expected %ld", ha_live(), blocks);
    free(d);
}
static void **fr; static long nfr, cfr; static void rec(void *p) { if (nfr < cfr) fr[nfr] = p; ++nfr; }
static int cmp(const void *a, const void *b) { return *(void *const *)a < *(void *const *)b ? -1 : *(void *const *)a > *(void *const *)b; }
static uint64_t sum(struct g *g) { uint64_t h = H_HASH0; for (long i = 0; i < g->k; ++i) { h = h_hash(h, g->nd[i], sizeof(struct bn)); if (g->own[i]) h = h_hash(h, g->own[i], 2); } if (g->wide.s) h = h_hash(h, g->wide.s, sizeof(void *) * (size_t)g->n); return h; }
static void one(int sh, long n) {
    int copy = !strcmp(h_mode, "copy"), eq = !strcmp(h_mode, "equal"), fre = !strcmp(h_mode, "free");
    if (!h_begin("%s, %ld %s%s", shn[sh], n, WIDE(sh) ? "elements" : "nodes", far_on ? " 4 GiB apart" : "")) return;
    struct g g; build(&g, sh, n, 0); metac_value_t *v = val(&g); uint64_t h0 = sum(&g); h_state(h0);
    for (int tree = 0; tree < 2 && (copy || eq) && !h_failed(); ++tree) {
        metac_value_memory_map_mode_t md = {0}; md.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; h_outcome("%s %s", h_mode, tree ? "tree" : "dag");
        if (copy) {
            struct bn *r = (void *)0x77; struct wide wd; memset(&wd, 0x77, sizeof wd); metac_value_t *d = WIDE(sh) ? metac_new_value(METAC_GSYM_LINK_ENTRY(wide_v), &wd) : metac_new_value(METAC_GSYM_LINK_ENTRY(root), &r);
            ha_start(0, 0); metac_value_t *c = metac_value_copy_ex(v, d, &md, NULL, NULL, tags); ha_stop(); h_ops(1);
            if (c != d) h_fail("%s copy failed", tree ? "tree" : "dag"); else same(&g, r, &wd, tree);
            if (h0 != sum(&g)) h_fail("copy modified its source");
            if (!h_failed()) { int e = metac_value_equal_ex(v, d, &md, tags); h_ops(1); if (e != 1) h_fail("the %s copy does not compare equal: %d", tree ? "tree" : "dag", e); ha_resume(); metac_flag_t f = metac_value_free_ex(d, NULL, NULL, tags); ha_stop(); if (!f || ha_live() || ha_foreign_frees()) h_fail("the %s copy was not freed exactly: %ld left", tree ? "tree" : "dag", ha_live()); }
            metac_value_delete(d);
        } else {
            struct g q; build(&q, sh, n, 1); metac_value_t *u = val(&q); long at[] = {0, 1, g.k / 2, g.k - 2, g.k - 1};
            ha_start(0, 0);
            int e = metac_value_equal_ex(v, u, &md, tags), e2 = metac_value_equal_ex(v, v, &md, tags); h_ops(2); if (e != 1 || e2 != 1) h_fail("equal graphs: answered %d, itself %d", e, e2);
            for (int i = 0; i < 5 && !h_failed(); ++i) { if (at[i] < 0 || at[i] >= g.k || (n > 50 && i != 4)) continue; struct bn *p = q.nd[at[i]];
                p->v ^= 1; e = metac_value_equal_ex(v, u, &md, tags); p->v ^= 1; if (e != 0) h_fail("node %ld differs: answered %d", at[i], e);
                if (p->w && i == 4) { short *w = p->w; p->w = NULL; e = metac_value_equal_ex(u, v, &md, tags); p->w = w; if (e != 0) h_fail("w of node %ld is NULL: answered %d", at[i], e); }
                struct bn *a = p->a; if (i == 4) { p->a = a ? NULL : p; e = metac_value_equal_ex(v, u, &md, tags); p->a = a; if (e != 0) h_fail("a of the last node is %s: answered %d", a ? "NULL" : "itself", e); }
                h_ops(1);
            }
            /* one more or one less */
            int fo = far_on; far_on = 0; struct g s; build(&s, sh, n + 1, 0); far_on = fo; metac_value_t *t = val(&s); e = metac_value_equal_ex(v, t, &md, tags); e2 = metac_value_equal_ex(t, v, &md, tags); if (e != 0 || e2 != 0) h_fail("one more: answered %d / %d", e, e2); metac_value_delete(t); drop(&s);
            if (h0 != sum(&g)) h_fail("comparison modified its operand");
            metac_value_delete(u); drop(&q); if (ha_live()) h_fail("comparison leaked %ld blocks", ha_live()); ha_stop();
        }
    }
    if (fre) {
        long want = g.k + separate(&g) + (WIDE(sh) ? 1 : 0); cfr = want + 8; fr = calloc((size_t)cfr, sizeof *fr); nfr = 0; h_outcome("free");
        ha_start(0, 0); metac_flag_t r = metac_value_free_ex(v, NULL, rec, tags); h_ops(1); if (ha_live()) h_fail("free leaked %ld of its own blocks", ha_live()); ha_stop();
        if (!r) h_fail("free failed"); else if (nfr != want) h_fail("%ld blocks freed, expected %ld", nfr, want);
        else {
            void **ex = calloc((size_t)want, sizeof *ex); long m = 0; for (long i = 0; i < g.k; ++i) { ex[m++] = g.nd[i]; if (g.own[i]) ex[m++] = g.own[i]; } if (WIDE(sh)) ex[m++] = g.wide.s;
            qsort(ex, (size_t)want, sizeof *ex, cmp); qsort(fr, (size_t)want, sizeof *fr, cmp); if (memcmp(ex, fr, sizeof *ex * (size_t)want)) h_fail("another set of addresses was freed"); free(ex);
        }
        if (h0 != sum(&g)) h_fail("free modified the object"); free(fr);
    }
    if (!strcmp(h_mode, "text")) {
        int cyc = sh == RING || sh == LASSO || sh == BACK || sh == FIRST || sh == SELF || (sh == DOUBLY && n > 1) || (sh == W_MUTUAL && n > 1);
        ha_start(0, 0); char *s = metac_value_string_ex(v, METAC_WMODE_deep, tags); h_ops(1); h_outcome("%s", s ? "text" : "refused");
        if (cyc ? s != NULL : !s) h_fail("%s", s ? "a cycle was printed" : "no text");
        if (s && !cyc) { long c = 0, bad = 0; for (char *q = s; (q = strstr(q, ".v = ")) != NULL; q += 5) { long e = 1000 + (WIDE(sh) ? slot(sh, c) : c); if (strtol(q + 5, NULL, 10) != e) ++bad; ++c; } if (c != n || bad) h_fail("%ld of %ld nodes are printed, %ld of them wrong", c, n, bad); ha_forget(s); }
        if (ha_live()) h_fail("%ld blocks are left", ha_live()); ha_stop(); free(s);
    }
    metac_value_delete(v); drop(&g); h_end();
}
void h_main_enumerate(void) {
    tags = new_tags(); if (!tags) { fprintf(stderr, "SETUP tag map\n"); exit(3); }
    static const long deep[] = {1, 2, 4, 5, 10, 11, 15, 16, 17, 20, 21, 22, 23, 31, 32, 33, 42, 43, 63, 64, 65, 85, 86, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 341, 342, 400, 512, 1000};
    static const long wide[] = {1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 1365, 1366, 1535, 1537, 2047, 2049, 4097};
    for (int sh = 0; sh < W_OWN; ++sh) for (unsigned i = 0; i < sizeof deep / sizeof *deep; ++i) if (deep[i] <= (h_thorough ? 1000 : !strcmp(h_mode, "free") ? 512 : !strcmp(h_mode, "text") ? 400 : (sh == CHAIN || (sh == RING && !strcmp(h_mode, "copy"))) ? 342 : sh == RING || sh == DOUBLY ? 129 : 65)) one(sh, deep[i]);
    for (int sh = W_OWN; sh < NSH; ++sh) for (unsigned i = 0; i < sizeof wide / sizeof *wide; ++i) if (h_thorough || wide[i] < 600 || (wide[i] < 1600 && sh == W_OWN)) one(sh, wide[i]);
    far_on = 1; for (int sh = 0; sh < NSH; ++sh) for (long n = 1; n < FARN; ++n) one(sh, n);
}
