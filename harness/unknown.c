/* P07: data the library has no description for: every kind x position x content x mode x operation */
#include "h.h"
#include "metac/reflect.h"
#include <sanitizer/asan_interface.h>

struct opaque; typedef struct opaque opaque_t; typedef void *handle_t; typedef int (*fn_t)(int); typedef union { int i; void *p; char c[300]; } un_t; union opaque_u;
#define KINDS(X) X(V, void *) X(CV, const void *) X(O, struct opaque *) X(CO, const struct opaque *) X(TO, opaque_t *) X(H, handle_t) X(F, fn_t) X(U, un_t) X(OU, union opaque_u *) X(VV, volatile void *)
#define DEF(k, T) typedef T k##_t_; \
    struct k##_D { int a; k##_t_ f; int z; }; struct k##_D k##_vD; METAC_GSYM_LINK(k##_vD); \
    struct k##_N { int a; struct { char q; k##_t_ f; } in; int z; }; struct k##_N k##_vN; METAC_GSYM_LINK(k##_vN); \
    struct k##_A { int a; k##_t_ f[2]; int z; }; struct k##_A k##_vA; METAC_GSYM_LINK(k##_vA); \
    struct k##_P { int a; struct k##_D *p; int z; }; struct k##_P k##_vP; METAC_GSYM_LINK(k##_vP); \
    struct k##_B { int a; k##_t_ *p; int z; }; struct k##_B k##_vB; METAC_GSYM_LINK(k##_vB);
KINDS(DEF)
struct fx { int a; int n; short f[]; }; struct fxp { int a; struct fx *p; int z; }; struct fxp fx_v; METAC_GSYM_LINK(fx_v);
struct fxz { int a; short f[0]; }; struct fxzp { int a; struct fxz *p; int z; }; struct fxzp fxz_v; METAC_GSYM_LINK(fxz_v);
struct fxn { int b; struct fx in; }; struct fxnp { int a; struct fxn *p; int z; }; struct fxnp fxn_v; METAC_GSYM_LINK(fxn_v);
struct gn { int v; struct gn *a; void *p; struct gn *b; }; struct gn *gn_v; METAC_GSYM_LINK(gn_v);
#define E(k, T) K_##k,
enum { KINDS(E) K_N };
#define N(k, T) #T,
static const char *const kname[] = {KINDS(N)}; static const char *const pname[] = {"member", "member of an inner structure", "array of two", "behind a pointer", "behind a pointer of its own"};
enum { D, NN, A, P, B, NP };
struct lay { metac_entry_t *e; size_t size, isz; int nslot; size_t slot[2], ksz, bsz, boff, poff; size_t a, z; };
static struct lay L[K_N][NP];
static void init(void) {
#define O_(k, T) \
    L[K_##k][D] = (struct lay){METAC_GSYM_LINK_ENTRY(k##_vD), sizeof(struct k##_D), 0, 1, {offsetof(struct k##_D, f)}, sizeof(k##_t_), .a = offsetof(struct k##_D, a), .z = offsetof(struct k##_D, z)}; \
    L[K_##k][NN] = (struct lay){METAC_GSYM_LINK_ENTRY(k##_vN), sizeof(struct k##_N), 0, 1, {offsetof(struct k##_N, in.f)}, sizeof(k##_t_), .a = offsetof(struct k##_N, a), .z = offsetof(struct k##_N, z)}; \
    L[K_##k][A] = (struct lay){METAC_GSYM_LINK_ENTRY(k##_vA), sizeof(struct k##_A), 0, 2, {offsetof(struct k##_A, f[0]), offsetof(struct k##_A, f[1])}, sizeof(k##_t_), .a = offsetof(struct k##_A, a), .z = offsetof(struct k##_A, z)}; \
    L[K_##k][P] = (struct lay){METAC_GSYM_LINK_ENTRY(k##_vP), sizeof(struct k##_P), 0, 1, {0}, sizeof(k##_t_), sizeof(struct k##_D), offsetof(struct k##_D, f), offsetof(struct k##_P, p), .a = offsetof(struct k##_P, a), .z = offsetof(struct k##_P, z)}; \
    L[K_##k][B] = (struct lay){METAC_GSYM_LINK_ENTRY(k##_vB), sizeof(struct k##_B), 0, 1, {0}, sizeof(k##_t_), sizeof(k##_t_), 0, offsetof(struct k##_B, p), .a = offsetof(struct k##_B, a), .z = offsetof(struct k##_B, z)};
    KINDS(O_)
}
static char *poison[3];     /* memory behind the unknown pointers; nobody may touch it */
struct obj { char *top, *blk; };
static char *slot(struct lay *l, struct obj *o, int i) { return l->bsz ? o->blk + l->boff : o->top + l->slot[i]; }
static void mk(struct lay *l, struct obj *o, int fill) {
    o->top = malloc(l->size); memset(o->top, fill, l->size); *(int *)(o->top + l->a) = 11; *(int *)(o->top + l->z) = 22; o->blk = NULL;
    if (l->bsz) { o->blk = malloc(l->bsz); memset(o->blk, fill, l->bsz); memcpy(o->top + l->poff, &o->blk, sizeof o->blk); if (l->boff) { memset(o->blk, 0, l->bsz); *(int *)o->blk = 33; } }
    if (l == &L[0][0]) (void)0;
}
static void fix_inner(struct lay *l, struct obj *o, int pos) { if (pos == NN) { /* q precedes f */ *(o->top + offsetof(struct V_N, in.q)) = 'q'; } (void)l; }
static void un(struct lay *l, struct obj *o) { free(o->top); free(o->blk); (void)l; }
/* content c of a slot: 0 NULL/zero, 1 pointer to poisoned memory / bytes, 2 another one */
static void put(int k, char *s, int c) {
    if (k == K_U) { memset(s, 0, sizeof(un_t)); if (c == 1) memset(s, 0x41, sizeof(un_t)); if (c == 2) s[sizeof(un_t) - 1] = 0x42; return; }
    void *p = c == 0 ? NULL : k == K_F ? (void *)(uintptr_t)(c == 1 ? (uintptr_t)&abs : (uintptr_t)&abs + 1) : poison[c]; memcpy(s, &p, sizeof p);
}
/* the tag map: none, one without tags, one with a text as tag of everything, one whose handler has nothing to say */
static metac_tag_map_t *tmap[4]; static int tm; static const char *const tmn[] = {"", ", empty tag map", ", tags without handlers", ", handlers without answers"};
static int no_answer(metac_value_walker_hierarchy_t *h, metac_value_event_t *e, void *c) { (void)h; (void)e; (void)c; return 0; }
static int freed_n; static void *freed[8]; static void rec_free(void *p) { if (freed_n < 8) freed[freed_n++] = p; }
static const char *const UM[] = {"fail", "ignore", "as values", "as one byte"}, *const NM[] = {"fail", "ignore", "as memory"};

/* what a mode says about a slot of this kind and content: 0 refuse, 1 skip, 2 plain data, 3 one byte behind it, 4 nothing there (NULL) */
static int rule(int k, int c, int um, int nm) {
    if (k == K_U) return nm == METAC_UNION_fail ? 0 : nm == METAC_UNION_ignore ? 1 : 2;
    if (c == 0) return 4;
    if (k == K_F) return -1; /* function pointers: see below */
    return um == METAC_UPTR_fail ? 0 : um == METAC_UPTR_ignore ? 1 : um == METAC_UPTR_as_values ? 2 : 3;
}
static void one(int k, int pos, int c0, int c1, int um, int nm, int tree, int op) {
    static const char *const on[] = {"copy", "equal", "free", "text"};
    if (!h_begin("%s of %s, %s, content %d,%d; pointers: %s, unions: %s, %s mode%s", on[op], kname[k], pname[pos], c0, c1, UM[um], NM[nm], tree ? "tree" : "dag", tmn[tm])) return;
    struct lay *l = &L[k][pos]; struct obj o, d; mk(l, &o, 0x33); fix_inner(l, &o, pos);
    put(k, slot(l, &o, 0), c0); if (l->nslot > 1) put(k, slot(l, &o, 1), c1);
    for (int i = 1; i < 3; ++i) { if (um == METAC_UPTR_as_one_byte_ptr && op != 2) { __asan_unpoison_memory_region(poison[i], 64); __asan_poison_memory_region(poison[i] + 1, 63); } else __asan_poison_memory_region(poison[i], 64); }
    uint64_t h0 = h_hash(H_HASH0, o.top, l->size), hb = o.blk ? h_hash(H_HASH0, o.blk, l->bsz) : 0;
    metac_value_memory_map_mode_t md = {0}; md.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; md.unknown_ptr_mode = um; md.union_mode = nm;
    metac_value_memory_map_non_handled_mode_t fm = {.unknown_ptr_mode = um, .union_mode = nm};
    int r0 = rule(k, c0, um, nm), r1 = l->nslot > 1 ? rule(k, c1, um, nm) : 4, refuse = r0 == 0 || r1 == 0, anyfn = r0 == -1 || r1 == -1;
    metac_value_t *v = metac_new_value(l->e, o.top);
    h_state(((uint64_t)k << 40) ^ ((uint64_t)pos << 32) ^ (uint64_t)(c0 * 3 + c1) << 24 ^ (uint64_t)(um * 16 + nm * 4 + tree) << 8 ^ (uint64_t)tm << 50 ^ (uint64_t)op);
    h_ops(1);
    if (op == 0) {
        d.top = malloc(l->size); memset(d.top, 0x77, l->size); metac_value_t *w = metac_new_value(l->e, d.top);
        ha_start(0, 0); metac_value_t *r = metac_value_copy_ex(v, w, &md, NULL, NULL, tmap[tm]); ha_stop();
        if (refuse) { if (r) h_fail("copied although refused by the mode"); }
        else if (anyfn && !r) h_outcome("function pointer refused");
        else if (!r) h_fail("copy failed");
        if (!r && ha_live()) h_fail("failed copy leaked %ld blocks", ha_live());
        if (r && !h_failed()) {
            if (*(int *)(d.top + l->a) != 11 || *(int *)(d.top + l->z) != 22) h_fail("the rest of the object was not copied");
            d.blk = NULL; if (l->bsz) memcpy(&d.blk, d.top + l->poff, sizeof d.blk);
            if (l->bsz && (!d.blk || d.blk == o.blk || !ha_is_live(d.blk))) h_fail("the described pointer was not copied");
            for (int i = 0; i < l->nslot && !h_failed(); ++i) {
                int ru = i ? r1 : r0, c = i ? c1 : c0; char *s = slot(l, &d, i), *so = slot(l, &o, i); static char zero[512]; void *p, *q; memcpy(&p, s, sizeof p); memcpy(&q, so, sizeof q);
                if (ru == 1 || ru == 4) { if (memcmp(s, zero, l->ksz)) h_fail("slot %d of the copy is not zero", i); }
                else if (ru == 2) { if (memcmp(s, so, l->ksz)) h_fail("slot %d of the copy differs from the source", i); }
                else if (ru == 3) { if (!p || p == q || !ha_is_live(p) || *(char *)p != *(char *)q) h_fail("slot %d: one byte is not copied", i); }
                else if (ru == -1 && um == METAC_UPTR_as_values && p != q) h_fail("function pointer differs");
                else if (ru == -1 && p && p != q) h_fail("function pointer of the copy leads elsewhere");
                (void)c;
            }
            long want = (l->bsz ? 1 : 0); for (int i = 0; i < l->nslot; ++i) want += (i ? r1 : r0) == 3; if (l->nslot > 1 && r0 == 3 && r1 == 3 && c0 == c1 && !tree) --want;
            if (!h_failed() && ha_live() != want) h_fail("copy allocated %ld blocks, expected %ld", ha_live(), want);
        }
        metac_value_delete(w); free(d.top); /* blocks of the copy are dropped */
    } else if (op == 1) {
        /* dv: what else differs - nothing, the member in front, the member behind, the member in front of the data behind the pointer */
        for (int x0 = 0; x0 < 3 && !h_failed(); ++x0) for (int x1 = 0; x1 < (l->nslot > 1 ? 3 : 1) && !h_failed(); ++x1) for (int dv = 0; dv < (l->bsz && l->boff ? 4 : 3) && !h_failed(); ++dv) {
            mk(l, &d, 0x44); if (dv == 1) ++*(int *)(d.top + l->a); if (dv == 2) ++*(int *)(d.top + l->z); if (dv == 3) ++*(int *)d.blk; fix_inner(l, &d, pos); put(k, slot(l, &d, 0), x0); if (l->nslot > 1) put(k, slot(l, &d, 1), x1);
            metac_value_t *w = metac_new_value(l->e, d.top);
            int q0 = rule(k, x0, um, nm), q1 = l->nslot > 1 ? rule(k, x1, um, nm) : 4, ref = refuse || q0 == 0 || q1 == 0, fn = anyfn || q0 == -1 || q1 == -1;
            int want = !dv; for (int i = 0; i < l->nslot; ++i) { int a = i ? c1 : c0, b = i ? x1 : x0, u = i ? (r1 == 4 ? q1 : r1) : (r0 == 4 ? q0 : r0); if (u == 1 || u == 4) continue; if (u == 2 && a != b) want = 0; if (u == 3 && (!a != !b)) want = 0; if (u == 3 && a && b && *poison[a] != *poison[b]) want = 0; }
            ha_start(0, 0); int e = metac_value_equal_ex(v, w, &md, tmap[tm]), e2 = metac_value_equal_ex(w, v, &md, tmap[tm]); ha_stop(); h_ops(2);
            if (ha_live()) h_fail("comparison leaked %ld blocks", ha_live());
            if (ref) { if (dv ? e > 0 || e2 > 0 : e >= 0 || e2 >= 0) h_fail("compared (%d) although refused by the mode, other content %d,%d", e, x0, x1); }
            else if (fn) { if (e != e2) h_fail("not symmetric"); if (e == 1 && dv) h_fail("a difference is not seen"); if (e == 1 && um == METAC_UPTR_as_values && (c0 != x0 || (l->nslot > 1 && c1 != x1))) h_fail("different function pointers compare equal"); h_outcome("function pointers: %s", e < 0 ? "refused" : "compared"); }
            else if (e != want || e2 != want) h_fail("comparison with content %d,%d, other difference %d, answered %d / %d, expected %d", x0, x1, dv, e, e2, want);
            metac_value_delete(w); un(l, &d);
        }
    } else if (op == 2) {
        freed_n = 0; ha_start(0, 0); metac_flag_t r = metac_value_free_ex(v, &fm, rec_free, tmap[tm]); ha_stop();
        if (ha_live()) h_fail("free leaked %ld blocks", ha_live());
        if (refuse) { if (r || freed_n) h_fail("freed (%d blocks) although refused by the mode", freed_n); }
        else if (anyfn && !r) { if (freed_n) h_fail("failed but freed"); h_outcome("function pointer refused"); }
        else if (!r) h_fail("free failed");
        else {
            int want = l->bsz ? 1 : 0, b = 0;
            for (int i = 0; i < freed_n; ++i) { if (freed[i] == o.blk && o.blk) b++; else if (k != K_F && k != K_U && (freed[i] == poison[1] || freed[i] == poison[2]) && um == METAC_UPTR_as_one_byte_ptr) continue; else h_fail("freed memory of unknown owner"); }
            if (b != want) h_fail("the described block was freed %d times", b);
            int ones = (r0 == 3) + (r1 == 3 && !(r0 == 3 && c0 == c1)); if (!h_failed() && freed_n != want + ones) h_fail("%d blocks freed, expected %d", freed_n, want + ones);
        }
    } else {
        for (int wm = METAC_WMODE_shallow; wm <= METAC_WMODE_deep; ++wm) {
            ha_start(0, 0); char *s = metac_value_string_ex(v, wm, tmap[tm]); free(s); ha_stop();
            h_outcome("%s text of %s: %s", wm == METAC_WMODE_deep ? "deep" : "shallow", kname[k], s ? "given" : "refused");
            if (ha_live()) h_fail("text leaked %ld blocks", ha_live());
            if (!s && wm == METAC_WMODE_shallow && k != K_U) h_fail("no shallow text");
            /* nothing but the numbers around may be printed from behind */
        }
    }
    if (h0 != h_hash(H_HASH0, o.top, l->size) || (o.blk && hb != h_hash(H_HASH0, o.blk, l->bsz))) h_fail("the object was modified");
    metac_value_delete(v); un(l, &o); h_end();
}
static void flex(int which, int n, int mode, int tree, int op) {
    static const char *const on[] = {"copy", "equal", "free", "text"};
    if (!h_begin("%s of a flexible array (%d) with %d element(s); mode %s, %s%s", on[op], which, n, mode ? "ignore" : "fail", tree ? "tree" : "dag", tmn[tm])) return;
    size_t hd = which == 0 ? offsetof(struct fx, f) : which == 1 ? sizeof(struct fxz) : offsetof(struct fxn, in.f);
    struct { char *top, *blk; } o[2]; size_t ts = sizeof(struct fxp); metac_entry_t *e = which == 0 ? METAC_GSYM_LINK_ENTRY(fx_v) : which == 1 ? METAC_GSYM_LINK_ENTRY(fxz_v) : METAC_GSYM_LINK_ENTRY(fxn_v);
    for (int i = 0; i < 2; ++i) { struct fxp *t = malloc(ts); memset(t, 0x11 * (i + 1), ts); o[i].top = (char *)t; o[i].blk = malloc(hd + 2 * (size_t)n); memset(o[i].blk, 0, hd); memset(o[i].blk + hd, 0x20 + i, 2 * (size_t)n); t->a = 1; t->z = 2; t->p = (void *)o[i].blk; if (which == 0) t->p->n = n; __asan_poison_memory_region(o[i].blk + hd, 2 * (size_t)n); }
    metac_value_memory_map_mode_t md = {0}; md.memory_block_mode = tree ? METAC_MMODE_tree : METAC_MMODE_dag; md.flex_array_mode = mode;
    metac_value_memory_map_non_handled_mode_t fm = {.flex_array_mode = mode};
    int flexible = 1;
    metac_value_t *v = metac_new_value(e, o[0].top), *w = metac_new_value(e, o[1].top); h_ops(1); h_state((uint64_t)(which * 64 + n * 16 + mode * 8 + tree * 4 + op) + 77777 + (uint64_t)tm * 1000);
    if (op == 0) {
        struct fxp d; memset(&d, 0x77, sizeof d); metac_value_t *x = metac_new_value(e, &d);
        ha_start(0, 0); metac_value_t *r = metac_value_copy_ex(v, x, &md, NULL, NULL, tmap[tm]); ha_stop();
        if (mode == METAC_FLXARR_fail && flexible && r) { if (which != 1) h_fail("copied although refused by the mode"); else h_outcome("[0] array counted as fixed"); }
        if (mode != METAC_FLXARR_fail && !r) h_fail("copy failed");
        if (!r && ha_live()) h_fail("failed copy leaked %ld blocks", ha_live());
        if (r && (d.a != 1 || d.z != 2 || !ha_is_live(d.p) || ha_live() != 1 || (which == 0 && d.p->n != n))) h_fail("the rest of the object was not copied");
        metac_value_delete(x);
    } else if (op == 1) {
        ha_start(0, 0); int r = metac_value_equal_ex(v, w, &md, tmap[tm]); ha_stop();
        if (ha_live()) h_fail("leak");
        if (mode == METAC_FLXARR_fail && r >= 0 && which != 1) h_fail("compared (%d) although refused", r);
        if (mode != METAC_FLXARR_fail && r != 1) h_fail("comparison answered %d", r);
    } else if (op == 2) {
        freed_n = 0; ha_start(0, 0); metac_flag_t r = metac_value_free_ex(v, &fm, rec_free, tmap[tm]); ha_stop();
        if (ha_live()) h_fail("leak");
        if (mode == METAC_FLXARR_fail && (r || freed_n) && which != 1) h_fail("freed although refused");
        if (mode != METAC_FLXARR_fail && (!r || freed_n != 1 || freed[0] != o[0].blk)) h_fail("free: %d, %d blocks", r, freed_n);
    } else { ha_start(0, 0); char *s = metac_value_string_ex(v, METAC_WMODE_deep, tmap[tm]); free(s); ha_stop(); if (ha_live()) h_fail("text leaked"); h_outcome("deep text of a flexible array: %s", s ? "given" : "refused"); }
    metac_value_delete(v); metac_value_delete(w);
    for (int i = 0; i < 2; ++i) { __asan_unpoison_memory_region(o[i].blk + hd, 2 * (size_t)n); free(o[i].top); free(o[i].blk); }
    h_end();
}
/* every graph of up to three nodes in which any node may carry an untyped pointer: what is refused is refused cleanly wherever it is met */
static void gdesc(char *b, size_t n, void *c) { int *g = c; size_t l = (size_t)snprintf(b, n, "graph:"); for (int i = 0; i < 3; ++i) l += (size_t)snprintf(b + l, n - l, " %d(%d,%d%s)", i, g[i] % 4 - 1, g[i] / 4 % 4 - 1, g[i] / 16 ? ",untyped" : ""); snprintf(b + l, n - l, "; pointers: %s, %s mode", UM[g[3]], g[4] ? "tree" : "dag"); }
static void graph(int *g) {
    static struct gn x[3], y[3]; int reach = 1, acyc = 1, unk = 0, nr = 0;
    for (int r = 0; r < 3; ++r) for (int i = 0; i < 3; ++i) if (reach >> i & 1) { if (g[i] % 4) reach |= 1 << (g[i] % 4 - 1); if (g[i] / 4 % 4) reach |= 1 << (g[i] / 4 % 4 - 1); }
    for (int i = 0; i < 3; ++i) { if (!(reach >> i & 1)) { if (g[i]) return; continue; } unk |= g[i] / 16; ++nr; }
    if (!(reach & 2) && (reach & 4)) return; /* the same graph with nodes renamed */
    int in[3] = {0}, sh = 0; for (int i = 0; i < 3; ++i) { if (g[i] % 4) ++in[g[i] % 4 - 1]; if (g[i] / 4 % 4) ++in[g[i] / 4 % 4 - 1]; } for (int i = 0; i < 3; ++i) sh |= in[i] > (i ? 1 : 0);
    (void)acyc; if (g[4] && sh) return; /* no tree */
    if (!h_begin_fn(gdesc, g)) return;
    for (int i = 0; i < 3; ++i) { x[i] = (struct gn){i + 5, g[i] % 4 ? &x[g[i] % 4 - 1] : NULL, g[i] / 16 ? poison[1] : NULL, g[i] / 4 % 4 ? &x[g[i] / 4 % 4 - 1] : NULL}; y[i] = (struct gn){i + 5, g[i] % 4 ? &y[g[i] % 4 - 1] : NULL, g[i] / 16 ? poison[1] : NULL, g[i] / 4 % 4 ? &y[g[i] / 4 % 4 - 1] : NULL}; }
    int um = g[3], refuse = unk && um == METAC_UPTR_fail; uint64_t h0 = h_hash(h_hash(H_HASH0, x, sizeof x), y, sizeof y); struct gn *tx = x, *ty = y, *td = (void *)0x77;
    metac_value_memory_map_mode_t md = {0}; md.memory_block_mode = g[4] ? METAC_MMODE_tree : METAC_MMODE_dag; md.unknown_ptr_mode = um; metac_value_memory_map_non_handled_mode_t fm = {.unknown_ptr_mode = um};
    metac_value_t *v = metac_new_value(METAC_GSYM_LINK_ENTRY(gn_v), &tx), *w = metac_new_value(METAC_GSYM_LINK_ENTRY(gn_v), &ty), *d = metac_new_value(METAC_GSYM_LINK_ENTRY(gn_v), &td); h_ops(4); h_state((uint64_t)g[0] << 20 | (uint64_t)g[1] << 14 | (uint64_t)g[2] << 8 | (uint64_t)(g[3] * 2 + g[4]) | 1ULL << 60);
    ha_start(0, 0); metac_value_t *r = strcmp(h_mode, "equal") ? metac_value_copy_ex(v, d, &md, NULL, NULL, NULL) : NULL;
    if (strcmp(h_mode, "equal")) {
        if (refuse ? r != NULL : r == NULL) h_fail("%s", r ? "copied although refused by the mode" : "copy failed");
        if (ha_live() != (r ? nr : 0)) h_fail("copy keeps %ld blocks, expected %d", ha_live(), r ? nr : 0);
        if (r && !h_failed()) {
            struct gn *m[3] = {td, 0, 0}; for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) if (m[i]) { if (g[i] % 4 && m[i]->a) m[g[i] % 4 - 1] = m[i]->a; if (g[i] / 4 % 4 && m[i]->b) m[g[i] / 4 % 4 - 1] = m[i]->b; }
            for (int i = 0; i < 3; ++i) if (reach >> i & 1) { if (!m[i] || !ha_is_live(m[i])) { h_fail("node %d is not copied", i); break; } if (m[i]->v != i + 5 || m[i]->a != (g[i] % 4 ? m[g[i] % 4 - 1] : NULL) || m[i]->b != (g[i] / 4 % 4 ? m[g[i] / 4 % 4 - 1] : NULL) || m[i]->p != (um == METAC_UPTR_as_values ? x[i].p : NULL)) { h_fail("node %d of the copy differs", i); break; } }
            if (!metac_value_free_ex(d, &fm, NULL, NULL) || ha_live()) h_fail("the copy cannot be freed");
        }
        freed_n = 0; metac_flag_t f = metac_value_free_ex(v, &fm, rec_free, NULL); if (refuse ? f || freed_n : !f || freed_n != nr) h_fail("free answers %d and releases %d of %d blocks", (int)f, freed_n, nr);
        if (ha_live()) h_fail("free leaked %ld blocks", ha_live());
        free(metac_value_string_ex(v, METAC_WMODE_deep, NULL)); if (ha_live()) h_fail("text leaked %ld blocks", ha_live());
    }
    int e = metac_value_equal_ex(v, w, &md, NULL), e2 = metac_value_equal_ex(v, v, &md, NULL); if (refuse ? e >= 0 || e2 >= 0 : e != 1 || e2 != 1) h_fail("comparison with an equal graph answers %d, with itself %d", e, e2);
    x[nr - 1].v++; e = metac_value_equal_ex(v, w, &md, NULL); x[nr - 1].v--; if (refuse ? e == 1 : e != 0) h_fail("a difference in node %d: answered %d", nr - 1, e);
    if (ha_live()) h_fail("comparison leaked %ld blocks", ha_live());
    ha_stop(); if (h0 != h_hash(h_hash(H_HASH0, x, sizeof x), y, sizeof y)) h_fail("the object was modified");
    h_outcome("graph %s", refuse ? "refused" : "handled"); metac_value_delete(v); metac_value_delete(w); metac_value_delete(d); h_end();
}
void h_main_enumerate(void) {
    init();
    static char mem[3][64] __attribute__((aligned(64)));
    for (int i = 0; i < 3; ++i) { poison[i] = mem[i]; mem[i][0] = (char)(i + 60); __asan_poison_memory_region(mem[i], 64); }
    metac_entry_tag_t text = {.p_tagstring = "a:\"b\""}, silent = {.handler = no_answer}; tmap[1] = metac_new_tag_map(NULL); tmap[2] = metac_new_tag_map(&text); tmap[3] = metac_new_tag_map(&silent);
    for (tm = 0; tm < 4; ++tm)
    for (int k = 0; k < K_N; ++k) for (int pos = 0; pos < NP; ++pos) for (int c0 = 0; c0 < 3; ++c0) for (int c1 = 0; c1 < (pos == A ? 3 : 1); ++c1) for (int um = 0; um < 4; ++um) for (int nm = 0; nm < 3; ++nm) for (int tree = 0; tree < 2; ++tree) for (int op = 0; op < 4; ++op) {
        if ((op == 2 || op == 3) && tree) continue;
        if (op == 3 && (um || nm)) continue;
        if (!strcmp(h_mode, "equal") && op != 1) continue;
        one(k, pos, c0, c1, um, nm, tree, op);
    }
    for (tm = 0; tm < 4; ++tm) for (int w = 0; w < 3; ++w) for (int n = 0; n < 4; ++n) for (int m = 0; m < 2; ++m) for (int t = 0; t < 2; ++t) for (int op = 0; op < 4; ++op) if (strcmp(h_mode, "equal") || op == 1) flex(w, n, m, t, op);
    for (int i = 1; i < 3; ++i) __asan_poison_memory_region(poison[i], 64);
    static const int gu[] = {METAC_UPTR_fail, METAC_UPTR_ignore, METAC_UPTR_as_values}; int g[5]; tm = 0;
    for (g[0] = 0; g[0] < 32; ++g[0]) for (g[1] = 0; g[1] < 32; ++g[1]) for (g[2] = 0; g[2] < 32; ++g[2]) for (int u = 0; u < 3; ++u) for (g[4] = 0; g[4] < 2; ++g[4]) { g[3] = gu[u]; graph(g); }
}
