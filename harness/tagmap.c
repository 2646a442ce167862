/* P14: every arrangement of tag-map levels x every short sequence of attachments, all lookups compared with a reference;
 * every tag text over a small alphabet x every key against a reference reader */
#include "h.h"
#include "metac/reflect.h"
#include <errno.h>
typedef int my_t;
struct other { my_t c; };
struct S { my_t a; int b; char *s; struct other o; const my_t k; };
struct S var1; METAC_GSYM_LINK(var1);
my_t var2; METAC_GSYM_LINK(var2);
void fn(my_t p, char *q) { (void)p; (void)q; } METAC_GSYM_LINK(fn);
enum { V1, V2, MA, MB, MS, MO, MC, MK, PP, PQ, TI, TS, TT, TC, TO, NE };
static const char *const en[NE] = {"variable of structure type", "variable of typedef type", "member a", "member b", "member s", "member o", "member c of o", "const member k", "parameter p", "parameter q", "the type int", "the structure type", "the typedef", "the pointer type", "the inner structure type"};
static metac_entry_t *E[NE]; static int K[NE], F[NE]; /* kind bit and final entity */
#define NL 24
enum { KV = 1, KP = 2, KM = 4, KF = 8 };
static int find_final(metac_entry_t *e) { metac_entry_t *f = metac_entry_final_entry(e, NULL); for (int i = TI; i < NE; ++i) if (E[i] == f) return i; return -1; }
static void init(void) {
    E[V1] = METAC_GSYM_LINK_ENTRY(var1); E[V2] = METAC_GSYM_LINK_ENTRY(var2); metac_entry_t *f = METAC_GSYM_LINK_ENTRY(fn);
    E[TS] = metac_entry_final_entry(E[V1], NULL); E[TI] = metac_entry_final_entry(E[V2], NULL);
    static const char *const mn[] = {"a", "b", "s", "o", NULL, "k"}; static const int me[] = {MA, MB, MS, MO, MC, MK};
    for (int i = 0; i < 6; ++i) if (mn[i]) E[me[i]] = metac_entry_by_member_id(E[TS], metac_entry_member_name_to_id(E[TS], (char *)mn[i]));
    E[MC] = metac_entry_by_member_id(metac_entry_final_entry(E[MO], NULL), 0);
    E[PP] = metac_entry_by_paremeter_id(f, 0); E[PQ] = metac_entry_by_paremeter_id(f, 1); E[TC] = metac_entry_final_entry(E[MS], NULL);
    E[TT] = metac_entry_member_entry(E[MA]); E[TO] = metac_entry_final_entry(E[MO], NULL);
    for (int i = 0; i < NE; ++i) { if (!E[i]) { fprintf(stderr, "SETUP: no reflection entry for %s\n", en[i]); _exit(3); } K[i] = i <= V2 ? KV : i <= MK ? KM : i <= PQ ? KP : 0; F[i] = find_final(E[i]); }
}
/* reference */
struct lvl { int mask, ext; int tag[NE]; };
struct ref { int n; struct lvl l[NL]; int def; };
static struct ref R, X; /* X: the external map */
static int look(struct ref *r, int e) {
    for (int i = 0; i < r->n; ++i) {
        struct lvl *l = &r->l[i]; int fin = (l->mask & KF) != 0, own = (l->mask & K[e]) != 0;
        if (!own && !fin) continue;
        if (l->ext) { int t = own ? look(&X, e) : F[e] >= 0 ? look(&X, F[e]) : 0; if (t) return t; continue; }
        if (own && l->tag[e]) return l->tag[e];
        if (fin && F[e] >= 0 && l->tag[F[e]]) return l->tag[F[e]];
    }
    return r->def;
}
#define MAXT 16
static int made, freed[MAXT]; static int ctx[MAXT];
static void ctx_free(void *p) { ++freed[(int *)p - ctx]; }
/* ctxmode: 0 - every tag has its context; 1 - tags have no context; 2 - a context nobody releases; 3 - no text; 4 - no text and no context, only a handler */
static int ctxmode; static int h_dummy(metac_value_walker_hierarchy_t *a, metac_value_event_t *b, void *c) { (void)a; (void)b; (void)c; return 0; }
static metac_entry_tag_t mktag(int id, char *txt) { metac_entry_tag_t mktag0(int, char *), t = mktag0(id, txt); t.handler = h_dummy; if (ctxmode == 1 || ctxmode == 4) t.p_context = NULL, t.context_free_handler = NULL; if (ctxmode == 2) t.context_free_handler = NULL; if (ctxmode >= 3) t.p_tagstring = NULL; return t; }
metac_entry_tag_t mktag0(int id, char *txt) { snprintf(txt, 16, "t:\"%d\"", id); return (metac_entry_tag_t){.p_tagstring = txt, .p_context = &ctx[id], .context_free_handler = ctx_free}; }
static int id_of(metac_entry_tag_t *t, int want) { return t == NULL ? 0 : t->p_context == NULL && ctxmode != 4 ? t->p_tagstring ? atoi(t->p_tagstring + 3) : -1 : ctxmode == 4 ? want : (int)((int *)t->p_context - ctx); }
struct op { int level, entity, fin, over; };
struct cas { int n, mask[NL], ext[NL], def, xmask, xdef, xent, xfin, nops; struct op o[3]; };
static void desc(char *b, size_t n, void *c_) {
    struct cas *c = c_; size_t l = 0;
    for (int i = 0; i < c->n; ++i) l += snprintf(b + l, n - l, "%slevel %d: %s%s%s%s%s", i ? ", " : "", i, c->mask[i] & KV ? "V" : "", c->mask[i] & KP ? "P" : "", c->mask[i] & KM ? "M" : "", c->mask[i] & KF ? "F" : "", c->ext[i] ? " external" : "");
    if (c->xmask) l += snprintf(b + l, n - l, "; external map (mask %d%s) tags %s%s", c->xmask, c->xdef ? ", default" : "", c->xfin ? "the final type of " : "", c->xent < 0 ? "nothing" : en[c->xent]);
    static const char *const cm[] = {"", " without contexts", " with contexts nobody releases", " without text", " with a handler only"}; l += snprintf(b + l, n - l, "; %s; tags%s:", c->def ? "default tag" : "no default", cm[ctxmode]);
    for (int i = 0; i < c->nops && l < n; ++i) l += snprintf(b + l, n - l, " set(level %d, %s%s%s)", c->o[i].level, c->o[i].fin ? "final type of " : "", en[c->o[i].entity], c->o[i].over ? ", override" : "");
}
static const int lv[] = {V1, V2, MA, MB, MS, MO, MC, MK, PP, PQ, TI, TS, TT, TC, TO};
static void run(struct cas *c) {
    if (!h_begin_fn(desc, c)) return;
    char txt[16]; metac_tag_map_t *x = NULL; made = 0; memset(freed, 0, sizeof freed); memset(&R, 0, sizeof R); memset(&X, 0, sizeof X);
    ha_start(0, 0);
    int have_x = 0; for (int i = 0; i < c->n; ++i) have_x |= c->ext[i];
    if (have_x) {
        metac_entry_tag_t d = mktag(12, txt);
        x = metac_new_tag_map_ex(1, (metac_tag_map_entry_t[]){{.mask = c->xmask}}, c->xdef ? &d : NULL); X.n = 1; X.l[0].mask = c->xmask; X.def = c->xdef ? 12 : 0;
        if (c->xent >= 0) { metac_entry_tag_t t = mktag(13, txt); int r = metac_tag_map_set_tag(x, 0, 0, E[c->xent], c->xfin ? METAC_TEO_final_entry : METAC_TEO_entry, &t); int e = c->xfin ? F[c->xent] : c->xent; if (r) h_fail("external: set failed (%d)", r); else X.l[0].tag[e] = 13; }
    }
    metac_tag_map_entry_t me[NL] = {{0}}; R.n = c->n;
    for (int i = 0; i < c->n; ++i) { me[i].mask = c->mask[i]; me[i].p_ext_map = c->ext[i] ? x : NULL; R.l[i].mask = c->mask[i]; R.l[i].ext = c->ext[i]; }
    metac_entry_tag_t d = mktag(11, txt);
    metac_tag_map_t *m = metac_new_tag_map_ex(c->n, me, c->def ? &d : NULL); R.def = c->def ? 11 : 0;
    if (!m) h_fail("map not created");
    int exp_free[MAXT] = {0};
    for (int i = 0; i < c->nops && m; ++i) {
        struct op *o = &c->o[i]; metac_entry_tag_t t = mktag(i + 1, txt); int e = o->fin ? F[o->entity] : o->entity;
        int r = metac_tag_map_set_tag(m, o->level, o->over, E[o->entity], o->fin ? METAC_TEO_final_entry : METAC_TEO_entry, &t); memset(txt, '#', 8); h_ops(1);
        int want = o->level < 0 || o->level >= c->n || R.l[o->level].ext ? -EINVAL : R.l[o->level].tag[e] && !o->over ? -EALREADY : 0;
        if ((r == 0) != (want == 0)) h_fail("set %d returned %d, expected %d", i, r, want);
        if (!want) { if (R.l[o->level].tag[e]) ++exp_free[R.l[o->level].tag[e]]; R.l[o->level].tag[e] = i + 1; }
        for (int k = 0; k < MAXT; ++k) if (freed[k] != (ctxmode == 0 || ctxmode == 3 ? exp_free[k] : 0)) { h_fail("after set %d: context %d released %d times instead of %d", i, k, freed[k], exp_free[k]); break; }
    }
    uint64_t s = H_HASH0;
    for (int i = 0; i < NE && m && !h_failed(); ++i) {
        int e = lv[i], want = look(&R, e); metac_entry_tag_t *t = metac_tag_map_tag(m, E[e]); int got = id_of(t, want); h_ops(1); if (t && t->handler != h_dummy) h_fail("%s: handler lost", en[e]);
        if (got != want) h_fail("%s: tag %d found, expected %d (11 default, 12/13 external default/tag)", en[e], got, want);
        else if (t) { char w[16]; snprintf(w, sizeof w, "t:\"%d\"", want); if (ctxmode >= 3 ? t->p_tagstring != NULL : !t->p_tagstring || strcmp(t->p_tagstring, w)) h_fail("%s: tag text %s instead of %s", en[e], t->p_tagstring ? t->p_tagstring : "(null)", w); }
        s = h_hash(s, &got, sizeof got);
    }
    h_state(s);
    if (ctxmode && ctxmode != 3) memset(exp_free, 0, sizeof exp_free);
    int all[MAXT]; memcpy(all, exp_free, sizeof all); for (int i = 0; i < c->n; ++i) for (int e = 0; e < NE; ++e) if (R.l[i].tag[e]) ++all[R.l[i].tag[e]];
    if (R.def) ++all[11];
    if (ctxmode && ctxmode != 3) memset(all, 0, sizeof all);
    if (m) metac_tag_map_delete(m);
    for (int k = 0; k < MAXT; ++k) if (freed[k] != all[k]) { h_fail("after deleting the map: context %d released %d times instead of %d", k, freed[k], all[k]); break; }
    if (x) metac_tag_map_delete(x);
    if (ha_live()) h_fail("%ld blocks leaked", ha_live());
    ha_stop(); h_end();
}
/* ---- tag texts ---- */
static const char *tx_s, *tx_k; static void tdesc(char *b, size_t n, void *c) { (void)c; snprintf(b, n, "text '%s', key '%s'", tx_s, tx_k); }
/* well-formed: pairs key:"value" separated by spaces; 1 and the value of the first pair with that key */
static int ref_text(const char *s, const char *key, char *val, int *found) {
    *found = 0; size_t i = 0;
    for (;;) {
        size_t sp = i; while (s[i] == ' ') ++i;
        if (!s[i]) return 1;
        if (sp && sp == i) return 0; /* pairs are separated */
        size_t kb = i; while (s[i] && s[i] != ':' && s[i] != ' ' && s[i] != '"') ++i;
        if (i == kb || s[i] != ':') return 0;
        size_t kl = i - kb; ++i;
        if (s[i] != '"') return 0;
        size_t vb = ++i; while (s[i] && s[i] != '"') { if (s[i] == '\\') { if (!s[i + 1]) return 0; ++i; } ++i; }
        if (!s[i]) return 0;
        if (!*found && strlen(key) == kl && !memcmp(key, s + kb, kl)) { *found = 1; memcpy(val, s + vb, i - vb); val[i - vb] = 0; }
        ++i;
    }
}
static void text(const char *s, const char *key) {
    tx_s = s; tx_k = key;
    if (!h_begin_fn(tdesc, NULL)) return;
    char val[64]; int found, wf = ref_text(s, key, val, &found); size_t L = strlen(s) + 1; char *b = malloc(L); memcpy(b, s, L);
    metac_entry_tag_t t = {.p_tagstring = b};
    ha_start(0, 0); char *r = (char *)metac_entry_tag_string_lookup(&t, (char *)key); h_ops(1);
    if (wf) { if (found != (r != NULL)) h_fail("%s, expected %s", r ? r : "not found", found ? val : "not found"); else if (r && strcmp(r, val)) h_fail("found '%s' instead of '%s'", r, val); }
    h_outcome(wf ? found ? "value" : "no such key" : "malformed text"); h_state(h_hash(h_hash(H_HASH0, b, L), r ? r : "", r ? strlen(r) : 0));
    if (ha_live() != (r != NULL)) h_fail("%ld blocks left", ha_live());
    free(r); ha_stop(); free(b); h_end();
}
static void texts(const char *alpha, int len, const char *pre, const char *post) {
    static const char *const keys[] = {"a", "b", "ab", "aa", ""}; int ix[16] = {0}; char s[64]; int na = strlen(alpha);
    for (;;) {
        int p = sprintf(s, "%s", pre); for (int i = 0; i < len; ++i) s[p + i] = alpha[ix[i]]; strcpy(s + p + len, post);
        for (int k = 0; k < 5; ++k) text(s, keys[k]);
        int k = len - 1; while (k >= 0 && ++ix[k] == na) ix[k--] = 0;
        if (k < 0) return;
    }
}
void h_main_enumerate(void) {
    init(); struct cas c;
    static const int masks2[] = {KV | KP | KM, KM, KM | KF, KF, KV | KP | KM | KF, KV | KF, KP};
    enum { N2 = sizeof masks2 / sizeof *masks2 };
    static const int ents[] = {V1, V2, MA, MB, MC, PP, TI, TS, TT}; enum { NO = sizeof ents / sizeof *ents };
    /* tags of other kinds: one level, every sequence of up to 3 attachments to few entities */
    for (ctxmode = 1; ctxmode < 5; ++ctxmode) for (int def = 0; def < 2; ++def) for (int n = 0; n <= 3; ++n) {
        static const int few[] = {V2, MA, TI, TT}; int per = 16, tot = 1; for (int i = 0; i < n; ++i) tot *= per;
        for (int q = 0; q < tot; ++q) { memset(&c, 0, sizeof c); c.n = 1; c.mask[0] = 15; c.def = def; c.xent = -1; c.nops = n; for (int i = 0, z = q; i < n; ++i, z /= per) { int w = z % per; c.o[i] = (struct op){0, few[w / 4], w & 1, w >> 1 & 1}; } run(&c); }
    }
    ctxmode = 0;
    /* one level: every mask x default x every sequence of up to 2 (3) attachments */
    for (int mask = 0; mask < 16; ++mask) for (int def = 0; def < 2; ++def) for (int n = 0; n <= (h_thorough ? 3 : 2); ++n) {
        int per = NE * 4, tot = 1; for (int i = 0; i < n; ++i) tot *= per;
        if (n == 3) { per = NO * 4; tot = per * per * per; }
        for (int q = 0; q < tot; ++q) {
            memset(&c, 0, sizeof c); c.n = 1; c.mask[0] = mask; c.def = def; c.xent = -1; c.nops = n;
            for (int i = 0, z = q; i < n; ++i, z /= per) { int w = z % per; c.o[i] = (struct op){0, n == 3 ? ents[w / 4] : w / 4, w & 1, w >> 1 & 1}; }
            run(&c);
        }
    }
    /* two levels */
    for (int a = 0; a < N2; ++a) for (int b = 0; b < N2; ++b) for (int def = 0; def < 2; ++def) for (int n = 1; n <= 2; ++n) {
        int per = NO * 2 * 2, tot = n == 1 ? per : per * per;
        for (int q = 0; q < tot; ++q) {
            memset(&c, 0, sizeof c); c.n = 2; c.mask[0] = masks2[a]; c.mask[1] = masks2[b]; c.def = def; c.xent = -1; c.nops = n;
            for (int i = 0, z = q; i < n; ++i, z /= per) { int w = z % per; c.o[i] = (struct op){w & 1, ents[w / 4], w >> 1 & 1, 0}; }
            run(&c);
        }
    }
    /* external map as only level, before or behind an own level, or between two */
    for (int sh = 0; sh < 4; ++sh) for (int a = 0; a < N2; ++a) for (int b = 0; b < N2; ++b) for (int xm = 0; xm < N2; ++xm) for (int f = 0; f < 4; ++f) for (int xe = -1; xe < NO; ++xe) for (int xf = 0; xf < (xe < 0 ? 1 : 2); ++xf) {
        if (sh == 0 && b) continue;
        for (int q = 0; q < (sh == 0 ? 1 : NO * 2 + 1); ++q) {
            memset(&c, 0, sizeof c); c.def = f & 1; c.xdef = f >> 1; c.xmask = masks2[xm]; c.xent = xe < 0 ? -1 : ents[xe]; c.xfin = xf;
            c.n = sh == 0 ? 1 : sh == 3 ? 3 : 2; int e = sh == 2 || sh == 3 ? 1 : 0; c.ext[e] = 1; c.mask[e] = masks2[a]; for (int i = 0; i < c.n; ++i) if (i != e) c.mask[i] = masks2[b];
            if (q) { c.nops = 1; c.o[0] = (struct op){sh == 1 ? 1 : sh == 3 && (q & 1) ? 2 : 0, ents[(q - 1) / 2], (q - 1) & 1, 0}; }
            if (!h_thorough && sh == 3 && (a + b) % 3) continue;
            run(&c);
        }
    }
    /* many levels: a tag (or two) at each of them, own levels and external ones before it */
    for (int n = 3; n <= NL; n += n < 12 ? 1 : 4) for (int k = 0; k < n; ++k) for (int mk = 0; mk < N2; ++mk) for (int e = 0; e < NO; ++e) for (int fin = 0; fin < 2; ++fin) for (int second = -1; second < n; second = second < 0 ? k + 1 : second + (n > 6 ? 3 : 1)) {
        memset(&c, 0, sizeof c); c.n = n; c.xent = -1; c.def = n & 1; c.xmask = 15;
        for (int i = 0; i < n; ++i) { c.mask[i] = mk & 1 ? 15 : masks2[(mk + i * (mk >> 1)) % N2]; c.ext[i] = mk == 4 && i != k && i != second && i % 3 == 0; }
        c.nops = second < 0 ? 1 : 2; if (second >= n) break;
        c.o[0] = (struct op){k, ents[e], fin, 0}; if (second >= 0) c.o[1] = (struct op){second, ents[e], !fin, 0};
        run(&c);
    }
    /* refusals */
    for (int l = -1; l < 4; ++l) { memset(&c, 0, sizeof c); c.n = 2; c.mask[0] = c.mask[1] = 15; c.xmask = 15; c.xent = -1; c.ext[1] = 1; c.nops = 1; c.o[0] = (struct op){l, MA, 0, 0}; run(&c); }
    for (int l = 1; l <= (h_thorough ? 8 : 7); ++l) texts("ab:\" \\", l, "", "");
    for (int l = 0; l <= (h_thorough ? 7 : 6); ++l) { texts("ab:\" \\", l, "a:\"x\" ", ""); texts("ab:\" \\", l, "", "\" b:\"y\""); texts("ab:\" \\", l, "ab:\"", "\""); }
}
