/* P19: lookup of (file, place, name) in every database over small sets of names: every database of at most N names per
 * level is built and every query is compared with a linear search. */
#include "h.h"
#include "metac/reflect.h"
#include "metac/backend/entry.h"
#define U 5
static const char *const F[U] = {"/a", "/a.c", "/a/b.c", "/ab", "/b"}, *const L[U] = {"A", "a", "a_", "a_1", "b"}, *const N[U] = {"v", "v1", "v10", "v2", "w"};
static const char *const OTHER[] = {"", "/", "a_0", "v11", "V", "zz", "vv", "/a.", "/a.c ", "v ", "A0"};
static metac_entry_t E[U][U][U][2];
static int pc(int m) { return __builtin_popcount(m); }
static int contains(int m, const char *const *T, const char *s) { for (int i = 0; i < U; ++i) if (m >> i & 1 && !strcmp(T[i], s)) return i; return -1; }
/* which names a place of a file has: depends on both, so that an answer from a wrong place is noticed */
static int rot(int m, int k) { return m == 0 ? 0 : ((m << k) | (m >> (U - k))) & ((1 << U) - 1); }
static void run(int mf, int ml, int mn, int dup, int copies) {
    struct metac_per_file_item fi[U]; struct metac_per_loc_item *li = calloc(U * U, sizeof *li); struct metac_per_name_item ni[U][U][U]; metac_entry_t *pe[U][U][U][2], **many = calloc(copies, sizeof *many);
    int nf = 0;
    for (int i = 0; i < copies; ++i) many[i] = &E[0][0][0][i & 1];
    for (int f = 0; f < U; ++f) {
        if (!(mf >> f & 1)) continue;
        int nl = 0, m1 = rot(ml, f);
        for (int l = 0; l < U; ++l) {
            if (!(m1 >> l & 1)) continue;
            int nn = 0, m2 = rot(mn, (f + l) % U);
            for (int n = 0; n < U; ++n) if (m2 >> n & 1) {
                for (int k = 0; k < 2; ++k) pe[f][l][n][k] = &E[f][l][n][k];
                int c = dup == n ? copies : dup == n + U ? 0 : 1;
                ni[f][l][nn++] = (struct metac_per_name_item){.name = (char *)N[n], .entry_count = c, .pp_entries = c > 2 ? many : pe[f][l][n]};
            }
            struct metac_per_loc_item it = {.loc_name = (char *)L[l], .per_name_item_count = nn, .per_name_items = ni[f][l]};
            memcpy(&li[f * U + nl++], &it, sizeof it);
        }
        fi[nf++] = (struct metac_per_file_item){.file = (char *)F[f], .per_loc_item_count = nl, .per_loc_items = li + f * U};
    }
    struct metac_entry_db db = {.per_file_item_count = nf, .per_file_items = fi};
    int nq = U + sizeof OTHER / sizeof OTHER[0];
    for (int a = 0; a < nq && !h_failed(); ++a) for (int b = 0; b < nq && !h_failed(); ++b) for (int c = 0; c < nq; ++c) {
        if ((a >= U) + (b >= U) + (c >= U) > 1) continue;
        const char *qf = a < U ? F[a] : OTHER[a - U], *ql = b < U ? L[b] : OTHER[b - U], *qn = c < U ? N[c] : OTHER[c - U];
        int f = contains(mf, F, qf), l = f < 0 ? -1 : contains(rot(ml, f), L, ql), n = l < 0 ? -1 : contains(rot(mn, (f + l) % U), N, qn);
        metac_entry_t *want = n < 0 || dup == n || dup == n + U ? NULL : &E[f][l][n][0];
        struct metac_decl_loc q = {.file = (char *)qf, .name = (char *)ql};
        metac_entry_t *got = metac_entry_from_entry_db(&db, &q, (char *)qn); h_ops(1);
        if (got != want) { h_fail("lookup of %s in %s of %s gives %s", qn, ql, qf, !got ? "nothing" : want ? "another entry" : "an entry"); break; }
    }
    struct metac_decl_loc q = {.file = (char *)F[0], .name = (char *)L[0]}, q0 = {.file = (char *)F[0], .name = NULL};
    H_CHECK(!metac_entry_from_entry_db(NULL, &q, (char *)N[0]) && !metac_entry_from_entry_db(&db, NULL, (char *)N[0]) && !metac_entry_from_entry_db(&db, &q0, (char *)N[0]) && !metac_entry_from_entry_db(&db, &q, NULL), "a lookup without database, place or name finds something");
    h_state(h_hash(h_hash(h_hash(h_hash(H_HASH0, &mf, 4), &ml, 4), &mn, 4), &dup, 4) ^ (copies << 20));
    free(li); free(many);
}
/* scale: many long names that share a prefix, at one level; names with bytes above 127 */
static int bystr(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static void big(int level, int count, int prefix, int tail) {
    char **nm = calloc(count, sizeof *nm);
    for (int i = 0; i < count; ++i) {
        nm[i] = malloc(prefix + 40 + tail); memset(nm[i], 'p', prefix);
        sprintf(nm[i] + prefix, i % 5 == 4 ? "\xc3\xa9%d" : i % 5 == 3 ? "Z%d" : "%d", i); size_t l = strlen(nm[i]); memset(nm[i] + l, 't', tail); nm[i][l + tail] = 0;
    }
    qsort(nm, count, sizeof *nm, bystr);
    metac_entry_t *ent = calloc(count, sizeof *ent), **pe = calloc(count, sizeof *pe);
    int nf = level == 0 ? count : 1, nl = level == 1 ? count : 1, nn = level == 2 ? count : 1;
    struct metac_per_name_item *ni = calloc(count, sizeof *ni); struct metac_per_loc_item *li = calloc(count, sizeof *li); struct metac_per_file_item *fi = calloc(count, sizeof *fi);
    for (int i = 0; i < count; ++i) { pe[i] = &ent[i]; struct metac_per_name_item x = {.name = level == 2 ? nm[i] : "n", .entry_count = 1, .pp_entries = &pe[i]}; memcpy(&ni[i], &x, sizeof x); }
    for (int i = 0; i < count; ++i) { struct metac_per_loc_item x = {.loc_name = level == 1 ? nm[i] : "l", .per_name_item_count = nn, .per_name_items = level == 2 ? ni : &ni[i]}; memcpy(&li[i], &x, sizeof x); }
    for (int i = 0; i < count; ++i) { struct metac_per_file_item x = {.file = level == 0 ? nm[i] : "f", .per_loc_item_count = nl, .per_loc_items = level == 1 ? li : &li[i]}; memcpy(&fi[i], &x, sizeof x); }
    struct metac_entry_db db = {.per_file_item_count = nf, .per_file_items = fi};
    for (int i = 0; i < count && !h_failed(); ++i) for (int v = 0; v < 4; ++v) { /* the name; longer; shorter; another last character */
        char *q = malloc(strlen(nm[i]) + 2); strcpy(q, nm[i]); size_t l = strlen(q);
        if (v == 1) { q[l] = 't' + !tail; q[l + 1] = 0; } else if (v == 2) q[l - 1] = 0; else if (v == 3) q[l - 1] ^= 1;
        char **hit = bsearch(&q, nm, count, sizeof *nm, bystr); metac_entry_t *want = hit ? &ent[hit - nm] : NULL;
        struct metac_decl_loc d = {.file = level == 0 ? q : "f", .name = level == 1 ? q : "l"};
        metac_entry_t *got = metac_entry_from_entry_db(&db, &d, level == 2 ? q : "n"); h_ops(1);
        if (got != want) h_fail("lookup of '%s' (one of %d) gives %s", q, count, !got ? "nothing" : want ? "another entry" : "an entry");
        free(q);
    }
    h_state(h_hash(h_hash(h_hash(H_HASH0, &level, 4), &count, 4), &prefix, 4) ^ tail);
    for (int i = 0; i < count; ++i) free(nm[i]);
    free(nm); free(ent); free(pe); free(ni); free(li); free(fi);
}
void h_main_enumerate(void) {
    static const int cn[] = {1, 2, 3, 16, 127, 128, 129, 255, 256, 257, 1000}, px[] = {0, 7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 255, 256, 300, 1023, 1024, 4096};
    static const char *const lv[] = {"files", "places", "names"};
    for (int l = 0; l < 3; ++l) for (unsigned c = 0; c < sizeof cn / sizeof *cn; ++c) for (unsigned p = 0; p < sizeof px / sizeof *px; ++p) for (int t = 0; t < 2; ++t)
        if (h_begin("%d %s with a common prefix of %d and tail of %d", cn[c], lv[l], px[p], t * 200)) { big(l, cn[c], px[p], t * 200); h_end(); }
    static const int cp[] = {3, 127, 128, 129, 255, 256, 257, 512, 513, 32769, 65535, 65536, 65537};
    for (unsigned c = 0; c < sizeof cp / sizeof *cp; ++c) for (int dup = 0; dup < U; ++dup) if (h_begin("%d entries for name %d", cp[c], dup)) { run(31, 31, 31, dup, cp[c]); h_end(); }
    for (int mf = 0; mf < 1 << U; ++mf) for (int ml = 0; ml < 1 << U; ++ml) for (int mn = 0; mn < 1 << U; ++mn) {
        if (!h_thorough && pc(mf) + pc(ml) + pc(mn) > 9 && (pc(mf) != U || pc(ml) != U || pc(mn) != U)) continue;
        for (int dup = -1; dup < (h_thorough ? 2 * U : 1); ++dup) {
            if (!h_begin("files %02x, places %02x, names %02x, %s %d", mf, ml, mn, dup < 0 ? "one entry per name" : dup < U ? "two entries for name" : "no entry for name", dup)) continue;
            run(mf, ml, mn, dup, 2); h_outcome("%s", dup < 0 ? "unique" : "ambiguous"); h_end();
        }
    }
}
