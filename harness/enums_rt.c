/* P11: enumerations: reading, writing, comparing, copying, naming against the compiler */
#define SZ 64
static metac_value_t *loc(struct row *r, void *m, int i) {
    metac_value_t *v = metac_new_value(*r->link->pp_entry, m), *f = NULL;
    if (!v) return NULL;
    static char *nm[] = {"f", "arr", "arr", "bf"};
    metac_num_t id = metac_entry_member_name_to_id(metac_value_entry(v), nm[i]);
    if (id >= 0) f = metac_new_value_by_member_id(v, id);
    metac_value_delete(v);
    if (f && (i == 1 || i == 2)) { metac_value_t *e = metac_new_value_by_element_id(f, i - 1); metac_value_delete(f); f = e; }
    return f;
}
static void one(struct row *r, int i) {
    static unsigned char m[SZ], exp[SZ], m2[SZ], ones[SZ];
    metac_value_t *f = loc(r, m, i), *f2 = loc(r, m2, i);
    if (!f || !f2) { h_fail("value not reachable"); return; }
    if (!metac_value_is_enumeration(f)) { h_fail("not recognised as enumeration"); return; }
    metac_size_t sz = 0; if (metac_entry_byte_size(metac_entry_final_entry(metac_value_entry(f), NULL), &sz) || sz != r->esz) h_fail("size %d, compiler %zu", (int)sz, r->esz);
    if (metac_value_enumeration_info_size(f) != 3) h_fail("%d enumerators", metac_value_enumeration_info_size(f));
    else for (int k = 0; k < 3; ++k) {
        struct metac_type_enumerator_info const *p = metac_value_enumeration_info(f, k);
        const char *wn = k == 0 ? r->na : k == 1 ? r->nb : r->nd; long long wv = k == 1 ? r->eb : r->ea;
        if (!p || strcmp(p->name, wn) || p->const_value != wv) h_fail("enumerator %d is %s=%lld, expected %s=%lld", k, p ? p->name : "?", p ? (long long)p->const_value : 0, wn, wv);
    }
    if (metac_value_enumeration_info(f, 3) != NULL || metac_value_enumeration_info(f, -1) != NULL) h_fail("enumerator out of range returned");
    long long vals[] = {r->ea, r->eb, 0, 1, 3};
    static const unsigned char bg[] = {0, 0xFF, 0xA5};
    memset(ones, 0, SZ); r->set(ones, i, -1);
    for (int b = 0; b < 3 && !h_failed(); ++b) for (int k = 0; k < 5 && !h_failed(); ++k) {
        memset(m, bg[b], SZ); r->set(m, i, vals[k]);
        long long want = r->get(m, i); metac_const_value_t got = 77;
        int rc = metac_value_enumeration(f, &got);
        if (rc || got != want) { h_fail("read gives %lld (rc %d), the compiler reads %lld", (long long)got, rc, want); break; }
        metac_num_t num;
        if (want == (metac_num_t)want && (metac_value_num(f, &num) || num != want)) { h_fail("as number: %d, expected %lld", num, want); break; }
        char *s = metac_value_enumeration_string(f), e[40];
        metac_name_t n = metac_value_enumeration_to_name(f, want);
        snprintf(e, sizeof e, "%lld", want);
        if (want == r->ea || want == r->eb) {
            int ok = s && n && ((want == r->ea && (!strcmp(s, r->na) || !strcmp(s, r->nd))) || (want == r->eb && !strcmp(s, r->nb))) && !strcmp(s, n);
            if (!ok) h_fail("value %lld printed as %s / named %s", want, s ? s : "NULL", n ? n : "NULL");
        } else if (!s || strcmp(s, e) || n) h_fail("value %s printed as %s / named %s", e, s ? s : "NULL", n ? n : "NULL");
        free(s);
        h_state(h_hash(h_hash(H_HASH0, r->name, strlen(r->name)), m, r->size));
        /* write */
        memset(m, bg[b], SZ); memcpy(exp, m, SZ); r->set(exp, i, vals[k]);
        for (int q = 0; q < SZ; ++q) exp[q] = (bg[b] & ~ones[q]) | (exp[q] & ones[q]);
        rc = metac_value_set_enumeration(f, vals[k]);
        if (rc || memcmp(m, exp, SZ)) { int q = 0; while (q < SZ - 1 && m[q] == exp[q]) ++q; h_fail("write %lld (rc %d): byte %d is %02x, expected %02x%s", vals[k], rc, q, m[q], exp[q], (m[q] ^ exp[q]) & ~ones[q] ? " (neighbour)" : ""); break; }
        /* equal / copy */
        for (int j = 0; j < 5; ++j) {
            memset(m2, ~bg[b], SZ); r->set(m2, i, vals[j]);
            int eq = metac_value_equal_enumeration(f, f2), we = r->get(m, i) == r->get(m2, i);
            if (eq != we) { h_fail("equality of %lld and %lld is %d", vals[k], vals[j], eq); break; }
            memcpy(exp, m2, SZ); r->set(exp, i, r->get(m, i));
            for (int q = 0; q < SZ; ++q) exp[q] = (m2[q] & ~ones[q]) | (exp[q] & ones[q]);
            if (metac_value_copy_enumeration(f, f2) != f2 || memcmp(exp, m2, SZ)) { h_fail("copy of %lld over %lld is wrong", vals[k], vals[j]); break; }
            h_ops(2);
        }
        h_ops(4);
    }
    metac_value_delete(f); metac_value_delete(f2);
}
static void big(struct brow *r) {
    metac_value_t *v = metac_new_value(*r->link->pp_entry, r->link->p_data);
    if (!v) { h_fail("no value"); return; }
    if (metac_value_enumeration_info_size(v) != r->n) h_fail("%d enumerators, expected %d", metac_value_enumeration_info_size(v), r->n);
    if (metac_value_enumeration_info(v, r->n) || metac_value_enumeration_info(v, -1)) h_fail("enumerator out of range");
    for (int i = 0; i < r->n && !h_failed(); ++i) {
        struct metac_type_enumerator_info const *p = metac_value_enumeration_info(v, i);
        if (!p || strcmp(p->name, r->c[i].n) || p->const_value != r->c[i].v) { h_fail("enumerator %d is %s = %lld, expected %s = %lld", i, p ? p->name : "?", p ? (long long)p->const_value : 0, r->c[i].n, r->c[i].v); break; }
        for (int d = -1; d <= 1 && !h_failed(); ++d) { /* the constant and its neighbours */
            long long x; if (__builtin_add_overflow(r->c[i].v, d, &x)) continue;
            r->set(x); x = r->get();
            int named = 0; for (int k = 0; k < r->n; ++k) named |= r->c[k].v == x;
            metac_const_value_t got = 0;
            if (metac_value_enumeration(v, &got) || got != x) { h_fail("read gives %lld, expected %lld", (long long)got, x); break; }
            metac_name_t n = metac_value_enumeration_to_name(v, x);
            char *s = metac_value_enumeration_string(v), *s2 = metac_value_string(v), e[40]; snprintf(e, sizeof e, "%lld", x);
            if (!s || !s2 || strcmp(s, s2)) h_fail("text of %lld is %s and %s", x, s ? s : "NULL", s2 ? s2 : "NULL");
            else if (!named) { if (n || strcmp(s, e)) h_fail("%lld isn't a constant, but its name is %s, text %s", x, n ? n : "NULL", s); }
            else {
                int ok = 0; for (int k = 0; k < r->n; ++k) ok |= r->c[k].v == x && n && !strcmp(r->c[k].n, n);
                if (!ok) h_fail("%lld has name %s", x, n ? n : "NULL");
                else if (strcmp(n, s)) h_fail("%s has text %s", n, s);
            }
            free(s); free(s2);
            r->set(r->c[0].v);
            if (metac_value_set_enumeration(v, x) || r->get() != x) h_fail("writing %lld stores %lld", x, r->get());
            h_ops(5); h_state(h_hash(h_hash(H_HASH0, r->name, strlen(r->name)), &x, sizeof x));
        }
    }
    metac_value_delete(v);
}
void h_main_enumerate(void) {
    for (size_t i = 0; i < sizeof brows / sizeof *brows; ++i) if (h_begin("enum of %s", brows[i].name)) { big(&brows[i]); h_end(); }
    static const char *w[] = {"member", "element 0", "element 1", "bit-field"};
    for (size_t i = 0; i < sizeof rows / sizeof *rows; ++i) for (int k = 0; k < 4; ++k)
        if (h_begin("enum %s (%zu byte, bit-field of %d) as %s", rows[i].name, rows[i].esz, rows[i].w, w[k])) { one(&rows[i], k); h_end(); }
}
