/* P10: every bit-field (type, position, width, packed or not) x every background x every boundary value, against the compiler's own accesses */
/* only the bytes around the field are compared in full; the rest of the structure is covered by a memcmp */
static metac_value_t *field(struct row *r, void *m) {
    metac_value_t *v = metac_new_value(*r->link->pp_entry, m);
    if (!v) return NULL;
    metac_value_t *f = NULL;
    metac_num_t id = metac_entry_member_name_to_id(metac_value_entry(v), (metac_name_t)r->memb);
    if (id >= 0) f = metac_new_value_by_member_id(v, id);
    metac_value_delete(v);
    return f;
}
static void one(struct row *r) {
    static unsigned char *pool;
    size_t at = r->at, want_sz = (r->size + 31) & ~(size_t)15;
    static size_t pool_sz;
    if (pool_sz < want_sz) { free(pool); pool = malloc(5 * want_sz); pool_sz = want_sz; if (!pool) { h_fail("no memory"); return; } memset(pool, 0, 5 * want_sz); }
    /* the structures; everything below looks at the window [at, size] of them */
    unsigned char *sm = pool, *sones = pool + want_sz, *sexp = pool + 2 * want_sz, *skeep = pool + 3 * want_sz, *sm2 = pool + 4 * want_sz;
    unsigned char *m = sm + at, *ones = sones + at, *exp = sexp + at, *keep = skeep + at, *m2 = sm2 + at;
    size_t sz = r->size - at + 1;
    memset(m, 0, sz);
    memset(ones, 0, sz); r->set(sones, -1); /* the bits of the field */
    metac_value_t *f = field(r, sm);
    if (!f || !metac_value_name(f) || strcmp(metac_value_name(f), r->memb)) { h_fail("member not found"); return; }
    long long vals[80]; int nv = 0;
    vals[nv++] = 0; vals[nv++] = -1; vals[nv++] = 0x5555555555555555LL; vals[nv++] = 0xAAAAAAAAAAAAAAAALL;
    for (int b = 0; b < r->w; ++b) { vals[nv++] = 1LL << b; }
    vals[nv++] = (long long)(~0ULL >> (64 - r->w) >> 1); /* signed max */
    static const unsigned char bg[] = {0, 0xFF, 0xA5, 0x5A};
    for (int b = 0; b < 4 && !h_failed(); ++b) for (int i = 0; i < nv && !h_failed(); ++i) {
        /* read */
        memset(m, bg[b], sz); r->set(sm, vals[i]);
        memcpy(keep, m, sz);
        long long want = r->get(sm), got = 0x1234567;
        int rc = r->rd(f, &got); h_ops(1);
        if (rc) { h_fail("%s: read fails with %d", r->name, rc); break; }
        if (got != want) { h_fail("%s: read %lld (0x%llx), the compiler reads %lld", r->name, got, got, want); break; }
        if (memcmp(keep, m, sz)) { h_fail("%s: reading changed memory", r->name); break; }
        h_state(h_hash(h_hash(H_HASH0, r->name, strlen(r->name)), m, sz));
        /* text */
        char *s = metac_value_base_type_string(f);
        if (!s && r->rd != rd_char_s) { h_fail("%s: no string", r->name); break; }
        if (r->rd == rd_bool) { if (strcmp(s, want ? "true" : "false")) h_fail("%s: printed %s for %lld", r->name, s, want); }
        else if (r->rd != rd_char && r->rd != rd_char_s) { char e[32]; snprintf(e, sizeof e, r->sg ? "%lld" : "%llu", want); if (strcmp(s, e)) h_fail("%s: printed %s for %s", r->name, s, e); }
        free(s);
        /* write */
        memset(m, bg[b], sz); memcpy(exp, m, sz); r->set(sexp, vals[i]);
        for (size_t k = 0; k < sz; ++k) exp[k] = (bg[b] & ~ones[k]) | (exp[k] & ones[k]);
        rc = r->wr(f, vals[i]); h_ops(1);
        if (rc) { h_fail("%s: write fails with %d", r->name, rc); break; }
        for (size_t k = 0; k < sz; ++k) if (m[k] != exp[k]) { h_fail("%s: after writing 0x%llx over 0x%02x byte %zu is 0x%02x, expected 0x%02x (%s)", r->name, vals[i], bg[b], k, m[k], exp[k], ((m[k] ^ exp[k]) & ~ones[k]) ? "bits of neighbours changed" : "wrong value"); break; }
        /* equal and copy between two instances */
        memset(m2, ~bg[b], sz);
        metac_value_t *f2 = field(r, sm2);
        if (!f2) { h_fail("no second value"); break; }
        memcpy(m, keep, sz);
        int eq = metac_value_equal_base_type(f, f2), weq = r->get(sm) == r->get(sm2);
        if (eq != weq) h_fail("%s: equality is %d, the compiler says %d", r->name, eq, weq);
        if (metac_value_copy_base_type(f, f2) != f2) h_fail("%s: copy refused", r->name);
        for (size_t k = 0; k < sz; ++k) { unsigned char e = (unsigned char)((~bg[b] & ~ones[k]) | (keep[k] & ones[k])); if (m2[k] != e) { h_fail("%s: copy left byte %zu 0x%02x, expected 0x%02x", r->name, k, m2[k], e); break; } }
        if (metac_value_equal_base_type(f, f2) != 1) h_fail("%s: copy is not equal", r->name);
        h_ops(3);
        metac_value_delete(f2);
    }
    metac_value_delete(f);
}
void h_main_enumerate(void) {
    for (size_t i = 0; i < sizeof rows / sizeof *rows; ++i)
        if (h_begin("bit-field %s (%s)", rows[i].name, rows[i].memb)) { one(&rows[i]); h_end(); }
}
