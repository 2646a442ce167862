/* P17: every captured argument has the value passed. Included at the end of a generated file. */
static metac_value_t *vwrap(metac_value_t *v, metac_tag_map_t *tm, ...) { va_list ap; va_start(ap, tm); metac_value_t *r = metac_value_parameter_vwrap(v, tm, ap); va_end(ap); return r; }
static wrap_fn *const wraps[2] = {metac_value_parameter_wrap, vwrap};
static metac_tag_map_t *tags, *notags;
METAC_TAG_MAP_NEW(new_notags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter),},)
METAC_TAG_MAP_END
static const char *const fmts[] = {"", "%d", "%s|%ld", "%f%c%p%hd%Lf%lld%x%u"};
static const int nargs[] = {0, 1, 2, 8};
/* 0 when the value holds exactly the expected bytes */
static void chk(metac_value_t *it, int pos, const struct kind *k, const void *want) {
    const unsigned char *a = metac_value_addr(it), *w = want;
    if (!a) { h_fail("parameter %d has no data", pos); return; }
    for (size_t j = 0; j < k->size; ++j)
        if (!k->ignore[j] && a[j] != w[j]) { h_fail("parameter %d (%s): byte %zu is %02x, %02x was passed", pos, k->name, j, a[j], w[j]); return; }
    metac_size_t sz = 0; metac_entry_t *te = metac_entry_parameter_entry(metac_value_entry(it));
    if (!te || metac_entry_byte_size(te, &sz) != 0 || sz != k->size) h_fail("parameter %d (%s): type of %zu bytes, passed %zu", pos, k->name, (size_t)sz, k->size);
}
#define LEAF(T, v) { T e_ = (v); metac_size_t s_ = 0; metac_entry_byte_size(metac_value_entry(q), &s_); if (s_ != sizeof(T)) h_fail("variable argument %d: %zu bytes, expected %zu", j, (size_t)s_, sizeof(T)); else { T g_; memcpy(&g_, metac_value_addr(q), sizeof g_); if (!(g_ == e_)) h_fail("variable argument %d has another value than passed", j); } } break;
static void chk_va(metac_value_t *it, int nf) {
    if (!metac_value_has_parameter_load(it)) { h_fail("the variable arguments carry no list"); return; }
    int n = (int)metac_value_parameter_count(it);
    if (n != nargs[nf]) { h_fail("%d variable arguments recorded, %d passed", n, nargs[nf]); return; }
    for (int j = 0; j < n; ++j) {
        metac_value_t *q = metac_value_parameter_new_item(it, j);
        if (!q) { h_fail("variable argument %d cannot be read", j); return; }
        switch (nf * 16 + j) {
            case 16: LEAF(int, 11)
            case 32: { metac_size_t sz = 0; metac_entry_byte_size(metac_value_entry(q), &sz); if (sz != 4 || memcmp(metac_value_addr(q), "str", 4)) h_fail("string argument of %zu bytes differs", (size_t)sz); } break; /* kept as its own copy of the text */
            case 33: LEAF(long, -5L)
            case 48: LEAF(double, 1.5) case 49: LEAF(char, 'c') case 50: LEAF(void *, (void *)0x1234) case 51: LEAF(short, -3)
            case 52: { long double g; memcpy(&g, metac_value_addr(q), sizeof g); if (g != 2.25L) h_fail("long double argument differs"); } break;
            case 53: LEAF(long long, -7LL) case 54: LEAF(unsigned, 0xdeadu) case 55: LEAF(unsigned, 9u)
        }
        metac_value_delete(q);
    }
}
static void one(struct row *r, int p, int w, int nf, int tm) {
    metac_entry_t *e = (r->link->pp_entry ? *r->link->pp_entry : NULL);
    ha_start(0, 0);
    metac_value_t *v = metac_new_value_with_call_params(e);
    if (!v) { h_fail("no value for the call"); ha_stop(); return; }
    metac_parameter_storage_t *st = metac_value_addr(v);
    metac_tag_map_t *map = tm == 0 ? NULL : tm == 1 ? tags : notags;
    metac_value_t *g = r->call ? r->call(wraps[w], v, map, p) : r->vcall(wraps[w], v, map, p, fmts[nf], nf);
    h_ops(1);
    int must = r->va < 0 || tm == 1;
    if (!g) {
        metac_parameter_storage_delete(st);
        if (must) h_fail("the call is not captured");
        else h_outcome("refused without a description");
    } else {
        H_CHECK(g == v, "another value came back");
        H_CHECK((int)metac_value_parameter_count(g) == r->n, "%d parameters captured of %d", (int)metac_value_parameter_count(g), r->n);
        for (int i = 0; i < r->n && !h_failed(); ++i) {
            metac_value_t *it = metac_value_parameter_new_item(g, i);
            if (!it) { h_fail("parameter %d cannot be read", i); break; }
            H_CHECK(metac_value_entry(it) == metac_entry_by_paremeter_id(e, i), "parameter %d has another description", i);
            if (r->k[i] == K_VA) { if (tm == 1) chk_va(it, nf); else H_CHECK(metac_value_parameter_count(it) == 0, "undescribed variable arguments are not empty"); }
            else if (r->k[i] == K_FMT) { const char *f; memcpy(&f, metac_value_addr(it), sizeof f); H_CHECK(f == fmts[nf], "parameter %d: the format pointer differs", i); }
            else chk(it, i, &kinds[r->k[i]], (char *)kinds[r->k[i]].x + (p * NPOS + i) * kinds[r->k[i]].size);
            metac_value_delete(it);
        }
        metac_value_t *o = metac_value_parameter_new_item(g, r->n);
        H_CHECK(o == NULL, "a parameter behind the last one");
        metac_value_with_call_params_delete(g);
        h_outcome("captured %s", r->va < 0 ? "fixed" : tm == 1 ? "variable" : "variable, undescribed");
        h_state(h_hash(h_hash(H_HASH0, r->sig, strlen(r->sig)), &p, sizeof p));
    }
    H_CHECK(ha_live() == 0, "%ld blocks are still allocated", ha_live());
    ha_stop();
}
void h_main_enumerate(void) {
    fill_all();
    tags = new_tags(); notags = new_notags();
    if (!tags || !notags) { fprintf(stderr, "SETUP tag maps\n"); exit(3); }
    for (size_t i = 0; i < sizeof rows / sizeof *rows; ++i)
        for (int w = 0; w < 2; ++w)
            for (int p = 0; p < NPAT; ++p)
                for (int nf = 0; nf < (rows[i].va < 0 ? 1 : 4); ++nf)
                    for (int tm = rows[i].va < 0 ? 0 : 0; tm < (rows[i].va < 0 ? 1 : 3); ++tm) {
                        if (!h_begin("%s of (%s), values %d%s%s%s%s", w ? "vwrap" : "wrap", rows[i].sig, p, rows[i].va < 0 ? "" : ", format \"", rows[i].va < 0 ? "" : fmts[nf], rows[i].va < 0 ? "" : "\"", rows[i].va < 0 ? "" : tm == 0 ? ", no map" : tm == 1 ? "" : ", no tag")) continue;
                        one(&rows[i], p, w, nf, tm);
                        h_end();
                    }
    for (size_t i = 0; i < sizeof resrows / sizeof *resrows; ++i) {
        if (!h_begin("result %s", resrows[i].name)) continue;
        metac_entry_t *e = (resrows[i].link->pp_entry ? *resrows[i].link->pp_entry : NULL);
        ha_start(0, 0);
        metac_value_t *v = metac_new_value_with_call_result(e);
        h_ops(1);
        if (resrows[i].k == K_N) H_CHECK(v == NULL, "a result value for a function without result");
        else if (!v) h_fail("no result value");
        else {
            struct kind *k = &kinds[resrows[i].k];
            H_CHECK(ha_live_size(metac_value_addr(v)) >= k->size, "%zu bytes reserved for a result of %zu", ha_live_size(metac_value_addr(v)), k->size);
            if (!h_failed()) { memcpy(metac_value_addr(v), k->x, k->size); H_CHECK(metac_value_entry(v) == metac_entry_result_type(e), "another description"); }
            metac_size_t sz = 0; H_CHECK(metac_entry_byte_size(metac_value_entry(v), &sz) == 0 && sz == k->size, "result of %zu bytes described as %zu", k->size, (size_t)sz);
        }
        metac_value_with_call_result_delete(v);
        H_CHECK(ha_live() == 0, "%ld blocks are still allocated", ha_live());
        ha_stop();
        h_end();
    }
    metac_tag_map_delete(tags); metac_tag_map_delete(notags);
}
