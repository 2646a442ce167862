/* P12/P20: the reflection data describe the program as the compiler sees it, and values navigate it by the compiler's addresses */
static int depth_limit, any_quals; /* qualifiers of a result mean nothing, compilers differ in keeping them */
static void cmp(metac_entry_t *e, struct xt *x, int d, const char *path);
static void fail_at(const char *path, const char *what, const char *a, const char *b) { h_fail("%s: %s is %s, expected %s", path, what, a ? a : "NULL", b ? b : "NULL"); }
static void cmpn(const char *path, const char *what, long long a, long long b) { if (a != b) h_fail("%s: %s is %lld, expected %lld", path, what, a, b); h_ops(1); }
static void cmp(metac_entry_t *e, struct xt *x, int d, const char *path) {
    char sub[512];
    if (h_failed() || d > depth_limit) return;
    if (x->kind == 0) { /* qualified void */
        if (e && metac_entry_final_entry(e, NULL) != NULL) h_fail("%s: void expected", path);
        return;
    }
    if (!e) { h_fail("%s: no entry", path); return; }
    metac_quals_t q = {.flags = 0};
    metac_entry_t *f = metac_entry_final_entry(e, &q);
    if (!f) { h_fail("%s: no final entry", path); return; }
    cmpn(path, "kind", metac_entry_kind(f), x->kind); if (h_failed()) return;
    int aq = any_quals; any_quals = 0;
    if (x->kind != METAC_KND_array_type && !aq) { /* where the qualifier of an array sits is up to the compiler */
        cmpn(path, "const", q.flag_const, !!(x->quals & Q_const)); cmpn(path, "volatile", q.flag_volatile, !!(x->quals & Q_volatile));
        cmpn(path, "restrict", q.flag_restrict, !!(x->quals & Q_restrict));
    }
    metac_size_t sz = 0;
    if (x->size) { int rc = metac_entry_byte_size(e, &sz); cmpn(path, "size query", rc, 0); cmpn(path, "size", (long long)sz, x->size); }
    if (x->name && (!metac_entry_name(f) || strcmp(metac_entry_name(f), x->name)) && x->kind != METAC_KND_base_type) fail_at(path, "name", metac_entry_name(f), x->name);
    if (x->anon && metac_entry_name(f) != NULL) fail_at(path, "name of an anonymous type", metac_entry_name(f), NULL);
    /* exactly one of the kind predicates holds */
    cmpn(path, "is_base_type", metac_entry_is_base_type(e), x->kind == METAC_KND_base_type);
    cmpn(path, "is_pointer", metac_entry_is_pointer(e), x->kind == METAC_KND_pointer_type);
    cmpn(path, "has_elements", metac_entry_has_elements(e), x->kind == METAC_KND_array_type);
    cmpn(path, "is_enumeration", metac_entry_is_enumeration(e), x->kind == METAC_KND_enumeration_type);
    cmpn(path, "has_members", metac_entry_has_members(e), x->kind == METAC_KND_struct_type || x->kind == METAC_KND_union_type);
    cmpn(path, "has_parameters", metac_entry_has_parameters(e), x->kind == METAC_KND_subroutine_type || x->kind == METAC_KND_subprogram);
    switch (x->kind) {
    case METAC_KND_base_type: {
        metac_size_t s = 0; metac_encoding_t en = 0;
        cmpn(path, "base size rc", metac_entry_base_type_byte_size(e, &s), 0); cmpn(path, "base size", s, x->size);
        cmpn(path, "encoding rc", metac_entry_base_type_encoding(e, &en), 0); cmpn(path, "encoding", en, x->enc);
        if (!strcmp(x->name, "signed char")) break; /* the library has no accessors for it */
        /* exactly the accessors of this type accept it */
        static struct { const char *n; metac_flag_t (*is)(metac_entry_t *); } P[] = {{"char", metac_entry_is_char}, {"unsigned char", metac_entry_is_uchar}, {"short int", metac_entry_is_short}, {"short unsigned int", metac_entry_is_ushort}, {"int", metac_entry_is_int}, {"unsigned int", metac_entry_is_uint}, {"long int", metac_entry_is_long}, {"long unsigned int", metac_entry_is_ulong}, {"long long int", metac_entry_is_llong}, {"long long unsigned int", metac_entry_is_ullong}, {"_Bool", metac_entry_is_bool}, {"float", metac_entry_is_float}, {"double", metac_entry_is_double}, {"long double", metac_entry_is_ldouble}, {"complex float", metac_entry_is_float_complex}, {"complex double", metac_entry_is_double_complex}, {"complex long double", metac_entry_is_ldouble_complex}};
        for (size_t i = 0; i < sizeof P / sizeof *P; ++i) if (!!P[i].is(e) != !strcmp(P[i].n, x->name)) { h_fail("%s: type %s %s by the predicate of %s", path, x->name, P[i].is(e) ? "accepted" : "refused", P[i].n); return; }
        break; }
    case METAC_KND_enumeration_type:
        cmpn(path, "enumerators", metac_entry_enumeration_info_size(e), x->count);
        for (int i = 0; i < x->count && !h_failed(); ++i) { struct metac_type_enumerator_info const *p = metac_entry_enumeration_info(e, i); if (!p || strcmp(p->name, x->en[i].n) || p->const_value != x->en[i].v) h_fail("%s: enumerator %d", path, i); }
        break;
    case METAC_KND_pointer_type:
        cmpn(path, "void pointer", metac_entry_is_void_pointer(e), x->sub == NULL || x->sub->kind == 0);
        if (x->sub) { cmpn(path, "declaration pointer", metac_entry_is_declaration_pointer(e), x->declp); snprintf(sub, sizeof sub, "%s->", path); cmp(metac_entry_pointer_entry(e), x->sub, d + 1, sub); }
        else if (metac_entry_pointer_entry(e)) h_fail("%s: void pointer has a target type", path);
        break;
    case METAC_KND_array_type:
        if (x->count > 0) cmpn(path, "count", metac_entry_element_count(e), x->count);
        else if (metac_entry_element_count(e) != x->count && !(x->count == 0 && metac_entry_element_count(e) == -1)) cmpn(path, "count", metac_entry_element_count(e), x->count);
        snprintf(sub, sizeof sub, "%s[]", path); cmp(metac_entry_element_entry(e), x->sub, d + 1, sub);
        break;
    case METAC_KND_struct_type: case METAC_KND_union_type:
        if (x->decl) break;
        cmpn(path, "members", metac_entry_member_count(e), x->count);
        if (metac_entry_by_member_id(e, -1) || metac_entry_by_member_id(e, (metac_num_t)x->count)) h_fail("%s: member out of range", path);
        for (int i = 0; i < x->count && !h_failed(); ++i) {
            metac_entry_t *m = metac_entry_by_member_id(e, i);
            snprintf(sub, sizeof sub, "%s.%s", path, x->m[i].name ? x->m[i].name : "<anon>");
            if (!m || !metac_entry_is_member(m)) { h_fail("%s: no member entry", sub); break; }
            metac_name_t n = metac_entry_name(m);
            if (x->m[i].name ? !n || strcmp(n, x->m[i].name) : n && *n) { fail_at(sub, "member name", n, x->m[i].name); break; }
            if (x->m[i].name) cmpn(sub, "id by name", metac_entry_member_name_to_id(e, (metac_name_t)x->m[i].name), i);
            struct metac_member_raw_location_info li;
            cmpn(sub, "location rc", metac_entry_member_raw_location_info(m, &li), 0);
            if (!x->m[i].bits) cmpn(sub, "offset", li.byte_offset, x->m[i].off);
            else { /* the compiler shows where the bits of the field are */
                unsigned char *z = calloc(1, x->size); long lo = -1, hi = -1; x->m[i].probe(z);
                for (long k = 0; k < 8 * x->size; ++k) if (z[k / 8] >> k % 8 & 1) { if (lo < 0) lo = k; hi = k; }
                free(z);
                metac_offset_t by = 0, bi = 0, bs = 0;
                cmpn(sub, "bit-field location rc", metac_entry_member_bitfield_offsets(m, &by, &bi, &bs), 0);
                cmpn(sub, "first bit", (long long)by * 8 + bi, lo); cmpn(sub, "width", bs, hi - lo + 1); cmpn(sub, "declared width", bs, x->m[i].bits);
            }
            if (METAC_ENTRY_BY_MEMBER_IDS(e, 0, {.i = i}) != m) h_fail("%s: lookup by id path", sub);
            if (x->m[i].name && METAC_ENTRY_BY_MEMBER_IDS(e, 0, {.n = (metac_name_t)x->m[i].name}) != m) h_fail("%s: lookup by name path", sub);
            if (METAC_ENTRY_BY_MEMBER_IDS(e, 1, {.i = i}) != metac_entry_final_entry(m, NULL)) h_fail("%s: final lookup by path", sub);
            cmp(m, x->m[i].t, d + 1, sub);
            /* every path of two steps */
            struct xt *xi = x->m[i].t;
            if (xi->kind == METAC_KND_struct_type || xi->kind == METAC_KND_union_type) for (int j = 0; j < xi->count; ++j) {
                metac_entry_t *mm = METAC_ENTRY_BY_MEMBER_IDS(e, 0, {.i = i}, {.i = j});
                if (!mm || (xi->m[j].name && strcmp(metac_entry_name(mm), xi->m[j].name))) h_fail("%s: two-step lookup %d", sub, j);
            }
        }
        if (metac_entry_member_name_to_id(e, "no such member") >= 0) h_fail("%s: unknown member found", path);
        break;
    case METAC_KND_subroutine_type: case METAC_KND_subprogram:
        cmpn(path, "parameters", metac_entry_parameters_count(e), x->count);
        if (metac_entry_by_paremeter_id(e, -1) || metac_entry_by_paremeter_id(e, (metac_num_t)x->count)) h_fail("%s: parameter out of range", path);
        for (int i = 0; i < x->count && !h_failed(); ++i) {
            metac_entry_t *p = metac_entry_by_paremeter_id(e, i);
            snprintf(sub, sizeof sub, "%s(%d)", path, i);
            if (!p || !metac_entry_is_parameter(p)) { h_fail("%s: no parameter", sub); break; }
            cmpn(sub, "unspecified", metac_entry_is_unspecified_parameter(p), x->m[i].t == NULL);
            if (!x->m[i].t) continue;
            if (x->m[i].name) { if (!metac_entry_name(p) || strcmp(metac_entry_name(p), x->m[i].name)) fail_at(sub, "parameter name", metac_entry_name(p), x->m[i].name); cmpn(sub, "id by name", metac_entry_paremeter_name_to_id(e, (metac_name_t)x->m[i].name), i); }
            cmp(p, x->m[i].t, d + 1, sub); cmp(metac_entry_parameter_entry(p), x->m[i].t, d + 1, sub);
        }
        cmpn(path, "has result", metac_entry_has_result(e), x->sub != NULL);
        if (x->sub) { snprintf(sub, sizeof sub, "%s()", path); any_quals = 1; cmp(metac_entry_result_type(e), x->sub, d + 1, sub); }
        break;
    }
    h_state(h_hash(H_HASH0, path, strlen(path)) ^ (uint64_t)x->size);
}
/* long arrays: both ends and around every power of two */
static long next_index(long i, long n) {
    if (i + 1 < 16 || i + 1 >= n - 4) return i + 1;
    for (long p = 16;; p *= 2) for (long c = p - 2; c < p + 2; ++c) if (c > i) return c < n - 4 ? c : n - 4;
}
/* navigation: every sub-object's address is the compiler's */
static void nav(metac_value_t *v, struct xt *x, char *addr, int d, const char *path) {
    char sub[512];
    if (h_failed()) return;
    if (!v) { h_fail("%s: no value", path); return; }
    if (metac_value_addr(v) != addr) { h_fail("%s: address off by %ld", path, (long)((char *)metac_value_addr(v) - addr)); return; }
    metac_quals_t q; cmpn(path, "value kind", metac_value_final_kind(v, &q), x->kind);
    cmpn(path, "value has members", metac_value_has_members(v), x->kind == METAC_KND_struct_type || x->kind == METAC_KND_union_type);
    cmpn(path, "value has elements", metac_value_has_elements(v), x->kind == METAC_KND_array_type);
    cmpn(path, "value is pointer", metac_value_is_pointer(v), x->kind == METAC_KND_pointer_type);
    cmpn(path, "value is enumeration", metac_value_is_enumeration(v), x->kind == METAC_KND_enumeration_type);
    cmpn(path, "value is base type", metac_value_is_base_type(v), x->kind == METAC_KND_base_type);
    metac_value_t *c = metac_new_value_from_value(v);
    if (!c || metac_value_addr(c) != addr || metac_value_entry(c) != metac_value_entry(v)) h_fail("%s: duplicate differs", path);
    if (c) metac_value_delete(c);
    if (x->kind == METAC_KND_struct_type || x->kind == METAC_KND_union_type) {
        cmpn(path, "member count", metac_value_member_count(v), x->count);
        if (metac_new_value_by_member_id(v, -1) || metac_new_value_by_member_id(v, (metac_num_t)x->count)) h_fail("%s: member out of range", path);
        for (int i = 0; i < x->count && !h_failed(); ++i) { metac_value_t *m = metac_new_value_by_member_id(v, i); snprintf(sub, sizeof sub, "%s.%d", path, i); nav(m, x->m[i].t, addr + x->m[i].off, d + 1, sub); if (m) metac_value_delete(m); }
    } else if (x->kind == METAC_KND_array_type) {
        long n = x->count;
        if (n > 0) cmpn(path, "element count", metac_value_element_count(v), n);
        cmpn(path, "flexible", !!metac_value_element_count_flexible(v), n < 0 || (n == 0 && metac_value_element_count(v) == -1));
        if (metac_new_value_by_element_id(v, -1) || metac_new_value_by_element_id(v, n > 0 ? (metac_num_t)n : 0)) h_fail("%s: element out of range", path);
        for (int cnt = 1; cnt <= 2; ++cnt) { /* overriding the count */
            metac_value_t *o = metac_new_element_count_value(v, cnt);
            if (!o) { h_fail("%s: count override refused", path); break; }
            cmpn(path, "overridden count", metac_value_element_count(o), cnt);
            if (metac_value_addr(o) != addr) h_fail("%s: count override moved the array", path);
            if (metac_new_value_by_element_id(o, cnt)) h_fail("%s: element behind the overridden count", path);
            metac_value_t *l = metac_new_value_by_element_id(o, cnt - 1);
            metac_size_t es = 0; metac_entry_byte_size(metac_entry_element_entry(metac_value_entry(v)), &es);
            if (!l || (char *)metac_value_addr(l) != addr + es * (cnt - 1)) h_fail("%s: last overridden element", path);
            if (l) metac_value_delete(l);
            metac_value_delete(o);
        }
        for (long i = 0; i < n && !h_failed(); i = next_index(i, n)) { metac_value_t *m = metac_new_value_by_element_id(v, i); snprintf(sub, sizeof sub, "%s[%ld]", path, i); nav(m, x->sub, addr + x->sub->size * i, d + 1, sub); if (m) metac_value_delete(m); }
    } else if (x->kind == METAC_KND_pointer_type) {
        void *p = (void *)0x5a5a, *save; memcpy(&save, addr, sizeof save);
        cmpn(path, "void pointer", !!metac_value_is_void_pointer(v), x->sub == NULL || x->sub->kind == 0);
        if (metac_value_pointer(v, &p) || p != save) h_fail("%s: pointer read", path);
        if (!(x->quals & Q_const)) {
            static char tgt[8];
            if (metac_value_set_pointer(v, tgt)) h_fail("%s: pointer write refused", path);
            void *now; memcpy(&now, addr, sizeof now); if (now != tgt) h_fail("%s: pointer write had no effect", path);
            char *s = metac_value_pointer_string(v), e[32]; snprintf(e, sizeof e, "%p", (void *)tgt); if (!s || strcmp(s, e)) h_fail("%s: pointer text", path); free(s);
            memcpy(addr, &save, sizeof save);
        }
    }
    h_ops(4);
    h_state(h_hash(H_HASH0, path, strlen(path)) ^ (uint64_t)x->kind << 40);
}
void h_main_enumerate(void) {
    depth_limit = 12;
    for (size_t i = 0; i < sizeof rows / sizeof *rows; ++i) {
        struct row *r = &rows[i];
        if (!strcmp(h_mode, "cdecl")) continue;
        if (!r->x || (r->fn == 3 && !strcmp(h_mode, "nav"))) continue;
        if (h_begin("%s", r->desc)) {
            metac_entry_t *e = r->link->pp_entry ? *r->link->pp_entry : NULL;
            if (!e) h_fail("no entry");
            else {
                if (!metac_entry_name(e) || strcmp(metac_entry_name(e), r->name)) h_fail("name %s", metac_entry_name(e));
                cmpn(r->name, "entry kind", metac_entry_kind(e), r->fn == 1 ? METAC_KND_subprogram : METAC_KND_variable);
                depth_limit = r->fn == 1 ? 4 : 5;
                if (strcmp(h_mode, "nav")) cmp(e, r->x, 0, r->name);
                if (r->fn != 1 && strcmp(h_mode, "entry")) {
                    if (r->link->p_data != r->addr) h_fail("link address");
                    ha_start(0, 0);
                    metac_value_t *v = metac_new_value(e, r->addr);
                    nav(v, r->x, r->addr, 0, r->name);
                    if (v) metac_value_delete(v);
                    if (r->fn == 2) { /* too large to exist: navigation doesn't touch the memory */
                        v = metac_new_value(metac_entry_pointer_entry(e), (void *)0x10000);
                        nav(v, r->x->sub, (char *)0x10000, 0, "*huge");
                        if (v) metac_value_delete(v);
                    }
                    if (ha_live()) h_fail("%ld values leaked", ha_live());
                    ha_stop();
                    if (metac_new_value(e, NULL) != NULL) h_fail("value without address");
                }
            }
            h_end();
        }
    }
    if (!strcmp(h_mode, "cdecl")) for (size_t i = 0; i < sizeof rows / sizeof *rows; ++i) {
        char *s = metac_entry_cdecl(*rows[i].link->pp_entry);
        printf("CDECL\tv\t%s\t%s\t%s\n", rows[i].name, s ? s : "(null)", rows[i].desc);
        free(s);
        metac_entry_t *e = *rows[i].link->pp_entry;
        if (rows[i].fn == 1) continue;
        if (metac_entry_is_pointer(e) && !metac_entry_is_void_pointer(e)) { s = metac_entry_cdecl(metac_entry_pointer_entry(e)); printf("CDECL\tp\t%s\t%s\t%s\n", rows[i].name, s ? s : "(null)", rows[i].desc); free(s); }
        if (metac_entry_has_elements(e)) { s = metac_entry_cdecl(metac_entry_element_entry(e)); printf("CDECL\te\t%s\t%s\t%s\n", rows[i].name, s ? s : "(null)", rows[i].desc); free(s); }
    }
}
