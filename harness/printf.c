/* P18: every format string within the bound: what the library captures from a va_list against what the C library
 * itself says it would consume (parse_printf_format), with the arguments laid out in registers and on the stack */
#include "h.h"
#include "metac/reflect.h"
#include "metac/backend/printf_format.h"
#include <printf.h>
#include <stdarg.h>
#include <wchar.h>

struct va_tag { unsigned gp, fp; void *overflow, *regs; };
_Static_assert(sizeof(struct va_tag) == sizeof(va_list), "x86-64 va_list");
#define MAXA 400
struct arg { int t; long iv; double d; long double ld; const char *s; size_t slen; void *p; int prec; };
static struct arg A[MAXA]; static int nA;
static char *blocks[MAXA]; static int nblocks;
static unsigned char regs[176], stack[MAXA * 16 + 64] __attribute__((aligned(16)));
static const char *const strs[] = {"", "a", "1234567", "12345678", "a longer text of 30 characters"};
static char longs[5001]; /* strings of many lengths, in the scale part */
static int scale;

/* reference: our reading of the grammar the library declares; used only for (1) must-accept and (2) precision of %s */
struct rs { int plus, minus, pound, zero, space; long width, prec; int len; char t; size_t end; };
static int ref_spec(const char *f, size_t p, struct rs *r) {
    memset(r, 0, sizeof *r); r->prec = -1;
    if (f[p++] != '%') return 0;
    for (;; ++p) { if (f[p] == '+') r->plus = 1; else if (f[p] == '-') r->minus = 1; else if (f[p] == '#') r->pound = 1; else if (f[p] == '0') r->zero = 1; else if (f[p] == ' ') r->space = 1; else break; }
    while (f[p] >= '0' && f[p] <= '9') r->width = r->width * 10 + (f[p++] - '0');
    if (f[p] == '.') { r->prec = 0; ++p; while (f[p] >= '0' && f[p] <= '9') r->prec = r->prec * 10 + (f[p++] - '0'); }
    if (f[p] == 'h') { r->len = psal_h; if (f[++p] == 'h') { r->len = psal_hh; ++p; } }
    else if (f[p] == 'l') { r->len = psal_l; if (f[++p] == 'l') { r->len = psal_ll; ++p; } }
    else if (f[p] == 'L') { r->len = psal_L; ++p; }
    r->t = f[p]; r->end = p + 1;
    if (!r->t) return 0;
    if (strchr("di", r->t) || strchr("ouxX", r->t) || r->t == 'n') return r->len != psal_L;
    if (strchr("feg", r->t)) return r->len == psal_no || r->len == psal_L;
    if (r->t == 'c' || r->t == 's' || r->t == 'p') return r->len == psal_no;
    return 0;
}
static int wide; /* the format holds a wide character conversion, which the library has no type for */
/* 1: every conversion of the format belongs to the supported grammar and is defined by the C standard */
static int supported(const char *f, int *n, struct rs *rs) {
    *n = 0; wide = 0;
    for (size_t p = 0; f[p];) {
        if (f[p] != '%') { ++p; continue; }
        if (f[p + 1] == '%') { p += 2; continue; }
        struct rs r; if (!ref_spec(f, p, &r) || *n >= MAXA) { wide |= r.len == psal_l && (r.t == 'c' || r.t == 's'); return 0; }
        rs[(*n)++] = r; p = r.end;
    }
    return 1;
}
static int is_fp(int t) { return t == PA_DOUBLE; }
static int is_ld(int t) { return t == (PA_DOUBLE | PA_FLAG_LONG_DOUBLE); }
static long const ivals[] = {0x7172737475767778, -2, 0, (long)0x8182838485868788, 127, 65535, -1, 0x100};

static void layout(struct va_tag *t, int in_regs, int *types, int n, int sup, struct rs *rs) {
    size_t gp = in_regs ? 16 : 48, fp = in_regs ? 48 : 176, st = 0;
    memset(regs, 0x5a, sizeof regs); memset(stack, 0x5b, sizeof stack);
    t->gp = gp; t->fp = fp; t->regs = regs; t->overflow = stack;
    for (int i = 0; i < n; ++i) {
        struct arg *a = &A[i]; memset(a, 0, sizeof *a); a->t = types[i]; a->prec = sup ? rs[i].prec : -1;
        if (is_ld(a->t)) { a->ld = 1.5L + i + 1e-10L; st = (st + 15) & ~15UL; memcpy(stack + st, &a->ld, 10); st += 16; continue; }
        if (is_fp(a->t)) { a->d = -2.25 * (i + 1); if (fp < 176) { memcpy(regs + fp, &a->d, 8); fp += 16; } else { memcpy(stack + st, &a->d, 8); st += 8; } continue; }
        uint64_t w;
        if (a->t == PA_STRING) {
            static const int ls[] = {0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 5000};
            const char *s = scale ? longs + 5000 - ls[(i + scale) % 19] : strs[(i + n) % 5]; size_t l = strlen(s);
            if ((i + 2 * n) % 7 == 6) a->s = NULL;
            else if (a->prec >= 0 && (size_t)a->prec <= l) { char *b = blocks[nblocks++] = malloc(a->prec ? a->prec : 1); memcpy(b, s, a->prec); if (!a->prec) b[0] = 'Z'; a->s = b; a->slen = a->prec; } /* not terminated */
            else { char *b = blocks[nblocks++] = malloc(l + 1); memcpy(b, s, l + 1); a->s = b; a->slen = l; }
            w = (uint64_t)a->s;
        } else if (a->t == PA_WSTRING) { static wchar_t ws[] = L"wide"; w = (uint64_t)ws; }
        else if (a->t & PA_FLAG_PTR) { a->p = blocks[nblocks++] = calloc(1, 8); w = (uint64_t)a->p; }
        else if (a->t == PA_POINTER) { a->p = (void *)(0x1000UL + i); w = (uint64_t)a->p; }
        else { a->iv = ivals[(i * 3 + n) % 8] + i; w = a->iv; if ((a->t & ~PA_FLAG_MASK) == PA_INT && !(a->t & (PA_FLAG_LONG | PA_FLAG_LONG_LONG))) w = (uint32_t)a->iv | 0xdead000000000000; if (a->t == PA_CHAR || a->t == PA_WCHAR) w = (uint32_t)a->iv | 0xdead000000000000; }
        if (gp < 48) { memcpy(regs + gp, &w, 8); gp += 8; } else { memcpy(stack + st, &w, 8); st += 8; }
    }
}
static int name_in(metac_entry_t *e, const char *a, const char *b, const char *c) { metac_name_t n = metac_entry_base_type_name(e); return n && (!strcmp(n, a) || (b && !strcmp(n, b)) || (c && !strcmp(n, c))); }
static void check_arg(metac_value_t *v, int i, int sup, struct rs *x) {
    struct arg *a = &A[i]; metac_entry_t *e = metac_entry_final_entry(metac_value_entry(v), NULL); metac_size_t sz = 0; void *p = metac_value_addr(v);
    if (a->t == PA_WSTRING || a->t == PA_WCHAR) { h_fail("argument %d: a wide character argument was taken as something else", i); return; }
    if (a->t == PA_STRING && a->s) {
        if (!metac_value_has_elements(v)) { h_fail("argument %d: a string is not captured as an array", i); return; }
        metac_num_t c = metac_value_element_count(v);
        metac_value_t *el = metac_new_value_by_element_id(v, 0); char *cp = el ? metac_value_addr(el) : NULL;
        if (c < 1 || !cp) { h_fail("argument %d: captured string has %ld characters", i, (long)c); if (el) metac_value_delete(el); return; }
        size_t n = !sup && (size_t)c <= a->slen ? (size_t)c - 1 : a->slen; /* undefined combinations: a precision may have cut it */
        if ((size_t)c != n + 1 || memcmp(cp, a->s, n) || cp[n]) h_fail("argument %d: string of %zu characters captured as %ld bytes", i, a->slen, (long)c);
        metac_value_delete(el); return;
    }
    if (a->t == PA_STRING || a->t == PA_POINTER || (a->t & PA_FLAG_PTR)) {
        void *q; if (!metac_value_is_pointer(v)) { h_fail("argument %d: pointer captured as something else", i); return; }
        memcpy(&q, p, sizeof q); if (q != (a->t == PA_STRING ? NULL : a->p)) h_fail("argument %d: pointer %p captured as %p", i, a->p, q);
        if (sup && (a->t & PA_FLAG_PTR)) { /* width of the counter behind %n */
            metac_entry_t *t = metac_entry_final_entry(metac_entry_pointer_entry(e), NULL); size_t want = x->len == psal_hh ? 1 : x->len == psal_h ? 2 : x->len == psal_no ? 4 : 8;
            if (!t || metac_entry_byte_size(t, &sz) || sz != want) h_fail("argument %d: counter of %zu bytes captured with a pointer to %ld bytes", i, want, (long)sz);
        }
        return;
    }
    if (!e || metac_entry_byte_size(e, &sz) || !metac_entry_is_base_type(e)) { h_fail("argument %d: number captured as something else", i); return; }
    if (is_ld(a->t)) { long double x; if (sz != sizeof x || !name_in(e, "long double", NULL, NULL)) { h_fail("argument %d: long double captured with another type", i); return; } memcpy(&x, p, sizeof x); if (x != a->ld) h_fail("argument %d: %Lg captured as %Lg", i, a->ld, x); return; }
    if (is_fp(a->t)) { double x; if (sz != sizeof x || !name_in(e, "double", NULL, NULL)) { h_fail("argument %d: double captured with another type", i); return; } memcpy(&x, p, sizeof x); if (x != a->d) h_fail("argument %d: %g captured as %g", i, a->d, x); return; }
    size_t want = a->t == PA_CHAR ? 1 : (a->t & PA_FLAG_SHORT) ? 2 : (a->t & (PA_FLAG_LONG | PA_FLAG_LONG_LONG)) ? 8 : 4;
    if (sz != want) { h_fail("argument %d: integer of %zu bytes captured as %s of %ld bytes", i, want, metac_entry_base_type_name(e), (long)sz); return; }
    if (memcmp(p, &a->iv, want)) h_fail("argument %d: 0x%lx captured as another number", i, a->iv);
}
static int is_unsigned_name(metac_entry_t *e) { metac_name_t n = metac_entry_base_type_name(e); return n && !strncmp(n, "unsigned", 8); }

static const char *cur_f; static int cur_regs;
static void desc(char *b, size_t n, void *c) { (void)c; snprintf(b, n, "format \"%s\", arguments %s", cur_f, cur_regs ? "in registers first" : "on the stack"); }
static void one(const char *f, int in_regs) {
    cur_f = f; cur_regs = in_regs;
    if (!h_begin_fn(desc, NULL)) return;
    /* the format lives in a block of its own size, so that reading behind its end is seen */
    size_t L = strlen(f) + 1; char *fmt = malloc(L); memcpy(fmt, f, L);
    int types[MAXA]; int n = parse_printf_format(fmt, MAXA, types); struct rs rs[MAXA]; int rn, sup = supported(fmt, &rn, rs);
    if (n > MAXA) { free(fmt); h_end(); return; }
    if (sup && rn != n) h_fail("reference: the C library sees %d arguments, the grammar %d", n, rn);
    nA = n; nblocks = 0; struct va_tag t; va_list ap;
    layout(&t, in_regs, types, n, sup, rs); memcpy(ap, &t, sizeof t);
    ha_start(0, 0);
    metac_parameter_storage_t *ps = metac_new_parameter_storage();
    int r = metac_store_vprintf_params(ps, fmt, ap);
    h_ops(1);
    if (sup && r) h_fail("refused (%d), but every conversion is supported", r);
    if (!r) {
        if (wide) h_fail("a wide character conversion was accepted");
        metac_num_t c = metac_parameter_storage_size(ps);
        if (c != n) h_fail("%ld arguments captured, the C library takes %d", (long)c, n);
        for (int i = 0; i < n && i < c && !h_failed(); ++i) {
            metac_value_t *v = metac_parameter_storage_new_param_value(ps, i);
            if (!v) { h_fail("argument %d can not be read", i); break; }
            check_arg(v, i, sup, &rs[i]);
            if (sup && strchr("ouxX", rs[i].t) && !is_unsigned_name(metac_entry_final_entry(metac_value_entry(v), NULL))) h_fail("argument %d of %%%c is not captured as unsigned", i, rs[i].t);
            if (sup && strchr("di", rs[i].t) && is_unsigned_name(metac_entry_final_entry(metac_value_entry(v), NULL))) h_fail("argument %d of %%%c is captured as unsigned", i, rs[i].t);
            if (sup) { char *s = metac_value_string(v); if (!s) h_fail("argument %d has no text", i); free(s); h_ops(1); }
            metac_value_delete(v);
        }
        h_outcome("captured %d%s", n > 4 ? 5 : n, sup ? "" : ", outside of the declared grammar");
    } else h_outcome("refused%s", n ? "" : " (no argument involved)");
    metac_parameter_storage_delete(ps);
    if (ha_live()) h_fail("%ld blocks leaked", ha_live());
    ha_stop();
    if (sup && !in_regs) {
        size_t c = metac_count_format_specifiers(fmt); if ((int)c != n) h_fail("counted %zu conversions, there are %d", c, n);
        size_t p = 0; int k = 0; h_ops(1);
        while (fmt[p] && !h_failed()) {
            if (fmt[p] != '%') { ++p; continue; }
            if (fmt[p + 1] == '%') { p += 2; continue; }
            metac_printf_specifier_t s; memset(&s, 0xa5, sizeof s); size_t q = p;
            struct rs *x = &rs[k++]; h_ops(1);
            if (!metac_parse_format_specifier(fmt, &q, &s)) { h_fail("conversion %d is not parsed", k); break; }
            if (q != x->end) h_fail("conversion %d ends at %zu, parsed to %zu", k, x->end, q);
            if ((int)s.arg_len != x->len || s.t != x->t) h_fail("conversion %d: length %d/type %c instead of %d/%c", k, s.arg_len, s.t, x->len, x->t);
            if (s.flags.plus != x->plus || s.flags.minus != x->minus || s.flags.pound != x->pound || s.flags.oct != x->zero || s.flags.space != x->space) h_fail("conversion %d: flags + - # 0 space read as %d%d%d%d%d", k, s.flags.plus, s.flags.minus, s.flags.pound, s.flags.oct, s.flags.space);
            if (s.format_len != x->width || s.precision != x->prec) h_fail("conversion %d: width %ld precision %ld instead of %ld %ld", k, (long)s.format_len, (long)s.precision, x->width, x->prec);
            p = q;
        }
    }
    h_state(h_hash(h_hash(H_HASH0, types, n * sizeof *types), &r, sizeof r));
    for (int i = 0; i < nblocks; ++i) free(blocks[i]);
    free(fmt); h_end();
}
static void both(const char *f) { one(f, 0); one(f, 1); }
static void raw(const char *alpha, int len) {
    char f[16]; int na = strlen(alpha), ix[16] = {0};
    for (;;) {
        int pc = 0; for (int i = 0; i < len; ++i) { f[i] = alpha[ix[i]]; pc |= f[i] == '%'; } f[len] = 0;
        if (pc || len < 2) one(f, 0);
        int k = len - 1; while (k >= 0 && ++ix[k] == na) ix[k--] = 0;
        if (k < 0) return;
    }
}
void h_main_enumerate(void) {
    one("", 0);
    static const char alpha[] = "%d0l.s5h L*cfn";
    for (int l = 1; l <= (h_thorough ? 7 : 6); ++l) raw(alpha, l);
    /* every byte as conversion, behind every length modifier */
    static const char *const lens[] = {"", "h", "hh", "l", "ll", "L", "z", "j", "t", "q", "hl", "lh", "Z"};
    for (int c = 1; c < 256; ++c) for (unsigned l = 0; l < sizeof lens / sizeof *lens; ++l) for (int v = 0; v < 3; ++v) {
        char f[32]; snprintf(f, sizeof f, "%s%%%s%c%s", v == 1 ? "%d" : "", lens[l], c, v ? "%d%s" : ""); both(f);
    }
    /* one conversion: flags x width x precision x length x conversion, followed by another one */
    static const char *const flags[] = {"", "+", "-", "#", "0", " ", "+-", "-0", "#0", " 0", "0-", "+ ", "00", "+-#0 ", "++++++", "-------", "0000000+", "      #", "+-#0 +-#0 +-#0 "}, *const widths[] = {"", "1", "5", "8", "10", "18", "123", "08", "*", "2$"}, *const precs[] = {"", ".", ".0", ".3", ".07", ".10", ".18", ".*", ".-1"};
    static const char convs[] = "diouxXfegcspnFEGaAC";
    for (unsigned a = 0; a < sizeof flags / sizeof *flags; ++a) for (unsigned w = 0; w < sizeof widths / sizeof *widths; ++w) for (unsigned p = 0; p < sizeof precs / sizeof *precs; ++p)
        for (unsigned l = 0; l < 6; ++l) for (const char *c = convs; *c; ++c) { char f[48]; snprintf(f, sizeof f, "<%%%s%s%s%s%c>%%d", flags[a], widths[w], precs[p], lens[l], *c); if (*c == 'n' && (strstr(f, ".*") || *widths[w])) continue; one(f, 0); }
    /* sequences of conversions with and without text between them */
    static const char *const cv[] = {"%d", "%hhd", "%hi", "%ld", "%lli", "%u", "%hhu", "%hx", "%lX", "%llo", "%f", "%Lf", "%e", "%Lg", "%c", "%s", "%.3s", "%p", "%n", "%hhn", "%lln", "%%", "%5.2f", "%-8s"}, *const sep[] = {"", " ", "d", "%%", "%%%%s"};
    enum { NC = sizeof cv / sizeof *cv };
    char f[96];
    for (int i = 0; i < NC; ++i) for (int j = 0; j < NC; ++j) for (int s = 0; s < 5; ++s) for (int z = 0; z < 5; ++z) { snprintf(f, sizeof f, "%s%s%s%s", sep[z], cv[i], sep[s], cv[j]); both(f); }
    for (int i = 0; i < NC; ++i) for (int j = 0; j < NC; ++j) for (int k = 0; k < NC; ++k) for (int s = 0; s < 2; ++s) { snprintf(f, sizeof f, "%s%s%s%s%s", cv[i], sep[s], cv[j], sep[s], cv[k]); both(f); }
    /* many arguments: registers run out */
    static const char *const fewer[] = {"%d", "%f", "%Lf", "%s"};
    int maxn = h_thorough ? 9 : 7;
    for (int n = 4; n <= maxn; ++n) for (int m = 0; m < 1 << 2 * n; ++m) { f[0] = 0; for (int i = 0; i < n; ++i) strcat(f, fewer[m >> 2 * i & 3]); one(f, 1); }
    /* scale: many conversions, long texts between them, long strings, wide fields */
    memset(longs, 'x', 5000); for (int i = 0; i < 5000; i += 7) longs[i] = 'a' + i % 26;
    static const int counts[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 399};
    static const int gaps[] = {0, 1, 62, 63, 64, 255, 256, 300};
    for (unsigned c = 0; c < sizeof counts / sizeof *counts; ++c) for (unsigned g = 0; g < (counts[c] < 40 ? 8 : 3); ++g) for (int k = 0; k < 6; ++k) {
        char *b = malloc(counts[c] * (gaps[g] + 12) + 1), *e = b; *e = 0;
        for (int i = 0; i < counts[c]; ++i) { for (int j = 0; j < gaps[g]; ++j) *e++ = "ab %"[0] + (i + j) % 20; e = stpcpy(e, k < 4 ? fewer[k] : k == 4 ? cv[(i * 5) % NC] : cv[(i * 7 + 3) % NC]); }
        scale = 1; both(b); scale = 0; free(b);
    }
    for (scale = 1; scale <= 19; ++scale) for (int k = 0; k < 4; ++k) { static const char *const sf[] = {"%s", "%d%s%f", "%.64s|%.300s", "%.5000s%.4096s%.0s"}; both(sf[k]); }
    scale = 0;
    static const int wd[] = {63, 64, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000, 1000000000, 2147483647};
    for (unsigned w = 0; w < sizeof wd / sizeof *wd; ++w) for (unsigned q = 0; q < sizeof wd / sizeof *wd; ++q) for (int k = 0; k < 3; ++k) { snprintf(f, sizeof f, "%%%d.%d%s%%d", wd[w], wd[q], k == 0 ? "d" : k == 1 ? "s" : "Lf"); one(f, 0); }
    for (int n = 10; n <= 14; ++n) for (int m = 0; m < 1 << n; ++m) { f[0] = 0; for (int i = 0; i < n; ++i) strcat(f, m >> i & 1 ? "%f" : "%ld"); one(f, 1); }
}
