"""values of every type of a bounded grammar with the code that fills and compares them; the same file is the explored
program (prints every value) and, with -DTEXTCHECK, the program that compiles the printed initializers and compares"""
import itertools

BASES = {"c": "char", "uc": "unsigned char", "s": "short", "us": "unsigned short", "i": "int", "u": "unsigned int", "l": "long", "ul": "unsigned long", "ll": "long long", "ull": "unsigned long long", "b": "bool",
         "f": "float", "d": "double", "ld": "long double", "fc": "float complex", "dc": "double complex", "ldc": "long double complex"}
ENUMS = {"e1": "enum e1", "e2": "enum e2", "e8": "enum e8"}


all_types = []


class T:
    n = 0

    def __init__(self, decl, fill, eq, desc):
        self.decl, self.fillc, self.eqc, self.desc = decl, fill, eq, desc
        self.id = T.n
        all_types.append(self)
        T.n += 1

    def defs(self):
        return "typedef %s; static void fill_%d(void *p) { %s } static int eq_%d(const void *a, const void *b) { %s }" % (
            self.decl("TY_%d" % self.id), self.id, self.fillc, self.id, self.eqc)


def base(k):
    c = BASES[k]
    return T(lambda d: c + " " + d, "*(%s *)p = NEXT(%s);" % (c, k), "return *(const %s *)a == *(const %s *)b;" % (c, c), c)


def enum(k):
    c = ENUMS[k]
    return T(lambda d: c + " " + d, "*(%s *)p = NEXT(%s);" % (c, k), "return *(const %s *)a == *(const %s *)b;" % (c, c), c)


def vptr():
    return T(lambda d: "void *" + d, "*(void **)p = NULL;", "return *(void *const *)a == *(void *const *)b;", "void *")


def par(t, d):
    return "(" + d + ")" if t.desc.endswith("]") or t.arr else d


def ptr(t, q=""):
    r = T(lambda d: t.decl(("(*%s%s)" if t.arr else "*%s%s") % (q, d)), "if (Q++ %% 5 == 4) *(void **)p = NULL; else { *(void **)p = calloc(1, sizeof(TY_%d)); fill_%d(*(void **)p); }" % (t.id, t.id),
          "const void *x = *(void *const *)a, *y = *(void *const *)b; return !x || !y ? x == y : eq_%d(x, y);" % t.id, "pointer to (%s)" % t.desc)
    return r


def arr(t, n):
    r = T(lambda d: t.decl("%s[%d]" % (d, n)), "for (int i = 0; i < %d; ++i) fill_%d((TY_%d *)p + i);" % (n, t.id, t.id), "for (int i = 0; i < %d; ++i) if (!eq_%d((TY_%d *)a + i, (TY_%d *)b + i)) return 0; return 1;" % (n, t.id, t.id, t.id), "%s[%d]" % (t.desc, n))
    r.arr = True
    return r


T.arr = False


def struct(ms, tag=True, pre=""):
    """members: (name, type) | (name, ctype, key, width) bit-field | (None, [members]) anonymous struct"""
    def body(ms):
        s = ""
        for m in ms:
            if m[0] is None:
                s += "struct { %s}; " % body(m[1])
            elif len(m) == 4:
                s += "%s %s : %d; " % (m[1], m[0], m[3])
            else:
                s += m[1].decl(m[0]) + "; "
        return s

    def code(ms, f, e):
        for m in ms:
            if m[0] is None:
                code(m[1], f, e)
            elif len(m) == 4:
                f.append("s->%s = NEXT(%s);" % (m[0], m[2]))
                e.append("x->%s == y->%s" % (m[0], m[0]))
            else:
                f.append("fill_%d((void *)&s->%s);" % (m[1].id, m[0]))
                e.append("eq_%d((const void *)&x->%s, (const void *)&y->%s)" % (m[1].id, m[0], m[0]))
    f, e = [], []
    code(ms, f, e)
    k = T.n
    tg = "struct S%d" % k
    d = "struct {%s}" % ", ".join("anonymous" if m[0] is None else m[1].desc if len(m) == 2 else "%s:%d" % (m[1], m[3]) for m in ms)
    if tag:
        r = T(lambda dd: tg + " " + dd, "%s *s = p; %s" % (tg, " ".join(f)), "const %s *x = a, *y = b; return %s;" % (tg, " && ".join(e) or "1"), d)
        r.pre = "%s { %s};" % (tg, body(ms))
    else:
        r = T(lambda dd: "struct { %s} %s" % (body(ms), dd), "TY_%d *s = p; %s" % (k, " ".join(f)), "const TY_%d *x = a, *y = b; return %s;" % (k, " && ".join(e) or "1"), "unnamed " + d)
    return r


T.pre = ""


def typedef(t):
    k = T.n
    r = T(lambda d: "td%d " % k + d, "fill_%d(p);" % t.id, "return eq_%d(a, b);" % t.id, "typedef of (%s)" % t.desc)
    r.pre = "typedef %s;" % t.decl("td%d" % k)
    return r


def const(t, q="const"):
    return T(lambda d: q + " " + t.decl(d), "fill_%d(p);" % t.id, "return eq_%d(a, b);" % t.id, "%s (%s)" % (q, t.desc))


def types(thorough):
    T.n = 0
    del all_types[:]
    out = []

    def add(t):
        out.append(t)
        return t
    L0 = [add(base(k)) for k in BASES] + [add(enum(k)) for k in ENUMS] + [add(vptr())]
    ch, i32 = L0[0], L0[4]
    L1 = []
    for t in L0:
        for g in (ptr(t), arr(t, 2), arr(t, 3), struct([("m", t), ("n", ch)]), struct([("a", i32), (None, [("m", t), ("n", ch)]), ("z", i32)])):
            L1.append(add(g))
        add(typedef(t))
        if t is not L0[-1]:
            c = add(const(t))
            add(struct([("m", c), ("v", add(const(t, "volatile")))]))
            add(ptr(c))
    red = [L1[i * 5 + j] for i in (range(21) if thorough else (0, 4, 12, 10, 17, 15, 20)) for j in range(5)]
    L2 = []
    for t in red:
        td = add(typedef(t))
        gs = [ptr(t), arr(t, 2), struct([("m", t), ("n", ch), ("o", t)]), struct([("a", i32), (None, [("m", t), (None, [("k", t)])]), ("z", i32)]), ptr(td), struct([("m", td)])]
        for g in gs:
            L2.append(add(g))
    for t in (L2 if thorough else L2[::5]):
        for g in (ptr(t), struct([("m", t), ("y", i32)]), arr(t, 2)):
            add(g)
    # structures without a name, inside others and behind pointers
    for t in L0[::4]:
        u = add(struct([("m", t), ("n", ch)], tag=False))
        add(ptr(u)), add(struct([("q", ptr_(add, u))])), add(arr(u, 2))
    # bit-fields
    add(struct([("a", "int", "bf3", 3), ("b", "unsigned", "ubf7", 7), ("c", "bool", "b", 1), ("d", "enum e1", "e1b", 4), ("l", "long", "lbf", 40), ("x", "unsigned char", "ubf5", 5)]))
    add(struct([("x", ch), ("a", "unsigned long long", "ubf7", 63), ("b", "int", "i", 32), ("c", "signed int", "bf1", 1), ("y", ch)]))
    add(struct([("c", "char", "bf3", 4), ("d", "char", "cbf", 8)]))
    add(struct([]))
    return out


def ptr_(add, t):
    return add(ptr(t))


RT = r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <stddef.h>
#include <limits.h>
#include <complex.h>
#ifndef TEXTCHECK
#include "h.h"
#include "metac/reflect.h"
#else
#define METAC_GSYM_LINK(x) struct dummy_
#endif
static unsigned Q;
enum e1 { E1A, E1B = 5, E1M = -3 }; enum e2 { E2A = 200, E2B } __attribute__((packed)); enum e8 { E8A = -1, E8B = 0x123456789abcLL };
#define VALS(k, T, ...) static const T V_##k[] = {__VA_ARGS__};
VALS(c, char, 'a', '\'', '\\', '"', '\n', 0, -1, 127, -128, '%', '?', ' ', 'Z', 27) VALS(uc, unsigned char, 0, 1, 255, 128, 'a', '\'') VALS(s, short, 0, -1, SHRT_MIN, SHRT_MAX, 5) VALS(us, unsigned short, 0, USHRT_MAX, 40000, 3)
VALS(i, int, 0, -1, INT_MIN, INT_MAX, 42, 65536) VALS(u, unsigned, 0, UINT_MAX, 0x80000000u, 7) VALS(l, long, 0, -1, LONG_MIN, LONG_MAX, 1L << 40) VALS(ul, unsigned long, 0, ULONG_MAX, 1UL << 63, 9) VALS(ll, long long, 0, -1, LLONG_MIN, LLONG_MAX, -(1LL << 50)) VALS(ull, unsigned long long, 0, ULLONG_MAX, 1ULL << 63, 11)
VALS(b, bool, true, false) VALS(f, float, 0, 1.5f, -2.25f, 0.015625f, 123456.75f, -100000.5f) VALS(d, double, 0, 1.5, -2.25, 0.015625, 123456789.75, -0.5, 4503599627370495.5) VALS(ld, long double, 0, 1.5L, -2.25L, 0.015625L, 1048576.75L)
VALS(fc, float complex, 0, 1.5f, -2.25f + 3 * I, 0.5f - 0.25f * I, I) VALS(dc, double complex, 0, 1.5, -2.25 + 3 * I, 0.5 - 0.25 * I, I) VALS(ldc, long double complex, 0, 1.5L, -2.25L + 3 * I, 0.5L - 0.25L * I, I)
VALS(e1, enum e1, E1A, E1B, E1M, (enum e1)77, (enum e1)-100) VALS(e2, enum e2, E2A, E2B, (enum e2)0, (enum e2)255) VALS(e8, enum e8, E8A, E8B, (enum e8)1, (enum e8)LONG_MIN)
VALS(bf3, int, 0, -1, 3, -4) VALS(bf1, int, 0, -1) VALS(ubf7, int, 0, 127, 64) VALS(ubf5, int, 31, 0, 16) VALS(e1b, enum e1, E1A, E1B, E1M) VALS(lbf, long, -1, (1L << 39) - 1, -(1L << 39), 5) VALS(cbf, int, 'a', -1, '\'', 7)
#define NEXT(k) (V_##k[Q++ % (sizeof V_##k / sizeof *V_##k)])
'''

SPECIAL = r'''
struct pt { int x; short y; };
#define CNT(k, T) struct cn_##k { int z; int n; T *p; }; struct cn_##k cn_v_##k; METAC_GSYM_LINK(cn_v_##k);
typedef int *pint; typedef char *pchar;
CNT(i, int) CNT(c, char) CNT(p, struct pt) CNT(q, pint) CNT(e, enum e1) CNT(d, double)
struct zs { char *s; int z; }; struct zs zs_v; METAC_GSYM_LINK(zs_v); struct zc { const char *s; char *t; }; struct zc zc_v; METAC_GSYM_LINK(zc_v);
struct za { int n; char **p; }; struct za za_v; METAC_GSYM_LINK(za_v);
union un { int i; char c[4]; double d; struct pt p; int *q; };
struct us { int sel; union un u; int z; }; struct us us_v; METAC_GSYM_LINK(us_v);
struct ua { int sel; union { int i; char c[4]; double d; struct pt p; int *q; }; int z; }; struct ua ua_v; METAC_GSYM_LINK(ua_v);
struct fl { int n; short f[]; }; struct fl *fl_v; METAC_GSYM_LINK(fl_v); struct fs { int n; char f[]; }; struct fs *fs_v; METAC_GSYM_LINK(fs_v);
struct vc { int t; void *p; }; struct vc vc_v; METAC_GSYM_LINK(vc_v);
struct nd { int v; struct nd *a, *b; }; struct nd nd_v; METAC_GSYM_LINK(nd_v);
typedef char s4_t[4]; s4_t s4_v; METAC_GSYM_LINK(s4_v); typedef char s23_t[2][3]; s23_t s23_v; METAC_GSYM_LINK(s23_v); struct sm { char a; char s[4]; unsigned char u[4]; }; struct sm sm_v; METAC_GSYM_LINK(sm_v);
char ch_v; METAC_GSYM_LINK(ch_v); unsigned char uch_v; METAC_GSYM_LINK(uch_v);
static const char AB[] = {'a', '\'', '\\', '"', '\n', 0, (char)0xe9, '%', '?', '/', ' ', 7};
enum { NAB = sizeof AB };
enum { X_CNI, X_CNC, X_CNP, X_CNQ, X_CNE, X_CND, X_ZS, X_ZC, X_ZA, X_US, X_UA, X_FL, X_FS, X_VC, X_ND, X_S4, X_S23, X_SM, X_CH, X_UCH, NX };
static const char *const xname[NX] = {"counted int", "counted char", "counted struct", "counted pointer", "counted enum", "counted double", "string", "const string", "array of undescribed char pointers", "union member", "anonymous union member", "flexible array", "flexible char array", "cast pointer", "graph", "char[4]", "char[2][3]", "char[4] member", "char", "unsigned char"};
#define P3 (NAB * NAB * NAB)
static const long xcnt[NX] = {4, 4 * 13, 4, 4, 4, 4, 1 + NAB + NAB * NAB + P3, 1 + NAB * NAB, 5, 5 * 4, 5 * 4, 4, 4 * NAB, 6, 1 + 3 * 3 + 3 * 3 * 3 * 3 + 4096, 3 * P3, P3, P3, 256, 256};
/* returns the object and its C type; cyc: the object contains a cycle */
static void *xbuild(int x, long k, int *cyc) {
    static const char *const tn[] = {""}; (void)tn; *cyc = 0;
    switch (x) {
#define XC(k_, T, FILL) { struct cn_##k_ *s = calloc(1, sizeof *s); s->z = -1; s->n = k % 4; s->p = calloc(s->n + 1, sizeof(T)); for (int i = 0; i < s->n; ++i) { FILL; } return s; }
        case X_CNI: XC(i, int, s->p[i] = 10 - 7 * i) case X_CNC: XC(c, char, s->p[i] = V_c[(k / 4 + i) % 14]) case X_CNP: XC(p, struct pt, s->p[i].x = i; s->p[i].y = -i) case X_CNQ: XC(q, pint, if (i != 1) { s->p[i] = malloc(4); *s->p[i] = 5 + i; }) case X_CNE: XC(e, enum e1, s->p[i] = V_e1[i]) case X_CND: XC(d, double, s->p[i] = V_d[i + 1])
        case X_ZS: { struct zs *s = calloc(1, sizeof *s); s->z = 3; if (k == 0) return s; --k; int n = k < NAB ? 1 : k < NAB + NAB * NAB ? 2 : 3; k -= n == 1 ? 0 : n == 2 ? NAB : NAB + NAB * NAB; s->s = calloc(1, 4); for (int i = 0; i < n; ++i, k /= NAB) s->s[i] = AB[k % NAB]; return s; }
        case X_ZC: { struct zc *s = calloc(1, sizeof *s); if (k == 0) return s; --k; char *a = calloc(1, 3), *b = calloc(1, 3); a[0] = AB[k % NAB]; b[0] = 'x'; b[1] = AB[k / NAB]; s->s = a; s->t = b; return s; }
        case X_ZA: { struct za *s = calloc(1, sizeof *s); s->n = (int)k; if (k) s->p = calloc(k, sizeof *s->p); for (int i = 0; i < k; ++i) if (i != 2) { s->p[i] = calloc(1, 2); s->p[i][0] = 'x'; } return s; }
        case X_US: case X_UA: { struct us *s = calloc(1, sizeof *s); s->sel = k % 5; s->z = -9; switch (s->sel) { case 0: s->u.i = V_i[k / 5]; break; case 1: memcpy(s->u.c, k / 5 == 0 ? "abc" : k / 5 == 1 ? "a\'\\" : k / 5 == 2 ? "abcd" : "\0\1\2", 4); break; case 2: s->u.d = V_d[1 + k / 5]; break; case 3: s->u.p = (struct pt){(int)k, (short)-k}; break; case 4: if (k / 5) { s->u.q = malloc(4); *s->u.q = (int)k; } } return s; }
        case X_FL: { struct fl *s = calloc(1, sizeof *s + 16); s->n = (int)k; for (int i = 0; i < k; ++i) s->f[i] = (short)(-3 + 4 * i); return s; }
        case X_FS: { struct fs *s = calloc(1, sizeof *s + 16); s->n = k % 4; for (int i = 0; i < s->n; ++i) s->f[i] = i == s->n - 1 && k % 8 < 4 ? 0 : AB[k / 4]; return s; }
        case X_VC: { struct vc *s = calloc(1, sizeof *s); s->t = k % 3; s->p = k < 3 ? calloc(1, 16) : NULL; if (s->p) { if (s->t == 0) *(int *)s->p = 77; else if (s->t == 1) *(struct pt *)s->p = (struct pt){1, 2}; else *(double *)s->p = 2.5; } return s; }
        case X_ND: {
            int n = k < 1 ? 1 : k < 1 + 9 ? 1 : k < 1 + 9 + 81 ? 2 : 3; long c = k < 1 ? 0 : k < 10 ? k - 1 : k < 91 ? k - 10 : k - 91; struct nd *g = calloc(n, sizeof *g); int b = n == 3 ? 4 : 3;
            for (int i = 0; i < n; ++i) { g[i].v = 100 + i; for (int l = 0; l < 2; ++l) { int t = k < 1 ? 0 : (int)(c % b); c /= b; *(l ? &g[i].b : &g[i].a) = t == 0 || t > n ? NULL : &g[t - 1]; } }
            /* cycle reachable from node 0? colours by depth-first search */
            int st[3] = {0}; struct { int n, l; } sk[8]; int d = 0; sk[0].n = 0; sk[0].l = 0; st[0] = 1;
            while (d >= 0) { if (sk[d].l == 2) { st[sk[d].n] = 2; --d; continue; } struct nd *t = sk[d].l ? g[sk[d].n].b : g[sk[d].n].a; sk[d].l++; if (!t) continue; int j = (int)(t - g); if (st[j] == 1) { *cyc = 1; break; } if (st[j] == 0) { st[j] = 1; ++d; sk[d].n = j; sk[d].l = 0; } }
            return g; }
        case X_S4: { char *s = calloc(1, 4); for (int i = 0; i < 3; ++i, k /= NAB) s[i] = AB[k % NAB]; s[3] = k == 0 ? 0 : k == 1 ? 'a' : '\\'; return s; }
        case X_S23: { char *s = calloc(1, 6); s[0] = AB[k % NAB]; s[1] = AB[k / NAB % NAB]; s[3] = AB[k / NAB / NAB]; s[4] = 'b'; return s; }
        case X_SM: { struct sm *s = calloc(1, sizeof *s); s->a = AB[k % NAB]; s->s[0] = AB[k / NAB % NAB]; s->s[1] = AB[k / NAB / NAB]; s->s[2] = 'q'; memcpy(s->u, "xyz", 4); return s; }
        case X_CH: case X_UCH: { char *s = malloc(1); *s = (char)k; return s; }
    }
    return NULL;
}
static int eqnd(const struct nd *x, const struct nd *y) { return !x || !y ? x == y : x->v == y->v && eqnd(x->a, y->a) && eqnd(x->b, y->b); }
static int eqstr(const char *x, const char *y) { return !x || !y ? x == y : !strcmp(x, y); }
static int equn(int sel, const union un *a, const union un *b) { switch (sel) { case 0: return a->i == b->i; case 1: return !memcmp(a->c, b->c, 4); case 2: return a->d == b->d; case 3: return a->p.x == b->p.x && a->p.y == b->p.y; default: return !a->q || !b->q ? a->q == b->q : *a->q == *b->q; } }
static int xeq(int x, const void *a, const void *b) {
    switch (x) {
#define XE(k_, C) { const struct cn_##k_ *s = a, *t = b; if (s->z != t->z || s->n != t->n) return 0; for (int i = 0; i < s->n; ++i) if (!(C)) return 0; return 1; }
        case X_CNI: XE(i, s->p[i] == t->p[i]) case X_CNC: XE(c, s->p[i] == t->p[i]) case X_CNP: XE(p, s->p[i].x == t->p[i].x && s->p[i].y == t->p[i].y) case X_CNQ: XE(q, !s->p[i] || !t->p[i] ? s->p[i] == t->p[i] : *s->p[i] == *t->p[i]) case X_CNE: XE(e, s->p[i] == t->p[i]) case X_CND: XE(d, s->p[i] == t->p[i])
        case X_ZS: { const struct zs *s = a, *t = b; return s->z == t->z && eqstr(s->s, t->s); } case X_ZC: { const struct zc *s = a, *t = b; return eqstr(s->s, t->s) && eqstr(s->t, t->t); }
        case X_ZA: { const struct za *s = a, *t = b; if (s->n != t->n) return 0; for (int i = 0; i < s->n; ++i) if (!s->p[i] || !t->p[i] ? s->p[i] != t->p[i] : s->p[i][0] != t->p[i][0]) return 0; return 1; }
        case X_US: case X_UA: { const struct us *s = a, *t = b; return s->sel == t->sel && s->z == t->z && equn(s->sel, &s->u, &t->u); }
        case X_FL: { const struct fl *s = a, *t = b; return s->n == t->n && !memcmp(s->f, t->f, s->n * 2); } case X_FS: { const struct fs *s = a, *t = b; return s->n == t->n && !memcmp(s->f, t->f, s->n); }
        case X_VC: { const struct vc *s = a, *t = b; return s->t == t->t && (!s->p || !t->p ? s->p == t->p : s->t == 0 ? *(int *)s->p == *(int *)t->p : s->t == 1 ? ((struct pt *)s->p)->x == ((struct pt *)t->p)->x && ((struct pt *)s->p)->y == ((struct pt *)t->p)->y : *(double *)s->p == *(double *)t->p); }
        case X_ND: return eqnd(a, b);
        case X_S4: return !memcmp(a, b, 4); case X_S23: return !memcmp(a, b, 6); case X_SM: return !memcmp(a, b, sizeof(struct sm)); default: return *(char *)a == *(char *)b;
    }
}
'''

SPECIAL_T = ["struct cn_i", "struct cn_c", "struct cn_p", "struct cn_q", "struct cn_e", "struct cn_d", "struct zs", "struct zc", "struct za", "struct us", "struct ua", "struct fl", "struct fs", "struct vc", "struct nd", "s4_t", "s23_t", "struct sm", "char", "unsigned char"]

TAIL = r'''
#ifndef TEXTCHECK
#define TAG(T, m, ...) METAC_TAG_MAP_ENTRY_FROM_TYPE(T) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER(m), __VA_ARGS__) METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final),},)
    TAG(struct cn_i, {.n = "p"}, METAC_COUNT_BY(n)) TAG(struct cn_c, {.n = "p"}, METAC_COUNT_BY(n)) TAG(struct cn_p, {.n = "p"}, METAC_COUNT_BY(n)) TAG(struct cn_q, {.n = "p"}, METAC_COUNT_BY(n)) TAG(struct cn_e, {.n = "p"}, METAC_COUNT_BY(n)) TAG(struct cn_d, {.n = "p"}, METAC_COUNT_BY(n))
    TAG(struct zs, {.n = "s"}, METAC_ZERO_ENDED_STRING()) TAG(struct zc, {.n = "s"}, METAC_ZERO_ENDED_STRING()) TAG(struct zc, {.n = "t"}, METAC_ZERO_ENDED_STRING()) TAG(struct za, {.n = "p"}, METAC_COUNT_BY(n))
    TAG(struct us, {.n = "u"}, METAC_UNION_MEMBER_SELECT_BY(sel)) TAG(struct ua, {.i = 1}, METAC_UNION_MEMBER_SELECT_BY(sel)) TAG(struct fl, {.n = "f"}, METAC_COUNT_BY(n)) TAG(struct fs, {.n = "f"}, METAC_COUNT_BY(n))
    TAG(struct vc, {.n = "p"}, METAC_CAST_PTR(, t, {.fld_val = 0, .p_ptr_entry = METAC_ENTRY_OF(int *)}, {.fld_val = 1, .p_ptr_entry = METAC_ENTRY_OF(struct pt *)}, {.fld_val = 2, .p_ptr_entry = METAC_ENTRY_OF(double *)}))
METAC_TAG_MAP_END
static metac_tag_map_t *tags;
static void leakfree(void *p, size_t n, void *c) { }
static void one(metac_entry_t *e, void *obj, int nul, const char *key, const char *desc) {
    int dump = !strcmp(h_mode, "dump");
    if (!dump && !h_begin("%s", desc)) return;
    metac_value_t *v = e ? metac_new_value(e, obj) : NULL;
    if (!v) { if (!dump) { h_fail("no value"); h_end(); } return; }
    ha_start(0, 0);
    char *s = metac_value_string_ex(v, METAC_WMODE_deep, tags);
    h_ops(1);
    if (dump) { if (s && !nul) printf("TEXT\t%s\t%s\t%s\n", key, s, desc); }
    else {
        if (nul) H_CHECK(s == NULL, "a cycle is printed as %s", s);
        else H_CHECK(s != NULL, "no text");
        if (s) { h_state(h_hash(H_HASH0, s, strlen(s))); ha_forget(s); }
        h_outcome("%s", s ? "text" : "refused");
        H_CHECK(ha_live() == 0, "%ld blocks are still allocated", ha_live());
        /* the text does not depend on anything but the value */
        char *t = metac_value_string_ex(v, METAC_WMODE_deep, tags);
        H_CHECK(!s == !t && (!s || !strcmp(s, t)), "two calls print different texts");
        free(t);
    }
    ha_stop();
    free(s);
    metac_value_delete(v);
    if (!dump) h_end();
}
void h_main_enumerate(void) {
    char key[64], desc[400];
    tags = new_tags();
    if (!tags) { fprintf(stderr, "SETUP tag map\n"); exit(3); }
    for (size_t i = 0; i < sizeof rows / sizeof *rows; ++i)
        for (int p = 0; p < NPAT; ++p) {
            void *o = calloc(1, rows[i].size + 1); Q = p; rows[i].fill(o);
            snprintf(key, sizeof key, "t\t%d\t%d", rows[i].id, p); snprintf(desc, sizeof desc, "%s, values from %d", rows[i].desc, p);
            one(rows[i].link->pp_entry ? *rows[i].link->pp_entry : NULL, o, 0, key, desc);
            free(o);
        }
    metac_entry_t *xe[NX] = {METAC_GSYM_LINK_ENTRY(cn_v_i), METAC_GSYM_LINK_ENTRY(cn_v_c), METAC_GSYM_LINK_ENTRY(cn_v_p), METAC_GSYM_LINK_ENTRY(cn_v_q), METAC_GSYM_LINK_ENTRY(cn_v_e), METAC_GSYM_LINK_ENTRY(cn_v_d), METAC_GSYM_LINK_ENTRY(zs_v), METAC_GSYM_LINK_ENTRY(zc_v), METAC_GSYM_LINK_ENTRY(za_v), METAC_GSYM_LINK_ENTRY(us_v), METAC_GSYM_LINK_ENTRY(ua_v), metac_entry_pointer_entry(METAC_GSYM_LINK_ENTRY(fl_v)), metac_entry_pointer_entry(METAC_GSYM_LINK_ENTRY(fs_v)), METAC_GSYM_LINK_ENTRY(vc_v), METAC_GSYM_LINK_ENTRY(nd_v), METAC_GSYM_LINK_ENTRY(s4_v), METAC_GSYM_LINK_ENTRY(s23_v), METAC_GSYM_LINK_ENTRY(sm_v), METAC_GSYM_LINK_ENTRY(ch_v), METAC_GSYM_LINK_ENTRY(uch_v)};
    for (int x = 0; x < NX; ++x) for (long k = XPART; k < xcnt[x]; k += XPARTS) {
        int cyc; void *o = xbuild(x, k, &cyc);
        snprintf(key, sizeof key, "x\t%d\t%ld", x, k); snprintf(desc, sizeof desc, "%s number %ld", xname[x], k);
        one(xe[x], o, cyc, key, desc);
    }
    metac_tag_map_delete(tags);
}
#endif
'''


def source(thorough, part=0, parts=1):
    import re
    ts = types(thorough)
    byid = {t.id: t for t in all_types}
    mine = ts[part::parts]
    need = set()
    todo = [t.id for t in mine]
    while todo:
        k = todo.pop()
        if k not in need:
            need.add(k)
            todo += [int(x) for x in re.findall(r"fill_(\d+)", byid[k].fillc)]
    out = [RT, "enum { NPAT = %d };" % (9 if thorough else 5)]
    for k in sorted(need):
        t = byid[k]
        if t.pre:
            out.append(t.pre)
        out.append(t.defs())
    out.append("struct row { int id; struct metac_entry_link *link; size_t size; void (*fill)(void *); int (*eq)(const void *, const void *); const char *desc; };")
    for t in mine:
        out.append("%s; METAC_GSYM_LINK(tv_%d);" % (t.decl("tv_%d" % t.id), t.id))
    out.append("#ifdef TEXTCHECK\n#define ROW(n, d) {n, NULL, sizeof(TY_##n), fill_##n, eq_##n, d},\n#else\n#define ROW(n, d) {n, &METAC_GSYM_LINK_NAME(tv_##n), sizeof(TY_##n), fill_##n, eq_##n, d},\n#endif")
    out.append("static struct row rows[] = {")
    out += ['    ROW(%d, "%s")' % (t.id, t.desc) for t in mine]
    out.append("};")
    out.append(SPECIAL)
    out.append("#define XPART %d\n#define XPARTS %d" % (part, parts))
    out.append(TAIL)
    return "\n".join(out) + "\n"
