/* P09: basic types: every accessor x every type x placement x qualifier x boundary value, against the compiler's own access */
#include "h.h"
#include "metac/reflect.h"
#include <complex.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#undef bool
#define TYPES(X) \
    X(char, char, char) X(uchar, unsigned char, unsigned char) X(short, short, short int) X(ushort, unsigned short, unsigned short int) X(int, int, int) X(uint, unsigned int, unsigned int) \
    X(long, long, long int) X(ulong, unsigned long, unsigned long int) X(llong, long long, long long int) X(ullong, unsigned long long, unsigned long long int) X(bool, _Bool, _Bool) \
    X(float, float, float) X(double, double, double) X(ldouble, long double, long double) X(float_complex, float _Complex, complex float) X(double_complex, double _Complex, complex double) X(ldouble_complex, long double _Complex, long complex double)
#define MEM(T, td) char g0[3]; T v; char g1[3]; const T c; char g2[3]; volatile T w; char g3[1]; td t; T arr[3]; char g4[2]; union { char raw; T u; } un; const volatile T cv; char g5[5]; const td tc; const T ca[2];
enum { P_v, P_c, P_w, P_t, P_a0, P_a1, P_a2, P_u, P_cv, P_tc, P_ca1, NPOS };
static const char *const posname[] = {"member", "const", "volatile", "typedef", "element0", "element1", "element2", "union member", "const volatile", "const typedef", "const element"};
#define DEF(n, T, N) typedef T td_##n; struct st_##n { MEM(T, td_##n) }; struct __attribute__((packed)) pk_##n { MEM(T, td_##n) }; \
    struct st_##n sv_##n; struct pk_##n pv_##n; METAC_GSYM_LINK(sv_##n); METAC_GSYM_LINK(pv_##n); T plain_##n; METAC_GSYM_LINK(plain_##n);
TYPES(DEF)
struct other { enum { OE_A, OE_B } e; void *p; struct { int x; } s; int arr[2]; }; struct other other_v; METAC_GSYM_LINK(other_v);
#define EN(n, T, N) K_##n,
enum { TYPES(EN) NT };
#define NM(n, T, N) #T,
static const char *const tname[] = {TYPES(NM)};
#define SZS(n, T, N) sizeof(T),
static const size_t tsize[] = {TYPES(SZS)};
static size_t offs[NT][2][NPOS], total[NT][2];
static struct metac_entry_link *links[NT][2], *plink[NT];
static void *paddr[NT];
static void init(void) {
#define O1(n, k, S) offs[K_##n][k][P_v] = offsetof(struct S, v); offs[K_##n][k][P_c] = offsetof(struct S, c); offs[K_##n][k][P_w] = offsetof(struct S, w); offs[K_##n][k][P_t] = offsetof(struct S, t); \
    offs[K_##n][k][P_a0] = offsetof(struct S, arr[0]); offs[K_##n][k][P_a1] = offsetof(struct S, arr[1]); offs[K_##n][k][P_a2] = offsetof(struct S, arr[2]); offs[K_##n][k][P_u] = offsetof(struct S, un.u); \
    offs[K_##n][k][P_cv] = offsetof(struct S, cv); offs[K_##n][k][P_tc] = offsetof(struct S, tc); offs[K_##n][k][P_ca1] = offsetof(struct S, ca[1]); total[K_##n][k] = sizeof(struct S);
#define O2(n, T, N) O1(n, 0, st_##n) O1(n, 1, pk_##n) links[K_##n][0] = &METAC_GSYM_LINK_NAME(sv_##n); links[K_##n][1] = &METAC_GSYM_LINK_NAME(pv_##n); plink[K_##n] = &METAC_GSYM_LINK_NAME(plain_##n); paddr[K_##n] = &plain_##n;
    TYPES(O2)
}
static int is_const(int pos) { return pos == P_c || pos == P_cv || pos == P_tc || pos == P_ca1; }
static metac_value_t *at(int t, int k, int pos, void *base) {
    static char *const mem[] = {"v", "c", "w", "t", "arr", "arr", "arr", "un", "cv", "tc", "ca"};
    metac_value_t *s = metac_new_value(*links[t][k]->pp_entry, base), *f = NULL, *r = NULL;
    metac_num_t id = metac_entry_member_name_to_id(metac_value_entry(s), mem[pos]);
    if (id >= 0) f = metac_new_value_by_member_id(s, id);
    metac_value_delete(s);
    if (!f) return NULL;
    if (pos == P_u) r = metac_new_value_by_member_id(f, 1);
    else if (pos >= P_a0 && pos <= P_a2) r = metac_new_value_by_element_id(f, pos - P_a0);
    else if (pos == P_ca1) r = metac_new_value_by_element_id(f, 1);
    else return f;
    metac_value_delete(f);
    return r;
}
#define UU(n, T, N) T n##_;
typedef union { TYPES(UU) unsigned char b[32]; } val_t;
static int acc_get(int a, metac_value_t *v, val_t *o) { switch (a) {
#define G(n, T, N) case K_##n: return metac_value_##n(v, &o->n##_);
    TYPES(G) } return -1; }
static int acc_set(int a, metac_value_t *v, val_t *o) { switch (a) {
#define S(n, T, N) case K_##n: return metac_value_set_##n(v, o->n##_);
    TYPES(S) } return -1; }
static int acc_is(int a, metac_value_t *v) { switch (a) {
#define I(n, T, N) case K_##n: return metac_value_is_##n(v) && metac_entry_is_##n(metac_value_entry(v));
    TYPES(I) } return -1; }
/* significant bytes of a value: padding of long double carries nothing */
static int same(int t, const void *a, const void *b) {
    if (t == K_ldouble) return !memcmp(a, b, 10);
    if (t == K_ldouble_complex) return !memcmp(a, b, 10) && !memcmp((char *)a + 16, (char *)b + 16, 10);
    return !memcmp(a, b, tsize[t]);
}
static int numeq(int t, val_t *a, val_t *b) { switch (t) {
#define Q(n, T, N) case K_##n: return a->n##_ == b->n##_;
    TYPES(Q) } return -1; }
static int nvals(int t) { return 10; }
static void value(int t, int i, val_t *o) {
    memset(o, 0, sizeof *o);
#define IV(n, T, mn, mx) case K_##n: { T v[] = {0, 1, (T)-1, mn, mx, (T)0x5A, (T)0x7F, (T)0x80, (T)((mx) / 2 + 1), (T)((mx) - 1)}; o->n##_ = v[i]; break; }
#define FV(n, T, mn, mx, dn) case K_##n: { T v[] = {0, -(T)0.0, 1, (T)-1.5, mn, mx, -(mx), dn, (T)INFINITY, (T)NAN}; o->n##_ = v[i]; break; }
#define CV(n, T, R, mx) case K_##n: { R re[] = {0, 1, -1, (R)1.5, mx, -(mx), (R)INFINITY, 0, (R)NAN, (R)0.25}, im[] = {0, 0, (R)2.5, -1, (R)0.5, mx, 1, (R)-0.0, 0, (R)-0.25}; __real__ o->n##_ = re[i]; __imag__ o->n##_ = im[i]; break; }
    switch (t) {
    IV(char, char, CHAR_MIN, CHAR_MAX) IV(uchar, unsigned char, 0, UCHAR_MAX) IV(short, short, SHRT_MIN, SHRT_MAX) IV(ushort, unsigned short, 0, USHRT_MAX) IV(int, int, INT_MIN, INT_MAX) IV(uint, unsigned, 0, UINT_MAX)
    IV(long, long, LONG_MIN, LONG_MAX) IV(ulong, unsigned long, 0, ULONG_MAX) IV(llong, long long, LLONG_MIN, LLONG_MAX) IV(ullong, unsigned long long, 0, ULLONG_MAX)
    case K_bool: o->bool_ = i & 1; break;
    FV(float, float, FLT_MIN, FLT_MAX, FLT_TRUE_MIN) FV(double, double, DBL_MIN, DBL_MAX, DBL_TRUE_MIN) FV(ldouble, long double, LDBL_MIN, LDBL_MAX, LDBL_TRUE_MIN)
    CV(float_complex, float _Complex, float, FLT_MAX) CV(double_complex, double _Complex, double, DBL_MAX) CV(ldouble_complex, long double _Complex, long double, LDBL_MAX)
    }
}
#define MAX 768
static unsigned char A[MAX] __attribute__((aligned(16))), B[MAX] __attribute__((aligned(16))), C[MAX];
#define G0 64
static const unsigned char bgs[] = {0x00, 0xFF, 0xA5};
static void put(unsigned char *m, int t, int k, int pos, val_t *v, int bg) { memset(m, bgs[bg], MAX); memcpy(m + G0 + offs[t][k][pos], v, tsize[t]); }

static void t_read(int t, int k, int pos) {
    for (int bg = 0; bg < 3; ++bg) for (int i = 0; i < nvals(t); ++i) {
        val_t v, o; value(t, i, &v);
        if (t == K_bool && 0) continue;
        put(A, t, k, pos, &v, bg); memcpy(C, A, MAX);
        metac_value_t *f = at(t, k, pos, A + G0);
        if (!f) { h_fail("value not reachable"); return; }
        for (int a = 0; a < NT; ++a) {
            memset(&o, 0x3C, sizeof o); val_t keep = o;
            int is = !!acc_is(a, f), rc = acc_get(a, f, &o);
            if (is != (a == t)) h_fail("%s %s as %s", tname[t], is ? "accepted" : "refused", tname[a]);
            if (a == t) { if (rc || !same(t, &o, &v)) h_fail("read value %d: rc %d or wrong number", i, rc); else for (size_t z = tsize[t]; z < sizeof o; ++z) if (o.b[z] != 0x3C) h_fail("read wrote behind its result"); }
            else { if (!rc) h_fail("read as %s succeeded", tname[a]); if (memcmp(&o, &keep, sizeof o)) h_fail("refused read as %s changed the result", tname[a]); }
        }
        if (memcmp(A, C, MAX)) h_fail("reading changed the object");
        /* as a number */
        if (t <= K_bool) {
            metac_num_t n = 77; int rc = metac_value_num(f, &n); __int128 w = 0;
            switch (t) {
#define W(nn, T, N) case K_##nn: w = (__int128)__real__ v.nn##_; break;
            TYPES(W) }
            if (w == (metac_num_t)w) { if (rc || n != (metac_num_t)w) h_fail("as number: value %d gives %d (rc %d)", i, n, rc); }
            else if (!rc) h_fail("value %d does not fit a number but is given as %d", i, n);
        } else { metac_num_t n = 77; if (!metac_value_num(f, &n) || n != 77) h_fail("floating value taken as number"); }
        metac_value_delete(f);
        h_ops(2 * NT); h_state(h_hash(h_hash(H_HASH0 + t * 64 + pos * 2 + k, &v, sizeof v), &bg, 4));
        if (h_failed()) return;
    }
}
static void t_write(int t, int k, int pos) {
    for (int bg = 0; bg < 3; ++bg) for (int i = 0; i < nvals(t); ++i) for (int a = 0; a < NT; ++a) {
        val_t v; value(a, i, &v);
        memset(A, bgs[bg], MAX); memcpy(C, A, MAX);
        metac_value_t *f = at(t, k, pos, A + G0);
        int rc = acc_set(a, f, &v), ok = a == t && !is_const(pos);
        unsigned char *p = A + G0 + offs[t][k][pos];
        if (ok) { if (rc) h_fail("writing value %d refused (%d)", i, rc); else if (!same(t, p, &v)) h_fail("value %d written wrongly", i); memcpy(C + (p - A), p, tsize[t]); }
        else if (!rc) h_fail("writing through %s accepted", tname[a]);
        if (memcmp(A, C, MAX)) h_fail("%s write through %s changed other bytes", ok ? "accepted" : "refused", tname[a]);
        metac_value_delete(f); h_ops(1);
        if (h_failed()) return;
    }
}
static void t_pairs(int t, int k, int pos, int t2, int pos2) {
    /* comparison and copy between two objects */
    for (int i = 0; i < nvals(t); ++i) for (int j = 0; j < nvals(t2); ++j) {
        val_t v, w; value(t, i, &v); value(t2, j, &w);
        put(A, t, k, pos, &v, i % 3); put(B, t2, k, pos2, &w, j % 3);
        metac_value_t *f = at(t, k, pos, A + G0), *g = at(t2, k, pos2, B + G0);
        int e = metac_value_equal_base_type(f, g);
        if (t == t2 ? e != numeq(t, &v, &w) : e >= 0) h_fail("comparison of value %d and %d gives %d", i, j, e);
        memcpy(C, B, MAX);
        metac_value_t *r = metac_value_copy_base_type(f, g);
        unsigned char *p = B + G0 + offs[t2][k][pos2];
        if (t == t2 && !is_const(pos2)) {
            if (r != g || !same(t, p, &v)) h_fail("copy of value %d over %d wrong", i, j);
            memcpy(C + (p - B), p, tsize[t2]);
        } else if (r) h_fail("copy accepted");
        if (memcmp(B, C, MAX)) h_fail("copy changed other bytes of the destination");
        metac_value_delete(f); metac_value_delete(g); h_ops(2);
        if (h_failed()) return;
    }
}
void h_main_enumerate(void) {
    init();
    for (int t = 0; t < NT; ++t) for (int k = 0; k < 2; ++k) for (int pos = 0; pos < NPOS; ++pos) {
        if (h_begin("read %s as %s%s", tname[t], k ? "packed " : "", posname[pos])) { t_read(t, k, pos); h_end(); }
        if (h_begin("write %s as %s%s", tname[t], k ? "packed " : "", posname[pos])) { t_write(t, k, pos); h_end(); }
        for (int t2 = 0; t2 < NT; ++t2) for (int pos2 = 0; pos2 < NPOS; ++pos2) {
            if (!h_thorough && t2 != t && (pos + pos2) % 5) continue;
            if (h_begin("%s %s%s to %s %s", tname[t], k ? "packed " : "", posname[pos], tname[t2], posname[pos2])) { t_pairs(t, k, pos, t2, pos2); h_end(); }
        }
    }
    for (int t = 0; t < NT; ++t) if (h_begin("plain variable %s", tname[t])) {
        metac_value_t *f = metac_new_value(*plink[t]->pp_entry, paddr[t]);
        for (int i = 0; i < nvals(t); ++i) { val_t v, o; value(t, i, &v); memset(&o, 0, sizeof o); if (acc_set(t, f, &v) || !same(t, paddr[t], &v) || acc_get(t, f, &o) || !same(t, &o, &v)) h_fail("value %d", i); h_ops(2); }
        metac_value_delete(f); h_end();
    }
    if (h_begin("values that are not numbers")) {
        metac_value_t *s = metac_new_value(*METAC_GSYM_LINK_NAME(other_v).pp_entry, &other_v);
        struct other keep = other_v;
        for (int m = 0; m < 4; ++m) { metac_value_t *f = metac_new_value_by_member_id(s, m); for (int a = 0; a < NT; ++a) { val_t o; memset(&o, 0, sizeof o); if (acc_is(a, f) || !acc_get(a, f, &o) || !acc_set(a, f, &o)) h_fail("member %d taken as %s", m, tname[a]); h_ops(3); } if (metac_value_base_type_string(f)) h_fail("text"); metac_value_delete(f); }
        if (memcmp(&keep, &other_v, sizeof keep)) h_fail("changed");
        metac_value_delete(s); h_end();
    }
}
