#include "h.h"
#include "metac/reflect.h"
#include <errno.h>
struct row { const char *name, *memb; struct metac_entry_link *link; long long (*get)(void *); void (*set)(void *, long long); size_t size; int (*rd)(metac_value_t *, long long *); int (*wr)(metac_value_t *, long long); int w, sg; size_t at; };
#define ACC(nm, f, T) \
    static long long get_##nm##f(void *p) { return (long long)((struct B_##nm *)p)->f; } \
    static void set_##nm##f(void *p, long long v) { ((struct B_##nm *)p)->f = (T)v; }
#define ROW(nm, f, str, acc, w, sg) {str, #f, &METAC_GSYM_LINK_NAME(v_##nm), get_##nm##f, set_##nm##f, sizeof(struct B_##nm), rd_##acc, wr_##acc, w, sg, 0}
#define ROWAT(nm, f, str, acc, w, sg, at) {str, #f, &METAC_GSYM_LINK_NAME(v_##nm), get_##nm##f, set_##nm##f, sizeof(struct B_##nm), rd_##acc, wr_##acc, w, sg, at}
#define RW(acc, T) \
    static int rd_##acc(metac_value_t *v, long long *o) { T x; memset(&x, 0xA5, sizeof x); int rc = metac_value_##acc(v, &x); if (rc == 0) *o = (long long)x; return rc; } \
    static int wr_##acc(metac_value_t *v, long long i) { return metac_value_set_##acc(v, (T)i); }
RW(uchar, unsigned char) RW(char, char) RW(ushort, unsigned short) RW(short, short) RW(uint, unsigned) RW(int, int)
RW(ulong, unsigned long) RW(long, long) RW(ullong, unsigned long long) RW(llong, long long)
static int rd_bool(metac_value_t *v, long long *o) { unsigned char x = 0xA5; int rc = metac_value_bool(v, (bool *)&x); if (rc == 0) *o = x; return rc; }
static int wr_bool(metac_value_t *v, long long i) { return metac_value_set_bool(v, i != 0); }
static int rd_char_s(metac_value_t *v, long long *o) { signed char x = 0; int rc = metac_value_base_type(v, "signed char", METAC_ENC_signed_char, &x, 1); if (rc == 0) *o = x; return rc; }
static int wr_char_s(metac_value_t *v, long long i) { signed char x = i; return metac_value_set_base_type(v, "signed char", METAC_ENC_signed_char, &x, 1); }
