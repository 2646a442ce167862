#include "h.h"
#include "metac/reflect.h"
#include <complex.h>
#include <stdarg.h>
#include <stdbool.h>
enum { NPAT = 3, NPOS = 70 };
typedef metac_value_t *wrap_fn(metac_value_t *, metac_tag_map_t *, ...);
struct kind { const char *name; size_t size; void *x; unsigned char ignore[64]; };
struct row { const char *sig; struct metac_entry_link *link; int n; const unsigned char *k; metac_value_t *(*call)(wrap_fn *, metac_value_t *, metac_tag_map_t *, int); int va; metac_value_t *(*vcall)(wrap_fn *, metac_value_t *, metac_tag_map_t *, int, const char *, int); };
struct resrow { const char *name; struct metac_entry_link *link; int k; };
static inline long long ipat(int p, int i) { return p == 0 ? (long long)(0x0102030405060708LL + 0x1111111111111111LL * (i % 7)) + i : p == 1 ? ~(0x71LL * i) : (i & 1 ? (long long)(0x8080808080808080ULL ^ (unsigned)i) : 0x7f7f7f7f7f7f7f7fLL - i); }
static inline long double fpat(int p, int i) { return p == 0 ? 1.5L + i : p == 1 ? -(i + 1) * 1048576.25L : i & 1 ? 0 : 1.0L / (1 << i % 20); }
#define FILL_I(k) for (int p = 0; p < NPAT; ++p) for (int i = 0; i < NPOS; ++i) X_##k[p][i] = (T_##k)ipat(p, i)
#define FILL_B(k) for (int p = 0; p < NPAT; ++p) for (int i = 0; i < NPOS; ++i) X_##k[p][i] = (i + p) & 1
#define FILL_F(k) for (int p = 0; p < NPAT; ++p) for (int i = 0; i < NPOS; ++i) X_##k[p][i] = (T_##k)fpat(p, i)
#define FILL_C(k) for (int p = 0; p < NPAT; ++p) for (int i = 0; i < NPOS; ++i) X_##k[p][i] = (T_##k)(fpat(p, i) - fpat((p + 1) % NPAT, i + 3) * I)
#define FILL_R(k) for (int p = 0; p < NPAT; ++p) for (int i = 0; i < NPOS; ++i) for (size_t j = 0; j < sizeof(T_##k); ++j) ((unsigned char *)&X_##k[p][i])[j] = (unsigned char)(p == 0 ? 1 + i * 13 + j * 3 : p == 1 ? 0xff - i - j : (i + j) & 1 ? 0x80 : 0)
/* structures with floating point: every 4 bytes a plain value in all widths */
#define FILL_S(k) for (int p = 0; p < NPAT; ++p) for (int i = 0; i < NPOS; ++i) for (size_t j = 0; j < sizeof(T_##k); j += 4) { float f = (float)fpat(p % 2, i + (int)j); memcpy((char *)&X_##k[p][i] + j, &f, 4); }
#define MASK(k, a, b) for (int i = (a); i < (b); ++i) kinds[k].ignore[i] = 1
