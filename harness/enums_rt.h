#include "h.h"
#include "metac/reflect.h"
struct row { const char *name; struct metac_entry_link *link; size_t size, esz; long long ea, eb; const char *na, *nb, *nd; long long (*get)(void *, int); void (*set)(void *, int, long long); int w, uns; };
#define ACC(n) \
    static long long get_##n(void *p, int i) { struct S_##n *s = p; switch (i) { case 0: return (long long)s->f; case 1: return (long long)s->arr[0]; case 2: return (long long)s->arr[1]; default: return (long long)s->bf; } } \
    static void set_##n(void *p, int i, long long v) { struct S_##n *s = p; switch (i) { case 0: s->f = (enum n)v; break; case 1: s->arr[0] = (enum n)v; break; case 2: s->arr[1] = (enum n)v; break; default: s->bf = (enum n)v; } }
#define ROW(n, str, w) {str, &METAC_GSYM_LINK_NAME(v_##n), sizeof(struct S_##n), sizeof(enum n), (long long)n##_a, (long long)n##_b, #n "_a", #n "_b", #n "_dup", get_##n, set_##n, w, (enum n)-1 > 0}
struct bc { const char *n; long long v; };
struct brow { const char *name; struct metac_entry_link *link; struct bc *c; int n; void (*set)(long long); long long (*get)(void); };
