#include "h.h"
#include "metac/reflect.h"
enum { Q_const = 1, Q_volatile = 2, Q_restrict = 4 };
struct xe { const char *n; long long v; };
struct xm;
struct xt { int kind, quals, enc, declp, decl, anon; long long size, count; const char *name; struct xt *sub; struct xm *m; struct xe *en; };
struct xm { const char *name; long long off; struct xt *t; int bits; void (*probe)(void *); };
struct row { const char *desc; struct metac_entry_link *link; void *addr; struct xt *x; const char *name; int fn; };
