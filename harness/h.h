/* Explorer runtime shared by every harness.
 *
 * A harness enumerates its whole bounded space in a fixed order; every element is one "case" (one execution
 * of the real code). Cases are split over shards by index; a case is identified by its index and printed
 * description, and --only IDX re-executes exactly that case. */
#ifndef H_H_
#define H_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int h_thorough;       /* VERIF_TIER=thorough */
extern int h_verbose;        /* --only: explain the execution on stderr */
extern const char *h_mode;   /* --mode: selects a part of a harness shared by several properties */

int h_begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* 1: run this case now */
/* cheap variant: decides by index only, the description is produced lazily by cb */
typedef void (*h_desc_fn)(char *buf, size_t sz, void *ctx);
int h_begin_fn(h_desc_fn fn, void *ctx);
void h_end(void);
int h_failed(void);                                                        /* did the current case fail */
void h_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define H_CHECK(c, ...) do { if (!(c)) h_fail(__VA_ARGS__); } while (0)
void h_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    /* only with --only */

void h_ops(unsigned long n);          /* n operations of the code under test were executed (transitions) */
void h_state(uint64_t hash);          /* a distinct (model) state was observed */
void h_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* observed outcome class */

uint64_t h_hash(uint64_t h, const void *p, size_t n);
#define H_HASH0 1469598103934665603ULL

/* allocation seam (link-time interposition of malloc/calloc/realloc/strdup/free) */
void ha_start(long fail_at, int sticky); /* track from now; fail_at>=1: that allocation (sticky: and later ones) fails */
void ha_stop(void);
long ha_allocs(void);                 /* allocations requested since ha_start */
void ha_mute(int on);                 /* allocations are tracked, but neither counted nor failed */
void ha_disarm(void);                 /* no further injected failures, tracking goes on */
int  ha_faulted(void);                /* did an injected failure happen */
long ha_live(void);                   /* blocks allocated since ha_start and not yet freed */
void ha_forget(void *p);              /* ownership passed out: do not count p as live */
int  ha_is_live(void *p);
size_t ha_live_size(void *p);
long ha_frees(void);                  /* frees since ha_start */
long ha_foreign_frees(void);          /* frees of blocks that were not allocated while tracking */
void ha_each(void (*fn)(void *p, size_t sz, void *ctx), void *ctx);
void *__real_malloc(size_t);
void __real_free(void *);

/* choice points: the explorer enumerates every sequence of answers of h_choose depth first.
 *   h_explore_start(); do { ... h_choose(n) ... } while (h_explore_next()); */
void h_explore_start(void);
void h_explore_rewind(void);          /* execute the same choice sequence again */
int  h_choose(int n);
int  h_explore_next(void);
void h_choices(char *buf, size_t sz); /* printable choice sequence */

void h_main_enumerate(void);          /* provided by the harness */
#endif
