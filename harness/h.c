#define _GNU_SOURCE
#include "h.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

int h_thorough, h_verbose;
const char *h_mode = "";

struct shm { volatile long idx; volatile long running; char desc[8192]; };
static struct shm *shm;
static FILE *out;
static long cur = -1, start = 0, only = -1;
static int shard = 0, nshards = 1;
static int failed;
static unsigned long n_cases, n_ops, n_states, n_total;
static char samples[4][4096];
static int n_samples;
static h_desc_fn cur_fn; static void *cur_ctx;

static int should(void) {
    ++cur; ++n_total;
    if (only >= 0) return cur == only;
    return cur >= start && (cur % nshards) == shard;
}
static void entered(void) {
    failed = 0; ++n_cases;
    shm->idx = cur; shm->running = 1;
    if (n_samples < 4 && (n_cases == 1 || n_cases == 17 || n_cases == 257 || n_cases == 4097))
        snprintf(samples[n_samples++], sizeof samples[0], "%s", shm->desc);
    if (h_verbose) fprintf(stderr, "case %ld: %s\n", cur, shm->desc);
}
int h_begin(const char *fmt, ...) {
    if (!should()) return 0;
    va_list ap; va_start(ap, fmt); vsnprintf(shm->desc, sizeof shm->desc, fmt, ap); va_end(ap);
    cur_fn = NULL;
    entered();
    return 1;
}
int h_begin_fn(h_desc_fn fn, void *ctx) {
    if (!should()) return 0;
    fn(shm->desc, sizeof shm->desc, ctx);
    entered();
    return 1;
}
void h_end(void) { shm->running = 0; }
int h_failed(void) { return failed; }
static void esc(FILE *f, const char *s) {
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
}
void h_fail(const char *fmt, ...) {
    char b[8192];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (h_verbose) fprintf(stderr, "FAIL: %s\n", b);
    if (failed++) return;
    fprintf(out, "{\"k\":\"V\",\"idx\":%ld,\"desc\":\"", cur); esc(out, shm->desc);
    fprintf(out, "\",\"msg\":\""); esc(out, b); fprintf(out, "\"}\n");
    fflush(out);
}
void h_log(const char *fmt, ...) {
    if (!h_verbose) return;
    va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr);
}
void h_ops(unsigned long n) { n_ops += n; }

uint64_t h_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = p;
    while (n--) { h ^= *c++; h *= 1099511628211ULL; }
    return h;
}

#define MAXCH 256
static int ch_v[MAXCH], ch_n[MAXCH], ch_pos, ch_len;
void h_explore_start(void) { ch_pos = ch_len = 0; }
void h_explore_rewind(void) { ch_pos = 0; }
int h_choose(int n) {
    if (n <= 1) return 0;
    if (ch_pos >= MAXCH) { fprintf(stderr, "too many choices\n"); _exit(3); }
    if (ch_pos == ch_len) { ch_v[ch_len] = 0; ch_n[ch_len] = n; ++ch_len; }
    else if (ch_n[ch_pos] != n) { fprintf(stderr, "execution is not a function of the choices\n"); h_fail("nondeterministic replay"); ch_n[ch_pos] = n; if (ch_v[ch_pos] >= n) ch_v[ch_pos] = n - 1; }
    return ch_v[ch_pos++];
}
int h_explore_next(void) {
    ch_len = ch_pos < ch_len ? ch_pos : ch_len; ch_pos = 0;
    while (ch_len > 0) {
        if (ch_v[ch_len - 1] + 1 < ch_n[ch_len - 1]) { ++ch_v[ch_len - 1]; return 1; }
        --ch_len;
    }
    return 0;
}
void h_choices(char *b, size_t sz) { size_t l = 0; b[0] = 0; for (int i = 0; i < ch_len && l + 6 < sz; ++i) l += snprintf(b + l, sz - l, "%s%d", i ? "." : "", ch_v[i]); }

/* distinct states: written to the side file, merged over the shards by the runner when small enough */
static uint64_t *st; static size_t st_cap, st_n;
static void st_grow(void) {
    size_t oc = st_cap; uint64_t *o = st;
    st_cap = oc ? oc * 2 : 1 << 14;
    st = mmap(NULL, st_cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (st == MAP_FAILED) { perror("mmap"); _exit(3); }
    for (size_t i = 0; i < oc; ++i) if (o[i]) { size_t k = (o[i] * 0x9E3779B97F4A7C15ULL) & (st_cap - 1); while (st[k]) k = (k + 1) & (st_cap - 1); st[k] = o[i]; }
    if (o) munmap(o, oc * 8);
}
void h_state(uint64_t h) {
    if (!h) h = 1;
    if (st_n * 2 >= st_cap) st_grow();
    size_t k = (h * 0x9E3779B97F4A7C15ULL) & (st_cap - 1);
    while (st[k]) { if (st[k] == h) return; k = (k + 1) & (st_cap - 1); }
    st[k] = h; ++st_n; n_states = st_n;
}

#define MAXOUT 512
static char outc[MAXOUT][128]; static unsigned long outn[MAXOUT]; static int n_out;
void h_outcome(const char *fmt, ...) {
    char b[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (int i = 0; i < n_out; ++i) if (!strcmp(outc[i], b)) { ++outn[i]; return; }
    if (n_out < MAXOUT) { strcpy(outc[n_out], b); outn[n_out++] = 1; }
}

/* ---- allocation seam ---- */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int ha_on, ha_sticky, ha_hit; static long ha_n, ha_fail_at, ha_nlive, ha_nfree, ha_nforeign;
struct blk { void *p; size_t sz; };
#define HCAP0 ((size_t)1 << 12)
static struct blk *tab; static size_t hcap; /* open addressing, tombstone = (void*)1 */
static size_t tab_used;
static size_t slot(void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) >> 32; }
static void tab_new(size_t cap) { tab = mmap(NULL, sizeof(struct blk) * cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (tab == MAP_FAILED) { perror("mmap"); _exit(3); } hcap = cap; tab_used = 0; }
static void tab_add(void *p, size_t sz) {
    size_t k = slot(p) & (hcap - 1);
    while (tab[k].p > (void *)1) k = (k + 1) & (hcap - 1);
    if (tab[k].p == NULL) ++tab_used;
    tab[k].p = p; tab[k].sz = sz; ++ha_nlive;
    if (tab_used > hcap / 8 * 6) { /* rebuild without tombstones, larger when it is really full */
        struct blk *o = tab; size_t oc = hcap, live = 0;
        for (size_t i = 0; i < oc; ++i) live += o[i].p > (void *)1;
        tab_new(live > oc / 2 ? oc * 2 : oc);
        for (size_t i = 0; i < oc; ++i) if (o[i].p > (void *)1) { size_t q = slot(o[i].p) & (hcap - 1); while (tab[q].p) q = (q + 1) & (hcap - 1); tab[q] = o[i]; ++tab_used; }
        munmap(o, sizeof(struct blk) * oc);
    }
}
static struct blk *tab_find(void *p) {
    size_t k = slot(p) & (hcap - 1);
    while (tab[k].p) { if (tab[k].p == p) return &tab[k]; k = (k + 1) & (hcap - 1); }
    return NULL;
}
static int ha_muted;
static int inject(void) {
    if (ha_muted) return 0;
    ++ha_n;
    if (ha_fail_at > 0 && (ha_n == ha_fail_at || (ha_sticky && ha_n > ha_fail_at))) { ha_hit = 1; errno = ENOMEM; return 1; }
    return 0;
}
void *__wrap_malloc(size_t s) {
    if (!ha_on) return __real_malloc(s);
    if (inject()) return NULL;
    void *p = __real_malloc(s); if (p) tab_add(p, s); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!ha_on) return __real_calloc(a, b);
    if (inject()) return NULL;
    void *p = __real_calloc(a, b); if (p) tab_add(p, a * b); return p;
}
void __wrap_free(void *p) {
    if (p && ha_on) {
        ++ha_nfree;
        struct blk *b = tab_find(p);
        if (b) { b->p = (void *)1; --ha_nlive; } else ++ha_nforeign;
    }
    __real_free(p);
}
void *__wrap_realloc(void *o, size_t s) {
    if (!ha_on) return __real_realloc(o, s);
    if (inject()) return NULL;
    struct blk *b = o ? tab_find(o) : NULL;
    if (b) { b->p = (void *)1; --ha_nlive; } else if (o) ++ha_nforeign;
    void *p = __real_realloc(o, s); if (p) tab_add(p, s); return p;
}
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p;
}
char *__wrap_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p;
}
void ha_start(long fail_at, int sticky) {
    if (tab && hcap > HCAP0) { munmap(tab, sizeof(struct blk) * hcap); tab = NULL; }
    if (!tab) tab_new(HCAP0);
    if (tab_used) memset(tab, 0, sizeof(struct blk) * hcap);
    tab_used = 0; ha_n = ha_nlive = ha_nfree = ha_nforeign = 0; ha_hit = 0;
    ha_muted = 0; ha_fail_at = fail_at; ha_sticky = sticky; ha_on = 1;
}
void ha_stop(void) { ha_on = 0; }
long ha_allocs(void) { return ha_n; }
int ha_faulted(void) { return ha_hit; }
long ha_live(void) { return ha_nlive; }
long ha_frees(void) { return ha_nfree; }
long ha_foreign_frees(void) { return ha_nforeign; }
int ha_is_live(void *p) { return p && tab && tab_find(p) != NULL; }
size_t ha_live_size(void *p) { struct blk *b = p && tab ? tab_find(p) : NULL; return b ? b->sz : 0; }
void ha_forget(void *p) { struct blk *b = p && tab ? tab_find(p) : NULL; if (b) { b->p = (void *)1; --ha_nlive; } }
void ha_each(void (*fn)(void *, size_t, void *), void *ctx) {
    for (size_t i = 0; tab && i < hcap; ++i) if (tab[i].p > (void *)1) fn(tab[i].p, tab[i].sz, ctx);
}

static void finish(void) {
    fprintf(out, "{\"k\":\"S\",\"cases\":%lu,\"total\":%lu,\"ops\":%lu,\"states\":%lu,\"samples\":[", n_cases, n_total, n_ops, n_states);
    for (int i = 0; i < n_samples; ++i) { fprintf(out, "%s\"", i ? "," : ""); esc(out, samples[i]); fprintf(out, "\""); }
    fprintf(out, "],\"outcomes\":{");
    for (int i = 0; i < n_out; ++i) { fprintf(out, "%s\"", i ? "," : ""); esc(out, outc[i]); fprintf(out, "\":%lu", outn[i]); }
    fprintf(out, "}}\n");
    fclose(out);
}
int main(int argc, char **argv) {
    const char *shmf = NULL, *outf = NULL, *stf = NULL;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--thorough")) h_thorough = 1;
        else if (!strcmp(argv[i], "--only")) { only = atol(argv[++i]); h_verbose = 1; }
        else if (!strcmp(argv[i], "--start")) start = atol(argv[++i]);
        else if (!strcmp(argv[i], "--shard")) { sscanf(argv[++i], "%d/%d", &shard, &nshards); }
        else if (!strcmp(argv[i], "--shm")) shmf = argv[++i];
        else if (!strcmp(argv[i], "--out")) outf = argv[++i];
        else if (!strcmp(argv[i], "--states")) stf = argv[++i];
        else if (!strcmp(argv[i], "--mode")) h_mode = argv[++i];
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; }
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (shmf) {
        int fd = open(shmf, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof *shm)) return 3;
        shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else shm = mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 3;
    shm->idx = -1; shm->running = 0;
    out = outf ? fopen(outf, "w") : stdout;
    if (!out) return 3;
    st_grow();
    h_main_enumerate();
    finish();
    if (stf) {
        FILE *f = fopen(stf, "w");
        if (f) { for (size_t i = 0; i < st_cap; ++i) if (st[i]) fwrite(&st[i], 8, 1, f); fclose(f); }
    }
    return 0;
}
const char *__asan_default_options(void) {
    return "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:exitcode=77:quarantine_size_mb=8:detect_stack_use_after_return=0:malloc_context_size=6:max_malloc_fill_size=4096:malloc_fill_byte=165";
}
void ha_resume(void) { ha_on = 1; }
void ha_disarm(void) { ha_fail_at = 0; }
void ha_mute(int on) { ha_muted = on; }
