/* P01: the hash map is a finite map, for every operation history.
 * alphabet: put (2 values, NULL value, through an aliased equal key), remove, memoize, each also with the entry
 * allocation or the table-growth allocation failing; lookups, size and for-each observe after every step.
 * Every sequence of length D over 3 focus keys is run from every prefill state (0..N other keys) under every
 * hash regime (all keys colliding, pairwise collisions, extreme/negative hashes, spread). */
#include "h.h"
#include "metac/backend/hashmap.h"
#include <errno.h>
#include <limits.h>

#define NK 40
#define FOCUS 3
struct key { int id; int hash; };
static struct key K[2][NK];
static int kh(void *k) { return ((struct key *)k)->hash; }
static bool ke(void *a, void *b) { return ((struct key *)a)->id == ((struct key *)b)->id; }
static int regime_hash(int r, int id) {
    switch (r) {
    case 0: return 7;
    case 1: return id;
    case 2: return id / 2 * 1000;
    case 3: { static const int x[] = {INT_MIN, INT_MAX, -1, 0, 1, -2}; return x[id % 6]; }
    case 4: return -id * 4096;
    default: return id << 24;
    }
}
#define NREG 6
static int lim = NK; /* keys in play */
static char V[8]; /* value objects */

struct model { char has[NK]; void *v[NK]; int size; };

static struct seen { int n; char has[NK]; int dup, bad; void *v[NK]; int stop_at; } S;
static bool each(void *k, void *v, void *ctx) {
    struct seen *s = ctx; int id = ((struct key *)k)->id;
    if (s->has[id]) s->dup = 1;
    s->has[id] = 1; s->v[id] = v; ++s->n;
    return s->stop_at < 0 || s->n < s->stop_at;
}
static int memo_calls;
static void *memo(void *k, void *ctx) { ++memo_calls; (void)k; return ctx; }

static int check(Hashmap *m, struct model *o, int full, const char *where) {
    if ((int)hashmapSize(m) != o->size) { h_fail("%s: size %zu, reference %d", where, hashmapSize(m), o->size); return 0; }
    for (int i = 0; i < lim; ++i) {
        if (!full && i >= FOCUS && i % 5) continue;
        for (int al = 0; al < 2; ++al) {
            void *g = hashmapGet(m, &K[al][i]);
            bool c = hashmapContainsKey(m, &K[al][i]);
            if (c != (bool)o->has[i]) { h_fail("%s: contains(key %d)=%d, reference %d", where, i, c, o->has[i]); return 0; }
            if (g != (o->has[i] ? o->v[i] : NULL)) { h_fail("%s: get(key %d) is not the value last stored", where, i); return 0; }
        }
    }
    memset(&S, 0, sizeof S); S.stop_at = -1;
    hashmapForEach(m, each, &S);
    if (S.dup || S.n != o->size || memcmp(S.has, o->has, NK)) { h_fail("%s: for-each visited %d entries (dup %d), reference has %d", where, S.n, S.dup, o->size); return 0; }
    for (int i = 0; i < NK; ++i) if (o->has[i] && S.v[i] != o->v[i]) { h_fail("%s: for-each shows a stale value of key %d", where, i); return 0; }
    if (full && o->size > 1) {
        for (int st = 1; st <= o->size && st <= 3; ++st) {
            memset(&S, 0, sizeof S); S.stop_at = st;
            hashmapForEach(m, each, &S);
            if (S.n != st) { h_fail("%s: for-each went on after the callback said stop (%d of %d)", where, S.n, st); return 0; }
        }
    }
    h_ops(5);
    return 1;
}

enum { PUT_A, PUT_B, PUT_NULL, PUT_ALIAS, REMOVE, MEMO, MEMO_NULL, PUT_FAIL1, PUT_FAIL2, MEMO_FAIL1, MEMO_FAIL2, NOP_ };
static const char *opn[] = {"put(A)", "put(B)", "put(NULL)", "put-alias(C)", "remove", "memoize(D)", "memoize(NULL)", "put(E)/1st alloc fails", "put(E)/2nd alloc fails", "memoize(F)/1st alloc fails", "memoize(F)/2nd alloc fails"};

static int step(Hashmap *m, struct model *o, int op, int k) {
    void *v = NULL, *res = (void *)0x55; int rc, fail = 0, al = 0, isput = 0, ismemo = 0;
    void *old = o->has[k] ? o->v[k] : NULL;
    int had = o->has[k];
    switch (op) {
    case PUT_A: v = &V[0]; isput = 1; break;
    case PUT_B: v = &V[1]; isput = 1; break;
    case PUT_NULL: v = NULL; isput = 1; break;
    case PUT_ALIAS: v = &V[2]; isput = 1; al = 1; break;
    case PUT_FAIL1: v = &V[4]; isput = 1; fail = 1; break;
    case PUT_FAIL2: v = &V[4]; isput = 1; fail = 2; break;
    case MEMO: v = &V[3]; ismemo = 1; break;
    case MEMO_NULL: v = NULL; ismemo = 1; break;
    case MEMO_FAIL1: v = &V[5]; ismemo = 1; fail = 1; break;
    case MEMO_FAIL2: v = &V[5]; ismemo = 1; fail = 2; break;
    }
    h_ops(1);
    if (op == REMOVE) {
        void *r = hashmapRemove(m, &K[1][k]);
        if (r != old) { h_fail("remove(key %d) did not return the stored value", k); return 0; }
        if (had) { o->has[k] = 0; o->v[k] = NULL; o->size--; }
        return 1;
    }
    memo_calls = 0;
    void **pres = op == PUT_B || op == MEMO_NULL ? NULL : &res; /* the result slot is optional */
    ha_start(fail, 0);
    if (isput) rc = hashmapPut(m, &K[al][k], v, pres); else rc = hashmapMemoize(m, &K[al][k], memo, v, pres);
    int hit = ha_faulted(); long na = ha_allocs();
    ha_stop();
    if (had) {
        if (rc != 0) { h_fail("%s on an existing key returned %d", opn[op], rc); return 0; }
        if (pres && res != old) { h_fail("%s did not report the previous value", opn[op]); return 0; }
        if (ismemo && memo_calls) { h_fail("memoize called the callback for a present key"); return 0; }
        if (isput) o->v[k] = v;
        return 1;
    }
    if (hit && rc != 0) {
        if (rc != -ENOMEM) { h_fail("%s: allocation failed but %d was returned", opn[op], rc); return 0; }
        if (isput && res != NULL) { h_fail("%s: result slot not NULL after allocation failure", opn[op]); return 0; }
        h_outcome("enomem");
        return 1; /* unchanged */
    }
    if (rc != 0) { h_fail("%s returned %d", opn[op], rc); return 0; }
    if (pres && isput && res != NULL) { h_fail("%s: previous value reported for a new key", opn[op]); return 0; }
    if (ismemo && (memo_calls != 1 || (pres && res != v))) { h_fail("memoize: callback calls %d, result %s", memo_calls, res == v ? "ok" : "wrong"); return 0; }
    if (hit) h_outcome("growth-failed"); else if (na > 1) h_outcome("grown");
    o->has[k] = 1; o->v[k] = v; o->size++;
    return 1;
}

static void setup(int r) {
    for (int a = 0; a < 2; ++a) for (int i = 0; i < NK; ++i) { K[a][i].id = i; K[a][i].hash = regime_hash(r, i); }
}
static void run(int r, int cap, int prefill, const int *ops, int n, int full) {
    struct model o; memset(&o, 0, sizeof o);
    char seq[256]; int l = 0; seq[0] = 0;
    if (h_verbose) for (int i = 0; i < n; ++i) l += snprintf(seq + l, sizeof seq - l, " %s(k%d)", opn[ops[i] / FOCUS], ops[i] % FOCUS);
    h_log("history:%s", seq);
    Hashmap *m = hashmapCreate(cap, kh, ke);
    if (!m) { h_fail("create failed"); return; }
    for (int i = 0; i < prefill && !h_failed(); ++i) { if (!step(m, &o, PUT_A, FOCUS + i)) break; }
    uint64_t hs;
    for (int i = 0; i < n && !h_failed(); ++i) {
        int had[FOCUS]; (void)had;
        if (!step(m, &o, ops[i] / FOCUS, ops[i] % FOCUS)) break;
        char w[200] = "after last step";
        if (!check(m, &o, full || i == n - 1, w)) {
            char d[256]; int q = 0; for (int j = 0; j <= i; ++j) q += snprintf(d + q, sizeof d - q, " %s(k%d)", opn[ops[j] / FOCUS], ops[j] % FOCUS);
            h_log("failing history:%s", d);
            break;
        }
        hs = H_HASH0; hs = h_hash(hs, &r, 4); hs = h_hash(hs, &cap, 4); hs = h_hash(hs, o.has, NK); hs = h_hash(hs, o.v, FOCUS * sizeof(void *));
        size_t cc = hashmapCurrentCapacity(m); hs = h_hash(hs, &cc, sizeof cc); h_state(hs);
    }
    hashmapFree(m);
    h_ops(2);
}
/* the ready-made key functions: equal keys hash alike and compare equal, different ones are told apart, no byte outside of the key is read */
static void helpers(int len, int a, int b) {
    ha_stop();
    static const unsigned char bytes[] = {0, 1, 0x7f, 0x80, 0xff};
    char *x = malloc(len ? len : 1), *y = malloc(len ? len : 1); /* exact blocks: ASan sees an overrun */
    for (int i = 0, p = a; i < len; ++i, p /= 5) x[i] = bytes[p % 5];
    for (int i = 0, p = b; i < len; ++i, p /= 5) y[i] = bytes[p % 5];
    if (len == 0) { free(x); free(y); x = y = NULL; }
    int hx = hashmapHash(x, len), hy = hashmapHash(y, len);
    if (hx != hashmapHash(x, len)) h_fail("the hash of the same bytes changes");
    if (a == b && hx != hy) h_fail("equal bytes have different hashes");
    if (len == 1 && a != b && hx == hy) h_fail("all single bytes hash alike");
    h_ops(3);
    if (len == sizeof(int)) {
        int same = memcmp(x, y, len) == 0;
        if ((bool)hashmapIntEquals(x, y) != (bool)same) h_fail("integer keys: equality is wrong");
        if (same && hashmapIntHash(x) != hashmapIntHash(y)) h_fail("integer keys: equal keys have different hashes");
        if (!same) {
            void *r; Hashmap *m = hashmapCreate(2, hashmapIntHash, hashmapIntEquals);
            hashmapPut(m, x, &V[0], NULL); hashmapPut(m, y, &V[1], NULL);
            if (hashmapSize(m) != 2 || hashmapGet(m, x) != &V[0] || hashmapGet(m, y) != &V[1]) h_fail("integer keys: map mixes keys up");
            r = hashmapRemove(m, x); if (r != &V[0] || hashmapContainsKey(m, x) || !hashmapContainsKey(m, y)) h_fail("integer keys: removal is wrong");
            hashmapFree(m); h_ops(8);
        }
    }
    h_state(h_hash(h_hash(H_HASH0, &len, 4), &a, 4) ^ b);
    free(x); free(y);
}
static void lifecycle(int r, int cap, int n, int fail) {
    /* allocation accounting over a whole life: create, n puts, some removes, free */
    setup(r);
    ha_start(fail, 0);
    Hashmap *m = hashmapCreate(cap, kh, ke);
    if (!m) {
        if (!ha_faulted()) h_fail("create returned NULL without an allocation failure");
        if (ha_live()) h_fail("create failed and leaked %ld block(s)", ha_live());
        ha_stop(); h_outcome("create-enomem"); return;
    }
    int size = 0; char has[NK] = {0};
    for (int i = 0; i < n; ++i) {
        int rc = hashmapPut(m, &K[0][i], &V[i % 8], NULL);
        if (rc == 0) { ++size; has[i] = 1; } else if (rc != -ENOMEM || !ha_faulted()) h_fail("put %d returned %d", i, rc);
    }
    if (r == 0 && hashmapCountCollisions(m) != (size_t)(size > 1 ? size - 1 : 0)) h_fail("%zu collisions counted for %d keys with the same hash", hashmapCountCollisions(m), size);
    if (hashmapCountCollisions(m) > (size_t)(size > 1 ? size - 1 : 0)) h_fail("more collisions (%zu) than keys", hashmapCountCollisions(m));
    for (int i = 0; i < NK; ++i) if (hashmapContainsKey(m, &K[1][i]) != (bool)has[i]) h_fail("key %d lost or invented", i);
    for (int i = 0; i < n; i += 2) { void *v = hashmapRemove(m, &K[1][i]); if (v != (has[i] ? &V[i % 8] : NULL)) h_fail("remove(%d) wrong value", i); if (has[i]) { --size; has[i] = 0; } }
    for (int i = 0; i < NK; ++i) if (hashmapGet(m, &K[1][i]) != (has[i] ? &V[i % 8] : NULL)) h_fail("key %d wrong after removals", i);
    if ((int)hashmapSize(m) != size) h_fail("size %zu, reference %d", hashmapSize(m), size);
    hashmapFree(m);
    if (ha_live()) h_fail("%ld block(s) leaked by free", ha_live());
    h_ops(3 * n + 2);
    ha_stop();
}
/* maps of many keys: growth over many table sizes, long chains */
#define BIG 20000
static struct key BK[2][BIG]; static unsigned char bhas[BIG], bseen[BIG]; static int bn, bbad;
static bool beach(void *k, void *v, void *ctx) { int id = ((struct key *)k)->id; (void)ctx; ++bn; if (bseen[id]++ || !bhas[id] || v != &BK[1][id]) ++bbad; return true; }
static void bigcheck(Hashmap *m, int n, int all, const char *w) {
    int size = 0; for (int i = 0; i < n; ++i) size += bhas[i];
    if ((int)hashmapSize(m) != size) h_fail("%s: size %zu, reference %d", w, hashmapSize(m), size);
    for (int i = 0; i < n && !h_failed(); i += 1 + (all ? 0 : n / 64)) {
        if (hashmapGet(m, &BK[i & 1][i]) != (bhas[i] ? &BK[1][i] : NULL)) h_fail("%s: get(key %d) is not the value stored", w, i);
        if (hashmapContainsKey(m, &BK[~i & 1][i]) != (bool)bhas[i]) h_fail("%s: contains(key %d) is wrong", w, i);
    }
    memset(bseen, 0, sizeof bseen); bn = bbad = 0; hashmapForEach(m, beach, NULL);
    if (bn != size || bbad) h_fail("%s: for-each visited %d entries (%d wrong), reference has %d", w, bn, bbad, size);
    h_ops(2 * (n < 64 || all ? n : 64) + 2);
}
static void big(int r, int cap, int n) {
    for (int a = 0; a < 2; ++a) for (int i = 0; i < n; ++i) { BK[a][i].id = i; BK[a][i].hash = r == NREG ? (int)((unsigned)i * 2654435761u) : regime_hash(r, i); }
    memset(bhas, 0, sizeof bhas);
    ha_start(0, 0);
    Hashmap *m = hashmapCreate(cap, kh, ke); void *res;
    for (int i = 0; i < n && !h_failed(); ++i) {
        res = &V; int rc = i % 3 == 2 ? hashmapMemoize(m, &BK[0][i], memo, &BK[1][i], &res) : hashmapPut(m, &BK[0][i], &BK[1][i], &res);
        if (rc || res != (i % 3 == 2 ? &BK[1][i] : NULL)) h_fail("adding key %d: %d or a previous value", i, rc);
        bhas[i] = 1;
        if (!(i & (i + 1)) || !((i + 1) % 997)) bigcheck(m, i + 1, 0, "growing");
    }
    if (!h_failed()) bigcheck(m, n, 1, "full");
    if (!h_failed() && r == 0 && hashmapCountCollisions(m) != (size_t)(n > 1 ? n - 1 : 0)) h_fail("%zu collisions counted for %d keys with the same hash", hashmapCountCollisions(m), n);
    for (int i = 0; i < n && !h_failed(); ++i) { res = NULL; if (hashmapPut(m, &BK[1][i], &BK[1][i], &res) || res != &BK[1][i]) h_fail("storing key %d again does not report its value", i); }
    for (int i = n - 1; i >= 0 && !h_failed(); i -= 1 + i % 3) { if (hashmapRemove(m, &BK[1][i]) != &BK[1][i]) h_fail("remove(key %d) did not return the value", i); bhas[i] = 0; }
    if (!h_failed()) bigcheck(m, n, 1, "after removals");
    for (int i = 0; i < n && !h_failed(); i += 2) { res = NULL; if (hashmapPut(m, &BK[0][i], &BK[1][i], &res) || res != (bhas[i] ? &BK[1][i] : NULL)) h_fail("adding key %d back is wrong", i); bhas[i] = 1; }
    if (!h_failed()) bigcheck(m, n, 1, "after adding back");
    uint64_t hs = H_HASH0; size_t cc = hashmapCurrentCapacity(m); hs = h_hash(hs, &r, 4); hs = h_hash(hs, &n, 4); hs = h_hash(hs, &cc, sizeof cc); h_state(hs);
    hashmapFree(m);
    H_CHECK(h_failed() || ha_live() == 0, "%ld block(s) leaked by free", ha_live());
    h_ops(4 * n); ha_stop();
}
void h_main_enumerate(void) {
    { static const int ns[] = {12, 13, 24, 25, 31, 32, 33, 48, 49, 63, 64, 65, 96, 97, 127, 128, 129, 192, 193, 255, 256, 257, 300, 384, 385, 511, 513, 768, 769, 1023, 1025, 1536, 1537, 3072, 3073, 6144, 6145, 12288, 12289, 20000}; static const int cs[] = {0, 1, 100, 1024, 5000};
      for (int r = 0; r <= NREG; ++r) for (unsigned i = 0; i < sizeof ns / sizeof *ns; ++i) for (int c = 0; c < 5; ++c) {
        int lim_ = r == 0 || r == 3 ? 513 : r == 2 || r == 1 || r == 4 || r == NREG ? BIG : 769; /* long chains take quadratic time */
        if (ns[i] > lim_) continue;
        if (h_begin("large map: hash regime %d, capacity %d, %d keys", r, cs[c], ns[i])) { big(r, cs[c], ns[i]); h_end(); } } }
    for (int len = 0; len <= 4; ++len) { int n = 1; for (int i = 0; i < len; ++i) n *= 5;
        for (int a = 0; a < n; ++a) if (h_begin("key functions: %d bytes, key %d against every other", len, a)) { for (int b = 0; b < n; ++b) helpers(len, a, b); h_end(); } }

    int depth = h_thorough ? 4 : 3, nop = NOP_ * FOCUS;
    static const int caps[] = {0, 4, 1};
    int maxpre = h_thorough ? 13 : 13;
    for (int r = 0; r < NREG; ++r) for (int n = 0; n <= 36; ++n) for (int c = 0; c < 3; ++c) for (int fail = 0; fail <= n + 9; ++fail)
        if (h_begin("life: hash regime %d, capacity %d, %d keys, allocation %d fails", r, caps[c], n, fail)) { lifecycle(r, caps[c], n, fail); h_end(); }
    for (int r = 0; r < NREG; ++r) for (int c = 0; c < (h_thorough ? 3 : 2); ++c) for (int pre = 0; pre <= maxpre; ++pre) {
        if (!h_thorough && (pre == 1 || pre == 4 || (pre > 6 && pre < 11) || pre > 12)) continue;
        for (int a = 0; a < nop; ++a)
            if (h_begin("hash regime %d, capacity %d, prefill %d, first op %s(k%d), then every %d-op continuation", r, caps[c], pre, opn[a / FOCUS], a % FOCUS, depth - 1)) {
                setup(r); lim = FOCUS + pre + 2;
                int ops[8] = {a};
                int tot = 1; for (int i = 1; i < depth; ++i) tot *= nop;
                for (int t = 0; t < tot && !h_failed(); ++t) {
                    int x = t; for (int i = 1; i < depth; ++i) { ops[i] = x % nop; x /= nop; }
                    run(r, caps[c], pre, ops, depth, 0);
                }
                h_end();
            }
    }
}
