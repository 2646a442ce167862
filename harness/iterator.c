/* P02: the recursive iterator runs every task tree to completion in dependency order.
 * Every program of at most T tasks and at most V activations per task is executed: each activation chooses what the
 * task does (append 1 or 2 dependencies, take one or all results, peek, only change state, append with a failing
 * allocation, finish with or without a result, fail). A reference scheduler predicts who runs next and what it sees. */
#include "h.h"
#include "metac/backend/iterator.h"
#include <errno.h>
#include <limits.h>
#include <assert.h>
#include <sys/resource.h>

#define MAXT 6
struct task { int parent, ndeps, deps[MAXT], state, visits, end, fail; void *out; void *ctx; char in; };
static struct task T[MAXT]; static int nt, cur, maxt, maxv;
static char outs[MAXT], ctxs[MAXT][16];
enum { A_DONE, A_FAIL, A_DONE_NULL, A_APP1, A_APP2, A_TAKE1, A_STATE, A_TAKEALL_APP1, A_TAKE1_APP1, A_APPFAIL, A_N };
static const char *an[] = {"done", "fail", "done(NULL)", "append1", "append2", "take-one", "state", "take-all,append1", "take-one,append1", "append(ENOMEM)"};
static int alive, budget_allocs;

static int model_new(int parent) { memset(&T[nt], 0, sizeof T[0]); T[nt].parent = parent; if (parent >= 0) T[parent].deps[T[parent].ndeps++] = nt; return nt++; }
static int model_next(void) {
    for (;;) {
        if (T[cur].end) { if (T[cur].parent < 0) return -1; cur = T[cur].parent; continue; }
        int i; for (i = 0; i < T[cur].ndeps; ++i) if (!T[T[cur].deps[i]].end) break;
        if (i == T[cur].ndeps) return cur;
        cur = T[cur].deps[i];
    }
}
static char trace[2048]; static int tl;
#define BAD(...) do { if (ex) { h_fail(__VA_ARGS__); h_log("trace: %s", trace); } return 0; } while (0)
static int take(metac_recursive_iterator_t *it, int ex) {
    int d = T[cur].deps[0];
    if (ex) {
        void *in = NULL; int f = -1;
        void *o = metac_recursive_iterator_dequeue_and_delete_dep(it, &in, &f); h_ops(1);
        if (in != &T[d].in || f != T[d].fail || o != T[d].out) BAD("task %d: dequeued result of %ld (fail %d), expected task %d (fail %d)%s [%s]", cur, in ? (long)((struct task *)((char *)in - offsetof(struct task, in)) - T) : -1L, f, d, T[d].fail, o != T[d].out ? ", wrong out" : "", trace);
    }
    memmove(T[cur].deps, T[cur].deps + 1, sizeof(int) * --T[cur].ndeps);
    return 1;
}
static int append(metac_recursive_iterator_t *it, int ex) {
    int d = model_new(cur);
    if (ex) { int rc = metac_recursive_iterator_create_and_append_dep(it, &T[d].in); h_ops(1); if (rc) BAD("append returned %d", rc); }
    return 1;
}
static int observe(metac_recursive_iterator_t *it, int ex) {
    if (!ex) return 1;
    struct task *t = &T[cur];
    if (metac_recursive_iterator_get_state(it) != t->state) BAD("task %d sees state %d, expected %d [%s]", cur, metac_recursive_iterator_get_state(it), t->state, trace);
    if (metac_recursive_iterator_get_context(it) != t->ctx) BAD("task %d lost its context [%s]", cur, trace);
    int lv = 0; for (int x = cur; T[x].parent >= 0; x = T[x].parent) ++lv;
    if (metac_recursive_iterator_level(it) != lv) BAD("task %d at level %d, expected %d", cur, metac_recursive_iterator_level(it), lv);
    int x = cur; for (int i = 0; i <= lv; ++i, x = T[x].parent) if (metac_recursive_iterator_get_in(it, i) != &T[x].in) BAD("task %d: ancestor %d is wrong", cur, i);
    if (metac_recursive_iterator_get_in(it, lv + 1) != NULL) BAD("ancestor beyond the root");
    if (metac_recursive_iterator_dep_queue_size(it) != t->ndeps || !!metac_recursive_iterator_dep_queue_is_empty(it) != (t->ndeps == 0)) BAD("task %d has %d queued results, expected %d [%s]", cur, metac_recursive_iterator_dep_queue_size(it), t->ndeps, trace);
    for (int i = 0; i < t->ndeps; ++i) {
        void *in = NULL; int f = -1; struct task *d = &T[t->deps[i]];
        void *o = metac_recursive_iterator_get_dep_out(it, i, &in, &f);
        if (o != d->out || in != &d->in || f != d->fail) BAD("task %d: peek %d shows the wrong dependency [%s]", cur, i, trace);
    }
    if (metac_recursive_iterator_get_dep_out(it, t->ndeps, NULL, NULL) != NULL) BAD("peek behind the queue");
    h_ops(6 + t->ndeps);
    return 1;
}
/* ex=0: reference only (to enumerate), ex=1: together with the implementation */
static int program(int ex) {
    nt = 0; tl = 0; trace[0] = 0; cur = model_new(-1);
    metac_recursive_iterator_t *it = NULL;
    if (ex) {
        ha_start(0, 0);
        it = metac_new_recursive_iterator(&T[0].in);
        if (!it) BAD("create failed");
    }
    for (;;) {
        int r = model_next();
        if (ex) {
            void *p = metac_recursive_iterator_next(it); h_ops(1);
            if (p != (r < 0 ? NULL : (void *)&T[r].in)) BAD("iterator schedules task %ld, expected %d [%s]", p ? (long)((struct task *)((char *)p - offsetof(struct task, in)) - T) : -1L, r, trace);
        }
        if (r < 0) break;
        struct task *t = &T[cur];
        if (!observe(it, ex)) return 0;
        ++t->visits;
        int opt[A_N], no = 0, room = maxt - nt;
        opt[no++] = A_DONE; opt[no++] = A_FAIL;
        if (t->visits == 1 && cur) opt[no++] = A_DONE_NULL;
        if (t->visits < maxv) {
            if (room >= 1) opt[no++] = A_APP1;
            if (room >= 2) opt[no++] = A_APP2;
            if (t->ndeps >= 1) opt[no++] = A_TAKE1;
            if (t->visits == 1) opt[no++] = A_STATE;
            if (t->ndeps >= 1 && room >= 1) opt[no++] = A_TAKEALL_APP1;
            if (t->ndeps >= 2 && room >= 1) opt[no++] = A_TAKE1_APP1;
            if (t->visits == 1 && room >= 1) opt[no++] = A_APPFAIL;
        }
        int a = opt[h_choose(no)];
        if (ex) tl += snprintf(trace + tl, sizeof trace - tl, "t%d:%s ", cur, an[a]);
        static const int sv[] = {0, 1, INT_MAX, 0, 70000, 2, 3}; int next_state = sv[t->visits]; /* all positive numbers and start belong to the task */
        switch (a) {
        case A_DONE: case A_FAIL: case A_DONE_NULL:
            while (t->ndeps) if (!take(it, ex)) return 0;
            if (ex && metac_recursive_iterator_dequeue_and_delete_dep(it, NULL, NULL) != NULL) BAD("dequeue from an empty queue");
            t->end = 1; t->fail = a == A_FAIL; t->out = a == A_DONE ? &outs[cur] : NULL;
            t->state = t->fail ? METAC_R_ITER_failed : METAC_R_ITER_done;
            if (ex) { metac_recursive_iterator_t *q = t->fail ? metac_recursive_iterator_fail(it) : metac_recursive_iterator_done(it, t->out); h_ops(1); if (q != it) BAD("finishing was refused"); }
            continue;
        case A_TAKEALL_APP1: while (t->ndeps) if (!take(it, ex)) return 0; /* fallthrough */
        case A_APP1: if (!append(it, ex)) return 0; break;
        case A_APP2: if (!append(it, ex) || !append(it, ex)) return 0; break;
        case A_TAKE1_APP1: if (!take(it, ex) || !append(it, ex)) return 0; break;
        case A_TAKE1: if (!take(it, ex)) return 0; break;
        case A_APPFAIL:
            if (ex) {
                ha_stop(); long l = ha_live(); ha_start(1, 0);
                int rc = metac_recursive_iterator_create_and_append_dep(it, &outs[0]); h_ops(1);
                if (rc != -ENOMEM) BAD("append with a failing allocation returned %d", rc);
                if (ha_live() != 0) BAD("failed append leaked");
                ha_stop(); (void)l; budget_allocs = 1; ha_start(0, 0);
            }
            break;
        }
        if (ex) {
            if (metac_recursive_iterator_set_state(it, METAC_R_ITER_error) != NULL) BAD("error state accepted");
            if (metac_recursive_iterator_set_state(it, next_state) != it) BAD("state change refused");
            t->ctx = &ctxs[cur][t->visits];
            if (metac_recursive_iterator_set_context(it, t->ctx) != t->ctx) BAD("context not stored");
            h_ops(3);
        }
        t->state = next_state;
    }
    if (ex) {
        void *in = NULL; int f = -1;
        void *o = metac_recursive_iterator_get_out(it, &in, &f);
        if (o != T[0].out || in != &T[0].in || f != T[0].fail) BAD("result of the root task is wrong [%s]", trace);
        if (metac_recursive_iterator_next(it) != NULL) BAD("iterator runs on behind its end");
        metac_recursive_iterator_free(it);
        if (ha_live() > 0) BAD("%ld blocks leaked [%s]", ha_live(), trace);
        ha_stop();
        uint64_t h = h_hash(H_HASH0, trace, tl); h_state(h);
    }
    return 1;
}
static void chain(int depth, int wide) {
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    static int ids[200002];
    metac_recursive_iterator_t *it = metac_new_recursive_iterator(&ids[0]);
    int used = 1, finished = 0; int *p;
    while ((p = metac_recursive_iterator_next(it)) != NULL) {
        h_ops(1);
        int lev = wide ? p != ids : (int)(p - ids), far = depth > 2000 && lev % 997, gl = far ? lev : metac_recursive_iterator_level(it);
        if (gl != lev) { h_fail("task %ld is at level %d, expected %d", (long)(p - ids), gl, lev); return; }
        for (int q = 0, st = depth > 2000 ? 1 + lev / 3 : 1; !far && q <= lev + 2; q += q < lev && q + st > lev ? lev - q : st) { /* the ancestors, and none above the root */
            int *w = q > lev ? NULL : wide && q ? ids : p - q, *g = metac_recursive_iterator_get_in(it, q);
            h_ops(1); if (g != w) { h_fail("level %d: ancestor %d is %ld, expected %ld", lev, q, g ? (long)(g - ids) : -1, w ? (long)(w - ids) : -1); return; }
            if (q > lev) st = 1;
        }
        if (metac_recursive_iterator_get_state(it) == 0) {
            if (p == &ids[used - 1] && used <= depth && !(wide && used > 1)) {
                for (int i = 0; i < (wide ? wide : 1); ++i) if (metac_recursive_iterator_create_and_append_dep(it, &ids[used++])) { h_fail("append failed"); return; }
                metac_recursive_iterator_set_state(it, 1);
                continue;
            }
        } else {
            int want = wide ? wide : 1; int *e = wide ? &ids[1] : p + 1;
            if (metac_recursive_iterator_dep_queue_size(it) != want || metac_recursive_iterator_dep_queue_is_empty(it)) { h_fail("%d dependencies in the queue, %d were appended", metac_recursive_iterator_dep_queue_size(it), want); return; }
            for (int i = 0; i <= want; ++i) { void *in = NULL; int f = -1; void *o = metac_recursive_iterator_get_dep_out(it, i, &in, &f), *w = i < want ? e + i : NULL; h_ops(1); if (o != w || (w && (in != w || f != 0))) { h_fail("result %d of %d cannot be looked at", i, want); return; } }
            while (want--) { void *in; void *o = metac_recursive_iterator_dequeue_and_delete_dep(it, &in, NULL); if (in != e || o != e) { h_fail("result %ld, expected %ld", (long)((int *)in - ids), (long)(e - ids)); return; } ++e; }
        }
        ++finished;
        metac_recursive_iterator_done(it, p);
    }
    H_CHECK(finished == used, "%d of %d tasks finished", finished, used);
    metac_recursive_iterator_free(it);
}
void h_main_enumerate(void) {
    static const int cfg[][2] = {{1, 4}, {2, 4}, {3, 3}, {3, 4}, {4, 3}, {5, 2}, {4, 4}, {5, 3}, {6, 2}, {2, 6}, {3, 5}, {6, 3}};
    for (int g = 0; g < (h_thorough ? 12 : 7); ++g) {
        maxt = cfg[g][0]; maxv = cfg[g][1];
        h_explore_start();
        do {
            program(0);
            char b[600]; h_choices(b, sizeof b);
            if (h_begin("tasks<=%d, activations<=%d, choices %s", maxt, maxv, b)) { h_explore_rewind(); int ok = program(1); ha_stop(); h_end(); if (!ok) { h_explore_rewind(); program(0); } }
        } while (h_explore_next());
    }
    int deep = h_thorough ? 200000 : 60000;
    if (h_begin("chain of %d nested tasks", deep)) { chain(deep, 0); h_end(); }
    for (int d = 1; d <= (h_thorough ? 1100 : 600); d += d < 260 ? 1 : 17) if (h_begin("chain of %d nested tasks", d)) { chain(d, 0); h_end(); }
    for (int w = 1; w <= (h_thorough ? 1100 : 600); w += w < 260 ? 1 : 17) if (h_begin("one task with %d dependencies", w)) { chain(1, w); h_end(); }
    if (h_begin("one task with %d dependencies", 3000)) { chain(1, 3000); h_end(); }
}
