// A random history of calls to every entry point by one thread, with what it did made known to monitors.
#ifndef OPS_H
#define OPS_H
#include "vf.h"
#include <malloc.h>
#ifdef H_MALLOC_PREFIX
struct mallinfo2 h_mallinfo2(void);
#endif
enum { O_MALLOC, O_CALLOC, O_REALLOC_NULL, O_ALIGNED, O_MEMALIGN, O_POSIX, O_VALLOC, O_PVALLOC, O_N_ALLOC, O_REALLOC = O_N_ALLOC,
       O_FREE, O_CFREE, O_FREE_SIZED, O_FREE_ALIGNED, O_FREE_NULL, O_USABLE, O_OBJECT, O_OBJECT_FAST, O_TRIM, O_MALLOPT, O_MALLINFO, O_MALLINFO2,
       O_INFO, O_INFO_BAD, O_STATS, O_GETSTATE, O_SETSTATE, O_BAD_ALIGN, O_BAD_POSIX, O_TOO_LARGE, O_CALLOC_OVERFLOW, O_ALIGNED_HUGE, O_REALLOC_HUGE, O_FOREIGN, O_N };
static const char *const op_name[] VF_UNUSED = {"malloc", "calloc", "realloc(NULL)", "aligned_alloc", "memalign", "posix_memalign", "valloc", "pvalloc", "realloc",
    "free", "cfree", "free_sized", "free_aligned_sized", "free(NULL)", "malloc_usable_size", "malloc_object_size", "malloc_object_size_fast", "malloc_trim", "mallopt", "mallinfo", "mallinfo2",
    "malloc_info", "malloc_info(1)", "malloc_stats", "malloc_get_state", "malloc_set_state", "aligned_alloc(24)", "posix_memalign(3)", "malloc(huge)", "calloc(overflow)", "aligned_alloc(huge)", "realloc(huge)", "malloc_object_size(foreign)"};

typedef struct { u8 *p; size_t n; u32 align, cls, user; } op_obj;   // cls as reported by expect_size
typedef struct {
    rng_t r;
    op_obj *o;
    unsigned nobj;
    size_t live, cap;
    FILE *info;              // stream for malloc_info, which must not allocate
    unsigned large_pct;      // share of sizes from the large range
    bool no_huge;
    // monitors; old is the object before (p NULL: none), now the object after
    void (*alloc_m)(op_obj *now);
    void (*realloc_m)(const op_obj *old, op_obj *now);
    void (*free_m)(const op_obj *old);        // called before the release
    void (*pre_m)(const op_obj *old);         // called before other uses
    void (*kept_m)(const op_obj *old);        // called when the object wasn't changed by these
    void (*call_m)(unsigned op);              // after each call
    u64 count[O_N], failed[O_N];
} ops_t;

static void ops_init(ops_t *c, u64 seed, unsigned nobj, size_t cap) {
    memset(c, 0, sizeof *c);
    c->r.s = seed;
    c->nobj = nobj;
    c->cap = cap;
    c->large_pct = 12;
    c->o = vf_map(sizeof(op_obj) * nobj);
}
static size_t ops_size(ops_t *c) {
    rng_t *r = &c->r;
    unsigned k = rndn(r, 100);
    if (k < c->large_pct) {
        unsigned z = rndn(r, 40);
        if (z == 0 && !c->no_huge) return rndn(r, 2) ? 32 << 20 : rndr(r, 32 << 20, 44 << 20);
        if (z < 8) return MAXSMALL - CANARY + rndn(r, 3);
        return rndr(r, MAXSMALL - CANARY + 1, 900000);
    }
    if (k < 16 + c->large_pct / 2) return 0;
    if (k < 70) { unsigned i = rndr(r, 1, N_DOC); size_t s = class_size(i) - CANARY; return s - (rndn(r, 2) ? rndn(r, 9) : 0); }
    if (k < 90) return rndn(r, 600);
    return rndn(r, MAXSMALL);
}
static void ops_call(ops_t *c, unsigned op) { c->count[op]++; if (c->call_m) c->call_m(op); }
static void ops_made(ops_t *c, unsigned op, op_obj *o, u8 *p) {
    o->p = p;
    if (!p) { c->failed[op]++; ops_call(c, op); return; }
    o->cls = expect_size(o->n, o->align).cls;
    c->live += o->n;
    if (c->alloc_m) c->alloc_m(o);
    ops_call(c, op);
}
static void ops_alloc(ops_t *c, op_obj *o, unsigned op, size_t n, u32 align) {
    void *p = NULL;
    o->n = n; o->align = 16;
    switch (op) {
    case O_MALLOC: p = h_malloc(n); break;
    case O_CALLOC: { size_t m = n % 7 == 0 ? 7 : 1; p = h_calloc(m, n / m); break; }
    case O_REALLOC_NULL: p = h_realloc(NULL, n); break;
    case O_ALIGNED: case O_MEMALIGN: case O_POSIX:
        o->align = align;
        if (op == O_ALIGNED) p = h_aligned_alloc(align, n);
        else if (op == O_MEMALIGN) p = h_memalign(align, n);
        else if (h_posix_memalign(&p, align < 8 ? 8 : align, n)) p = NULL;
        if (o->align < 16) o->align = 16;
        break;
    case O_VALLOC: o->align = PGSZ; p = h_valloc(n); break;
    case O_PVALLOC: if (!n) n = 1; o->align = PGSZ; o->n = (n + PGSZ - 1) & -PGSZ; p = h_pvalloc(n); break;
    }
    ops_made(c, op, o, p);
}
static u32 ops_align(ops_t *c) {
    unsigned k = rndn(&c->r, 10);
    return k < 7 ? 1U << rndr(&c->r, 3, 12) : 1U << rndr(&c->r, 12, 20);
}
static void ops_release(ops_t *c, op_obj *o, unsigned op) {
    if (op == O_FREE_SIZED && o->align > 16) op = O_FREE_ALIGNED;
    if (op == O_FREE_ALIGNED && o->align <= 16) op = O_FREE_SIZED;
    if (c->free_m) c->free_m(o);
    c->live -= o->n;
    void *p = o->p;
    o->p = NULL;
    switch (op) {
    case O_FREE: h_free(p); break;
    case O_CFREE: h_cfree(p); break;
    case O_FREE_SIZED: h_free_sized(p, o->n); break;
    case O_FREE_ALIGNED: h_free_aligned_sized(p, o->align, o->n); break;
    }
    ops_call(c, op);
}
static void ops_realloc(ops_t *c, op_obj *o, size_t n) {
    op_obj old = *o;
    if (c->pre_m) c->pre_m(o);
    u8 *p = h_realloc(o->p, n);
    if (!p) { if (c->kept_m) c->kept_m(o); c->failed[O_REALLOC]++; ops_call(c, O_REALLOC); return; }
    c->live += n - o->n;
    if (p != o->p) { o->align = 16; o->cls = expect_size(n, 16).cls; }
    o->p = p; o->n = n;
    if (p == old.p && o->cls != EXP_LARGE) o->align = 16;      // the sized releases then want the plain class, which may differ
    if (p == old.p && (old.align > 16)) o->align = 0;          // only released without size
    if (c->realloc_m) c->realloc_m(&old, o);
    ops_call(c, O_REALLOC);
}
static void ops_step(ops_t *c) {
    rng_t *r = &c->r;
    op_obj *o = &c->o[rndn(r, c->nobj)];
    unsigned k = rndn(r, 1000);
    if (k < 640) {
        if (o->p) {
            unsigned op = O_FREE + rndn(r, 4);
            if (!o->align) op = rndn(r, 2) ? O_FREE : O_CFREE;
            ops_release(c, o, op);
        } else {
            size_t n = ops_size(c);
            if (c->live + n > c->cap) return;
            unsigned op = rndn(r, 2) ? O_MALLOC : rndn(r, O_N_ALLOC);
            ops_alloc(c, o, op, n, ops_align(c));
        }
        return;
    }
    if (k < 800) {
        if (!o->p) return;
        size_t n = rndn(r, 3) ? ops_size(c) : o->n + rndn(r, 4000);
        if (c->live + n > c->cap) return;
        ops_realloc(c, o, n);
        return;
    }
    if (k >= 998 && !o->p && !c->no_huge && rndn(r, 4) == 0) {
        // what only happens to very large objects: moving pages, and no quarantine
        ops_alloc(c, o, rndn(r, 2) ? O_MALLOC : O_REALLOC_NULL, huge_size(r), 16);
        for (int i = 0; i < 3 && o->p; i++) switch (rndn(r, 3)) {
        case 0: {
            if (c->pre_m) c->pre_m(o);
            void *q = h_realloc(o->p, rndn(r, 2) ? 1UL << 62 : SIZE_MAX - k);
            if (q) viol("C16", "realloc(huge) succeeded");
            if (c->kept_m) c->kept_m(o);
            ops_call(c, O_REALLOC_HUGE);
            break;
        }
        case 1: ops_realloc(c, o, huge_size(r)); break;
        case 2: ops_realloc(c, o, rndn(r, 2) ? huge_size(r) : rndr(r, 140000, 80UL << 20)); break;
        }
        if (o->p) ops_release(c, o, O_FREE);
        return;
    }
    void *q = NULL;
    unsigned op = O_FREE_NULL + rndn(r, O_N - O_FREE_NULL);
    if ((op == O_TRIM || op == O_INFO) && rndn(r, 3)) op = O_USABLE;
    switch (op) {
    case O_FREE_NULL: h_free(NULL); h_free_sized(NULL, k); h_free_aligned_sized(NULL, 64, k); break;
    case O_USABLE: if (!o->p) return; (void)h_malloc_usable_size(o->p); break;
    case O_OBJECT: if (!o->p) return; (void)h_malloc_object_size(o->p + rndn(r, o->n)); break;
    case O_OBJECT_FAST: if (!o->p) return; (void)h_malloc_object_size_fast(o->p); break;
    case O_TRIM: h_malloc_trim(rndn(r, 2)); break;
    case O_MALLOPT: if (h_mallopt(k % 20 - 10, 1)) viol("C29", "mallopt accepts a parameter"); break;
    case O_MALLINFO: (void)h_mallinfo(); break;
    case O_MALLINFO2: (void)h_mallinfo2(); break;
    case O_INFO: if (!c->info) return; if (h_malloc_info(0, c->info)) viol("C20", "malloc_info failed"); fflush(c->info); break;
    case O_INFO_BAD: if (!c->info) return; if (h_malloc_info(1, c->info) != -1) viol("C20", "malloc_info accepts options"); break;
    case O_STATS: h_malloc_stats(); break;
    case O_GETSTATE: if (h_malloc_get_state()) viol("C18", "malloc_get_state returns a state"); break;
    case O_SETSTATE: (void)h_malloc_set_state(r); break;
    case O_BAD_ALIGN: q = h_aligned_alloc(24, 100); if (q) viol("C01", "alignment 24 accepted"); break;
    case O_BAD_POSIX: if (!h_posix_memalign(&q, 3, 100)) viol("C01", "alignment 3 accepted"); break;
    case O_TOO_LARGE: q = h_malloc(rndn(r, 2) ? ~0UL - k : 1UL << 62); break;
    case O_CALLOC_OVERFLOW: q = h_calloc(1UL << 33, 1UL << 33); break;
    case O_ALIGNED_HUGE: q = h_aligned_alloc(1UL << 40, 1UL << 62); break;
    case O_REALLOC_HUGE: if (!o->p) return; if (c->pre_m) c->pre_m(o); q = h_realloc(o->p, 1UL << 62); if (c->kept_m) c->kept_m(o); break;
    case O_FOREIGN: (void)h_malloc_object_size(&q); (void)h_malloc_object_size_fast((void *)op_name); break;
    }
    if (q) viol("C16", "%s succeeded", op_name[op]);
    ops_call(c, op);
}
static void VF_UNUSED ops_drain(ops_t *c) { for (unsigned i = 0; i < c->nobj; i++) if (c->o[i].p) ops_release(c, &c->o[i], O_FREE); }
#endif
