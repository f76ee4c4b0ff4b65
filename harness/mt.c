// C15: every entry point called by many threads at once, from their very first calls on. Built together
// with the allocator's sources under ThreadSanitizer (H_MALLOC_PREFIX), or against the shared library.
// Objects carry patterns, are handed over between threads and freed, resized and measured by any of them.
#ifdef H_MALLOC_PREFIX
#include "vf.h"
#else
#include "interpose.h"
// delays inside kernel calls, most of which are made with locks held
static void delay_hook(int kind, uintptr_t a, VF_UNUSED size_t n, VF_UNUSED int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    static __thread rng_t r;
    if (!r.s) r.s = a ^ (uintptr_t)&r;
    u64 x = rndn(&r, 64);
    (void)kind;
    if (x < 8) sched_yield();
    else if (x == 8) { struct timespec t = {0, 50000}; nanosleep(&t, NULL); }
}
#endif

#ifdef H_MALLOC_PREFIX
struct mallinfo2 h_mallinfo2(void);
#endif
enum { MAXT = 64, OBJ = 96, NX = 256 };
typedef struct { u8 *p; size_t n; u64 pat; u32 align; } obj_t;
static struct thr { rng_t r; obj_t o[OBJ]; u64 ops; u64 kinds; unsigned id; } *W;
static struct { spin_t l; obj_t o; } *X;
static unsigned T;
static u64 OPS;
static atomic_int at_start, go;
static atomic_ulong handed;
static bool one_class, large_only;

static inline u8 pat(u64 s, size_t i) { return (u8)(s + i * 167) | 1; }
static void fill(obj_t *o, u64 s) {
    o->pat = s;
    if (o->n <= 300) { for (size_t i = 0; i < o->n; i++) o->p[i] = pat(s, i); return; }
    for (size_t i = 0; i < 100; i++) { o->p[i] = pat(s, i); o->p[o->n - 1 - i] = pat(s, o->n - 1 - i); }
}
static void check(const obj_t *o, size_t n, const char *when) {
    size_t i;
    if (n > o->n) n = o->n;
    for (i = 0; i < n && i < (o->n <= 300 ? 300 : 100); i++) if (o->p[i] != pat(o->pat, i)) goto bad;
    if (o->n > 300) for (i = 0; i < 100; i++) if (o->n - 1 - i < n && o->p[o->n - 1 - i] != pat(o->pat, o->n - 1 - i)) goto bad;
    return;
bad:
    viol("C15", "%s: contents of an object of %zu bytes changed at %zu", when, o->n, i);
    viol("C01", "%s: contents of an object of %zu bytes changed at %zu", when, o->n, i);
}
static size_t pick(rng_t *r) {
    if (one_class) return rndr(r, 1, 1000);
    if (large_only) return rndr(r, MAXSMALL + 1, 900000);
    unsigned k = rndn(r, 100);
    if (k < 3) return 0;
    if (k < 60) { unsigned c = rndr(r, 1, N_DOC); return class_size(c) - CANARY - rndn(r, 8); }
    if (k < 92) return rndn(r, 3000);
    return rndr(r, MAXSMALL - 100, 1200000);
}
static void fresh(struct thr *t, obj_t *o, bool zeroed) {
    if (!o->p) { viol("C15", "allocation of %zu bytes failed", o->n); return; }
    if ((uintptr_t)o->p & 15 || (o->align && (uintptr_t)o->p & (o->align - 1))) viol("C15", "misaligned %p", o->p);
    if (zeroed) for (size_t i = 0; i < o->n; i += i < 200 ? 1 : 97) if (o->p[i]) { viol("C15", "fresh memory of %zu bytes is not zero", o->n); break; }
    fill(o, rnd(&t->r));
}
static void alloc(struct thr *t, obj_t *o) {
    unsigned k = rndn(&t->r, 10);
    o->n = pick(&t->r);
    o->align = 0;
    t->kinds |= 1UL << k;
    switch (k) {
    case 0: case 1: case 2: case 3: o->p = h_malloc(o->n); break;
    case 4: o->p = h_calloc(1, o->n); break;
    case 5: o->p = h_realloc(NULL, o->n); break;
    case 6: case 7: o->align = 16 << rndn(&t->r, 10); if (!o->n) o->n = 1; o->p = h_aligned_alloc(o->align, o->n); break;
    case 8: { void *p = NULL; o->align = 8 << rndn(&t->r, 13); if (!o->n) o->n = 1; if (h_posix_memalign(&p, o->align, o->n)) p = NULL; o->p = p; break; }
    case 9: o->align = PGSZ; if (!o->n) o->n = 1; o->p = rndn(&t->r, 2) ? h_valloc(o->n) : h_memalign(PGSZ, o->n); break;
    }
    fresh(t, o, CF_ZERO || k == 4);
}
static void release(struct thr *t, obj_t *o) {
    unsigned k = rndn(&t->r, 4);
    check(o, ~0UL, "before free");
    t->kinds |= 1UL << (16 + k);
    if (k == 0) h_cfree(o->p);
    else if (k == 1 && o->align <= 16) h_free_sized(o->p, o->n);
    else if (k == 2 && o->align > 16) h_free_aligned_sized(o->p, o->align, o->n);
    else h_free(o->p);
    o->p = NULL;
}
static void query(struct thr *t, obj_t *o) {
    size_t u = h_malloc_usable_size(o->p);
    if (u < o->n) viol("C15", "usable size %zu of an object of %zu bytes", u, o->n);
    size_t off = u ? rndn(&t->r, u) : 0;
    if (u && h_malloc_object_size(o->p + off) < u - off) viol("C15", "object size below the rest of the object");
    if (h_malloc_object_size_fast(o->p + off) < u - off) viol("C15", "fast object size below the rest of the object");
}
static void stats(struct thr *t) {
    static __thread char *buf; static __thread size_t cap;
    unsigned k = rndn(&t->r, 5);
    t->kinds |= 1UL << (24 + k);
    if (k == 0) h_malloc_trim(0);
    else if (k == 1) {
        struct mallinfo2 m = h_mallinfo2();
        if (m.uordblks > m.hblkhd && 0) viol("C20", "more allocated than mapped");
    } else if (k == 2) {
        FILE *f = fopen("/dev/null", "w");
        if (f) { h_malloc_info(0, f); fclose(f); }
    } else if (k == 3) { (void)h_mallinfo(); h_malloc_stats(); (void)h_mallopt(1, 1); }
    else (void)h_malloc_object_size(&k);
    (void)buf; (void)cap;
}

static void first_call(struct thr *t) {
    obj_t *o = &t->o[0];
    o->n = 40; o->align = 0;
    switch (t->id % 12) {
    case 0: o->p = h_malloc(40); break;
    case 1: o->p = h_calloc(4, 10); break;
    case 2: o->p = h_realloc(NULL, 40); break;
    case 3: o->n = 64; o->align = 64; o->p = h_aligned_alloc(64, 64); break;
    case 4: { void *p = NULL; if (h_posix_memalign(&p, 32, 40)) p = NULL; o->p = p; o->align = 32; break; }
    case 5: o->p = h_memalign(16, 40); break;
    case 6: o->align = PGSZ; o->p = h_valloc(40); break;
    case 7: h_free(NULL); o->p = h_malloc(40); break;
    case 8: (void)h_malloc_trim(0); o->p = h_malloc(40); break;
    case 9: if (h_malloc_object_size(&o) != SIZE_MAX || h_malloc_usable_size(NULL)) viol("C15", "wrong size as first call"); o->p = h_malloc(40); break;
    case 10: (void)h_mallinfo2(); o->p = h_malloc(40); break;
    case 11: o->n = 300000; o->p = h_malloc(300000); break;
    }
    if (!o->p) viol("C15", "first call of thread %u failed", t->id);
    else fresh(t, o, CF_ZERO);
}

static void *worker(void *a) {
    struct thr *t = a;
    atomic_fetch_add(&at_start, 1);
    while (!atomic_load(&go)) {}
    first_call(t);
    for (u64 i = 0; i < OPS; i++) {
        unsigned k = rndn(&t->r, 100);
        obj_t *o = &t->o[rndn(&t->r, OBJ)];
        t->ops++;
        if (k < 60) {
            if (o->p) release(t, o); else alloc(t, o);
        } else if (k < 72) {
            if (!o->p) { alloc(t, o); continue; }
            size_t n = pick(&t->r), old = o->n;
            check(o, ~0UL, "before realloc");
            u8 *p = h_realloc(o->p, n);
            if (!p) { viol("C15", "realloc failed"); continue; }
            o->p = p; o->align = 0;
            obj_t q = *o;
            q.n = old;
            // what both sizes have
            size_t keep = n < old ? n : old;
            for (size_t j = 0; j < keep && j < 100; j++) if (p[j] != pat(q.pat, j)) { viol("C15", "realloc lost the contents"); break; }
            o->n = n;
            fill(o, rnd(&t->r));
        } else if (k < 88) {
            unsigned x = rndn(&t->r, NX);
            spin_lock(&X[x].l);
            obj_t tmp = X[x].o; X[x].o = *o; *o = tmp;
            spin_unlock(&X[x].l);
            if (o->p) { check(o, ~0UL, "handed over"); atomic_fetch_add_explicit(&handed, 1, memory_order_relaxed); if (k < 80) release(t, o); }
        } else if (k < 97) {
            if (o->p) { query(t, o); check(o, ~0UL, "live"); }
        } else if (rndn(&t->r, 6) == 0) stats(t);
        if (vf_nviol > 10) break;
    }
    return NULL;
}

int main(void) {
    vf_install_segv();
    T = env_u64("VF_THREADS", 8);
    if (T > MAXT) T = MAXT;
    OPS = env_u64("VF_OPS", 10000);
    const char *m = getenv("VF_MODE");
    one_class = m && !strcmp(m, "small");
    large_only = m && !strcmp(m, "large");
#ifndef H_MALLOC_PREFIX
    vma_model_on = env_u64("VF_OWN", 0);
    if (env_u64("VF_DELAY", 1)) event_hook = delay_hook;
#endif
    W = vf_map(sizeof *W * MAXT);
    X = vf_map(sizeof *X * NX);
    pthread_t th[MAXT];
    u64 seed = env_u64("VF_SEED", 1), rounds = env_u64("VF_ROUNDS", 1);
    for (u64 round = 0; round < rounds; round++) {
        go = 0; at_start = 0;
        for (unsigned i = 0; i < T; i++) {
            W[i].id = i + seed; W[i].r.s = seed * 1000003 + i * 7919 + round * 17;
            if (round) W[i].o[0].p ? release(&W[i], &W[i].o[0]) : (void)0;
            if (pthread_create(&th[i], NULL, worker, &W[i])) vf_die("pthread_create");
        }
        while (atomic_load(&at_start) < (int)T) sched_yield();
        atomic_store(&go, 1);
        for (unsigned i = 0; i < T; i++) pthread_join(th[i], NULL);
    }
    u64 ops = 0, kinds = 0;
    for (unsigned i = 0; i < T; i++) {
        for (unsigned j = 0; j < OBJ; j++) if (W[i].o[j].p) release(&W[0], &W[i].o[j]);
        ops += W[i].ops; kinds |= W[i].kinds;
    }
    for (unsigned i = 0; i < NX; i++) if (X[i].o.p) release(&W[0], &X[i].o);
    h_malloc_trim(0);
    vstat("evals", ops); vstat("objects_handed_over", handed); vstat("threads", T * rounds);
    vcov("kinds", 0, kinds);
    vsample("%u threads, %lu operations, %lu objects handed over, seed %lu", T, ops, (u64)handed, seed);
    vf_finish();
}
