// C25: random histories under AddressSanitizer and MemorySanitizer. The allocator is instrumented; all
// memory it has handed out is marked as not accessible (AddressSanitizer) or as undefined
// (MemorySanitizer) to it, except for the object of a call during this call.
// The harness itself is not instrumented for AddressSanitizer.
#include "ops.h"
#ifdef VF_ASAN
extern void __asan_poison_memory_region(void const volatile *, size_t);
extern void __asan_unpoison_memory_region(void const volatile *, size_t);
#define TAKE(p, n) __asan_poison_memory_region(p, n)
#define GIVE(p, n) __asan_unpoison_memory_region(p, n)
#elif defined(VF_MSAN)
extern void __msan_poison(const volatile void *, size_t);
extern void __msan_unpoison(const volatile void *, size_t);
#define TAKE(p, n) __msan_poison(p, n)
#define GIVE(p, n) ((void)0)                   // contents stay undefined: nothing may depend on them
#else
#define TAKE(p, n) ((void)0)
#define GIVE(p, n) ((void)0)
#endif
static u64 marks_of(op_obj const *o) { return (u64)o->p * 0x9e3779b97f4a7c15UL + o->n; }
static _Atomic u64 n_poisoned, n_ops, n_bytes, n_kept, opcov[O_N][2];
static void fill(u8 *p, size_t n, u64 s) {     // not memset: it would be intercepted
    for (size_t i = 0; i < n; i += i < 256 ? 1 : 97) ((volatile u8 *)p)[i] = (u8)(s + i * 31) | 1;
}
static void m_alloc(op_obj *o) {
    fill(o->p, o->n, marks_of(o));
    TAKE(o->p, o->n);
    n_poisoned++;
    n_bytes += o->n;
}
static void m_pre(const op_obj *o) { GIVE(o->p, o->n); }
static void m_kept(const op_obj *o) { TAKE(o->p, o->n); n_kept++; }
static void m_realloc(VF_UNUSED const op_obj *old, op_obj *now) { m_alloc(now); }
static __thread ops_t C;
static void m_call(unsigned op) { n_ops++; u64 m = 1UL << (C.count[op] & 1); if (!(opcov[op][0] & m)) opcov[op][0] |= m; }
static u64 OPS;
static void history(u64 seed) {
    ops_t *c = &C;
    ops_init(c, seed, 700, 200UL << 20);
    c->no_huge = true;
#ifndef VF_MSAN
    c->info = fopen("/dev/null", "w");
    static __thread char buf[1 << 16];
    if (c->info) setvbuf(c->info, buf, _IOFBF, sizeof buf);
#endif
    c->alloc_m = m_alloc; c->pre_m = m_pre; c->kept_m = m_kept; c->realloc_m = m_realloc; c->free_m = m_pre; c->call_m = m_call;
    for (u64 i = 0; i < OPS; i++) {
        if (i % 20000 == 0) c->large_pct = rndn(&c->r, 3) * 6;
        ops_step(c);
    }
    ops_drain(c);
}
static void *thr(void *a) { history((u64)a); return NULL; }
int main(void) {
    rng_t R = {env_u64("VF_SEED", 1) * 2971215073};
    OPS = env_u64("VF_OPS", 100000);
    unsigned T = env_u64("VF_THREADS", 1);
    if (T <= 1) history(rnd(&R));
    else {
        pthread_t t[64];
        for (unsigned i = 0; i < T; i++) if (pthread_create(&t[i], NULL, thr, (void *)rnd(&R))) vf_die("no thread");
        for (unsigned i = 0; i < T; i++) pthread_join(t[i], NULL);
    }
    for (int i = 0; i < O_N; i++) if (opcov[i][0]) vcov("op", i, opcov[i][0]);
    vstat("evals", n_ops);
    vstat("objects_closed", n_poisoned); vstat("bytes_closed", n_bytes); vstat("failed_reallocs", n_kept);
    vsample("%lu calls, %lu objects closed to the allocator", (u64)n_ops, (u64)n_poisoned);
    vf_finish();
}
