// C21, C22: usable sizes of every small request and around every large size class by every entry point,
// object sizes at every interior offset, of foreign and stale pointers, and with locks held.
#include "interpose.h"

static rng_t R;
static u64 n_evals, n_offsets, n_null, n_inhook;

static void *alloc_by(unsigned k, size_t n) {
    void *p = NULL;
    switch (k) {
    case 0: return malloc(n);
    case 1: return calloc(1, n);
    case 2: return realloc(NULL, n);
    case 3: return aligned_alloc(16, n);
    case 4: return posix_memalign(&p, 16, n) ? NULL : p;
    case 5: return memalign(8, n);
    case 6: { p = malloc(rndn(&R, 2) ? 24 : 200000); void *q = realloc(p, n); if (!q) free(p); return q; }
    }
    return NULL;
}
static const char *const by_name[] = {"malloc", "calloc", "realloc(NULL)", "aligned_alloc(16)", "posix_memalign(16)", "memalign(8)", "realloc"};

static void check_one(unsigned k, size_t n) {
    struct exp e = expect_size(n, 16);
    errno = 0;
    void *p = alloc_by(k, n);
    if (!p) {
        n_null++;
        if (e.usable && e.usable < 1UL << 30) viol("C22", "%s(%lu) failed with errno %d", by_name[k], n, errno);
        return;
    }
    // growing or shrinking a large allocation in place keeps to the same classes, but realloc may
    // also stay in the old region (not covered here: the old sizes are far away)
    size_t u = malloc_usable_size(p);
    n_evals++;
    if (u != e.usable) {
        viol("C22", "%s(%lu) has usable size %lu, the smallest size class that fits has %lu", by_name[k], n, u, e.usable);
        if (u < n) viol("C21", "%s(%lu) has usable size %lu", by_name[k], n, u);
    }
    size_t o = malloc_object_size(p), f = malloc_object_size_fast(p);
    if (o != u) viol("C21", "object size %lu at the start of an allocation of usable size %lu (requested %lu)", o, u, n);
    if (f < u) viol("C21", "fast object size %lu at the start of an allocation of usable size %lu", f, u);
    if (u) {   // fully accessible
        if (probe_read((u8 *)p + u - 1) < 0 || !probe_write((u8 *)p + u - 1)) viol("C21", "last usable byte of %s(%lu) is not accessible", by_name[k], n);
        if (malloc_usable_size(p) != u) viol("C21", "usable size changed");
    }
    vcov("class", e.cls == EXP_LARGE ? 20 + k : k, 1UL << (e.cls == EXP_LARGE ? 63 - __builtin_clzl(e.usable ? e.usable : 1) : e.cls));
    free(p);
}

static u64 covm[64];
static void sweep(unsigned threads) {
    size_t top = MAXSMALL + 3 * PGSZ;
    for (unsigned k = 0; k <= 6; k++) {
        vf_section_set("%s", by_name[k]);
        // every request for malloc, and every one near a boundary or sampled for the others
        size_t prev = 0;
        for (size_t n = 0; n <= top; n++) {
            if (k == 0 || n < 2100) {
                struct exp e = expect_size(n, 16);
                void *p = alloc_by(k, n);
                if (!p) { viol("C22", "%s(%lu) failed", by_name[k], n); continue; }
                size_t u = malloc_usable_size(p);
                n_evals++;
                if (u != e.usable) viol("C22", "%s(%lu) has usable size %lu, the smallest size class that fits has %lu", by_name[k], n, u, e.usable);
                if (u < n) viol("C21", "%s(%lu) has usable size %lu", by_name[k], n, u);
                if (u < prev) viol("C22", "usable size of %lu is %lu, smaller than that of %lu", n, u, n - 1);
                if (n + CANARY > 128 && CF_LARGE && u + (e.cls == EXP_LARGE ? 0 : CANARY) > n + CANARY + (n + CANARY) / 4) viol("C22", "request %lu gets %lu: more than a fifth is wasted", n, u);
                prev = u;
                covm[k] |= 1UL << (e.cls == EXP_LARGE ? 63 : e.cls);
                free(p);
            } else check_one(k, rndr(&R, 0, top));
            if (k && n > 2100 && n < top - 8000) n += rndr(&R, 0, 60);
        }
        for (unsigned c = 1; c <= N_DOC; c++)
            for (long d = -9; d <= 9; d++) if ((long)class_size(c) + d - (long)CANARY >= 0) { check_one(k, class_size(c) + d - CANARY); check_one(k, class_size(c) + d); }
        for (unsigned sh = 12; sh < 36; sh++)
            for (unsigned q = 0; q < 4; q++) {
                size_t b = (1UL << sh) + q * (1UL << (sh - 2));
                static const long ds[] = {-4097, -4096, -17, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9, 16, 17, 4096, 4097};
                for (unsigned i = 0; i < sizeof ds / sizeof *ds; i++) if ((long)b + ds[i] > 0 && (k != 1 || sh < 28)) check_one(k, b + ds[i]);
            }
        for (unsigned i = 0; i < 3000; i++) check_one(k, rnd(&R) >> rndr(&R, 34, 60));
        vcov("swept", k, covm[k]);
    }
    (void)threads;
    // impossible sizes
    static const size_t huge[] = {-1UL, -2UL, -8UL, -9UL, -15UL, -16UL, -17UL, -4095UL, -4096UL, -4097UL, -8192UL, 1UL << 63, (1UL << 63) + 1, (1UL << 63) - 1, 1UL << 62, 1UL << 50, 1UL << 48};
    for (unsigned k = 0; k <= 6; k++)
        for (unsigned i = 0; i < sizeof huge / sizeof *huge; i++) {
            errno = 0;
            void *p = alloc_by(k, huge[i]);
            n_evals++;
            if (p) viol("C22", "%s(%lx) succeeded", by_name[k], huge[i]);
            else if (errno != ENOMEM) viol("C22", "%s(%lx) failed with errno %d", by_name[k], huge[i], errno);
        }
}

static void aligned(void) {
    vf_section_set("aligned");
    for (unsigned sh = 3; sh <= 24; sh++) {
        size_t al = 1UL << sh;
        for (unsigned i = 0; i < 2500; i++) {
            size_t n = i < 49 ? (i ? class_size(i <= N_DOC ? i : 1) - CANARY : 0) : i < 98 ? (i - 48 <= N_DOC ? class_size(i - 48) - CANARY + 1 : 1) : rnd(&R) >> rndr(&R, 40, 62);
            void *p = NULL;
            unsigned k = rndn(&R, 3);
            int r = 0;
            if (k == 0) p = aligned_alloc(al, n);
            else if (k == 1) p = memalign(al, n);
            else r = posix_memalign(&p, al, n);
            if (r || !p) {
                if (n < 1UL << 26) viol("C22", "allocation of %lu bytes aligned to %lu failed", n, al);
                n_null++;
                continue;
            }
            struct exp e = expect_size(n, al);
            size_t u = malloc_usable_size(p);
            n_evals++;
            if ((uintptr_t)p & (al - 1)) viol("C01", "allocation aligned to %lu at %p", al, p);
            if (u < n) viol("C21", "allocation of %lu bytes aligned to %lu has usable size %lu", n, al, u);
            if (u != e.usable) viol("C22", "allocation of %lu bytes aligned to %lu has usable size %lu instead of %lu", n, al, u, e.usable);
            size_t o = malloc_object_size(p);
            if (o != u) viol("C21", "object size %lu at the start of an allocation aligned to %lu of usable size %lu", o, al, u);
            vcov("align", sh, 1UL << (e.cls == EXP_LARGE ? 63 : e.cls));
            free(p);
        }
    }
}

static void offsets(void) {
    vf_section_set("interior offsets");
    for (unsigned c = 1; c <= N_DOC; c++) {
        size_t u = class_size(c) - CANARY;
        u8 *ps[12];
        for (unsigned k = 0; k < 12; k++) ps[k] = malloc(u);
        for (unsigned k = 0; k < 12; k++) {
            u8 *p = ps[k];
            size_t step = u > 4096 && k ? 97 : 1;
            for (size_t o = 0; o < u; o += step) {
                size_t g = malloc_object_size(p + o), f = malloc_object_size_fast(p + o);
                n_offsets++;
                if (g != u - o) { viol("C21", "object size %lu at offset %lu of an allocation with usable size %lu", g, o, u); break; }
                if (f < u - o) { viol("C21", "fast object size %lu at offset %lu of an allocation with usable size %lu", f, o, u); break; }
            }
        }
        vcov("offset", 0, 1UL << c);
        for (unsigned k = 0; k < 12; k++) free(ps[k]);
    }
    for (unsigned k = 0; k < 40; k++) {
        u8 *z = malloc(0);
        if (malloc_usable_size(z) != 0 || malloc_object_size(z) != 0) viol("C21", "zero-size allocation: usable size %lu, object size %lu", malloc_usable_size(z), malloc_object_size(z));
        (void)malloc_object_size_fast(z);
        free(z);
    }
    for (unsigned k = 0; k < 300; k++) {
        size_t n = rndr(&R, MAXSMALL + 1, 3 << 20);
        u8 *p = k % 4 ? malloc(n) : aligned_alloc(1UL << rndr(&R, 13, 21), n);
        size_t u = malloc_usable_size(p);
        if (malloc_object_size(p) != u) viol("C21", "object size %lu at the start of a large allocation of usable size %lu", malloc_object_size(p), u);
        for (unsigned i = 0; i < 200; i++) {
            size_t o = i < 10 ? i * PGSZ : rndn(&R, u);
            size_t g = malloc_object_size(p + o), f = malloc_object_size_fast(p + o);
            n_offsets++;
            if (g < u - o) viol("C21", "object size %lu at offset %lu of a large allocation with usable size %lu", g, o, u);
            if (f < u - o) viol("C21", "fast object size %lu at offset %lu of a large allocation with usable size %lu", f, o, u);
        }
        // memory next to it, and stale
        if (malloc_object_size(p - 1) != SIZE_MAX || malloc_object_size(p - PGSZ) != SIZE_MAX) viol("C21", "object size of the guard of a large allocation");
        free(p);
        if (malloc_object_size(p) != SIZE_MAX && malloc_object_size(p) < 1) viol("C21", "object size of freed memory");
        (void)malloc_object_size_fast(p);
    }
    if (malloc_usable_size(NULL) || malloc_object_size(NULL) || malloc_object_size_fast(NULL)) viol("C21", "size of NULL is not 0");
}

static int glob[16];
static void foreign(void) {
    vf_section_set("foreign");
    int loc[4];
    u8 *m = vf_map(1 << 20);
    const void *ps[] = {glob, loc, m, m + 5, m + 4096, (void *)foreign, "string", (void *)1, (void *)16, (void *)4096, (void *)-1L, (void *)-16L, (void *)0x7fffffffffffL, (void *)0x800000000000L, (void *)0xffff800000000000L, environ};
    for (unsigned i = 0; i < sizeof ps / sizeof *ps; i++) {
        n_evals += 2;
        if (malloc_object_size(ps[i]) != SIZE_MAX) viol("C21", "object size %lu for memory not of the allocator (%p)", malloc_object_size(ps[i]), ps[i]);
        if (malloc_object_size_fast(ps[i]) != SIZE_MAX) viol("C21", "fast object size %lu for memory not of the allocator (%p)", malloc_object_size_fast(ps[i]), ps[i]);
    }
    for (unsigned i = 0; i < 20000; i++) {
        void *p = (void *)(rnd(&R) >> rndn(&R, 40));
        (void)malloc_object_size_fast(p);   // never fails, whatever the pointer
        n_evals++;
    }
    // stale pointers and pointers anywhere in the reservation
    uintptr_t lo = 0, hi = 0;
    for (unsigned i = 0; i < n_first_maps; i++) if (first_maps[i].n > hi - lo) { lo = first_maps[i].a; hi = lo + first_maps[i].n; }
    for (unsigned i = 0; i < 200000 && hi; i++) { (void)malloc_object_size_fast((void *)rndr(&R, lo, hi - 1)); n_evals++; }
    for (unsigned i = 0; i < 5000; i++) {
        u8 *p = malloc(rnd(&R) >> rndr(&R, 46, 62));
        size_t u = malloc_usable_size(p);
        free(p);
        size_t f = malloc_object_size_fast(p);
        if (f < u) viol("C21", "fast object size %lu of freed memory, less than the %lu it had", f, u);
        n_evals++;
    }
}

// the fast query takes no lock: called in the middle of operations that hold locks
static void *volatile live[64];
static volatile size_t live_u[64];
static volatile bool in_hook;
static void hook(VF_UNUSED int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n, VF_UNUSED int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if (in_hook) return;
    in_hook = true;
    for (unsigned i = 0; i < 64; i++) {
        size_t f = malloc_object_size_fast(live[i]);
        if (f < live_u[i]) viol("C21", "fast object size %lu during another operation, usable size %lu", f, live_u[i]);
        n_inhook++;
    }
    in_hook = false;
}
static void on_alarm(VF_UNUSED int s) {
    viol("C21", "%s", in_hook ? "malloc_object_size_fast waits for a lock" : "a size query or allocation hangs");
    syscall(SYS_exit_group, 1);
}
static void locked(void) {
    vf_section_set("locks held");
    for (unsigned i = 0; i < 64; i++) { live[i] = malloc(i < N_DOC ? class_size(i + 1) - CANARY : 200000); live_u[i] = malloc_usable_size(live[i]); }
    signal(SIGALRM, on_alarm);
    alarm(60);
    event_hook = hook;
    void *q[400];
    for (unsigned r = 0; r < 30; r++) {
        for (unsigned i = 0; i < 400; i++) q[i] = malloc(i % 4 ? class_size(rndr(&R, 1, N_DOC)) - CANARY : rndr(&R, 150000, 1 << 20));
        for (unsigned i = 0; i < 400; i++) if (i % 3 == 0) q[i] = realloc(q[i], rndr(&R, 150000, 1 << 20));
        for (unsigned i = 0; i < 400; i++) free(q[i]);
        if (r % 8 == 0) malloc_trim(0);
    }
    event_hook = NULL;
    alarm(0);
    for (unsigned i = 0; i < 64; i++) free(live[i]);
}

// sizes stay the same while other threads work
static atomic_int stop;
static void *churn(void *a) {
    rng_t r = {(u64)a};
    void *q[200] = {0};
    while (!stop) { unsigned i = rndn(&r, 200); free(q[i]); q[i] = malloc(rnd(&r) >> rndr(&r, 44, 62)); }
    for (unsigned i = 0; i < 200; i++) free(q[i]);
    return NULL;
}
static void threaded(void) {
    vf_section_set("threads");
    pthread_t t[6];
    for (long i = 0; i < 6; i++) if (pthread_create(&t[i], NULL, churn, (void *)(i + 77 * R.s))) vf_die("no thread");
    struct { u8 *p; size_t u; } o[300];
    for (unsigned i = 0; i < 300; i++) { o[i].p = malloc(rnd(&R) >> rndr(&R, 44, 62)); o[i].u = malloc_usable_size(o[i].p); }
    for (unsigned i = 0; i < 200000; i++) {
        unsigned k = rndn(&R, 300);
        size_t off = rndn(&R, o[k].u), g;
        n_evals += 3;
        if (i % 4 == 0 && malloc_usable_size(o[k].p) != o[k].u) viol("C21", "usable size changed from %lu to %lu", o[k].u, malloc_usable_size(o[k].p));
        if ((g = malloc_object_size(o[k].p + off)) < o[k].u - off) viol("C21", "object size %lu at offset %lu, usable size %lu", g, off, o[k].u);
        if ((g = malloc_object_size_fast(o[k].p + off)) < o[k].u - off) viol("C21", "fast object size %lu at offset %lu, usable size %lu", g, off, o[k].u);
    }
    stop = 1;
    for (unsigned i = 0; i < 6; i++) pthread_join(t[i], NULL);
    for (unsigned i = 0; i < 300; i++) free(o[i].p);
}

int main(VF_UNUSED int argc, char **argv) {
    vf_without_pool(argv);
    vf_install_segv();
    R.s = env_u64("VF_SEED", 1) * 6151;
    sweep(0); aligned(); offsets(); foreign(); locked(); threaded();
    vstat("evals", n_evals); vstat("interior_offsets", n_offsets); vstat("failed_allocations", n_null); vstat("queries_with_locks_held", n_inhook);
    vsample("%lu interior offsets, %lu queries inside other operations", n_offsets, n_inhook);
    vf_finish();
}
