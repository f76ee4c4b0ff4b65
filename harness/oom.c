// Failures of kernel calls (VF_MODE):
//  c16    ENOMEM at chosen calls while a heap is used: single faults, random and persistent ones
//  limits real exhaustion: impossible sizes, data limit, address space limit, mapping count, full
//         size class regions and region table
//  c17    other errors and the fatal error report
#include "interpose.h"

typedef struct { u8 *p; size_t req, usable; u32 cls, align; u64 id; } obj_t;
#define MAXOBJ 1500
static obj_t live[MAXOBJ];
static size_t n_live;
static rng_t R;
static u64 n_ops, n_null, n_faulted_ops, n_ok_with_fault, n_death, n_sentinel;
static u64 covbits[256];
static void cov(unsigned k) { covbits[(k >> 6) & 255] |= 1UL << (k & 63); }

// ---- fault plans ----
enum { PL_NONE, PL_NTH, PL_ALL, PL_AFTER, PL_MASK, PL_KIND, PL_STATE };
static volatile int plan = PL_NONE;
static volatile int plan_errno = ENOMEM;
static u64 plan_n, plan_seq, plan_mask;
static int plan_kind;
static bool memory_call(int kind) { return kind <= C_MADVISE; }
static volatile u64 calls_after_fault, calls_in_op, hits;
static volatile bool armed;
static volatile unsigned hit_kinds;
static int hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) {
    if (!memory_call(kind)) return 0;
    if (plan == PL_NONE) return 0;
    u64 s = plan_seq++;
    bool f = false;
    switch (plan) {
    case PL_NTH: f = s == plan_n; break;
    case PL_ALL: f = true; break;
    case PL_AFTER: f = s >= plan_n; break;
    case PL_MASK: f = plan_mask >> (s & 63) & 1; break;
    case PL_KIND: f = kind == plan_kind; break;
    case PL_STATE: f = false; for (unsigned i = 0; i < n_first_maps && !f; i++) f = kind == C_MPROTECT && a - first_maps[i].a < first_maps[i].n; break;
    }
    if (f) { hits++; hit_kinds |= 1u << kind; cov(4096 + kind * 8 + plan); }
    return f ? plan_errno : 0;
}
static void set_plan(void) {
    plan_seq = 0; hits = 0; hit_kinds = 0;
    switch (rndn(&R, 8)) {
    case 0: case 1: case 2: plan_n = rndn(&R, 6); plan = PL_NTH; break;
    case 3: plan = PL_ALL; break;
    case 4: plan_n = rndn(&R, 4); plan = PL_AFTER; break;
    case 5: plan_mask = rnd(&R) & rnd(&R); plan = PL_MASK; break;
    case 6: plan_mask = rnd(&R) | rnd(&R); plan = PL_MASK; break;
    case 7: plan_kind = rndn(&R, C_MADVISE + 1); plan = PL_KIND; break;
    }
}

// ---- objects ----
static inline u64 pat(u64 id, size_t o) { return id * 0x9e3779b97f4a7c15UL ^ (o + 1) * 0xd6e8feb86659fd93UL ^ 1; }
// positions that carry the pattern: the first and last words and one per page
static size_t next_pos(size_t o, size_t n) {
    if (o < 64 && o + 16 <= n) return o + 8;
    size_t last = (n & ~7UL) - 8, x = (o & -PGSZ) + PGSZ;
    if (o >= last) return ~0UL;
    return x < last ? x : last;
}
static void fill(obj_t *o) {
    static u64 id;
    o->id = ++id;
    if (o->usable < 8) return;
    for (size_t i = 0; i != ~0UL; i = next_pos(i, o->usable)) { u64 v = pat(o->id, i); memcpy(o->p + i, &v, 8); }
}
static bool check_at(const obj_t *o, u8 *p, size_t limit, const char *when) {
    if (o->usable < 8) return true;
    for (size_t i = 0; i != ~0UL; i = next_pos(i, o->usable)) {
        if (i + 8 > limit) continue;
        u64 v = pat(o->id, i), w;
        memcpy(&w, p + i, 8);
        if (v != w) { viol("C16", "%s: allocation of %zu bytes (usable %zu) at %p changed at offset %zu", when, o->req, o->usable, p, i); return false; }
    }
    return true;
}
static void check_overlap(const obj_t *n) {
    for (size_t i = 0; i < n_live; i++) {
        const obj_t *o = &live[i];
        if (o == n) continue;
        size_t a = o->usable ? o->usable : 16, b = n->usable ? n->usable : 16;
        if (n->p < o->p + a && o->p < n->p + b) viol("C16", "allocation of %zu bytes at %p overlaps the live one of %zu bytes at %p", n->req, n->p, o->req, o->p);
    }
}

// released memory: no longer readable, or zero, unless purging it was refused too
static u64 n_gone, n_gone_faults;
static void gone(const obj_t *o, size_t from, const char *what) {
    if (hit_kinds >> C_MADVISE & 1 || o->usable < 8 || (!CF_ZERO && o->cls != EXP_LARGE)) return;
    n_gone++; n_gone_faults += hits != 0;
    for (size_t i = 0; i != ~0UL; i = next_pos(i, o->usable)) {
        if (i < from) continue;
        size_t n = probe_nonzero(o->p + i, 8, NULL);
        if (n < 8) { viol("C04", "%s: byte at offset %zu of an allocation of %zu bytes (usable %zu) is still readable%s", what, i + n, o->req, o->usable, hits ? " after a refused kernel call" : ""); return; }
    }
}

static const u32 aligns[] = {16, 64, 1024, 4096, 8192, 16384, 65536, 1 << 20, 1 << 22};
static size_t pick_size(void) {
    u64 x = rndn(&R, 100);
    if (x < 4) return 0;
    if (x < 45) { size_t c = class_size(1 + rndn(&R, N_DOC)); return c - CANARY - rndn(&R, 8); }
    if (x < 55) return rndn(&R, 300);
    if (x < 85) return 131073 + rndn(&R, 900000);
    if (x < 97) return rndn(&R, 4000000);
    return (30UL << 20) + rndn(&R, 30UL << 20);
}

static void filled(obj_t o, const char *what) {
    if ((uintptr_t)o.p & 15 || (o.align && (uintptr_t)o.p & (o.align - 1))) viol("C16", "%s returned the misaligned %p", what, o.p);
    size_t u = h_malloc_usable_size(o.p);
    if (u < o.req) viol("C16", "%s: usable size %zu below %zu", what, u, o.req);
    o.usable = u;
    check_overlap(&o);
    if (u) {
        if (!probe_write(o.p) || !probe_write(o.p + u - 1)) { viol("C16", "%s of %zu bytes returned inaccessible memory at %p", what, o.req, o.p); return; }
        if (CF_ZERO || o.cls == EXP_LARGE) for (size_t i = 0; i < u; i += i < 64 ? 1 : 509) if (o.p[i]) { viol("C16", "%s of %zu bytes returned memory that is not zero at offset %zu", what, o.req, i); break; }
    }
    fill(&o);
    live[n_live++] = o;
}

static const char *const opname[] = {"malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc", "free", "free_sized", "trim", "usable_size"};
static int do_op(unsigned op, obj_t *o, size_t s, u32 al, bool faults) {
    // returns 1 when it allocated, 0 when it failed properly or has nothing to return
    u8 *p = NULL;
    errno = 7777;
    switch (op) {
    case 0: p = h_malloc(s); break;
    case 1: p = h_calloc(1, s); break;
    case 3: p = h_aligned_alloc(al, s); break;
    case 4: {
        void *q = (void *)0x1110;
        int r = h_posix_memalign(&q, al < 8 ? 8 : al, s);
        if (r) {
            if (r != ENOMEM) viol("C16", "posix_memalign returned %d", r);
            if (q != (void *)0x1110) viol("C16", "failed posix_memalign changed the pointer");
            errno = ENOMEM;
        } else p = q;
        break;
    }
    case 5: p = h_memalign(al, s); break;
    case 6: p = h_valloc(s); al = PGSZ; break;
    case 7: p = h_pvalloc(s ? s : 1); al = PGSZ; break;
    }
    if (!p) {
        if (!faults) viol("C16", "%s of %zu bytes with alignment %u failed with errno %d after memory became available", opname[op], s, al, errno);
        else if (errno != ENOMEM) viol("C16", "failed %s of %zu bytes set errno to %d", opname[op], s, errno);
        n_null++;
        return 0;
    }
    *o = (obj_t){.p = p, .req = s, .align = al, .cls = expect_size(s, al ? al : 16).cls};
    return 1;
}

static char msg[300];
static int death(void (*f)(void *), void *arg) {
    // 0: fatal error with message, 1: accepted, 2: anything else
    int pp[2];
    if (pipe(pp)) vf_die("pipe");
    pid_t pid = fork();
    if (pid < 0) vf_die("fork");
    if (pid == 0) {
        plan = PL_NONE;
        dup2(pp[1], 2);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGABRT, SIG_DFL);
        alarm(60);
        f(arg);
        syscall(SYS_exit_group, 77);
    }
    close(pp[1]);
    ssize_t n = read(pp[0], msg, sizeof(msg) - 1);
    msg[n > 0 ? n : 0] = 0;
    close(pp[0]);
    int st;
    waitpid(pid, &st, 0);
    n_death++;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && !strncmp(msg, "fatal allocator error: ", 23)) return 0;
    return WIFEXITED(st) && WEXITSTATUS(st) == 77 ? 1 : 2;
}
static void free_twice(void *p) { h_free(p); h_free(p); }
static void free_inner(void *p) { h_free((u8 *)p + 16); }

// memory of the program next to the allocator's, which has to stay
static u8 *sentinels[64];
static void sentinel_check(void) {
    for (int i = 0; i < 64; i++) if (sentinels[i]) {
        n_sentinel++;
        if (probe_read(sentinels[i]) != i + 1 || probe_read(sentinels[i] + PGSZ - 1) != i + 1) { viol("C16", "memory mapped by the program at %p was changed or unmapped", sentinels[i]); sentinels[i] = NULL; }
    }
}
static void sentinel_map(void) {
    int i = rndn(&R, 64);
    if (sentinels[i]) syscall(SYS_munmap, sentinels[i], PGSZ);
    sentinels[i] = vf_map(PGSZ);
    memset(sentinels[i], i + 1, PGSZ);
}

// ---- very large objects of all combinations of sizes, moved with and without failing calls ----
static u64 n_moves;
static void moves(void) {
    static const u8 mib[] = {28, 32, 40, 48, 64, 80};
    plan_errno = ENOMEM;
    for (unsigned f = 0; f < sizeof mib; f++)
        for (unsigned t = 0; t < sizeof mib; t++) {
            obj_t o = {.req = (size_t)mib[f] << 20, .cls = EXP_LARGE};
            if (rndn(&R, 4) == 0) o.req -= rndn(&R, 9000);
            o.p = h_malloc(o.req);
            if (!o.p) vf_die("no memory");
            o.usable = h_malloc_usable_size(o.p);
            fill(&o);
            unsigned how = rndn(&R, 3);
            hits = 0; plan_seq = 0;
            if (how) { plan = PL_KIND; plan_kind = C_MREMAP; }
            size_t s = ((size_t)mib[t] << 20) - (rndn(&R, 4) ? 0 : rndn(&R, 9000));
            u8 *p = h_realloc(o.p, s);
            plan = PL_NONE;
            n_moves++;
            if (!p) { viol("C16", "realloc from %zu to %zu bytes fails%s", o.usable, s, hits ? " because pages can't be moved" : ""); p = o.p; s = o.usable; }
            size_t keep = o.usable < s ? o.usable : s;
            if (!check_at(&o, p, keep, hits ? "after realloc that couldn't move pages" : "after realloc")) viol("C02", "realloc from %zu to %zu bytes%s loses contents", o.usable, s, hits ? ", with mremap failing," : "");
            u8 *z = p + h_malloc_usable_size(p) - 1;
            if (!probe_write(p) || !probe_write(z)) viol("C16", "realloc from %zu to %zu bytes returned inaccessible memory", o.usable, s);
            h_free(p);
        }
}

// ---- operations that fail leave nothing behind ----
static u64 n_leak_tests, n_leak_ops;
static size_t vm_pages(void) {
    char b[128];
    int fd = open("/proc/self/statm", O_RDONLY), n = read(fd, b, sizeof b - 1);
    close(fd);
    b[n > 0 ? n : 0] = 0;
    return strtoul(b, NULL, 10);
}
static void *leak_obj[3];
static int leak_op(unsigned op) {   // 1: succeeded
    void *p = NULL, *q;
    size_t s = 131073 + rndn(&R, 600000);
    switch (op) {
    case 0: p = h_malloc(s); break;
    case 1: p = h_calloc(s, 1); break;
    case 2: p = h_aligned_alloc(4096UL << rndn(&R, 10), s); break;
    case 3: if (h_posix_memalign(&p, 65536, 1 + rndn(&R, s))) p = NULL; break;
    case 4: p = h_valloc(s); break;
    case 5: q = h_realloc(leak_obj[0], 500000 + s); if (q) leak_obj[0] = q; return q != NULL;
    case 6: q = h_realloc(leak_obj[1], 60UL << 20); if (q) leak_obj[1] = q; return q != NULL;
    case 7: q = h_realloc(leak_obj[2], 300000); if (q) leak_obj[2] = q; return q != NULL;
    }
    if (p) { h_free(p); return 1; }
    return 0;
}
static void leaks(const char *when) {
    static const char *const names[] = {"malloc", "calloc", "aligned_alloc", "posix_memalign", "valloc", "realloc", "realloc(60 MiB)", "realloc in place"};
    static const u8 kinds[] = {C_MMAP, C_MMAP_FIXED, C_MPROTECT, C_MREMAP};
    enum { K = 250 };
    plan_errno = ENOMEM;
    for (unsigned op = 0; op < 8; op++)
        for (unsigned pl = 0; pl < sizeof kinds + 7; pl++) {
            leak_obj[0] = h_malloc(200000); leak_obj[1] = h_malloc(40UL << 20); leak_obj[2] = h_malloc(900000);
            if (!leak_obj[0] || !leak_obj[1] || !leak_obj[2]) vf_die("no memory");
            vf_section_set("repeatedly failing %s, plan %u, %s", names[op], pl, when);
            size_t before = 0;
            bool use = true;
            for (unsigned k = 0; k < K + 20 && use; k++) {
                if (k == 20) before = vm_pages();
                plan_seq = 0; hits = 0; hit_kinds = 0;
                if (pl < sizeof kinds) { plan_kind = kinds[pl]; plan = PL_KIND; }
                else if (pl == sizeof kinds) plan = PL_STATE;
                else { plan_n = pl - sizeof kinds; plan = PL_NTH; }
                int r = leak_op(op);
                plan = PL_NONE;
                use = !r && hits && !(hit_kinds & (1u << C_MUNMAP | 1u << C_MADVISE));
            }
            if (use) {
                size_t after = vm_pages();
                n_leak_tests++; n_leak_ops += K;
                cov(9000 + op * 16 + pl);
                if (after > before + K / 2) { viol("C16", "%s that fails leaves memory mapped: %zu pages after %u calls, %s", names[op], after - before, K, when); viol("C19", "%s that fails leaves memory mapped: %zu pages after %u calls, %s", names[op], after - before, K, when); }
            }
            for (unsigned i = 0; i < 3; i++) h_free(leak_obj[i]);
        }
}
static void all_leaks(void) {
    leaks("in a fresh heap");
    // as many large objects that the next one needs a larger table
    static void *many[40000];
    unsigned n = 0;
    for (; n < 40000; n++) {
        plan = PL_STATE; plan_seq = 0;
        many[n] = h_malloc(140000);
        plan = PL_NONE;
        if (!many[n]) break;
    }
    if (n < 40000) { n_leak_tests++; leaks("when the table of large objects has to grow"); }
    while (n) h_free(many[--n]);
}

static void in_child(const char *what, void (*f)(void));
static size_t withheld_by_quarantine(size_t size);
// small allocations that fail over and over lose no slabs: what is free before can be allocated afterwards without using new address space
static u64 n_slab_tests;
static void slab_leaks(void) {
    static u8 *o[70000];
    size_t slabs = 0;
    plan_errno = ENOMEM;
    for (unsigned c = 1; c <= N_DOC && vf_nviol < 5; c += 1 + rndn(&R, 4)) {
        size_t req = class_size(c) - CANARY, sl = class_slots(c), slab = class_slab(c), held = withheld_by_quarantine(req);
        size_t n = (held / sl + 70) * sl;
        if (n > 70000 || slabs + n / sl > 10000 || (n / sl * 3 + 200) * slab > CF_REGION / 3) continue;    // (slabs stay mappings of their own, of which there are at most 65530)
        slabs += n / sl;
        vf_section_set("repeatedly failing malloc(%zu)", req);
        uintptr_t top = 0;
        for (size_t i = 0; i < n; i++) { o[i] = h_malloc(req); if (!o[i]) vf_die("no memory: object %zu of %zu of %zu bytes", i, n, req); if ((uintptr_t)o[i] > top) top = (uintptr_t)o[i]; }
        for (int when = 0; when < 2; when++) {
            // when 0: all slabs are full, 1: all are free
            size_t m = 4 * sl;
            if (when) { for (size_t i = 0; i < n; i++) h_free(o[i]); if (rndn(&R, 2)) h_malloc_trim(0); m = n - held - 2 * sl; }
            unsigned failed = 0;
            for (int k = 0; k < 150; k++) {
                plan_seq = 0; hits = 0; hit_kinds = 0;
                plan = PL_KIND; plan_kind = C_MPROTECT;
                u8 *p = h_malloc(req);
                plan = PL_NONE;
                if (p) h_free(p);
                else failed++;
            }
            n_leak_ops += failed;
            if (!when) {
                // failures while there are no free slabs don't move the next one either
                static u8 *x[256 * 4];
                uintptr_t t2 = top;
                for (size_t i = 0; i < m; i++) { x[i] = h_malloc(req); if (!x[i]) vf_die("no memory: further object %zu of %zu of %zu bytes", i, m, req); if ((uintptr_t)x[i] > t2) t2 = (uintptr_t)x[i]; }
                if (failed > 100 && (t2 - top) / slab > 30) { viol("C16", "%u calls of malloc(%zu) that fail leave %lu slabs unused", failed, req, (u64)(t2 - top) / slab); viol("C19", "%u calls of malloc(%zu) that fail leave %lu slabs unused", failed, req, (u64)(t2 - top) / slab); }
                for (size_t i = 0; i < m; i++) h_free(x[i]);
                if (t2 > top) top = t2;
            } else {
                for (size_t i = 0; i < m; i++) {
                    o[i] = h_malloc(req);
                    if (!o[i]) vf_die("no memory: free object %zu of %zu of %zu bytes", i, m, req);
                    if ((uintptr_t)o[i] > top && failed) { viol("C16", "after %u calls of malloc(%zu) that failed, allocation %zu of %zu that were free before takes a new slab", failed, req, i, m); viol("C19", "after %u calls of malloc(%zu) that failed, allocation %zu of %zu that were free before takes a new slab", failed, req, i, m); m = i + 1; }
                }
                for (size_t i = 0; i < m; i++) h_free(o[i]);
            }
            if (failed) { n_slab_tests++; cov(9500 + c * 2 + when); }
        }
    }
    vstat("slab_leak_tests", n_slab_tests);
    n_slab_tests = 0;
}
// the table of large allocations grows while the kernel refuses to replace the pages of the old one; then it grows further
static u64 grow_stage, grow_seen;
static int grow_hook(int kind, uintptr_t a, VF_UNUSED size_t n) {
    if (kind != C_MMAP_FIXED && kind != C_MADVISE) return 0;
    for (unsigned i = 0; i < n_first_maps; i++) if (a - first_maps[i].a < first_maps[i].n) {
        if (kind == C_MMAP_FIXED) grow_seen++;
        return kind == C_MMAP_FIXED && (grow_stage == 99 || grow_seen == grow_stage + 1) ? (hits++, cov(9700 + grow_stage), ENOMEM) : 0;
    }
    return 0;
}
static void free_once(void *p) { h_free(p); }
static void grow_faults(void) {
    enum { N = 3000 };
    static u8 *o[N], *old[N];
    static size_t u[N];
    fault_hook = grow_hook;
    size_t n = 0, n_old = 0;
    u64 h = 0;
    while (n < N - 1 && vf_nviol < 5) {
        size_t s = 131073 + rndn(&R, 50000);
        u8 *p = h_malloc(s);
        n_ops++;
        if (!p) { if (n < 200) viol("C16", "malloc(%zu) failed although the kernel refused nothing the allocation needs", s); break; }
        o[n] = p; u[n++] = h_malloc_usable_size(p);
        if (hits != h) {      // the table has just grown: these are freed now, most of them
            h = hits;
            n_old = 0;
            size_t k = 0;
            for (size_t i = 0; i < n; i++) if (rndn(&R, 4)) { old[n_old++] = o[i]; h_free(o[i]); } else { o[k] = o[i]; u[k++] = u[i]; }
            n = k;
        }
    }
    fault_hook = NULL;
    for (size_t i = 0; i < n; i++) { size_t v = h_malloc_usable_size(o[i]); if (v != u[i]) { viol("C16", "the usable size of a large allocation changed from %zu to %zu after the table of them couldn't be replaced", u[i], v); break; } }
    unsigned tested = 0;
    for (size_t i = 0; i < n_old && tested < 40 && vf_nviol < 5; i++) {
        u8 *p = old[rndn(&R, n_old)];
        bool live_ = false;
        for (size_t j = 0; j < n && !live_; j++) live_ = o[j] == p;
        if (live_) continue;
        tested++;
        int r = death(free_once, p);
        if (r) viol("C16", "free of a large allocation freed before is %s after the table of large allocations grew: %s", r == 1 ? "accepted" : "not reported", msg);
    }
    for (size_t i = 0; i < n; i++) h_free(o[i]);
    for (size_t i = 0; i < 20 && n && vf_nviol < 5; i++) { int r = death(free_once, o[rndn(&R, n)]); if (r) viol("C16", "double free of a large allocation is %s: %s", r == 1 ? "accepted" : "not reported", msg); }
    vstat("stale_frees_after_growth", tested);
}

static void mode_c16(u64 ops) {
    if (CF_REGION > (64UL << 20) && env_u64("VF_GROW", 1)) for (unsigned i = 0; i < 5; i++) { grow_stage = i < 4 ? i : 99; rnd(&R); in_child("growth of the table of large allocations", grow_faults); }
    fault_hook = hook;
    if (env_u64("VF_LEAKS", 1)) in_child("failing small allocations", slab_leaks);
    if (env_u64("VF_MOVES", 1)) moves();
    if (env_u64("VF_LEAKS", 1) && !vf_nviol) all_leaks();
    if (!ops) return;
    for (u64 k = 0; k < ops && vf_nviol < 12; k++) {
        static size_t target = 200;
        static bool with_faults = true;
        if (rndn(&R, 300) == 0) { target = rndn(&R, CF_REGION / 4096 / 64 < MAXOBJ - 10 ? CF_REGION / 4096 / 64 : MAXOBJ - 10); with_faults = rndn(&R, 8) != 0; }
        if (rndn(&R, 50) == 0) sentinel_map();
        if (rndn(&R, 300) == 0) sentinel_check();
        bool faults = with_faults && rndn(&R, 4) != 0;
        unsigned op;
        if (n_live < target || !n_live) { static const u8 ops_[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7}; op = ops_[rndn(&R, 10)]; }
        else { static const u8 ops_[] = {8, 8, 8, 9, 2, 10, 11}; op = ops_[rndn(&R, 7)]; if (op == 10 && rndn(&R, 10)) op = 8; }
        if (n_live >= MAXOBJ - 2 && op < 8) op = 8;
        if (op == 2 && !n_live) op = 0;
        size_t s = pick_size();
        bool huge = false;
        if (rndn(&R, 150) == 0 && n_live < MAXOBJ - 4) {   // growth and shrinking by moving pages
            obj_t h = {.cls = EXP_LARGE};
            h.req = huge_size(&R);
            h.p = h_malloc(h.req);
            if (h.p) { filled(h, "malloc"); huge = true; op = 2; s = huge_size(&R); }
        }
        u32 al = op == 3 || op == 4 || op == 5 ? aligns[rndn(&R, 9)] : 0;
        if (!CF_LARGE && !s) s = 1;
        vf_section_set("%s of %zu align %u, faults %d", opname[op], s, al, faults);
        n_ops++;
        obj_t o;
        if (huge) faults = rndn(&R, 4) != 0;
        if (faults) set_plan();
        size_t i = n_live ? rndn(&R, n_live) : 0;
        if (huge) {
            i = n_live - 1;
            if (faults && rndn(&R, 2)) { plan = PL_KIND; plan_kind = C_MREMAP; }
        }
        switch (op) {
        case 8: case 9: {
            o = live[i];
            check_at(&o, o.p, ~0UL, "before free");
            live[i] = live[--n_live];
            errno = 4321;
            if (op == 9 && o.align <= 16) h_free_sized(o.p, o.req); else h_free(o.p);
            int e = errno;
            plan = PL_NONE;
            gone(&o, 0, opname[op]);
            errno = e;
            if (errno != 4321) viol("C28", "%s of an allocation of %zu bytes (usable %zu) changed errno to %d%s", opname[op], o.req, o.usable, errno, hits ? ", with failing kernel calls" : "");
            break;
        }
        case 10: h_malloc_trim(0); break;
        case 11: if (h_malloc_usable_size(live[i].p) != live[i].usable) viol("C16", "usable size changed"); break;
        case 2: {
            o = live[i];
            errno = 7777;
            u8 *p = h_realloc(o.p, s);
            plan = PL_NONE;
            if (!p) {
                n_null++;
                if (!hits) viol("C16", "realloc from %zu to %zu bytes failed without a fault (errno %d)", o.usable, s, errno);
                if (errno != ENOMEM) viol("C16", "failed realloc from %zu to %zu bytes set errno to %d", o.usable, s, errno);
                check_at(&o, o.p, ~0UL, "after failed realloc");
                size_t u = h_malloc_usable_size(o.p);
                if (u != o.usable) viol("C16", "failed realloc from %zu to %zu bytes changed the usable size to %zu", o.usable, s, u);
            } else {
                size_t u = h_malloc_usable_size(p);
                if (u < s) viol("C16", "realloc to %zu bytes returned usable size %zu", s, u);
                check_at(&o, p, o.usable < s ? o.usable : s, "after realloc");
                if (p != o.p) gone(&o, 0, "realloc");
                else if (u < o.usable) gone(&o, (u + PGSZ - 1) & -PGSZ, "realloc in place");
                live[i] = live[--n_live];
                obj_t q = {.p = p, .req = s, .usable = u, .cls = expect_size(s, 16).cls};
                check_overlap(&q);
                if (u && (!probe_write(p) || !probe_write(p + u - 1))) viol("C16", "realloc to %zu bytes returned inaccessible memory", s);
                fill(&q);
                live[n_live++] = q;
            }
            break;
        }
        default: {
            int r = do_op(op, &o, s, al, faults);
            plan = PL_NONE;
            if (r) filled(o, opname[op]);
            if (!r && !hits) viol("C16", "%s of %zu bytes failed without a fault", opname[op], s);
            if (r && hits) n_ok_with_fault++;
            if (!r && rndn(&R, 4) == 0 && vf_nviol == 0) { if (do_op(op, &o, s, al, false)) filled(o, opname[op]); }
        }
        }
        if (huge && n_live) { obj_t x = live[--n_live]; check_at(&x, x.p, ~0UL, "before free"); h_free(x.p); gone(&x, 0, "free"); }
        plan = PL_NONE;
        if (hits) { n_faulted_ops++; cov(op * 64 + (hits > 5 ? 5 : hits)); cov(1024 + op * 64 + expect_size(s, al ? al : 16).cls % 63); }
        hits = 0; hit_kinds = 0;
        if (rndn(&R, 40) == 0 && n_live) { obj_t *q = &live[rndn(&R, n_live)]; check_at(q, q->p, ~0UL, "live"); }
        if (rndn(&R, 400) == 0 && n_live) {
            obj_t q = live[rndn(&R, n_live)];
            int r = death(free_twice, q.p);
            if (r) viol("C16", "double free of %zu bytes after failures: %s %s", q.req, r == 1 ? "accepted" : "other end", msg);
            if (q.usable > 32) { r = death(free_inner, q.p); if (r) viol("C16", "interior free of %zu bytes after failures: %s %s", q.req, r == 1 ? "accepted" : "other end", msg); }
        }
    }
    sentinel_check();
    vf_section_set("final");
    while (n_live) { obj_t o = live[--n_live]; check_at(&o, o.p, ~0UL, "at the end"); h_free(o.p); }
    h_malloc_trim(0);
}

// ---- real limits ----
static void must_fail(const char *what, void *p, int e) {
    n_ops++;
    if (p) viol("C16", "%s succeeded", what);
    else if (e != ENOMEM) viol("C16", "%s failed with errno %d instead of ENOMEM", what, e);
}
static void impossible(void) {
    char w[100];
    void *victim = h_malloc(100), *lvictim = h_malloc(1000000);
    memset(victim, 1, 100); memset(lvictim, 2, 1000000);
    static size_t sizes[600];
    size_t n = 0;
    for (int b = 47; b < 64; b++) for (int d = -3; d <= 3; d++) {
        if (b == 47 && d < 0) continue;
        sizes[n++] = (1UL << b) + d * 4096; sizes[n++] = (1UL << b) + d;
        sizes[n++] = (1UL << b) + (1UL << (b - 1)) + d;
    }
    for (int d = 0; d < 20; d++) { sizes[n++] = SIZE_MAX - d; sizes[n++] = SIZE_MAX - d * 4096; sizes[n++] = SIZE_MAX - (1UL << (3 * d)); sizes[n++] = SIZE_MAX / 2 - d * 1000; }
    for (size_t k = 0; k < n; k++) {
        size_t s = sizes[k];
        if (s < (1UL << 47)) continue;
        vf_section_set("impossible size %lx", s);
        cov(8192 + k);
        void *q;
        errno = 0; q = h_malloc(s); vf_fmt(w, 100, "malloc(%lx)", s); must_fail(w, q, errno);
        errno = 0; q = h_calloc(1, s); vf_fmt(w, 100, "calloc(1, %lx)", s); must_fail(w, q, errno);
        errno = 0; q = h_calloc(s, 3); vf_fmt(w, 100, "calloc(%lx, 3)", s); if ((unsigned __int128)s * 3 >> 64 || s * 3 >= 1UL << 47) must_fail(w, q, errno); else h_free(q);
        errno = 0; q = h_realloc(NULL, s); vf_fmt(w, 100, "realloc(NULL, %lx)", s); must_fail(w, q, errno);
        errno = 0; q = h_realloc(victim, s); vf_fmt(w, 100, "realloc(small, %lx)", s); must_fail(w, q, errno);
        errno = 0; q = h_realloc(lvictim, s); vf_fmt(w, 100, "realloc(large, %lx)", s); must_fail(w, q, errno);
        errno = 0; q = h_valloc(s); vf_fmt(w, 100, "valloc(%lx)", s); must_fail(w, q, errno);
        errno = 0; q = h_pvalloc(s); vf_fmt(w, 100, "pvalloc(%lx)", s); must_fail(w, q, errno);
        for (int b = 4; b < 48; b += 5) {
            errno = 0; q = h_aligned_alloc(1UL << b, s); vf_fmt(w, 100, "aligned_alloc(1 << %d, %lx)", b, s); must_fail(w, q, errno);
            errno = 0; q = h_memalign(1UL << b, s); vf_fmt(w, 100, "memalign(1 << %d, %lx)", b, s); must_fail(w, q, errno);
            void *r = (void *)8;
            int e = h_posix_memalign(&r, 1UL << b, s);
            vf_fmt(w, 100, "posix_memalign(1 << %d, %lx)", b, s); must_fail(w, e ? NULL : r, e);
            if (r != (void *)8 && e) viol("C16", "%s changed the pointer", w);
        }
    }
    for (int b = 47; b < 64; b++) {
        void *q;
        vf_section_set("impossible alignment 1 << %d", b);
        for (size_t s = 1; s < 300000; s = s * 13 + 5) {
            errno = 0; q = h_aligned_alloc(1UL << b, s); vf_fmt(w, 100, "aligned_alloc(1 << %d, %zu)", b, s); must_fail(w, q, errno);
            void *r = (void *)8; int e = h_posix_memalign(&r, 1UL << b, s); vf_fmt(w, 100, "posix_memalign(1 << %d, %zu)", b, s); must_fail(w, e ? NULL : r, e);
        }
    }
    for (int i = 0; i < 20000; i++) {
        size_t a = rnd(&R) >> rndn(&R, 40), b = rnd(&R) >> rndn(&R, 40);
        if (!((unsigned __int128)a * b >> 64)) continue;
        errno = 0; void *q = h_calloc(a, b); vf_fmt(w, 100, "calloc(%lx, %lx)", a, b); must_fail(w, q, errno);
    }
    for (int i = 0; i < 100; i++) if (((u8 *)victim)[i] != 1) viol("C16", "failed calls changed a live allocation");
    for (int i = 0; i < 1000000; i += 97) if (((u8 *)lvictim)[i] != 2) viol("C16", "failed calls changed a live allocation");
    h_free(victim); h_free(lvictim);
}

// allocates until it fails; returns the number
static u8 **got;
#define MAXGOT (1UL << 20)
static size_t until_null(size_t size, size_t max) {
    size_t n = 0;
    for (; n < max; n++) {
        errno = 0;
        u8 *p = h_malloc(size);
        if (!p) { if (errno != ENOMEM) viol("C16", "malloc(%zu) failed with errno %d", size, errno); n_null++; break; }
        n_ops++;
        got[n] = p;
        if (size >= 8) { u64 v = (u64)p ^ size; memcpy(p, &v, 8); if (size >= 16) memcpy(p + size - 8, &v, 8); }
    }
    return n;
}
static void verify_got(size_t n, size_t size, const char *when) {
    if (size < 8) return;
    for (size_t i = 0; i < n; i++) {
        u64 v = (u64)got[i] ^ size, a, b = v;
        memcpy(&a, got[i], 8);
        if (size >= 16) memcpy(&b, got[i] + size - 8, 8);
        if (a != v || b != v) { viol("C16", "%s: allocation %zu of %zu bytes changed", when, i, size); return; }
    }
}
static void free_got(size_t from, size_t n) { for (size_t i = from; i < n; i++) { errno = 4321; h_free(got[i]); if (errno != 4321) { viol("C28", "free changed errno to %d", errno); break; } } }

// a limit that makes allocation fail is hit, everything freed, and then allocation has to work again
static void exhaust_cycle(size_t size, size_t max, const char *what, size_t withheld) {
    vf_section_set("%s, %zu bytes", what, size);
    size_t n = until_null(size, max);
    verify_got(n, size, what);
    if (n && n < max) {
        int r = death(free_twice, got[n / 2]);
        if (r) viol("C16", "%s: double free after exhaustion with %zu bytes: %s %s", what, size, r == 1 ? "accepted" : "other end", msg);
        // others still work or fail properly
        for (int i = 0; i < 50; i++) { errno = 0; size_t s = pick_size(); void *q = h_malloc(s); if (!q && errno != ENOMEM) viol("C16", "%s: malloc(%zu) failed with errno %d", what, s, errno); h_free(q); }
        u8 *q = h_realloc(got[0], size * 2 + 100000);
        if (q) got[0] = q; else verify_got(1, size, "after failed realloc");
        if (q) { h_free(q); got[0] = NULL; }
    }
    free_got(0, n);
    size_t m = until_null(size, n);
    verify_got(m, size, what);
    if (n > withheld + 2 && m + withheld < n) viol("C16", "%s: %zu allocations of %zu bytes at first, %zu after freeing them all", what, n, size, m);
    free_got(0, m);
    vsample("%s: %zu then %zu allocations of %zu bytes", what, n, m, size);
    cov(8192 + 1024 + (expect_size(size, 16).cls & 63));
}

static size_t withheld_by_quarantine(size_t size) {
    struct exp e = expect_size(size, 16);
    if (e.cls == EXP_LARGE) return CF_RQR + CF_RQQ;
    size_t q = quarantine_len(e.cls, CF_QQ) + quarantine_len(e.cls, CF_QR);
    return q + CF_FSQ * class_slots(e.cls);
}

static void in_child(const char *what, void (*f)(void)) {
    pid_t pid = fork();
    if (pid < 0) vf_die("fork");
    if (!pid) {
        atomic_store(&vf_nviol, 0);
        f();
        vstat("evals", n_ops);
        vstat("nulls", n_null);
        for (unsigned i = 0; i < 256; i++) if (covbits[i]) vcov("limit", i, covbits[i]);
        ip_stats();
        syscall(SYS_exit_group, vf_nviol ? 1 : 0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) viol("C16", "%s: the process was stopped by signal %d", what, WTERMSIG(st));
    else if (WEXITSTATUS(st) == 3) vf_die("child");
    else if (WEXITSTATUS(st) == 1) atomic_fetch_add(&vf_nviol, 1);
}

static u64 proc_status_kb(const char *key) {
    char b[8192];
    int fd = open("/proc/self/status", O_RDONLY);
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    b[n] = 0;
    char *s = strstr(b, key);
    return s ? strtoul(s + strlen(key), NULL, 10) : 0;
}
static void limit_data(void) {
    size_t s = rndn(&R, 2) ? 131072 + rndn(&R, 300000) : rndn(&R, 2) ? 100000 : rndr(&R, 100, 4000);
    u64 kb = proc_status_kb("VmData:");
    struct rlimit r = {(kb + 20000) << 10, RLIM_INFINITY};
    if (setrlimit(RLIMIT_DATA, &r)) vf_die("setrlimit");
    exhaust_cycle(s, MAXGOT, "data limit", withheld_by_quarantine(s));
    r.rlim_cur = RLIM_INFINITY;
    setrlimit(RLIMIT_DATA, &r);
    void *p = h_malloc(30000000);
    if (!p) viol("C16", "allocation fails after the data limit was lifted");
    h_free(p);
}
static void limit_as(void) {
    size_t s = 131073 + rndn(&R, 3000000);
    u64 kb = proc_status_kb("VmSize:");
    struct rlimit r = {(kb + 200000) << 10, RLIM_INFINITY};
    if (setrlimit(RLIMIT_AS, &r)) vf_die("setrlimit");
    // freed ranges in the quarantine keep their address space: the second count may be 0
    exhaust_cycle(s, MAXGOT, "address space limit", MAXGOT);
    r.rlim_cur = RLIM_INFINITY;
    setrlimit(RLIMIT_AS, &r);
    void *p = h_malloc(30000000);
    if (!p) viol("C16", "allocation fails after the address space limit was lifted");
    h_free(p);
}
static void limit_maps(void) {
    // every large allocation and every guarded slab is a mapping of its own, of which the kernel allows only so many
    size_t s = rndn(&R, 2) ? 131072 - 8 : 140000;
    exhaust_cycle(s, MAXGOT, "mapping count", MAXGOT);
    h_malloc_trim(0);
    for (int i = 0; i < 1000; i++) { void *p = h_malloc(CF_REGION < (64UL << 20) ? 131073 + rndn(&R, 3000000) : pick_size()); if (!p) viol("C16", "allocation fails after everything was freed"); h_free(p); }
}
static size_t child_size;
static void limit_region(void) { exhaust_cycle(child_size, MAXGOT, "size class region", withheld_by_quarantine(child_size)); }
static void limit_region_aligned(void) {
    // the same with objects freed while allocating others
    size_t n = until_null(child_size, MAXGOT);
    for (int k = 0; k < 2000; k++) {
        size_t i = rndn(&R, n);
        h_free(got[i]);
        got[i] = h_malloc(child_size);
        if (!got[i]) { if (errno != ENOMEM) viol("C16", "errno %d", errno); got[i] = got[--n]; if (n < 2) break; }
        else if (child_size >= 8) { u64 v = (u64)got[i] ^ child_size; memcpy(got[i], &v, 8); if (child_size >= 16) memcpy(got[i] + child_size - 8, &v, 8); }
    }
    verify_got(n, child_size, "refilling a full region");
    free_got(0, n);
}
static void limit_table(void) {
    size_t n = until_null(200000, 60000);
    verify_got(n, 200000, "full region table");
    vsample("region table: %zu large allocations", n);
    if (n == 60000) { free_got(0, n); return; }
    for (int k = 0; k < 20; k++) {
        errno = 0;
        void *p = h_aligned_alloc(65536, 200000);
        if (p || errno != ENOMEM) viol("C16", "aligned_alloc with a full region table: %p errno %d", p, errno);
        void *q = (void *)8; int e = h_posix_memalign(&q, 65536, 200000);
        if (e != ENOMEM) viol("C16", "posix_memalign with a full region table: %d", e);
        h_free(got[--n]);
        p = h_malloc(200000);
        if (!p) viol("C16", "allocation fails although an entry of the region table is free");
        got[n] = p; n++;
        if (p) { u64 v = (u64)p ^ 200000; memcpy(p, &v, 8); memcpy((u8 *)p + 200000 - 8, &v, 8); }
        size_t i = rndn(&R, n);
        int r = death(free_twice, got[i]);
        if (r) viol("C16", "double free with a full region table: %s", msg);
    }
    // large realloc works in place and from small memory fails
    u8 *p = h_realloc(got[0], 150000);
    if (p) got[0] = p; else viol("C16", "shrinking fails with a full region table");
    if (p) { u64 v; memcpy(&v, p, 8); if (v != ((u64)p ^ 200000)) viol("C16", "shrinking changed the contents"); }
    free_got(0, n);
    size_t m = until_null(200000, n + 1);
    if (m != n) viol("C16", "%zu large allocations fill the region table at first, %zu later", n, m);
    free_got(0, m);
}

static void mode_limits(u64 rounds) {
    got = vf_map(MAXGOT * sizeof(*got));
    in_child("impossible sizes", impossible);
    for (u64 i = 0; i < rounds && vf_nviol < 10; i++) {
        rnd(&R);
        in_child("data limit", limit_data);
        in_child("address space limit", limit_as);
        if (i == 0) { vma_model_on = false; in_child("mapping count", limit_maps); vma_model_on = true; }
    }
    if (CF_REGION <= (8UL << 20)) {
        in_child("region table", limit_table);
        for (unsigned c = 0; c <= N_DOC && vf_nviol < 10; c++) {
            child_size = c ? class_size(c) - CANARY : 0;
            in_child("size class region", limit_region);
            if (c % 4 == 0 && c) in_child("full size class region", limit_region_aligned);
        }
    }
}

// ---- other errors and the report ----
static int report_fd = -1;
static unsigned report_mode;
static rng_t WR;
static ssize_t short_write(int fd, const void *buf, size_t n) {
    if (fd != 2) { viol("C23", "write to descriptor %d", fd); return syscall(SYS_write, fd, buf, n); }
    switch (report_mode) {
    case 1: n = n > 1 ? 1 : n; break;                                             // one byte at a time
    case 2: if (rndn(&WR, 3)) { errno = EINTR; return -1; } n = 1 + rndn(&WR, n); break;
    case 3: errno = EIO; return -1;
    case 4: if (rndn(&WR, 4) == 0) { errno = EIO; return -1; } n = 1 + rndn(&WR, n); break;
    case 5: errno = EBADF; return -1;
    case 6: n = 1 + rndn(&WR, n); break;
    case 7: errno = EAGAIN; return -1;                                             // a full pipe that doesn't block
    case 8: errno = ENOSPC; return -1;
    case 9: errno = EPIPE; return -1;
    }
    return syscall(SYS_write, fd, buf, n);
}
struct shm { volatile u64 injected, later_calls; volatile int kind; } *shm;
static int c17_kind;
static u64 c17_nth;
static int c17_hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) {
    if (shm->injected && kind != C_WRITE) { shm->later_calls++; return 0; }
    if (kind == c17_kind && c17_nth-- == 0) { shm->injected = 1; shm->kind = kind; return plan_errno; }
    return 0;
}
static void c17_workload(VF_UNUSED void *arg) {
    // reaches every kind of call: growth, purging, aligned, in place shrinking, moving by remapping, table growth
    fault_hook = c17_hook;
    rng_t r = R;
    u8 *o[600];
    size_t n = 0;
    for (int k = 0; k < 4000; k++) {
        if (n < (c17_kind == C_MREMAP ? 30 : 300) || (n < 600 && rndn(&r, 2))) {
            size_t s = c17_kind == C_MREMAP && k % 10 == 0 ? (33UL << 20) + k * 4096 : pick_size();
            u8 *p = rndn(&r, 5) ? h_malloc(s) : h_aligned_alloc(aligns[rndn(&r, 9)], s ? s : 1);
            if (p) o[n++] = p;
        } else if (rndn(&r, 4)) { size_t i = rndn(&r, n); h_free(o[i]); o[i] = o[--n]; }
        else { size_t i = rndn(&r, n); u8 *p = h_realloc(o[i], k % (c17_kind == C_MREMAP ? 4 : 50) == 0 ? (33UL << 20) + rndn(&r, 30UL << 20) : pick_size()); if (p) o[i] = p; }
        if (k % 500 == 499) h_malloc_trim(0);
        if (shm->injected) return;   // the call went on
    }
}
static void c17_misuse(void *p) { h_free(p); h_free(p); }
static int run_report(void (*f)(void *), void *arg, char *out, size_t cap) {
    int pp[2];
    if (pipe(pp)) vf_die("pipe");
    pid_t pid = fork();
    if (!pid) {
        dup2(pp[1], 2);
        signal(SIGSEGV, SIG_DFL);
        if (report_mode == 6) signal(SIGABRT, SIG_IGN); else signal(SIGABRT, SIG_DFL);
        write_hook = short_write;
        alarm(30);
        f(arg);
        syscall(SYS_exit_group, shm->injected ? 80 : 77);
    }
    close(pp[1]);
    size_t n = 0;
    for (;;) { ssize_t r = read(pp[0], out + n, cap - 1 - n); if (r <= 0) break; n += r; }
    out[n] = 0;
    close(pp[0]);
    int st;
    waitpid(pid, &st, 0);
    return st;
}
static void check_report(const char *what, int st, const char *out) {
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) { viol("C17", "%s: ended with status %x instead of SIGABRT, output: %s", what, st, out); return; }
    if (report_mode == 3 || report_mode == 5 || report_mode >= 7) { if (out[0]) viol("C17", "%s: unexpected output %s", what, out); return; }
    size_t l = strlen(out);
    if (report_mode == 4) { // a prefix
        const char *pre = "fatal allocator error: ";
        size_t k = l < strlen(pre) ? l : strlen(pre);
        if (strncmp(out, pre, k)) viol("C17", "%s: output %s", what, out);
        return;
    }
    bool ok = !strncmp(out, "fatal allocator error: ", 23) && l > 24 && out[l - 1] == '\n' && !memchr(out, '\n', l - 1);
    for (size_t i = 0; i + 1 < l; i++) if ((u8)out[i] < 32 || (u8)out[i] > 126) ok = false;
    if (!ok) viol("C17", "%s: report is not one complete line: %s", what, out);
}
static void mode_c17(u64 rounds) {
    static const int errs[] = {EINVAL, EPERM, EACCES, EAGAIN, EBADF, EFAULT, ENOSYS, EIO, EINTR, EOPNOTSUPP};
    shm = (void *)syscall(SYS_mmap, NULL, PGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L);
    char out[2048], w[100];
    u64 injected[N_CALLS] = {0}, reports = 0;
    // every call kind, at every position up to a bound and random ones later
    for (u64 i = 0; i < rounds && vf_nviol < 3; i++) {
        rnd(&R);
        c17_kind = i % 6;
        c17_nth = rndn(&R, 3) ? i / 6 % 40 : rndn(&R, 800);
        if (c17_kind == C_MREMAP) c17_nth = rndn(&R, 4);
        if (c17_kind == C_MADVISE) c17_nth = rndn(&R, 6);
        plan_errno = errs[rndn(&R, 10)];
        report_mode = rndn(&R, 10);
        shm->injected = shm->later_calls = 0;
        n_ops++;
        int st = run_report(c17_workload, NULL, out, sizeof out);
        if (!shm->injected) continue;
        injected[c17_kind]++;
        cov(c17_kind * 16 + (plan_errno & 15)); cov(256 + report_mode * 8 + c17_kind);
        vf_fmt(w, 100, "%s failing with errno %d", call_name[c17_kind], plan_errno);
        check_report(w, st, out);
        if (shm->later_calls) viol("C17", "%s: the allocator made %lu further calls", w, shm->later_calls);
        if (i < 5) vsample("%s: %s", w, out);
    }
    // reports of misuse
    for (u64 i = 0; i < rounds / 2 && vf_nviol < 3; i++) {
        report_mode = i % 10;
        WR.s = rnd(&R);
        size_t s = pick_size();
        void *p = h_malloc(s);
        shm->injected = 0;
        n_ops++;
        int st = run_report(c17_misuse, p, out, sizeof out);
        vf_fmt(w, 100, "double free of %zu bytes, report mode %u", s, report_mode);
        check_report(w, st, out);
        reports++;
        cov(512 + report_mode);
        h_free(p);
    }
    for (int k = 0; k < N_CALLS; k++) if (injected[k]) { vf_fmt(w, 100, "fatal.%s", call_name[k]); vstat(w, injected[k]); }
    vstat("misuse_reports", reports);
}

int main(void) {
    u64 n = env_u64("VF_OPS", 20000);
    R.s = env_u64("VF_SEED", 1) * 31337;
    const char *mode = getenv("VF_MODE");
    vf_install_segv();
    h_free(h_malloc(1));         // the failures of initialization are another matter
    if (!mode || !strcmp(mode, "c16")) mode_c16(n);
    else if (!strcmp(mode, "limits")) mode_limits(n);
    else if (!strcmp(mode, "c17")) mode_c17(n);
    else vf_die("mode");
    vstat("evals", n_ops);
    vstat("nulls", n_null);
    vstat("released_probed", n_gone); vstat("released_with_refusals", n_gone_faults);
    vstat("ops_with_injected_failures", n_faulted_ops);
    vstat("succeeded_despite_failure", n_ok_with_fault);
    vstat("death_tests", n_death); vstat("very_large_moves", n_moves); vstat("failing_calls_repeated", n_leak_ops); vstat("leak_tests", n_leak_tests);
    vstat("sentinel_checks", n_sentinel);
    vstat("ownership_checks", own_checks);
    for (unsigned i = 0; i < 256; i++) if (covbits[i]) vcov(mode ? mode : "c16", i, covbits[i]);
    ip_stats();
    vf_finish();
}
