// Reference model of the allocator run next to the real one on random histories.
//
// Every live object is filled with a pattern unique to it and registered in a shadow map of the
// address space, so a wrong size, alignment, overlap, content, reuse or size class shows.
// VF_THREADS=1 also decides the properties that need to know the order of all calls (scrubbing,
// quarantine delay); with more threads objects are handed over between the threads.
#include "vf.h"

enum { K_MALLOC, K_CALLOC, K_REALLOC_NULL, K_ALIGNED_ALLOC, K_MEMALIGN, K_POSIX_MEMALIGN, K_VALLOC, K_PVALLOC,
    K_FREE, K_CFREE, K_FREE_SIZED, K_REALLOC, K_USABLE, K_OBJSIZE, K_TRIM, K_VERIFY, K_REALLOC0, N_KINDS };

typedef struct { u8 *p; size_t req, usable; u64 id; u32 cls; u32 align; } obj_t;

typedef struct {
    rng_t r;
    unsigned tid;
    obj_t *objs;
    size_t n, cap;
    size_t bytes, max_bytes;
    u64 next_id;
    u64 count[N_KINDS];
    u64 checked_bytes, fresh_bytes, scrubbed_bytes, probes, moved, inplace, reused, handed, failed;
    uintptr_t cls_lo[64], cls_hi[64];
} thr_t;

static unsigned n_threads;
static const char *profile;
static bool single;
static u64 total_ops;
static u64 seed;

// ---- shadow maps ----
static _Atomic u64 *granules;   // one bit per 16 bytes of address space: used by a live small object
static _Atomic u8 *page_class;  // per page: 1 + the size class it was used for
#define ADDR_LIMIT (1UL << 47)

static u64 granule_set(uintptr_t a, size_t n, bool set) {
    // returns the number of granules that were already in the new state
    u64 bad = 0;
    size_t i = a >> 4, e = (a + (n ? n : 1) + 15) >> 4;
    while (i < e) {
        size_t w = i >> 6, b = i & 63, k = 64 - b;
        if (k > e - i) k = e - i;
        u64 m = (k == 64 ? ~0UL : ((1UL << k) - 1)) << b;
        u64 old = set ? atomic_fetch_or_explicit(&granules[w], m, memory_order_relaxed)
            : atomic_fetch_and_explicit(&granules[w], ~m, memory_order_relaxed);
        bad += __builtin_popcountl(set ? old & m : ~old & m);
        i += k;
    }
    return bad;
}

// live large ranges
typedef struct { uintptr_t a, e; } range_t;
#define MAX_LARGE 65536
static range_t *larges;
static size_t n_larges;
static spin_t large_lock;
static uintptr_t slab_lo = ~0UL, slab_hi;  // range of all small objects seen (large_lock)

static atomic_ulong distinct_bits[1 << 12];
static atomic_ulong n_distinct;
static void cover(unsigned kind, unsigned a, unsigned b) {
    if (a >= EXP_LARGE) a = 60 + (a != EXP_LARGE);
    if (b >= EXP_LARGE) b = 60 + (b != EXP_LARGE);
    unsigned k = (kind * 64 + a) * 64 + b;
    u64 m = 1UL << (k & 63);
    if (!(atomic_fetch_or_explicit(&distinct_bits[(k >> 6) & 4095], m, memory_order_relaxed) & m))
        atomic_fetch_add(&n_distinct, 1);
}

// ---- reuse delay of small addresses, one thread only ----
typedef struct { uintptr_t a; u64 seq; } freed_t;
#define FREED_CAP (1UL << 22)
static freed_t *freed;
static u64 class_frees[64];
static freed_t *freed_slot(uintptr_t a) {
    size_t h = (a >> 4) * 0x9e3779b97f4a7c15UL >> 42;
    while (freed[h].a && freed[h].a != a) h = (h + 1) & (FREED_CAP - 1);
    return &freed[h];
}
static size_t freed_used;
// the large ranges freed most recently
typedef struct { uintptr_t a, e; } lfreed_t;
static lfreed_t *lfreed;
static size_t lfreed_cap;
static u64 large_frees;

static void note_large_free(uintptr_t a, size_t n) {
    if (!single || !lfreed_cap || n >= CF_RQSKIP) return;
    lfreed[large_frees++ % lfreed_cap] = (lfreed_t){a, a + n};
}

// ---- patterns ----
static inline u64 pat(u64 id, size_t off) { return (id * 0x9e3779b97f4a7c15UL) ^ ((off + 1) * 0xd6e8feb86659fd93UL) ^ 0x0101010101010101UL; }

// calls f on the chunks of an object of this size that are filled with the pattern
#define FULL_LIMIT 65536UL
typedef bool (*chunk_fn)(u8 *p, size_t off, size_t n, u64 id, size_t *bad);
static bool for_chunks(u8 *p, size_t fill_size, size_t limit, u64 id, chunk_fn f, size_t *bad) {
    if (fill_size <= FULL_LIMIT) return f(p, 0, limit < fill_size ? limit : fill_size, id, bad);
    size_t step = fill_size >= (8UL << 20) ? 16 * PGSZ : PGSZ;
    for (size_t o = 0; o < fill_size; o += step) {
        size_t n = 64;
        if (o + n > fill_size) n = fill_size - o;
        if (o >= limit) break;
        if (!f(p, o, o + n > limit ? limit - o : n, id, bad)) return false;
    }
    size_t o = fill_size - 64;
    if (o < limit) return f(p, o, o + 64 > limit ? limit - o : 64, id, bad);
    return true;
}
static bool chunk_fill(u8 *p, size_t off, size_t n, u64 id, VF_UNUSED size_t *bad) {
    size_t o = off, e = off + n;
    for (; o + 8 <= e; o += 8) { u64 v = pat(id, o & ~7UL); memcpy(p + o, &v, 8); }
    for (; o < e; o++) p[o] = (u8)(pat(id, o & ~7UL) >> (8 * (o & 7)));
    return true;
}
static __thread u64 compared;
static bool chunk_check(u8 *p, size_t off, size_t n, u64 id, size_t *bad) {
    size_t o = off, e = off + n;
    compared += n;
    for (; o + 8 <= e; o += 8) { u64 v = pat(id, o & ~7UL), w; memcpy(&w, p + o, 8); if (v != w) { *bad = o; return false; } }
    for (; o < e; o++) if (p[o] != (u8)(pat(id, o & ~7UL) >> (8 * (o & 7)))) { *bad = o; return false; }
    return true;
}
// chunks start at multiples of 8 except the last one; keep it aligned so both writers agree
static size_t fill_size_of(const obj_t *o) { return o->usable > FULL_LIMIT ? o->usable & ~7UL : o->usable; }

static void fill(thr_t *t, obj_t *o) { size_t bad; o->id = t->next_id += 8191; for_chunks(o->p, fill_size_of(o), ~0UL, o->id, chunk_fill, &bad); }

static bool check_contents(VF_UNUSED thr_t *t, const obj_t *o, u8 *at, size_t limit, const char *prop, const char *when) {
    size_t bad = 0, f = fill_size_of(o);
    if (for_chunks(at, f, limit, o->id, chunk_check, &bad)) return true;
    viol(prop, "%s: contents changed at offset %zu of an allocation of %zu bytes (usable %zu) at %p", when, bad, o->req, o->usable, at);
    return false;
}

static void check_zero(thr_t *t, const u8 *p, size_t from, size_t to, size_t req, const char *prop, const char *what) {
    if (from >= to) return;
    size_t n = to - from;
    const u8 *b = p + from;
    size_t i = 0;
    if (n <= (1UL << 20)) {
        while (i < n && ((uintptr_t)(b + i) & 7)) { if (b[i]) goto bad; i++; }
        for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, b + i, 8); if (v) goto bad; }
        for (; i < n; i++) if (b[i]) goto bad;
        t->fresh_bytes += n;
        return;
    }
    for (i = 0; i + 8 <= n; i += (i < 8192 || n - i < 8200) ? 8 : 1032) { u64 v; memcpy(&v, b + i, 8); if (v) goto bad; t->fresh_bytes += 8; }
    return;
bad:
    viol(prop, "%s of %zu bytes at %p: byte at offset %zu is not zero", what, req, p, from + i);
}

// ---- registering ----
static void fault_check(thr_t *t, const u8 *a, const char *prop, const char *what, const obj_t *o) {
    t->probes++;
    if (probe_read(a) >= 0) viol(prop, "%s: %p is readable (allocation of %zu bytes, usable %zu, at %p)", what, a, o->req, o->usable, o->p);
    else if (probe_write((void *)(uintptr_t)a)) viol(prop, "%s: %p is writable", what, a);
}

static void register_obj(thr_t *t, obj_t *o, bool fresh) {
    uintptr_t a = (uintptr_t)o->p;
    if (o->cls != EXP_LARGE) {
        u64 bad = granule_set(a, o->usable, true);
        if (bad) viol("C01", "allocation of %zu bytes at %p overlaps a live one (%lu granules)", o->req, o->p, bad);
        for (uintptr_t pg = a >> 12; pg <= (a + (o->usable ? o->usable - 1 : 0)) >> 12; pg++) {
            u8 want = o->cls + 1, old = 0;
            if (!atomic_compare_exchange_strong(&page_class[pg], &old, want) && old != want)
                viol("C11", "page of %p was used for size class %u and is now used for size class %u", o->p, old - 1u, o->cls);
        }
        // objects handed over by another thread may come from another arena
        if (fresh && t->cls_lo[o->cls] > a) t->cls_lo[o->cls] = a;
        if (fresh && t->cls_hi[o->cls] < a) t->cls_hi[o->cls] = a;
        if (fresh && t->cls_hi[o->cls] - t->cls_lo[o->cls] >= CF_REGION)
            viol("C11", "allocations of size class %u in one thread are more than a size class region apart", o->cls);
        if (single && freed && fresh) {
            freed_t *f = freed_slot(a);
            if (f->a && f->seq) {
                t->reused++;
                u64 delay = class_frees[o->cls] - f->seq;
                u64 min = quarantine_len(o->cls, CF_QQ) + (CF_QR > 0);
                if ((CF_QR > 0 || CF_QQ > 0) && delay < min)
                    viol("C09", "address %p of size class %u reused after %lu further frees, quarantine guarantees %lu", o->p, o->cls, delay, min);
                f->seq = 0;
            }
        }
        spin_lock(&large_lock);
        if (a < slab_lo) slab_lo = a;
        if (a + o->usable > slab_hi) slab_hi = a + o->usable;
        spin_unlock(&large_lock);
        return;
    }
    uintptr_t e = a + o->usable;
    spin_lock(&large_lock);
    if (a < slab_hi && e > slab_lo) viol("C11", "large allocation at %p lies between small allocations", o->p);
    for (size_t i = 0; i < n_larges; i++)
        if (a < larges[i].e && e > larges[i].a) viol("C01", "large allocation of %zu bytes at %p overlaps a live one", o->req, o->p);
    if (n_larges == MAX_LARGE) vf_die("too many large objects");
    larges[n_larges++] = (range_t){a, e};
    spin_unlock(&large_lock);
    if (single) {
        u64 n = large_frees < lfreed_cap ? large_frees : lfreed_cap;
        for (size_t i = 0; i < n; i++)
            if (a < lfreed[i].e && e > lfreed[i].a)
                viol("C09", "large allocation at %p (%zu bytes) reuses address space %lx to %lx of one of the last %lu freed large allocations, freed %lu ago", o->p, o->usable, (u64)lfreed[i].a, (u64)lfreed[i].e, lfreed_cap, (large_frees - i - 1) % lfreed_cap);
    }
}
static void unregister_obj(obj_t *o) {
    uintptr_t a = (uintptr_t)o->p;
    if (o->cls != EXP_LARGE) {
        granule_set(a, o->usable, false);
        return;
    }
    spin_lock(&large_lock);
    for (size_t i = 0; i < n_larges; i++) if (larges[i].a == a) { larges[i] = larges[--n_larges]; break; }
    spin_unlock(&large_lock);
}
static void note_small_free(const obj_t *o) {
    if (!single || o->cls == EXP_LARGE) return;
    u64 s = ++class_frees[o->cls];
    if (freed_used > FREED_CAP * 3 / 4) return;
    freed_t *f = freed_slot((uintptr_t)o->p);
    if (!f->a) { f->a = (uintptr_t)o->p; freed_used++; }
    f->seq = s;
}

static void check_sizes(thr_t *t, obj_t *o, bool fresh) {
    if (o->usable < o->req) viol("C01", "usable size %zu of an allocation of %zu bytes", o->usable, o->req);
    size_t u = h_malloc_usable_size(o->p);
    if (u != o->usable) {
        if (fresh) {
            viol("C22", "usable size of an allocation of %zu bytes with alignment %u is %zu, expected %zu", o->req, o->align, u, o->usable);
            if (u < o->req) viol("C21", "malloc_usable_size %zu below the requested %zu", u, o->req);
            if (u < o->req) viol("C01", "malloc_usable_size %zu below the requested %zu", u, o->req);
            // go on with what the allocator says when that is smaller, so patterns stay inside
            if (u < o->usable) o->usable = u;
        } else viol("C21", "malloc_usable_size changed from %zu to %zu", o->usable, u);
    }
    (void)t;
}
static void check_object_size(thr_t *t, obj_t *o) {
    t->count[K_OBJSIZE]++;
    size_t off = o->usable ? rndn(&t->r, o->usable) : 0;
    if (rndn(&t->r, 3) == 0) off = 0;
    if (rndn(&t->r, 3) == 0 && o->usable) off = o->usable - 1;
    size_t got = h_malloc_object_size(o->p + off), fast = h_malloc_object_size_fast(o->p + off), left = o->usable - off;
    if (o->cls == EXP_LARGE ? (off == 0 ? got != o->usable : got < left) : got != left)
        viol("C21", "malloc_object_size %zu at offset %zu of a %s allocation with usable size %zu", got, off, o->cls == EXP_LARGE ? "large" : "small", o->usable);
    if (fast < left) viol("C21", "malloc_object_size_fast %zu at offset %zu of an allocation with usable size %zu", fast, off, o->usable);
}

static void after_alloc(thr_t *t, obj_t *o, unsigned kind, bool zero_expected) {
    uintptr_t a = (uintptr_t)o->p;
    if (a & 15 || (o->align && a & (o->align - 1))) viol("C01", "allocation of %zu bytes with alignment %u at %p is misaligned", o->req, o->align, o->p);
    struct exp e = expect_size(o->req, o->align ? o->align : 16);
    o->cls = e.cls;
    o->usable = e.usable;
    check_sizes(t, o, true);
    register_obj(t, o, true);
    if (o->usable == 0) {
        fault_check(t, o->p, "C10", "zero size allocation", o);
        if (rndn(&t->r, 4) == 0) fault_check(t, o->p + 15, "C10", "zero size allocation", o);
    } else {
        if (zero_expected) check_zero(t, o->p, 0, CF_ZERO || e.cls == EXP_LARGE ? o->usable : o->req, o->req, "C03", kind == K_CALLOC ? "calloc" : "fresh memory");
        if (o->cls == EXP_LARGE) {
            fault_check(t, o->p - 1, "C10", "page before a large allocation", o);
            fault_check(t, o->p - PGSZ, "C10", "page before a large allocation", o);
            u8 *e1 = (u8 *)(((uintptr_t)o->p + o->usable + PGSZ - 1) & -PGSZ);
            fault_check(t, e1, "C10", "page after a large allocation", o);
            fault_check(t, e1 + PGSZ - 1, "C10", "page after a large allocation", o);
        }
        fill(t, o);
        if (CANARY && o->cls != EXP_LARGE && o->p[o->usable] != 0) viol("C07", "first byte of the canary of %p is not zero", o->p);
    }
    if (rndn(&t->r, 4) == 0) check_object_size(t, o);
}

static const u32 aligns[] = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536, 1 << 20, 1 << 21, 1 << 22};

static size_t pick_size(thr_t *t) {
    rng_t *r = &t->r;
    size_t c, d;
    u64 x = rndn(r, 100);
    switch (profile[0]) {
    case 's': // small
        if (x < 10) return rndn(r, 17);
        if (x < 50) { c = class_size(1 + rndn(r, 20)); d = rndn(r, 18); return c > d ? c - d : 0; }
        if (x < 60) return rndn(r, 2048);
        if (x < 62) return 0;
        return rndn(r, 256);
    case 'l': // large
        if (x < 60) return 131073 - 8 + rndn(r, 400000);
        if (x < 80) { size_t b = 1UL << rndr(r, 17, 22); return b + rndn(r, 5) - 2 + (rndn(r, 2) ? rndn(r, b) & -4096UL : 0); }
        if (x < 90) return rndr(r, 1, 4096) * 4096 + rndn(r, 3) - 1;
        if (x < 93) return huge_size(r);
        return rndn(r, 140000);
    case 'c': // churn of a few classes
        if (x < 70) { static const u16 s[] = {8, 24, 40, 120, 1000, 4000}; return s[rndn(r, 6)]; }
        return 16384 + rndn(r, 120000);
    case '1': { // one size class, chosen by the seed
        c = 1 + seed % N_DOC;
        size_t lo = class_size(c - 1) + 1, hi = class_size(c) - CANARY;
        if (lo > CANARY) lo -= CANARY;
        return rndr(r, lo < hi ? lo : hi, hi);
    }
    default: // mixed: all classes and their borders
        if (x < 3) return 0;
        if (x < 45) { c = class_size(1 + rndn(r, N_DOC)); d = rndn(r, 20); return c + 2 > d ? c + 2 - d : 0; }
        if (x < 75) return rndn(r, 600);
        if (x < 90) return rndn(r, 20000);
        if (x < 96) return rndn(r, 140000);
        if (x < 99) { size_t b = 1UL << rndr(r, 12, 20); return b + rndn(r, 20) - 10; }
        return rndn(r, 3000000);
    }
}

static void do_alloc(thr_t *t) {
    rng_t *r = &t->r;
    obj_t o = {0};
    unsigned kind;
    u64 x = rndn(r, 100);
    o.req = pick_size(t);
    bool many_aligned = profile[1] == 'a';
    if (x < (many_aligned ? 15 : 55)) kind = K_MALLOC;
    else if (x < (many_aligned ? 25 : 75)) kind = K_CALLOC;
    else if (x < (many_aligned ? 30 : 85)) kind = K_REALLOC_NULL;
    else kind = K_ALIGNED_ALLOC + rndn(r, 5);
    if (kind == K_ALIGNED_ALLOC || kind == K_MEMALIGN || kind == K_POSIX_MEMALIGN) {
        o.align = aligns[rndn(r, rndn(r, 2) ? 13 : sizeof(aligns) / sizeof(aligns[0]))];
        if (!CF_LARGE && o.align > PGSZ && o.req == 0) o.req = 1;
    }
    if (t->bytes + o.req + o.align > t->max_bytes) { o.req = rndn(r, 300); if (o.align > PGSZ) o.align = PGSZ; }
    vf_section_set("kind %u size %zu align %u", kind, o.req, o.align);
    switch (kind) {
    case K_MALLOC: o.p = h_malloc(o.req); break;
    case K_CALLOC: {
        size_t m = 1;
        if (o.req && rndn(r, 2)) { static const u8 f[] = {2, 3, 4, 5, 8, 16, 24}; m = rndn(r, 3) ? f[rndn(r, 7)] : 1 + rndn(r, o.req < 5000 ? o.req : 5000); o.req = (o.req + m - 1) / m * m; }
        if (o.req == 0 && rndn(r, 2)) { o.p = h_calloc(rndn(r, 2) ? 0 : ~0UL, 0); break; }
        o.p = rndn(r, 2) ? h_calloc(o.req / m, m) : h_calloc(m, o.req / m);
        break;
    }
    case K_REALLOC_NULL: o.p = h_realloc(NULL, o.req); break;
    case K_ALIGNED_ALLOC: o.p = h_aligned_alloc(o.align, o.req); break;
    case K_MEMALIGN: o.p = h_memalign(o.align, o.req); break;
    case K_POSIX_MEMALIGN: {
        void *p = (void *)0x1234;
        int ret = h_posix_memalign(&p, o.align, o.req);
        if (o.align < sizeof(void *)) {
            if (ret != EINVAL) viol("C01", "posix_memalign with alignment %u returned %d", o.align, ret);
            if (p != (void *)0x1234) viol("C01", "failed posix_memalign changed the pointer");
            if (ret) return;
        }
        o.p = ret ? NULL : p;
        break;
    }
    case K_VALLOC: o.p = h_valloc(o.req); o.align = PGSZ; break;
    case K_PVALLOC: if (!o.req) o.req = 1; o.p = h_pvalloc(o.req); o.align = PGSZ; o.req = (o.req + PGSZ - 1) & -PGSZ; break;
    }
    t->count[kind]++;
    if (!o.p) {
        t->failed++;
        viol("C01", "allocation of %zu bytes with alignment %u failed (errno %d) although memory is available", o.req, o.align, errno);
        return;
    }
    after_alloc(t, &o, kind, CF_ZERO || kind == K_CALLOC || expect_size(o.req, o.align ? o.align : 16).cls == EXP_LARGE);
    cover(kind, o.cls, o.align ? __builtin_ctz(o.align) : 0);
    t->bytes += o.usable;
    t->objs[t->n++] = o;
}

static void after_free(thr_t *t, const obj_t *o) {
    // only meaningful when nothing else can reuse the memory
    if (!single) return;
    if (o->cls == EXP_LARGE) {
        fault_check(t, o->p, "C04", "freed large allocation", o);
        fault_check(t, o->p + o->usable - 1, "C04", "freed large allocation", o);
        for (int i = 0; i < 3; i++) fault_check(t, o->p + rndn(&t->r, o->usable), "C04", "freed large allocation", o);
    } else if (o->usable && CF_ZERO) {
        size_t un = 0, at = probe_nonzero(o->p, o->usable, &un);
        t->scrubbed_bytes += o->usable - un;
        if (at < o->usable) viol("C04", "byte at offset %zu of a freed allocation of %zu bytes (usable %zu) is still readable", at, o->req, o->usable);
    }
}

static void do_free_obj(thr_t *t, obj_t *o) {
    rng_t *r = &t->r;
    check_contents(t, o, o->p, ~0UL, "C01", "before free");
    if (rndn(r, 8) == 0) check_sizes(t, o, false);
    unregister_obj(o);
    t->bytes -= o->usable;
    unsigned kind = K_FREE;
    u64 x = rndn(r, 10);
    if (x == 0) kind = K_CFREE;
    else if (x < 4 && (o->align == 0 || o->align <= 16)) kind = K_FREE_SIZED;
    vf_section_set("free kind %u size %zu usable %zu", kind, o->req, o->usable);
    note_small_free(o);
    errno = 4321;
    obj_t copy = *o;
    if (kind == K_FREE) h_free(o->p);
    else if (kind == K_CFREE) h_cfree(o->p);
    else h_free_sized(o->p, o->req);
    if (errno != 4321) viol("C28", "free kind %u of an allocation of %zu bytes changed errno to %d", kind, copy.req, errno);
    t->count[kind]++;
    cover(kind, copy.cls, 0);
    if (copy.cls == EXP_LARGE) note_large_free((uintptr_t)copy.p, copy.usable);
    after_free(t, &copy);
}

static void do_realloc(thr_t *t, obj_t *o) {
    rng_t *r = &t->r;
    size_t ns;
    u64 x = rndn(r, 10);
    if (x < 4) ns = pick_size(t);
    else if (x < 6) ns = o->req + rndn(r, 40) - (o->req >= 20 ? 20 : 0);
    else if (x < 7) ns = o->usable;
    else if (x < 8) ns = o->req / 2;
    else if (x < 9) ns = o->usable + 1 + rndn(r, o->usable + 1);
    else ns = rndn(r, 4) ? o->req : 0;
    if (t->bytes + ns > t->max_bytes) ns = o->req / 2;
    if (ns == 0) t->count[K_REALLOC0]++;
    check_contents(t, o, o->p, ~0UL, "C01", "before realloc");
    struct exp e = expect_size(ns, 16);
    vf_section_set("realloc %zu (usable %zu, align %u) to %zu", o->req, o->usable, o->align, ns);
    obj_t old = *o;
    unregister_obj(o);
    u8 *np = h_realloc(o->p, ns);
    t->count[K_REALLOC]++;
    cover(K_REALLOC, old.cls, e.cls);
    if (!np) {
        t->failed++;
        viol("C02", "realloc from %zu to %zu bytes failed (errno %d) although memory is available", old.req, ns, errno);
        register_obj(t, o, false);
        return;
    }
    t->bytes -= old.usable;
    obj_t n = {.p = np, .req = ns, .align = 0};
    if ((uintptr_t)np & 15) viol("C01", "realloc returned the misaligned %p", np);
    size_t u = h_malloc_usable_size(np);
    if (u < ns) viol("C02", "realloc to %zu bytes returned usable size %zu", ns, u);
    n.cls = e.cls;
    n.usable = e.usable;
    if (np == old.p) {
        t->inplace++;
        if (u != e.usable) {
            if (u == old.usable && u >= ns) { n.usable = old.usable; n.cls = old.cls; }   // kept as it was
            else viol("C22", "realloc to %zu bytes in place has usable size %zu, expected %zu", ns, u, e.usable);
        } else if (old.cls == EXP_LARGE) n.cls = old.cls;
    } else {
        t->moved++;
        if (u != e.usable) viol("C22", "realloc to %zu bytes has usable size %zu, expected %zu", ns, u, e.usable);
    }
    if (n.usable > u) n.usable = u;
    // contents: everything that fits
    size_t keep = old.usable < n.usable ? old.usable : n.usable;
    // (bytes between the new requested and usable size may be kept or fresh)
    if (n.usable) check_contents(t, &old, np, np == old.p ? keep : old.usable < ns ? old.usable : ns, "C02", "after realloc");
    if (np != old.p) {
        if (n.usable && (CF_ZERO || n.cls == EXP_LARGE)) check_zero(t, np, keep, n.usable, ns, "C03", "memory added by realloc");
        note_small_free(&old);
        if (old.cls == EXP_LARGE) note_large_free((uintptr_t)old.p, old.usable);
        register_obj(t, &n, true);
        after_free(t, &old);
    } else {
        register_obj(t, &n, false);
        if (old.cls == EXP_LARGE && n.usable < old.usable && single) {
            // shrunk in place: the released tail is inaccessible
            fault_check(t, old.p + ((n.usable + PGSZ - 1) & -PGSZ), "C04", "tail released by realloc", &n);
            fault_check(t, old.p + old.usable - 1, "C04", "tail released by realloc", &n);
            // (the guard now begins where the tail did, and is unmapped at once with an object that skips the quarantine)
uintptr_t tail = n.usable < CF_RQSKIP ? (uintptr_t)old.p + ((n.usable + PGSZ - 1) & -PGSZ) : 0;
            if (tail) note_large_free(tail, old.usable - n.usable);
            else if (old.usable - n.usable < CF_RQSKIP && lfreed_cap) lfreed[large_frees++ % lfreed_cap] = (lfreed_t){0, 0};
        }
    }
    if (n.usable == 0) fault_check(t, np, "C10", "zero size allocation from realloc", &n);
    if (n.cls == EXP_LARGE) {
        fault_check(t, np - 1, "C10", "page before a large allocation after realloc", &n);
        fault_check(t, (u8 *)(((uintptr_t)np + n.usable + PGSZ - 1) & -PGSZ), "C10", "page after a large allocation after realloc", &n);
    }
    if (n.usable) fill(t, &n);
    if (CANARY && n.usable && n.cls != EXP_LARGE && n.p[n.usable] != 0) viol("C07", "first byte of the canary of %p is not zero", n.p);
    t->bytes += n.usable;
    *o = n;
}

// hand-over between threads
#define N_XCHG 512
static struct { spin_t l; obj_t o; } *xchg;

static void foreign_sizes(thr_t *t) {
    // memory the allocator does not manage
    static char global[64];
    char local[64];
    const void *q[] = {local, global, (void *)xchg, (void *)(uintptr_t)foreign_sizes, (void *)16, (void *)~15UL, (char *)t};
    for (unsigned i = 0; i < sizeof(q) / sizeof(q[0]); i++) {
        if (h_malloc_object_size(q[i]) != SIZE_MAX) viol("C21", "malloc_object_size of unmanaged memory %p is not SIZE_MAX", q[i]);
        if (h_malloc_object_size_fast(q[i]) != SIZE_MAX) viol("C21", "malloc_object_size_fast of unmanaged memory %p is not SIZE_MAX", q[i]);
    }
    if (h_malloc_usable_size(NULL) || h_malloc_object_size(NULL) || h_malloc_object_size_fast(NULL)) viol("C21", "size of NULL is not 0");
    h_free(NULL);
    h_free_sized(NULL, rndn(&t->r, 100));
}

static void *worker(void *arg) {
    thr_t *t = arg;
    rng_t *r = &t->r;
    u64 ops = total_ops / n_threads;
    size_t target = t->cap / 2;
    for (u64 i = 0; i < ops; i++) {
        if (vf_nviol > 15) break;
        if (i % 4096 == 0) {
            // the target changes so slabs fill, empty and are purged
            size_t m = t->cap - 8;
            u64 x = rndn(r, 6);
            target = x == 0 ? 4 : x == 1 ? m : rndn(r, m);
        }
        u64 x = rndn(r, 1000);
        bool grow = t->n < target ? x < 600 : x < 250;
        if ((grow && t->n < t->cap - 1) || t->n == 0) {
            do_alloc(t);
        } else if (x < 780) {
            size_t k = rndn(r, t->n);
            obj_t o = t->objs[k];
            t->objs[k] = t->objs[--t->n];
            do_free_obj(t, &o);
        } else if (x < 930) {
            do_realloc(t, &t->objs[rndn(r, t->n)]);
        } else if (x < 960) {
            t->count[K_VERIFY]++;
            check_contents(t, &t->objs[rndn(r, t->n)], t->objs[0].p, 0, "C01", "-");
            obj_t *o = &t->objs[rndn(r, t->n)];
            check_contents(t, o, o->p, ~0UL, "C01", "live");
        } else if (x < 985) {
            t->count[K_USABLE]++;
            obj_t *o = &t->objs[rndn(r, t->n)];
            check_sizes(t, o, false);
            check_object_size(t, o);
        } else if (x < 997 && !single) {
            unsigned k = rndn(r, N_XCHG);
            size_t j = rndn(r, t->n);
            spin_lock(&xchg[k].l);
            obj_t tmp = xchg[k].o;
            xchg[k].o = t->objs[j];
            spin_unlock(&xchg[k].l);
            t->bytes -= t->objs[j].usable;
            if (tmp.p) { t->handed++; t->bytes += tmp.usable; t->objs[j] = tmp; check_contents(t, &tmp, tmp.p, ~0UL, "C01", "handed over"); }
            else t->objs[j] = t->objs[--t->n];
        } else if (x == 998) {
            foreign_sizes(t);
        } else if (rndn(r, 8) == 0) {
            t->count[K_TRIM]++;
            vf_section_set("trim");
            h_malloc_trim(rndn(r, 2) ? 0 : 4096);
            h_malloc_stats();
            (void)h_mallopt(-8, 1);
        }
    }
    t->checked_bytes += compared;
    return NULL;
}

int main(void) {
    seed = env_u64("VF_SEED", 1);
    n_threads = env_u64("VF_THREADS", 1);
    total_ops = env_u64("VF_OPS", 200000);
    profile = getenv("VF_PROFILE");
    if (!profile) profile = "mixed";
    size_t cap = env_u64("VF_CAP", 2048);
    size_t max_bytes = env_u64("VF_MAXBYTES", 512UL << 20);
    single = n_threads == 1;
    vf_install_segv();
    granules = vf_map(ADDR_LIMIT / 16 / 8);
    page_class = vf_map(ADDR_LIMIT / 4096);
    larges = vf_map(sizeof(range_t) * MAX_LARGE);
    xchg = vf_map(sizeof(*xchg) * N_XCHG);
    if (single) {
        freed = vf_map(sizeof(freed_t) * FREED_CAP);
        lfreed_cap = (CF_RQR || CF_RQQ) ? CF_RQQ + (CF_RQR > 0) : 0;
        lfreed = vf_map(sizeof(lfreed_t) * (lfreed_cap + 1));
    }
    thr_t *ts = vf_map(sizeof(thr_t) * n_threads);
    pthread_t *th = vf_map(sizeof(pthread_t) * n_threads);
    for (unsigned i = 0; i < n_threads; i++) {
        thr_t *t = &ts[i];
        t->tid = i;
        t->r.s = seed * 1000003 + i * 7919;
        t->cap = cap / n_threads < 64 ? 64 : cap / n_threads;
        t->objs = vf_map(sizeof(obj_t) * t->cap);
        t->max_bytes = max_bytes / n_threads;
        t->next_id = (seed << 40) + ((u64)i << 32);
        memset(t->cls_lo, 0xff, sizeof(t->cls_lo));
    }
    if (single) worker(&ts[0]);
    else {
        for (unsigned i = 0; i < n_threads; i++) if (pthread_create(&th[i], NULL, worker, &ts[i])) vf_die("pthread_create");
        for (unsigned i = 0; i < n_threads; i++) pthread_join(th[i], NULL);
    }
    // everything is still intact and can be freed by another thread
    for (unsigned i = 0; i < n_threads; i++) {
        for (size_t k = 0; k < ts[i].n; k++) do_free_obj(&ts[0], &ts[i].objs[k]);
        ts[i].n = 0;
    }
    for (unsigned k = 0; k < N_XCHG; k++) if (xchg[k].o.p) do_free_obj(&ts[0], &xchg[k].o);
    h_malloc_trim(0);
    // size class regions of one thread don't overlap each other, those of several are the same or disjoint
    for (unsigned i = 0; i < n_threads; i++)
        for (unsigned a = 0; a < 64; a++) {
            if (!ts[i].cls_hi[a]) continue;
            for (unsigned j = 0; j < n_threads; j++)
                for (unsigned b = 0; b < 64; b++) {
                    if (!ts[j].cls_hi[b] || (i == j && a == b) || a == b) continue;
                    if (ts[i].cls_lo[a] <= ts[j].cls_hi[b] && ts[j].cls_lo[b] <= ts[i].cls_hi[a])
                        viol("C11", "size classes %u and %u use interleaved address ranges", a, b);
                }
        }
    static const char *names[] = {"malloc", "calloc", "realloc_null", "aligned_alloc", "memalign", "posix_memalign", "valloc", "pvalloc",
        "free", "cfree", "free_sized", "realloc", "usable_size", "object_size", "trim", "verify", "realloc_zero"};
    u64 ops = 0;
    for (unsigned k = 0; k < N_KINDS; k++) {
        u64 c = 0;
        for (unsigned i = 0; i < n_threads; i++) c += ts[i].count[k];
        char nm[64];
        vf_fmt(nm, sizeof nm, "op.%s", names[k]);
        vstat(nm, c);
        if (k != K_REALLOC0) ops += c;
    }
    u64 s[9] = {0};
    for (unsigned i = 0; i < n_threads; i++) {
        thr_t *t = &ts[i];
        s[0] += t->checked_bytes; s[1] += t->fresh_bytes; s[2] += t->scrubbed_bytes; s[3] += t->probes;
        s[4] += t->moved; s[5] += t->inplace; s[6] += t->reused; s[7] += t->handed; s[8] += t->failed;
    }
    vstat("evals", ops);
    for (unsigned i = 0; i < 4096; i++) if (distinct_bits[i]) vcov("m", i, distinct_bits[i]);
    vstat("content_bytes_compared", s[0]);
    vstat("fresh_bytes_checked", s[1]);
    vstat("scrubbed_bytes_checked", s[2]);
    vstat("fault_probes", s[3]);
    vstat("realloc_moved", s[4]);
    vstat("realloc_in_place", s[5]);
    vstat("small_addresses_reused", s[6]);
    vstat("objects_handed_over", s[7]);
    vsample("seed %lu threads %u profile %s: %lu operations, last: %s", seed, n_threads, profile, ops, vf_section);
    vf_finish();
}
