// C29 and, with HAS_ARM_MTE, C27: the allocator built as for Android from its sources, with the memory
// tagging of the architecture emulated: tags per 16 bytes of pages mapped with PROT_MTE, a hostile
// choice of random tags, and a check of every access of the allocator's code (compiled with callbacks
// on loads and stores) against the tags of the memory.
#include "interpose.h"
#include <malloc.h>
#ifdef HAS_ARM_MTE
#define MTE 1
#else
#define MTE 0
#endif
#define NCLS (N_DOC + 1)
#define TAGOF(p) ((unsigned)((uintptr_t)(p) >> 56))
#define UNTAG(p) ((u8 *)((uintptr_t)(p) & (UINTPTR_MAX >> 8)))

// ---- bionic ----
static atomic_int sigabrt_restored;
int mallopt(VF_UNUSED int param, VF_UNUSED int value) { sigabrt_restored++; return 1; }   // libc's, used before aborting
void async_safe_fatal(const char *fmt, ...) {
    char b[300];
    va_list ap; va_start(ap, fmt); vf_vfmt(b, sizeof b - 1, fmt, ap); va_end(ap);
    size_t n = strlen(b); b[n] = '\n';
    (void)!syscall(SYS_write, 2, b, n + 1);
    abort();
}

// ---- tag memory ----
#if MTE
static bool mte_on = true;        // the process takes tag check faults
static spin_t tag_lock;
#define LEAF (1UL << 30)
static struct leaf { u8 tag[LEAF / 16]; u8 page[LEAF / PGSZ]; } **leaves;   // page: 1 mapped with PROT_MTE, 2 without
static struct { uintptr_t a, e; } mte_map[64];
static unsigned n_mte_map;
static u64 n_checked, n_tagged, n_tag_stores, n_untagged_maps, n_hostile, n_forced;
static struct leaf *leaf(uintptr_t a, bool make) {
    if (a >> 47) return NULL;
    if (!leaves) leaves = vf_map(sizeof(void *) << 17);
    struct leaf **l = &leaves[a >> 30];
    if (!*l && make) { spin_lock(&tag_lock); if (!*l) *l = vf_map(sizeof **l); spin_unlock(&tag_lock); }
    return *l;
}
static bool is_mte(uintptr_t a) {
    struct leaf *l = leaf(a, false);
    u8 f = l ? l->page[(a % LEAF) / PGSZ] : 0;
    if (f) return f == 1;
    for (unsigned i = 0; i < n_mte_map; i++) if (a >= mte_map[i].a && a < mte_map[i].e) return true;
    return false;
}
static unsigned tag_at(uintptr_t a) { struct leaf *l = leaf(a, false); return l ? l->tag[(a % LEAF) / 16] : 0; }
// a new mapping (or none) at this range
static void tags_mapped(uintptr_t a, size_t n, int prot, bool fresh) {
    bool m = prot & PROT_MTE;
    if (m && fresh) { if (n_mte_map == 64) vf_die("too many tagged mappings"); mte_map[n_mte_map].a = a; mte_map[n_mte_map++].e = a + n; }
    uintptr_t e = a + RND_UP(n);
    while (a < e) {
        uintptr_t x = (a | (LEAF - 1)) + 1;
        if (x > e) x = e;
        struct leaf *l = leaf(a, !fresh);
        if (l) {
            memset(&l->tag[(a % LEAF) / 16], 0, (x - a) / 16);
            memset(&l->page[(a % LEAF) / PGSZ], m ? 1 : 2, (x - a) / PGSZ);
        }
        a = x;
    }
}
static void tags_purged(uintptr_t a, size_t n) {
    for (uintptr_t e = a + RND_UP(n); a < e; a += PGSZ) { struct leaf *l = leaf(a, false); if (l) memset(&l->tag[(a % LEAF) / 16], 0, PGSZ / 16); }
}
static void check_access(uintptr_t p, size_t n, const char *what) {
    if (!mte_on || !n) return;
    unsigned t = p >> 56;
    uintptr_t a = p & (UINTPTR_MAX >> 8);
    __atomic_fetch_add(&n_checked, 1, __ATOMIC_RELAXED);
    if (!t && (a >> 47 || !leaves || !leaves[a >> 30])) return;
    if (t > 15) { viol("C27", "%s through pointer %lx", what, p); return; }
    if (t) __atomic_fetch_add(&n_tagged, 1, __ATOMIC_RELAXED);
    for (uintptr_t g = a & -16UL; g < a + n; g += 16)
        if (is_mte(g) && tag_at(g) != t) { viol("C27", "%s of %zu bytes by the allocator through a pointer with tag %u to memory with tag %u: address %lx", what, n, t, tag_at(g), g); return; }
}
void *emu_memcpy(void *d, const void *s, size_t n) {
    check_access((uintptr_t)d, n, "store"); check_access((uintptr_t)s, n, "load");
    return memcpy(UNTAG(d), UNTAG(s), n);
}
void *emu_memmove(void *d, const void *s, size_t n) {
    check_access((uintptr_t)d, n, "store"); check_access((uintptr_t)s, n, "load");
    return memmove(UNTAG(d), UNTAG(s), n);
}
void *emu_memset(void *d, int c, size_t n) { check_access((uintptr_t)d, n, "store"); return memset(UNTAG(d), c, n); }
void emu_tag_and_clear(void *p, size_t n) {
    uintptr_t a = (uintptr_t)UNTAG(p);
    unsigned t = TAGOF(p);
    if ((a | n) & 15 || t > 15) viol("C27", "tagging %lx, %zu bytes, tag %u", a, n, t);
    n_tag_stores++;
    if (!mte_on) viol("C27", "memory is tagged after tagging was disabled");
    for (uintptr_t g = a; g < a + n; g += 16) {
        ((volatile u64 *)g)[0] = 0; ((volatile u64 *)g)[1] = 0;
        if (is_mte(g)) leaf(g, true)->tag[(g % LEAF) / 16] = t; else n_untagged_maps++;
    }
}
// loads and stores of the allocator's code
#define CB(n) \
void __asan_load##n##_noabort(uintptr_t p) { check_access(p, n, "load"); } \
void __asan_store##n##_noabort(uintptr_t p) { check_access(p, n, "store"); }
CB(1) CB(2) CB(4) CB(8) CB(16)
void __asan_loadN_noabort(uintptr_t p, size_t n) { check_access(p, n, "load"); }
void __asan_storeN_noabort(uintptr_t p, size_t n) { check_access(p, n, "store"); }
void __asan_handle_no_return(void) {}
#endif
static struct { uintptr_t a, e; } slabs_at;   // the reservation for slabs: the largest mapping

// ---- slabs made accessible ----
#define MAXRW 200000
static struct { uintptr_t a, e; } *rw;
static size_t n_rw;
static spin_t rw_lock;
static bool rw_odd;
static u64 n_recycled;
static size_t rw_index(uintptr_t a) { size_t l = 0, r = n_rw; while (l < r) { size_t m = (l + r) / 2; if (rw[m].e > a) r = m; else l = m + 1; } return l; }
static void on_event(int kind, uintptr_t a, size_t n, int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if (kind == C_MMAP && n > slabs_at.e - slabs_at.a && n > (1UL << 30)) { slabs_at.a = a; slabs_at.e = a + n; n_rw = 0; }
#if MTE
    if (kind == C_MMAP) tags_mapped(a, n, prot, true);
    if (kind == C_MMAP_FIXED) tags_mapped(a, n, prot, false);
    if (kind == C_MADVISE) tags_purged(a, n);
    if (kind == C_MUNMAP) tags_mapped(a, n, 0, false);
    if (kind == C_MREMAP) { tags_mapped(a, n, 0, false); tags_mapped(b, m, 0, false); }
#endif
    if (!(a >= slabs_at.a && a < slabs_at.e)) return;
    spin_lock(&rw_lock);
    size_t i = rw_index(a), j = i;
    if (kind == C_MPROTECT && (prot & PROT_WRITE)) {
        if (n_rw == MAXRW) vf_die("too many slabs");
        if (i < n_rw && rw[i].a < a + n) rw_odd = true;
        memmove(&rw[i + 1], &rw[i], (n_rw - i) * sizeof *rw);
        rw[i].a = a; rw[i].e = a + n; n_rw++;
    } else if (kind == C_MMAP_FIXED) {
        n_recycled++;
        while (j < n_rw && rw[j].a >= a && rw[j].e <= a + n) j++;
        if (j < n_rw && rw[j].a < a + n) rw_odd = true;
        memmove(&rw[i], &rw[j], (n_rw - j) * sizeof *rw);
        n_rw -= j - i;
    }
    spin_unlock(&rw_lock);
}

// ---- the last tag of every slot ever used ----
#define SLOTS (1UL << 22)
static struct slot { uintptr_t a; u16 cls; u8 tag, live; } *slot_tab;
static u64 n_slots;
static struct slot *slot(uintptr_t a, bool make) {
    size_t i = (a >> 4) * 0x9e3779b97f4a7c15UL >> 42;
    while (slot_tab[i].a && slot_tab[i].a != a) i = (i + 1) & (SLOTS - 1);
    if (slot_tab[i].a) return &slot_tab[i];
    if (!make) return NULL;
    if (++n_slots > SLOTS / 2) vf_die("too many slots");
    slot_tab[i].a = a;
    return &slot_tab[i];
}
static unsigned cls_now;     // size class of the allocation being made, 0: not known
static __thread rng_t TR;
static u64 n_stepped;     // instructions executed one by one
static unsigned hostility;   // share of hostile choices of tags, in percent
#if MTE
void *emu_random_tag(void *p, u64 mask) {
    uintptr_t a = (uintptr_t)UNTAG(p);
    unsigned t = 16;
    if ((mask & 0xffff) == 0xffff) { n_forced++; t = 0; }   // as the instruction does
    else if (rndn(&TR, 100) < hostility) {
        // the tags that must not be taken, if the allocator allows them
        n_hostile++;
        struct slot *s = slot(a, false);
        unsigned c = s ? s->cls : cls_now;
        struct slot *l = c ? slot(a - class_size(c), false) : NULL, *r = c ? slot(a + class_size(c), false) : NULL;
        unsigned w[4] = {0, s ? s->tag : 0, l && l->cls == c ? l->tag : 0, r && r->cls == c ? r->tag : 0};
        unsigned k = rndn(&TR, 4);
        for (unsigned i = 0; i < 4 && t == 16; i++) if (!(mask >> w[(i + k) & 3] & 1)) t = w[(i + k) & 3];
        if (t == 16) for (unsigned i = 0; i < 16 && t == 16; i++) if (!(mask >> i & 1)) t = i;
    } else do t = rndn(&TR, 16); while (mask >> t & 1);
    return (void *)(a | (uintptr_t)t << 56);
}
#endif

// ---- objects ----
typedef struct { u8 *p; size_t n, u; u32 align; unsigned cls, arena; u64 seed; } obj_t;   // p as returned, with its tag
#define NOBJ 3000
static obj_t *O;
static rng_t R;
static bool tagging = MTE;
static u64 n_alloc, n_free, n_neigh, n_prev, n_large, n_zero, n_size_q, n_byte;
static u64 cov[2][64];
static struct { u64 m, d; } mod[CF_ARENAS + 1][50];
static u64 large_bytes;
static unsigned my_arena;
static bool arena_known;
static void check_info(const char *when);
static u8 pat(u64 s, size_t i) { return (u8)(s + i * 7) | 1; }
static void fill(obj_t *o) { u8 *p = UNTAG(o->p); size_t st = o->u > 8192 ? 509 : 1; for (size_t i = 0; i < o->u; i += st) p[i] = pat(o->seed, i); if (o->u) p[o->u - 1] = pat(o->seed, o->u - 1); }
static void check(const obj_t *o, size_t n, const char *when, const u8 *at) {
    const u8 *p = UNTAG(at);
    size_t st = o->u > 8192 ? 509 : 1;
    for (size_t i = 0; i < n; i += st) if (p[i] != pat(o->seed, i)) { viol(MTE ? "C27" : "C29", "byte %zu of %zu of %p changed %s", i, n, at, when); return; }
    n_byte += n / st;
}
static void check_tags(uintptr_t a, size_t n, unsigned t, const char *what) {
#if MTE
    for (uintptr_t g = a; g < a + n; g += 16) {
        if (!is_mte(g)) { viol("C27", "%s: memory at %lx can't have tags, the mapping isn't PROT_MTE", what, g); return; }
        if (tag_at(g) != t) { viol("C27", "%s: memory at %lx (offset %zu) has tag %u instead of %u", what, g, g - a, tag_at(g), t); return; }
    }
#endif
}
static unsigned tag_before(uintptr_t a) {
#if MTE
    return tag_at(a);
#else
    return 0;
#endif
}
static void made(obj_t *o, const char *how, size_t from) {
    n_alloc++;
    struct exp e = expect_size(o->n, o->align);
    o->cls = e.cls; o->u = e.usable;
    uintptr_t a = (uintptr_t)UNTAG(o->p);
    unsigned t = TAGOF(o->p);
    cov[0][o->cls == EXP_LARGE ? 50 : o->cls] |= 1UL << (o->align > 16 ? 32 : 0) << t;
    if (o->align && a % o->align) viol("C27", "%s: %p isn't aligned to %u", how, o->p, o->align);
    if (o->cls == EXP_LARGE || o->cls == 0) {
        if (t) viol("C27", "%s(%zu) returns a pointer with tag %u", how, o->n, t);
        if (o->cls) { n_large++; large_bytes += o->u; } else n_zero++;
    } else {
        size_t z = class_size(o->cls);
        struct slot *s = slot(a, true), *l = slot(a - z, false), *r = slot(a + z, false);
        bool mine = s->cls == o->cls;
        if (tagging) {
            if (!t) viol("C27", "%s(%zu) returns %p without a tag", how, o->n, o->p);
            if (mine) { n_prev++; if (s->tag && s->tag == t) viol("C27", "%s: the tag %u of %p is the one the slot had before", how, t, o->p); }
            if (l && l->cls == o->cls) { n_neigh++; if (l->tag == t) viol("C27", "%s: the tag %u of %p is that of the slot before (%s)", how, t, o->p, l->live ? "live" : "freed"); }
            if (r && r->cls == o->cls) { n_neigh++; if (r->tag == t) viol("C27", "%s: the tag %u of %p is that of the slot after (%s)", how, t, o->p, r->live ? "live" : "freed"); }
            check_tags(a, z, t, how);
        } else if (t) viol("C27", "%s(%zu) returns %p, tagging is disabled", how, o->n, o->p);
        s->cls = o->cls; s->live = 1;
        if (tagging) s->tag = t;
    }
    size_t st = o->u > (1 << 20) ? 61 : 1;
    for (size_t i = from; i < o->u; i += st) if (UNTAG(o->p)[i]) { viol(MTE ? "C27" : "C29", "%s: byte %zu of %zu of new memory isn't zero", how, i, o->n); break; }
    o->arena = my_arena;
    if (o->cls != EXP_LARGE) mod[my_arena][o->cls].m++;
    o->seed = rnd(&R);
}
static size_t pick_size(void) {
    unsigned k = rndn(&R, 100);
    if (k < 4) return 0;
    if (k < 10) return rndr(&R, MAXSMALL - 20, MAXSMALL + 300000);
    if (k < 11 && !rndn(&R, 8)) return rndr(&R, 30, 40) << 20;
    if (k < 60) { unsigned i = rndr(&R, 1, k < 35 ? 12 : N_DOC); return class_size(i) - CANARY - rndn(&R, 5); }
    return rndn(&R, k < 85 ? 1000 : 40000);
}
static void alloc_one(obj_t *o) {
    void *p = NULL;
    o->n = pick_size(); o->align = 16;
    cls_now = 0;
    const char *how;
    switch (rndn(&R, 7)) {
    case 0: how = "calloc"; { size_t m = o->n % 5 == 0 ? 5 : 1; struct exp e = expect_size(o->n, 16); cls_now = e.cls < 50 ? e.cls : 0; p = h_calloc(m, o->n / m); } break;
    case 1: how = "aligned_alloc"; o->align = 1U << rndr(&R, 0, 14); if (!o->n) o->n = 1; { struct exp e = expect_size(o->n, o->align); cls_now = e.cls < 50 ? e.cls : 0; } p = h_aligned_alloc(o->align, o->n); break;
    case 2: how = "posix_memalign"; o->align = 1U << rndr(&R, 3, 16); if (!o->n) o->n = 1; { struct exp e = expect_size(o->n, o->align); cls_now = e.cls < 50 ? e.cls : 0; } if (h_posix_memalign(&p, o->align, o->n)) p = NULL; break;
    case 3: how = "realloc"; { struct exp e = expect_size(o->n, 16); cls_now = e.cls < 50 ? e.cls : 0; } p = h_realloc(NULL, o->n); break;
    case 4: how = "memalign"; o->align = 1U << rndr(&R, 3, 12); if (!o->n) o->n = 1; { struct exp e = expect_size(o->n, o->align); cls_now = e.cls < 50 ? e.cls : 0; } p = h_memalign(o->align, o->n); break;
    default: how = "malloc"; { struct exp e = expect_size(o->n, 16); cls_now = e.cls < 50 ? e.cls : 0; } p = h_malloc(o->n); break;
    }
    o->p = p;
    if (!p) { viol(MTE ? "C27" : "C29", "%s(%zu) fails", how, o->n); return; }
    made(o, how, 0);
    fill(o);
    if (o->u && h_malloc_usable_size(o->p) != o->u) viol("C27", "usable size of %p is %zu instead of %zu", o->p, h_malloc_usable_size(o->p), o->u);
}
// the slot was released: at once without its tag and its contents
static void gone(const obj_t *o, const char *how) {
    n_free++;
    if (o->cls == EXP_LARGE) { large_bytes -= o->u; return; }
    mod[o->arena][o->cls].d++;
    if (!o->cls) return;
    uintptr_t a = (uintptr_t)UNTAG(o->p);
    size_t z = class_size(o->cls);
    struct slot *s = slot(a, false);
    s->live = 0;
    size_t un, i = probe_nonzero((void *)a, z - CANARY, &un);
    if (i < z - CANARY) viol(MTE ? "C27" : "C29", "%s: byte %zu of the freed memory is still there", how, i);
    if (un) return;   // released
    if (tagging) check_tags(a, z, 0, how);
}
static void free_one(obj_t *o) {
    check(o, o->u, "before free", o->p);
    unsigned k = rndn(&R, 4);
    uintptr_t a = (uintptr_t)UNTAG(o->p);
    // the memory around must keep its tags
    unsigned before = 0, after = 0;
    bool small = o->cls && o->cls != EXP_LARGE;
    if (small) { before = tag_before(a - 16); after = tag_before(a + class_size(o->cls)); }
    if (k == 0) h_free_sized(o->p, small && o->align > 16 ? o->u : o->n);
    else if (k == 1) h_free_aligned_sized(o->p, o->align, o->n);
    else if (k == 2 && (small || o->u > MAXSMALL)) { if (h_realloc(o->p, o->u) != o->p) viol("C27", "realloc of %p to its usable size moves it", o->p); h_free(o->p); }
    else h_free(o->p);
    gone(o, "free");
    if (small && !rw_odd && (tag_before(a - 16) != before || tag_before(a + class_size(o->cls)) != after) && probe_read((void *)a) >= 0) viol("C27", "free of %p changed the tags around", o->p);
    o->p = NULL;
}
static void realloc_one(obj_t *o) {
    obj_t n = *o;
    n.n = pick_size(); n.align = 16;
    struct exp e = expect_size(n.n, 16);
    // a large object with a size for slabs
    cls_now = e.cls < 50 ? e.cls : 0;
    check(o, o->u, "before realloc", o->p);
    n.p = h_realloc(o->p, n.n);
    if (!n.p) { viol(MTE ? "C27" : "C29", "realloc(%zu) fails", n.n); return; }
    if (n.p == o->p) {     // kept
        if (o->cls == EXP_LARGE) { size_t u = h_malloc_usable_size(n.p); large_bytes += u - o->u; size_t keep = u < o->u ? u : o->u; check(o, keep, "by realloc", n.p); o->u = u; o->n = n.n < u ? n.n : u; o->align = 16; fill(o); }
        return;
    }
    size_t keep = e.usable < o->u ? e.usable : o->u;
    if (n.n < keep) keep = n.n;
    check(o, keep, "by realloc", n.p);
    gone(o, "realloc");
    made(&n, "realloc", o->u);   // beyond the old contents: as if fresh
    fill(&n);
    *o = n;
}
static void query_one(const obj_t *o) {
    n_size_q++;
    if (h_malloc_usable_size(o->p) != o->u) viol("C27", "usable size of %p is %zu instead of %zu", o->p, h_malloc_usable_size(o->p), o->u);
    size_t off = o->cls && o->cls != EXP_LARGE ? rndn(&R, o->u + (CANARY ? 1 : 0)) : 0;
    size_t s = h_malloc_object_size(o->p + off);
    if (s < o->u - off || (o->cls && s != o->u - off)) viol("C27", "object size of %p+%zu is %zu instead of %zu", o->p, off, s, o->u - off);
    s = h_malloc_object_size_fast(o->p + off);
    if (s < o->u - off) viol("C27", "fast object size of %p+%zu is %zu, less than %zu", o->p, off, s, o->u - off);
}

// ---- the queries of Android ----
static u64 n_info, n_bins;
static u64 class0_slab;
static bool zero_but(struct mallinfo i, bool h, bool o, bool u, bool f, bool fs) {
    if (h) i.hblkhd = 0;
    if (o) i.ordblks = 0;
    if (u) i.uordblks = 0;
    if (f) i.fordblks = 0;
    if (fs) i.fsmblks = 0;
    static const struct mallinfo z;
    return !memcmp(&i, &z, sizeof z);
}
static void check_info(const char *when) {
    n_info++;
    if (h_mallinfo_narenas() != CF_ARENAS + 1) viol("C29", "%zu arenas instead of %d", h_mallinfo_narenas(), (int)CF_ARENAS + 1);
    if (h_mallinfo_nbins() != NCLS) viol("C29", "%zu bins instead of %d", h_mallinfo_nbins(), (int)NCLS);
    u64 mapped = 0, small = 0;
    for (size_t a = 0; a < CF_ARENAS + 3; a++) {
        struct mallinfo i = h_mallinfo_arena_info(a);
        u64 sum = 0, least = 0;
        for (size_t b = 0; b < NCLS + 3; b++) {
            struct mallinfo x = h_mallinfo_bin_info(a, b);
            n_bins++;
            if (!CF_STATS || a >= CF_ARENAS || b >= NCLS) { if (!zero_but(x, 0, 0, 0, 0, 0)) viol("C29", "%s: bin info of arena %zu, bin %zu isn't zero", when, a, b); continue; }
            u64 m = mod[a][b].m, d = mod[a][b].d, z = b ? class_size(b) : 16;
            if (x.uordblks != m || x.fordblks != d || x.ordblks != (m - d) * z) viol("C29", "%s: arena %zu, size class %zu: %zu allocations, %zu deallocations, %zu bytes reported, %lu, %lu, %lu made", when, a, class_size(b), x.uordblks, x.fordblks, x.ordblks, m, d, (m - d) * z);
            if (!zero_but(x, 0, 1, 1, 1, 0)) viol("C29", "%s: other fields of bin info are not zero", when);
            sum += (m - d) * z;
            least += (m - d + class_slots(b) - 1) / class_slots(b) * class_slab(b);
        }
        if (!CF_STATS || a > CF_ARENAS) { if (!zero_but(i, 0, 0, 0, 0, 0)) viol("C29", "%s: arena info of arena %zu isn't zero", when, a); }
        else if (a == CF_ARENAS) { if (i.hblkhd != large_bytes || i.uordblks != large_bytes || !zero_but(i, 1, 0, 1, 0, 0)) viol("C29", "%s: large allocations: %zu mapped, %zu allocated reported, %lu made", when, i.hblkhd, i.uordblks, large_bytes); }
        else {
            if (i.fsmblks != sum || !zero_but(i, 1, 0, 0, 0, 1)) viol("C29", "%s: arena %zu: %zu bytes allocated reported, %lu made", when, a, i.fsmblks, sum);
            if (i.hblkhd < least) viol("C29", "%s: arena %zu: %zu bytes mapped, at least %lu in use", when, a, i.hblkhd, least);
            mapped += i.hblkhd; small += i.fsmblks;
        }
    }
    struct mallinfo i = h_mallinfo();
    if (!CF_STATS) { if (!zero_but(i, 0, 0, 0, 0, 0)) viol("C29", "mallinfo isn't zero"); return; }
    if (i.hblkhd != mapped + large_bytes || i.uordblks != small + large_bytes || i.fordblks != i.hblkhd - i.uordblks || i.usmblks != i.hblkhd) viol("C29", "%s: mallinfo reports %zu mapped, %zu allocated; by arenas %lu, %lu", when, i.hblkhd, i.uordblks, mapped + large_bytes, small + large_bytes);
    if (!rw_odd) {
        // slabs of zero-size allocations are never accessible: 4096 bytes each, never released but to the free list
        u64 acc = 0;
        for (size_t k = 0; k < n_rw; k++) acc += RND_UP(rw[k].e - rw[k].a);
        u64 zero_live = 0, zero_slab = mapped - acc;
        for (unsigned a = 0; a < CF_ARENAS; a++) zero_live += mod[a][0].m - mod[a][0].d;
        if (mapped < acc || zero_slab % 4096 || zero_slab * 256 / 4096 < zero_live || zero_slab > 4096 * (n_zero + 1)) viol("C29", "%s: %lu bytes of slabs mapped, %lu accessible, %lu zero-size allocations", when, mapped, acc, zero_live);
    }
}

static void purge(void) {
    // as malloc_trim: empty slabs are made inaccessible; none are left
    size_t before = n_rw;
    int r = h_mallopt(M_PURGE, rndn(&R, 2));
    if (r != 1) viol("C29", "mallopt(M_PURGE) returns %d", r);
    size_t after = n_rw;
    if (h_malloc_trim(0)) viol("C29", "malloc_trim finds slabs left by mallopt(M_PURGE)");
    if (after > before) viol("C29", "mallopt(M_PURGE) maps memory");
    static const int other[] = {0, 1, -1, -2, -8, M_DECAY_TIME, -105, 101, INT_MAX, INT_MIN};
    int k = other[rndn(&R, 10)];
    if (h_mallopt(k, rndn(&R, 3)) != 0) viol("C29", "mallopt(%d) doesn't return 0", k);
    if (n_rw != after) viol("C29", "mallopt(%d) changes the memory", k);
}
// fills and releases whole slabs, so that slabs are given back and taken again
static void storm(void) {
    enum { N = 600 };
    static obj_t S[N];
    unsigned c = rndr(&R, 1, N_DOC);
    unsigned n = class_size(c) < 9000 ? N : 60;
    for (unsigned i = 0; i < n; i++) {
        S[i].n = class_size(c) - CANARY; S[i].align = 16;
        cls_now = c;
        S[i].p = h_malloc(S[i].n);
        if (!S[i].p) { viol("C27", "malloc fails"); return; }
        made(&S[i], "malloc", 0);
        fill(&S[i]);
    }
    for (unsigned i = 0; i < n; i++) { check(&S[i], S[i].u, "in a storm", S[i].p); h_free(S[i].p); gone(&S[i], "free"); }
    if (rndn(&R, 2)) purge();
}
// ends a child with misuse of a tagged pointer
static u64 n_misuse;
static void misuse(obj_t *o) {
    static const char *const name[] = {"double free", "double free with another tag", "free of the slot without its tag twice", "free(p + 16)", "usable size of a freed object", "wrong size"};
    unsigned k = rndn(&R, 6);
    if (!o->cls || o->cls == EXP_LARGE) return;
    if (k == 3 && (o->cls == 1)) return;
    n_misuse++;
    int fd[2];
    if (pipe(fd)) vf_die("pipe");
    pid_t c = fork();
    if (!c) {
        vma_model_on = false;
        signal(SIGABRT, SIG_DFL);
        dup2(fd[1], 2);
        syscall(SYS_prctl, 4 /* PR_SET_DUMPABLE */, 0, 0, 0, 0);
        u8 *p = o->p;
        switch (k) {
        case 0: h_free(p); h_free(p); break;
        case 1: h_free(p); h_free((void *)((uintptr_t)UNTAG(p) | (MTE ? 5UL << 56 : 0))); break;
        case 2: h_free(UNTAG(p)); h_free(UNTAG(p)); break;
        case 3: h_free(p + 16); break;
        case 4: h_free(p); h_malloc_usable_size(p); break;
        case 5: h_free_sized(p, o->u + 1 > 3 * o->u ? 1000 : o->u + 1); break;
        }
        _exit(0);
    }
    close(fd[1]);
    char m[200] = "";
    size_t n = 0; ssize_t r;
    while ((r = read(fd[0], m + n, 199 - n)) > 0) n += r;
    m[n] = 0;
    close(fd[0]);
    int st; waitpid(c, &st, 0);
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT || !strstr(m, "fatal allocator error: ")) viol("C27", "%s of %p (tag %u) isn't reported: status %x, output '%s'", name[k], o->p, TAGOF(o->p), st, m);
}
static void history(u64 ops, const char *when) {
    for (u64 i = 0; i < ops; i++) {
        obj_t *o = &O[rndn(&R, NOBJ)];
        unsigned k = rndn(&R, 100);
        if (!o->p) alloc_one(o);
        else if (k < 60) free_one(o);
        else if (k < 80) realloc_one(o);
        else query_one(o);
        if (i % 4096 == 4095) { storm(); check_info(when); }
        if (i % 9973 == 9972) purge();
        if (i % 2000 == 1999) { obj_t *x = &O[rndn(&R, NOBJ)]; if (x->p) misuse(x); }
        if (vf_nviol > 10 || n_stepped > 1500000) return;
    }
}
static void drain(void) { for (unsigned i = 0; i < NOBJ; i++) if (O[i].p) free_one(&O[i]); }

// ---- malloc_disable ----
static atomic_int stage, waiting[16], passed[16];
static u64 n_stopped, n_disable;
static void *stopped_thread(void *x) {
    unsigned k = (uintptr_t)x;
    while (stage < 1) sched_yield();
    static void *given[16];
    if (stage == 1) { given[k] = NULL; }
    waiting[k] = syscall(SYS_gettid);
    void *p = NULL;
    switch (k) {
    case 0: h_free(h_malloc(100)); break;
    case 1: h_free(h_calloc(3, 5000)); break;
    case 2: h_free(h_malloc(300000)); break;
    case 3: h_free(h_aligned_alloc(65536, 10)); break;
    case 4: h_free(O[0].p); break;
    case 5: h_malloc_usable_size(O[1].p); break;
    case 6: h_malloc_object_size(O[1].p); break;
    case 7: h_malloc_trim(0); break;
    case 8: O[2].p = h_realloc(O[2].p, 5000); break;
    case 9: h_mallinfo(); if (!CF_STATS) goto off; break;
    case 10: h_mallinfo_arena_info(0); if (!CF_STATS) goto off; break;
    case 11: h_mallinfo_bin_info(0, 1); if (!CF_STATS) goto off; break;
    case 12: h_mallopt(M_PURGE, 0); break;
    case 13: h_malloc_disable(); h_malloc_enable(); break;
    case 14: if (!h_posix_memalign(&p, 64, 0)) h_free(p); break;
    case 15: h_free_sized(O[3].p, O[3].n); break;
    }
    passed[k] = 1;
    return NULL;
off:
    passed[k] = 2;
    return NULL;
}
static bool asleep(int tid) {
    char f[64], b[400];
    vf_fmt(f, sizeof f, "/proc/self/task/%d/stat", tid);
    int fd = open(f, O_RDONLY);
    if (fd < 0) return false;
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0) return false;
    b[n] = 0;
    char *s = strrchr(b, ')');
    return s && s[2] == 'S';
}
static bool model_threads = false;
static void disable_test(void) {
    n_disable++;
    for (int i = 0; i < 4; i++) { O[i].n = 5 + i * 50; O[i].align = 16; O[i].p = h_malloc(O[i].n); }
    stage = 0;
    memset(waiting, 0, sizeof waiting); memset(passed, 0, sizeof passed);
    pthread_t t[16];
    for (uintptr_t k = 0; k < 16; k++) if (pthread_create(&t[k], NULL, stopped_thread, (void *)k)) vf_die("thread");
    struct mallinfo a = h_mallinfo();
    size_t rw0 = n_rw, calls = 0;
    for (int k = 0; k < C_WRITE; k++) calls += call_count[k];
    h_malloc_disable();
    stage = 1;
    // wait until each has come to its call and rests there
    for (int k = 0; k < 16; k++) {
        u64 end = now_ns() + 5000000000UL;
        while (!waiting[k]) { sched_yield(); if (now_ns() > end) vf_die("thread doesn't start"); }
        int still = 0;
        while (still < 3 && !passed[k] && now_ns() < end) { still = asleep(waiting[k]) ? still + 1 : 0; usleep(2000); }
    }
    usleep(50000);
    for (int k = 0; k < 16; k++) { if (passed[k] == 1) viol("C29", "call %d of another thread isn't stopped by malloc_disable", k); n_stopped++; }
    size_t calls2 = 0;
    for (int k = 0; k < C_WRITE; k++) calls2 += call_count[k];
    if (n_rw != rw0) viol("C29", "memory changes while disabled");
    h_malloc_enable();
    u64 end = now_ns() + 20000000000UL;
    for (int k = 0; k < 16; k++) {
        while (!passed[k] && now_ns() < end) usleep(1000);
        if (!passed[k]) { viol("C29", "call %d of another thread doesn't go on after malloc_enable", k); return; }
        pthread_join(t[k], NULL);
    }
    // nothing was changed: the heap is as before these calls
    h_free(O[1].p); h_free(O[2].p);
    for (int i = 0; i < 4; i++) O[i].p = NULL;
    struct mallinfo b = h_mallinfo();
    if (CF_STATS && a.uordblks - (5 + 55 + 105 + 155) > a.uordblks) vf_die("model");
    if (CF_STATS && b.uordblks >= a.uordblks) viol("C29", "bytes allocated: %zu before malloc_disable with 4 objects more, %zu after", a.uordblks, b.uordblks);
    // and enabling leaves it usable for all
    h_malloc_disable(); h_malloc_enable();
    h_free(h_malloc(77)); h_free(h_malloc(777777));
    model_threads = true;
}

// ---- threads: counters of all threads' calls together ----
typedef struct { u8 *p; size_t n; unsigned cls, arena; u64 seed; } sh_t;
#define NSH 20000
static sh_t *SH;
static atomic_int sh_lock[NSH];
static atomic_ulong tm[CF_ARENAS + 1][50], td[CF_ARENAS + 1][50], t_large;
static u64 t_ops;
static atomic_ulong n_tops, n_tq;
static pthread_mutex_t arena_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t t_bar;
static bool t_quiet;
static unsigned t_arena(void) {   // called one thread at a time
    unsigned c = expect_size(16, 16).cls, r = 0, found = 0;
    u64 b[CF_ARENAS];
    for (unsigned a = 0; a < CF_ARENAS; a++) b[a] = h_mallinfo_bin_info(a, c).uordblks;
    void *p = h_malloc(16);
    for (unsigned a = 0; a < CF_ARENAS; a++) { u64 x = h_mallinfo_bin_info(a, c).uordblks; if (x != b[a]) { r = a; found++; if (x != b[a] + 1) viol("C29", "one malloc counted %lu times", x - b[a]); } }
    if (CF_STATS && found != 1) viol("C29", "one malloc is counted in %u arenas", found);
    h_free(p);
    tm[r][c]++; td[r][c]++;
    return r;
}
static void *t_run(void *x) {
    rng_t r = {.s = R.s + 1000 * (uintptr_t)x};
    TR.s = R.s + 77 * (uintptr_t)x;
    pthread_mutex_lock(&arena_m);
    unsigned me = t_arena();
    pthread_mutex_unlock(&arena_m);
    for (int round = 0; round < 4; round++) {
        pthread_barrier_wait(&t_bar);
        for (u64 i = 0; i < t_ops; i++) {
            unsigned k = rndn(&r, NSH);
            if (n_stepped > 1500000) break;
            if (atomic_exchange(&sh_lock[k], 1)) continue;
            sh_t *o = &SH[k];
            n_tops++;
            if (!o->p) {
                unsigned z = rndn(&r, 100);
                o->n = z < 3 ? 0 : z < 5 ? rndr(&r, MAXSMALL + 1, MAXSMALL + 200000) : z < 60 ? rndn(&r, 600) : class_size(rndr(&r, 1, N_DOC)) - CANARY;
                struct exp e = expect_size(o->n, 16);
                o->p = rndn(&r, 2) ? h_malloc(o->n) : h_calloc(1, o->n);
                o->cls = e.cls; o->arena = me;
                if (!o->p) viol("C29", "malloc(%zu) fails", o->n);
                else {
                    if (e.cls == EXP_LARGE) t_large += e.usable; else tm[me][e.cls]++;
                    unsigned t = TAGOF(o->p);
                    if (e.cls && e.cls != EXP_LARGE) { if (!t != !tagging) viol("C27", "%p has tag %u", o->p, t); check_tags((uintptr_t)UNTAG(o->p), class_size(e.cls), t, "malloc"); }
                    o->seed = rnd(&r);
                    u8 *p = UNTAG(o->p);
                    size_t st = o->n > 500 ? 61 : 1;
                    for (size_t j = 0; j < o->n; j += st) { if (p[j]) { viol(MTE ? "C27" : "C29", "byte %zu of %zu of new memory isn't zero", j, o->n); break; } p[j] = pat(o->seed, j); }
                }
            } else {
                u8 *p = UNTAG(o->p);
                size_t st = o->n > 500 ? 61 : 1;
                for (size_t j = 0; j < o->n; j += st) if (p[j] != pat(o->seed, j)) { viol(MTE ? "C27" : "C29", "byte %zu of %zu of %p changed", j, o->n, o->p); break; }
                if (o->cls && o->cls != EXP_LARGE) check_tags((uintptr_t)p, class_size(o->cls), TAGOF(o->p), "free");
                size_t u = expect_size(o->n, 16).usable;
                if (rndn(&r, 3)) { if (rndn(&r, 3)) h_free(o->p); else h_free_sized(o->p, o->n); o->p = NULL; }
                else {
                    size_t n2 = rndn(&r, 3000);
                    struct exp e = expect_size(n2, 16);
                    u8 *q = h_realloc(o->p, n2);
                    if (!q) { viol("C29", "realloc(%zu) fails", n2); goto out; }
                    u8 *w = UNTAG(q);
                    for (size_t j = 0; j < o->n && j < n2; j++) { if (j % st == 0 && w[j] != pat(o->seed, j)) { viol("C29", "realloc changes byte %zu", j); break; } }
                    if (q == o->p && e.cls == o->cls) { o->n = n2; st = 1; for (size_t j = 0; j < n2; j++) w[j] = pat(o->seed, j); goto out; }
                    h_free(q);
                    if (e.cls == EXP_LARGE) vf_die("size"); else { tm[me][e.cls]++; td[me][e.cls]++; }
                    o->p = NULL;
                }
                if (o->cls == EXP_LARGE) t_large -= u; else td[o->arena][o->cls]++;
            }
        out:
            sh_lock[k] = 0;
            if (i % 1000 == 999 && !t_quiet) {   // the queries at any time
                n_tq++;
                unsigned a = rndn(&r, CF_ARENAS), b = rndn(&r, NCLS);
                struct mallinfo m = h_mallinfo_bin_info(a, b);
                if (m.uordblks < m.fordblks || m.ordblks != (m.uordblks - m.fordblks) * (b ? class_size(b) : 16)) viol("C29", "bin info of arena %u, bin %u: %zu allocations, %zu deallocations, %zu bytes", a, b, m.uordblks, m.fordblks, m.ordblks);
                m = h_mallinfo_arena_info(a);
                if (m.fsmblks > m.hblkhd + 16 * 20 * NSH) viol("C29", "arena info: %zu allocated, %zu mapped", m.fsmblks, m.hblkhd);
                if (!rndn(&r, 10)) h_mallopt(M_PURGE, 0);
                if (!rndn(&r, 10)) { h_malloc_disable(); if (!rndn(&r, 2)) sched_yield(); h_malloc_enable(); }
            }
        }
        pthread_barrier_wait(&t_bar);
        if (!x) {   // all others rest
            for (unsigned a = 0; a < CF_ARENAS; a++) for (unsigned c = 0; c < NCLS; c++) { mod[a][c].m = tm[a][c]; mod[a][c].d = td[a][c]; if (!c) n_zero = n_zero > tm[a][c] * CF_ARENAS ? n_zero : tm[a][c] * CF_ARENAS; }
            large_bytes = t_large;
            check_info("after calls of several threads");
        }
        pthread_barrier_wait(&t_bar);
    }
    return NULL;
}
static void threads_test(unsigned n) {
    SH = vf_map(sizeof *SH * NSH);
    n_zero = 1UL << 40;
    pthread_barrier_init(&t_bar, NULL, n);
    pthread_t t[32];
    for (uintptr_t i = 0; i < n; i++) if (pthread_create(&t[i], NULL, t_run, (void *)i)) vf_die("thread");
    for (unsigned i = 0; i < n; i++) pthread_join(t[i], NULL);
    n_alloc += n_tops;
}

#if MTE
// the hardware ignores the tag of an address when it is dereferenced, this one does not: the instruction
// is executed with the addresses of its registers untagged
#include <ucontext.h>
static __thread struct { int n; struct { int reg; u64 v; } r[16]; } step;
static bool slab_tagged(u64 v) { unsigned t = v >> 56; u64 a = v & (UINT64_MAX >> 8); return t && t < 16 && a >= slabs_at.a && a < slabs_at.e; }
static void gp_fault(int sig, siginfo_t *si, void *x) {
    static const int regs[] = {REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    ucontext_t *u = x;
    if (si->si_code == 0x80 /* SI_KERNEL */ && !vf_jb_on) {
        step.n = 0;
        for (unsigned i = 0; i < 15; i++) {
            u64 v = u->uc_mcontext.gregs[regs[i]];
            if (slab_tagged(v)) { step.r[step.n].reg = regs[i]; step.r[step.n++].v = v; u->uc_mcontext.gregs[regs[i]] = v & (UINT64_MAX >> 8); }
        }
        if (step.n) { u->uc_mcontext.gregs[REG_EFL] |= 0x100; __atomic_fetch_add(&n_stepped, 1, __ATOMIC_RELAXED); return; }
    }
    vf_segv(sig, si, x);
}
static void stepped(VF_UNUSED int sig, VF_UNUSED siginfo_t *si, void *x) {
    ucontext_t *u = x;
    u->uc_mcontext.gregs[REG_EFL] &= ~0x100UL;
    for (int i = 0; i < step.n; i++) {
        u64 v = u->uc_mcontext.gregs[step.r[i].reg], a = step.r[i].v & (UINT64_MAX >> 8), t = step.r[i].v & (0xffUL << 56);
        if (v - a + (1 << 20) < (2 << 20) && !(v >> 56)) u->uc_mcontext.gregs[step.r[i].reg] = v | t;
    }
    step.n = 0;
}
static void install_gp(void) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = gp_fault; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    sa.sa_sigaction = stepped; sigaction(SIGTRAP, &sa, NULL);
}
#endif

int main(void) {
    u64 seed = env_u64("VF_SEED", 1), ops = env_u64("VF_OPS", 60000);
    R.s = seed * 7919; TR.s = seed * 104729;
    hostility = env_u64("VF_HOSTILE", 50);
    const char *mode = getenv("VF_MODE") ? getenv("VF_MODE") : "stats";
    ip_init();
    vma_model_on = !MTE;
    event_hook = on_event;
    rw = vf_map(sizeof *rw * MAXRW);
    slot_tab = vf_map(sizeof *slot_tab * SLOTS);
    O = vf_map(sizeof *O * NOBJ);
    vf_install_segv();
#if MTE
    install_gp();
#endif
    if (!strcmp(mode, "early")) {   // everything before initialization
        check_info("before initialization");
        if (h_mallopt(M_PURGE, 0) != 1) viol("C29", "mallopt(M_PURGE) before initialization");
        if (h_malloc_trim(0)) viol("C29", "malloc_trim before initialization");
        if (h_malloc_object_size(&R) != SIZE_MAX || h_malloc_object_size_fast(&R) != SIZE_MAX) viol("C29", "object size before initialization");
        if (rndn(&R, 2)) { h_malloc_disable(); h_malloc_enable(); }
#if MTE
        h_malloc_disable_memory_tagging();
        if (rndn(&R, 2)) h_malloc_disable_memory_tagging();
        mte_on = tagging = false;
#else
        h_malloc_disable_memory_tagging();
#endif
        for (unsigned k = 0; k < C_WRITE; k++) if (call_count[k] && slabs_at.a == 0) viol("C29", "kernel calls before initialization");
        check_info("before initialization");
        history(ops, "tagging disabled before initialization");
        drain();
        check_info("at the end");
    } else if (!strcmp(mode, "threads")) {
        hostility = 0;
        t_ops = ops / 2;
        t_quiet = env_u64("VF_QUIET", 0);
        threads_test(env_u64("VF_THREADS", 8));
    } else if (!strcmp(mode, "disable")) {
        // which arena is this thread's: with several, the one whose counters change
        obj_t o = {.n = 40, .align = 16};
        o.p = h_malloc(40); h_free(o.p);
        for (unsigned i = 0; i < (ops < 4 ? ops : 4); i++) disable_test();
    } else {
        void *p = h_malloc(16);
        for (unsigned a = 0; a < CF_ARENAS && CF_STATS; a++) if (h_mallinfo_bin_info(a, expect_size(16, 16).cls).uordblks) my_arena = a;
        mod[my_arena][expect_size(16, 16).cls].m++;
        h_free(p);
        mod[my_arena][expect_size(16, 16).cls].d++;
        if (slot_tab) { struct slot *s = slot((uintptr_t)UNTAG(p), true); s->cls = expect_size(16, 16).cls; s->tag = TAGOF(p); }
        check_info("at the start");
        history(ops, "during the history");
        if (!strcmp(mode, "turnoff")) {   // tagging is disabled with live objects
            for (unsigned i = 0; i < 1 + rndn(&R, 2); i++) h_malloc_disable_memory_tagging();
#if MTE
            mte_on = tagging = false;
#endif
            history(ops, "after tagging was disabled");
            // tags stand for canaries no more: those of new objects are checked
            for (unsigned i = 0; i < 40 && CANARY; i++) {
                size_t n = class_size(rndr(&R, 1, N_DOC)) - CANARY;
                pid_t c = fork();
                if (!c) {
                    vma_model_on = false;
                    signal(SIGABRT, SIG_DFL);
                    syscall(SYS_prctl, 4, 0, 0, 0, 0);
                    close(2);
                    u8 *p = h_malloc(n);
                    p[n + 1 + rndn(&R, 7)] ^= 1 + rndn(&R, 255);
                    h_free(p);
                    _exit(0);
                }
                int st; waitpid(c, &st, 0);
                n_misuse++;
                if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) viol("C29", "a write over the canary of an object made after tagging was disabled isn't reported: status %x", st);
                rnd(&R);
            }
        }
        drain();
        check_info("at the end");
    }
    u64 d = 0;
    for (unsigned i = 0; i < 51; i++) { if (cov[0][i]) vcov("class-tag", i, cov[0][i]); d += __builtin_popcountl(cov[0][i]); }
    vstat("evals", n_alloc + n_free + n_bins + n_stopped + n_size_q);
    vstat("allocations", n_alloc); vstat("frees", n_free); vstat("neighbours_compared", n_neigh); vstat("previous_tags_compared", n_prev);
    vstat("bins_compared", n_bins); vstat("queries", n_info); vstat("calls_stopped", n_stopped); vstat("misuses", n_misuse); vstat("slabs_released_seen", n_recycled);
#if MTE
    vstat("accesses_checked", n_checked); vstat("tagged_accesses", n_tagged); vstat("tag_stores", n_tag_stores); vstat("hostile_tags", n_hostile); vstat("no_tag_left", n_forced); vstat("instructions_stepped", n_stepped);
#endif
    vsample("%lu allocations and %lu frees, %lu neighbours and %lu previous tags compared, %lu bins compared, %lu calls stopped", n_alloc, n_free, n_neigh, n_prev, n_bins, n_stopped);
    vf_finish();
}
