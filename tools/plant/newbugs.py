import os
A='/verif/harness/android/'
CFG='-DH_MALLOC_PREFIX -DZERO_ON_FREE=true -DWRITE_AFTER_FREE_CHECK=true -DSLOT_RANDOMIZE=true -DSLAB_CANARY=true -DSLAB_QUARANTINE_RANDOM_LENGTH=%d -DSLAB_QUARANTINE_QUEUE_LENGTH=1 -DCONFIG_EXTENDED_SIZE_CLASSES=true -DCONFIG_LARGE_SIZE_CLASSES=true -DGUARD_SLABS_INTERVAL=1 -DGUARD_SIZE_DIVISOR=2 -DREGION_QUARANTINE_RANDOM_LENGTH=256 -DREGION_QUARANTINE_QUEUE_LENGTH=1024 -DREGION_QUARANTINE_SKIP_THRESHOLD=33554432 -DFREE_SLABS_QUARANTINE_RANDOM_LENGTH=32 -DCONFIG_CLASS_REGION_SIZE=1073741824 -DN_ARENA=%d -DCONFIG_STATS=%s -DCONFIG_SELF_INIT=false'
FILES=' '.join('"$repo"/%s.c'%f for f in 'h_malloc memory pages random chacha util'.split())
def add(bug):
    bug('C21-far-interior', 'C21', [('h_malloc.c', '        size_t offset = (const char *)p - (const char *)start;', '        u16 offset = (const char *)p - (const char *)start;')], r'''
size_t malloc_object_size(const void *);
int main(void) {
    char *p = malloc(100000); size_t u = malloc_usable_size(p);
    for (size_t o = 0; o < u; o += 1000) { size_t n = malloc_object_size(p + o); if (n != u - o) FAIL("object size %zu at offset %zu of %zu\n", n, o, u); }
    return 0; }
''', 'malloc_object_size of a pointer more than 64 KiB into a small allocation (classes above 64 KiB)', 'the offset is truncated, so the size returned reaches past the end of the object')
    bug('C25-int-product', 'C25', [('random.c', '''u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
    u32 random = get_random_u16(state);
    u32 multiresult = random * bound;''', '''u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
    u16 random = get_random_u16(state);
    u32 multiresult = random * bound;''')], r'''
void *h_malloc(size_t); void h_free(void *);
int main(void) { for (int i = 0; i < 2000; i++) { void *p = h_malloc(8); if (!p) return 1; h_free(p); } return 0; }
''', 'a bound above 32768, so a quarantine of the smallest size classes of more than 32768 slots', 'the product is computed as int and overflows, which is undefined', static=dict(cc='gcc -fsanitize=undefined -fno-sanitize-recover=all', cf=CFG%(5,1,'false'), files=FILES))
    bug('C29-last-class', 'C29', [('h_malloc.c', '''        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
            struct size_class *c = &ro.size_class_metadata[arena][class];

            mutex_lock(&c->lock);
            info.hblkhd += c->slab_allocated;
            info.fsmblks''', '''        for (unsigned class = 0; class < N_SIZE_CLASSES - 1; class++) {
            struct size_class *c = &ro.size_class_metadata[arena][class];

            mutex_lock(&c->lock);
            info.hblkhd += c->slab_allocated;
            info.fsmblks''')], r'''
#include "malloc.h"
void async_safe_fatal(const char *f, ...) { abort(); } int mallopt(int a, int b) { return 0; }
void *h_malloc(size_t); struct mallinfo h_mallinfo_arena_info(size_t);
int main(void) { size_t total = 0, sizes[] = {16, 1000, 20000, 100000, 131064};
    for (int i = 0; i < 5; i++) { size_t before = h_mallinfo_arena_info(0).fsmblks; h_malloc(sizes[i]); size_t d = h_mallinfo_arena_info(0).fsmblks - before; if (d < sizes[i]) FAIL("%zu bytes counted for %zu\n", d, sizes[i]); }
    return 0; }
''', 'an Android build and an allocation of the largest size class', 'the largest size class is left out of the totals of its arena', multi=1,
        static=dict(cf='-include "$here/shim.h" -D__ANDROID__ '+CFG%(1,1,'true'), files=FILES), files={'malloc.h':open(A+'malloc.h').read(),'shim.h':open(A+'shim.h').read(),'async_safe_log.h':open(A+'async_safe/log.h').read()}, pre='mkdir -p "$dir/inc/async_safe" && cp "$here/async_safe_log.h" "$dir/inc/async_safe/log.h"\n')
    bug('C27-own-tag', 'C27', [('h_malloc.c', '    tem |= (1 << u4_arr_get(slot_tags, slot_idx + 1));\n', '    tem |= (1 << u4_arr_get(slot_tags, slot_idx | 1));\n')], r'''
#include "malloc.h"
void async_safe_fatal(const char *f, ...) { abort(); } int mallopt(int a, int b) { return 0; }
void *h_malloc(size_t); void h_free(void *);
static unsigned seed = 1; static unsigned char last[65536];
void *emu_random_tag(void *p, uint64_t mask) { for (;;) { seed = seed * 1103515245 + 12345; unsigned t = seed >> 16 & 15; if (!(mask >> t & 1)) return (void *)((uintptr_t)p & ~(15ul << 56) | (uintptr_t)t << 56); } }
void emu_tag_and_clear(void *p, size_t n) { memset((void *)((uintptr_t)p << 8 >> 8), 0, n); }
void *emu_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *emu_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *emu_memset(void *d, int c, size_t n) { return memset(d, c, n); }
int main(void) { /* the tag of each slot of 64 KiB must change whenever it is handed out again */
    static struct { uintptr_t a; unsigned t; } seen[4096]; int n = 0, again = 0;
    for (int i = 0; i < 200000; i++) {
        uintptr_t p = (uintptr_t)h_malloc(3000); uintptr_t a = p << 8 >> 8; unsigned t = p >> 56, k;
        for (k = 0; k < n && seen[k].a != a; k++);
        if (k == n) { if (n < 4096) seen[n++].a = a; } else { again++; if (seen[k].t == t) FAIL("tag %u twice at %lx\n", t, a); }
        seen[k].t = t; h_free((void *)p);
    }
    return again < 1000; }
''', 'memory tagging, and a slot with an even index being reused', 'a slot may get its previous tag again (the entry of another slot is excluded instead)',
        static=dict(cf='-include "$here/shim.h" -D__ANDROID__ -DHAS_ARM_MTE '+CFG%(1,1,'true'), files=FILES), files={'malloc.h':open(A+'malloc.h').read(),'shim.h':open(A+'shim.h').read(),'async_safe_log.h':open(A+'async_safe/log.h').read()}, pre='mkdir -p "$dir/inc/async_safe" && cp "$here/async_safe_log.h" "$dir/inc/async_safe/log.h"\n')
    bug('C30-stats-first', 'C30', [('h_malloc.c', '''    struct mallinfo info = {0};
#endif

#if CONFIG_STATS
    if (unlikely(!is_init())) {
        return info;
    }
''', '''    struct mallinfo info = {0};
#endif

#if CONFIG_STATS
    init();
''')], r'''
void *h_malloc(size_t); struct mallinfo2 h_mallinfo2(void); static int maps;
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { maps++; return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
int main(void) { struct rlimit r = {1 << 30, 1 << 30}; setrlimit(RLIMIT_AS, &r);
    /* no room for the allocator: asking for statistics must not need any */
    struct mallinfo2 m = h_mallinfo2(); if (m.hblkhd || m.uordblks || maps) FAIL("something is allocated\n"); return 0; }
''', 'mallinfo2 being the first call, in a build with statistics and without early initialization', 'the allocator is initialized by a query, which is fatal when there is no memory', prelude=None,
        static=dict(cf=CFG%(1,1,'true'), files=FILES))
    bug('C31-shrunk-guard', 'C31', [('h_malloc.c', '                memory_set_name(new_end, old_guard_size, "malloc large");\n', '')], r'''
void *h_malloc(size_t); void *h_realloc(void *, size_t);
#include <sys/prctl.h>
#include <stdarg.h>
enum { N = 1 << 16 }; static char *base; static const char *name[N]; /* label of each page near the object */
static int idx(uintptr_t a) { intptr_t d = (intptr_t)(a - (uintptr_t)base) / 4096 + N / 2; return base && d >= 0 && d < N ? d : -1; }
static struct { uintptr_t a; size_t n; const char *s; } ev[10000]; static int ne;
int prctl(int op, ...) { va_list l; va_start(l, op); long x = va_arg(l, long); uintptr_t a = va_arg(l, uintptr_t); size_t n = va_arg(l, size_t); const char *s = va_arg(l, const char *); if (op == 0x53564d41 && ne < 10000) { ev[ne].a = a; ev[ne].n = n; ev[ne++].s = s; } return 0; }
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { void *r = (void *)syscall(SYS_mmap, a, n, p, f, fd, o); if (r != MAP_FAILED && ne < 10000) { ev[ne].a = (uintptr_t)r; ev[ne].n = n; ev[ne++].s = 0; } return r; }
static const char *label(uintptr_t a) { const char *s = 0; for (int i = 0; i < ne; i++) if (ev[i].a <= a && a < ev[i].a + ev[i].n) s = ev[i].s; return s; }
int main(void) { for (int k = 0; k < 20; k++) {
        char *p = h_malloc(8 << 20); p = h_realloc(p, 1 << 20); const char *s = label((uintptr_t)p + (1 << 20));
        if (!s || strcmp(s, "malloc large")) FAIL("guard after the object is labelled %s\n", s ? s : "(nothing)"); }
    return 0; }
''', 'a build with memory labels and a large allocation being shrunk in place', 'the new guard region has no label', static=dict(cf='-DLABEL_MEMORY '+CFG%(1,1,'true'), files=FILES))
    bug('C07-usable-only-low', 'C07', [('h_malloc.c', '    if (unlikely(canary_value != metadata->canary_value)) {', '    if (unlikely((u32)(canary_value ^ metadata->canary_value) || (size > PAGE_SIZE * 2 && false))) {')], r'''
int main(void) { for (int k = 0; k < 8; k++) { if (fork() == 0) { char *p = malloc(100); p[malloc_usable_size(p) + k] ^= 0x41; free(p); _exit(0); } int st; wait(&st); if (!WIFSIGNALED(st)) FAIL("overflow into byte %d not detected\n", k); } return 0; }
''', 'an overflow that reaches only the last four bytes of the canary', 'only half of the canary is compared')
