PRELUDE = r'''#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#define FAIL(...) do { char b_[256]; int n_ = snprintf(b_, 256, __VA_ARGS__); (void)!write(2, b_, n_); _exit(1); } while (0)
static int readable(const void *p) { /* 1: accessible */
    int fd[2]; if (pipe(fd)) _exit(9);
    int r = write(fd[1], p, 1) == 1; close(fd[0]); close(fd[1]); return r;
}
'''
SB = 'void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { %s return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }\n'
MP = 'int mprotect(void *a, size_t n, int p) { %s return syscall(SYS_mprotect, a, n, p); }\n'
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug('C16-mremap-fallback', 'C16', [('h_malloc.c', 'deallocate_pages(old, old_size, old_guard_size);', 'deallocate_pages(old, size, old_guard_size);')], r'''
static int fail; static char *gone; static size_t gone_n;
void *mremap(void *a, size_t o, size_t n, int f, ...) { __builtin_va_list l; __builtin_va_start(l, f); void *x = __builtin_va_arg(l, void *); if (fail) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mremap, a, o, n, f, x); }
int munmap(void *a, size_t n) { if (fail) { gone = a; gone_n = n; } return syscall(SYS_munmap, a, n); }
int main(void) {
    size_t n = 40 << 20; char *p = malloc(n); memset(p, 5, n); n = malloc_usable_size(p);
    fail = 1; char *q = realloc(p, 200 << 20); fail = 0;
    if (!q || q[n - 1] == 0 && 0) FAIL("realloc\n");
    /* the guards are at most half the size each */
    if (gone_n > n * 2 + 8192) FAIL("unmapped %zu bytes for an object of %zu\n", gone_n, n);
    return 0; }
''', 'mremap failing with ENOMEM while a large allocation is grown', 'the fallback unmaps the new size at the old address, hitting whatever is mapped behind it')

bug('C08-empty-slab', 'C08', [('h_malloc.c', ('                write_after_free_check(p, size - canary_size);\n', 0), '')], r'''
int main(void) {
    if (fork() == 0) { /* all slots of a slab freed and out of quarantine: the slab is cached as empty */
        static char *p[4096]; int n = 0;
        for (int r = 0; r < 3000; r++) {
            char *x = malloc(100000); if (!x) _exit(1);
            for (int i = 0; i < n; i++) if (p[i] == x) _exit(1); /* handed out with the change */
            free(x);
            x[100] = 1; if (n < 4096) p[n++] = x;
        }
        _exit(0);
    }
    int st; wait(&st); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) { fprintf(stderr, "not detected %x\n", st); return 1; } return 0; }
''', 'a write to a freed slot of a slab that became entirely free before it is used again', 'writes after free are not detected when the slab comes from the cache of empty slabs', multi=1)

bug('C09-queue-length', 'C09', [('h_malloc.c', 'c->quarantine_queue_index = (c->quarantine_queue_index + 1) % slab_quarantine_queue_length;', 'if (++c->quarantine_queue_index >= slab_quarantine_queue_length - 1) {\n        c->quarantine_queue_index = 0;\n    }')], r'''
int main(void) { /* queue of 2 for 64 KiB */
    static char *hist[100000]; int n = 0, min = 1 << 30;
    for (int i = 0; i < 3000; i++) {
        char *p = malloc(65000); for (int k = 0; k < n; k++) if (hist[k] == p) { /* frees after that one */ int d = n - 1 - k; int last = 1; for (int j = k + 1; j < n; j++) if (hist[j] == p) last = 0; if (last && d < min) min = d; }
        hist[n++] = p; free(p);
    }
    if (min < 2) FAIL("reused after %d further frees\n", min); return 0; }
''', 'the exact number of frees between a free and the reuse of its address (queue lengths above 1)', 'one entry of each quarantine queue is never used, so addresses are reused one free too early', opts='CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH=0 CONFIG_SLAB_QUARANTINE_QUEUE_LENGTH=1')

bug('C19-lost-slabs', 'C19', [('h_malloc.c', '''            if (c->free_slabs_head == NULL) {
                c->free_slabs_tail = NULL;
            }
''', '')], r'''
int main(void) { /* fill and drain the list of free slabs several times: address space must be reused */
    enum { N = 6000 }; static char *p[N]; static uintptr_t lo = -1, hi;
    uintptr_t first = 0;
    for (int r = 0; r < 12; r++) {
        for (int i = 0; i < N; i++) { p[i] = malloc(4000); uintptr_t a = (uintptr_t)p[i]; if (a < lo) lo = a; if (a > hi) hi = a; }
        for (int i = 0; i < N; i++) free(p[i]);
        if (r == 2) first = hi - lo;
    }
    if (hi - lo > first + first / 2) FAIL("address range grew from %lu to %lu with the same live data\n", (unsigned long)first, (unsigned long)(hi - lo)); return 0; }
''', 'the list of free slabs being emptied completely before more slabs are released', 'slabs released after that are never used again')

bug('C18-unsealed-failure', 'C18', [('h_malloc.c', '''                if (new == NULL) {
                    thread_seal_metadata();
                    return NULL;''', '''                if (new == NULL) {
                    return NULL;''')], r'''
int main(void) {
    int key = pkey_alloc(0, 0); if (key < 0) return 0; pkey_free(key);
    char *p = malloc(40 << 20); int k = -1;
    for (int i = 1; i < 16; i++) if (pkey_get(i) == PKEY_DISABLE_ACCESS) { k = i; }
    unsigned before, after; __asm__ volatile("rdpkru" : "=a"(before) : "c"(0) : "rdx");
    char *q = realloc(p, (size_t)1 << 46); if (q) return 0;
    q = realloc(p, (size_t)1 << 60); 
    __asm__ volatile("rdpkru" : "=a"(after) : "c"(0) : "rdx");
    if (before != after) FAIL("access rights %x before and %x after\n", before, after); return 0; }
''', 'a large allocation (at least 32 MiB) whose growth fails, with sealed metadata', 'the thread keeps access to the allocator state after the failed realloc', opts='CONFIG_SEAL_METADATA=true')

bug('C20-shrink', 'C20', [('h_malloc.c', '''                region->size = size;
                stats_large_deallocate(ra, old_size - size);
''', '''                stats_large_deallocate(ra, region->size - size);
                region->size = size + (old_guard_size - old_guard_size);
                if (old_size - size > REGION_QUARANTINE_SKIP_THRESHOLD) {
                    stats_large_allocate(ra, old_guard_size);
                }
''')], r'''
int main(void) {
    struct mallinfo2 a = mallinfo2(); char *p = malloc(200 << 20); p = realloc(p, 50 << 20); struct mallinfo2 b = mallinfo2();
    size_t d = b.uordblks - a.uordblks, want = malloc_usable_size(p);
    if (d != want) FAIL("%zu counted for %zu\n", d, want); return 0; }
''', 'shrinking a large allocation in place by more than the quarantine skip threshold', 'the bytes of large allocations in the statistics are wrong from then on', opts='CONFIG_STATS=true')

bug('C28-errno', 'C28', [('h_malloc.c', '''            memory_purge(slab, slab_size);
            errno = saved_errno;
''', '''            errno = saved_errno;
            memory_purge(slab, slab_size);
''')], r'''
static int fail;
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (fail && (f & MAP_FIXED)) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
int madvise(void *a, size_t n, int v) { if (fail) { errno = ENOMEM; return -1; } return syscall(SYS_madvise, a, n, v); }
int main(void) {
    static char *p[400]; for (int i = 0; i < 400; i++) p[i] = malloc(100000);
    fail = 1; for (int i = 0; i < 400; i++) { errno = 77; free(p[i]); if (errno != 77) FAIL("errno %d\n", errno); } return 0; }
''', 'both replacing and purging the pages of a released slab failing with ENOMEM', 'free changes errno')

bug('C14-child-rng', 'C14', [('h_malloc.c', '''    random_state_init(&ra->rng);
''' if 0 else '''    mutex_init(&ro.region_allocator->lock);
    random_state_init(&ro.region_allocator->rng);
''', '''    mutex_init(&ro.region_allocator->lock);
''')], r'''
static size_t last; 
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (!a) last = n; return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
static void draw(size_t *v) { for (int i = 0; i < 16; i++) { last = 0; void *p = malloc(64 << 20); v[i] = last; free(p); } }
int main(void) {
    size_t *s = mmap(0, 4096, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0), v[16];
    free(malloc(1 << 20));
    if (fork() == 0) { draw(s); _exit(0); }
    int st; wait(&st); draw(v); if (st) FAIL("child\n");
    if (!memcmp(v, s, sizeof v)) FAIL("the same guard sizes in parent and child\n"); return 0; }
''', 'comparing random choices of large allocations in parent and child after fork', 'parent and child continue the same random stream for guard sizes and the region quarantine')

bug('C13-short-read', 'C13', [('random.c', '''        buf = (char *)buf + r;
        size -= r;
    }
}

void random_state_init(''', '''        if ((size_t)r < size) {
            buf = (char *)buf + (r & ~(ssize_t)7);
        }
        size -= r;
    }
}

void random_state_init(''')], r'''
static unsigned char want[64], *got;
static int step;
ssize_t getrandom(void *b, size_t n, unsigned f) { /* delivers in pieces of 5 and remembers the targets */
    static char *start; static size_t done;
    size_t k = n < 5 ? n : 5; memset(b, 0xa5, k);
    if (!done) start = b; if ((char *)b != start + done) { static const char m[] = "part of a seed left unset\n"; (void)!write(2, m, sizeof m - 1); _exit(1); }
    done += k; if (n == k) done = 0; return k; }
int main(void) { void *p = malloc(1); free(p); return 0; }
''', 'getrandom delivering fewer bytes than asked for', 'part of the seed is overwritten and the end of the seed stays unset')

bug('C10-aligned-trail', 'C10', [('pages.c', 'memory_unmap((char *)base + usable_size + guard_size, trail_size)', 'memory_unmap((char *)base + usable_size, trail_size)')], r'''
static int owned(char *p) { unsigned char v; return !mincore(p, 4096, &v) || errno != ENOMEM; }
int main(void) {
    for (int i = 0; i < 200; i++) { char *p; if (posix_memalign((void **)&p, 1 << 20, 200000)) return 2; size_t n = malloc_usable_size(p);
        if (!owned(p - 4096) || !owned(p + n)) FAIL("no guard page at an end\n"); }
    return 0; }
''', 'an aligned large allocation whose mapping has pages to trim at its end', 'the guard after the allocation is unmapped and its place is free for other mappings')

bug('C16-table-full', 'C16', [('h_malloc.c', ('''        mutex_unlock(&ra->lock);
        deallocate_pages(p, size, guard_size);
        return ENOMEM;''', 0), '''        deallocate_pages(p, size, guard_size);
        return ENOMEM;''')], r'''
static void *big; static size_t bign; static int fail;
int mprotect(void *a, size_t n, int p) { if (fail && (char *)a - (char *)0 && n == bign) { errno = ENOMEM; return -1; } return syscall(SYS_mprotect, a, n, p); }
int main(void) {
    void *p; alarm(20); signal(SIGALRM, SIG_DFL);
    bign = 128 * 2 * 24; fail = 1; int failed = 0;
    for (int i = 0; i < 200; i++) if (posix_memalign(&p, 8192, 300000)) failed++;
    fail = 0; if (!failed) FAIL("no failure seen\n");
    free(malloc(300000)); free(p); return 0; }
''', 'the table of large allocations failing to grow during an aligned allocation', 'the lock of the large allocator stays locked, so the next large allocation deadlocks')

bug('C11-gap', 'C11', [('h_malloc.c', 'size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE) / PAGE_SIZE - 1;', 'size_t bound = (REAL_CLASS_REGION_SIZE - CLASS_REGION_SIZE / 2) / PAGE_SIZE - 1;')], r'''
int main(void) {
    for (int r = 0; r < 20; r++) { pid_t c = fork(); if (c == 0) { execl("/proc/self/exe", "demo", "x", NULL); _exit(9); } int st; waitpid(c, &st, 0); if (st) FAIL("run %d: %x\n", r, st); }
    return 0; }
__attribute__((constructor(200))) static void run(int argc, char **argv) {
    if (argc < 2) return;
    /* fill some classes to the end and free everything */
    static char *p[40000]; 
    for (int s = 2000; s < 9000; s += 1500) { int n = 0; for (; n < 40000; n++) { p[n] = malloc(s); if (!p[n] || malloc_usable_size(p[n]) > 20000) break; memset(p[n], s >> 6, s); }
        for (int i = 0; i < n; i++) { if (p[i][0] != (char)(s >> 6) || p[i][s - 1] != (char)(s >> 6)) FAIL("contents\n"); if (malloc_usable_size(p[i]) < s) FAIL("class\n"); free(p[i]); } }
    _exit(0); }
''', 'a size class region used up to near its end, in a process where its random base is high', 'the end of a size class region overlaps the space of the next size class', opts='CONFIG_CLASS_REGION_SIZE=16777216 CONFIG_N_ARENA=1')

bug('C24-handler-change', 'C24', [('new.cc', '''    do {
        std::new_handler handler = std::get_new_handler();
        if''', '''    std::new_handler handler = std::get_new_handler();
    do {
        if''')], r'''
#include <new>
static int a, b;
static void second() { b++; std::set_new_handler(nullptr); }
static void first() { if (++a > 5) { _exit(1); } std::set_new_handler(second); }
int main() {
    std::set_new_handler(first);
    try { operator new((size_t)1 << 60); return 1; } catch (const std::bad_alloc &) {}
    return a == 1 && b == 1 ? 0 : 1; }
''', 'a new-handler that installs another one or removes itself', 'the handler current at the first failure is called for ever', src='demo.cc', run='', multi=1)

bug('C01-table-delete', 'C01', [('h_malloc.c', '            if ((i <= r && r < j) || (r < j && j < i) || (j < i && i <= r)) {', '            if ((i <= r && r < j) || (r < j && j < i)) {')], r'''
int main(void) { /* many large allocations with a changing set */
    enum { N = 2000 }; static char *p[N]; unsigned long x = 1;
    for (int r = 0; r < 60000; r++) { x = x * 6364136223846793005ul + 1442695040888963407ul; int i = (x >> 33) % N;
        if (p[i]) { free(p[i]); p[i] = 0; } else p[i] = malloc(140000); }
    return 0; }
''', 'deleting an entry of the table of large allocations whose probe sequence wraps around the start of the table', 'another live large allocation is no longer found, so freeing it aborts')

bug('C04-purge', 'C04', [('h_malloc.c', '''    if (unlikely(memory_map_fixed(p, size))) {
        memory_purge(p, size);
    } else {
        memory_set_name''', '''    if (likely(!memory_map_fixed(p, size))) {
        memory_set_name''')], r'''
static int fail;
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (fail && (f & MAP_FIXED)) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
int main(void) { char *p = malloc(1 << 20); memset(p, 7, 1 << 20); fail = 1; free(p); fail = 0; 
    if (readable(p) && p[5000] == 7) FAIL("contents still there\n"); return 0; }
''', 'revoking a freed large allocation failing with ENOMEM', 'the contents of the freed allocation stay readable')

bug('C03-calloc', 'C03', [('h_malloc.c', '        memset(p, 0, total_size - canary_size);\n    }\n#ifdef HAS', '        memset(p, 0, nmemb * (total_size / nmemb) - canary_size);\n    }\n#ifdef HAS')], r'''
int main(void) { for (int i = 0; i < 5000; i++) { char *p = malloc(37 * 5); memset(p, 9, 37 * 5); free(p); }
    for (int i = 0; i < 5000; i++) { char *p = calloc(37, 5); for (int k = 0; k < 37 * 5; k++) if (p[k]) FAIL("byte %d\n", k); memset(p, 9, 37 * 5); free(p); } return 0; }
''', 'calloc with a number of members that does not divide the padded size, without zero-on-free', 'the last bytes of memory returned by calloc are not cleared', opts='CONFIG_ZERO_ON_FREE=false CONFIG_SLAB_CANARY=true CONFIG_WRITE_AFTER_FREE_CHECK=false')

bug('C07-stale-canary', 'C07', [('h_malloc.c', '''            struct slab_metadata *metadata = c->free_slabs_head;
            set_slab_canary_value(metadata, &c->rng);
''', '''            struct slab_metadata *metadata = c->free_slabs_head;
''')], r'''
int main(void) { /* the canary of a slab before and after it was released */
    enum { N = 4000 }; static char *p[N]; static struct { char *a; uint64_t v; } seen[N * 4]; int n = 0, same = 0, again = 0;
    for (int r = 0; r < 6; r++) {
        for (int i = 0; i < N; i++) { p[i] = malloc(4000); uint64_t v; memcpy(&v, p[i] + malloc_usable_size(p[i]), 8);
            if (r == 0) { seen[n].a = p[i]; seen[n++].v = v; } else for (int k = 0; k < n; k++) if (seen[k].a == p[i]) { again++; same += seen[k].v == v; } }
        for (int i = 0; i < N; i++) free(p[i]);
        malloc_trim(0);
    }
    if (again < 100) FAIL("no slab used again\n");
    if (same > again / 2) FAIL("%d of %d canaries did not change\n", same, again); return 0; }
''', 'a slab that was released and is used again', 'its canary is the same as before')

bug('C06-larger-size', 'C06', [('h_malloc.c', '    if (expected_size && unlikely(size != *expected_size)) {', '    if (expected_size && unlikely(size < *expected_size)) {')], r'''
void free_sized(void *, size_t);
int main(void) { if (fork() == 0) { void *p = malloc(1000); free_sized(p, 400); _exit(0); } int st; wait(&st); if (!WIFSIGNALED(st)) FAIL("accepted\n"); return 0; }
''', 'sized deallocation with a size that is too small', 'a wrong size from a smaller size class is accepted')

bug('C12-first-bitmap', 'C12', [('h_malloc.c', 'size_t random_index = get_random_u16_uniform(rng, slots);', 'size_t random_index = get_random_u16_uniform(rng, slots < U64_WIDTH ? slots : U64_WIDTH);')], r'''
int main(void) { /* first slots of new slabs of 16-byte objects (256 slots) */
    int high = 0, n = 0; 
    for (int r = 0; r < 40; r++) { pid_t c = fork(); if (!c) { execl("/proc/self/exe", "demo", "x", NULL); _exit(9); } int st; waitpid(c, &st, 0); n++; high += WEXITSTATUS(st) == 1; }
    if (!high) FAIL("never a slot beyond the first 64\n"); return 0; }
__attribute__((constructor(200))) static void run(int argc, char **argv) { if (argc < 2) return; for (int i = 0; i < 1; i++) { char *p = malloc(8); _exit(((uintptr_t)p & 4095) / 16 >= 64); } }
''', 'observing the slots chosen in slabs with more than 64 slots', 'the first allocations of a slab are always within its first 64 slots')

bug('C17-interrupted', 'C17', [('util.c', '''            if (errno == EINTR) {
                continue;
            }
            return -1;
        }
        buf += bytes_written;
        length -= bytes_written;
    } while (length);
''', '''            if (errno == EINTR) {
                bytes_written = 0;
            } else {
                return -1;
            }
        }
        buf += bytes_written;
        length -= bytes_written;
    } while (length > 1 || (length && bytes_written));
''' if 0 else '''            if (errno != EINTR) {
                return -1;
            }
            bytes_written = 0;
        }
        buf += bytes_written;
        length -= bytes_written ? bytes_written : length;
    } while (length);
''')], r'''
static int fd = -1;
ssize_t write(int f, const void *b, size_t n) { static int k; if (fd >= 0 && f == 2) { if (k++ % 2 == 0) { errno = EINTR; return -1; } return syscall(SYS_write, fd, b, n); } return syscall(SYS_write, f, b, n); }
int main(void) { int p[2]; pipe(p); char *q = malloc(10);
    if (fork() == 0) { fd = p[1]; free(q); free(q); _exit(0); }
    close(p[1]); char m[200] = ""; int n = 0, r; while ((r = read(p[0], m + n, 199 - n)) > 0) n += r; wait(0);
    if (strncmp(m, "fatal allocator error: ", 23) || m[n - 1] != '\n') FAIL("message: '%s'\n", m); return 0; }
''', 'write to standard error being interrupted by a signal', 'parts of the report of a fatal error are missing')

bug('C15-guard-race', 'C15', [('h_malloc.c', ('''    mutex_lock(&ra->lock);
    size_t guard_size = get_guard_size(&ra->rng, size);
    mutex_unlock(&ra->lock);
''', 1), '''    size_t guard_size = get_guard_size(&ra->rng, size);
''')], r'''
void *h_aligned_alloc(size_t, size_t); void h_free(void *);
static pthread_barrier_t b;
static void *t(void *x) { pthread_barrier_wait(&b); for (int i = 0; i < 300; i++) h_free(h_aligned_alloc(65536, 100000)); return 0; }
int main(void) { h_free(h_aligned_alloc(65536, 10)); pthread_barrier_init(&b, 0, 4); pthread_t h[4]; for (int i = 0; i < 4; i++) pthread_create(h + i, 0, t, 0); for (int i = 0; i < 4; i++) pthread_join(h[i], 0); return 0; }
''', 'aligned large allocations by several threads at once', 'the random state of the large allocator is used without its lock', multi=1,
 static=dict(cc='gcc -fsanitize=thread', cf='-DH_MALLOC_PREFIX -DZERO_ON_FREE=true -DWRITE_AFTER_FREE_CHECK=true -DSLOT_RANDOMIZE=true -DSLAB_CANARY=true -DSLAB_QUARANTINE_RANDOM_LENGTH=1 -DSLAB_QUARANTINE_QUEUE_LENGTH=1 -DCONFIG_EXTENDED_SIZE_CLASSES=true -DCONFIG_LARGE_SIZE_CLASSES=true -DGUARD_SLABS_INTERVAL=1 -DGUARD_SIZE_DIVISOR=2 -DREGION_QUARANTINE_RANDOM_LENGTH=256 -DREGION_QUARANTINE_QUEUE_LENGTH=1024 -DREGION_QUARANTINE_SKIP_THRESHOLD=33554432 -DFREE_SLABS_QUARANTINE_RANDOM_LENGTH=32 -DCONFIG_CLASS_REGION_SIZE=1073741824 -DN_ARENA=4 -DCONFIG_STATS=false -DCONFIG_SELF_INIT=false', files='"$repo"/h_malloc.c "$repo"/memory.c "$repo"/pages.c "$repo"/random.c "$repo"/chacha.c "$repo"/util.c'))

bug('C05-quarantine-bucket', 'C05', [('h_malloc.c', 'metadata->quarantine_bitmap[bucket] &= ~(1UL << (index - bucket * U64_WIDTH));', 'metadata->quarantine_bitmap[bucket] &= index % U64_WIDTH ? ~(3UL << (index % U64_WIDTH - 1)) : ~1UL;')], r'''
int main(void) { /* the neighbour of a slot that leaves the quarantine, freed twice */
    for (int t = 0; t < 40; t++) {
        pid_t pid = fork();
        if (!pid) {
            close(2);
            char *p[200]; int n = 200;
            for (int i = 0; i < n; i++) p[i] = malloc(8192 - 8);
            char *x = NULL, *y = NULL;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (p[j] == p[i] + 8192 && ((uintptr_t)p[i] >> 16) == ((uintptr_t)p[j] >> 16)) { x = p[i]; y = p[j]; }
            if (!x) _exit(0);
            free(y); free(x);
            for (int i = 0, k = 0; i < n && k < t; i++) if (p[i] != x && p[i] != y) free(p[i]), k++;
            free(x);                                                                       /* in quarantine or free: must abort */
            _exit(1);
        }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) FAIL("double free not detected\n");
    }
    return 0; }
''', 'a double free of a slot whose neighbour left the quarantine in between', 'the record of a quarantined slot is lost when the next slot leaves the quarantine; its double free goes unnoticed')

bug('C06-shrink-in-place', 'C06', [('h_malloc.c', '        if (size <= max_slab_size_class && get_size_info(size).size == old_size) {\n', '        if (size && size <= max_slab_size_class && (get_size_info(size).size == old_size || (get_size_info(size).size < old_size && get_size_info(size).size >= old_size - old_size / 16))) {\n')], r'''
int main(void) { /* 128 KiB class steps are too wide; 640/704? look for any */
    for (size_t s = 16; s < 131000; s += 8) {
        pid_t pid = 0; char *p = malloc(s); size_t u = malloc_usable_size(p);
        for (size_t t = u - u / 8; t < s; t += 8) {
            char *q = realloc(p, t); char *f = malloc(t);
            if (malloc_usable_size(q) != malloc_usable_size(f)) FAIL("realloc(%zu -> %zu) keeps %zu bytes where malloc gives %zu; free_sized would abort\n", s, t, malloc_usable_size(q), malloc_usable_size(f));
            free(f); p = q; p = realloc(p, s);
            if (t % 64) t += 40;
        }
        free(p); s += s / 40 / 8 * 8;
    }
    return 0; }
''', 'realloc to the next smaller class, then a sized release', 'the shrunk object stays in its class, and releasing it with its size aborts')

bug('C21-aligned-usable', 'C21', [('h_malloc.c', '''    size_t size = region->size;
    mutex_unlock(&ra->lock);

    thread_seal_metadata();
    return size;
}

EXPORT size_t h_malloc_object_size(''', '''    size_t size = region->size;
    mutex_unlock(&ra->lock);

    thread_seal_metadata();
    return size > max_slab_size_class ? size : size - canary_size;
}

EXPORT size_t h_malloc_object_size(''')], r'''
int main(void) { char *p = aligned_alloc(65536, 8192 - 8); if (malloc_usable_size(p) < 8184) FAIL("usable %zu\n", malloc_usable_size(p));
    p = aligned_alloc(65536, 4096 - 8); size_t u = malloc_usable_size(p); p = aligned_alloc(65536, u); 
    for (size_t n = 1; n < 200000; n += 501) { p = aligned_alloc(16384, n); u = malloc_usable_size(p); if (u < n || u % 4096) FAIL("usable %zu for %zu\n", u, n); free(p); }
    return 0; }
''', 'a small allocation aligned to more than a page', 'malloc_usable_size is too small by the size of a canary that is not there')

bug('C22-16GiB', 'C22', [('h_malloc.c', 'size_t spacing_class = 1ULL << spacing_class_shift;', 'size_t spacing_class = 1U << spacing_class_shift;')], r'''
int main(void) { size_t n = ((size_t)17 << 30) + 12345; char *p = malloc(n); if (!p) return 0; size_t u = malloc_usable_size(p); if (u % 4096 || u < n || u > n + n / 4) FAIL("%zu for %zu\n", u, n);
    p = realloc(p, u + 1); if (p && malloc_usable_size(p) < u + 1) FAIL("grown to %zu\n", malloc_usable_size(p)); return 0; }
''', 'an allocation of more than 16 GiB', 'its size is not rounded to a size class, not even to pages')

bug('C23-madv-free', 'C23', [('memory.c', 'int ret = madvise(ptr, size, MADV_DONTNEED);', 'int ret = madvise(ptr, size, size > 65536 ? MADV_FREE : MADV_DONTNEED);')], r'''
static int bad; int madvise(void *a, size_t n, int adv) { if (adv != MADV_DONTNEED) bad = adv; return syscall(SYS_madvise, a, n, adv); }
int main(void) { for (int i = 0; i < 20; i++) free(malloc(100000)); malloc_trim(0); if (bad) FAIL("madvise advice %d\n", bad); return 0; }
''', 'malloc_trim while freed slots of more than 64 KiB are in quarantine', 'a system call that is not documented (MADV_FREE), and memory that is not returned at once')

bug('C26-slot-mask', 'C26', [('h_malloc.c', 'return slots < U64_WIDTH ? ~0UL << slots : 0;', 'return ~0UL << (slots % (U64_WIDTH + 1));')], r'''
int main(void) { for (int i = 0; i < 5000; i++) { char *p = malloc(i % 2000); if (!p) return 1; } return 0; }
''', 'CONFIG_SLOT_RANDOMIZE=false and a class with a multiple of 64 slots', 'the mask of the last word of slots is wrong, and full words look free or free ones full', opts='CONFIG_SLOT_RANDOMIZE=false')

bug('C30-early-publish', 'C30', [('h_malloc.c', '''    deallocate_pages(rng, sizeof(struct random_state), PAGE_SIZE);

    atomic_store_explicit(&ro.slab_region_end, slab_region_end, memory_order_release);

    if (unlikely''', '''    deallocate_pages(rng, sizeof(struct random_state), PAGE_SIZE);

    if (unlikely'''), ('h_malloc.c', '''    memory_set_name(ro.slab_region_start, slab_region_size, "malloc slab region gap");
''', '''    atomic_store_explicit(&ro.slab_region_end, slab_region_end, memory_order_release);
    memory_set_name(ro.slab_region_start, slab_region_size, "malloc slab region gap");
''')], r'''
#include <sched.h>
static volatile int go;
static int th(void *a) { while (!go); void *p = malloc(100 + (long)a * 50); return !p; }
int main(void) { /* the first call by eight tasks sharing memory at once, in many processes; pthread_create itself would allocate */
    for (int r = 0; r < 300; r++) {
        pid_t pid = fork();
        if (!pid) {
            pid_t t[8]; go = 0;
            for (long i = 0; i < 8; i++) t[i] = clone(th, (char *)mmap(0, 1 << 18, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + (1 << 18) - 64, CLONE_VM | CLONE_FS | CLONE_FILES | SIGCHLD, (void *)i);
            usleep(300); go = 1;
            for (int i = 0; i < 8; i++) { int st; waitpid(t[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(1); }
            _exit(0);
        }
        int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) FAIL("process %d: status %x\n", r, st);
    }
    return 0; }
''', 'two threads making the first allocator calls at the same time (no early initialization)', 'a thread sees an allocator that is not initialized yet and crashes', opts='CONFIG_SELF_INIT=false')

bug('C14-arena-locks', 'C14', [('h_malloc.c', '''    for (unsigned arena = 0; arena < N_ARENA; arena++) {
        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
            mutex_lock(''', '''    for (unsigned arena = 0; arena < N_ARENA; arena++) {
        for (unsigned class = 0; class < N_SIZE_CLASSES && arena == thread_arena; class++) {
            mutex_lock('''), ('h_malloc.c', '''    for (unsigned arena = 0; arena < N_ARENA; arena++) {
        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
            mutex_unlock(''', '''    for (unsigned arena = 0; arena < N_ARENA; arena++) {
        for (unsigned class = 0; class < N_SIZE_CLASSES && arena == thread_arena; class++) {
            mutex_unlock(''')], r'''
/* fork while another thread is inside the allocator, holding a lock of its arena: with all locks taken, fork waits for it */
static volatile int inside, done, go; static __thread int mine;
int mprotect(void *a, size_t n, int p) { if (mine && !done) { inside = 1; for (int i = 0; i < 800; i++) usleep(1000); inside = 0; done = 1; } return syscall(SYS_mprotect, a, n, p); }
static void *other(void *x) { void *w = malloc(10); mine = 1; for (int i = 0; i < 3000 && !done; i++) malloc(3000); return NULL; }
int main(void) {
    void *w = malloc(1); pthread_t t; pthread_create(&t, 0, other, 0);
    for (int i = 0; i < 30000 && !inside; i++) usleep(100);
    if (!inside) return 0;
    pid_t pid = fork();
    if (!pid) _exit(inside ? 1 : 0);
    int st; waitpid(pid, &st, 0);
    pthread_join(t, 0);
    if (st) FAIL("forked while another thread was in the middle of an allocation\n"); return 0; }
''', 'fork while a thread of another arena is in the middle of an allocation', 'the child gets the state of the other arenas in the middle of an update')

bug('C12-arena-rng', 'C12', [('h_malloc.c', '            random_state_init_from_random_state(&c->rng, rng);\n', '            if (arena == 0) {\n                random_state_init_from_random_state(&c->rng, rng);\n            } else {\n                c->rng = ro.size_class_metadata[0][class].rng;\n            }\n')], r'''
static void *th(void *a) { long *o = a; for (int i = 0; i < 40; i++) o[i] = (long)malloc(1000); return NULL; }
int main(void) { static long r[5][40]; pthread_t t; for (int i = 0; i < 5; i++) { pthread_create(&t, 0, th, r[i]); pthread_join(t, 0); }
    /* the slots within slabs (16 of 1024 bytes), of fresh arenas, thread by thread */
    for (int i = 0; i < 5; i++) for (int j = 0; j < i; j++) { int same = 0; for (int k = 0; k < 40; k++) same += (r[i][k] & 16383) / 1024 == (r[j][k] & 16383) / 1024 && (r[i][k] - r[i][0]) == (r[j][k] - r[j][0]); if (same == 40) FAIL("threads %d and %d get the same slots\n", i, j); }
    return 0; }
''', 'two arenas used alike', 'all arenas choose the same slots: what one thread sees of its own addresses tells those of another')

bug('C13-stale-cache', 'C13', [('random.c', ('    state->index = RANDOM_CACHE_SIZE;\n    state->reseed = 0;\n', 0), '    if (!state->reseed) {\n        state->index = RANDOM_CACHE_SIZE;\n    }\n    state->reseed = 0;\n')], r'''
static long seq(int n) { long h = 0; for (int i = 0; i < n; i++) h = h * 31 + ((long)malloc(1000) >> 4); return h; }
int main(void) { /* parent and child, after the fork, with the same state: choices must differ */
    int same = 0;
    for (int r = 0; r < 4; r++) { int fd[2]; pipe(fd); for (int i = 0; i < 3; i++) malloc(1000); pid_t pid = fork(); if (!pid) { long h = seq(12); write(fd[1], &h, 8); _exit(0); } long c, h = seq(12); read(fd[0], &c, 8); waitpid(pid, 0, 0); same += c == h; }
    if (same > 1) FAIL("parent and child made the same choices %d times of 4\n", same); return 0; }
''', 'a child process that uses the allocator right after fork, with random bytes left over', 'parent and child use the same random bytes until the cache is used up', multi=1)

bug('C18-grown-table-key', 'C18', [('h_malloc.c', 'if (memory_protect_rw_metadata(p, newsize)) {', 'if (memory_protect_rw(p, newsize)) {')], r'''
int main(void) {
    int key = pkey_alloc(0, 0); if (key < 0) return 0; pkey_free(key);
    for (int i = 0; i < 300; i++) malloc(200000);
    /* every private writable page that isn't sealed and holds addresses of large allocations */
    char *p = malloc(500000); FILE *f = fopen("/proc/self/smaps", "r"); char l[500]; unsigned long a = 0, e = 0; int w = 0, found = 0;
    setvbuf(f, 0, _IONBF, 0);
    while (fgets(l, sizeof l, f)) { char pr[8]; unsigned long x, y; int k;
        if (sscanf(l, "%lx-%lx %4s", &x, &y, pr) == 3) { a = x; e = y; w = pr[1] == 'w' && !strstr(l, "/") && !strstr(l, "["); }
        else if (sscanf(l, "ProtectionKey: %d", &k) == 1 && w && k == 0 && a != ((unsigned long)p & -4096UL)) for (unsigned long q = a; q < e; q += 4096) if (readable((void *)q)) for (unsigned long i = q; i < q + 4096; i += 8) if (*(unsigned long *)i == (unsigned long)p && (*(unsigned long *)(i + 8)) == malloc_usable_size(p)) found = 1; }
    if (found) FAIL("the table of large allocations is accessible\n"); return 0; }
''', 'more than 96 large allocations, with sealed metadata', 'the table they are in then is not protected by the key', opts='CONFIG_SEAL_METADATA=true')

bug('C20-trim', 'C20', [('h_malloc.c', '''                label_slab(slab, slab_size, class);
                stats_slab_deallocate(c, slab_size);

                struct''', '''                label_slab(slab, slab_size, class);
                if (iterator->next) {
                    stats_slab_deallocate(c, slab_size);
                }

                struct''')], r'''
int main(void) { /* repeated: filled, emptied, trimmed */
    size_t first = 0;
    for (int r = 0; r < 30; r++) { static char *p[300]; for (int i = 0; i < 300; i++) p[i] = malloc(2000); for (int i = 0; i < 300; i++) free(p[i]); malloc_trim(0); size_t h = mallinfo2().hblkhd; if (r == 3) first = h; if (r > 20 && h > first + 150000) FAIL("%zu bytes counted at first, %zu later\n", first, h); }
    return 0; }
''', 'malloc_trim with empty slabs', 'one slab for each size class and trim stays counted for ever', opts='CONFIG_STATS=true')

bug('C15-usable-unlocked', 'C15', [('h_malloc.c', '''    mutex_lock(&ra->lock);
    const struct region_metadata *region = regions_find(p);
    if (unlikely(region == NULL)) {
        fatal_error("invalid malloc_usable_size");
    }
    size_t size = region->size;
    mutex_unlock(&ra->lock);
''', '''    const struct region_metadata *region = regions_find(p);
    if (unlikely(region == NULL)) {
        // may be on the move
        mutex_lock(&ra->lock);
        region = regions_find(p);
        mutex_unlock(&ra->lock);
        if (unlikely(region == NULL)) {
            fatal_error("invalid malloc_usable_size");
        }
    }
    size_t size = region->size;
''')], r'''
static volatile int stop;
static void *churn(void *a) { while (!stop) { void *p[40]; for (int i = 0; i < 40; i++) p[i] = malloc(140000 + i * 40000); for (int i = 0; i < 40; i++) free(p[i]); } return NULL; }
static void *ask(void *a) { char *p = malloc(300000), *q = malloc(600000); size_t u = malloc_usable_size(p), v = malloc_usable_size(q); while (!stop) { if (malloc_usable_size(p) != u || malloc_usable_size(q) != v) FAIL("size changed\n"); } return NULL; }
int main(void) { /* many entries near each other in the table */
    pthread_t t[8]; for (int i = 0; i < 8; i++) pthread_create(&t[i], 0, i < 4 ? churn : ask, 0);
    sleep(40); stop = 1; for (int i = 0; i < 8; i++) pthread_join(t[i], 0); return 0; }
''', 'malloc_usable_size of a large allocation while another thread frees one near it in the table', 'the size of another allocation, or none, is read')

bug('C16-partial-unmap', 'C16', [('pages.c', '''    if (unprotect && unlikely(memory_protect_rw(usable, usable_size))) {
        memory_unmap(real, real_size);''', '''    if (unprotect && unlikely(memory_protect_rw(usable, usable_size))) {
        memory_unmap(real, usable_size + guard_size);''')], r'''
static int fail; static size_t mapped, unmapped;
int mprotect(void *a, size_t n, int p) { if (fail) { errno = ENOMEM; return -1; } return syscall(SYS_mprotect, a, n, p); }
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (fail) mapped += n; return (void *)syscall(SYS_mmap, a, n, p, f, fd, o); }
int munmap(void *a, size_t n) { if (fail) unmapped += n; return syscall(SYS_munmap, a, n); }
int main(void) { free(malloc(1)); fail = 1; for (int i = 0; i < 50; i++) if (malloc(300000)) FAIL("?\n"); if (mapped != unmapped) FAIL("%zu mapped and %zu unmapped\n", mapped, unmapped); return 0; }
''', 'mprotect failing with ENOMEM in a large allocation', 'the trailing guard of each failed allocation stays mapped for ever')

bug('C17-purge-error', 'C17', [('memory.c', '''    if (unlikely(ret) && errno != ENOMEM) {
        fatal_error("non-ENOMEM MADV_DONTNEED madvise failure");''', '''    if (unlikely(ret) && errno != ENOMEM && errno != EINVAL) {
        fatal_error("non-ENOMEM MADV_DONTNEED madvise failure");''')], r'''
static int fail; int madvise(void *a, size_t n, int adv) { if (fail) { errno = EINVAL; return -1; } return syscall(SYS_madvise, a, n, adv); }
int main(void) { for (int i = 0; i < 20; i++) free(malloc(100000)); pid_t pid = fork(); if (!pid) { close(2); fail = 1; malloc_trim(0); _exit(0); } int st; waitpid(pid, &st, 0); if (!WIFSIGNALED(st)) FAIL("went on after an unexpected error\n"); return 0; }
''', 'madvise failing with EINVAL', 'the error is ignored and memory believed to be purged is not')

bug('C19-empty-total', 'C19', [('h_malloc.c', '            c->empty_slabs_total -= slab_size;\n\n            metadata->next = NULL;', '            c->empty_slabs_total -= c->empty_slabs_total < slab_size * 2 ? c->empty_slabs_total : slab_size * 2;\n\n            metadata->next = NULL;')], r'''
#include <fcntl.h>
static long rss(void) { char b[200]; int fd = open("/proc/self/statm", 0); int n = read(fd, b, 199); b[n] = 0; close(fd); long a, r; sscanf(b, "%ld %ld", &a, &r); return r * 4; }
int main(void) { /* slabs go empty and come back one at a time: the cache of empty slabs is bounded */
    static char *p[4000]; for (int i = 0; i < 4000; i++) { p[i] = malloc(16000); memset(p[i], 1, 16000); }
    for (int r = 0; r < 200; r++) { for (int i = 0; i < 16; i++) { free(p[r * 16 + i]); p[r * 16 + i] = NULL; } p[r * 16] = malloc(16000); }
    for (int i = 0; i < 4000; i++) free(p[i]);
    long x = rss(); if (x > 12000) FAIL("%ld KiB resident with nothing allocated\n", x); return 0; }
''', 'empty slabs being reused and emptied again', 'the count of empty slabs is too low, so more of them than the limit stay in memory', )

bug('C02-fallback-copy', 'C02', [('h_malloc.c', '''            size_t copy_size = min(size, old_size);
            if (copy_size >= MREMAP_MOVE_THRESHOLD) {''', '''            size_t copy_size = min(size, old_size) - (old_size % MREMAP_MOVE_THRESHOLD ? old_size % PAGE_SIZE : PAGE_SIZE);
            if (copy_size >= MREMAP_MOVE_THRESHOLD) {''')], r'''
static int fail; void *mremap(void *a, size_t o, size_t n, int f, ...) { __builtin_va_list l; __builtin_va_start(l, f); void *x = __builtin_va_arg(l, void *); if (fail) { errno = ENOMEM; return MAP_FAILED; } return (void *)syscall(SYS_mremap, a, o, n, f, x); }
int main(void) { for (int k = 1; k < 4; k++) { size_t n = (size_t)k << 25; char *p = malloc(n); n = malloc_usable_size(p); memset(p, 7, n); fail = 1; char *q = realloc(p, n + (64 << 20)); fail = 0; for (size_t i = 0; i < n; i++) if (q[i] != 7) FAIL("byte %zu of %zu lost\n", i, n); free(q); } return 0; }
''', 'growing an object of a multiple of 32 MiB while mremap fails', 'its last page is not copied')

import newbugs
newbugs.add(bug)
