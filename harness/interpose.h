// The memory mapping calls of the allocator, interposed: the library calls libc through its GOT, so
// definitions in the executable see exactly the allocator's calls (libc's own calls don't pass here,
// the harness uses raw system calls). Injects failures and keeps a model of the address space the
// allocator owns.
#ifndef INTERPOSE_H
#define INTERPOSE_H
#include "vf.h"
#include <link.h>
#include <sys/random.h>

enum { C_MMAP, C_MMAP_FIXED, C_MUNMAP, C_MPROTECT, C_MREMAP, C_MADVISE, C_GETRANDOM, C_WRITE, C_PRCTL, C_OTHER, N_CALLS };
static const char *const call_name[] VF_UNUSED = {"mmap", "mmap(MAP_FIXED)", "munmap", "mprotect", "mremap", "madvise", "getrandom", "write", "prctl", "other"};
static atomic_ulong call_count[N_CALLS];
static atomic_ulong call_failed[N_CALLS];    // made to fail by the plan
static atomic_ulong call_enomem[N_CALLS];    // failed by the kernel with ENOMEM

// returns the errno this call has to fail with, or 0
static int (*volatile fault_hook)(int kind, uintptr_t a, size_t n);
// observes successful calls
static void (*volatile event_hook)(int kind, uintptr_t a, size_t n, int prot, uintptr_t b, size_t m);
static volatile bool vma_model_on = true;

typedef struct { uintptr_t a, e; } own_t;
#define MAX_OWN 200000
static own_t *own;
static size_t n_own;
static spin_t own_lock;
static uintptr_t lib_a, lib_e;
static u64 own_checks;
static struct { uintptr_t a; size_t n; } first_maps[64];   // the first mappings, which hold the allocator's state and the slab region
static unsigned n_first_maps;
static struct { uintptr_t a; size_t n; } first_prots[64];  // and the first ranges made accessible
static unsigned n_first_prots;

static int find_lib_cb(struct dl_phdr_info *i, VF_UNUSED size_t n, VF_UNUSED void *d) {
#ifdef H_MALLOC_PREFIX
    if (i->dlpi_name[0]) return 0;   // part of the program
#else
    if (!strstr(i->dlpi_name, "hardened_malloc")) return 0;
#endif
    for (int k = 0; k < i->dlpi_phnum; k++) {
        if (i->dlpi_phdr[k].p_type != PT_LOAD) continue;
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, e = a + i->dlpi_phdr[k].p_memsz;
        if (!(i->dlpi_phdr[k].p_flags & PF_W)) continue;
        a &= -PGSZ; e = (e + PGSZ - 1) & -PGSZ;
        if (!lib_e || a < lib_a) lib_a = a;
        if (e > lib_e) lib_e = e;
    }
    return 1;
}

static size_t own_index(uintptr_t a) {   // first range with e > a
    size_t l = 0, r = n_own;
    while (l < r) { size_t m = (l + r) / 2; if (own[m].e > a) r = m; else l = m + 1; }
    return l;
}
static bool own_covers(uintptr_t a, uintptr_t e) {
    own_checks++;
    for (size_t i = own_index(a); i < n_own && own[i].a <= a; i++) { if (own[i].e >= e) return true; a = own[i].e; if (i + 1 == n_own || own[i + 1].a != a) return false; }
    return false;
}
static void own_remove(uintptr_t a, uintptr_t e) {
    size_t i = own_index(a);
    while (i < n_own && own[i].a < e) {
        own_t o = own[i];
        bool left = o.a < a, right = o.e > e;
        if (left && right) {
            if (n_own + 1 > MAX_OWN) vf_die("too many owned ranges");
            memmove(&own[i + 2], &own[i + 1], (n_own - i - 1) * sizeof(own_t));
            n_own++;
            own[i] = (own_t){o.a, a}; own[i + 1] = (own_t){e, o.e};
            return;
        }
        if (left) { own[i].e = a; i++; }
        else if (right) { own[i].a = e; return; }
        else { memmove(&own[i], &own[i + 1], (n_own - i - 1) * sizeof(own_t)); n_own--; }
    }
}
static void own_add(uintptr_t a, uintptr_t e) {
    own_remove(a, e);
    size_t i = own_index(a);
    if (i > 0 && own[i - 1].e == a) {
        own[i - 1].e = e;
        if (i < n_own && own[i].a == e) { own[i - 1].e = own[i].e; memmove(&own[i], &own[i + 1], (n_own - i - 1) * sizeof(own_t)); n_own--; }
        return;
    }
    if (i < n_own && own[i].a == e) { own[i].a = a; return; }
    if (n_own + 1 > MAX_OWN) vf_die("too many owned ranges");
    memmove(&own[i + 1], &own[i], (n_own - i) * sizeof(own_t));
    n_own++;
    own[i] = (own_t){a, e};
}
static void ip_init(void) {
    if (own) return;
    own = (void *)syscall(SYS_mmap, NULL, sizeof(own_t) * MAX_OWN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    dl_iterate_phdr(find_lib_cb, NULL);
}
#define RND_UP(n) (((n) + PGSZ - 1) & -PGSZ)

static int ip_fault(int kind, uintptr_t a, size_t n) {
    atomic_fetch_add_explicit(&call_count[kind], 1, memory_order_relaxed);
    int (*h)(int, uintptr_t, size_t) = fault_hook;
    int e = h ? h(kind, a, n) : 0;
    if (e) { atomic_fetch_add_explicit(&call_failed[kind], 1, memory_order_relaxed); errno = e; }
    return e;
}
static void ip_event(int kind, uintptr_t a, size_t n, int prot, uintptr_t b, size_t m) {
    void (*h)(int, uintptr_t, size_t, int, uintptr_t, size_t) = event_hook;
    if (h) h(kind, a, n, prot, b, m);
}
static void ip_kernel(int kind) { if (errno == ENOMEM) atomic_fetch_add_explicit(&call_enomem[kind], 1, memory_order_relaxed); }
// the range has to be memory of the allocator
static void ip_must_own(const char *what, uintptr_t a, size_t n) {
    if (a & (PGSZ - 1)) viol("C23", "%s of the unaligned address %lx", what, a);
    if (!n) { viol("C23", "%s of an empty range", what); return; }
    if (!own_covers(a, a + RND_UP(n))) {
        viol("C23", "%s of [%lx, %lx), which the allocator doesn't own", what, a, a + RND_UP(n));
        viol("C16", "%s of [%lx, %lx), which the allocator doesn't own", what, a, a + RND_UP(n));
    }
}

void *mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    uintptr_t a = (uintptr_t)p;
    bool fixed = flags & MAP_FIXED;
    int kind = fixed ? C_MMAP_FIXED : C_MMAP;
    if (ip_fault(kind, a, n)) return MAP_FAILED;
    if (vma_model_on) {
        spin_lock(&own_lock);
        ip_init();
        if (!(flags & MAP_ANONYMOUS) || !(flags & MAP_PRIVATE) || fd != -1) viol("C23", "mmap with flags %x, descriptor %d", flags, fd);
        if (prot != PROT_NONE) viol("C23", "mmap with protection %d", prot);
        if (flags & ~(MAP_ANONYMOUS | MAP_PRIVATE | MAP_FIXED)) viol("C23", "mmap with flags %x", flags);
        if (fixed) ip_must_own("mmap(MAP_FIXED)", a, n);
    }
    void *r = (void *)syscall(SYS_mmap, p, n, prot, flags, fd, off);
    if (r != MAP_FAILED) { if (vma_model_on && !fixed) own_add((uintptr_t)r, (uintptr_t)r + RND_UP(n)); }
    else ip_kernel(kind);
    if (r != MAP_FAILED && !fixed && n_first_maps < 64) { first_maps[n_first_maps].a = (uintptr_t)r; first_maps[n_first_maps++].n = n; }
    if (vma_model_on) spin_unlock(&own_lock);
    if (r != MAP_FAILED) ip_event(kind, (uintptr_t)r, n, prot, 0, 0);
    return r;
}
void *mmap64(void *p, size_t n, int prot, int flags, int fd, off_t off) __attribute__((alias("mmap")));

int munmap(void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (ip_fault(C_MUNMAP, a, n)) return -1;
    if (vma_model_on) { spin_lock(&own_lock); ip_init(); ip_must_own("munmap", a, n); }
    int r = syscall(SYS_munmap, p, n);
    if (!r) { if (vma_model_on) own_remove(a, a + RND_UP(n)); }
    else ip_kernel(C_MUNMAP);
    if (vma_model_on) spin_unlock(&own_lock);
    if (!r) ip_event(C_MUNMAP, a, n, 0, 0, 0);
    return r;
}

static int ip_protect(void *p, size_t n, int prot, int pkey, bool has_key) {
    uintptr_t a = (uintptr_t)p;
    if (ip_fault(C_MPROTECT, a, n)) return -1;
    if (vma_model_on) {
        spin_lock(&own_lock);
        ip_init();
        if (prot & PROT_EXEC) viol("C23", "mprotect adds execute permission");
        if (prot & ~(PROT_READ | PROT_WRITE)) viol("C23", "mprotect with protection %x", prot);
        bool in_lib = a >= lib_a && a + n <= lib_e;
        if (!in_lib) ip_must_own("mprotect", a, n);
        else if (prot & PROT_WRITE) viol("C23", "mprotect makes the library's globals writable");
    }
    int r = has_key ? syscall(SYS_pkey_mprotect, p, n, (long)prot, (long)pkey) : syscall(SYS_mprotect, p, n, (long)prot);
    if (r) ip_kernel(C_MPROTECT);
    else if (prot == (PROT_READ | PROT_WRITE) && n_first_prots < 64) { first_prots[n_first_prots].a = a; first_prots[n_first_prots++].n = n; }
    if (vma_model_on) spin_unlock(&own_lock);
    if (!r) ip_event(C_MPROTECT, a, n, prot, 0, 0);
    return r;
}
int mprotect(void *p, size_t n, int prot) { return ip_protect(p, n, prot, -1, false); }
int pkey_mprotect(void *p, size_t n, int prot, int pkey) { return ip_protect(p, n, prot, pkey, true); }

void *mremap(void *p, size_t n, size_t m, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    void *to = flags & MREMAP_FIXED ? va_arg(ap, void *) : NULL;
    va_end(ap);
    uintptr_t a = (uintptr_t)p, b = (uintptr_t)to;
    if (ip_fault(C_MREMAP, a, n)) return MAP_FAILED;
    if (vma_model_on) {
        spin_lock(&own_lock);
        ip_init();
        ip_must_own("mremap", a, n);
        if (flags & MREMAP_FIXED) ip_must_own("mremap target", b, m);
        if (flags & ~(MREMAP_MAYMOVE | MREMAP_FIXED)) viol("C23", "mremap with flags %x", flags);
    }
    void *r = (void *)syscall(SYS_mremap, p, n, m, flags, to);
    if (r != MAP_FAILED) {
        if (vma_model_on) { own_remove(a, a + RND_UP(n)); own_add((uintptr_t)r, (uintptr_t)r + RND_UP(m)); }
    } else ip_kernel(C_MREMAP);
    if (vma_model_on) spin_unlock(&own_lock);
    if (r != MAP_FAILED) ip_event(C_MREMAP, a, n, 0, (uintptr_t)r, m);
    return r;
}

int madvise(void *p, size_t n, int advice) {
    uintptr_t a = (uintptr_t)p;
    if (ip_fault(C_MADVISE, a, n)) return -1;
    if (vma_model_on) {
        spin_lock(&own_lock);
        ip_init();
        if (advice != MADV_DONTNEED) viol("C23", "madvise with advice %d", advice);
        ip_must_own("madvise", a, n);
        spin_unlock(&own_lock);
    }
    int r = syscall(SYS_madvise, p, n, (long)advice);
    if (r) ip_kernel(C_MADVISE);
    else ip_event(C_MADVISE, a, n, 0, 0, 0);
    return r;
}

static ssize_t (*volatile getrandom_hook)(void *buf, size_t n, unsigned flags);
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (ip_fault(C_GETRANDOM, (uintptr_t)buf, n)) return -1;
    if (flags) viol("C23", "getrandom with flags %x", flags);
    if (getrandom_hook) return getrandom_hook(buf, n, flags);
    return syscall(SYS_getrandom, buf, n, (long)flags);
}

static ssize_t (*volatile write_hook)(int fd, const void *buf, size_t n);
ssize_t write(int fd, const void *buf, size_t n) {
    if (ip_fault(C_WRITE, (uintptr_t)buf, n)) return -1;
    if (write_hook) return write_hook(fd, buf, n);
    return syscall(SYS_write, (long)fd, buf, n);
}

#ifdef CF_LABEL
// memory labels; without a hook they go to the kernel, which may know nothing about them
static int (*volatile label_hook)(uintptr_t a, size_t n, const char *name);
int prctl(int op, ...) {
    va_list ap;
    va_start(ap, op);
    u64 kind = va_arg(ap, u64);
    uintptr_t a = va_arg(ap, uintptr_t);
    size_t n = va_arg(ap, size_t);
    const char *name = va_arg(ap, const char *);
    va_end(ap);
    if (op != 0x53564d41 /* PR_SET_VMA */ || (int)kind != 0 /* ANON_NAME */) { viol("C23", "prctl(%d, %lx)", op, kind); errno = EINVAL; return -1; }
    if (ip_fault(C_PRCTL, a, n)) return -1;
    if (vma_model_on) {
        spin_lock(&own_lock);
        ip_init();
        if (!(a >= lib_a && a + n <= lib_e)) ip_must_own("prctl(PR_SET_VMA)", a, n);
        spin_unlock(&own_lock);
    }
    if (label_hook) return label_hook(a, n, name);
    return syscall(SYS_prctl, (long)op, kind, a, n, name);
}
#endif
static void VF_UNUSED ip_stats(void) {
    for (int k = 0; k < N_CALLS; k++) {
        char b[64];
        if (call_count[k]) { vf_fmt(b, sizeof b, "calls.%s", call_name[k]); vstat(b, call_count[k]); }
        if (call_failed[k]) { vf_fmt(b, sizeof b, "injected.%s", call_name[k]); vstat(b, call_failed[k]); }
        if (call_enomem[k]) { vf_fmt(b, sizeof b, "kernel_enomem.%s", call_name[k]); vstat(b, call_enomem[k]); }
    }
}
#endif
