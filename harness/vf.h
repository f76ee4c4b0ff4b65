// Common parts of the harnesses: output without malloc, PRNG, probing, ownership table, size model.
//
// The harnesses only use the public API of the allocator (include/h_malloc.h), so they don't depend
// on how it is written. The h_ prefix is either a macro for the standard name (shared library) or
// part of the name (static sanitizer builds with H_MALLOC_PREFIX).
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "h_malloc.h"

// ---- configuration of the library under test, passed by the driver with -D ----
#ifndef CF_EXT
#define CF_EXT 1
#endif
#ifndef CF_LARGE
#define CF_LARGE 1
#endif
#ifndef CF_CANARY
#define CF_CANARY 1
#endif
#ifndef CF_ZERO
#define CF_ZERO 1
#endif
#ifndef CF_WAF
#define CF_WAF 1
#endif
#ifndef CF_RANDSLOT
#define CF_RANDSLOT 1
#endif
#ifndef CF_QR
#define CF_QR 1
#endif
#ifndef CF_QQ
#define CF_QQ 1
#endif
#ifndef CF_GUARD
#define CF_GUARD 1
#endif
#ifndef CF_GDIV
#define CF_GDIV 2
#endif
#ifndef CF_RQR
#define CF_RQR 256
#endif
#ifndef CF_RQQ
#define CF_RQQ 1024
#endif
#ifndef CF_RQSKIP
#define CF_RQSKIP 33554432
#endif
#ifndef CF_FSQ
#define CF_FSQ 32
#endif
#ifndef CF_REGION
#define CF_REGION 34359738368
#endif
#ifndef CF_ARENAS
#define CF_ARENAS 4
#endif
#ifndef CF_STATS
#define CF_STATS 0
#endif
#ifndef CF_SEAL
#define CF_SEAL 0
#endif
#ifndef CF_SELFINIT
#define CF_SELFINIT 1
#endif

#define PGSZ 4096UL
#define MAXSMALL (CF_EXT ? 131072UL : 16384UL)
#define CANARY (CF_CANARY ? 8UL : 0UL)

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

#define VF_UNUSED __attribute__((unused))

// ---- output ----
static atomic_int vf_nviol;
static __thread char vf_section[80] = "-";

static void vf_write(const char *s, size_t n) {
    while (n) {
        ssize_t r = syscall(SYS_write, 1, s, n);
        if (r < 0) {
            if (errno == EINTR) continue;
            return;
        }
        s += r;
        n -= r;
    }
}

// small formatter: %s %d %u %x %p %zu %lu %lx (all integers 64 bit aware by the l/z flags)
static void vf_vfmt(char *out, size_t cap, const char *f, va_list ap) {
    size_t o = 0;
#define PUT(c) do { if (o + 1 < cap) out[o++] = (c); } while (0)
    for (; *f; f++) {
        if (*f != '%') { PUT(*f); continue; }
        f++;
        int lng = 0;
        while (*f == 'l' || *f == 'z') { lng = 1; f++; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            if (!s) s = "(null)";
            for (; *s; s++) PUT(*s);
        } else if (*f == 'd' || *f == 'u' || *f == 'x' || *f == 'p') {
            u64 v; int neg = 0, base = 10;
            if (*f == 'p') { v = (u64)va_arg(ap, void *); base = 16; PUT('0'); PUT('x'); }
            else if (*f == 'd') {
                int64_t t = lng ? va_arg(ap, int64_t) : va_arg(ap, int);
                neg = t < 0; v = neg ? -(u64)t : (u64)t;
            } else { v = lng ? va_arg(ap, u64) : va_arg(ap, unsigned); if (*f == 'x') base = 16; }
            char b[24]; int k = 0;
            do { b[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
            if (neg) PUT('-');
            while (k) { k--; PUT(b[k]); }
        } else PUT(*f);
    }
    out[o] = 0;
#undef PUT
}

static void VF_UNUSED vf_fmt(char *out, size_t cap, const char *f, ...) {
    va_list ap; va_start(ap, f); vf_vfmt(out, cap, f, ap); va_end(ap);
}

static void vf_line(const char *kind, const char *f, va_list ap) {
    char b[1024];
    size_t o = 0;
    while (kind[o]) { b[o] = kind[o]; o++; }
    b[o++] = ' ';
    vf_vfmt(b + o, sizeof(b) - o - 2, f, ap);
    o = strlen(b);
    b[o++] = '\n';
    vf_write(b, o);
}

// VIOL <property> <text>
static atomic_int vf_nforeign;
// with VF_PROP (a list of properties) set, violations of others are noted but end nothing, so that they can't hide those asked for
static bool vf_mine(const char *prop) {
    const char *e = getenv("VF_PROP");
    return !e || !*e || strchr(e, '*') || strstr(e, prop);
}
static void VF_UNUSED viol(const char *prop, const char *f, ...) {
    if (vf_mine(prop)) { if (atomic_fetch_add(&vf_nviol, 1) > 20) return; }
    else if (atomic_fetch_add(&vf_nforeign, 1) > 6) return;
    char m[900]; va_list ap; va_start(ap, f); vf_vfmt(m, sizeof(m), f, ap); va_end(ap);
    char b[1100]; vf_fmt(b, sizeof(b), "VIOL %s [%s] %s\n", prop, vf_section, m);
    vf_write(b, strlen(b));
}
static void VF_UNUSED vstat(const char *key, u64 v) {
    char b[200]; vf_fmt(b, sizeof(b), "STAT %s %lu\n", key, v); vf_write(b, strlen(b));
}
// 64 distinct cases, numbered from 64 * word: the driver counts the union over all runs
static void VF_UNUSED vcov(const char *tag, u64 word, u64 mask) {
    char b[200]; vf_fmt(b, sizeof(b), "COV %s %lu %lx\n", tag, word, mask); vf_write(b, strlen(b));
}
static void VF_UNUSED vsample(const char *f, ...) { va_list ap; va_start(ap, f); vf_line("SAMPLE", f, ap); va_end(ap); }
static void VF_UNUSED vinfo(const char *f, ...) { va_list ap; va_start(ap, f); vf_line("INFO", f, ap); va_end(ap); }
// the harness itself failed: not a verdict about the property
static void VF_UNUSED __attribute__((noreturn)) vf_die(const char *f, ...) {
    va_list ap; va_start(ap, f); vf_line("HARNESS-ERROR", f, ap); va_end(ap); syscall(SYS_exit_group, 3); __builtin_unreachable();
}
// the allocator did something that a correct workload can't go on after
static void VF_UNUSED __attribute__((noreturn)) vf_broken(const char *f, ...) {
    va_list ap; va_start(ap, f); vf_line("CRASH", f, ap); va_end(ap); syscall(SYS_exit_group, 1); __builtin_unreachable();
}
static void VF_UNUSED vf_section_set(const char *f, ...) { va_list ap; va_start(ap, f); vf_vfmt(vf_section, sizeof(vf_section), f, ap); va_end(ap); }
static void VF_UNUSED __attribute__((noreturn)) vf_finish(void) {
    vstat("finished", 1);
    syscall(SYS_exit_group, vf_nviol ? 1 : 0);
    __builtin_unreachable();
}

// ---- PRNG ----
typedef struct { u64 s; } rng_t;
static inline u64 rnd(rng_t *r) {
    u64 z = (r->s += 0x9e3779b97f4a7c15UL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
    return z ^ (z >> 31);
}
static inline u64 rndn(rng_t *r, u64 n) { return n ? (u64)(((unsigned __int128)rnd(r) * n) >> 64) : 0; }
static inline u64 rndr(rng_t *r, u64 a, u64 b) { return a + rndn(r, b - a + 1); }

static u64 VF_UNUSED env_u64(const char *n, u64 d) { const char *e = getenv(n); return e && *e ? strtoull(e, NULL, 0) : d; }

// ---- memory of the harness, never from the allocator or the interposed functions ----
static void *VF_UNUSED vf_map(size_t n) {
    void *p = (void *)syscall(SYS_mmap, NULL, (n + PGSZ - 1) & -PGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    if (p == MAP_FAILED) vf_die("out of memory in the harness");
    return p;
}

// ---- probing ----
static __thread sigjmp_buf vf_jb;
static __thread volatile int vf_jb_on;
static void vf_segv(int sig, siginfo_t *si, VF_UNUSED void *uc) {
    if (vf_jb_on) { vf_jb_on = 0; siglongjmp(vf_jb, 1); }
    char b[200];
    vf_fmt(b, sizeof(b), "CRASH signal %d at address %p in section %s\n", sig, si->si_addr, vf_section);
    vf_write(b, strlen(b));
    signal(sig, SIG_DFL);
    raise(sig);
}
static void vf_abrt(VF_UNUSED int sig, VF_UNUSED siginfo_t *si, VF_UNUSED void *uc) {
    char b[200];
    vf_fmt(b, sizeof(b), "CRASH abort in section %s\n", vf_section);
    vf_write(b, strlen(b));
}
static void VF_UNUSED vf_install_segv(void) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = vf_segv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sa.sa_sigaction = vf_abrt;
    sa.sa_flags = SA_SIGINFO | SA_RESETHAND;
    sigaction(SIGABRT, &sa, NULL);
}
// -1: the access faults, otherwise the byte
static int VF_UNUSED __attribute__((noinline)) probe_read(const volatile void *p) {
    int r = -1;
    if (sigsetjmp(vf_jb, 0) == 0) {
        vf_jb_on = 1;
        r = *(const volatile u8 *)p;
        vf_jb_on = 0;
    } else r = -1;
    return r;
}
// true if writable; writes back the same byte (or 0 when not readable)
static bool VF_UNUSED __attribute__((noinline)) probe_write(volatile void *p) {
    volatile bool ok = false;
    if (sigsetjmp(vf_jb, 0) == 0) {
        vf_jb_on = 1;
        volatile u8 *q = p;
        *q = *q;
        ok = true;
        vf_jb_on = 0;
    }
    return ok;
}
// scans [p, p+n): returns the offset of the first readable non-zero byte, or n. Unreadable pages are skipped.
static size_t VF_UNUSED __attribute__((noinline)) probe_nonzero(const volatile void *p, size_t n, size_t *unreadable) {
    const volatile u8 *b = p;
    size_t i = 0, un = 0;
    while (i < n) {
        size_t pe = ((((uintptr_t)b + i) | (PGSZ - 1)) + 1) - (uintptr_t)b;
        if (pe > n) pe = n;
        if (probe_read(b + i) < 0) { un += pe - i; i = pe; continue; }
        for (; i < pe; i++) if (b[i]) { if (unreadable) *unreadable = un; return i; }
    }
    if (unreadable) *unreadable = un;
    return n;
}

// ---- size class model, from the documented table ----
static const u32 doc_classes[] = {16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512,
    640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192,
    10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072};
static const u16 doc_slots[] = {256, 128, 85, 64, 51, 42, 36, 64, 51, 64, 54, 64, 64, 64, 64, 64, 64, 64, 64, 64,
    16, 16, 16, 16, 8, 8, 8, 8, 8, 8, 8, 8, 6, 5, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
#define N_DOC (CF_EXT ? 48 : 36)
// classes are numbered as in malloc_info: 0 is the zero size class
static inline size_t class_size(unsigned c) { return c ? doc_classes[c - 1] : 0; }
static inline size_t class_slots(unsigned c) { return c ? doc_slots[c - 1] : 256; }
static inline size_t class_slab(unsigned c) { return (class_slots(c) * (c ? class_size(c) : 16) + PGSZ - 1) & -PGSZ; }

#define EXP_LARGE 1000
struct exp { unsigned cls; size_t usable; size_t region; };  // cls == EXP_LARGE for large; usable 0 and region 0: impossible
static size_t VF_UNUSED large_class(size_t s) {
    if (!CF_LARGE && !s) return PGSZ;
    if (!CF_LARGE) return s + PGSZ - 1 < s ? 0 : (s + PGSZ - 1) & -PGSZ;
    if (s < PGSZ) s = PGSZ;
    unsigned sh = 63 - __builtin_clzl(s - 1);   // 2^sh < s <= 2^(sh+1)
    size_t step = 1UL << (sh - 2);
    size_t r = (s + step - 1) & -step;
    return r < s ? 0 : r;
}
// Restarts the program without libstdc++'s emergency pool, which is a live object nobody else knows about.
static void VF_UNUSED vf_without_pool(char **argv) {
    if (getenv("GLIBCXX_TUNABLES")) return;
    setenv("GLIBCXX_TUNABLES", "glibcxx.eh_pool.obj_count=0", 1);
    execv("/proc/self/exe", argv);
    vf_die("exec");
}
// sizes about those at which reallocation moves pages, often exactly those of classes
static size_t VF_UNUSED huge_size(rng_t *r) {
    static const u8 m[] = {28, 32, 32, 36, 40, 44, 48, 56, 64, 64, 80};
    if (rndn(r, 2)) return rndr(r, 30UL << 20, 80UL << 20);
    size_t s = (size_t)m[rndn(r, sizeof m)] << 20;
    unsigned k = rndn(r, 4);
    return k == 0 ? s - rndn(r, 5000) : k == 1 ? s + rndn(r, 5000) : s;
}
static struct exp VF_UNUSED expect_size(size_t req, size_t align) {
    size_t s = req;
    if (s > 0 && s <= MAXSMALL) s += CANARY;
    if (align <= PGSZ && s <= MAXSMALL) {
        if (s == 0 && align <= 16) return (struct exp){0, 0, 0};
        for (unsigned c = 1; c <= N_DOC; c++)
            if (class_size(c) >= s && (align <= 16 || class_size(c) % align == 0))
                return (struct exp){c, class_size(c) - CANARY, class_size(c)};
    }
    size_t l = large_class(s);
    return (struct exp){EXP_LARGE, l, l};
}
// length of the quarantine for a class: scaled so the memory is the same as for the largest class
static size_t VF_UNUSED quarantine_len(unsigned c, size_t len) {
    size_t s = c ? class_size(c) : 16;
    unsigned maxlog = CF_EXT ? 17 : 14;
    return len << (maxlog - (63 - __builtin_clzl(s)));
}

static u64 VF_UNUSED now_ns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000UL + t.tv_nsec; }

// spin lock that never calls into the allocator
typedef struct { atomic_int v; } spin_t;
static inline void spin_lock(spin_t *l) { for (int i = 0; atomic_exchange_explicit(&l->v, 1, memory_order_acquire); i++) if (i > 50) sched_yield(); }
static inline void spin_unlock(spin_t *l) { atomic_store_explicit(&l->v, 0, memory_order_release); }
#endif
