// C18: where the allocator keeps its state, what points to it, how it is bounded, and (sealed metadata)
// that no thread can access it outside of calls, after any entry point and any way it can return.
// The first call is made before any constructor, by the entry point given in VF_PRE.
#include "interpose.h"
#include "ops.h"

#define MAXT 16
static volatile int pre_kind = -1;
static volatile bool pre_only;
static u8 *volatile pre_p;
static struct { uintptr_t a, e; } stv[8], res;    // state mappings, slab region
static volatile unsigned n_st;
static volatile u32 key_mask;                     // PKRU bits which have to be set (access disable)
static volatile u32 key_closed;
static u64 n_seal, n_probe, n_words, n_snap, n_ptr, n_rwpages, n_stpages;
static __thread bool in_fork;

static inline u32 rdpkru(void) { u32 a, d; __asm__ volatile(".byte 0x0f,0x01,0xee" : "=a"(a), "=d"(d) : "c"(0)); return a; }
static inline void wrpkru(u32 v) { __asm__ volatile(".byte 0x0f,0x01,0xef" : : "a"(v), "c"(0), "d"(0) : "memory"); }

// ---- /proc/self/maps ----
typedef struct { uintptr_t a, e; char perm[5]; int key; bool lib; } vma_t;
static vma_t *vm;
static size_t n_vm;
static char *mbuf;
#define MBUF (64UL << 20)
#define MAXVM 400000
static uintptr_t hex(const char **s) {
    uintptr_t v = 0;
    for (;; (*s)++) {
        char c = **s;
        if (c >= '0' && c <= '9') v = v * 16 + c - '0';
        else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10;
        else return v;
    }
}
static void read_maps(bool smaps) {
    if (!vm) { vm = vf_map(sizeof(vma_t) * MAXVM); mbuf = vf_map(MBUF); }
    int fd = syscall(SYS_open, smaps ? "/proc/self/smaps" : "/proc/self/maps", O_RDONLY);
    if (fd < 0) vf_die("no maps");
    size_t n = 0;
    for (;;) { long r = syscall(SYS_read, fd, mbuf + n, MBUF - 1 - n); if (r <= 0) break; n += r; }
    mbuf[n] = 0;
    syscall(SYS_close, fd);
    n_vm = 0;
    for (const char *s = mbuf; *s;) {
        const char *l = s;
        const char *e = strchr(s, '\n');
        if (!e) break;
        if ((*l >= '0' && *l <= '9') || (*l >= 'a' && *l <= 'f')) {
            vma_t *v = &vm[n_vm];
            v->a = hex(&l); l++;
            v->e = hex(&l); l++;
            memcpy(v->perm, l, 4); v->perm[4] = 0;
            v->key = 0;
            if (++n_vm >= MAXVM) vf_die("too many mappings");
        } else if (!strncmp(l, "ProtectionKey:", 14) && n_vm) vm[n_vm - 1].key = atoi(l + 14);
        s = e + 1;
    }
}
static bool in_state(uintptr_t v) { for (unsigned i = 0; i < n_st; i++) if (v >= stv[i].a && v < stv[i].e) return true; return false; }

// committed parts of the state
static struct { uintptr_t a, e; } com[20000];
static unsigned n_com;
static bool in_committed(uintptr_t v) {
    unsigned l = 0, r = n_com;
    while (l < r) { unsigned m = (l + r) / 2; if (com[m].e > v) r = m; else l = m + 1; }
    return l < n_com && com[l].a <= v;
}

// ---- snapshot of the whole process, all other threads idle ----
static struct { uintptr_t a, e; } base_rw[256];     // large memory of the C library from before main
static unsigned n_base_rw;
static uintptr_t tls_a, tls_n;
static int tls_cb(struct dl_phdr_info *i, VF_UNUSED size_t n, VF_UNUSED void *d) {
    if (!strstr(i->dlpi_name, "hardened_malloc")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tls_a = (uintptr_t)i->dlpi_tls_data; tls_n = i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static __thread volatile bool scan_open;
static void scan_global(uintptr_t a, uintptr_t e, const char *what) {
    for (uintptr_t w = (a + 7) & -8UL; w + 8 <= e; w += 8) {
        uintptr_t v = *(volatile uintptr_t *)w;
        n_words++;
        if (v < 65536) continue;
        if (in_state(v) || (v >= res.a && v < res.e)) viol("C18", "%s at %lx holds the pointer %lx to %s", what, w, v, in_state(v) ? "allocator state" : "the slab region");
    }
}
static ops_t *all_ops[MAXT];
static unsigned n_ops;
static void sort_rng(void *x, unsigned n) {    // qsort may allocate
    struct { uintptr_t a, e; } *v = x, t;
    for (unsigned gap = n / 2; gap; gap /= 2)
        for (unsigned i = gap; i < n; i++) {
            unsigned j = i;
            t.a = v[i].a; t.e = v[i].e;
            for (; j >= gap && v[j - gap].a > t.a; j -= gap) { v[j].a = v[j - gap].a; v[j].e = v[j - gap].e; }
            v[j].a = t.a; v[j].e = t.e;
        }
}
static void snapshot(void) {
    u32 saved = CF_SEAL && key_mask ? rdpkru() : 0;
    n_snap++;
    read_maps(CF_SEAL);
    n_com = 0;
    bool readonly_ptr = false;
    static struct { uintptr_t a, e; } lg[20000];
    unsigned nl = 0;
    for (unsigned k = 0; k < n_ops; k++) for (unsigned i = 0; i < all_ops[k]->nobj; i++) {
        op_obj *o = &all_ops[k]->o[i];
        if (!o->p || o->cls != EXP_LARGE || nl >= 20000) continue;
        size_t u = h_malloc_usable_size(o->p);
        lg[nl].a = (uintptr_t)o->p; lg[nl++].e = (uintptr_t)o->p + RND_UP(u);
    }
    sort_rng(lg, nl);
    spin_lock(&own_lock);
    for (unsigned s = 0; s < n_st; s++) {
        uintptr_t lo = 0, hi = 0;
        for (size_t i = 0; i < n_vm; i++) {
            vma_t *v = &vm[i];
            uintptr_t a = v->a > stv[s].a ? v->a : stv[s].a, e = v->e < stv[s].e ? v->e : stv[s].e;
            if (a >= e || (v->perm[0] != 'r' && v->perm[1] != 'w')) continue;
            if (v->perm[2] == 'x') viol("C18", "executable allocator state");
            if (!lo) lo = a;
            hi = e;
            n_stpages += (e - a) / PGSZ;
            if (n_com < 20000) { com[n_com].a = a; com[n_com++].e = e; }
            if (CF_SEAL && key_mask && !v->key) viol("C18", "state [%lx, %lx) accessible without the protection key", a, e);
            if (CF_SEAL && key_mask && v->key && !(key_mask & 1U << 2 * v->key)) viol("C18", "state with another protection key");
        }
        if (!lo) continue;
        if (!own_covers(stv[s].a, lo) || lo == stv[s].a) viol("C18", "no inaccessible memory before the allocator's state");
        if (!own_covers(hi, stv[s].e) || hi == stv[s].e) viol("C18", "no inaccessible memory after the allocator's state");
    }
    if (!n_com) viol("C18", "allocator state is not in a mapping of its own");
    sort_rng(com, n_com);
    for (size_t i = 0; i < n_vm; i++) {
        vma_t *v = &vm[i];
        if (v->a < lib_e && v->e > lib_a) {
            uintptr_t a = v->a > lib_a ? v->a : lib_a, e = v->e < lib_e ? v->e : lib_e;
            if (v->perm[1] == 'w') scan_global(a, e, "a writable global");
            else if (v->perm[0] == 'r' && !readonly_ptr) for (uintptr_t w = a; w + 8 <= e; w += 8) if (in_committed(*(uintptr_t *)w)) { readonly_ptr = true; break; }
            continue;
        }
        if (v->perm[0] != 'r') continue;
        if (in_state(v->a)) continue;
        for (size_t j = own_index(v->a); j < n_own && own[j].a < v->e; j++) {
            uintptr_t a = v->a > own[j].a ? v->a : own[j].a, e = v->e < own[j].e ? v->e : own[j].e;
            if (a >= e) continue;
            if (in_state(a)) continue;
            if (v->perm[2] == 'x') viol("C18", "executable memory [%lx, %lx)", a, e);
            // memory of the program: no pointers to the state. The whole of it in turns of 8 MiB.
            static u64 turn;
            uintptr_t from = a, to = e;
            if (e - a > (8UL << 20)) { from = a + (turn++ * (8UL << 20)) % (e - a); from &= -PGSZ; to = from + (8UL << 20) < e ? from + (8UL << 20) : e; }
            for (uintptr_t w = from; w < to; w += 8) {
                uintptr_t x = *(volatile uintptr_t *)w;
                n_words++;
                if (__builtin_expect(x >= com[0].a && x < com[n_com - 1].e, 0) && in_committed(x)) viol("C18", "memory of the program at %lx holds a pointer %lx to allocator state", w, x);
            }
            n_rwpages += (e - a) / PGSZ;
            if (a >= res.a && e <= res.e) continue;
            // not the slab region: the large objects alive now, or from before main
            for (unsigned b = 0; b < n_base_rw; b++) if (a < base_rw[b].e && e > base_rw[b].a) goto known;
            uintptr_t at = a;
            for (unsigned b = 0; b < nl; b++) if (lg[b].a <= at && lg[b].e > at) at = lg[b].e;
            if (at < e) {
                if (call_failed[C_MMAP_FIXED] + call_failed[C_MUNMAP] + call_failed[C_MREMAP]) continue;   // freed memory which could not be revoked
                viol("C18", "accessible memory [%lx, %lx) which is neither the state, nor the slab region, nor a live large allocation", at, e);
            }
        known:;
        }
    }
    tls_a = 0;
    dl_iterate_phdr(tls_cb, NULL);
    if (tls_a) scan_global(tls_a, tls_a + tls_n, "a thread-local variable");
    (void)readonly_ptr;
    spin_unlock(&own_lock);
    if (CF_SEAL && key_mask && rdpkru() != saved) viol("C18", "size query leaves other access rights");
}

// ---- sealing ----
static void closed(const char *after) {
    if (!CF_SEAL || !key_mask) return;
    __atomic_fetch_add(&n_seal, 1, __ATOMIC_RELAXED);
    u32 v = rdpkru();
    if ((v & key_mask) != key_mask) viol("C18", "after %s the metadata is not sealed: access rights %x", after, v);
}
static void probe_closed(rng_t *r, const char *after) {
    if (!CF_SEAL || !key_mask || !n_com) return;
    u32 v = rdpkru();
    unsigned i = rndn(r, n_com);
    uintptr_t a = com[i].a + rndn(r, com[i].e - com[i].a);
    int x = probe_read((void *)a);
    if (x >= 0) viol("C18", "after %s the sealed state at %lx can be read", after, a);
    wrpkru(v);
    __atomic_fetch_add(&n_probe, 1, __ATOMIC_RELAXED);
}
static __thread ops_t *cur;
static void m_alloc(op_obj *o) {
    n_ptr++;
    if (in_state((uintptr_t)o->p) || in_state((uintptr_t)o->p + o->n)) viol("C18", "an allocation at %p in the memory reserved for state", o->p);
    for (size_t i = 0; i < o->n && i < 256; i++) o->p[i] = 0x41;
}
static void m_realloc(VF_UNUSED const op_obj *o, op_obj *n) { m_alloc(n); }
static void m_call(unsigned op) {
    closed(op_name[op]);
    if (CF_SEAL && rndn(&cur->r, 40) == 0) probe_closed(&cur->r, op_name[op]);
}
static ssize_t cookie_write(VF_UNUSED void *c, VF_UNUSED const char *b, size_t n) { closed("a write of malloc_info"); return n; }
static FILE *info_stream(char *buf, size_t n) {
    cookie_io_functions_t io = {.write = cookie_write};
    FILE *f = fopencookie(NULL, "w", io);
    setvbuf(f, buf, n ? _IOFBF : _IONBF, n);
    return f;
}

static volatile bool inject;
static int enomem_hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) {
    static __thread rng_t r;
    if (!inject || kind == C_GETRANDOM || kind == C_WRITE) return 0;
    if (!r.s) r.s = (uintptr_t)&r;
    return rndn(&r, 12) == 0 ? ENOMEM : 0;
}

static u64 OPS;
static pthread_barrier_t bar;
static atomic_uint snaps_left;
static unsigned T;
static void *worker(void *a) {
    ops_t *c = a;
    cur = c;
    closed("the start of a thread");
    for (u64 i = 0; i < OPS; i++) {
        ops_step(c);
        if (i % (OPS / 6 + 1) == 0) {
            inject = false;
            pthread_barrier_wait(&bar);
            if (c == all_ops[0]) snapshot();
            pthread_barrier_wait(&bar);
            if (c == all_ops[0]) inject = rndn(&c->r, 2);
        }
    }
    return NULL;
}

static u8 *first_by(int k) {
    void *p = NULL;
    switch (k) {
    case 1: return h_calloc(3, 5);
    case 2: return h_realloc(NULL, 40);
    case 3: return h_aligned_alloc(64, 64);
    case 4: return h_memalign(8192, 64);
    case 5: return h_posix_memalign(&p, 4096, 64) ? NULL : p;
    case 6: return h_valloc(10);
    case 7: return h_pvalloc(10);
    case 8: return h_malloc(1 << 20);
    case 9: p = h_malloc(1UL << 62); return NULL;
    case 10: p = h_calloc(1UL << 33, 1UL << 33); return NULL;
    case 11: p = h_aligned_alloc(24, 10); return NULL;
    case 12: (void)h_posix_memalign(&p, 3, 10); return NULL;
    case 13: return h_malloc(0);
    case 14: p = h_aligned_alloc(1UL << 40, 1UL << 62); return NULL;
    case 15: (void)h_malloc_object_size(&p); h_malloc_trim(0); return NULL;
    case 16: h_free(NULL); return NULL;
    default: return h_malloc(16);
    }
}
static u32 pre_pkru, pre_before;
static void preinit(VF_UNUSED int c, VF_UNUSED char **v, char **e) {
    for (; *e; e++) if (!strncmp(*e, "VF_PRE=", 7)) { pre_kind = atoi(*e + 7); pre_only = true; }
    if (pre_kind < 0) pre_kind = 0;
    if (CF_SEAL) pre_before = rdpkru();
    pre_p = first_by(pre_kind);
    if (CF_SEAL) pre_pkru = rdpkru();
    u8 *q = pre_kind == 0 ? pre_p : h_malloc(16);
    for (unsigned i = 0; i < n_first_maps; i++)
        if ((uintptr_t)q >= first_maps[i].a && (uintptr_t)q < first_maps[i].a + first_maps[i].n) { res.a = first_maps[i].a; res.e = res.a + first_maps[i].n; }
    if (!pre_only)
        for (unsigned i = 0; i < n_first_maps && n_st < 8; i++)
            if (first_maps[i].a != res.a && own_covers(first_maps[i].a, first_maps[i].a + RND_UP(first_maps[i].n))) { stv[n_st].a = first_maps[i].a; stv[n_st++].e = first_maps[i].a + RND_UP(first_maps[i].n); }
    h_free(q);
}
__attribute__((section(".preinit_array"), used)) static void (*p_preinit)(int, char **, char **) = preinit;

static void find_key(void) {
    read_maps(true);
    for (size_t i = 0; i < n_vm; i++) if (vm[i].key && in_state(vm[i].a)) key_mask |= 1U << 2 * vm[i].key;
}

int main(void) {
    vf_install_segv();
    rng_t R = {env_u64("VF_SEED", 1) * 7919};
    if (pre_only) {   // child of the first-call test
        // the key is the first one the process allocates; after the call it has to be closed if it was opened
        syscall(SYS_exit_group, CF_SEAL && pre_pkru != pre_before && (pre_before & ~pre_pkru) ? 7 : 0);
    }
    bool has_pku = false;
    if (CF_SEAL) {
        int k = syscall(SYS_pkey_alloc, 0, 0);
        if (k >= 0) { has_pku = true; syscall(SYS_pkey_free, k); }
        else vinfo("no protection keys here: sealing not checked");
        wrpkru(rdpkru());
    }
    if (has_pku) {
        find_key();
        if (!key_mask) viol("C18", "sealed build, but no state has a protection key");
        closed("startup");
    }
    if (!n_st) vf_die("no state mapping found");
    OPS = env_u64("VF_OPS", 40000);
    T = env_u64("VF_THREADS", 4);
    if (T > MAXT) T = MAXT;
    static ops_t W[MAXT];
    static char ib[MAXT][64];
    for (unsigned i = 0; i < T; i++) {
        ops_init(&W[i], rnd(&R), 400, 24UL << 20);
        W[i].info = info_stream(ib[i], i % 2 ? 64 : 0);
        W[i].alloc_m = m_alloc; W[i].realloc_m = m_realloc; W[i].call_m = m_call;
        all_ops[n_ops++] = &W[i];
    }
    // memory the C library holds outside of the slab region
    read_maps(false);
    for (size_t i = 0; i < n_vm; i++) {
        vma_t *v = &vm[i];
        if (v->perm[0] != 'r') continue;
        for (size_t j = own_index(v->a); j < n_own && own[j].a < v->e; j++) {
            uintptr_t a = v->a > own[j].a ? v->a : own[j].a, e = v->e < own[j].e ? v->e : own[j].e;
            if (a < e && !in_state(a) && !(a >= res.a && a < res.e) && n_base_rw < 256) { base_rw[n_base_rw].a = a; base_rw[n_base_rw++].e = e; }
        }
    }
    snapshot();
    pthread_barrier_init(&bar, NULL, T);
    fault_hook = enomem_hook;
    pthread_t th[MAXT];
    bool nofault = env_u64("VF_NOFAULT", 0);
    if (nofault) fault_hook = NULL;
    for (unsigned i = 1; i < T; i++) if (pthread_create(&th[i], NULL, worker, &W[i])) vf_die("no thread");
    worker(&W[0]);
    for (unsigned i = 1; i < T; i++) pthread_join(th[i], NULL);
    inject = false;
    cur = &W[0];
    snapshot();
    // fork children
    for (unsigned i = 0; i < 12; i++) {
        pid_t pid = fork();
        closed(pid ? "fork in the parent" : "fork in the child");
        if (!pid) {
            n_vm = 0;
            probe_closed(&R, "fork in the child");
            for (unsigned j = 0; j < 2000; j++) ops_step(&W[0]);
            snapshot();
            syscall(SYS_exit_group, vf_nviol ? 1 : 0);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1))) viol("C18", "child of the state test ended with %x", st);
        else if (WEXITSTATUS(st)) atomic_fetch_add(&vf_nviol, 1);
        for (unsigned j = 0; j < 300; j++) ops_step(&W[0]);
    }
    for (unsigned i = 0; i < T; i++) { cur = &W[i]; ops_drain(&W[i]); }
    h_malloc_trim(0);
    closed("malloc_trim");
    snapshot();
    // each entry point as the first call
    if (has_pku)
        for (int k = 0; k < 17; k++) {
            pid_t pid = vfork();
            if (!pid) {
                static char e1[40]; static char *env[] = {e1, NULL}, *av[] = {"state", NULL};
                vf_fmt(e1, sizeof e1, "VF_PRE=%d", k);
                execve("/proc/self/exe", av, env);
                syscall(SYS_exit_group, 9);
            }
            int st;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
            if (!(WIFEXITED(st) && !WEXITSTATUS(st))) viol("C18", "first call %d leaves the metadata unsealed (status %x)", k, st);
            vcov("first", 0, 1UL << k);
        }
    u64 tot = 0, fails = 0;
    for (unsigned i = 0; i < T; i++) for (unsigned k = 0; k < O_N; k++) {
        tot += W[i].count[k]; fails += W[i].failed[k];
        if (W[i].count[k]) vcov("op", 0, 1UL << k);
        if (W[i].failed[k]) vcov("failed", 0, 1UL << k);
    }
    ip_stats();
    vstat("evals", tot + n_words); vstat("calls", tot); vstat("failed_calls", fails); vstat("words_scanned", n_words); vstat("snapshots", n_snap); vstat("rights_checked", n_seal);
    vstat("sealed_probes", n_probe); vstat("pointers_placed", n_ptr); vstat("state_pages", n_stpages); vstat("program_pages", n_rwpages);
    vsample("%lu calls, %lu snapshots, %lu words scanned, access rights read %lu times, %u accessible parts of the state", tot, n_snap, n_words, n_seal, n_com);
    vf_finish();
}
