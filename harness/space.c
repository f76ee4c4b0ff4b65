// Use of address space and memory (VF_MODE):
//  arena   size classes and arenas keep to their own address ranges
//  guard   guards around slabs and large allocations, from the memory map
//  reuse   how long freed memory is withheld, at least and at most
//  foot    what stays in use: slabs in use, high water mark, purging, trimming, unmapping
#include "interpose.h"

#define NC (N_DOC + 1)
static rng_t R;
static u64 n_evals;
static u64 covbits[256];
static void cov(unsigned k) { covbits[(k >> 6) & 255] |= 1UL << (k & 63); }
static size_t req_of(unsigned c) { return c ? class_size(c) - CANARY : 0; }
static size_t slot_of(unsigned c) { return c ? class_size(c) : 16; }

static uintptr_t res_a, res_e;
static void find_reservation(void) {
    u8 *p = h_malloc(40);
    for (unsigned i = 0; i < n_first_maps; i++) if ((uintptr_t)p >= first_maps[i].a && (uintptr_t)p < first_maps[i].a + first_maps[i].n) { res_a = first_maps[i].a; res_e = res_a + first_maps[i].n; }
    if (!res_a) viol("C11", "small allocations don't come from a range reserved at startup");
    h_free(p);
}

// ---- memory map ----
struct vma { uintptr_t a, e; int r, w; u64 rss; };
static struct vma *vm;
static size_t n_vm;
static char *mapbuf;
#define MAPBUF (64UL << 20)
static void read_maps(bool smaps) {
    if (!mapbuf) { mapbuf = vf_map(MAPBUF); vm = vf_map(200000 * sizeof(*vm)); }
    int fd = open(smaps ? "/proc/self/smaps" : "/proc/self/maps", O_RDONLY);
    if (fd < 0) vf_die("maps");
    size_t n = 0;
    for (;;) { ssize_t r = read(fd, mapbuf + n, MAPBUF - 1 - n); if (r <= 0) break; n += r; }
    close(fd);
    mapbuf[n] = 0;
    n_vm = 0;
    for (char *s = mapbuf; *s;) {
        char *nl = strchr(s, '\n'), *d;
        if (!nl) break;
        if (*s >= 'A' && *s <= 'Z') { if (!strncmp(s, "Rss:", 4) && n_vm) vm[n_vm - 1].rss = strtoul(s + 4, NULL, 10) << 10; s = nl + 1; continue; }
        uintptr_t a = strtoul(s, &d, 16), e = strtoul(d + 1, &d, 16);
        if (n_vm < 200000) vm[n_vm++] = (struct vma){a, e, d[1] == 'r', d[2] == 'w', 0};
        s = nl + 1;
    }
}
// accessible bytes and runs in [a, e)
static u64 rw_bytes(uintptr_t a, uintptr_t e) {
    u64 t = 0;
    for (size_t i = 0; i < n_vm; i++) if (vm[i].r && vm[i].e > a && vm[i].a < e) t += (vm[i].e < e ? vm[i].e : e) - (vm[i].a > a ? vm[i].a : a);
    return t;
}

// ---- arena ----
#define PER 8
#define MAXT 96
static u8 *mine[MAXT][NC][PER];
static int nthreads;
static void *arena_thread(void *arg) {
    size_t t = (size_t)arg;
    for (unsigned c = 0; c < NC; c++) for (int k = 0; k < PER; k++) {
        u8 *p = h_malloc(req_of(c));
        if (!p) vf_broken("allocation failed");
        mine[t][c][k] = p;
    }
    return NULL;
}
static int of_arena[MAXT];
static uintptr_t span[64][NC][2];   // lowest and highest address seen per arena and class
static u64 n_addr;
static void note(int a, unsigned c, u8 *p, const char *when) {
    uintptr_t x = (uintptr_t)p;
    n_addr++;
    if (x < res_a || x >= res_e) { viol("C11", "%s: the small allocation %p is outside of the reserved range", when, p); return; }
    uintptr_t l = span[a][c][0], h = span[a][c][1];
    if (!l) { span[a][c][0] = x; span[a][c][1] = x; return; }
    if (x < l) l = x;
    if (x > h) h = x;
    if (h - l >= CF_REGION) viol("C11", "%s: allocations of class %u of arena %d are %lu apart", when, c, a, (u64)(h - l));
    span[a][c][0] = l; span[a][c][1] = h;
}
static void check_disjoint(const char *when) {
    struct { uintptr_t a, e; int ar, c; } s[64 * NC];
    int n = 0;
    for (int a = 0; a < CF_ARENAS; a++) for (unsigned c = 0; c < NC; c++) if (span[a][c][0]) {
        int i = n++;
        for (; i && s[i - 1].a > span[a][c][0]; i--) s[i] = s[i - 1];
        s[i].a = span[a][c][0]; s[i].e = span[a][c][1] + slot_of(c); s[i].ar = a; s[i].c = c;
    }
    for (int i = 1; i < n; i++) if (s[i].a < s[i - 1].e) viol("C11", "%s: the ranges used for class %d of arena %d and class %d of arena %d overlap", when, s[i - 1].c, s[i - 1].ar, s[i].c, s[i].ar);
}
struct xfree { size_t from, to; };
static void *free_thread(void *arg) { size_t t = (size_t)arg; for (unsigned c = 0; c < NC; c++) for (int k = 0; k < PER; k++) h_free(mine[t][c][k]); return NULL; }
static void *mixed_thread(void *arg) {
    // allocates and frees its own and others' memory; what it gets has to come from its arena
    size_t t = (size_t)arg;
    rng_t r = {t * 99991 + R.s};
    for (int i = 0; i < 60000; i++) {
        unsigned c = rndn(&r, NC), k = rndn(&r, PER);
        size_t v = rndn(&r, nthreads);
        u8 *p = h_malloc(req_of(c));
        if (p) p = __atomic_exchange_n(&mine[v][c][k], p, __ATOMIC_ACQ_REL);   // hands it to the owner of the place
        h_free(p);
    }
    return NULL;
}
static u8 *last_seen[4096];
static void *again_thread(void *arg) { // allocates and keeps
    size_t t = (size_t)arg;
    int a = of_arena[t];
    for (unsigned c = 0; c < NC; c++) for (int k = 0; k < 40; k++) { u8 *p = h_malloc(req_of(c)); if (p) { (void)a; mine[t][c][k % PER] = p; } }
    return NULL;
}
static void run_threads(void *(*f)(void *), int from, int to, bool parallel) {
    pthread_t th[MAXT];
    for (int t = from; t < to; t++) { if (pthread_create(&th[t], NULL, f, (void *)(size_t)t)) vf_die("thread"); if (!parallel) pthread_join(th[t], NULL); }
    if (parallel) for (int t = from; t < to; t++) pthread_join(th[t], NULL);
}
// each phase is made by threads that report their arena by a first allocation of class 1
struct phase { int id; size_t t; };
static void *return_thread(void *arg);
static volatile size_t ret_n;
static u8 *ret_p[8192];
static unsigned ret_c;
static void *ret_alloc(void *arg) { for (size_t i = 0; i < ret_n; i++) ret_p[i] = h_malloc(req_of(ret_c)); return NULL; }
static void *ret_free(void *arg) { for (size_t i = 0; i < ret_n; i++) h_free(ret_p[i]); return NULL; }
static int arena_of_addr(unsigned c, u8 *p) { // nearest known range
    for (int a = 0; a < CF_ARENAS; a++) if (span[a][c][0]) {
        uintptr_t l = span[a][c][0], h = span[a][c][1], x = (uintptr_t)p;
        if (x + CF_REGION / 2 > l && x < h + CF_REGION / 2) return a;
    }
    return -1;
}
// threads that stay, so their arenas are known
static struct { volatile int cmd; volatile unsigned c; u8 *volatile *buf; volatile size_t n; pthread_t th; } stay[64];
static volatile int stay_stop;
static void *stay_thread(void *arg) {
    size_t t = (size_t)arg;
    for (;;) {
        int cmd = __atomic_load_n(&stay[t].cmd, __ATOMIC_ACQUIRE);
        if (cmd == 0) { usleep(20); continue; }
        if (cmd == 3) return NULL;
        for (size_t i = 0; i < stay[t].n; i++) if (cmd == 1) stay[t].buf[i] = h_malloc(req_of(stay[t].c)); else h_free(stay[t].buf[i]);
        __atomic_store_n(&stay[t].cmd, 0, __ATOMIC_RELEASE);
    }
}
static void stay_do(int t, int cmd, unsigned c, u8 **buf, size_t n) {
    stay[t].c = c; stay[t].buf = buf; stay[t].n = n;
    __atomic_store_n(&stay[t].cmd, cmd, __ATOMIC_RELEASE);
    while (__atomic_load_n(&stay[t].cmd, __ATOMIC_ACQUIRE)) sched_yield();
}
static void mode_arena(u64 rounds) {
    find_reservation();
    // sequential and concurrent threads: where does each allocate?
    nthreads = MAXT;
    run_threads(arena_thread, 0, 64, false);
    run_threads(arena_thread, 64, MAXT, true);
    // arenas are recognised by class 1: ranges at most a region apart are one arena
    uintptr_t base[64];
    int na = 0;
    for (int t = 0; t < MAXT; t++) {
        int a = -1;
        uintptr_t x = (uintptr_t)mine[t][1][0];
        for (int i = 0; i < na; i++) if (x - base[i] + CF_REGION < 2 * CF_REGION) a = i;
        if (a < 0) { if (na == 63) break; a = na++; base[a] = x; }
        of_arena[t] = a;
    }
    if (na != CF_ARENAS) { viol("C11", "96 threads use %d arenas, expected %d", na, CF_ARENAS); if (na > CF_ARENAS) return; }
    unsigned per[64] = {0};
    for (int t = 0; t < MAXT; t++) per[of_arena[t]]++;
    for (int a = 0; a < na; a++) if (per[a] < MAXT / na / 3) viol("C11", "of 96 threads only %u use arena %d of %d", per[a], a, na);
    for (int t = 0; t < MAXT; t++) for (unsigned c = 0; c < NC; c++) for (int k = 0; k < PER; k++) note(of_arena[t], c, mine[t][c][k], "first allocations");
    check_disjoint("first allocations");
    // large allocations stay outside of the reservation
    for (int i = 0; i < 300; i++) {
        u8 *p = h_malloc(131073 + rndn(&R, 5000000));
        if (p && (uintptr_t)p + h_malloc_usable_size(p) > res_a && (uintptr_t)p < res_e) viol("C11", "the large allocation %p lies in the range of small ones", p);
        if (rndn(&R, 2)) p = h_realloc(p, (33UL << 20) + rndn(&R, 1 << 24));
        if (p && (uintptr_t)p + h_malloc_usable_size(p) > res_a && (uintptr_t)p < res_e) viol("C11", "the large allocation %p lies in the range of small ones", p);
        h_free(p);
        p = h_aligned_alloc(8192 << rndn(&R, 8), 100 + rndn(&R, 100000));
        if ((uintptr_t)p > res_a && (uintptr_t)p < res_e) viol("C11", "an allocation with large alignment lies in the range of small ones");
        h_free(p);
    }
    // freed by threads of any arena, and used again
    run_threads(free_thread, 0, MAXT, true);
    for (u64 r = 0; r < rounds && vf_nviol < 10; r++) {
        memset(mine, 0, sizeof mine);
        run_threads(mixed_thread, 0, 16, true);
        for (int t = 0; t < MAXT; t++) for (unsigned c = 0; c < NC; c++) for (int k = 0; k < PER; k++) if (mine[t][c][k]) {
            int a = arena_of_addr(c, mine[t][c][k]);
            if (a < 0) viol("C11", "after %lu rounds: allocation of class %u at %p is in no range used for this class", r, c, mine[t][c][k]);
            else note(a, c, mine[t][c][k], "hand-overs");
            h_free(mine[t][c][k]);
        }
        check_disjoint("hand-overs");
    }
    // threads keep to their arena, and memory freed by others comes back there
    int T = CF_ARENAS * 2 > 16 ? 16 : CF_ARENAS * 2;
    for (int t = 0; t < T; t++) if (pthread_create(&stay[t].th, NULL, stay_thread, (void *)(size_t)t)) vf_die("thread");
    static u8 *pool[16][20000], *one[16][64];
    for (int t = 0; t < T; t++) { stay_do(t, 1, 1, one[t], 1); of_arena[t] = arena_of_addr(1, one[t][0]); stay_do(t, 2, 1, one[t], 1); }
    u64 returned = 0;
    for (u64 r = 0; r < rounds * 12 && vf_nviol < 10; r++) {
        int t = rndn(&R, T), u = rndn(&R, T);
        unsigned c = rndn(&R, NC);
        size_t q = quarantine_len(c, CF_QQ) + quarantine_len(c, CF_QR) * 8, n = 4 * q + 60 * class_slots(c);
        if (n > 20000) n = 20000;
        stay_do(t, 1, c, pool[t], n);
        for (size_t i = 0; i < n; i++) { int a = arena_of_addr(c, pool[t][i]); if (a != of_arena[t]) { viol("C11", "a thread of arena %d got memory of arena %d in class %u", of_arena[t], a, c); break; } note(a, c, pool[t][i], "threads that stay"); }
        memcpy(pool[u == t ? (u + 1) % T : u], pool[t], n * sizeof(void *));
        int w = u == t ? (u + 1) % T : u;
        stay_do(w, 2, c, pool[w], n);       // freed by another thread
        u8 **was = pool[w];
        static u8 *now[20000];
        stay_do(t, 1, c, now, n);
        // most of it is used again by the first thread
        static u8 *sorted[20000];
        memcpy(sorted, was, n * sizeof(void *));
        for (size_t i = 1; i < n; i++) { u8 *x = sorted[i]; size_t j = i; if (j && sorted[j - 1] <= x) continue; size_t l = 0, h = i; while (l < h) { size_t m = (l + h) / 2; if (sorted[m] < x) l = m + 1; else h = m; } memmove(sorted + l + 1, sorted + l, (i - l) * sizeof(*sorted)); sorted[l] = x; }
        size_t back = 0;
        for (size_t i = 0; i < n; i++) { size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; if (sorted[m] < now[i]) l = m + 1; else h = m; } back += l < n && sorted[l] == now[i]; }
        size_t withheld = quarantine_len(c, CF_QQ) + quarantine_len(c, CF_QR) + CF_FSQ * class_slots(c);
        returned += back;
        for (size_t i = 0; i < n; i++) { int a = arena_of_addr(c, now[i]); if (a != of_arena[t]) { viol("C11", "after a free by a thread of arena %d, a thread of arena %d got memory of arena %d in class %u", of_arena[w], of_arena[t], a, c); break; } }
        stay_do(t, 2, c, now, n);
        cov(of_arena[t] * 64 + c); cov(1024 + (of_arena[t] * 8 + of_arena[w]));
        check_disjoint("threads that stay");
        n_evals += 2 * n;
    }
    if (rounds * 12 > 20 && !returned) viol("C11", "no memory freed by another thread came back to the arena it is from");
    for (int t = 0; t < T; t++) { stay[t].cmd = 3; pthread_join(stay[t].th, NULL); }
    n_evals += n_addr;
    vstat("addresses_placed", n_addr); vstat("arenas_seen", na); vstat("returned_to_their_arena", returned);
    vsample("%d arenas, threads per arena: %u %u %u %u", na, per[0], per[1], per[2], per[3]);
}

// ---- guard ----
static u64 n_runs;
static void check_slab_runs(unsigned c, const char *when) {
    // accessible memory of this class: runs of at most CF_GUARD slabs, with at least a slab (or the end of the region) between them
    for (int a = 0; a < 1; a++) {
        uintptr_t l = span[0][c][0] & -PGSZ, h = (span[0][c][1] + slot_of(c) + PGSZ - 1) & -PGSZ;
        size_t slab = class_slab(c);
        uintptr_t run_a = 0, run_e = 0, prev_e = 0;
        for (size_t i = 0; i <= n_vm; i++) {
            bool in = i < n_vm && vm[i].r && vm[i].a < h && vm[i].e > l;
            if (in && run_e == vm[i].a) { run_e = vm[i].e; continue; }
            if (run_e) {
                n_runs++;
                if (run_e - run_a > CF_GUARD * slab) viol("C10", "%s: %lu accessible bytes in class %u without a guard slab, slabs have %zu bytes and every %u a guard", when, (u64)(run_e - run_a), c, slab, (unsigned)CF_GUARD);
                if (prev_e && CF_GUARD == 1 && run_a - prev_e < slab) viol("C10", "%s: only %lu inaccessible bytes between slabs of class %u, slabs have %zu", when, (u64)(run_a - prev_e), c, slab);
                prev_e = run_e;
                run_e = 0;
            }
            if (in) { run_a = vm[i].a; run_e = vm[i].e; }
            else if (i < n_vm && vm[i].a >= h) break;
        }
    }
}
// what was mapped in the call under way, less what was unmapped of it
#define N_NET 16
static struct { uintptr_t a, e; } net[N_NET];
static unsigned n_net;
static void net_event(int kind, uintptr_t a, size_t n, int prot, uintptr_t b, size_t m) {
    uintptr_t e = a + RND_UP(n);
    if (kind == C_MMAP && n_net < N_NET) { net[n_net].a = a; net[n_net++].e = e; }
    if (kind == C_MUNMAP) for (unsigned i = 0; i < n_net; i++) {
        if (a <= net[i].a && e > net[i].a) net[i].a = e < net[i].e ? e : net[i].e;
        else if (a < net[i].e && e >= net[i].e) net[i].e = a > net[i].a ? a : net[i].a;
    }
}
// guard sizes of newly mapped large allocations: 1 to size / divisor pages before and after, all of them possible
static struct { u64 n; double dev, var; u64 most, least; } gs[3];
static const char *gs_name[3] = {"plain", "aligned", "moved"};
static void guard_sizes(int kind, u8 *p) {
    uintptr_t a = (uintptr_t)p;
    size_t u = h_malloc_usable_size(p);
    uintptr_t e = a + RND_UP(u);
    u64 max = u / PGSZ / CF_GDIV;
    if (max < 1) max = 1;
    for (unsigned i = 0; i < n_net; i++) if (net[i].a <= a && net[i].e >= e) {
        u64 g[2] = {(a - net[i].a) / PGSZ, (net[i].e - e) / PGSZ};
        for (int k = 0; k < 2; k++) if (g[k] < 1 || g[k] > max) {
            viol("C10", "%s large allocation of %zu bytes: %lu guard pages %s it, expected 1 to %lu", gs_name[kind], u, g[k], k ? "after" : "before", max);
            return;
        }
        if (max < 8) return;
        // before and after may depend on each other, so take the mean as a single sample
        double x = ((g[0] + g[1]) / 2.0 - (max + 1) / 2.0) / max;
        gs[kind].n++;
        gs[kind].dev += x;
        gs[kind].var += x * x;
        if (x > 0.3) gs[kind].most++;
        if (x < -0.3) gs[kind].least++;
        return;
    }
}
static void guard_sizes_done(void) {
    for (int k = 0; k < 3; k++) {
        u64 n = gs[k].n;
        if (n < 120) continue;
        double m = gs[k].dev / n, lim = 7 * 0.2887 / __builtin_sqrt(n);
        if (m > lim || m < -lim) viol("C10", "guard sizes of %s large allocations aren't uniform: mean %d permille of the maximum, %lu samples", gs_name[k], (int)(1000 * (m + 0.5)), n);
        // a fifth below -0.3, a fifth above 0.3: with 120 samples never less than 3 (or with independent guards before and after, 8 percent of them)
        if (!gs[k].most || !gs[k].least) viol("C10", "guard sizes of %s large allocations don't vary over the range allowed: %lu low, %lu high of %lu samples", gs_name[k], gs[k].least, gs[k].most, n);
        n_evals += n;
        cov(80 + k);
    }
    vstat("guard_sizes_plain", gs[0].n); vstat("guard_sizes_aligned", gs[1].n); vstat("guard_sizes_moved", gs[2].n);
}
static void mode_guard(u64 rounds) {
    find_reservation();
    // a single arena is used here, as this is a single thread
    static u8 *o[200000];
    for (u64 r = 0; r < rounds && vf_nviol < 10; r++) {
        for (unsigned c = 0; c < NC && vf_nviol < 10; c++) {
            if (!c) {
                // zero size allocations: nothing accessible at all
                size_t n = 600 + rndn(&R, 3000);
                for (size_t i = 0; i < n; i++) {
                    o[i] = h_malloc(0);
                    if (!o[i]) { if (CF_REGION < (64UL << 20)) { n = i; break; } viol("C10", "malloc(0) returned NULL"); n = i; break; }
                    if (probe_read(o[i]) >= 0 || probe_write(o[i]) || probe_read(o[i] + 15) >= 0) { viol("C10", "a zero size allocation is accessible"); break; }
                    note(0, 0, o[i], "zero size");
                }
                for (size_t i = 0; i < n; i++) h_free(o[i]);
                n_evals += n;
                continue;
            }
            size_t slots = class_slots(c), want = slots * (3 + rndn(&R, 60)) + rndn(&R, slots);
            if (want > 200000) want = 200000;
            size_t n = 0;
            for (; n < want; n++) { o[n] = h_malloc(req_of(c)); if (!o[n]) break; note(0, c, o[n], "filling"); }
            if (n < want && CF_REGION >= (1UL << 30)) viol("C10", "allocation failed");
            read_maps(false);
            check_slab_runs(c, "filled");
            // every byte outside of the slab but in the page before and after is inaccessible when it's the first or last of a run
            for (int k = 0; k < 40 && n; k++) {
                u8 *p = o[rndn(&R, n)];
                if (CF_GUARD == 1) {
                    // slab start: slots lie at multiples from it, so search the run
                    uintptr_t x = (uintptr_t)p;
                    size_t i = 0;
                    for (; i < n_vm; i++) if (vm[i].a <= x && vm[i].e > x) break;
                    if (i == n_vm) { viol("C10", "allocation %p isn't mapped", p); continue; }
                    if (vm[i].e - vm[i].a > class_slab(c) ) viol("C10", "the accessible range around an allocation of class %u has %lu bytes, its slab %zu", c, (u64)(vm[i].e - vm[i].a), class_slab(c));
                    if (probe_read((void *)(vm[i].a - 1)) >= 0) viol("C10", "the byte before a slab of class %u is accessible", c);
                    if (probe_read((void *)vm[i].e) >= 0) viol("C10", "the byte after a slab of class %u is accessible", c);
                }
                n_evals++;
            }
            // the same with slabs emptied, purged and taken again
            for (size_t i = 0; i < n; i++) { size_t j = rndn(&R, n); u8 *t = o[i]; o[i] = o[j]; o[j] = t; }
            size_t keep = rndn(&R, n + 1);
            for (size_t i = keep; i < n; i++) h_free(o[i]);
            if (rndn(&R, 3) == 0) h_malloc_trim(0);
            read_maps(false);
            check_slab_runs(c, "partly freed");
            for (size_t i = keep; i < n; i++) { o[i] = h_malloc(req_of(c)); if (!o[i]) { n = i; break; } note(0, c, o[i], "refilling"); }
            read_maps(false);
            check_slab_runs(c, "filled again");
            for (size_t i = 0; i < n; i++) h_free(o[i]);
            n_evals += n;
            cov(c);
        }
        // large
        for (int k = 0; k < 400 && vf_nviol < 10; k++) {
            size_t s = 131073 + rndn(&R, rndn(&R, 3) ? 300000 : 6000000);
            size_t al = rndn(&R, 3) ? 0 : 8192UL << rndn(&R, 10);
            n_net = 0;
            event_hook = net_event;
            u8 *p = al ? h_aligned_alloc(al, rndn(&R, 4) ? s : 1 + s % 100000) : h_malloc(s);
            event_hook = NULL;
            if (!p) { if (CF_REGION < (64UL << 20)) continue; viol("C10", "allocation failed"); break; }
            guard_sizes(al != 0, p);
            const char *what = al ? "aligned" : "plain";
            for (int step = 0; step < 4; step++) {
                size_t u = h_malloc_usable_size(p);
                uintptr_t e = ((uintptr_t)p + u + PGSZ - 1) & -PGSZ;
                if (probe_read(p - 1) >= 0 || probe_read(p - PGSZ) >= 0) viol("C10", "%s large allocation of %zu bytes: the page before it is accessible", what, u);
                if (probe_read((void *)e) >= 0 || probe_read((void *)(e + PGSZ - 1)) >= 0) viol("C10", "%s large allocation of %zu bytes: the page after it is accessible", what, u);
                // and this is reserved, not a hole that someone else may get
                spin_lock(&own_lock);
                if (!own_covers((uintptr_t)p - PGSZ, e + PGSZ)) viol("C10", "%s large allocation of %zu bytes: the pages next to it aren't reserved", what, u);
                spin_unlock(&own_lock);
                if (probe_read(p) < 0 || probe_read(p + u - 1) < 0) viol("C10", "%s large allocation of %zu bytes isn't accessible", what, u);
                n_evals++;
                cov(64 + step * 2 + (al != 0));
                if (step == 3) break;
                size_t ns = step == 0 ? u / 2 + 70000 : step == 1 ? u * 2 + 131073 : (rndn(&R, 2) ? 34UL << 20 : 140000) + rndn(&R, 100000);
                if (ns <= MAXSMALL) ns = MAXSMALL + 1;
                n_net = 0;
                event_hook = net_event;
                u8 *q = h_realloc(p, ns);
                event_hook = NULL;
                if (!q) break;
                if (q != p) guard_sizes(2, q);
                p = q;
                what = step == 0 ? "shrunk" : step == 1 ? "grown" : "resized";
            }
            h_free(p);
        }
    }
    guard_sizes_done();
    vstat("slab_runs_checked", n_runs);
}

// ---- reuse ----
static u64 h_key[1 << 21];
static u32 h_val[1 << 21];
static u32 h_gen[1 << 21], gen;
static u32 *h_slot(u8 *p, bool *fresh) {
    u64 k = (u64)p;
    size_t i = (k * 0x9e3779b97f4a7c15UL) >> 43;
    for (;; i = (i + 1) & ((1 << 21) - 1)) {
        if (h_gen[i] != gen) { h_gen[i] = gen; h_key[i] = k; h_val[i] = 0; *fresh = true; return &h_val[i]; }
        if (h_key[i] == k) { *fresh = false; return &h_val[i]; }
    }
}
static void reuse_small(unsigned c) {
    size_t Q = quarantine_len(c, CF_QQ), RR = quarantine_len(c, CF_QR), slots = class_slots(c);
    static u8 *o[200000];
    vf_section_set("class %u", c);
    gen++;
    bool fresh;
    // lower bound and randomness of the delay: index of the free recorded for each address
    size_t live = 1 + rndn(&R, 40);
    u64 steps = 6 * (Q + RR) + 3000, frees = 0, seen = 0;
    static u32 delay[64];
    u64 nd = 0, mind = ~0UL, reused = 0, last = 0;
    bool vary = false;
    for (size_t i = 0; i < live; i++) o[i] = h_malloc(req_of(c));
    for (u64 k = 0; k < steps && vf_nviol < 10; k++) {
        size_t i = rndn(&R, live);
        h_free(o[i]);
        frees++;
        u32 *v = h_slot(o[i], &fresh);
        *v = frees;
        o[i] = h_malloc(req_of(c));
        v = h_slot(o[i], &fresh);
        if (!fresh && *v) {
            u64 d = frees - *v;
            reused++;
            if (d < mind) mind = d;
            if (reused > 1 && d != last) vary = true;
            last = d;
            // Q + 1 further frees, one more when there's a random part
            if (Q && d < Q + (RR > 0)) viol("C09", "an address of class %u was handed out again after %lu further frees, quarantine %zu", c, d, Q);
            if (!Q && RR && d < 1) viol("C09", "an address of class %u was handed out again at once", c);
            *v = 0;
        }
    }
    if (Q + RR && !reused && slots > 1) viol("C09", "class %u: no memory was used again in %lu frees, the quarantine holds %zu", c, steps, Q + RR);
    if (RR > 8 && !vary) viol("C09", "class %u: every delay is the same, the random part of the quarantine doesn't work", c);
    for (size_t i = 0; i < live; i++) h_free(o[i]);
    vstat("reuses_seen", reused);
    n_evals += steps;
    cov(c);
    if (Q + RR > 60000) return;   // the upper bound would need too many objects
    // upper bound: of K objects freed, all but the configured number are handed out again before new ones
    h_malloc_trim(0);
    gen++;
    size_t K = 3 * (Q + RR) + (CF_FSQ + 20) * slots + 300;
    if (K > 200000) K = 200000;
    while (K / slots * class_slab(c) * (CF_GUARD ? 2 : 1) > CF_REGION / 4) K = K * 3 / 4;
    size_t limit = Q + RR + CF_FSQ * slots + slots;
    u64 distinct_seen = 0;
    for (int cyc = 0; cyc < 12 && vf_nviol < 10; cyc++) {
        for (size_t i = 0; i < K; i++) {
            o[i] = h_malloc(req_of(c));
            if (!o[i]) vf_broken("allocation failed");
            h_slot(o[i], &fresh);
            distinct_seen += fresh;
        }
        // earlier tests left up to the limit withheld
        if (distinct_seen > K + 2 * limit) { viol("C09", "class %u: %zu objects were allocated and freed %d times and %lu different addresses used; the quarantines may withhold %zu slots", c, K, cyc + 1, distinct_seen, limit); viol("C19", "class %u: %zu objects were allocated and freed %d times and %lu different addresses used; at most %zu slots may be withheld", c, K, cyc + 1, distinct_seen, limit); }
        for (size_t i = 0; i < K; i++) h_free(o[i]);
        n_evals += K;
    }
}
// large
static struct { uintptr_t a; size_t n; u64 freed; bool live, gone; } big[40000];
static volatile size_t n_big;
static volatile u64 big_frees, big_quar;
static volatile bool big_on;
static u64 big_unmapped, n_delay;
static u32 big_delay[40000];
static void big_event(int kind, uintptr_t a, size_t n, int prot, uintptr_t b, size_t m) {
    if (kind != C_MUNMAP || !big_on) return;
    // which freed allocation lies in this range
    for (size_t i = 0; i < n_big; i++) if (!big[i].gone && !big[i].live && big[i].a >= a && big[i].a < a + n) {
        big[i].gone = true;
        big_unmapped++;
        if (big[i].n < CF_RQSKIP) {
            big_delay[n_delay++] = big_frees - big[i].freed;
            big_quar--;
            if (big_frees - big[i].freed < CF_RQQ) viol("C09", "a freed large allocation of %zu bytes was unmapped after %lu further frees, queue length %u", big[i].n, big_frees - big[i].freed, (unsigned)CF_RQQ);
        }
    }
}
static void reuse_large(u64 count) {
    vf_section_set("large");
    event_hook = big_event;
    u64 probes = 0, skipped = 0;
    size_t wait[8];
    for (u64 k = 0; k < count && vf_nviol < 10 && n_big < 39000; k++) {
        bool huge = rndn(&R, 40) == 0;
        size_t s = huge ? (CF_RQSKIP > 131072 ? CF_RQSKIP : 131073) + rndn(&R, 1 << 20) : 131073 + rndn(&R, 100000);
        u8 *p = rndn(&R, 8) ? h_malloc(s) : h_aligned_alloc(16384, s);
        if (!p) vf_broken("allocation failed");
        size_t i = n_big;
        big[i].a = (uintptr_t)p; big[i].n = h_malloc_usable_size(p); big[i].live = true; big[i].gone = false;
        n_big = i + 1;
        bool q = big[i].n < CF_RQSKIP;
        big[i].live = false;
        if (q) { big_frees = big_frees + 1; big_quar = big_quar + 1; }
        big[i].freed = big_frees;
        big_on = true;
        h_free(p);
        big_on = false;
        if (!q && CF_RQQ + CF_RQR && !big[i].gone) viol("C09", "a freed large allocation of %zu bytes, above the skip threshold, was not unmapped", big[i].n);
        skipped += !q;
        if (big_quar > CF_RQQ + CF_RQR) viol("C09", "%lu freed large allocations are still reserved, the quarantine holds %u", big_quar, (unsigned)(CF_RQQ + CF_RQR));
        if (q && CF_RQQ) {
            // recently freed ones are reserved and inaccessible
            for (int t = 0; t < 3; t++) {
                size_t back = rndn(&R, CF_RQQ), j = i;
                if (back > i) continue;
                j = i - back;
                if (big[j].gone || big[j].n >= CF_RQSKIP || big_frees - big[j].freed >= CF_RQQ) continue;
                spin_lock(&own_lock);
                if (!own_covers(big[j].a, big[j].a + RND_UP(big[j].n))) viol("C09", "a large allocation freed %lu frees ago isn't reserved", big_frees - big[j].freed);
                spin_unlock(&own_lock);
                if (probe_read((void *)big[j].a) >= 0 || probe_read((void *)(big[j].a + big[j].n - 1)) >= 0) viol("C09", "a large allocation freed %lu frees ago is accessible", big_frees - big[j].freed);
                probes++;
            }
        }
        // addresses of live ones don't overlap the reserved ones by construction of the kernel
        n_evals++;
    }
    (void)wait;
    event_hook = NULL;
    if (CF_RQR > 8 && n_delay > 4 * CF_RQR) {
        u32 lo = ~0U, hi = 0;
        for (u64 i = 0; i < n_delay; i++) { if (big_delay[i] && big_delay[i] < lo) lo = big_delay[i]; if (big_delay[i] > hi) hi = big_delay[i]; }
        if (hi - lo < CF_RQR / 2) viol("C09", "the delay of unmapping freed large allocations is between %u and %u: not random", lo, hi);
        vsample("large: unmapped after %u to %u further frees", lo, hi);
    }
    vstat("large_unmapped", big_unmapped); vstat("large_probes", probes); vstat("large_skipped", skipped);
    cov(100);
}
static void mode_reuse(u64 rounds) {
    find_reservation();
    for (u64 r = 0; r < rounds && vf_nviol < 10; r++) for (unsigned c = 0; c < NC; c++) reuse_small(c);
    reuse_large(4 * (CF_RQQ + CF_RQR) + 1000);
}

// ---- foot ----
static struct vma *vm0;      // accessible memory at the start, for what the C library allocated
static size_t n_vm0;
static u64 rw_bytes0(uintptr_t a, uintptr_t e) {
    u64 t = 0;
    for (size_t i = 0; i < n_vm0; i++) if (vm0[i].r && vm0[i].e > a && vm0[i].a < e) t += (vm0[i].e < e ? vm0[i].e : e) - (vm0[i].a > a ? vm0[i].a : a);
    return t;
}
static u64 n_trim1, n_trim0;
static void trim_checked(void) {
    read_maps(false);
    u64 before = rw_bytes(res_a, res_e);
    int r = h_malloc_trim(0);
    read_maps(false);
    u64 after = rw_bytes(res_a, res_e);
    if (after > before) viol("C19", "malloc_trim made memory accessible: %lu to %lu bytes", before, after);
    if (after < before && r != 1) viol("C19", "malloc_trim released %lu bytes and returned %d", before - after, r);
    if (after == before && r != 0) {
        // zero size slabs have no memory, all others show in the map
        viol("C19", "malloc_trim released nothing and returned %d", r);
    }
    if (r) n_trim1++; else n_trim0++;
    r = h_malloc_trim(0);
    if (r) viol("C19", "a second malloc_trim returned %d", r);
}
static void foot_class(unsigned c) {
    size_t Q = quarantine_len(c, CF_QQ), RR = quarantine_len(c, CF_QR), slots = class_slots(c), slab = class_slab(c);
    size_t cache = CF_EXT ? 131072 : 65536;   // bytes of empty slabs kept per size class
    static u8 *o[300000];
    vf_section_set("class %u", c);
    h_malloc_trim(0);
    size_t Lmax = slots * (2 + rndn(&R, 30)) + rndn(&R, 2 * slots) + 1;
    if (Lmax > 300000) Lmax = 300000;
    static size_t Lever[64];
    static uintptr_t lo_[64], hi_[64];
    if (!lo_[c]) lo_[c] = ~0UL;
    if (Lmax > Lever[c]) Lever[c] = Lmax;
    // a slab is only added when every slot of all slabs in use is live or quarantined
    size_t slabs_max = (Lever[c] + RR + Q + slots - 1) / slots + 1;
    uintptr_t lo = lo_[c], hi = hi_[c];
    size_t n = 0;
    u64 steps = 3 * Lmax + 4 * (Q + RR) + 2000, worst = 0;
    if (steps > 400000) steps = 400000;
    size_t target = Lmax;
    static u64 measured;
    u64 every = steps / 12 + 1;
    for (u64 k = 0; k < steps && vf_nviol < 10; k++) {
        if (rndn(&R, 2000) == 0) target = 1 + rndn(&R, Lmax);
        if (n < target && n < Lmax && (n == 0 || rndn(&R, 4))) {
            u8 *p = h_malloc(req_of(c));
            if (!p) vf_broken("allocation failed");
            o[n++] = p;
            if ((uintptr_t)p < lo) lo = (uintptr_t)p;
            if ((uintptr_t)p > hi) hi = (uintptr_t)p;
        } else if (n) { size_t i = rndn(&R, n); h_free(o[i]); o[i] = o[--n]; }
        if (rndn(&R, 20000) == 0) h_malloc_trim(0);
        if (k % every == every - 1 && c) {
            read_maps(false);
            u64 b = rw_bytes((lo & -PGSZ), hi + slot_of(c)), sl = b / slab;
            if (sl > worst) worst = sl;
            measured++;
            if (b > slabs_max * slab + rw_bytes0((lo & -PGSZ), hi + slot_of(c))) { viol("C09", "class %u: %lu accessible bytes for at most %zu live objects of %zu bytes: the quarantine withholds more than the configured %zu slots", c, b, Lmax, slot_of(c), Q + RR); viol("C19", "class %u: %lu accessible bytes for at most %zu live objects of %zu bytes, with %zu slots in quarantine", c, b, Lmax, slot_of(c), Q + RR); }
        }
    }
    n_evals += steps;
    // the address range: slabs are taken one after the other, purged ones wait in the quarantine for free slabs
    size_t stride_slabs = (hi - lo) / slab, limit = slabs_max + CF_FSQ + 2;
    if (CF_GUARD) limit += limit / CF_GUARD + 1;
    if (stride_slabs > limit) viol("C19", "class %u: slabs are spread over %zu slabs of address space for at most %zu live objects, at most %zu are needed", c, stride_slabs, Lmax, limit);
    // all freed: only quarantined slots and the cache remain
    while (n) h_free(o[--n]);
    read_maps(false);
    uintptr_t wa = lo & -PGSZ, we = hi + slot_of(c);
    lo_[c] = lo; hi_[c] = hi;
    if (c && !(Q + RR)) {
        u64 b = rw_bytes(wa, we);
        if (b > cache + rw_bytes0(wa, we)) viol("C19", "class %u: %lu bytes stay accessible after everything was freed, the cache has %zu", c, b, cache);
    }
    trim_checked();
    if (c) {
        u64 b = rw_bytes(wa, we), lim = (Q + RR) * slab + rw_bytes0(wa, we);
        if (b > lim) viol("C19", "class %u: %lu bytes stay accessible after everything was freed and trimmed, at most %zu slots are in quarantine", c, b, Q + RR);
    }
    cov(c);
    vstat("footprint_measurements", measured); measured = 0;
    if (c % 16 == 5) vsample("class %u: %zu live at most, %lu slabs accessible at most (limit %zu), spread over %zu slabs (limit %zu)", c, Lmax, worst, slabs_max, stride_slabs, limit);
}
static u64 own_bytes(void) { u64 t = 0; spin_lock(&own_lock); for (size_t i = 0; i < n_own; i++) t += own[i].e - own[i].a; spin_unlock(&own_lock); return t; }
static void foot_large(void) {
    vf_section_set("large");
    // the quarantine is filled with the smallest large allocations, so the rest is what counts
    for (unsigned i = 0; i < 12 * (CF_RQQ + CF_RQR) + 10; i++) h_free(h_malloc(131073));
    u64 base = own_bytes();
    size_t small = (CF_LARGE ? large_class(131073) : 135168) * (1 + 2.0 / CF_GDIV) + 2 * PGSZ;
    u64 quar = (u64)(CF_RQQ + CF_RQR) * small;
    static u8 *o[300];
    for (int r = 0; r < 6 && vf_nviol < 10; r++) {
        u64 live = 0, n = 0;
        for (n = 0; n < 200; n++) {
            size_t s = 131073 + rndn(&R, 8000000);
            o[n] = h_malloc(s);
            if (rndn(&R, 3) == 0) { u8 *p = h_realloc(o[n], (rndn(&R, 2) ? 33UL << 20 : 140000) + rndn(&R, 3000000)); if (p) o[n] = p; }
            live += h_malloc_usable_size(o[n]);
            n_evals++;
        }
        u64 b = own_bytes(), lim = base + live + 2 * live / CF_GDIV + 400 * PGSZ + (u64)200 * 2 * 8200000 * 2;
        if (b > lim) viol("C19", "%lu bytes reserved for large allocations of %lu bytes", b - base, live);
        while (n) h_free(o[--n]);
        for (unsigned i = 0; i < 12 * (CF_RQQ + CF_RQR) + 10; i++) h_free(h_malloc(131073));
        b = own_bytes();
        // after everything left the quarantine
        if (b > base + quar / 4 + (1 << 20)) viol("C19", "%lu bytes more than before stay reserved after all large allocations were freed and left the quarantine", b - base);
        cov(80 + r);
    }
    vstat("large_rounds", 6);
}
static void mode_foot(u64 rounds) {
    find_reservation();
    h_malloc_trim(0);
    read_maps(false);
    vm0 = vf_map(n_vm * sizeof(*vm0));
    memcpy(vm0, vm, n_vm * sizeof(*vm0));
    n_vm0 = n_vm;
    for (u64 r = 0; r < rounds && vf_nviol < 10; r++) for (unsigned c = 0; c < NC; c++) foot_class(c);
    foot_large();
    // purged and guard memory holds no pages
    read_maps(true);
    u64 rss = 0, ranges = 0;
    for (size_t i = 0; i < n_vm; i++) if (!vm[i].r && vm[i].a >= res_a && vm[i].e <= res_e) { rss += vm[i].rss; ranges++; }
    if (rss) viol("C19", "%lu bytes of inaccessible slab memory still take up memory", rss);
    for (size_t i = 0; i < n_vm; i++) if (!vm[i].r && !(vm[i].a >= res_a && vm[i].e <= res_e) && vm[i].rss) { spin_lock(&own_lock); bool mine_ = own_covers(vm[i].a, vm[i].e); spin_unlock(&own_lock); if (mine_) viol("C19", "%lu bytes of inaccessible memory still take up memory", vm[i].rss); }
    vstat("inaccessible_ranges", ranges);
    vstat("trim_returned_1", n_trim1); vstat("trim_returned_0", n_trim0);
}

// ---- regions used up to their ends, in many processes ----
static struct fill { uintptr_t lo, hi; u8 **p; size_t n; } fl[2][NC];
static u64 n_filled;
static void fill_class(int t, unsigned c, const char *when, bool first) {
    struct fill *f = &fl[t][c];
    size_t z = slot_of(c), max = CF_REGION / z + 1;
    if (!f->p) f->p = vf_map(max * sizeof *f->p);
    f->n = 0;
    for (;;) {
        u8 *p = h_malloc(req_of(c));
        if (!p) break;
        if (f->n == max) { viol("C11", "%s: more objects of size class %u than its region of %lu bytes can hold", when, class_size(c), (u64)CF_REGION); break; }
        uintptr_t a = (uintptr_t)p;
        if (a < res_a || a + z > res_e) viol("C11", "%s: object of size class %u at %p, outside of the reserved range", when, class_size(c), p);
        if (!f->lo || a < f->lo) f->lo = a;         // of both times: the second may get what was in quarantine
        if (a + z > f->hi) f->hi = a + z;
        f->p[f->n++] = p;
        if (c) {
            if (*(u64 *)p) viol("C11", "%s: new object of size class %u isn't zero", when, class_size(c));
            *(u64 *)p = a ^ c;
            if (z - CANARY >= 24) ((u64 *)p)[(z - CANARY) / 8 - 1] = ~a;
        }
        n_filled++;
    }
    if (f->hi - f->lo > CF_REGION) viol("C11", "size class %u spans %lu bytes, more than its region of %lu", class_size(c), f->hi - f->lo, (u64)CF_REGION);
    // at least most of the region was handed out
    size_t slab = class_slab(c), run = slab * CF_GUARD + slab;
    size_t least = CF_REGION / run * CF_GUARD * class_slots(c);
    if (first && f->n + 2 * CF_GUARD * class_slots(c) < least) viol("C19", "only %zu objects of size class %u until memory is exhausted, expected %zu", f->n, class_size(c), least);
    // bounded by inaccessible memory
    cov(c);
    n_evals += f->n;
    uintptr_t top = RND_UP(f->hi);
    while (top < f->hi + slab && probe_read((void *)top) >= 0) top += PGSZ;
    uintptr_t low = f->lo & -PGSZ;      // the C and C++ libraries may have objects before the first one
    while (low > f->lo - 3 * slab && probe_read((void *)(low - 1)) >= 0) low -= PGSZ;
    if (probe_read((void *)(low - 1)) >= 0) viol("C10", "memory before the first object at %lx of size class %u (%zu objects) is accessible", f->lo, class_size(c), f->n);
    if (probe_read((void *)top) >= 0) viol("C10", "memory after the last slab of size class %u is accessible", class_size(c));
}
static void fill_check(int t, unsigned c, bool release) {
    struct fill *f = &fl[t][c];
    size_t z = slot_of(c);
    for (size_t i = 0; i < f->n; i++) {
        u8 *p = f->p[i];
        uintptr_t a = (uintptr_t)p;
        if (c && (*(u64 *)p != (a ^ c) || (z - CANARY >= 24 && ((u64 *)p)[(z - CANARY) / 8 - 1] != ~a))) { viol("C11", "object of size class %u at %p was changed", class_size(c), p); break; }
    }
    if (release) { for (size_t i = 0; i < f->n; i++) h_free(f->p[i]); f->n = 0; }
}
static atomic_int fill_go;
static void *fill_thread(void *arg) {
    if ((uintptr_t)arg & 1) while (!fill_go) usleep(1000);
    int t = (uintptr_t)arg & 1;
    const char *when = (uintptr_t)arg & 2 ? "second time" : "first time";
    bool first = !((uintptr_t)arg & 2);
    for (unsigned i = 0; i < NC; i++) fill_class(t, i, when, first);
    for (unsigned i = 0; i < NC; i++) fill_check(t, i, false);
    return NULL;
}
static void full_child(void) {
    find_reservation();
    int nt = CF_ARENAS > 1 ? 2 : 1;
    for (uintptr_t round = 0; round < 2; round++) {
        pthread_t th;
        // another thread: another arena
        fill_go = 0;
        if (nt == 2 && pthread_create(&th, NULL, fill_thread, (void *)(round * 2 + 1))) vf_die("thread");
        fill_thread((void *)(round * 2));
        fill_go = 1;
        if (nt == 2) pthread_join(th, NULL);
        for (int t = 0; t < nt; t++) for (unsigned c = 0; c < NC; c++) for (int u = 0; u < nt; u++) for (unsigned d = 0; d < NC; d++) {
            struct fill *x = &fl[t][c], *y = &fl[u][d];
            if (x >= y || !x->hi || !y->hi) continue;
            if (x->lo < y->hi && y->lo < x->hi) { viol("C11", "memory of size class %u (arena %d) [%lx, %lx) overlaps that of size class %u (arena %d) [%lx, %lx)", class_size(c), t, x->lo, x->hi, class_size(d), u, y->lo, y->hi); break; }
        }
        for (int t = 0; t < nt; t++) for (unsigned c = 0; c < NC; c++) fill_check(t, c, true);
        if (round == 0 && rndn(&R, 2)) h_malloc_trim(0);
    }
    vstat("regions_filled", (u64)nt * NC * 2);
    vstat("objects_filled", n_filled);
}
static void mode_full(u64 rounds) {
    extern char **environ;
    for (u64 i = 0; i < rounds && vf_nviol < 3; i++) {
        pid_t pid = fork();
        if (!pid) {
            static char s[60];
            static char *env[64];
            int k = 0;
            for (char **e = environ; *e && k < 60; e++) if (strncmp(*e, "VF_SEED=", 8) && strncmp(*e, "VF_MODE=", 8)) env[k++] = *e;
            vf_fmt(s, sizeof s, "VF_SEED=%lu", R.s + i);
            env[k++] = s; env[k++] = "VF_MODE=full1"; env[k] = NULL;
            char *argv[] = {"space", NULL};
            execve("/proc/self/exe", argv, env);
            syscall(SYS_exit_group, 3);
        }
        int st;
        waitpid(pid, &st, 0);
        if (st && !(WIFEXITED(st) && WEXITSTATUS(st) == 1)) viol("C11", "process that fills its size class regions ends with status %x", st);
        vstat("processes", 1);
    }
}

int main(void) {
    R.s = env_u64("VF_SEED", 1) * 104729;
    u64 n = env_u64("VF_OPS", 1);
    const char *m = getenv("VF_MODE");
    if (!m) m = "arena";
    vf_install_segv();
    if (!strcmp(m, "arena")) mode_arena(n);
    else if (!strcmp(m, "guard")) mode_guard(n);
    else if (!strcmp(m, "reuse")) mode_reuse(n);
    else if (!strcmp(m, "full")) mode_full(n);
    else if (!strcmp(m, "full1")) full_child();
    else if (!strcmp(m, "foot")) mode_foot(n);
    else vf_die("mode");
    vstat("evals", n_evals);
    vstat("ownership_checks", own_checks);
    for (unsigned i = 0; i < 256; i++) if (covbits[i]) vcov(m, i, covbits[i]);
    ip_stats();
    vf_finish();
}
