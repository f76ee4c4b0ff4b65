// The layout of many fresh processes, without address space randomization by the kernel: what varies
// is what the allocator randomizes. A child (VF_CHILD) describes itself on a pipe, the parent compares.
#include "interpose.h"
#include <sys/personality.h>

#define NC (N_DOC + 1)
#define NA CF_ARENAS
#define NLARGE 48
struct desc {
    u64 ok;
    u64 res;                  // start of the reservation with the small allocations
    u64 res_len;
    u64 state;                // start of the largest other early mapping: the allocator's state
    u64 state_len;
    u64 start[NA][NC];        // first slab of each size class
    u64 canary[NA][NC][3];
    u16 slots[NA][NC][8];     // slots of the first allocations
    u64 guard[NLARGE];        // pages reserved beyond the size of large allocations
    u32 quar[NA][NC];         // index of the free at which the first freed one came back
    u64 seedless;
};
static struct desc D;
static u64 n_evals;
static u64 covbits[64];
static void cov(unsigned k) { covbits[(k >> 6) & 63] |= 1UL << (k & 63); }

static u8 *objs[256 * 3];
static int next_arena;
static void *describe_arena(void *arg) {
    int a = (int)(size_t)arg;
    for (unsigned c = 0; c < NC; c++) {
        size_t sl = class_slots(c), sz = c ? class_size(c) : 16, req = c ? class_size(c) - CANARY : 0;
        // fills three slabs: the first slab is where the first slots lie
        for (size_t i = 0; i < sl * 3; i++) objs[i] = h_malloc(req);
        u8 *lo = objs[0];
        for (size_t i = 0; i < sl; i++) { if (!objs[i]) vf_broken("allocation failed"); if (objs[i] < lo) lo = objs[i]; }
        D.start[a][c] = (u64)lo;
        for (size_t i = 0; i < 8; i++) D.slots[a][c][i] = i < sl ? (objs[i] - lo) / sz : 0;
        if (c && CF_CANARY) for (int k = 0; k < 3; k++) memcpy(&D.canary[a][c][k], objs[k * sl] + req, 8);
        for (size_t i = 0; i < sl * 3; i++) h_free(objs[i]);
    }
    return NULL;
}
static volatile size_t last_map;
static void on_event(int kind, uintptr_t a, size_t n, int prot, uintptr_t b, size_t m) { if (kind == C_MMAP && n > last_map) last_map = n; }
static void child(int fd) {
    void *warm = h_malloc(100);
    for (int a = 0; a < NA; a++) { pthread_t t; if (pthread_create(&t, NULL, describe_arena, (void *)(size_t)a)) vf_die("thread"); pthread_join(t, NULL); }
    for (unsigned i = 0; i < n_first_maps; i++) {
        if ((uintptr_t)warm >= first_maps[i].a && (uintptr_t)warm < first_maps[i].a + first_maps[i].n) { D.res = first_maps[i].a; D.res_len = first_maps[i].n; }
    }
    for (unsigned i = 0; i < n_first_maps; i++) if (first_maps[i].a != D.res && first_maps[i].n > D.state_len) { D.state = first_maps[i].a; D.state_len = first_maps[i].n; }
    u64 rw = ~0UL;
    for (unsigned i = 0; i < n_first_prots; i++) if (first_prots[i].a >= D.state && first_prots[i].a < D.state + D.state_len && first_prots[i].a < rw) rw = first_prots[i].a;
    D.state = rw;
    event_hook = on_event;
    for (int i = 0; i < NLARGE; i++) {
        last_map = 0;
        h_malloc(1 << 20);
        D.guard[i] = (last_map - (1 << 20)) / PGSZ;
    }
    event_hook = NULL;
    D.ok = 1;
    u8 *p = (void *)&D;
    for (size_t n = 0; n < sizeof D;) { ssize_t r = syscall(SYS_write, fd, p + n, sizeof D - n); if (r <= 0) break; n += r; }
    syscall(SYS_exit_group, 0);
}

// Slots used in slabs that were in use before, in this process: whichever are free (objects are freed in a
// random order), each position must be as likely as the others.
#define MAX_SLABS 65536
static u64 n_reused[2];
static void reused_slots(rng_t *R, unsigned c) {
    size_t sl = class_slots(c), sz = c ? class_size(c) : 16, req = c ? class_size(c) - CANARY : 0, slab = class_slab(c), n = sl * (CF_FSQ + 20) + quarantine_len(c, CF_QQ) + quarantine_len(c, CF_QR);
    if (sl < 2) return;
    static u8 *o[60000];
    if (n > 60000) n = 60000;
    static u16 live[MAX_SLABS];
    static u64 cnt[2][256], tot[2];
    memset(live, 0, sizeof live); memset(cnt, 0, sizeof cnt); memset(tot, 0, sizeof tot);
    u8 *lo = NULL;
    size_t keep = 0, rounds = 1500000 / n < 12 ? 12 : 1500000 / n > 120 ? 120 : 1500000 / n;
    for (size_t r = 0; r < rounds; r++) {
        for (size_t i = keep; i < n; i++) {
            u8 *p = o[i] = h_malloc(req);
            if (!p) vf_broken("allocation failed");
            if (!r && i < sl && (!lo || p < lo)) lo = p;       // these fill the first slab
            if (!r && i < sl) continue;
            if (p < lo) return;                                 // of another arena, or otherwise not as expected: not for this test
            size_t s = (p - lo) / slab, t = (p - lo) % slab / sz;
            if (s >= MAX_SLABS || t >= sl) return;
            if (r && live[s] < (sl + 1) / 2) { cnt[live[s] > 0][t]++; tot[live[s] > 0]++; }
            live[s]++;
        }
        if (!r) live[0] = sl;
        for (size_t i = 0; i < n; i++) { size_t j = i + rndn(R, n - i); u8 *t = o[i]; o[i] = o[j]; o[j] = t; }
        keep = r % 3 ? rndn(R, n / 2) : 0;
        for (size_t i = keep; i < n; i++) { size_t s = (o[i] - lo) / slab; live[s]--; h_free(o[i]); }
    }
    for (size_t i = 0; i < keep; i++) h_free(o[i]);
    static const char *what[2] = {"an emptied slab is used again with", "a partly used slab is filled up with"};
    for (int k = 0; k < 2; k++) if (tot[k] >= 6 * sl) {
        double x = 0, e = (double)tot[k] / sl;
        for (size_t t = 0; t < sl; t++) x += (cnt[k][t] - e) * (cnt[k][t] - e) / e;
        if (getenv("VF_DBG")) dprintf(2, "DBG k %d class %u slots %zu x %lu z %ld tot %lu\n", k, c, sl, (u64)x, (long)((x - sl) / __builtin_sqrt(2.0 * sl)), tot[k]);
        if (x > sl + 16 * __builtin_sqrt(2.0 * sl) + 100) viol("C12", "the slot %s isn't random in class %u: chi-square %lu for %zu slots, %lu samples", what[k], c, (u64)x, sl, tot[k]);
        n_evals += tot[k];
        cov(256 + k * 64 + c);
        n_reused[k] += tot[k];
    }
}

static struct desc *d;
static u64 N;
static int cmp64(const void *a, const void *b) { u64 x = *(u64 *)a, y = *(u64 *)b; return x < y ? -1 : x > y; }
static u64 distinct(u64 *v, u64 n) {
    for (u64 i = 1; i < n; i++) { u64 x = v[i]; u64 j = i; for (; j && v[j - 1] > x; j--) v[j] = v[j - 1]; v[j] = x; }
    u64 k = n > 0;
    for (u64 i = 1; i < n; i++) k += v[i] != v[i - 1];
    return k;
}
static double sd(const double *x, u64 n) { double m = 0, s = 0; for (u64 i = 0; i < n; i++) m += x[i] / n; for (u64 i = 0; i < n; i++) s += (x[i] - m) * (x[i] - m) / n; return __builtin_sqrt(s); }

int main(int argc, char **argv) {
    if (getenv("VF_CHILD")) child(atoi(getenv("VF_CHILD")));
    N = env_u64("VF_OPS", 120);
    vf_install_segv();
    personality(ADDR_NO_RANDOMIZE);
    d = vf_map(N * sizeof(*d));
    for (u64 i = 0; i < N; i++) {
        int pp[2];
        if (pipe(pp)) vf_die("pipe");
        pid_t pid = fork();
        if (!pid) {
            close(pp[0]);
            char e[40];
            vf_fmt(e, 40, "VF_CHILD=%d", pp[1]);
            char *env[] = {e, NULL};
            execve("/proc/self/exe", argv, env);
            syscall(SYS_exit_group, 3);
        }
        close(pp[1]);
        u8 *p = (void *)&d[i];
        for (size_t n = 0;;) { ssize_t r = read(pp[0], p + n, sizeof(*d) - n); if (r <= 0) break; n += r; }
        close(pp[0]);
        int st;
        waitpid(pid, &st, 0);
        if (!d[i].ok) vf_broken("child %lu: status %x", i, st);
        if (!d[i].res || !d[i].state) vf_die("no reservation found");
    }
    u64 *v = vf_map(8 * N);
    double *f = vf_map(8 * N * NA * NC + 8);
    u64 pages = CF_REGION / PGSZ;
    u64 slack = 6 + 2 * N * N / pages;        // accidental repeats
    // every pair of size class regions
    u64 pairs = 0;
    for (unsigned x = 0; x < NA * NC; x++) for (unsigned y = x + 1; y < NA * NC && vf_nviol < 5; y++) {
        for (u64 i = 0; i < N; i++) v[i] = (&d[i].start[0][0])[y] - (&d[i].start[0][0])[x];
        u64 k = distinct(v, N);
        pairs++;
        if (k + slack < N) viol("C12", "the distance between the slabs of arena %u class %u and arena %u class %u had only %lu different values in %lu processes", x / NC, x % NC, y / NC, y % NC, k, N);
    }
    n_evals += pairs * N;
    // spread of the regions within their windows, and each bit of it
    u64 q = 0;
    u64 nbits = 63 - __builtin_clzl(CF_REGION);
    static u64 bit[64], tot;
    for (u64 i = 0; i < N; i++) for (unsigned x = 0; x + 1 < NA * NC; x++) {
        u64 diff = (&d[i].start[0][0])[x + 1] - (&d[i].start[0][0])[x];
        f[q++] = (double)(int64_t)diff;
        for (unsigned b = 12; b < nbits; b++) bit[b] += diff >> b & 1;
        tot++;
    }
    double s = sd(f, q);
    if (s < 0.3 * CF_REGION) viol("C12", "the bases of size class regions vary by %lu only, of %lu", (u64)s, CF_REGION);
    for (unsigned b = 12; b < nbits; b++) {
        double p = (double)bit[b] / tot, dev = p - 0.5, lim = 6 * 0.5 / __builtin_sqrt((double)tot) * 1.5 + (b + 3 > nbits ? 0.02 : 0);
        if (dev > lim || dev < -lim) viol("C12", "bit %u of the distance between size class regions is set in %lu of %lu cases", b, bit[b], tot);
        cov(b);
    }
    // position of the slab region relative to the state
    for (u64 i = 0; i < N; i++) { v[i] = d[i].state_len; f[i] = (double)(int64_t)(d[i].state_len); }
    u64 k = distinct(v, N);
    if (k + slack < N) viol("C12", "the reservation for the allocator's state has only %lu different guard sizes in %lu processes", k, N);
    if (sd(f, N) < 0.4 * CF_REGION) viol("C12", "the guards around the allocator's state vary by %lu only", (u64)sd(f, N));
    for (u64 i = 0; i < N; i++) v[i] = d[i].start[0][0] - d[i].state;
    if (distinct(v, N) + slack < N) viol("C12", "the distance from the allocator's state to the slabs is the same in many processes");
    for (u64 i = 0; i < N; i++) v[i] = d[i].res - d[i].state;
    if (distinct(v, N) + slack < N) viol("C12", "the distance from the allocator's state to the slab region is the same in many processes");
    n_evals += 4 * N;
    // canaries
    if (CF_CANARY) {
        u64 m = N * NA * (NC - 1) * 3, j = 0;
        u64 *cv = vf_map(m * 8);
        static u64 bytes[8][256];
        for (u64 i = 0; i < N; i++) for (unsigned a = 0; a < NA; a++) for (unsigned c = 1; c < NC; c++) for (int t = 0; t < 3; t++) {
            u64 x = d[i].canary[a][c][t];
            cv[j++] = x;
            for (int b = 0; b < 8; b++) bytes[b][x >> (8 * b) & 255]++;
        }
        if (bytes[0][0] != m) viol("C07", "the first byte of a canary is not zero");
        for (int b = 1; b < 8; b++) {
            double x = 0, e = m / 256.0;
            for (int t = 0; t < 256; t++) x += (bytes[b][t] - e) * (bytes[b][t] - e) / e;
            if (x > 480) viol("C12", "byte %d of the canaries is not random: chi-square %lu for 256 values", b, (u64)x);
        }
        qsort(cv, m, 8, cmp64);
        u64 dup = 0;
        for (u64 i = 1; i < m; i++) dup += cv[i] == cv[i - 1];
        if (dup > 1) viol("C12", "%lu of %lu canaries repeat", dup, m);
        n_evals += m;
        vstat("canaries", m);
    }
    // slots
    if (CF_RANDSLOT) {
        for (unsigned c = 0; c < NC && vf_nviol < 5; c++) {
            size_t sl = class_slots(c);
            if (sl < 2) continue;
            static u64 cnt[256];
            memset(cnt, 0, sizeof cnt);
            for (u64 i = 0; i < N; i++) for (unsigned a = 0; a < NA; a++) { unsigned s0 = d[i].slots[a][c][0]; if (s0 >= sl) vf_broken("slot"); cnt[s0]++; }
            double e = (double)N * NA / sl, x = 0;
            unsigned unused = 0;
            for (size_t t = 0; t < sl; t++) { x += (cnt[t] - e) * (cnt[t] - e) / e; unused += !cnt[t]; }
            // mean sl - 1, variance 2 (sl - 1), heavy tail for small e
            double lim = sl + 9 * __builtin_sqrt(2.0 * sl) + 40;
            if (x > lim) viol("C12", "the first slot used in class %u is not random: chi-square %lu for %zu slots in %lu processes", c, (u64)x, sl, N * NA);
            n_evals += N * NA;
            cov(64 + c);
        }
        // sequences of slots repeat neither between processes nor between classes and arenas
        u64 m = 0, *sv = vf_map(8 * N * NA * NC);
        for (u64 i = 0; i < N; i++) for (unsigned a = 0; a < NA; a++) for (unsigned c = 0; c < NC; c++) if (class_slots(c) >= 36) {
            u64 h = 0;
            for (int t = 0; t < 8; t++) h = h << 8 | (u8)(d[i].slots[a][c][t]);
            sv[m++] = h;
        }
        qsort(sv, m, 8, cmp64);
        u64 dup = 0;
        for (u64 i = 1; i < m; i++) dup += sv[i] == sv[i - 1];
        if (dup > 4) viol("C12", "%lu of %lu sequences of slots repeat", dup, m);
        vstat("slot_sequences", m);
        n_evals += m;
    }
    if (CF_RANDSLOT) {
        rng_t R = {env_u64("VF_SEED", 1) * 7919 + 1};
        for (unsigned c = 0; c < NC && vf_nviol < 5; c++) reused_slots(&R, c);
        vstat("slots_in_emptied_slabs", n_reused[0]); vstat("slots_in_partial_slabs", n_reused[1]);
    }
    // guards of large allocations: before and after, each of 1 to size / divisor pages
    {
        u64 max = (1UL << 20) / PGSZ / CF_GDIV, over = 0;
        if (max < 1) max = 1;
        static u64 hist[4096];
        for (u64 i = 0; i < N; i++) for (int t = 0; t < NLARGE; t++) {
            u64 g = d[i].guard[t];
            if (g < 2 || g > 2 * max) { viol("C10", "a large allocation of 1 MiB got %lu guard pages, expected 2 to %lu", g, 2 * max); break; }
            hist[g / 2]++;
            n_evals++;
        }
        u64 h[2] = {0}, used = 0;
        for (u64 g = 1; g <= max; g++) { h[g > max / 2] += hist[g]; used += hist[g] > 0; }
        double t = N * NLARGE, p = h[1] / t - 0.5, lim = 6 * 0.5 / __builtin_sqrt(t);
        if (max >= 8) {
            if (p > lim || p < -lim) viol("C10", "guard sizes are not uniform: %lu below, %lu above the middle", h[0], h[1]);
            if (used * 10 < max * 8 && N * NLARGE > 20 * max) viol("C10", "only %lu of %lu guard sizes were seen", used, max);
            u64 *sv = vf_map(8 * N);
            for (u64 i = 0; i < N; i++) { sv[i] = 0; for (int t2 = 0; t2 < NLARGE; t2++) sv[i] = sv[i] * 1000003 + d[i].guard[t2]; }
            if (distinct(sv, N) < N) { viol("C12", "the sequence of guard sizes of large allocations repeats between processes"); viol("C10", "the sequence of guard sizes of large allocations repeats between processes"); }
        }
        vstat("large_guards", N * NLARGE);
        cov(200);
    }
    vsample("process 0: class 1 of arena 0 at %lx, state at %lx, reservation at %lx", d[0].start[0][1], d[0].state, d[0].res);
    vsample("process 1: class 1 of arena 0 at %lx, state at %lx, reservation at %lx", d[1].start[0][1], d[1].state, d[1].res);
    vstat("processes", N); vstat("region_pairs", pairs);
    vstat("evals", n_evals);
    for (unsigned i = 0; i < 64; i++) if (covbits[i]) vcov("layout", i, covbits[i]);
    vf_finish();
}
