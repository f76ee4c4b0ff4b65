// C20: malloc_info and mallinfo2 against a model of what the program did, at every quiescent point and
// (for what holds at any time) while other threads work. Without statistics: that they are empty.
#include "interpose.h"
#include "ops.h"

#define MAXT 24
#define NCLS (N_DOC + 1)
typedef struct { u64 nmalloc, ndalloc, slab, allocated; } bin_t;
typedef struct { bin_t b[CF_ARENAS][50]; u64 large; unsigned bins; } info_t;
typedef struct { char *buf; size_t n; } cap_t;
#define CAPN (1 << 20)

static ssize_t cookie_write(void *c, const char *b, size_t n) {
    cap_t *k = c;
    if (k->n + n > CAPN) vf_die("malloc_info too long");
    memcpy(k->buf + k->n, b, n);
    k->n += n;
    return n;
}
static FILE *info_stream(cap_t *k) {
    cookie_io_functions_t io = {.write = cookie_write};
    k->buf = vf_map(CAPN); k->n = 0;
    FILE *f = fopencookie(k, "w", io);
    setvbuf(f, vf_map(8192), _IOFBF, 8192);
    return f;
}

// ---- the report ----
static const char *ps;
static bool lit(const char *l) { size_t n = strlen(l); if (strncmp(ps, l, n)) return false; ps += n; return true; }
static u64 num(bool *ok) { u64 v = 0; if (*ps < '0' || *ps > '9') *ok = false; while (*ps >= '0' && *ps <= '9') v = v * 10 + *ps++ - '0'; return v; }
static spin_t parse_lock;
static u64 n_parsed, n_bins;
static bool parse(cap_t *k, info_t *in, const char *when) {
    spin_lock(&parse_lock);
    bool ok = true;
    memset(in, 0, sizeof *in);
    k->buf[k->n] = 0;
    ps = k->buf;
    n_parsed++;
    if (!lit("<malloc version=\"hardened_malloc-1\">")) ok = false;
    if (CF_STATS) {
        for (unsigned a = 0; ok && a <= CF_ARENAS; a++) {
            if (!lit("<heap nr=\"") || num(&ok) != a || !lit("\">")) { ok = false; break; }
            if (a == CF_ARENAS) { if (!lit("<allocated_large>")) ok = false; in->large = num(&ok); if (!lit("</allocated_large></heap>")) ok = false; break; }
            int last = -1;
            while (ok && lit("<bin nr=\"")) {
                unsigned b = num(&ok);
                if (!ok || (int)b <= last || b >= NCLS) { ok = false; break; }
                last = b;
                bin_t *x = &in->b[a][b];
                if (!lit("\" size=\"") || num(&ok) != class_size(b) || !lit("\"><nmalloc>")) { ok = false; break; }
                x->nmalloc = num(&ok);
                if (!lit("</nmalloc><ndalloc>")) ok = false;
                x->ndalloc = num(&ok);
                if (!lit("</ndalloc><slab_allocated>")) ok = false;
                x->slab = num(&ok);
                if (!lit("</slab_allocated><allocated>")) ok = false;
                x->allocated = num(&ok);
                if (!lit("</allocated></bin>")) ok = false;
                n_bins++; in->bins++;
                if (ok && (x->ndalloc > x->nmalloc || x->allocated != (x->nmalloc - x->ndalloc) * (b ? class_size(b) : 16) || x->slab < x->allocated || x->slab % class_slab(b)))
                    viol("C20", "%s: arena %u, class %zu: %lu allocations, %lu deallocations, %lu bytes allocated, %lu in slabs of %zu", when, a, class_size(b), x->nmalloc, x->ndalloc, x->allocated, x->slab, class_slab(b));
            }
            if (ok && !lit("</heap>")) ok = false;
        }
    }
    if (ok && (!lit("</malloc>") || *ps)) ok = false;
    if (!ok) { char t[60]; size_t i; for (i = 0; i < 59 && ps[i]; i++) t[i] = ps[i]; t[i] = 0; viol("C20", "%s: malloc_info is malformed at byte %lu: %s", when, (u64)(ps - k->buf), t); }
    k->n = 0;
    spin_unlock(&parse_lock);
    return ok;
}
static bool report(FILE *f, cap_t *k, info_t *in, const char *when) {
    k->n = 0;
    if (h_malloc_info(0, f)) { viol("C20", "malloc_info failed"); return false; }
    fflush(f);
    return parse(k, in, when);
}

// ---- the model ----
static struct { atomic_ulong m, d; } mod[CF_ARENAS][50];
static info_t base;
static u64 base_large;
static __thread unsigned my_arena;
static struct { uintptr_t a, e; } res;

// slabs made accessible, by the interposed calls
typedef struct { uintptr_t a, e; int who; } rw_t;
#define MAXRW 400000
static rw_t *rw;
static volatile size_t n_rw;
static spin_t rw_lock;
static size_t rw_index(uintptr_t a) { size_t l = 0, r = n_rw; while (l < r) { size_t m = (l + r) / 2; if (rw[m].e > a) r = m; else l = m + 1; } return l; }
static volatile bool rw_odd;
static void rw_event(int kind, uintptr_t a, size_t n, int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if (kind == C_MPROTECT && (prot & PROT_WRITE) && !(res.a && (a < res.a || a >= res.e))) {
        spin_lock(&rw_lock);
        size_t i = rw_index(a);
        if (n_rw >= MAXRW) vf_die("too many slabs");
        if (i < n_rw && rw[i].a < a + n) rw_odd = true;
        memmove(&rw[i + 1], &rw[i], (n_rw - i) * sizeof *rw);
        rw[i] = (rw_t){a, a + n, -1};
        n_rw++;
        spin_unlock(&rw_lock);
    } else if (kind == C_MMAP_FIXED) {
        spin_lock(&rw_lock);
        size_t i = rw_index(a), j = i;
        while (j < n_rw && rw[j].a >= a && rw[j].e <= a + n) j++;
        if (j < n_rw && rw[j].a < a + n) rw_odd = true;
        memmove(&rw[i], &rw[j], (n_rw - j) * sizeof *rw);
        n_rw -= j - i;
        spin_unlock(&rw_lock);
    }
}
static void place(op_obj *o) {
    o->user = my_arena;
    atomic_fetch_add(&mod[my_arena][o->cls].m, 1);
    if (o->cls == 0) return;
    spin_lock(&rw_lock);
    size_t i = rw_index((uintptr_t)o->p);
    if (i < n_rw && rw[i].a <= (uintptr_t)o->p) {
        int who = my_arena * 50 + o->cls;
        if (rw[i].who >= 0 && rw[i].who != who) viol("C11", "a slab of class %d arena %d holds an object of class %u arena %u", rw[i].who % 50, rw[i].who / 50, o->cls, my_arena);
        rw[i].who = who;
    }
    spin_unlock(&rw_lock);
}
static u64 n_events;
static void m_alloc(op_obj *o) { __atomic_fetch_add(&n_events, 1, __ATOMIC_RELAXED); if (o->cls != EXP_LARGE) place(o); }
static void m_free(const op_obj *o) { if (o->cls != EXP_LARGE) atomic_fetch_add(&mod[o->user][o->cls].d, 1); }
static void m_realloc(const op_obj *old, op_obj *now) {
    if (old->p == now->p) return;
    m_free(old);
    m_alloc(now);
}

static ops_t W[MAXT];
static cap_t K[MAXT + 1];
static unsigned T, n_made;
static u64 n_quiet, n_rwcmp, n_cmp;
static FILE *chk;
static void quiescent(const char *when) {
    static info_t in;
    n_quiet++;
    if (!report(chk, &K[MAXT], &in, when)) return;
    struct mallinfo2 mi = h_mallinfo2();
    if (!CF_STATS) {
        static const struct mallinfo2 z;
        if (memcmp(&mi, &z, sizeof z)) viol("C20", "mallinfo2 is not zero without statistics");
        return;
    }
    u64 large = 0, alloc = 0, slabs = 0, slabs0 = 0;
    for (unsigned t = 0; t < n_made; t++) for (unsigned i = 0; i < W[t].nobj; i++) if (W[t].o[i].p && W[t].o[i].cls == EXP_LARGE) large += h_malloc_usable_size(W[t].o[i].p);
    if (in.large != base_large + large) viol("C20", "%s: %lu bytes of large allocations reported, %lu made", when, in.large, base_large + large);
    static u64 held[CF_ARENAS][50];
    memset(held, 0, sizeof held);
    u64 unknown = 0, total = 0;
    spin_lock(&rw_lock);
    for (size_t i = 0; i < n_rw; i++) {
        if (rw[i].a < res.a || rw[i].a >= res.e) continue;
        u64 n = RND_UP(rw[i].e - rw[i].a);
        total += n;
        if (rw[i].who >= 0) held[rw[i].who / 50][rw[i].who % 50] += n; else unknown += n;
    }
    spin_unlock(&rw_lock);
    for (unsigned a = 0; a < CF_ARENAS; a++)
        for (unsigned c = 0; c < NCLS; c++) {
            bin_t *b = &in.b[a][c], *z = &base.b[a][c];
            u64 m = mod[a][c].m, d = mod[a][c].d;
            n_cmp++;
            if (b->nmalloc - z->nmalloc != m || b->ndalloc - z->ndalloc != d)
                viol("C20", "%s: arena %u, class %zu: %lu allocations and %lu deallocations reported, %lu and %lu made", when, a, class_size(c), b->nmalloc - z->nmalloc, b->ndalloc - z->ndalloc, m, d);
            alloc += b->allocated;
            if (c) slabs += b->slab; else slabs0 += b->slab;
            u64 live = b->nmalloc - b->ndalloc;
            if (b->slab < (live + class_slots(c) - 1) / class_slots(c) * class_slab(c)) viol("C20", "%s: class %zu: %lu objects live in %lu bytes of slabs", when, class_size(c), live, b->slab);
            if (c && !rw_odd && (b->slab < held[a][c] || b->slab > held[a][c] + unknown))
                viol("C20", "%s: arena %u, class %zu: %lu bytes of slabs reported, %lu accessible", when, a, class_size(c), b->slab, held[a][c]);
        }
    if (!rw_odd) { n_rwcmp++; if (slabs != total) viol("C20", "%s: %lu bytes of slabs reported, %lu accessible", when, slabs, total); }
    if (mi.uordblks != alloc + in.large || mi.hblkhd != slabs + slabs0 + in.large || mi.fordblks != mi.hblkhd - mi.uordblks || mi.usmblks != mi.hblkhd)
        viol("C20", "%s: mallinfo2 reports %zu allocated, %zu mapped, %zu free, %zu maximum; malloc_info %lu allocated, %lu mapped", when, mi.uordblks, mi.hblkhd, mi.fordblks, mi.usmblks, alloc + in.large, slabs + slabs0 + in.large);
    if (mi.arena || mi.ordblks || mi.smblks || mi.hblks || mi.fsmblks || mi.keepcost) viol("C20", "other fields of mallinfo2 are not zero");
    struct mallinfo old = h_mallinfo();
    static const struct mallinfo zo;
    if (memcmp(&old, &zo, sizeof zo)) viol("C20", "mallinfo is not zero");
}

static pthread_barrier_t bar;
static spin_t turn;
static u64 OPS;
static unsigned ROUNDS;
static __thread ops_t *cur;
static u64 n_conc;
static void m_call(unsigned op) {
    if (op == O_INFO) {   // while others work
        static __thread info_t *in, *last;
        if (!in) { in = vf_map(sizeof *in); last = vf_map(sizeof *last); }
        cap_t *k = &K[cur - W];
        if (!k->n) return;
        if (!parse(k, in, "concurrent report")) return;
        __atomic_fetch_add(&n_conc, 1, __ATOMIC_RELAXED);
        for (unsigned a = 0; a < CF_ARENAS; a++) for (unsigned c = 0; c < NCLS; c++)
            if (in->b[a][c].nmalloc < last->b[a][c].nmalloc || in->b[a][c].ndalloc < last->b[a][c].ndalloc) viol("C20", "counters of class %zu go back", class_size(c));
        memcpy(last, in, sizeof *in);
    }
}
static void learn(void) {   // which arena serves this thread
    static info_t x, y;
    spin_lock(&turn);
    if (CF_STATS && CF_ARENAS > 1) {
        report(chk, &K[MAXT], &x, "start");
        void *p = h_malloc(40);
        report(chk, &K[MAXT], &y, "start");
        unsigned c = expect_size(40, 16).cls, n = 0;
        for (unsigned a = 0; a < CF_ARENAS; a++) if (y.b[a][c].nmalloc == x.b[a][c].nmalloc + 1) { my_arena = a; n++; }
        if (n != 1) viol("C20", "an allocation of class %zu is counted in %u arenas", class_size(c), n);
        h_free(p);
    }
    spin_unlock(&turn);
}
// many objects of a size class at once, so that slabs become empty, are purged and used again; and more than 4 GiB of large ones
static u64 n_burst, n_huge;
static void burst(rng_t *R, unsigned c) {
    static u8 *o[60000];
    size_t sl = class_slots(c), req = c ? class_size(c) - CANARY : 0, n = quarantine_len(c, CF_QQ) + quarantine_len(c, CF_QR) + sl * (CF_FSQ + 2 + (64 << 10) / class_slab(c) + rndn(R, 40)), have = 0;
    if (n > 60000) n = 60000;
    if (n * class_size(c) > (256UL << 20) || n / sl * class_slab(c) > CF_REGION / 16) return;
    for (int k = 0; k < 6; k++) {
        size_t want = k % 2 ? rndn(R, 3) ? 0 : rndn(R, n) : k ? n - rndn(R, n / 2) : n;
        while (have < want) { if (!(o[have] = h_malloc(req))) vf_die("no memory"); have++; atomic_fetch_add(&mod[my_arena][c].m, 1); if (c) { op_obj t = {.p = o[have - 1], .cls = c}; place(&t); atomic_fetch_sub(&mod[my_arena][c].m, 1); } }
        for (size_t i = 0; i < have; i++) { size_t j = i + rndn(R, have - i); u8 *t = o[i]; o[i] = o[j]; o[j] = t; }
        while (have > want) { h_free(o[--have]); atomic_fetch_add(&mod[my_arena][c].d, 1); }
        if (k == 3) h_malloc_trim(0);
        quiescent(k % 2 ? "many objects freed" : "many objects allocated");
        n_burst++;
    }
    while (have) { h_free(o[--have]); atomic_fetch_add(&mod[my_arena][c].d, 1); }
    quiescent("all of many objects freed");
}
static void huge(void) {
    enum { H = 6 };
    u8 *p[H];
    u64 was = base_large;
    for (int i = 0; i < H; i++) if ((p[i] = h_malloc(900000000UL + i * 200000000UL))) { base_large += h_malloc_usable_size(p[i]); quiescent("very large objects"); n_huge++; }
    for (int i = 0; i < H; i++) if (p[i]) { base_large -= h_malloc_usable_size(p[i]); h_free(p[i]); quiescent("very large objects freed"); }
    base_large = was;
}
static volatile bool inject, fault_on;
static op_obj xch[64];
static spin_t xlock;
static void *worker(void *a) {
    ops_t *c = a;
    cur = c;
    learn();
    pthread_barrier_wait(&bar);
    if (c == W) {
        report(chk, &K[MAXT], &base, "baseline");
        base_large = base.large;
        u64 mine = 0;
        base_large -= mine;
        inject = fault_on;
    }
    pthread_barrier_wait(&bar);
    for (unsigned r = 0; r < ROUNDS; r++) {
        for (u64 i = 0; i < OPS; i++) {
            ops_step(c);
            if (rndn(&c->r, 12) == 0) {     // hand an object over
                op_obj *o = &c->o[rndn(&c->r, c->nobj)], *x = &xch[rndn(&c->r, 64)], t;
                spin_lock(&xlock);
                t = *o; *o = *x; *x = t;
                spin_unlock(&xlock);
                c->live += o->p ? o->n : 0;
                c->live -= t.p ? t.n : 0;
            }
        }
        pthread_barrier_wait(&bar);
        if (c == W) {
            for (unsigned i = 0; i < 64; i++) if (xch[i].p) { // back into a free place
                for (unsigned j = 0; j < c->nobj; j++) if (!c->o[j].p) { c->o[j] = xch[i]; c->live += xch[i].n; xch[i].p = NULL; break; }
                if (xch[i].p) { ops_release(c, &xch[i], O_FREE); c->live += xch[i].n; xch[i].p = NULL; }
            }
            quiescent("threads at rest");
        }
        pthread_barrier_wait(&bar);
        if (r % 3 == 2) { ops_drain(c); pthread_barrier_wait(&bar); if (c == W) { quiescent("all freed"); h_malloc_trim(0); quiescent("trimmed"); } pthread_barrier_wait(&bar); }
    }
    return NULL;
}
static int enomem_hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) {
    static __thread rng_t r;
    if (!inject || kind == C_GETRANDOM || kind == C_WRITE) return 0;
    if (!r.s) r.s = (uintptr_t)&r;
    return rndn(&r, 12) == 0 ? ENOMEM : 0;
}
static void preinit(VF_UNUSED int c, VF_UNUSED char **v, VF_UNUSED char **e) {
    rw = (void *)syscall(SYS_mmap, NULL, sizeof(rw_t) * MAXRW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    event_hook = rw_event;
    u8 *p = h_malloc(16);
    for (unsigned i = 0; i < n_first_maps; i++)
        if ((uintptr_t)p >= first_maps[i].a && (uintptr_t)p < first_maps[i].a + first_maps[i].n) { res.a = first_maps[i].a; res.e = res.a + first_maps[i].n; }
    h_free(p);
}
__attribute__((section(".preinit_array"), used)) static void (*p_preinit)(int, char **, char **) = preinit;

int main(void) {
    vf_install_segv();
    rng_t R = {env_u64("VF_SEED", 1) * 104729};
    OPS = env_u64("VF_OPS", 4000);
    ROUNDS = env_u64("VF_ROUNDS", 9);
    T = env_u64("VF_THREADS", 1);
    if (T > MAXT) T = MAXT;
    if (!res.a) vf_die("no slab region");
    chk = info_stream(&K[MAXT]);
    bool fault = env_u64("VF_FAULT", 0);
    for (unsigned i = 0; i < T; i++) {
        ops_init(&W[i], rnd(&R), 300, 16UL << 20);
        W[i].info = info_stream(&K[i]);
        W[i].alloc_m = m_alloc; W[i].free_m = m_free; W[i].realloc_m = m_realloc; W[i].call_m = m_call;
    }
    n_made = T;
    pthread_barrier_init(&bar, NULL, T);
    if (fault) { fault_hook = enomem_hook; fault_on = true; }
    pthread_t th[MAXT];
    for (unsigned i = 1; i < T; i++) if (pthread_create(&th[i], NULL, worker, &W[i])) vf_die("no thread");
    if (T == 1 && !fault) {
        // after each single call
        cur = &W[0];
        learn();
        report(chk, &K[MAXT], &base, "baseline");
        base_large = base.large;
        u64 n = env_u64("VF_EACH", 3000);
        for (u64 i = 0; i < n && vf_nviol < 10; i++) {
            u64 before[O_N];
            memcpy(before, W[0].count, sizeof before);
            ops_step(&W[0]);
            for (unsigned k = 0; k < O_N; k++) if (W[0].count[k] != before[k]) quiescent(op_name[k]);
        }
        ops_drain(&W[0]);
        quiescent("all freed");
        if (CF_STATS && !vf_nviol) {
            burst(&R, 0);
            for (unsigned c = 1; c < NCLS && vf_nviol < 5; c += 1 + rndn(&R, 5)) burst(&R, c);
            huge();
            vstat("bursts", n_burst); vstat("very_large_objects", n_huge);
        }
        memset(mod, 0, sizeof mod);
    }
    worker(&W[0]);
    for (unsigned i = 1; i < T; i++) pthread_join(th[i], NULL);
    u64 tot = 0, fails = 0;
    for (unsigned i = 0; i < T; i++) for (unsigned k = 0; k < O_N; k++) {
        tot += W[i].count[k]; fails += W[i].failed[k];
        if (W[i].count[k]) vcov("op", 0, 1UL << k);
    }
    for (unsigned a = 0; a < CF_ARENAS; a++) { u64 m = 0; for (unsigned c = 0; c < NCLS; c++) if (mod[a][c].m) m |= 1UL << c; vcov("bin", a, m); }
    vstat("evals", n_cmp + n_parsed); vstat("calls", tot); vstat("failed_calls", fails); vstat("quiescent_points", n_quiet); vstat("bins_compared", n_cmp); vstat("slab_totals_compared", n_rwcmp);
    vstat("reports_parsed", n_parsed); vstat("concurrent_reports", n_conc); vstat("bins_reported", n_bins);
    ip_stats();
    vsample("%lu calls, %lu quiescent points, %lu bins compared, %lu reports parsed (%lu while others worked)", tot, n_quiet, n_cmp, n_parsed, n_conc);
    vf_finish();
}
