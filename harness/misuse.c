// Misuse of the allocator in random states: the process evolves a heap, and forks a child for every
// misuse, which has to end in a fatal allocator error (VF_MODE: c05 invalid and double frees,
// c06 sized deallocation, c07 canaries, c08 writes after free).
#include "vf.h"

typedef struct { u8 *p; size_t req, usable, region; u32 cls, align; } obj_t;
#define MAXOBJ 3000
static obj_t live[MAXOBJ];
static size_t n_live;
#define MAXFREED 2048
static obj_t freed[MAXFREED];
static u64 n_freed;
static rng_t R;
static u64 n_cases, n_abort, n_ok_controls, n_segv;
static uintptr_t lo = ~0UL, hi;

static const u32 aligns[] = {32, 64, 128, 512, 2048, 4096, 8192, 65536, 1 << 20};

static bool is_live_start(const u8 *p) { for (size_t i = 0; i < n_live; i++) if (live[i].p == p) return true; return false; }

static size_t pick_size(void) {
    u64 x = rndn(&R, 100);
    if (x < 5) return 0;
    if (x < 40) { size_t c = class_size(1 + rndn(&R, N_DOC)); return c - CANARY - rndn(&R, 8); }
    if (x < 80) return rndn(&R, 2000);
    if (x < 90) return rndn(&R, 131072);
    return rndn(&R, 1000000);
}

static void add(u8 *p, size_t req, u32 align) {
    if (!p) { if (CF_REGION < (64UL << 20)) return; vf_broken("allocation failed"); }
    struct exp e = expect_size(req, align ? align : 16);
    live[n_live++] = (obj_t){p, req, e.usable, e.region, e.cls, align};
    if (e.cls != EXP_LARGE) { if ((uintptr_t)p < lo) lo = (uintptr_t)p; if ((uintptr_t)p > hi) hi = (uintptr_t)p; }
}
static void drop(size_t i) {
    freed[n_freed++ % MAXFREED] = live[i];
    live[i] = live[--n_live];
}
static void evolve(size_t steps) {
    for (size_t k = 0; k < steps; k++) {
        static size_t target = 500;
        if (rndn(&R, 400) == 0) target = rndr(&R, 20, MAXOBJ - 100);
        if (n_live < (CF_REGION < (64UL << 20) ? target / 8 + 20 : target) || n_live == 0) {
            size_t s = pick_size();
            if (rndn(&R, 8) == 0) { u32 a = aligns[rndn(&R, 9)]; if (!CF_LARGE && !s) s = 1; add(h_aligned_alloc(a, s), s, a); }
            else add(h_malloc(s), s, 0);
            if (n_live && live[n_live - 1].usable) memset(live[n_live - 1].p, 0xa5, live[n_live - 1].req < 64 ? live[n_live - 1].req : 64);
        } else {
            size_t i = rndn(&R, n_live);
            if (rndn(&R, 6) == 0) {
                obj_t o = live[i];
                size_t s = pick_size();
                u8 *p = h_realloc(o.p, s);
                if (!p) { if (CF_REGION < (64UL << 20)) continue; vf_broken("realloc failed"); }
                if (p != o.p) { drop(i); add(p, s, 0); }
                else { live[i].req = s; live[i].align = 0; size_t u = h_malloc_usable_size(p); live[i].usable = u; if (live[i].cls == EXP_LARGE) live[i].region = u; }
            } else { h_free(live[i].p); drop(i); }
        }
        if (rndn(&R, 1500) == 0) h_malloc_trim(0);
    }
}

// ---- running a case in a child ----
enum { R_ABORT, R_SILENT_ABORT, R_SEGV, R_ACCEPTED, R_OTHER, R_HANG };
static const char *rname[] = {"fatal error", "abort without message", "SIGSEGV", "accepted", "other exit", "hang"};
static char msg[256];
static int child(void (*f)(void *), void *arg) {
    int pp[2];
    if (pipe(pp)) vf_die("pipe");
    n_cases++;
    pid_t pid = fork();
    if (pid < 0) vf_die("fork failed");
    if (pid == 0) {
        dup2(pp[1], 2);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGBUS, SIG_DFL);
        signal(SIGABRT, SIG_DFL);
        alarm(60);
        f(arg);
        syscall(SYS_exit_group, 77);
    }
    close(pp[1]);
    size_t n = 0;
    for (;;) {
        ssize_t r = read(pp[0], msg + n, sizeof(msg) - 1 - n);
        if (r <= 0) break;
        n += r;
        if (n == sizeof(msg) - 1) break;
    }
    msg[n] = 0;
    close(pp[0]);
    int st;
    if (waitpid(pid, &st, 0) != pid) vf_die("waitpid");
    bool fe = strncmp(msg, "fatal allocator error: ", 23) == 0;
    if (n && msg[n - 1] == '\n') msg[n - 1] = 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { n_abort++; return fe ? R_ABORT : R_SILENT_ABORT; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV) { n_segv++; return R_SEGV; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return R_HANG;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return R_ACCEPTED;
    return R_OTHER;
}

static u64 covbits[64];
static void cov(unsigned k) { covbits[(k >> 6) & 63] |= 1UL << (k & 63); }
static unsigned clsno(const obj_t *o) { return o->cls == EXP_LARGE ? 62 : o->cls; }

// ---- c05 ----
struct bad { u8 *p; unsigned op; size_t size; };
static const char *opn[] = {"free", "free_sized", "realloc", "malloc_usable_size", "cfree"};
static void do_bad(void *a) {
    struct bad *b = a;
    switch (b->op) {
    case 0: h_free(b->p); break;
    case 1: h_free_sized(b->p, b->size); break;
    case 2: { void *volatile q = h_realloc(b->p, b->size); (void)q; break; }
    case 3: { volatile size_t s = h_malloc_usable_size(b->p); (void)s; break; }
    case 4: h_cfree(b->p); break;
    }
}
static size_t other_class_size(const obj_t *o) {
    for (;;) { size_t s = pick_size(); if (expect_size(s, 16).region != o->region) return s; }
}
static pthread_barrier_t bar;
static void *racer(void *a) { pthread_barrier_wait(&bar); do_bad(a); return NULL; }
static void do_race(void *a) {
    // two threads free the same allocation at once; nothing can allocate it in between
    pthread_t t;
    pthread_barrier_init(&bar, NULL, 2);
    if (pthread_create(&t, NULL, racer, a)) syscall(SYS_exit_group, 78);
    racer(a);
    pthread_join(t, NULL);
}
// an allocated object freed twice with other activity between the calls
struct later { struct bad b; size_t n; };
static void do_later(void *a) {
    struct later *l = a;
    u8 *p = l->b.p;
    struct exp e = expect_size(l->b.size, 16);
    h_free(p);
    void *q[64];
    for (size_t i = 0; i < l->n; i++) {
        // activity that may push p through the quarantine, but ends before p is handed out
        for (int k = 0; k < 8; k++) if ((q[k] = h_malloc(l->b.size)) == p) syscall(SYS_exit_group, 79);
        for (int k = 0; k < 8; k++) h_free(q[k]);
    }
    (void)e;
    do_bad(&l->b);
}
// two allocations of a fresh slab, freed A, B, A (and the state where the slab becomes empty and purged)
static void do_aba(void *a) {
    struct bad *b = a;
    u8 *p = h_malloc(b->size), *q = h_malloc(b->size);
    h_free(p);
    h_free(q);
    if (rnd(&R) & 1) h_malloc_trim(0);
    b->p = p;
    do_bad(b);
}

static struct { uintptr_t a, e; int w; } maps[40000];
static size_t n_maps;
static void read_maps(void) {
    static char buf[1 << 22];
    int fd = open("/proc/self/maps", O_RDONLY);
    size_t n = 0;
    for (;;) { ssize_t r = read(fd, buf + n, sizeof(buf) - 1 - n); if (r <= 0) break; n += r; }
    close(fd);
    buf[n] = 0;
    n_maps = 0;
    for (char *s = buf; *s && n_maps < 40000;) {
        char *d;
        uintptr_t x = strtoul(s, &d, 16), y = strtoul(d + 1, &d, 16);
        maps[n_maps].a = x; maps[n_maps].e = y; maps[n_maps++].w = d[2] == 'w';
        s = strchr(d, '\n');
        if (!s) break;
        s++;
    }
}

static void mode_c05(u64 rounds) {
    static u8 global[256] __attribute__((aligned(64)));
    u8 local[256] __attribute__((aligned(64)));
    void *mm = vf_map(65536);
    for (u64 i = 0; i < rounds && vf_nviol < 10; i++) {
        evolve(1 + rndn(&R, 120));
        unsigned kind = rndn(&R, 14);
        struct bad b = {0};
        obj_t o = live[rndn(&R, n_live)];
        b.op = rndn(&R, 5);
        const char *what = "";
        switch (kind) {
        case 0: case 1: case 2: { // freed, address not handed out again
            if (!n_freed) continue;
            u64 span = n_freed < MAXFREED ? n_freed : MAXFREED;
            o = freed[(n_freed - 1 - rndn(&R, kind == 0 ? (span < 8 ? span : 8) : span)) % MAXFREED];
            b.p = o.p; what = "freed allocation"; break;
        }
        case 3: b.p = o.p + (o.usable ? 1 + rndn(&R, o.usable < 100 ? o.usable : 100) : 1); what = "interior pointer"; break;
        case 4: if (o.usable < 32) continue; b.p = o.p + 16 * (1 + rndn(&R, o.usable / 16 - 1)); what = "aligned interior pointer"; break;
        case 5: b.p = o.p + (o.cls == EXP_LARGE ? PGSZ * (1 + rndn(&R, o.usable / PGSZ + 1)) : o.region ? o.region : 16); what = "next slot or page"; break;
        case 6: b.p = o.p - (rndn(&R, 2) ? 16 : o.region ? o.region : 16); what = "pointer before an allocation"; break;
        case 7: b.p = rndn(&R, 2) ? local + 16 * rndn(&R, 8) : global + rndn(&R, 128); what = "stack or global"; break;
        case 8: b.p = (u8 *)mm + PGSZ * rndn(&R, 16); what = "memory mapped by the program"; break;
        case 9: { static const uintptr_t odd[] = {1, 16, 4096, 0x7ffffffff000, 0xffffffffffffff00, 0x8000000000000000, 0x00ff000000000010}; b.p = (u8 *)odd[rndn(&R, 7)]; what = "odd address"; break; }
        case 10: b.p = (u8 *)(lo + (rndn(&R, hi - lo) & -16UL)); what = "address between small allocations"; break;
        case 11: b.p = o.p + ((1UL << rndr(&R, 12, 35)) & -16UL) * (rndn(&R, 2) ? 1 : -1); what = "address far from an allocation"; break;
        case 12: { // any page of any mapping: metadata, guards, quarantined and purged memory, code
            static u64 last; if (!last || i - last > 50) { read_maps(); last = i + 1; }
            size_t m = rndn(&R, n_maps);
            b.p = (u8 *)(maps[m].a + (rndn(&R, maps[m].e - maps[m].a) & (rndn(&R, 2) ? -PGSZ : -16UL)));
            what = "address in some mapping"; break;
        }
        case 13: { uintptr_t x = (uintptr_t)o.p | (1UL << rndr(&R, 47, 63)); b.p = (u8 *)x; what = "live pointer with high bits set"; break; }
        }
        if (!b.p || is_live_start(b.p)) continue;
        b.size = b.op == 1 ? o.req : other_class_size(&o);
        if (b.op == 2 && rndn(&R, 4) == 0) b.size = 0;
        if (b.op == 2) {
            // avoid the realloc that stays in the same size class, which needs no access: every class is excluded by large sizes
            if (!(kind <= 2)) b.size = 200000 + rndn(&R, 100000);
            else if (expect_size(b.size, 16).region == o.region) continue;
        }
        int r = child(do_bad, &b);
        cov(kind * 256 + b.op * 50 + 0); cov(kind * 64 + clsno(&o));
        // realloc may read the old memory before it checks the pointer, and fault
        if (r == R_SEGV && b.op == 2 && (kind > 2 || probe_read(b.p) < 0)) continue;
        if (r != R_ABORT) viol("C05", "%s(%p) of %s (size %zu usable %zu, op size %zu): %s %s", opn[b.op], b.p, what, o.req, o.usable, b.size, rname[r], msg);
        if (i < 4) vsample("%s of %s: %s", opn[b.op], what, msg);
    }
    // controls: the same calls with valid pointers are accepted
    for (u64 i = 0; i < 200 && vf_nviol < 10; i++) {
        obj_t o = live[rndn(&R, n_live)];
        struct bad b = {o.p, rndn(&R, 5), o.req};
        if (b.op == 1 && o.align > 16) b.op = 0;
        if (b.op == 2) b.size = pick_size();
        int r = child(do_bad, &b);
        if (r != R_ACCEPTED) viol("C05", "valid %s of an allocation of %zu bytes: %s %s", opn[b.op], o.req, rname[r], msg);
        else n_ok_controls++;
    }
    // double frees with a history in the child
    for (u64 i = 0; i < rounds / 4 && vf_nviol < 10; i++) {
        if (rndn(&R, 20) == 0) evolve(100);
        size_t s = rndn(&R, 10) == 0 ? 140000 + rndn(&R, 100000) : pick_size();
        u8 *p = h_malloc(s);
        struct exp e = expect_size(s, 16);
        struct later l = {{p, rndn(&R, 5), s}, rndn(&R, 3) ? rndn(&R, 4) : rndn(&R, 300)};
        if (l.b.op == 2) { obj_t o = {.region = e.region}; l.b.size = other_class_size(&o); }
        struct later l0 = l;
        if (l.b.op == 2) l.b.op = 0, l.b.size = s;
        int r = child(do_later, &l);
        cov(3800 + (e.cls == EXP_LARGE ? 62 : e.cls));
        if (r == R_OTHER) { h_free(p); continue; }  // handed out again, which is legitimate
        if (r != R_ABORT) viol("C05", "double %s of an allocation of %zu bytes after %zu rounds of other calls: %s %s", opn[l.b.op], s, l.n, rname[r], msg);
        struct bad b = {NULL, rndn(&R, 2) ? 0 : 3, s};
        r = child(do_aba, &b);
        if (r != R_ABORT) viol("C05", "free A, free B, %s A of %zu bytes: %s %s", opn[b.op], s, rname[r], msg);
        struct bad rb = {p, 0, s};
        if (rndn(&R, 2)) rb.op = 1;
        r = child(do_race, &rb);
        if (r != R_ABORT) viol("C05", "racing %s of an allocation of %zu bytes: %s %s", opn[rb.op], s, rname[r], msg);
        h_free(p);
        (void)l0;
    }
}

// ---- c06 ----
static void mode_c06(u64 rounds) {
    u64 wrong = 0;
    for (u64 i = 0; i < rounds && vf_nviol < 10; i++) {
        evolve(1 + rndn(&R, 40));
        obj_t o = live[rndn(&R, n_live)];
        if (o.align > 16 && o.cls != EXP_LARGE) continue;   // the plain size has no meaning for these
        size_t s;
        unsigned how = rndn(&R, 9);
        switch (how) {
        case 0: s = o.usable + 1; break;
        case 1: s = o.req / 2; break;
        case 2: s = o.usable * 2 + 1; break;
        case 3: { unsigned c = o.cls == EXP_LARGE ? N_DOC : o.cls ? o.cls - 1 : 1; s = c ? class_size(c) - CANARY : 0; break; }
        case 4: s = 0; break;
        case 5: s = rndn(&R, 2) ? SIZE_MAX - rndn(&R, 5000) : SIZE_MAX / 2 + rndn(&R, 100); break;
        case 6: s = pick_size(); break;
        case 7: s = 131073 + rndn(&R, 1000000); break;
        default: s = o.req; break;
        }
        // what this size would be rounded to for memory of this kind
        size_t adj = s && s <= MAXSMALL ? s + CANARY : s;
        size_t would = o.cls == EXP_LARGE ? large_class(adj) : expect_size(s, 16).region;
        if (o.cls == EXP_LARGE && o.align == 0 && o.usable != o.region) continue;
        bool right = would == o.region && !(o.cls != EXP_LARGE && expect_size(s, 16).cls != o.cls);
        struct bad b = {o.p, 1, s};
        int r = child(do_bad, &b);
        cov(how * 128 + clsno(&o) + 64 * right);
        if (!right) wrong++;
        if (right ? r != R_ACCEPTED : r != R_ABORT)
            viol("C06", "free_sized(%zu) of an allocation of %zu bytes (slot or region %zu, %s): %s %s", s, o.req, o.region, right ? "right size" : "wrong size", rname[r], msg);
        if (i < 4) vsample("free_sized(%zu) of %zu bytes: %s %s", s, o.req, rname[r], msg);
    }
    vstat("wrong_sizes", wrong);
}

// ---- c07 ----
struct can { u8 *p; u8 mask[8]; unsigned op; size_t size; bool restore; };
static void do_can(void *a) {
    struct can *c = a;
    u8 *e = c->p + h_malloc_usable_size(c->p);
    for (int i = 0; i < 8; i++) e[i] ^= c->mask[i];
    if (c->restore) for (int i = 0; i < 8; i++) e[i] ^= c->mask[i];
    struct bad b = {c->p, c->op, c->size};
    do_bad(&b);
}
static void mode_c07(u64 rounds) {
    if (!CF_CANARY) { vstat("evals", 0); return; }
    u64 det = 0;
    for (u64 i = 0; i < rounds && vf_nviol < 10; i++) {
        evolve(1 + rndn(&R, 40));
        obj_t o = live[rndn(&R, n_live)];
        if (o.cls == EXP_LARGE || o.cls == 0) continue;
        if (o.p[o.usable] != 0) viol("C07", "first byte of the canary of an allocation of %zu bytes is %x", o.req, o.p[o.usable]);
        struct can c = {.p = o.p};
        unsigned how = rndn(&R, 10);
        bool detect = true;
        switch (how) {
        case 0: c.mask[0] = 1 + rndn(&R, 255); break;                     // off by one
        case 1: c.mask[rndn(&R, 8)] = 1 + rndn(&R, 255); break;           // any single byte
        case 2: c.mask[rndn(&R, 8)] = 1 << rndn(&R, 8); break;            // any single bit
        case 3: for (int k = 0; k < 8; k++) c.mask[k] = rnd(&R); c.mask[7] |= 1; break;
        case 4: for (int k = 0; k < 8; k++) c.mask[k] = o.p[o.usable + k] ^ 0x41; break;   // overflow with a constant
        case 6: for (int k = 0; k < 8; k++) c.mask[k] = o.p[o.usable + k]; break;          // zeros
        case 7: { unsigned n = rndr(&R, 1, 8); for (unsigned k = 0; k < n; k++) c.mask[k] = o.p[o.usable + k] ^ 0; if (n == 1) c.mask[0] = 1; break; }   // overflow with zeros, in part
        case 8: for (int k = 0; k < 8; k++) c.mask[k] = o.p[o.usable + k] ^ 0xff; break;
        case 9: {   // the canary of another object: only wrong if it is of another slab
            obj_t x = live[rndn(&R, n_live)];
            if (x.cls == EXP_LARGE || x.cls == 0) continue;
            for (int k = 0; k < 8; k++) c.mask[k] = o.p[o.usable + k] ^ x.p[x.usable + k];
            break;
        }
        case 5: c.restore = true; c.mask[rndn(&R, 8)] = 0x55; detect = false; break;
        }
        c.op = rndn(&R, 5);
        c.size = c.op == 1 ? o.req : other_class_size(&o);
        if (c.op == 1 && o.align > 16) c.op = 0;
        int r = child(do_can, &c);
        cov(how * 512 + c.op * 64 + clsno(&o));
        { bool nz = false; for (int k = 0; k < 8; k++) nz |= c.mask[k] != 0; if (!nz) detect = false; }
        if (detect ? r != R_ABORT : r != R_ACCEPTED) {
            viol("C07", "canary of an allocation of %zu bytes %s (masks %x %x %x %x), then %s: %s %s", o.req, detect ? "changed" : "restored",
                c.mask[0], c.mask[1], c.mask[3], c.mask[7], opn[c.op], rname[r], msg);
        }
        det += detect;
        if (i < 4) vsample("canary kind %u of %zu bytes then %s: %s %s", how, o.req, opn[c.op], rname[r], msg);
    }
    vstat("corruptions", det);
    // values: the same in a slab, different in every other slab, and new when the slab is used again after a purge
    u64 slabs = 0, renewed = 0;
    static struct { u8 *p; u64 v; bool purged; } rec[1024];
    u64 ones[64] = {0}, n = 0;
    static u8 *all[40000];
    for (unsigned cls = 1; cls <= N_DOC && vf_nviol < 10; cls++) {
        size_t req = class_size(cls) - CANARY, slab = class_slab(cls), want = class_slots(cls) * (class_slots(cls) > 1 ? 90 : 150);
        if (want > 26000) want = 26000;
        if (want * class_size(cls) > (64UL << 20)) want = (64UL << 20) / class_size(cls);
        size_t m = 0, cnt = 0;
        for (; cnt < want && m < 1024; cnt++) {
            u8 *p = all[cnt] = h_malloc(req);
            u64 v;
            if (!p) { if (CF_REGION < (64UL << 20)) return; vf_broken("allocation failed"); }
            memcpy(&v, p + req, 8);
            if (v & 0xff) viol("C07", "canary of size class %u doesn't start with a zero byte", class_size(cls));
            if (v == 0) viol("C07", "canary of size class %u is zero", class_size(cls));
            bool known = false;
            for (size_t a = m; a-- > 0 && !known;) if (rec[a].v == v) {
                known = true;
                if ((size_t)llabs((long long)(rec[a].p - p)) >= slab) viol("C07", "two slabs of size class %u have the same canary", class_size(cls));
            }
            if (known) continue;
            rec[m].p = p; rec[m++].v = v;
            slabs++; n++;
            for (int k = 0; k < 64; k++) ones[k] += v >> k & 1;
        }
        if (m * class_slots(cls) * 2 + class_slots(cls) < cnt) viol("C07", "only %zu canaries in %zu allocations of size class %u", m, cnt, class_size(cls));
        for (size_t a = 0; a < m; a++) for (size_t b = 0; b < a; b++)
            if ((uintptr_t)rec[a].p / PGSZ == (uintptr_t)rec[b].p / PGSZ && slab == PGSZ) viol("C07", "two canaries in one slab of size class %u", class_size(cls));
        for (size_t a = 0; a < cnt; a++) h_free(all[a]);
        // push them out of the quarantine, which can only hold so many
        size_t flush = quarantine_len(cls, CF_QQ) + 12 * quarantine_len(cls, CF_QR) + 8;
        for (size_t a = 0; a < flush; a++) h_free(h_malloc(req));
        h_malloc_trim(0);
        for (size_t a = 0; a < m; a++) rec[a].purged = probe_read(rec[a].p) < 0;
        for (size_t a = 0; a < want; a++) {
            u64 v;
            all[a] = h_malloc(req);
            if (!all[a]) vf_broken("allocation failed");
            memcpy(&v, all[a] + req, 8);
            for (size_t b = 0; b < m; b++) if (rec[b].p == all[a] && rec[b].purged) {
                renewed++;
                if (rec[b].v == v) viol("C07", "slab of size class %u has the same canary as before it was purged", class_size(cls));
            }
        }
        for (size_t a = 0; a < want; a++) h_free(all[a]);
    }
    vstat("canaries_of_slabs", slabs);
    vstat("canaries_renewed", renewed);
    // every bit but the first byte is random: 8 sigma
    for (int k = 8; k < 64; k++) {
        double d = (double)ones[k] - n / 2.0;
        if (n > 200 && d * d > 64.0 * n / 4) viol("C07", "bit %d of %lu canaries is set %lu times", k, n, ones[k]);
    }
}

// ---- c08 ----
struct waf { unsigned cls; size_t off; u8 val; size_t req; int len; bool zero; };
static void do_waf(void *a) {
    struct waf *w = a;
    size_t usable = class_size(w->cls) - CANARY;
    size_t nb = class_slots(w->cls) > 1 ? class_slots(w->cls) * 2 : 0;
    static u8 *keep[600], *extra[1 << 18];
    for (size_t i = 0; i < nb; i++) keep[i] = h_malloc(w->req);
    u8 *p = nb ? keep[rndn(&R, nb)] : h_malloc(w->req);   // its slab stays in use because of the neighbours
    h_free(p);
    // part of the way through the quarantine
    size_t q = quarantine_len(w->cls, CF_QQ) + 40 * quarantine_len(w->cls, CF_QR);
    size_t before = rndn(&R, 3) ? rndn(&R, 4) : rndn(&R, quarantine_len(w->cls, CF_QQ) + 1);
    for (size_t i = 0; i < before; i++) { u8 *x = h_malloc(w->req); if (x == p) syscall(SYS_exit_group, 79); h_free(x); }
    if (!probe_write(p)) syscall(SYS_exit_group, 79);
    for (int k = 0; k < w->len && w->off + k < usable; k++) ((volatile u8 *)p)[w->off + k] = w->val;
    vf_section_set("waf");
    for (size_t i = 0; i < q + 16; i++) {
        u8 *x = h_malloc(w->req);
        if (x == p) { if (!w->zero && x[w->off] == w->val) syscall(SYS_exit_group, 80); syscall(SYS_exit_group, 81); }
        h_free(x);
    }
    // now use every free slot
    size_t n = quarantine_len(w->cls, CF_QQ) + quarantine_len(w->cls, CF_QR) + class_slots(w->cls) * 64 + 2000;
    if (n > (1 << 18)) n = 1 << 18;
    if (class_slots(w->cls) == 1) n = n > 3000 ? 3000 : n;
    for (size_t i = 0; i < n; i++) {
        extra[i] = h_malloc(w->req);
        if (!extra[i]) break;
        if (extra[i] == p) { if (!w->zero && p[w->off] == w->val) syscall(SYS_exit_group, 80); syscall(SYS_exit_group, 81); }
    }
    syscall(SYS_exit_group, 82);
}
static int last_status;
static int child_status(void (*f)(void *), void *arg) {
    // like child, but tells the exit statuses apart
    int pp[2];
    if (pipe(pp)) vf_die("pipe");
    n_cases++;
    pid_t pid = fork();
    if (pid == 0) { dup2(pp[1], 2); vf_install_segv(); signal(SIGABRT, SIG_DFL); alarm(100); f(arg); syscall(SYS_exit_group, 77); }
    close(pp[1]);
    ssize_t n = read(pp[0], msg, sizeof(msg) - 1);
    msg[n > 0 ? n : 0] = 0;
    char junk[256];
    while (n > 0 && read(pp[0], junk, sizeof junk) > 0) {}
    close(pp[0]);
    waitpid(pid, &last_status, 0);
    if (WIFSIGNALED(last_status)) { n_abort++; return WTERMSIG(last_status) == SIGABRT ? strncmp(msg, "fatal allocator error: ", 23) ? 1001 : 1000 : 1002; }
    return WEXITSTATUS(last_status);
}
static void mode_c08(u64 rounds) {
    u64 detected = 0, discarded = 0, controls = 0;
    for (u64 i = 0; i < rounds && vf_nviol < 10; i++) {
        evolve(rndn(&R, 60));
        struct waf w;
        w.cls = 1 + (i + rndn(&R, 3)) % N_DOC;
        size_t usable = class_size(w.cls) - CANARY;
        w.req = usable - rndn(&R, w.cls <= 8 ? 8 : 16);
        unsigned how = rndn(&R, 4);
        w.off = how == 0 ? 0 : how == 1 ? usable - 1 : rndn(&R, usable);
        w.len = how == 3 ? 1 + rndn(&R, 32) : 1;
        w.val = 1 << rndn(&R, 8);
        if (rndn(&R, 2)) w.val = 1 + rndn(&R, 255);
        w.zero = rndn(&R, 12) == 0;
        if (w.zero) w.val = 0;
        int r = child_status(do_waf, &w);
        cov(how * 64 + w.cls);
        if (w.zero) {
            controls++;
            if (r >= 1000) viol("C08", "no write after free, but: %s", msg);
        } else if (r == 80) viol("C08", "byte %zu of a freed allocation of %zu bytes was set to %x and the memory handed out with it", w.off, w.req, w.val);
        else if (r == 1000) detected++;
        else if (r == 81 && class_slots(w.cls) > 1) viol("C08", "write after free at byte %zu of %zu bytes vanished although the slab was never empty", w.off, w.req);
        else if (r == 81 || r == 79 || r == 82) {
            discarded++;
            if (r == 82 && class_slots(w.cls) > 1) viol("C08", "write after free at byte %zu of %zu bytes was not detected although every free slot was used", w.off, w.req);
        } else viol("C08", "write after free at byte %zu of %zu bytes: status %d %s", w.off, w.req, r, msg);
        if (i < 4) vsample("write of %x at byte %zu of a freed allocation of %zu bytes: %d %s", w.val, w.off, w.req, r, msg);
    }
    vstat("detected", detected);
    vstat("discarded_by_purge", discarded);
    vstat("controls_without_write", controls);
}

int main(VF_UNUSED int argc, char **argv) {
    vf_without_pool(argv);
    u64 seed = env_u64("VF_SEED", 1), rounds = env_u64("VF_ROUNDS", 500);
    const char *mode = getenv("VF_MODE");
    R.s = seed * 77777;
    vf_install_segv();
    signal(SIGABRT, SIG_DFL);
    vf_section_set("evolve");
    evolve(1500);
    if (!mode || !strcmp(mode, "c05")) mode_c05(rounds);
    else if (!strcmp(mode, "c06")) mode_c06(rounds);
    else if (!strcmp(mode, "c07")) mode_c07(rounds);
    else if (!strcmp(mode, "c08")) mode_c08(rounds);
    else vf_die("unknown mode");
    vstat("evals", n_cases);
    for (unsigned i = 0; i < 64; i++) if (covbits[i]) vcov(mode ? mode : "c05", i, covbits[i]);
    vstat("fatal_errors", n_abort);
    vstat("segv", n_segv);
    vstat("valid_controls", n_ok_controls);
    vf_finish();
}
