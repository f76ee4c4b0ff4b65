// C31, C28: builds that label memory. The labels are kept as a kernel that knows about them would, and
// compared with what the memory is used for; or labelling fails, as on a kernel that doesn't.
#include "interpose.h"
#include "ops.h"

typedef struct { uintptr_t a, e; char name[28]; } lab_t;
#define MAX_LAB 200000
static lab_t *lab, *base;
static size_t n_lab, n_base;
static spin_t lab_lock;
static u64 n_set, n_failed, n_checks, n_quar, ro_labels;
static bool emulate;
static rng_t fr;

static size_t lab_index(uintptr_t a) { size_t l = 0, r = n_lab; while (l < r) { size_t m = (l + r) / 2; if (lab[m].e > a) r = m; else l = m + 1; } return l; }
static void lab_remove(uintptr_t a, uintptr_t e) {
    size_t i = lab_index(a), j;
    if (i < n_lab && lab[i].a < a) {
        if (n_lab + 2 > MAX_LAB) vf_die("too many labels");
        memmove(&lab[i + 1], &lab[i], (n_lab - i) * sizeof(lab_t)); n_lab++;
        lab[i].e = a; lab[i + 1].a = a; i++;
    }
    for (j = i; j < n_lab && lab[j].e <= e; j++);
    if (j < n_lab && lab[j].a < e) lab[j].a = e;
    memmove(&lab[i], &lab[j], (n_lab - j) * sizeof(lab_t)); n_lab -= j - i;
}
static void lab_add(uintptr_t a, uintptr_t e, const char *name) {
    lab_remove(a, e);
    size_t i = lab_index(a);
    if (i > 0 && lab[i - 1].e == a && !strcmp(lab[i - 1].name, name)) { lab[i - 1].e = e; return; }
    if (i < n_lab && lab[i].a == e && !strcmp(lab[i].name, name)) { lab[i].a = a; return; }
    if (n_lab + 1 > MAX_LAB) vf_die("too many labels");
    memmove(&lab[i + 1], &lab[i], (n_lab - i) * sizeof(lab_t)); n_lab++;
    lab[i].a = a; lab[i].e = e;
    strcpy(lab[i].name, name);
}
// the label of all of the range, or what is wrong
static const char *lab_of(uintptr_t a, uintptr_t e) {
    static char t[100];
    a &= -PGSZ; e = (e + PGSZ - 1) & -PGSZ;
    const char *r = NULL;
    spin_lock(&lab_lock);
    for (size_t i = lab_index(a); a < e; i++) {
        if (i >= n_lab || lab[i].a > a) { r = "(none)"; break; }
        if (r && strcmp(r, lab[i].name)) { vf_fmt(t, sizeof t, "%s, then %s", r, lab[i].name); r = t; break; }
        r = lab[i].name; a = lab[i].e;
    }
    spin_unlock(&lab_lock);
    n_checks++;
    return r ? r : "(none)";
}
static int on_label(uintptr_t a, size_t n, const char *name) {
    n_set++;
    if (!emulate) {
        n_failed++;
        errno = rndn(&fr, 2) ? EINVAL : rndn(&fr, 2) ? ENOMEM : EBADF;
        return -1;
    }
    if (!name || strlen(name) >= sizeof lab->name || strncmp(name, "malloc ", 7)) { viol("C31", "label '%s'", name ? name : "(null)"); return 0; }
    if (a % PGSZ) { viol("C31", "label '%s' for the unaligned address %lx", name, a); errno = EINVAL; return -1; }
    if (a >= lib_a && a < lib_e) {
        ro_labels++;
        if (strcmp(name, "malloc read-only after init")) viol("C31", "the allocator's globals are labelled '%s'", name);
        return 0;
    }
    spin_lock(&lab_lock);
    lab_add(a, a + RND_UP(n), name);
    spin_unlock(&lab_lock);
    return 0;
}
static void on_event(int kind, uintptr_t a, size_t n, VF_UNUSED int prot, uintptr_t b, size_t m) {
    if (!emulate) return;
    spin_lock(&lab_lock);
    switch (kind) {
    case C_MMAP: case C_MMAP_FIXED: case C_MUNMAP: lab_remove(a, a + RND_UP(n)); break;
    case C_MREMAP: {
        size_t i = lab_index(a);
        char name[sizeof lab->name] = "";
        if (i < n_lab && lab[i].a <= a) strcpy(name, lab[i].name);
        lab_remove(a, a + RND_UP(n));
        lab_remove(b, b + RND_UP(m));
        if (name[0]) lab_add(b, b + RND_UP(m), name);
        break;
    }
    }
    spin_unlock(&lab_lock);
}
static void want(const char *what, uintptr_t a, uintptr_t e, const char *name) {
    const char *l = lab_of(a, e);
    if (strcmp(l, name)) viol("C31", "%s, [%lx, %lx), should be labelled '%s' and is '%s'", what, a, e, name, l);
}
static size_t obj_region(const op_obj *o) { return o->cls == EXP_LARGE ? h_malloc_usable_size(o->p) : 0; }
static void on_alloc(op_obj *o) {
    if (!emulate) return;
    char t[40];
    uintptr_t a = (uintptr_t)o->p;
    size_t u = h_malloc_usable_size(o->p);
    if (o->cls == EXP_LARGE) {
        want("a large allocation", a - PGSZ, a + u + PGSZ, "malloc large");
        vcov("label", 100, 1);
    } else {
        vf_fmt(t, sizeof t, "malloc %lu", class_size(o->cls));
        want("the slab of an allocation", a, a + (u ? u + CANARY : 16), t);
        vcov("label", o->cls, 1);
    }
}
static uintptr_t freed_a; static size_t freed_n; static bool freed_large;
#define MARK 4711
static void on_free(const op_obj *o) {
    freed_a = (uintptr_t)o->p;
    freed_large = o->cls == EXP_LARGE;
    freed_n = obj_region(o);
    errno = MARK;
}
static void quarantined(uintptr_t a, size_t n) {
    if (!emulate || n >= CF_RQSKIP || !(CF_RQR || CF_RQQ)) return;
    spin_lock(&own_lock);
    bool o = own_covers(a, a + n);
    spin_unlock(&own_lock);
    if (!o) return;
    want("a large allocation in quarantine", a, a + n, "malloc large quarantine");
    n_quar++;
    vcov("label", 101, 1);
}
static void on_realloc(const op_obj *old, op_obj *o) {
    // may have left the large allocator and come back
    if (old->cls == EXP_LARGE && o->p != old->p) quarantined((uintptr_t)old->p, PGSZ);
    if (old->cls == EXP_LARGE && o->p == old->p && emulate) {
        size_t n = h_malloc_usable_size(o->p);
        want("a resized large allocation", (uintptr_t)o->p - PGSZ, (uintptr_t)o->p + n + PGSZ, "malloc large");
        vcov("label", 102, 1);
    } else on_alloc(o);
}
static void on_call(unsigned op) {
    if (op >= O_FREE && op <= O_FREE_ALIGNED) {
        if (errno != MARK) viol("C28", "%s changes errno to %d where labels fail", op_name[op], errno);
        n_checks++;
        if (freed_large) quarantined(freed_a, freed_n);
    }
}
// the state and the slab region keep the labels they were given at first, and no memory is without one
static void global_check(void) {
    if (!emulate) return;
    for (size_t i = 0; i < n_base; i++) want("memory of the allocator's state or slabs", base[i].a, base[i].e, base[i].name);
    spin_lock(&own_lock);
    static own_t copy[MAX_OWN];
    size_t n = n_own;
    memcpy(copy, own, n * sizeof *own);
    spin_unlock(&own_lock);
    for (size_t i = 0; i < n; i++) {
        spin_lock(&lab_lock);
        uintptr_t a = copy[i].a;
        for (size_t k = lab_index(a); a < copy[i].e && k < n_lab && lab[k].a <= a; k++) a = lab[k].e;
        spin_unlock(&lab_lock);
        if (a < copy[i].e) viol("C31", "memory of the allocator at %lx has no label", a);
        n_checks++;
    }
}

static ssize_t cookie_write(VF_UNUSED void *c, VF_UNUSED const char *b, size_t n) { return n; }
static bool setup;
static void set_up(void) {
    if (setup) return;
    setup = true;
    vf_install_segv();
    ip_init();
    lab = vf_map(sizeof(lab_t) * MAX_LAB);
    base = vf_map(sizeof(lab_t) * 1000);
    emulate = true;           // the environment isn't there yet
    label_hook = on_label;
    event_hook = on_event;
}
// before the library's constructor
__attribute__((section(".preinit_array"), used)) static void (*const pre)(void) = set_up;

int main(void) {
    set_up();
    u64 ops = env_u64("VF_OPS", 40000), seed = env_u64("VF_SEED", 1);
    fr.s = seed;
    h_free(h_malloc(1));
    if (emulate) {
        if (!ro_labels) viol("C31", "the allocator's read-only globals have no label");
        unsigned slabs = 0, state = 0;
        for (size_t i = 0; i < n_lab && n_base < 1000; i++) {
            unsigned long s;
            if (!strcmp(lab[i].name, "malloc slab region gap")) base[n_base++] = lab[i];
            else if (!strcmp(lab[i].name, "malloc allocator_state")) { base[n_base++] = lab[i]; state++; }
            else if (sscanf(lab[i].name, "malloc %lu", &s) == 1) { base[n_base++] = lab[i]; slabs++; }
            else if (strcmp(lab[i].name, "malloc large") && strcmp(lab[i].name, "malloc large quarantine")) viol("C31", "label '%s' after initialization", lab[i].name);
        }
        if (slabs != CF_ARENAS * (N_DOC + 1)) viol("C31", "%u regions labelled as slabs, there are %lu", slabs, (u64)CF_ARENAS * (N_DOC + 1));
        if (state < 1) viol("C31", "the allocator's state has no label");
    }
    emulate = env_u64("VF_LABELS", 1);
    static ops_t c;
    ops_init(&c, seed * 7919, 1500, 512 << 20);
    cookie_io_functions_t io = {.write = cookie_write};
    c.info = fopencookie(NULL, "w", io);
    setvbuf(c.info, vf_map(4096), _IOFBF, 4096);
    c.alloc_m = on_alloc; c.realloc_m = on_realloc; c.free_m = on_free; c.call_m = on_call;
    for (u64 i = 0; i < ops; i++) {
        if (i % 2000 == 0) { c.large_pct = rndn(&c.r, 60); global_check(); if (rndn(&c.r, 2)) h_malloc_trim(0); global_check(); }
        if (i % 9000 == 8999) ops_drain(&c);
        ops_step(&c);
    }
    ops_drain(&c);
    // a table of large allocations that has to grow, and be emptied again
    void *many[600];
    for (unsigned i = 0; i < 600; i++) many[i] = h_malloc(MAXSMALL + 1);
    global_check();
    for (unsigned i = 0; i < 600; i++) { errno = MARK; h_free(many[i]); if (errno != MARK) viol("C28", "free changes errno to %d where labels fail", errno); }
    global_check();
    u64 tot = 0;
    for (unsigned k = 0; k < O_N; k++) tot += c.count[k];
    vstat("evals", n_checks); vstat("calls", tot); vstat("labels_set", n_set); vstat("labels_failed", n_failed); vstat("quarantined_seen", n_quar); vstat("label_checks", n_checks);
    ip_stats();
    vsample("%lu labels set in %lu calls, %lu of them refused; %lu checks", n_set, tot, n_failed, n_checks);
    vf_finish();
}
