// C13 on the complete library: the system's random source is replaced by a fixed stream, handed out in
// full, short or interrupted reads. What the allocator does then has to be a function of that stream:
// the same stream gives the same choices however it is cut, every bit of every seed changes them, seeds
// are taken again as output is used up, and using one size class leaves the others' choices alone.
#include "interpose.h"
#include <spawn.h>
#include <sys/personality.h>

#define MAXPARTS 400
struct rep { u64 n_parts; u64 part[MAXPARTS]; u64 taken, calls, init_taken; u64 done; };
static struct rep *rep;

static u64 g_flip, g_cut, g_salt;
static volatile u64 g_pos, g_calls;
static rng_t CR;

static u8 stream_byte(u64 pos) {
    rng_t r = {(pos / 8) * 0x9e3779b97f4a7c15UL * 977 + g_salt};
    return rnd(&r) >> (pos % 8 * 8);
}
static ssize_t fixed_random(void *buf, size_t n, VF_UNUSED unsigned flags) {
    u8 *b = buf;
    g_calls++;
    if (g_cut == 2 && rndn(&CR, 2)) { errno = EINTR; return -1; }
    if (g_cut && n > 1) n = rndr(&CR, 1, g_cut == 3 ? 1 : n);
    for (size_t i = 0; i < n; i++, g_pos++) {
        b[i] = stream_byte(g_pos);
        if (g_pos == g_flip / 8) b[i] ^= 1 << g_flip % 8;
    }
    return n;
}
static __attribute__((constructor(101))) void early(void) {}

// the hook has to be there before the allocator's first call: a preinit_array function of the executable
static void preinit(VF_UNUSED int c, char **v, char **e) {
    for (; *e; e++) {
        if (!strncmp(*e, "VF_FLIP=", 8)) g_flip = strtoull(*e + 8, NULL, 0);
        if (!strncmp(*e, "VF_CUT=", 7)) g_cut = strtoull(*e + 7, NULL, 0);
        if (!strncmp(*e, "VF_SALT=", 8)) g_salt = strtoull(*e + 8, NULL, 0);
    }
    CR.s = g_flip * 31 + g_cut;
    getrandom_hook = fixed_random;
    (void)v;
}
__attribute__((section(".preinit_array"), used)) static void (*p_preinit)(int, char **, char **) = preinit;

static u64 fold(u64 h, u64 v) { rng_t r = {h ^ (v * 0x2545f4914f6cdd1dUL)}; return rnd(&r); }

static uintptr_t slab_base(uintptr_t p) {   // the mapping it lies in
    for (unsigned i = 0; i < n_first_maps; i++) if (p >= first_maps[i].a && p < first_maps[i].a + first_maps[i].n) return first_maps[i].a;
    return 0;
}
static void *parts_add(u64 v) { if (rep->n_parts < MAXPARTS) rep->part[rep->n_parts++] = v; return NULL; }

// the choices made by every size class: position of its region, slots, canaries
static void all_classes(u64 skip) {
    for (unsigned c = 0; c <= N_DOC; c++) {
        if (c == skip) continue;
        size_t n = c ? class_size(c) - CANARY : 0;
        u64 h = 1, pos = 0;
        for (int i = 0; i < 8; i++) {
            u8 *p = malloc(n);
            uintptr_t b = slab_base((uintptr_t)p);
            if (!b) vf_broken("allocation outside the mappings seen");
            if (i == 0) pos = (uintptr_t)p - b;
            h = fold(h, (uintptr_t)p - b - pos);
            if (CF_CANARY && c) { u64 k; memcpy(&k, p + n, 8); h = fold(h, k); }
        }
        parts_add(fold(pos, h));
    }
}
static void child(void) {
    u64 mode = env_u64("VF_WHAT", 0), cls = env_u64("VF_CLASS", 1);
    rep->init_taken = g_pos;
    if (mode == 1) {          // one class first, the others after
        for (int i = 0; i < 20000; i++) free(malloc(cls ? class_size(cls) - CANARY : 0));
        all_classes(cls);
    } else if (mode == 2) {
        all_classes(cls);
    } else if (mode == 3) {   // enough for several seeds of one class
        u64 h = 1;
        uintptr_t b = 0;
        for (u64 i = 0; i < env_u64("VF_N", 400000); i++) {
            void *p = malloc(class_size(cls) - CANARY);
            if (!b) b = (uintptr_t)p;
            h = fold(h, (uintptr_t)p - b);
            free(p);
            if (i % 50000 == 49999) { parts_add(h); h = 1; }
        }
    } else if (mode == 4) {   // large allocations: the sizes of the mappings are public
        u64 h = 1;
        for (u64 i = 0; i < env_u64("VF_N", 60000); i++) {
            void *p = malloc(300000 + i % 1000 * 100);
            free(p);
            if (i % 5000 == 4999) parts_add(h);
        }
    } else all_classes(1000);
    rep->taken = g_pos; rep->calls = g_calls; rep->done = 1;
    syscall(SYS_exit_group, 0);
}

static u64 n_runs, n_evals;
static struct rep run(u64 what, u64 cls, u64 flip, u64 cut, u64 salt, u64 n) {
    char e[7][64];
    vf_fmt(e[0], 64, "VF_WHAT=%lu", what); vf_fmt(e[1], 64, "VF_CLASS=%lu", cls); vf_fmt(e[2], 64, "VF_FLIP=%lu", flip);
    vf_fmt(e[3], 64, "VF_CUT=%lu", cut); vf_fmt(e[4], 64, "VF_SALT=%lu", salt); vf_fmt(e[5], 64, "VF_N=%lu", n); vf_fmt(e[6], 64, "VF_CHILD=1");
    char *env[] = {e[0], e[1], e[2], e[3], e[4], e[5], e[6], NULL};
    char *av[] = {"rngbb", NULL};
    memset(rep, 0, sizeof *rep);
    pid_t pid = fork();
    if (!pid) { dup2(100, 3); execve("/proc/self/exe", av, env); syscall(SYS_exit_group, 9); }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || !rep->done)
        viol("C13", "process with random source cut %lu, flip %lu, workload %lu ended with status %x", cut, flip, what, st);
    n_runs++;
    return *rep;
}
static u64 differing(const struct rep *a, const struct rep *b) {
    u64 d = 0;
    for (u64 i = 0; i < a->n_parts; i++) d += a->part[i] != b->part[i];
    n_evals += a->n_parts;
    return d;
}

int main(void) {
    vf_install_segv();
    char path[200];
    if (getenv("VF_CHILD")) {
        rep = (void *)syscall(SYS_mmap, NULL, sizeof *rep, PROT_READ | PROT_WRITE, MAP_SHARED, 100, 0L);
        if (rep == MAP_FAILED) vf_die("no report");
        child();
    }
    getrandom_hook = NULL;
    vf_fmt(path, sizeof path, "%s/rep", getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp");
    int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof *rep) || dup2(fd, 100) < 0) vf_die("no scratch file");
    rep = (void *)syscall(SYS_mmap, NULL, sizeof *rep, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0L);
    rng_t R = {env_u64("VF_SEED", 1) * 131};
    u64 ops = env_u64("VF_OPS", 1), salt = rnd(&R), none = 1UL << 60;

    struct rep a = run(0, 0, none, 0, salt, 0), b = run(0, 0, none, 0, salt, 0);
    if (differing(&a, &b)) viol("C13", "with the same random source, %lu of %lu size classes behaved differently: randomness from elsewhere", differing(&a, &b), a.n_parts);
    if (a.init_taken < 40) viol("C13", "only %lu bytes were taken from the random source for initialization", a.init_taken);
    for (u64 cut = 1; cut <= 3; cut++)
        for (u64 k = 0; k < 3; k++) {
            b = run(0, 0, none, cut, salt, 0);
            if (differing(&a, &b)) viol("C13", "%lu of %lu size classes chose differently as the random source was read in pieces (%lu): part of a seed unset or lost", differing(&a, &b), a.n_parts, cut);
            if (b.init_taken != a.init_taken) viol("C13", "%lu bytes taken in pieces, %lu at once", b.init_taken, a.init_taken);
        }
    // every bit of the seed counts, for every size class
    u64 bits = a.init_taken * 8, flips = 0;
    for (u64 i = 0; i < bits; i += bits > 4000 ? bits / 4000 : 1) {
        if (ops < 2 && i % 8 != rndn(&R, 8) && i % 8 != 7) continue;   // at least one bit of each byte
        b = run(0, 0, i, 0, salt, 0);
        u64 d = differing(&a, &b);
        flips++;
        vcov("seedbit", i / 64, 1UL << i % 64);
        // a size class of a single slot per slab still has the position of its region
        if (d + 1 < a.n_parts) viol("C13", "bit %lu of the seed doesn't affect %lu of %lu size classes", i, a.n_parts - d, a.n_parts);
    }
    // using one class doesn't move the others
    for (u64 k = 0; k < 4 * ops; k++) {
        u64 c = rndn(&R, N_DOC);
        a = run(1, c, none, 0, salt, 0); b = run(2, c, none, 0, salt, 0);
        if (differing(&a, &b)) viol("C13", "%lu size classes changed their choices as class %lu was used: generators are shared", differing(&a, &b), c);
    }
    // seeds are taken again, as a whole, and count
    u64 reseeds = 0;
    u64 n = 400000;
    for (u64 k = 0; k < 2 * ops; k++) {
        u64 c = rndr(&R, 1, 12);
        a = run(3, c, none, 0, salt, n); b = run(3, c, none, 2, salt, n);
        if (differing(&a, &b)) viol("C13", "interrupted reads for a later seed changed %lu of %lu stretches", differing(&a, &b), a.n_parts);
        u64 more = a.taken - a.init_taken;
        // at least 2 bytes for the slot of each allocation and for the quarantine
        u64 uses = CF_RANDSLOT + (CF_QR > 0), want = n * 2 * uses / (256 << 10);
        if (more < want * 40) viol("C13", "class %lu: %lu allocations and frees, but only %lu bytes taken for new seeds (%lu seeds expected)", c, n, more, want);
        for (u64 i = 0; i < 24 && more; i++) {
            u64 p = a.init_taken * 8 + rndn(&R, (more < 40 * 2 ? more : 40 * 2) * 8);
            b = run(3, c, p, 0, salt, n);
            reseeds++;
            if (!differing(&a, &b)) viol("C13", "bit %lu of a later seed has no effect", p - a.init_taken * 8);
        }
    }
    a = run(4, 0, none, 0, salt, 120000);
    if (a.taken - a.init_taken < 40) viol("C13", "120000 large allocations, no new seed");
    vstat("processes", n_runs); vstat("seed_bits_flipped", flips); vstat("later_seed_bits_flipped", reseeds);
    vstat("evals", n_evals);
    vsample("%lu bytes of seed at startup, %lu after 120000 large allocations", a.init_taken, a.taken);
    vf_finish();
}
