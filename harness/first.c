// C30: any entry point as the very first call, by one thread or many at once, with failures at every
// step of initialization. Linked statically with the allocator's sources (h_malloc and so on), each case
// runs in a child of a process that never called it; against the shared library the calls are made from
// preinit_array, before any constructor (VF_MODE=pre).
#include "interpose.h"
#ifdef H_MALLOC_PREFIX
struct mallinfo2 h_mallinfo2(void);
#endif

enum { A_MALLOC, A_CALLOC, A_REALLOC, A_ALIGNED, A_MEMALIGN, A_POSIX, A_VALLOC, A_PVALLOC, N_ALLOC };
static const char *const alloc_name[] = {"malloc", "calloc", "realloc(NULL)", "aligned_alloc", "memalign", "posix_memalign", "valloc", "pvalloc"};
static u8 *alloc_by(unsigned k, size_t n) {
    void *p = NULL;
    switch (k) {
    case A_MALLOC: return h_malloc(n);
    case A_CALLOC: return h_calloc(n, 1);
    case A_REALLOC: return h_realloc(NULL, n);
    case A_ALIGNED: return h_aligned_alloc(64, n);
    case A_MEMALIGN: return h_memalign(16384, n ? n : 1);
    case A_POSIX: return h_posix_memalign(&p, 32, n) ? NULL : p;
    case A_VALLOC: return h_valloc(n);
    case A_PVALLOC: return h_pvalloc(n ? n : 1);
    }
    return NULL;
}
static const size_t sizes[] = {0, 1, 24, 40, 1000, 5000, 16376, 131064, 131072, 200000, 5 << 20};

static const char *err;    // first thing found wrong in a child
static char errbuf[200];
#define BAD(...) do { if (!err) { vf_fmt(errbuf, sizeof errbuf, __VA_ARGS__); err = errbuf; } } while (0)

static void works(void) {   // the allocator is fully usable
    u8 *p[120];
    for (unsigned i = 0; i < 120; i++) {
        size_t n = i < 98 ? (i % 49 ? (i % 49 <= N_DOC ? class_size(i % 49) - CANARY : 100) : 0) : 131073 + i * 5000;
        p[i] = h_malloc(n);
        if (!p[i]) { BAD("later allocation of %lu bytes failed", n); return; }
        if (n && (CF_ZERO || n > MAXSMALL) && (p[i][0] || p[i][n - 1])) BAD("later memory not zero");
        if (h_malloc_usable_size(p[i]) < n) BAD("later usable size too small");
        memset(p[i], i, n);
    }
    for (unsigned i = 0; i < 120; i += 2) { size_t u = h_malloc_usable_size(p[i]); if (u && (p[i][0] != (u8)i || p[i][u / 2] != (u8)(u / 2 < u ? i : 0) ) && u / 2 < 1) BAD("changed"); }
    for (unsigned i = 0; i < 120; i += 3) { p[i] = h_realloc(p[i], 777 + i); if (!p[i]) BAD("later realloc failed"); }
    for (unsigned i = 0; i < 120; i++) h_free(p[i]);
    h_malloc_trim(0);
}
static void check_fresh(u8 *p, size_t n, unsigned k) {
    if (!p) { BAD("%s(%lu) as the first call failed, errno %d", alloc_name[k], n, errno); return; }
    size_t u = h_malloc_usable_size(p);
    if (u < n) BAD("usable size %lu", u);
    for (size_t i = 0; i < n; i++) if (p[i] && (CF_ZERO || k == A_CALLOC || n > MAXSMALL)) { BAD("memory not zero"); break; }
    memset(p, 0x5a, n);
    h_free(p);
}

static unsigned n_query_cases = 17;
static const char *const query_name[] = {"free(NULL)", "cfree(NULL)", "free_sized(NULL)", "free_aligned_sized(NULL)", "malloc_usable_size(NULL)", "malloc_object_size(NULL)",
    "malloc_object_size", "malloc_object_size_fast", "malloc_trim", "malloc_stats", "mallopt", "mallinfo", "mallinfo2", "malloc_info", "malloc_get_state", "malloc_set_state", "malloc_info(1)"};
static void query(unsigned k) {
    char loc[100];
    errno = 77;
    switch (k) {
    case 0: h_free(NULL); if (errno != 77) BAD("errno %d", errno); break;
#ifndef H_MALLOC_PREFIX
    case 1: cfree(NULL); break;
#else
    case 1: h_cfree(NULL); break;
#endif
    case 2: h_free_sized(NULL, 16); break;
    case 3: h_free_aligned_sized(NULL, 64, 100); break;
    case 4: if (h_malloc_usable_size(NULL)) BAD("not 0"); break;
    case 5: if (h_malloc_object_size(NULL) || h_malloc_object_size_fast(NULL)) BAD("not 0"); break;
    case 6: if (h_malloc_object_size(loc) != SIZE_MAX || h_malloc_object_size(errbuf) != SIZE_MAX || h_malloc_object_size((void *)16) != SIZE_MAX || h_malloc_object_size((void *)-16L) != SIZE_MAX) BAD("not SIZE_MAX"); break;
    case 7: if (h_malloc_object_size_fast(loc) != SIZE_MAX || h_malloc_object_size_fast((void *)16) != SIZE_MAX || h_malloc_object_size_fast((void *)-16L) != SIZE_MAX) BAD("not SIZE_MAX"); break;
    case 8: { int r = h_malloc_trim(0); if (r) BAD("returned %d", r); break; }
    case 9: h_malloc_stats(); break;
    case 10: { int r = h_mallopt(M_TRIM_THRESHOLD, 1); if (r) BAD("returned %d", r); break; }
    case 11: { struct mallinfo m = h_mallinfo(), z; memset(&z, 0, sizeof z); if (memcmp(&m, &z, sizeof m)) BAD("not 0"); break; }
    case 12: { struct mallinfo2 m = h_mallinfo2(), z; memset(&z, 0, sizeof z); if (memcmp(&m, &z, sizeof m)) BAD("not 0"); break; }
    case 13: {
#ifdef H_MALLOC_PREFIX
        // the stream itself uses libc's malloc here
        char *buf = NULL; size_t n = 0;
        FILE *f = open_memstream(&buf, &n);
        if (h_malloc_info(0, f)) BAD("failed");
        fclose(f);
        if (strcmp(buf, "<malloc version=\"hardened_malloc-1\"></malloc>")) BAD("malloc_info before initialization: %s", buf);
#endif
        break;
    }
    case 14: if (h_malloc_get_state() || errno != ENOSYS) BAD("errno %d", errno); break;
    case 15: { int r = h_malloc_set_state(loc); if (r != -2) BAD("returned %d", r); break; }
    case 16: { int r = h_malloc_info(1, stdout); if (r != -1 || errno != EINVAL) BAD("returned %d errno %d", r, errno); break; }
    }
}
static u8 a_page[4096] __attribute__((aligned(4096)));
static const char *const misuse_name[] = {"free", "cfree", "free_sized", "free_aligned_sized", "realloc", "realloc(p, 0)", "malloc_usable_size", "realloc to a large size"};
enum { N_MISUSE = 8, N_PTR = 7 };
static void misuse(unsigned k, unsigned which) {
    u8 loc[64];
    void *ps[N_PTR] = {loc + 16, a_page, a_page + 128, (void *)16, (void *)-4096L, (void *)0x7f0000000000L, (void *)misuse};
    void *p = ps[which];
    switch (k) {
    case 0: h_free(p); break;
    case 1: h_cfree(p); break;
    case 2: h_free_sized(p, 16); break;
    case 3: h_free_aligned_sized(p, 64, 64); break;
    case 4: p = h_realloc(p, 100); break;
    case 5: p = h_realloc(p, 0); break;
    case 6: (void)h_malloc_usable_size(p); break;
    case 7: p = h_realloc(p, 1 << 20); break;
    }
}

// ---- children ----
static u64 n_cases, n_fatal, n_init_failures, n_races;
static char out[4096];
static int run_child(void (*f)(void *), void *a) {   // wait status; the child's stderr in out
    int fd[2];
    if (pipe(fd)) vf_die("pipe");
    pid_t pid = fork();
    if (!pid) {
        dup2(fd[1], 2);
        close(fd[0]); close(fd[1]);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
        alarm(40);
        f(a);
        if (err) { vf_write("", 0); syscall(SYS_write, 2, "BAD ", 4); syscall(SYS_write, 2, err, strlen(err)); syscall(SYS_exit_group, 5); }
        syscall(SYS_exit_group, 0);
    }
    close(fd[1]);
    size_t n = 0;
    for (;;) {
        ssize_t r = syscall(SYS_read, fd[0], out + n, sizeof out - 1 - n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        n += r;
    }
    out[n] = 0;
    close(fd[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    n_cases++;
    return st;
}
static void must_work(int st, const char *what) {
    if (WIFEXITED(st) && !WEXITSTATUS(st)) return;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) viol("C30", "%s as the first call hangs", what);
    else viol("C30", "%s as the first call: %s (status %x)", what, out, st);
}
static bool is_fatal(int st) { return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && !strncmp(out, "fatal allocator error: ", 23) && out[strlen(out) - 1] == '\n'; }
static void must_fail(int st, const char *what) {
    if (is_fatal(st)) { n_fatal++; return; }
    viol("C30", "%s of an uninitialized allocator ended with status %x and output '%s', not a fatal error", what, st, out);
}

struct c { unsigned k, which; };
static void c_alloc(void *a) { struct c *c = a; check_fresh(alloc_by(c->k, sizes[c->which]), sizes[c->which], c->k); works(); }
static void c_query(void *a) { query(*(unsigned *)a); works(); }
static void c_query2(void *a) { query(*(unsigned *)a); query((*(unsigned *)a * 7 + 3) % n_query_cases); u8 *p = h_malloc(131073); h_free(p); works(); }
static void c_misuse(void *a) { struct c *c = a; misuse(c->k, c->which); }
static void c_query_misuse(void *a) { struct c *c = a; query((c->k + c->which) % n_query_cases); misuse(c->k, c->which); }

// ---- failing initialization ----
static volatile int f_at, f_errno, f_seen, f_done, f_kind;
static volatile bool f_armed;
static int f_hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) {
    if (kind == C_WRITE || !f_armed) return 0;
    if (f_seen++ == f_at) { f_done = 1; f_kind = kind; return f_errno; }
    return 0;
}
static volatile int init_calls, all_calls;
static void count_hook(VF_UNUSED int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n, int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if (kind == C_MPROTECT && prot == PROT_READ) init_calls = f_seen;
}
static struct { int init, all; int maps, big; } *base;   // shared
static void c_baseline(void *a) {
    f_armed = true; f_at = -1; f_errno = 0; fault_hook = f_hook; event_hook = count_hook;
    check_fresh(alloc_by(*(unsigned *)a, 40), 40, *(unsigned *)a);
    base->init = init_calls; base->all = f_seen;
    base->maps = call_count[C_MMAP];
    for (unsigned i = 0; i < n_first_maps; i++) base->big += first_maps[i].n >= CF_REGION;
}
static struct { int kind, done; } *shf;
static void c_fail(void *a) {
    struct c *c = a;
    f_at = c->which; f_seen = 0; f_armed = true; fault_hook = f_hook;
    u8 *p = alloc_by(c->k, 40);
    shf->kind = f_kind; shf->done = f_done;
    f_armed = false;
    if (p) check_fresh(p, 40, c->k);
    works();
}
static ssize_t rand_fail(void *buf, size_t n, VF_UNUSED unsigned flags) { (void)buf; (void)n; errno = f_errno; return -1; }
static volatile int r_count;
static ssize_t rand_short(void *buf, size_t n, VF_UNUSED unsigned flags) {
    r_count++;
    if (r_count % 3 == 1) { errno = EINTR; return -1; }
    return syscall(SYS_getrandom, buf, n > 7 ? 7 : n, 0L);
}
static void c_rand(void *a) {
    unsigned k = *(unsigned *)a;
    static const int es[] = {ENOSYS, EAGAIN, EFAULT, EINVAL, EIO, EPERM};
    if (k < 6) { f_errno = es[k]; getrandom_hook = rand_fail; }
    else getrandom_hook = rand_short;
    u8 *p = h_malloc(40);
    getrandom_hook = NULL;
    check_fresh(p, 40, 0);
    works();
}

// ---- races ----
static atomic_int at_gate, gate;
static unsigned race_n;
static u64 race_seed;
static struct { u8 *p; size_t n; } made[64];
static void slow_hook(VF_UNUSED int kind, uintptr_t a, VF_UNUSED size_t n, VF_UNUSED int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if ((a >> 12 ^ race_seed) % 3 == 0) sched_yield();
    if ((a >> 12 ^ race_seed) % 5 == 0) { struct timespec t = {0, 30000}; nanosleep(&t, NULL); }
}
static void *racer(void *a) {
    unsigned i = (long)a;
    unsigned k = (i + race_seed) % 14;
    size_t n = sizes[(i * 3 + race_seed / 14) % 11];
    atomic_fetch_add(&at_gate, 1);
    while (!atomic_load(&gate));
    if (i && race_seed % 4 == 3) for (volatile int d = 0; d < (int)(i * 1000); d++);
    if (k < N_ALLOC) {
        made[i].n = k == A_MEMALIGN || k == A_PVALLOC ? (n ? n : 1) : n;
        made[i].p = alloc_by(k, n);
    } else if (k == 8) { if (h_malloc_object_size(&i) != SIZE_MAX) BAD("object size of the stack"); }
    else if (k == 9) { if (h_malloc_usable_size(NULL)) BAD("size of NULL"); }
    else if (k == 10) (void)h_malloc_trim(0);
    else if (k == 11) { struct mallinfo2 m = h_mallinfo2(); (void)m; }
    else if (k == 12) h_free(NULL);
    else { if (h_malloc_object_size_fast((void *)16) != SIZE_MAX) BAD("fast object size"); }
    if (k >= N_ALLOC) { made[i].n = 33; made[i].p = h_malloc(33); }
    if (!made[i].p) { BAD("racing first allocation failed"); return NULL; }
    if (made[i].n && (CF_ZERO || made[i].n > MAXSMALL) && (made[i].p[0] || made[i].p[made[i].n - 1])) BAD("memory not zero");
    memset(made[i].p, i + 1, made[i].n);
    for (unsigned r = 0; r < 20; r++) { u8 *q = h_malloc(r * 100); if (!q) BAD("failed"); else { memset(q, 0xee, r * 100); h_free(q); } }
    return NULL;
}
static void c_race(VF_UNUSED void *a) {
    event_hook = slow_hook;
    vma_model_on = race_seed % 2;
    pthread_t t[64];
    for (long i = 0; i < race_n; i++) if (pthread_create(&t[i], NULL, racer, (void *)i)) { BAD("no thread"); return; }
    while (atomic_load(&at_gate) < (int)race_n) sched_yield();
    atomic_store(&gate, 1);
    for (unsigned i = 0; i < race_n; i++) pthread_join(t[i], NULL);
    unsigned big = 0;
    for (unsigned i = 0; i < n_first_maps && i < 64; i++) big += first_maps[i].n >= CF_REGION;
    if (n_first_maps < 64 && (int)big != base->big) BAD("%u reservations made by racing first calls, %d by one", big, base->big);
    for (unsigned i = 0; i < race_n; i++) {
        for (size_t j = 0; j < made[i].n; j += j < 100 ? 1 : 61) if (made[i].p[j] != (u8)(i + 1)) { BAD("memory of racing first calls overlaps"); break; }
        if (h_malloc_usable_size(made[i].p) < made[i].n) BAD("size of memory of a racing first call");
    }
    for (unsigned i = 0; i < race_n; i++) h_free(made[(i + 1) % race_n].p);
    event_hook = NULL;
    works();
}

#ifndef H_MALLOC_PREFIX
// ---- shared library: before any constructor ----
static volatile int pre_case = -1, pre_arg;
static u8 *volatile pre_p;
static volatile u64 pre_maps;
static void preinit(VF_UNUSED int c, VF_UNUSED char **v, char **e) {
    for (; *e; e++) {
        if (!strncmp(*e, "VF_PRE=", 7)) pre_case = atoi(*e + 7);
        if (!strncmp(*e, "VF_PREARG=", 10)) pre_arg = atoi(*e + 10);
    }
    if (pre_case < 0) return;
    pre_maps = call_count[C_MMAP] + call_count[C_MPROTECT];
    if (pre_case == 0) pre_p = alloc_by(pre_arg / 11, sizes[pre_arg % 11]);
    else if (pre_case == 1) { if (pre_maps == 0) query(pre_arg); }
    else if (pre_case == 2) misuse(pre_arg / N_PTR, pre_arg % N_PTR);
}
__attribute__((section(".preinit_array"), used)) static void (*p_preinit)(int, char **, char **) = preinit;

struct pre { int kase, arg; };
static void c_exec(void *a) {
    struct pre *p = a;
    char e1[40], e2[40];
    vf_fmt(e1, sizeof e1, "VF_PRE=%d", p->kase); vf_fmt(e2, sizeof e2, "VF_PREARG=%d", p->arg);
    char *env[] = {e1, e2, NULL}, *av[] = {"first", NULL};
    execve("/proc/self/exe", av, env);
    syscall(SYS_exit_group, 9);
}
static void pre_child(void) {
    if (pre_maps) BAD("allocator used before preinit");   // not seen: the loader has its own
    if (pre_case == 0) check_fresh(pre_p, sizes[pre_arg % 11], pre_arg / 11);
    works();
    if (err) { syscall(SYS_write, 2, "BAD ", 4); syscall(SYS_write, 2, err, strlen(err)); syscall(SYS_exit_group, 5); }
    syscall(SYS_exit_group, 0);
}
#endif

int main(void) {
#ifndef H_MALLOC_PREFIX
    if (pre_case >= 0) pre_child();
#endif
    vf_install_segv();
    signal(SIGABRT, SIG_DFL);
    rng_t R = {env_u64("VF_SEED", 1) * 31337};
    u64 ops = env_u64("VF_OPS", 100);
    base = (void *)syscall(SYS_mmap, NULL, 4096L, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L);
    shf = (void *)(base + 16);
    char nm[100];
#ifdef H_MALLOC_PREFIX
    for (unsigned k = 0; k < N_ALLOC; k++)
        for (unsigned s = 0; s < 11; s++) {
            if (!CF_LARGE && k == A_MEMALIGN && !sizes[s]) continue;
            struct c c = {k, s};
            vf_fmt(nm, sizeof nm, "%s(%lu)", alloc_name[k], sizes[s]);
            must_work(run_child(c_alloc, &c), nm);
            vcov("alloc", k, 1UL << s);
        }
    for (unsigned k = 0; k < n_query_cases; k++) {
        must_work(run_child(c_query, &k), query_name[k]);
        must_work(run_child(c_query2, &k), query_name[k]);
        vcov("query", 0, 1UL << k);
    }
    for (unsigned k = 0; k < N_MISUSE; k++)
        for (unsigned w = 0; w < N_PTR; w++) {
            struct c c = {k, w};
            must_fail(run_child(c_misuse, &c), misuse_name[k]);
            must_fail(run_child(c_query_misuse, &c), misuse_name[k]);
            vcov("misuse", k, 1UL << w);
        }
    // every call of initialization fails once, in each way
    static const int es[] = {ENOMEM, EINVAL, EPERM, EAGAIN, EACCES};
    for (unsigned k = 0; k < N_ALLOC; k++) {
        memset(base, 0, sizeof *base);
        must_work(run_child(c_baseline, &k), alloc_name[k]);
        if (!base->all) { viol("C30", "the first call makes no kernel call"); break; }
        int upto = base->init ? base->init : base->all;
        for (int at = 0; at < upto; at++)
            for (unsigned e = 0; e < sizeof es / sizeof *es; e++) {
                f_errno = es[e];
                memset(shf, 0, sizeof *shf);
                struct c c = {k, at};
                int st = run_child(c_fail, &c);
                n_init_failures++;
                if (is_fatal(st)) { n_fatal++; continue; }
                // the release of temporary memory may fail for lack of memory without harm
                if (WIFEXITED(st) && !WEXITSTATUS(st) && shf->kind == C_MUNMAP && es[e] == ENOMEM) continue;
                viol("C30", "%s as the first call, failure %d of its %s (call %d of %d): status %x, output '%s', not a fatal error", alloc_name[k], es[e], call_name[shf->kind], at, upto, st, out);
            }
        vcov("initfail", k, (1UL << (upto > 63 ? 63 : upto)) - 1);
    }
    for (unsigned k = 0; k < 7; k++) {
        int st = run_child(c_rand, &k);
        if (k < 6) { n_init_failures++; if (!is_fatal(st)) viol("C30", "failing random source at initialization: status %x, output '%s'", st, out); }
        else must_work(st, "malloc with interrupted random source");
    }
    unsigned z = 0;
    memset(base, 0, sizeof *base);
    run_child(c_baseline, &z);
    for (u64 i = 0; i < ops; i++) {
        race_n = rndr(&R, 2, 24);
        race_seed = rnd(&R) >> 4;
        int st = run_child(c_race, NULL);
        n_races++;
        vf_fmt(nm, sizeof nm, "race of %u first calls", race_n);
        if (!(WIFEXITED(st) && !WEXITSTATUS(st))) viol(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "C30" : "C30", "%s: %s (status %x)", nm, out, st);
        vcov("race", race_n, 1UL << race_seed % 56);
    }
#else
    for (unsigned k = 0; k < N_ALLOC * 11; k++) {
        if (!CF_LARGE && k / 11 == A_MEMALIGN && !sizes[k % 11]) continue;
        struct pre p = {0, k};
        vf_fmt(nm, sizeof nm, "%s(%lu) before constructors", alloc_name[k / 11], sizes[k % 11]);
        must_work(run_child(c_exec, &p), nm);
        vcov("pre", k / 64, 1UL << k % 64);
    }
    for (unsigned k = 0; k < n_query_cases; k++) {
        if (k == 16) continue;
        struct pre p = {1, k};
        vf_fmt(nm, sizeof nm, "%s before constructors", query_name[k]);
        must_work(run_child(c_exec, &p), nm);
        vcov("prequery", 0, 1UL << k);
    }
    for (unsigned k = 0; k < N_MISUSE * N_PTR; k++) {
        struct pre p = {2, k};
        vf_fmt(nm, sizeof nm, "%s before constructors", misuse_name[k / N_PTR]);
        must_fail(run_child(c_exec, &p), nm);
        vcov("premisuse", 0, 1UL << k);
    }
    (void)R; (void)ops;
#endif
    vstat("evals", n_cases); vstat("fatal_errors", n_fatal); vstat("failed_initializations", n_init_failures); vstat("races", n_races);
    vsample("%lu first calls; initialization makes %d kernel calls; %lu races", n_cases, base->init, n_races);
    vf_finish();
}
