// C14: fork while other threads are busy in the allocator. Children (and their children) check every
// stable object, use every size class, detect invalid frees and must not repeat the randomness of the
// parent or of each other. A child that hangs is caught by an alarm.
// VF_MODE=busy|storm|hold|rand, VF_OPS=forks, VF_THREADS
#include "interpose.h"

static u64 n_ops, n_objs, n_forks, n_seqs, n_detected, n_busy_forks;
struct shared { atomic_ulong child_ops, child_objs, detected, nested, nviol_children, in_call_at_fork; };
static struct shared *sh;

#define OBJ 120
#define MAXT 32
struct obj { u8 *volatile p; size_t n; u64 pat; atomic_int stable; };
static struct worker { struct obj o[OBJ]; rng_t r; pthread_t t; atomic_int in_call; atomic_ulong calls; } *W;
static unsigned T;
static atomic_int forking, stop;
static bool delays;

static inline u8 pat(u64 s, size_t i) { return (u8)(s + i * 131 + (i >> 8)) | 1; }
static void fill(u8 *p, size_t n, u64 s) {
    if (n <= 600) { for (size_t i = 0; i < n; i++) p[i] = pat(s, i); return; }
    for (size_t i = 0; i < 64; i++) { p[i] = pat(s, i); p[n - 1 - i] = pat(s, n - 1 - i); }
    for (size_t i = 64; i < n - 64; i += 509) p[i] = pat(s, i);
}
static bool good(const u8 *p, size_t n, u64 s) {
    if (n <= 600) { for (size_t i = 0; i < n; i++) if (p[i] != pat(s, i)) return false; return true; }
    for (size_t i = 0; i < 64; i++) if (p[i] != pat(s, i) || p[n - 1 - i] != pat(s, n - 1 - i)) return false;
    for (size_t i = 64; i < n - 64; i += 509) if (p[i] != pat(s, i)) return false;
    return true;
}
static size_t pick(rng_t *r) {
    unsigned k = rndn(r, 20);
    if (k < 12) { unsigned c = rndn(r, N_DOC + 1); return c ? class_size(c) - CANARY - rndn(r, 8) : 0; }
    if (k < 18) return rnd(r) >> rndr(r, 47, 60);
    return rndr(r, MAXSMALL + 1, 1 << 20);
}

static void delay_hook(VF_UNUSED int kind, uintptr_t a, VF_UNUSED size_t n, VF_UNUSED int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if (!delays) return;
    if ((a >> 12) % 7 == 0) sched_yield();
    if ((a >> 12) % 13 == 0) { struct timespec t = {0, 20000}; nanosleep(&t, NULL); }
}

static void *worker(void *a) {
    struct worker *w = a;
    while (!stop) {
        struct obj *o = &w->o[rndn(&w->r, OBJ)];
        unsigned k = rndn(&w->r, 100);
        atomic_fetch_add_explicit(&w->calls, 1, memory_order_relaxed);
        if (k < 30) {   // no stable object involved
            w->in_call = 1;
            void *p = malloc(pick(&w->r));
            if (k < 5) { void *q = realloc(p, pick(&w->r)); if (q) p = q; }
            free(p);
            w->in_call = 0;
            continue;
        }
        if (k < 31) { w->in_call = 1; malloc_trim(0); w->in_call = 0; continue; }
        // objects are changed only between forks: see good()
        if (atomic_load(&o->stable)) {
            atomic_store(&o->stable, 0);
            if (atomic_load(&forking)) { atomic_store(&o->stable, 1); continue; }
        }
        w->in_call = 1;
        if (o->p && !good(o->p, o->n, o->pat)) { viol("C14", "an object changed in the parent"); viol("C01", "an object changed"); }
        if (o->p && k < 50) {
            size_t n = pick(&w->r);
            u8 *q = realloc(o->p, n);
            if (q) { o->p = q; if (!good(q, 0, 0)) {} o->n = n; }
        } else if (o->p) { free(o->p); o->p = NULL; }
        else { o->n = pick(&w->r); o->p = malloc(o->n); }
        if (o->p) {
            o->pat = rnd(&w->r);
            fill(o->p, o->n, o->pat);
        }
        w->in_call = 0;
        // published only when no fork began in the meantime
        if (o->p) for (;;) {
            if (!atomic_load(&forking)) { atomic_store(&o->stable, 1); break; }
            if (stop) break;
            // waiting, but still calling the allocator
            w->in_call = 1; free(malloc(pick(&w->r))); w->in_call = 0;
            fill(o->p, o->n, o->pat);   // a copy may have begun during the first time
        }
    }
    return NULL;
}

static void on_alarm(VF_UNUSED int s) {
    viol("C14", "a child hangs in the allocator");
    atomic_fetch_add(&sh->nviol_children, 1);
    syscall(SYS_exit_group, 7);
}
// true when the process aborts as it has to
static bool detects(void *p, unsigned how) {
    pid_t g = fork();
    if (!g) {
        alarm(30);
        signal(SIGABRT, SIG_DFL);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        if (how == 0) { free(p); free(p); }
        else if (how == 1) free((u8 *)p + 8);
        else if (how == 2) { free(p); (void)malloc_usable_size(p); }
        else { void *q = malloc(24); free(q); for (int i = 0; i < 40; i++) free(malloc(24)); free(q); }
        syscall(SYS_exit_group, 0);
    }
    int st;
    while (waitpid(g, &st, 0) < 0 && errno == EINTR);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}

static void child_work(u64 seed, int depth) {
    signal(SIGALRM, on_alarm);
    alarm(60);
    delays = false;
    rng_t r = {seed};
    u64 ops = 0, objs = 0;
    vf_section_set("child, depth %d", depth);
    // objects of before the fork
    unsigned n = 0;
    struct obj *some[MAXT * OBJ];
    for (unsigned t = 0; t < T; t++)
        for (unsigned i = 0; i < OBJ; i++) {
            struct obj *o = &W[t].o[i];
            if (!atomic_load(&o->stable)) continue;
            objs++;
            if (!good(o->p, o->n, o->pat)) viol("C14", "an allocation of %lu bytes made before the fork changed in the child", o->n);
            size_t u = malloc_usable_size(o->p);
            if (u < o->n) viol("C14", "usable size of an allocation of %lu bytes made before the fork is %lu in the child", o->n, u);
            some[n++] = o;
        }
    // every size class, fresh memory, and half of the old objects released or resized
    u8 *q[300] = {0}; size_t qn[300]; u64 qs[300];
    for (unsigned i = 0; i < 1500; i++) {
        unsigned k = rndn(&r, 300);
        if (q[k]) {
            if (!good(q[k], qn[k], qs[k])) viol("C14", "an object of the child changed");
            free(q[k]);
        }
        qn[k] = pick(&r); qs[k] = rnd(&r);
        if (!(q[k] = malloc(qn[k]))) viol("C14", "allocation of %lu bytes failed in the child", qn[k]);
        else {
            if (CF_ZERO && qn[k] && (q[k][0] || q[k][qn[k] - 1])) viol("C14", "fresh memory is not zero in the child");
            fill(q[k], qn[k], qs[k]);
        }
        ops += 2;
        if (n && i % 5 == 0) {
            unsigned m = rndn(&r, n);
            struct obj *o = some[m];
            if (!good(o->p, o->n, o->pat)) viol("C14", "an allocation of %lu bytes made before the fork changed in the child by other operations", o->n);
            if (i % 2) {
                size_t nn = pick(&r);
                u8 *z = realloc(o->p, nn);
                if (!z) { viol("C14", "realloc failed in the child"); continue; }
                size_t keep = nn < o->n ? nn : o->n;
                bool same = true;
                for (size_t j = 0; j < keep && j < 60; j++) same &= z[j] == pat(o->pat, j);
                if (!same) viol("C14", "realloc in the child lost the contents");
                free(z);
            } else free(o->p);
            some[m] = some[--n];
        }
        if (i % 500 == 99) malloc_trim(0);
    }
    for (unsigned i = 0; i < n; i++) if (!good(some[i]->p, some[i]->n, some[i]->pat)) viol("C14", "an allocation of %lu bytes made before the fork changed in the child by other operations", some[i]->n);
    // threads of the child
    if (seed % 3 == 0) {
        n = 0;
        for (unsigned t = 0; t < T; t++) memset(&W[t].o, 0, sizeof W[t].o);
        atomic_store(&forking, 0);
        stop = 0;
        pthread_t th[4];
        for (unsigned t = 0; t < 4 && t < T; t++) { W[t].r.s = rnd(&r); if (pthread_create(&th[t], NULL, worker, &W[t])) viol("C14", "no thread in the child"); }
        struct timespec ts = {0, 3000000};
        nanosleep(&ts, NULL);
        if (depth < 2) {   // nested
            atomic_store(&forking, 1);
            pid_t g = fork();
            if (!g) child_work(seed * 31 + 1, depth + 1);
            atomic_store(&forking, 0);
            int st;
            while (waitpid(g, &st, 0) < 0 && errno == EINTR);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { viol("C14", "nested child ended with status %x", st); }
            atomic_fetch_add(&sh->nested, 1);
        }
        stop = 1;
        for (unsigned t = 0; t < 4 && t < T; t++) pthread_join(th[t], NULL);
    }
    // misuse is still detected
    if (depth == 0 && seed % 4 == 0) {
        unsigned how = rndn(&r, 4);
        unsigned k = rndn(&r, 300);
        while (!q[k] || !qn[k]) k = (k + 1) % 300;
        if (!detects(n && seed % 8 == 0 ? some[rndn(&r, n)]->p : q[k], how)) viol("C14", "invalid use (%d) of an allocation not detected after fork", how);
        atomic_fetch_add(&sh->detected, 1);
    }
    atomic_fetch_add(&sh->child_ops, ops);
    atomic_fetch_add(&sh->child_objs, objs);
    if (vf_nviol) atomic_fetch_add(&sh->nviol_children, 1);
    syscall(SYS_exit_group, vf_nviol ? 8 : 0);
}

// handlers of the program that allocate, and run before and after those of the allocator
static __thread void *ah[4];
static void prep(void) { for (int i = 0; i < 4; i++) ah[i] = malloc(100 << (i * 4)); }
static void post(void) { for (int i = 0; i < 4; i++) { free(ah[i]); free(malloc(1000)); } }

static pthread_mutex_t fm = PTHREAD_MUTEX_INITIALIZER;
static u64 forks_wanted;
static bool storm;   // forks by several threads at once; then no object is known to be stable
static atomic_ulong fork_no;
static void *forker(void *a) {
    rng_t r = {(u64)a};
    for (;;) {
        u64 k = atomic_fetch_add(&fork_no, 1);
        if (k >= forks_wanted) break;
        pid_t pid;
        u64 seed = rnd(&r) >> 8;
        // one fork at a time, so that "forking" is known; the others allocate in the meantime
        if (!storm) pthread_mutex_lock(&fm);
        atomic_store(&forking, 1);
        unsigned in = 0;
        for (unsigned t = 0; t < T; t++) in += W[t].in_call;
        pid = fork();
        if (!pid) child_work(seed, 0);
        if (!storm) { atomic_store(&forking, 0); pthread_mutex_unlock(&fm); }
        if (pid < 0) vf_die("fork fails");
        n_forks++;
        if (in) n_busy_forks++;
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 8)) viol("C14", "child ended with status %x", st);
        struct timespec ts = {0, rndn(&r, 300000)};
        nanosleep(&ts, NULL);
    }
    return NULL;
}

static void mode_busy(u64 ops) {
    delays = env_u64("VF_DELAY", 1);
    event_hook = delay_hook;
    pthread_atfork(prep, post, post);
    forks_wanted = ops;
    for (unsigned t = 0; t < T; t++) if (pthread_create(&W[t].t, NULL, worker, &W[t])) vf_die("no thread");
    struct timespec ts = {0, 5000000};
    nanosleep(&ts, NULL);
    enum { NF = 5 };
    int nf = storm ? NF : 3;
    pthread_t f[NF];
    for (long i = 0; i < nf; i++) pthread_create(&f[i], NULL, forker, (void *)(W[0].r.s * 7 + i));
    for (int i = 0; i < nf; i++) pthread_join(f[i], NULL);
    stop = 1;
    for (unsigned t = 0; t < T; t++) { pthread_join(W[t].t, NULL); n_ops += W[t].calls; }
    // the parent is intact
    for (unsigned t = 0; t < T; t++)
        for (unsigned i = 0; i < OBJ; i++) {
            struct obj *o = &W[t].o[i];
            if (!o->p) continue;
            n_objs++;
            if (atomic_load(&o->stable) && !good(o->p, o->n, o->pat)) viol("C14", "an object changed in the parent");
            free(o->p);
        }
    if (!detects(malloc(100), 0)) viol("C14", "double free not detected in the parent after fork");
}

// ---- randomness ----
#define NSEQ 64
struct seqs {
    u64 slot[17][50][NSEQ]; u64 canary[17][50][NSEQ]; u64 guard[NSEQ]; unsigned n_guard, arenas; u64 getrandom;
};
static struct seqs *S;
static volatile unsigned rec_guard;
static struct seqs *volatile rec_to;
static void guard_hook(int kind, VF_UNUSED uintptr_t a, size_t n, VF_UNUSED int prot, VF_UNUSED uintptr_t b, VF_UNUSED size_t m) {
    if (kind == C_MMAP && rec_guard && rec_to->n_guard < NSEQ) rec_to->guard[rec_to->n_guard++] = n;
}
static void record(struct seqs *s, unsigned thread) {
    for (unsigned c = 0; c <= N_DOC; c++) {
        static u8 *p[256 * 3];
        size_t u = c ? class_size(c) - CANARY : 0;
        // enough to leave the partially used slabs of before the fork behind
        unsigned n = class_slots(c) * (class_slots(c) <= 16 ? 14 : 3);
        if (n < NSEQ) n = NSEQ;
        for (unsigned i = 0; i < n; i++) {
            p[i] = malloc(u);
            if (i < NSEQ) s->slot[thread][c][i] = (u64)p[i];
            if (i + NSEQ >= n && c && CF_CANARY) memcpy(&s->canary[thread][c][i + NSEQ - n], p[i] + u, 8);
        }
        for (unsigned i = 0; i < n; i++) free(p[i]);
    }
}
static struct seqs *rec_s;
static atomic_int rec_turn;
static void *rec_thread(void *a) {
    while (rec_turn != (long)a) sched_yield();
    record(rec_s, (long)a);
    rec_turn++;
    return NULL;
}
static void record_all(struct seqs *s) {
    alarm(60);
    u64 before = call_count[C_GETRANDOM];
    rec_s = s; rec_to = s;
    rec_turn = 1;
    record(s, 0);
    rec_guard = 1;
    void *l[NSEQ];
    for (unsigned i = 0; i < NSEQ; i++) l[i] = malloc(8 << 20);
    rec_guard = 0;
    for (unsigned i = 0; i < NSEQ; i++) free(l[i]);
    // the other arenas
    unsigned extra = CF_ARENAS > 1 ? (CF_ARENAS < 5 ? CF_ARENAS - 1 : 3) : 0;
    pthread_t t[4];
    for (long i = 0; i < extra; i++) pthread_create(&t[i], NULL, rec_thread, (void *)(i + 1));
    for (unsigned i = 0; i < extra; i++) pthread_join(t[i], NULL);
    s->arenas = 1 + extra;
    (void)before;
    s->getrandom = call_count[C_GETRANDOM];
}
static void compare(unsigned i, unsigned j, const char *what) {
    struct seqs *a = &S[i], *b = &S[j];
    for (unsigned t = 0; t < a->arenas; t++)
        for (unsigned c = 0; c <= N_DOC; c++) {
            n_seqs++;
            if (CF_RANDSLOT && class_slots(c) >= 4 && !memcmp(a->slot[t][c], b->slot[t][c], sizeof a->slot[t][c]))
                viol("C14", "%s choose the same slots in size class %u of thread %u", what, c, t);
            if (c && CF_CANARY) {
                if (a->canary[t][c][NSEQ - 1] == b->canary[t][c][NSEQ - 1]) viol("C14", "%s use the same canaries in new slabs of size class %u of thread %u", what, c, t);
            }
        }
    if (a->n_guard != NSEQ) vf_die("guards not seen: %u", a->n_guard);
    if (!memcmp(a->guard, b->guard, sizeof a->guard)) viol("C14", "%s use the same guard sizes", what);
}
static void mode_rand(u64 ops) {
    event_hook = guard_hook;
    rng_t r = {env_u64("VF_SEED", 1) * 17};
    for (u64 o = 0; o < ops; o++) {
        enum { N = 6 };
        memset(S, 0, sizeof(struct seqs) * (N + 3));
        for (unsigned i = 0; i < 100; i++) { void *p = malloc(pick(&r)); if (i % 3) free(p); }
        u64 before = call_count[C_GETRANDOM];
        // children of the same state, a grandchild, and the parent itself last
        for (unsigned i = 0; i < N; i++) {
            pid_t pid = fork();
            if (!pid) {
                signal(SIGALRM, on_alarm);
                alarm(60);
                if (i == 0) {
                    pid_t g = fork();
                    if (!g) { record_all(&S[N]); syscall(SYS_exit_group, 0); }
                    while (waitpid(g, NULL, 0) < 0 && errno == EINTR);
                }
                record_all(&S[i]);
                syscall(SYS_exit_group, 0);
            }
            int st;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
            if (st) viol("C14", "child ended with status %x", st);
            n_forks++;
            if (S[i].getrandom <= before) viol("C14", "the child takes nothing from the system's random source");
        }
        record_all(&S[N + 1]);
        for (unsigned i = 0; i < N; i++) {
            for (unsigned j = i + 1; j < N; j++) compare(i, j, "two children");
            compare(i, N + 1, "parent and child");
        }
        compare(0, N, "child and grandchild");
        compare(N, N + 1, "parent and grandchild");
    }
}

// ---- forks while a thread is known to be inside a critical section ----
// A thread working in one size class is stopped by a signal at any instruction. When another thread's
// call in the same class then sleeps until it goes on, it holds a lock: the state it protects may be
// half changed, and fork has to wait. The child sees whether the thread was still stopped.
static atomic_int frozen, gen;   // gen: number of the attempt for which the victim has to stop, 0: go on
static volatile size_t hold_size;
static volatile unsigned victim;
static __thread unsigned my_number = ~0u;
static u64 n_held, n_tries, n_class_held, n_none;
static struct probe { atomic_int round, done, in; volatile int tid; pthread_t t; } *PR;
static void on_freeze(VF_UNUSED int s) {
    int e = errno, g = gen;
    if (!g || my_number != victim) return;
    u64 t0 = now_ns();
    frozen = g;
    while (gen == g && now_ns() - t0 < 3000000000) ;
    frozen = 0;
    errno = e;
}
static void *victim_thread(void *a) {
    unsigned me = (long)a;
    free(malloc(1));
    my_number = me;
    void *q[16] = {0};
    while (!stop) {
        if (victim != me) { for (unsigned i = 0; i < 16; i++) { free(q[i]); q[i] = NULL; } W[me].in_call = 0; struct timespec t = {0, 20000}; nanosleep(&t, NULL); continue; }
        W[me].in_call = 1;
        unsigned i = rndn(&W[me].r, 16);
        if (q[i]) { free(q[i]); q[i] = NULL; } else q[i] = malloc(hold_size);
        W[me].calls++;
    }
    for (unsigned i = 0; i < 16; i++) free(q[i]);
    return NULL;
}
static void *probe_thread(void *a) {   // one in every arena
    struct probe *p = a;
    p->tid = syscall(SYS_gettid);
    free(malloc(1));
    while (!stop) {
        int r = p->round;
        if (r == p->done) { struct timespec t = {0, 30000}; nanosleep(&t, NULL); continue; }
        p->in = r;
        free(malloc(hold_size));
        p->in = -1;
        p->done = r;
    }
    return NULL;
}
static bool asleep(int tid) {   // in a futex, as far as can be told
    char f[64], b[300];
    snprintf(f, sizeof f, "/proc/self/task/%d/stat", tid);
    int fd = open(f, O_RDONLY);
    if (fd < 0) return false;
    int n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0) return false;
    b[n] = 0;
    char *e = strrchr(b, ')');
    return e && e[2] == 'S';
}
// the threads whose calls have not returned sleep, all of them, and nothing changes
static unsigned blocked(unsigned n, int round) {
    unsigned set = 0;
    u64 t0 = now_ns();
    for (unsigned same = 0; same < 3;) {
        unsigned now = 0;
        bool all = true;
        for (unsigned i = 0; i < n; i++) if (PR[i].done != round) { now |= 1u << i; all &= PR[i].in == round && asleep(PR[i].tid); }
        for (unsigned i = 0; i < n; i++) if (now >> i & 1 && PR[i].done == round) all = false;
        if (!now) return 0;
        if (all && now == set) same++; else same = 0;
        set = now;
        if (now_ns() - t0 > 300000000) return 0;
        struct timespec t = {0, 150000};
        nanosleep(&t, NULL);
    }
    return set;
}
static void hold_child(u64 seed, unsigned c) {
    bool still = frozen;
    if (still) viol("C14", "forked while another thread holds a lock in the middle of an operation on %s of %lu bytes", c <= N_DOC ? "a small object" : "a large object", hold_size);
    gen = 0;
    victim = ~0u;
    event_hook = NULL;
    if (seed % 4 == 0 && !still) { T = 0; child_work(seed | 1, 1); }
    atomic_fetch_add(&sh->child_ops, 1);
    if (vf_nviol) atomic_fetch_add(&sh->nviol_children, 1);
    syscall(SYS_exit_group, vf_nviol ? 8 : 0);
}
static void mode_hold(u64 ops) {
    rng_t r = {env_u64("VF_SEED", 1) * 13 + 5};
    struct sigaction sa = {.sa_handler = on_freeze, .sa_flags = SA_RESTART};
    sigaction(SIGUSR1, &sa, NULL);
    unsigned n = CF_ARENAS > MAXT - 1 ? MAXT - 1 : CF_ARENAS;
    PR = vf_map(sizeof *PR * MAXT);
    victim = ~0u;
    for (long i = 0; i < n; i++) if (pthread_create(&W[i].t, NULL, victim_thread, (void *)i)) vf_die("no thread");
    for (unsigned i = 0; i < n; i++) PR[i].in = -1;
    for (unsigned i = 0; i < n; i++) if (pthread_create(&PR[i].t, NULL, probe_thread, &PR[i])) vf_die("no thread");
    struct timespec ts = {0, 3000000};
    nanosleep(&ts, NULL);
    int round = 0, attempt = 0;
    for (u64 k = 0; k < ops && !vf_nviol; k++)
        for (unsigned v = 0; v < n && !vf_nviol; v++)
            for (unsigned c = k % 2; c <= N_DOC + 1 && !vf_nviol; c += 2) {
                hold_size = c > N_DOC ? rndr(&r, MAXSMALL + 1, 400000) : c ? class_size(c) - CANARY : 0;
                bool held = false;
                for (unsigned tries = 0; tries < 12 && !held; tries++) {
                    gen = ++attempt; victim = v;
                    u64 t0 = now_ns();
                    while (!W[v].in_call && now_ns() - t0 < 50000000) sched_yield();
                    u64 w = now_ns() + rndn(&r, 30000);
                    while (now_ns() < w);
                    pthread_kill(W[v].t, SIGUSR1);
                    t0 = now_ns();
                    while (frozen != attempt && now_ns() - t0 < 50000000) sched_yield();
                    n_tries++;
                    if (frozen == attempt) {
                        round++;
                        for (unsigned i = 0; i < n; i++) PR[i].round = round;
                        ts.tv_nsec = 100000;
                        nanosleep(&ts, NULL);
                        held = blocked(n, round) && frozen == attempt;
                    }
                    if (held) {
                        // on its own thread, because it has to wait
                        n_held++;
                        u64 seed = rnd(&r) >> 8;
                        atomic_store(&sh->in_call_at_fork, 0);
                        pid_t pid;
                        pthread_t rel;
                        void *releaser(void *a) { (void)a; u64 t1 = now_ns(); while (!sh->in_call_at_fork && now_ns() - t1 < 10000000) { struct timespec t = {0, 100000}; nanosleep(&t, NULL); } gen = 0; return NULL; }
                        if (pthread_create(&rel, NULL, releaser, NULL)) vf_die("no thread");
                        pid = fork();
                        if (!pid) { atomic_store(&sh->in_call_at_fork, 1); hold_child(seed, c); }
                        pthread_join(rel, NULL);
                        n_forks++;
                        int st;
                        while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
                        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 8)) viol("C14", "child ended with status %x", st);
                    }
                    gen = 0;
                    t0 = now_ns();
                    while (frozen) sched_yield();
                    for (unsigned i = 0; i < n; i++) while (PR[i].done != round) { sched_yield(); if (now_ns() - t0 > 20000000000) { viol("C14", "a call hangs in the parent"); vf_finish(); } }
                    victim = ~0u;
                    while (W[v].in_call) sched_yield();
                }
                if (held) n_class_held++; else n_none++;
            }
    stop = 1;
    for (unsigned i = 0; i < n; i++) { PR[i].done = PR[i].round; pthread_join(W[i].t, NULL); pthread_join(PR[i].t, NULL); n_ops += W[i].calls; }
    vstat("stopped_threads", n_tries); vstat("forks_with_a_lock_held", n_held); vstat("locks_held_at_fork", n_class_held);
    sh->in_call_at_fork = 0; n_busy_forks = n_held;
}

int main(void) {
    vf_install_segv();
    signal(SIGALRM, on_alarm);
    vma_model_on = false;   // its lock would be copied
    h_free(h_malloc(1));    // handlers of programs are registered after those of the allocator
    sh = (void *)syscall(SYS_mmap, NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0L);
    S = (void *)syscall(SYS_mmap, NULL, sizeof *S * 10, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    W = vf_map(sizeof *W * MAXT);
    T = env_u64("VF_THREADS", 8);
    if (T > MAXT) T = MAXT;
    u64 seed = env_u64("VF_SEED", 1), ops = env_u64("VF_OPS", 100);
    for (unsigned t = 0; t < MAXT; t++) W[t].r.s = seed * 1000003 + t * 7919;
    const char *m = getenv("VF_MODE");
    if (m && !strcmp(m, "rand")) mode_rand(ops);
    else if (m && !strcmp(m, "hold")) mode_hold(ops);
    else {
        storm = m && !strcmp(m, "storm");
        if (storm) forking = 1;
        mode_busy(ops);
    }
    if (sh->nviol_children) vf_nviol += sh->nviol_children;
    vstat("forks", n_forks); vstat("forks_with_threads_in_calls", n_busy_forks); vstat("calls_of_busy_threads", n_ops);
    vstat("child_ops", sh->child_ops); vstat("objects_checked_in_children", sh->child_objs); vstat("nested_forks", sh->nested);
    vstat("misuse_after_fork_detected", sh->detected); vstat("sequences_compared", n_seqs);
    vstat("evals", n_seqs + sh->child_ops + sh->child_objs);
    vstat("distinct", n_busy_forks + n_seqs);
    vsample("%lu forks, %lu of them with other threads inside calls; %lu objects checked in children", n_forks, n_busy_forks, (u64)sh->child_objs);
    vf_finish();
}
