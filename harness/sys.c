// C23: a seccomp filter with exactly the documented system calls and arguments, under which the
// allocator works (or reports misuse); the interposed calls are checked against the ranges it owns too.
#include "interpose.h"
#include "ops.h"
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>

static atomic_ulong trapped;
static volatile bool allow_stderr;
static void on_sigsys(VF_UNUSED int s, siginfo_t *si, void *uc) {
    ucontext_t *u = uc;
    atomic_fetch_add(&trapped, 1);
    viol("C23", "undocumented system call %d(%lx, %lx, %lx, %lx)", si->si_syscall, (u64)u->uc_mcontext.gregs[REG_RDI], (u64)u->uc_mcontext.gregs[REG_RSI], (u64)u->uc_mcontext.gregs[REG_RDX], (u64)u->uc_mcontext.gregs[REG_R10]);
    u->uc_mcontext.gregs[REG_RAX] = -EPERM;
}
static struct sock_filter flt[300];
static unsigned nf;
static void st(u16 code, u32 k, u8 jt, u8 jf) { if (nf >= 300) vf_die("filter too long"); flt[nf++] = (struct sock_filter){code, jt, jf, k}; }
#define LD(off) st(BPF_LD | BPF_W | BPF_ABS, off, 0, 0)
#define NR offsetof(struct seccomp_data, nr)
#define LO(i) (offsetof(struct seccomp_data, args) + 8 * (i))
#define HI(i) (LO(i) + 4)
// allow the call if all the given 32-bit arguments match (word, mask, value)
typedef struct { u32 off, mask, val; } am_t;
static void allow(u32 nr, unsigned n, const am_t *m) {
    LD(NR);
    st(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 3 * n + 1);
    for (unsigned i = 0; i < n; i++) {
        LD(m[i].off);
        st(BPF_ALU | BPF_AND | BPF_K, m[i].mask, 0, 0);
        st(BPF_JMP | BPF_JEQ | BPF_K, m[i].val, 0, 3 * (n - i - 1) + 1);
    }
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
}
#define ALLOW(nr, ...) do { const am_t m_[] = {__VA_ARGS__}; allow(nr, sizeof m_ / sizeof *m_, m_); } while (0)
#define ANY {NR, 0, 0}
#define ALL32 0xffffffffU
static void install(void) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, NULL);
    nf = 0;
    LD(offsetof(struct seccomp_data, arch));
    st(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    st(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS, 0, 0);
    // documented
    ALLOW(SYS_mmap, {LO(0), ALL32, 0}, {HI(0), ALL32, 0}, {LO(2), ALL32, PROT_NONE}, {LO(3), ALL32, MAP_ANONYMOUS | MAP_PRIVATE}, {LO(4), ALL32, (u32)-1}, {LO(5), ALL32, 0});
    ALLOW(SYS_mmap, {LO(0), 0xfff, 0}, {LO(2), ALL32, PROT_NONE}, {LO(3), ALL32, MAP_ANONYMOUS | MAP_PRIVATE | MAP_FIXED}, {LO(4), ALL32, (u32)-1}, {LO(5), ALL32, 0});
    ALLOW(SYS_mprotect, {LO(0), 0xfff, 0}, {LO(2), ALL32, PROT_READ});
    ALLOW(SYS_mprotect, {LO(0), 0xfff, 0}, {LO(2), ALL32, PROT_READ | PROT_WRITE});
    ALLOW(SYS_mremap, {LO(0), 0xfff, 0}, {LO(3), ALL32, 0});
    ALLOW(SYS_mremap, {LO(0), 0xfff, 0}, {LO(3), ALL32, MREMAP_MAYMOVE | MREMAP_FIXED}, {LO(4), 0xfff, 0});
    ALLOW(SYS_munmap, {LO(0), 0xfff, 0});
    ALLOW(SYS_madvise, {LO(0), 0xfff, 0}, {LO(2), ALL32, MADV_DONTNEED});
    ALLOW(SYS_getrandom, {LO(2), ALL32, 0});
    ALLOW(SYS_futex, {LO(1), ALL32, 128 /* WAIT_PRIVATE */});
    ALLOW(SYS_futex, {LO(1), ALL32, 129 /* WAKE_PRIVATE */});
    if (CF_SEAL) {
        ALLOW(SYS_pkey_alloc, {LO(0), ALL32, 0});
        ALLOW(SYS_pkey_mprotect, {LO(0), 0xfff, 0}, {LO(2), ALL32, PROT_READ});
        ALLOW(SYS_pkey_mprotect, {LO(0), 0xfff, 0}, {LO(2), ALL32, PROT_READ | PROT_WRITE});
    }
#ifdef CF_LABEL
    ALLOW(SYS_prctl, {LO(0), ALL32, 0x53564d41 /* PR_SET_VMA */}, {LO(1), ALL32, 0 /* ANON_NAME */}, {LO(2), 0xfff, 0});
#endif
    // the harness: output, barriers, the end
    ALLOW(SYS_write, {LO(0), ALL32, 1});
    if (allow_stderr) ALLOW(SYS_write, {LO(0), ALL32, 2});
    ALLOW(SYS_futex, {LO(1), ALL32, 137 /* WAIT_BITSET_PRIVATE */});
    ALLOW(SYS_futex, {LO(1), ALL32, 393 /* with realtime clock */});
    ALLOW(SYS_exit_group, ANY);
    ALLOW(SYS_rt_sigreturn, ANY);
    ALLOW(SYS_rt_sigprocmask, ANY);
    ALLOW(SYS_rt_sigaction, ANY);
    ALLOW(SYS_gettid, ANY);
    ALLOW(SYS_getpid, ANY);
    ALLOW(SYS_tgkill, ANY);
    ALLOW(SYS_sched_yield, ANY);
    ALLOW(SYS_restart_syscall, ANY);
    st(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
    struct sock_fprog pr = {nf, flt};
    if (syscall(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) vf_die("no_new_privs");
    if (syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_TSYNC, &pr)) vf_die("seccomp: %d", errno);
}

static volatile bool inject;
static int enomem_hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) {
    static __thread rng_t r;
    if (!inject || kind == C_GETRANDOM || kind == C_WRITE) return 0;
    if (!r.s) r.s = (uintptr_t)&r;
    return rndn(&r, 20) == 0 ? ENOMEM : 0;
}
static ops_t W[24];
static unsigned T;
static u64 OPS;
static pthread_barrier_t bar;
static ssize_t cookie_write(VF_UNUSED void *c, VF_UNUSED const char *b, size_t n) { return n; }
static void *worker(void *a) {
    ops_t *c = a;
    pthread_barrier_wait(&bar);
    if (c == W) install();
    pthread_barrier_wait(&bar);
    for (u64 i = 0; i < OPS; i++) {
        ops_step(c);
        if (c == W && i % 1000 == 0 && fault_hook) inject = rndn(&c->r, 2);
    }
    pthread_barrier_wait(&bar);
    ops_drain(c);
    pthread_barrier_wait(&bar);
    if (c != W) pthread_barrier_wait(&bar);     // the end of a thread needs other calls
    return NULL;
}

static unsigned misuse(rng_t *r) {
    u8 *p = h_malloc(rndn(r, 3) ? rndn(r, 3000) : MAXSMALL + rndn(r, 100000)), *q;
    unsigned k = rndn(r, 7);
    switch (k) {
    case 0: h_free(p + 16 * (1 + rndn(r, 0))); h_free(p); h_free(p); break;
    case 1: h_free(p); h_free(p); h_free(p); break;
    case 2: h_free((void *)((uintptr_t)p + 1)); break;
    case 3: h_free(&p); break;
    case 4: h_free_sized(p, h_malloc_usable_size(p) * 3 + 100000); break;
    case 5: q = h_realloc((void *)&k, 100); (void)q; break;
    case 6: (void)h_malloc_usable_size((void *)((uintptr_t)p + 5)); break;
    }
    return k;
}

int main(void) {
    vf_install_segv();
    rng_t R = {env_u64("VF_SEED", 1) * 15485863};
    ip_init();
    OPS = env_u64("VF_OPS", 20000);
    T = env_u64("VF_THREADS", 4);
    if (T > 24) T = 24;
    u64 ended = 0, mis = env_u64("VF_MISUSE", 60);
    // reports of misuse make no other calls either
    for (u64 i = 0; i < mis; i++) {
        int pp[2];
        if (pipe(pp)) vf_die("pipe");
        pid_t pid = fork();
        if (!pid) {
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            dup2(pp[1], 2);
            signal(SIGABRT, SIG_DFL);
            allow_stderr = true;
            ops_init(&W[0], rnd(&R) + i, 200, 8 << 20);
            rng_t r = {rnd(&R) + i * 77};
            install();
            for (unsigned j = 0; j < 500; j++) ops_step(&W[0]);
            unsigned k = misuse(&r);
            vf_fmt(vf_section, sizeof vf_section, "misuse %u", k);
            syscall(SYS_exit_group, vf_nviol ? 1 : 2);
        }
        close(pp[1]);
        char t[300]; size_t n = 0; ssize_t x;
        while ((x = syscall(SYS_read, pp[0], t + n, sizeof t - 1 - n)) > 0) n += x;
        t[n] = 0;
        close(pp[0]);
        int s;
        while (waitpid(pid, &s, 0) < 0 && errno == EINTR);
        if (WIFEXITED(s) && WEXITSTATUS(s) == 1) atomic_fetch_add(&vf_nviol, 1);
        else if (WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT && strncmp(t, "fatal allocator error: ", 23)) viol("C23", "misuse ended without the report: %s", t);
        else if (WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT) ended++;
        R.s++;
    }
    cookie_io_functions_t io = {.write = cookie_write};
    for (unsigned i = 0; i < T; i++) {
        ops_init(&W[i], rnd(&R), 300, 24 << 20);
        W[i].info = fopencookie(NULL, "w", io);
        setvbuf(W[i].info, vf_map(4096), _IOFBF, 4096);
        fputc('x', W[i].info); fflush(W[i].info);
    }
    if (env_u64("VF_FAULT", 0)) fault_hook = enomem_hook;
    pthread_barrier_init(&bar, NULL, T);
    pthread_t th[24];
    for (unsigned i = 1; i < T; i++) if (pthread_create(&th[i], NULL, worker, &W[i])) vf_die("no thread");
    worker(&W[0]);
    inject = false;
    u64 tot = 0, fails = 0, calls = 0;
    for (unsigned i = 0; i < T; i++) for (unsigned k = 0; k < O_N; k++) {
        tot += W[i].count[k]; fails += W[i].failed[k];
        if (W[i].count[k]) vcov("op", 0, 1UL << k);
        if (W[i].failed[k]) vcov("failed", 0, 1UL << k);
    }
    for (unsigned k = 0; k < N_CALLS; k++) calls += call_count[k];
    vstat("evals", calls); vstat("calls", tot); vstat("failed_calls", fails); vstat("kernel_calls_filtered", calls); vstat("reports_under_filter", ended); vstat("ownership_checks", own_checks);
    ip_stats();
    vsample("%lu calls, %lu kernel calls passed the filter, %lu ownership checks", tot, calls, own_checks);
    vf_finish();
}
