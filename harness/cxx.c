// C24 (and the sized deletes of C06, errno of C28, sealing in the new-handler of C18): every form of
// operator new and delete, with failures and new-handlers of every behaviour.
#include "interpose.h"
extern void *cx_new(int form, size_t n, size_t al, int *exc);
extern void cx_delete(int form, void *p, size_t n, size_t al);
extern void cx_set_handler(void (*h)(void));
extern void (*cx_get_handler(void))(void);
extern void cx_throw(int derived);
static const char *const new_name[] = {"new", "new[]", "new(nothrow)", "new[](nothrow)", "new(align)", "new[](align)", "new(align, nothrow)", "new[](align, nothrow)"};
static const char *const del_name[] = {"delete", "delete[]", "delete(nothrow)", "delete[](nothrow)", "delete(size)", "delete[](size)", "delete(align)", "delete[](align)",
    "delete(align, nothrow)", "delete[](align, nothrow)", "delete(size, align)", "delete[](size, align)"};

typedef struct { u8 *p; size_t n; u32 al; int form; u64 pat; } obj_t;   // al 0: without alignment
enum { NOBJ = 400 };
static _Atomic u64 n_new, n_del, n_fail, n_handler, n_exc, n_null, n_retry, n_mismatch;
enum { K_NEW, K_DEL, K_FAIL, K_MIS, N_KIND };
static const char *const kind_name[] = {"new", "del", "fail", "mismatch"};
static _Atomic u64 cov[N_KIND][12];
static void mark(int k, int f, u64 m) { if ((cov[k][f] & m) != m) cov[k][f] |= m; }
static inline u8 pat(u64 s, size_t i) { return (u8)(s + i * 131) | 1; }

static size_t pick(rng_t *r) {
    unsigned k = rndn(r, 20);
    if (k == 0) return 0;
    if (k < 12) { unsigned c = rndr(r, 1, N_DOC); return class_size(c) - CANARY - rndn(r, 9); }
    if (k < 17) return rndn(r, 2000);
    return rndr(r, MAXSMALL - 20, 700000);
}
static void fresh(obj_t *o, rng_t *r) {
    const char *nm = new_name[o->form];
    struct exp e = expect_size(o->n, o->al ? o->al : 16);
    size_t al = o->al > 16 ? o->al : 16;
    if ((uintptr_t)o->p & (al - 1)) viol("C24", "%s(%zu) with alignment %u returns %p", nm, o->n, o->al, o->p);
    size_t u = h_malloc_usable_size(o->p);
    if (u != e.usable) viol("C24", "%s(%zu) with alignment %u has %zu usable bytes instead of the %zu of malloc", nm, o->n, o->al, u, e.usable);
    if (CF_ZERO || e.cls == EXP_LARGE) for (size_t i = 0; i < o->n; i += i < 300 ? 1 : 61) if (o->p[i]) { viol("C24", "%s(%zu): memory is not zero", nm, o->n); break; }
    o->pat = rnd(r);
    for (size_t i = 0; i < o->n; i++) o->p[i] = pat(o->pat, i);
    n_new++;
}
static void check(const obj_t *o) { for (size_t i = 0; i < o->n; i += i < 200 ? 1 : 53) if (o->p[i] != pat(o->pat, i)) { viol("C24", "memory of %s(%zu) changed", new_name[o->form], o->n); return; } }
static bool probing;
static void release(obj_t *o, rng_t *r, int force) {
    check(o);
    int f;
    if (o->al) f = 6 + rndn(r, 6); else f = rndn(r, 6);
    if (force >= 0) f = force;
    vf_section_set("%s of %s(%lu, %u)", del_name[f], new_name[o->form], (u64)o->n, o->al);
    errno = 91;
    cx_delete(f, o->p, o->n, o->al);
    if (errno != 91) { viol("C24", "%s changes errno to %d", del_name[f], errno); viol("C28", "%s changes errno to %d", del_name[f], errno); }
    if (probing && o->n && CF_ZERO) {
        int b = probe_read(o->p);
        if (b > 0 && b == pat(o->pat, 0)) viol("C24", "%s doesn't free", del_name[f]);
    }
    vf_section_set("-");
    mark(K_DEL, f, 1UL << (o->al ? 63 - __builtin_clzl(o->al) : expect_size(o->n, 16).cls == EXP_LARGE ? 1 : 0));
    o->p = NULL;
    n_del++;
}

// ---- failures and handlers ----
static __thread volatile int fails_left;       // calls of mmap to fail
static __thread volatile bool failing;
static int fail_hook(int kind, VF_UNUSED uintptr_t a, VF_UNUSED size_t n) { return failing && kind == C_MMAP ? ENOMEM : 0; }

enum { B_RELEASE, B_REMOVE, B_THROW, B_THROW_DERIVED, B_SWITCH, B_ALLOC, N_BEHAVE };
static const char *const behave_name[] = {"frees memory", "removes itself", "throws bad_alloc", "throws an exception derived from bad_alloc", "installs another handler", "allocates"};
static volatile int behaviour, calls_needed, handler_calls, other_calls, at_call;
static volatile bool bad_rights;
static void *volatile made_in_handler;
static inline u32 rdpkru(void) { u32 a, d; __asm__ volatile(".byte 0x0f,0x01,0xee" : "=a"(a), "=d"(d) : "c"(0)); return a; }
static volatile u32 rights;
static void handler(void);
static void handler2(void) {
    other_calls++;
    handler_calls++;
    if (handler_calls >= calls_needed) failing = false;
    if (handler_calls > 1000) vf_broken("handler called for ever");
}
static void handler(void) {
    handler_calls++;
    if (CF_SEAL && rdpkru() != rights) bad_rights = true;
    if (handler_calls > 1000) vf_broken("handler called for ever");
    switch (behaviour) {
    case B_RELEASE: if (handler_calls >= calls_needed) failing = false; break;
    case B_REMOVE: if (handler_calls >= calls_needed) cx_set_handler(NULL); break;
    case B_THROW: if (handler_calls >= calls_needed) cx_throw(0); break;
    case B_THROW_DERIVED: if (handler_calls >= calls_needed) cx_throw(1); break;
    case B_SWITCH: if (handler_calls == at_call) cx_set_handler(handler2); if (handler_calls >= calls_needed) failing = false; break;
    case B_ALLOC: {
        bool f = failing;
        failing = false;
        int e; void *q = cx_new(0, 100000 + handler_calls, 0, &e);
        if (!q) viol("C24", "allocation in the new-handler failed");
        cx_delete(0, q, 0, 0);
        failing = f;
        if (handler_calls >= calls_needed) failing = false;
        break;
    }
    }
}
static void failures(rng_t *r) {
    int form = rndn(r, 8), exc = 0;
    size_t al = form >= 4 ? 1UL << rndr(r, 4, 16) : 0;
    bool impossible = rndn(r, 3) == 0;          // otherwise memory for a large allocation can't be mapped
    size_t n = impossible ? (1UL << 62) + rndn(r, 1UL << 60) : rndr(r, MAXSMALL + 1, 900000);
    bool with = rndn(r, 6) != 0;
    behaviour = rndn(r, N_BEHAVE);
    if (impossible && behaviour != B_REMOVE && behaviour != B_THROW && behaviour != B_THROW_DERIVED) behaviour = B_REMOVE;
    calls_needed = rndr(r, 1, 6);
    at_call = rndr(r, 1, 6);
    handler_calls = other_calls = 0;
    cx_set_handler(with ? handler : NULL);
    failing = true;
    if (CF_SEAL) rights = rdpkru();
    vf_section_set("failing %s, handler %s", new_name[form], with ? behave_name[behaviour] : "none");
    u8 *p = cx_new(form, n, al, &exc);
    vf_section_set("-");
    failing = false;
    bool nothrow = form == 2 || form == 3 || form >= 6;
    bool ok = with && (behaviour == B_RELEASE || behaviour == B_SWITCH || behaviour == B_ALLOC);
    const char *b = with ? behave_name[behaviour] : "is none";
    n_fail++;
    n_handler += handler_calls;
    int want = with ? calls_needed : 0;
    if (handler_calls != want) viol("C24", "%s: handler (which %s) called %d times, %d needed", new_name[form], b, handler_calls, want);
    if (with && behaviour == B_SWITCH) {
        int w2 = at_call < calls_needed ? calls_needed - at_call : 0;
        if (other_calls != w2) viol("C24", "%s: the new-handler installed by the handler was called %d times, not %d", new_name[form], other_calls, w2);
    }
    if (bad_rights) { viol("C18", "metadata is not sealed in the new-handler"); bad_rights = false; }
    if (ok) {
        n_retry++;
        if (!p || exc) viol("C24", "%s failed (exception %d) although memory became available after %d calls of the handler", new_name[form], exc, handler_calls);
    } else {
        if (p) viol("C24", "%s(%zu) succeeded", new_name[form], n);
        if (nothrow && exc) viol("C24", "%s throws", new_name[form]);
        if (!nothrow && exc != 1) viol("C24", "%s returns %p and exception %d instead of throwing std::bad_alloc; handler %s", new_name[form], p, exc, b);
        if (exc) n_exc++; else n_null++;
    }
    void (*h)(void) = cx_get_handler();
    if (with && behaviour == B_REMOVE && h) viol("C24", "the handler was installed again");
    if (with && (behaviour == B_RELEASE || behaviour == B_THROW) && h != handler) viol("C24", "the handler was changed");
    cx_set_handler(NULL);
    if (p) { obj_t o = {p, n, al, form, 0}; fresh(&o, r); release(&o, r, -1); }
    mark(K_FAIL, form, 1UL << ((with ? behaviour : 7) * 2 + impossible));
}

// ---- sized deletes with a wrong size ----
static void mismatch(rng_t *r) {
    int form = rndn(r, 8), exc;
    obj_t o = {0};
    o.form = form;
    o.n = pick(r);
    o.al = form >= 4 ? 1U << rndr(r, 4, 14) : 0;
    size_t w = rndn(r, 2) ? pick(r) : o.n + rndr(r, 1, 40);
    int f = o.al ? 10 + rndn(r, 2) : 4 + rndn(r, 2);
    // the size is checked by what it would have been rounded to
    struct exp a = expect_size(o.n, o.al ? o.al : 16), b = expect_size(w, o.al ? o.al : 16);
    bool differs = a.cls != b.cls || a.region != b.region;
    fflush(stdout);
    int pp[2];
    if (pipe(pp)) vf_die("pipe");
    pid_t pid = fork();
    if (!pid) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        signal(SIGABRT, SIG_DFL);
        dup2(pp[1], 2);
        o.p = cx_new(form, o.n, o.al, &exc);
        cx_delete(f, o.p, w, o.al);
        syscall(SYS_exit_group, 0);
    }
    close(pp[1]);
    char t[300]; size_t n = 0; ssize_t x;
    while ((x = syscall(SYS_read, pp[0], t + n, sizeof t - 1 - n)) > 0) n += x;
    t[n] = 0;
    close(pp[0]);
    int s;
    while (waitpid(pid, &s, 0) < 0 && errno == EINTR);
    n_mismatch++;
    if (CF_CXX && differs) {
        if (!(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT && !strncmp(t, "fatal allocator error: ", 23)))
            viol("C06", "%s with size %zu of %s(%zu) with alignment %u is not rejected (status %x)", del_name[f], w, new_name[form], o.n, o.al, s);
    } else if (!differs && !(WIFEXITED(s) && !WEXITSTATUS(s))) {
        viol("C06", "%s with size %zu of %s(%zu) with alignment %u, of the same class, is rejected: %s", del_name[f], w, new_name[form], o.n, o.al, t);
        viol("C24", "%s with size %zu of %s(%zu) with alignment %u, of the same class, is rejected: %s", del_name[f], w, new_name[form], o.n, o.al, t);
    }
    mark(K_MIS, form, 1UL << (differs * 32 + (a.cls == EXP_LARGE ? 31 : a.cls & 15)));
}

static u64 OPS;
static void history(rng_t *r, bool single) {
    obj_t *o = vf_map(sizeof(obj_t) * NOBJ);
    for (u64 i = 0; i < OPS; i++) {
        obj_t *x = &o[rndn(r, NOBJ)];
        if (x->p) { release(x, r, -1); continue; }
        int exc;
        x->form = rndn(r, 8);
        x->n = pick(r);
        x->al = x->form >= 4 ? 1U << rndr(r, 0, 16) : 0;
        if (x->al && x->al < 8) x->al = 8;
        x->p = cx_new(x->form, x->n, x->al, &exc);
        if (!x->p || exc) { viol("C24", "%s(%zu, %u) failed", new_name[x->form], x->n, x->al); continue; }
        fresh(x, r);
        mark(K_NEW, x->form, 1UL << (expect_size(x->n, x->al ? x->al : 16).cls == EXP_LARGE ? 63 : expect_size(x->n, x->al ? x->al : 16).cls));
        if (single && rndn(r, 20) == 0) failures(r);
        if (single && rndn(r, 60) == 0) for (int f = 0; f < 12; f++) { errno = 55; cx_delete(f, NULL, x->n, 64); if (errno != 55) viol("C24", "%s of null changes errno", del_name[f]); }
    }
    for (unsigned i = 0; i < NOBJ; i++) if (o[i].p) release(&o[i], r, -1);
}
static void *thr(void *a) { rng_t r = {(u64)a * 977}; history(&r, false); return NULL; }

int main(void) {
    vf_install_segv();
    rng_t R = {env_u64("VF_SEED", 1) * 6700417};
    OPS = env_u64("VF_OPS", 30000);
    u64 mis = env_u64("VF_MISMATCH", 400);
    unsigned T = env_u64("VF_THREADS", 4);
    fault_hook = fail_hook;
    probing = true;
    history(&R, true);
    for (u64 i = 0; i < mis; i++) mismatch(&R);
    probing = false;
    pthread_t t[32];
    for (unsigned i = 0; i < T; i++) if (pthread_create(&t[i], NULL, thr, (void *)(rnd(&R) >> 8))) vf_die("no thread");
    for (unsigned i = 0; i < T; i++) pthread_join(t[i], NULL);
    vstat("evals", n_new + n_del + n_fail + n_mismatch); vstat("news", n_new); vstat("deletes", n_del); vstat("failing_news", n_fail); vstat("handler_calls", n_handler);
    vstat("bad_allocs", n_exc); vstat("nulls", n_null); vstat("retries_succeeded", n_retry); vstat("sized_mismatches", n_mismatch);
    vsample("%lu news, %lu deletes, %lu failing with %lu calls of handlers, %lu bad_allocs, %lu nulls", n_new, n_del, n_fail, n_handler, n_exc, n_null);
    for (int k = 0; k < N_KIND; k++) for (int f = 0; f < 12; f++) if (cov[k][f]) vcov(kind_name[k], f, cov[k][f]);
    vf_finish();
}
