// The random number generator by itself (random.c and chacha.c, linked in): keystream, reseeding, seeds,
// uniformity. VF_MODE=stream|u16|u64|fail. With -DVF_STUB the keystream is a counter, so that every
// 16 bit value can be enumerated.
#include "vf.h"
#include "random.h"
#include "chacha.h"

static rng_t R;
static u64 n_evals, n_seeds, n_shorts, n_eintr, n_found, n_windows;
static u64 covbits[64];
static void cov(unsigned k) { covbits[(k >> 6) & 63] |= 1UL << (k & 63); }

// ---- reference ChaCha8 ----
static inline u32 rotl(u32 x, int n) { return x << n | x >> (32 - n); }
#define QR(a, b, c, d) a += b, d = rotl(d ^ a, 16), c += d, b = rotl(b ^ c, 12), a += b, d = rotl(d ^ a, 8), c += d, b = rotl(b ^ c, 7)
static void ref_block(const u8 *key, const u8 *iv, u64 counter, u8 *out) {
    u32 x[16], s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    memcpy(s + 4, key, 32);
    s[12] = counter; s[13] = counter >> 32;
    memcpy(s + 14, iv, 8);
    memcpy(x, s, 64);
    for (int i = 0; i < 4; i++) {
        QR(x[0], x[4], x[8], x[12]); QR(x[1], x[5], x[9], x[13]); QR(x[2], x[6], x[10], x[14]); QR(x[3], x[7], x[11], x[15]);
        QR(x[0], x[5], x[10], x[15]); QR(x[1], x[6], x[11], x[12]); QR(x[2], x[7], x[8], x[13]); QR(x[3], x[4], x[9], x[14]);
    }
    for (int i = 0; i < 16; i++) x[i] += s[i];
    memcpy(out, x, 64);
}
static void ref_stream(const u8 *seed, u64 block, u8 *out, size_t blocks) { for (size_t i = 0; i < blocks; i++) ref_block(seed, seed + 32, block + i, out + 64 * i); }

// ---- the system's random source ----
static u8 *given;          // all bytes given so far
static size_t n_given;
static bool disturb;
static int fail_errno;     // fail with this; -1: return 0
static u64 fail_after = ~0UL;
static u8 *req_at; static size_t req_left;   // an unfinished request
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (flags) viol("C13", "getrandom with flags %x", flags);
    if (fail_after-- == 0) { fail_after = 0; if (fail_errno < 0) return 0; errno = fail_errno; return -1; }
    if (req_left && ((u8 *)buf != req_at || n != req_left)) viol("C13", "after a short or interrupted read %zu bytes at %p were missing, but %zu at %p were asked for", req_left, req_at, n, buf);
    if (!req_left) n_seeds++;
    size_t k = n;
    if (disturb) {
        if (rndn(&R, 2)) { n_eintr++; req_at = buf; req_left = n; errno = EINTR; return -1; }
        if (rndn(&R, 3)) { k = 1 + rndn(&R, n); if (k < n) n_shorts++; }
    }
    for (size_t i = 0; i < k; i++) given[n_given++] = ((u8 *)buf)[i] = rnd(&R);
    req_at = (u8 *)buf + k;
    req_left = n - k;
    return k;
}

#ifdef VF_STUB
static u16 next16;
void chacha_keysetup(chacha_ctx *x, const u8 *k) { (void)x; (void)k; }
void chacha_ivsetup(chacha_ctx *x, const u8 *iv) { (void)x; (void)iv; }
void chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 bytes) { (void)x; for (u32 i = 0; i + 2 <= bytes; i += 2) { memcpy(c + i, &next16, 2); next16++; } }

static void mode_u16(u64 part, u64 parts) {
    // each of the 65536 values the generator can draw is fed once; exactly uniform means that every
    // result comes up equally often
    static u32 count[65536];
    static struct random_state s;
    random_state_init(&s);
    for (u32 b = 1 + part; b < 65536; b += parts) {
        // aligned to the start of the enumeration: use up the cache
        memset(count, 0, b * sizeof(u32));
        random_state_init(&s);
        next16 = 0;
        // the enumeration ends when the values wrapped around; a result that needed more values than are left is
        // recognised by the position in the enumeration. The number of accepted values is unknown, so draw until all counts are level.
        u32 want = 65536 / b, total = want * b, over = 0;
        for (u32 k = 0; k < total; k++) {
            u16 v = get_random_u16_uniform(&s, b);
            if (v >= b) { viol("C13", "get_random_u16_uniform(%u) returned %u", b, v); break; }
            if (++count[v] > want) over++;
        }
        if (over) {
            u32 lo_ = ~0U, hi_ = 0;
            for (u32 i = 0; i < b; i++) { if (count[i] < lo_) lo_ = count[i]; if (count[i] > hi_) hi_ = count[i]; }
            viol("C13", "numbers below %u are biased: of the 65536 possible draws some results come up %u times and others %u times", b, lo_, hi_);
        }
        n_evals += total;
        cov(b & 4095);
        if (vf_nviol > 5) return;
    }
    vstat("bounds", 65535 / parts);
}
#else

#define SPAN (256 * 1024)
static u8 *stream;      // keystream of the current seed, a bit longer than allowed
static size_t seed_no;
static void load_seed(size_t k) {
    seed_no = k;
    ref_stream(given + k * 40, 0, stream, SPAN / 64 + 64);
}
static size_t cursor;
static u8 next_stream[4096];
static bool have_next;
// Does v continue the keystream at offset o? Values of unit bytes are never split: up to unit - 1 bytes may
// be left over before a refill. Returns the offset behind it; *seed is set when the next seed's stream started.
static size_t follow(const u8 *st, size_t lim, size_t o, const u8 *v, size_t n, size_t unit, bool *seed) {
    size_t l = 0;
    while (l < n && o + l < lim && v[l] == st[o + l]) l++;
    if (l == n) return o + n;
    l -= l % unit;
    for (int back = 0; back < 3; back++) {
        for (size_t skip = 1; skip < unit; skip++)
            if (o + l + skip + unit <= lim && !memcmp(v + l, st + o + l + skip, unit)) {
                size_t r = follow(st, lim, o + l + skip, v + l, n - l, unit, seed);
                if (r != ~0UL) return r;
            }
        if (!*seed && have_next && !memcmp(v + l, next_stream, unit)) {
            bool t = true;
            size_t r = follow(next_stream, 4096, 0, v + l, n - l, unit, &t);
            if (r != ~0UL) { *seed = true; return r; }
        }
        if (l < unit) break;
        l -= unit;
    }
    return ~0UL;
}
static void expect_part(const u8 *v, size_t n, size_t unit) {
    n_evals++;
    have_next = (seed_no + 2) * 40 <= n_given;
    if (have_next) ref_stream(given + (seed_no + 1) * 40, 0, next_stream, 64);
    bool seed = false;
    size_t r = follow(stream, SPAN + 4096, cursor, v, n, unit, &seed);
    if (r != ~0UL) {
        n_found++;
        if (seed) load_seed(seed_no + 1);
        cursor = r;
        if (cursor > SPAN) viol("C13", "a generator gave out more than 256 KiB without being reseeded");
        return;
    }
    if (n >= 8 && memmem(stream, SPAN + 4096, v, 8)) viol("C13", "a part of the keystream was given out out of order or twice, after offset %zu", cursor);
    else viol("C13", "output after offset %zu of keystream %zu is not from the keystream of the seed the system gave", cursor, seed_no);
}

static void mode_stream(u64 rounds) {
    u8 *buf = vf_map(1 << 20);
    static struct random_state s, kids[8];
    stream = vf_map(SPAN + 8192);
    for (u64 r = 0; r < rounds && vf_nviol < 5; r++) {
        disturb = r % 4 != 0;
        size_t g0 = n_given = 0;
        seed_no = 0; cursor = 0;
        random_state_init(&s);
        if (req_left) viol("C13", "a short read left %zu bytes of the seed unset", req_left);
        if (n_given - g0 != 40) { viol("C13", "%zu bytes of seed instead of 40", n_given - g0); return; }
        load_seed(0);
        u64 total = 300000 + rndn(&R, 1200000), out = 0;
        size_t seeds_before = 1;
        while (out < total && vf_nviol < 5) {
            size_t n = 0;
            switch (rndn(&R, 5)) {
            case 0: case 1: n = 8 * (2 + rndn(&R, 30));
                for (size_t i = 0; i < n; i += 8) { u64 v = get_random_u64(&s); memcpy(buf + i, &v, 8); }
                expect_part(buf, n, 8);
                break;
            case 2: n = 2 * (8 + rndn(&R, 100));
                for (size_t i = 0; i < n; i += 2) { u16 v = get_random_u16(&s); memcpy(buf + i, &v, 2); }
                expect_part(buf, n, 2);
                break;
            default: n = 16 + rndn(&R, 113);
                if (rndn(&R, 20) == 0) n = 128;
                get_random_bytes(&s, buf, n); expect_part(buf, n, 1); break;
            }
            out += n;
            if (req_left) { viol("C13", "a short read left %zu bytes of a seed unset", req_left); req_left = 0; }
            cov(n > 255 ? 255 : n);
        }
        // a generator gives at most 256 KiB per seed
        size_t seeds = n_given / 40;
        if (seeds < (out + SPAN - 1) / SPAN) viol("C13", "%lu bytes from %zu seeds", out, seeds);
        seeds_before = seeds; (void)seeds_before;
        n_windows += seeds;
    }
    disturb = false;
    // generators seeded from another one: key and nonce are a part of its output of their own
    for (u64 r = 0; r < 50 * rounds && vf_nviol < 5; r++) {
        n_given = 0;
        random_state_init(&s);
        u8 src[4096];
        ref_stream(given, 0, src, 64);
        size_t skip = rndn(&R, 20), at = 0;
        for (size_t i = 0; i < skip; i++) get_random_u64(&s);
        at = skip * 8;
        for (int k = 0; k < 8; k++) {
            random_state_init_from_random_state(&kids[k], &s);
            u8 o[64], ref[64];
            get_random_bytes(&kids[k], o, 64);
            bool ok = false;
            for (size_t q = at; q + 40 <= 4096 && q < at + 300; q++) {
                ref_block(src + q, src + q + 32, 0, ref);
                if (!memcmp(ref, o, 64)) { ok = true; at = q + 40; break; }
            }
            n_evals++;
            if (!ok) { viol("C13", "generator %d seeded from another one doesn't have the keystream of the next unused 40 bytes", k); break; }
        }
        if (n_given != 40) viol("C13", "seeding from another generator took from the system");
    }
    // the block function for all lengths and counters
    for (u64 r = 0; r < 40 * rounds && vf_nviol < 5; r++) {
        u8 seed[40], ref[64 * 40];
        for (int i = 0; i < 40; i++) seed[i] = rndn(&R, 8) ? rnd(&R) : rndn(&R, 2) ? 0 : 255;
        chacha_ctx c;
        chacha_keysetup(&c, seed);
        chacha_ivsetup(&c, seed + 32);
        u64 ctr = 0;
#ifndef VF_NO_CTX
        if (rndn(&R, 2)) { ctr = rndn(&R, 3) ? (1UL << 32) - rndn(&R, 12) : rnd(&R); c.input[12] = ctr; c.input[13] = ctr >> 32; }
#endif
        size_t blocks = 0;
        ref_stream(seed, ctr, ref, 40);
        while (blocks < 32) {
            size_t n = 64 * (1 + rndn(&R, 6)) - (rndn(&R, 3) == 0 ? rndn(&R, 64) : 0);
            if (n == 0) n = 1;
            memset(buf, 0x5a, n + 64);
            chacha_keystream_bytes(&c, buf, n);
            if (memcmp(buf, ref + blocks * 64, n)) { viol("C13", "ChaCha8 keystream of %zu bytes at block %lu differs from the reference", n, ctr + blocks); break; }
            for (size_t i = n; i < n + 64; i++) if (buf[i] != 0x5a) { viol("C13", "keystream of %zu bytes written beyond its end", n); break; }
            blocks += (n + 63) / 64;
            n_evals++;
            if (blocks > 33) break;
        }
    }
    vstat("seeds", n_seeds); vstat("short_reads", n_shorts); vstat("interrupted_reads", n_eintr); vstat("keystream_parts_found", n_found); vstat("keystreams", n_windows);
}

static void mode_u64(u64 draws) {
    static struct random_state s;
    random_state_init(&s);
    for (int k = 0; k < 160 && vf_nviol < 5; k++) {
        u64 b;
        unsigned bins = 48;
        if (k < 40) b = (3UL << 62) - (k ? rnd(&R) >> 20 : 0);
        else if (k < 60) b = (1UL << 63) + 1 + (rnd(&R) >> 8);
        else if (k < 80) b = rnd(&R) | 1UL << 62;
        else if (k < 120) b = 2 + rndn(&R, 47);
        else b = rnd(&R) >> rndn(&R, 58);
        if (b < 2) b = 2;
        if (b < bins) bins = b;
        static u64 c[64];
        memset(c, 0, sizeof c);
        bool small = b < (1UL << 32);
        u64 rem = b % bins;
        for (u64 i = 0; i < draws; i++) {
            u64 v = get_random_u64_uniform(&s, b);
            if (v >= b) { viol("C13", "get_random_u64_uniform(%lx) returned %lx", b, v); return; }
            c[small ? v % bins : (u64)(((unsigned __int128)v * bins) / b)]++;
            n_evals++;
        }
        double x = 0;
        for (unsigned i = 0; i < bins; i++) {
            double e = small ? (double)draws * ((b / bins) + (i < rem)) / b : (double)draws / bins;
            x += (c[i] - e) * (c[i] - e) / e;
        }
        cov(k);
        // far beyond the tail for up to 47 degrees of freedom (10^-12)
        if (x > 170) viol("C13", "numbers below %lx are biased: chi-square %lu with %u bins after %lu draws", b, (u64)x, bins, draws);
    }
    // bounds that are an odd multiple p of a large power of two: what a draw that should have been rejected would add shows in the remainder by p
    for (unsigned lg = 2; lg <= 5; lg++) for (unsigned p = (1U << lg) / 2 + 1; p < 1U << lg && vf_nviol < 5; p += 2) {
        u64 b = (u64)p << (64 - lg), c[32] = {0};
        for (u64 i = 0; i < draws; i++) {
            u64 v = get_random_u64_uniform(&s, b);
            if (v >= b) { viol("C13", "get_random_u64_uniform(%lx) returned %lx", b, v); return; }
            c[v % p]++;
            n_evals++;
        }
        double x = 0, e = (double)draws / p;
        for (unsigned i = 0; i < p; i++) x += (c[i] - e) * (c[i] - e) / e;
        cov(160 + lg * 32 + p);
        if (x > 150) viol("C13", "numbers below %lx are biased: chi-square %lu with %u bins (remainders by %u) after %lu draws", b, (u64)x, p, p, draws);
    }
}

static void do_init(void *a) { static struct random_state s; (void)a; random_state_init(&s); }
static void do_reseed(void *a) { static struct random_state s; (void)a; u64 f = fail_after; fail_after = ~0UL; random_state_init(&s); fail_after = f; for (int i = 0; i < 100000; i++) get_random_u64(&s); }
static void do_partial(void *a) { disturb = true; do_reseed(a); }
static void mode_fail(void) {
    static const int errs[] = {EAGAIN, EFAULT, EINVAL, ENOSYS, EIO, EPERM, -1};
    char out[500];
    for (int m = 0; m < 3; m++) for (unsigned e = 0; e < 7; e++) for (u64 after = 0; after < 3; after++) {
        int pp[2];
        if (pipe(pp)) vf_die("pipe");
        pid_t pid = fork();
        if (!pid) {
            dup2(pp[1], 2);
            signal(SIGABRT, SIG_DFL);
            fail_errno = errs[e]; fail_after = m == 0 ? 0 : after;
            alarm(20);
            (m == 0 ? do_init : m == 1 ? do_reseed : do_partial)(NULL);
            syscall(SYS_exit_group, 77);
        }
        close(pp[1]);
        ssize_t n = read(pp[0], out, sizeof(out) - 1);
        out[n > 0 ? n : 0] = 0;
        close(pp[0]);
        int st;
        waitpid(pid, &st, 0);
        n_evals++;
        // the second seed is only needed after 256 KiB; 800000 bytes need four
        if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT || strncmp(out, "fatal allocator error: ", 23)) {
            viol("C13", "getrandom failing with %d in %s: status %x, %s", errs[e], m == 0 ? "init" : "reseeding", st, out);
            viol("C17", "getrandom failing with %d in %s: status %x, %s", errs[e], m == 0 ? "init" : "reseeding", st, out);
        }
        cov(m * 64 + e * 8 + after);
    }
}
#endif

int main(void) {
    R.s = env_u64("VF_SEED", 1) * 7919;
    given = vf_map(64 << 20);
    vf_install_segv();
    const char *m = getenv("VF_MODE");
    if (!m) m = "stream";
#ifdef VF_STUB
    mode_u16(env_u64("VF_PART", 0), env_u64("VF_PARTS", 8));
#else
    if (!strcmp(m, "stream")) mode_stream(env_u64("VF_OPS", 5));
    else if (!strcmp(m, "u64")) mode_u64(env_u64("VF_OPS", 100000));
    else mode_fail();
#endif
    vstat("evals", n_evals);
    for (unsigned i = 0; i < 64; i++) if (covbits[i]) vcov(m, i, covbits[i]);
    vf_finish();
}
