/* Native side of the harness interface: inputs come from a recorded list instead of being symbolic. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <sys/resource.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <stdbool.h>

static const uint64_t *vals;
static const uint8_t *kinds;
static size_t nvals, pos;
static uint8_t drawn[4096];
static size_t ndrawn;
static uint8_t draw(void);
static int failed, expect_panic, random_mode, assume_failed, misaligned;
static char report[1 << 16];
static size_t rl;

static void rep(const char *k, const char *p, size_t n) {
    if (rl + n + 32 < sizeof report) rl += (size_t)snprintf(report + rl, sizeof report - rl, "%s:%.*s\x1f", k, (int)n, p);
}
static uint64_t next(uint8_t kind, uint64_t dflt) {
    if (pos < nvals) {
        if (kinds[pos] != kind) misaligned = 1;
        return vals[pos++];
    }
    pos++;
    return dflt;
}
uint8_t sym_byte_range(uint8_t lo, uint8_t hi) { (void)hi; return (uint8_t)next(0, lo); }
uint8_t sym_byte_set(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    uint64_t s[4] = {a, b, c, d};
    for (int i = 0; i < 256; i++) if (s[i >> 6] >> (i & 63) & 1) return (uint8_t)next(0, (uint64_t)i);
    return 0;
}
uint64_t sym_u64(uint64_t lo, uint64_t hi) { (void)hi; return next(1, lo); }
double sym_f64(uint64_t lo, uint64_t hi, uint64_t neg) {
    (void)hi; (void)neg;
    uint64_t b = next(2, lo << 52);
    double d; memcpy(&d, &b, 8); return d;
}
uint64_t sym_choice(uint64_t n) { (void)n; return next(3, 0); }
void sym_assume(bool c) { if (!c) { assume_failed = 1; rep("ASSUME", "", 0); } }
void sym_assert(bool c, const char *p, size_t n) { if (!c) { failed = 1; rep("FAIL", p, n); } }
void sym_eq(const char *a, size_t al, const char *b, size_t bl, const char *p, size_t n) {
    if (al != bl || memcmp(a, b, al)) {
        failed = 1; rep("FAIL", p, n);
        if (getenv("SYM_SHOW")) fprintf(stderr, "--- %.*s\nleft:  %.*s\nright: %.*s\n", (int)n, p, (int)al, a, (int)bl, b);
    }
}
void sym_feq(double a, double b, const char *p, size_t n) {
    if (!(a == b)) {
        failed = 1; rep("FAIL", p, n);
        if (getenv("SYM_SHOW")) fprintf(stderr, "--- %.*s: %.17g vs %.17g\n", (int)n, p, a, b);
    }
}
void sym_cover(const char *p, size_t n) { rep("COVER", p, n); }
void sym_merge(uint64_t m) { (void)m; }
void sym_expect_panic(uint64_t on) { expect_panic = (int)on; }
void sym_random(uint64_t m) { random_mode = (int)m; }
static uint8_t draw(void) { uint8_t b = (uint8_t)next(4, 0); drawn[ndrawn++ % sizeof drawn] = b; return b; }
uint8_t sym_drawn(uint64_t k) { return drawn[(ndrawn - 1 - k) % sizeof drawn]; }
void sym_hash(uint64_t s) { (void)s; }
void sym_note(const char *p, size_t n) { if (getenv("SYM_SHOW")) fprintf(stderr, "note: %.*s\n", (int)n, p); }

/* interposed so that recorded draws can be replayed */
#include <stdarg.h>
#include <errno.h>
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == 318 && random_mode == 1) {
        uint8_t *p = (uint8_t *)a;
        for (long i = 0; i < b; i++) p[i] = draw();
        return b;
    }
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static ssize_t my_getrandom(void *a, size_t b, unsigned flags) {
    if (b && random_mode == 1) {
        uint8_t *p = (uint8_t *)a;
        for (size_t i = 0; i < b; i++) p[i] = draw();
        return (ssize_t)b;
    }
    return syscall(318, (long)a, (long)b, (long)flags);
}
/* the only symbol looked up at run time that matters here */
void *dlsym(void *h, const char *n) {
    (void)h;
    return strcmp(n, "getrandom") == 0 ? (void *)my_getrandom : 0;
}

/* run fn(arg) in a child; the child's report and exit status are returned as text */
int sym_run(void (*fn)(uint64_t), uint64_t arg, const uint8_t *k, const uint64_t *v, size_t n, char *out, size_t cap) {
    int p[2], q[2];
    if (pipe(p) || pipe(q)) return -1;
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
        close(p[0]); close(q[0]);
        /* what does not fit into the pipe is dropped: the child must not wait for its reader */
        fcntl(q[1], F_SETFL, O_NONBLOCK);
        setenv("RUST_BACKTRACE", "0", 1);
        if (!getenv("SYM_SHOW")) dup2(q[1], 2);
        alarm(10);
        /* an endless loop must not take the machine's memory */
        struct rlimit lim = {4ul << 30, 4ul << 30};
        setrlimit(RLIMIT_AS, &lim);
        kinds = k; vals = v; nvals = n; pos = 0; rl = 0;
        fn(arg);
        if (misaligned) rep("MISALIGNED", "", 0);
        if (pos != n) rep("INPUTS", "count differs", 13);
        rep("DONE", "", 0);
        size_t o = 0;
        while (o < rl) { ssize_t w = write(p[1], report + o, rl - o); if (w <= 0) break; o += (size_t)w; }
        _exit(0);
    }
    close(p[1]); close(q[1]);
    size_t l = 0;
    static char err[1 << 16];
    size_t el = 0;
    ssize_t r;
    /* stderr is small: read it after the report pipe closes */
    while ((r = read(p[0], out + l, cap - 1 - l)) > 0) l += (size_t)r;
    while ((r = read(q[0], err + el, sizeof err - 1 - el)) > 0) el += (size_t)r;
    close(p[0]); close(q[0]);
    int st;
    waitpid(c, &st, 0);
    out[l] = 0; err[el] = 0;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        for (size_t i = 0; i < el; i++) if (err[i] == '\n') err[i] = ' ';
        if (el > 600) err[600] = 0;
        snprintf(out + l, cap - l, "%s:%s\x1f", sig == 14 ? "TIMEOUT" : "PANIC", err);
    }
    return 0;
}
