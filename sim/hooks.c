#include <stdarg.h>
/* Seams for the code under test: allocator and basic-block step counter.
 * The SUT objects' malloc/calloc/realloc/free/strdup references are redirected
 * here with objcopy. Memory is handed out filled with a fixed pattern, so code
 * that depends on uninitialised memory misbehaves deterministically. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>

typedef struct sim_alloc_stats {
    uint64_t calls, fails, live_blocks, live_bytes, bad_frees, peak_bytes;
} sim_alloc_stats;
sim_alloc_stats sim_as;
long sim_fail_at = 0, sim_fail_len = 0;
int sim_in_sut = 0;
uint64_t sim_steps = 0, sim_step_limit = 0;
uint8_t sim_cov[1 << 16];

/* open-addressing table of live SUT blocks */
static struct ent { void *p; size_t n; } *tab;
static size_t cap, used;

static size_t slot_of(void *p) {
    uint64_t x = (uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ull;
    return (size_t)(x >> 20) & (cap - 1);
}
static void grow(void);
static void put(void *p, size_t n) {
    if (!cap || used * 2 >= cap) grow();
    size_t i = slot_of(p);
    while (tab[i].p && tab[i].p != (void *)-1) i = (i + 1) & (cap - 1);
    if (!tab[i].p) ++used;
    tab[i].p = p; tab[i].n = n;
}
static void grow(void) {
    struct ent *o = tab; size_t oc = cap, live = 0, i;
    for (i = 0; i < oc; ++i) if (o[i].p && o[i].p != (void *)-1) ++live;
    cap = 1024; while (cap < live * 4) cap *= 2;
    tab = calloc(cap, sizeof *tab); used = 0;
    for (i = 0; i < oc; ++i) if (o[i].p && o[i].p != (void *)-1) put(o[i].p, o[i].n);
    free(o);
}
static struct ent *find(void *p) {
    if (!cap) return NULL;
    size_t i = slot_of(p);
    while (tab[i].p) { if (tab[i].p == p) return &tab[i]; i = (i + 1) & (cap - 1); }
    return NULL;
}
uint64_t sim_mem_limit = 0; /* simulated size of memory; 0 = no limit */
static int fail_now(size_t n) {
    ++sim_as.calls;
    if (sim_mem_limit && (n > sim_mem_limit || sim_as.live_bytes + n > sim_mem_limit)) { ++sim_as.fails; return 1; }
    if (sim_fail_at > 0) {
        if (sim_fail_at > 1) { --sim_fail_at; return 0; }
        if (sim_fail_len > 0) { if (--sim_fail_len == 0) sim_fail_at = 0; }
        ++sim_as.fails;
        return 1;
    }
    return 0;
}
static void track(void *p, size_t n) {
    put(p, n);
    sim_as.live_blocks++; sim_as.live_bytes += n;
    if (sim_as.live_bytes > sim_as.peak_bytes) sim_as.peak_bytes = sim_as.live_bytes;
}
void *sim_malloc(size_t n) {
    if (fail_now(n)) { errno = ENOMEM; return NULL; }
    void *p = malloc(n ? n : 1);
    memset(p, 0xA5, n);
    track(p, n);
    return p;
}
void *sim_calloc(size_t a, size_t b) {
    size_t t;
    if (__builtin_mul_overflow(a, b, &t) || fail_now(t)) { errno = ENOMEM; return NULL; }
    void *p = calloc(a ? a : 1, b ? b : 1);
    if (!p) return NULL;
    track(p, a * b);
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    struct ent *e = find(p);
    if (!e) {
        /* Not a live SUT block: double free or foreign pointer. ASan's free()
         * reports and aborts on a real double free. */
        ++sim_as.bad_frees;
        free(p);
        return;
    }
    sim_as.live_blocks--; sim_as.live_bytes -= e->n;
    e->p = (void *)-1;
    free(p);
}
void *sim_realloc(void *o, size_t n) {
    if (!o) return sim_malloc(n);
    if (fail_now(n)) { errno = ENOMEM; return NULL; }
    struct ent *e = find(o);
    size_t on = e ? e->n : 0;
    void *p = malloc(n ? n : 1);           /* always moves: stale pointers show */
    memset(p, 0xA5, n);
    if (e) memcpy(p, o, on < n ? on : n);
    sim_free(o);
    track(p, n);
    return p;
}
char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char *sim_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *p = sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
void *sim_reallocarray(void *o, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return sim_realloc(o, n);
}
int sim_vasprintf(char **out, const char *f, va_list a) {
    va_list b; va_copy(b, a);
    int n = vsnprintf(NULL, 0, f, b);
    va_end(b);
    if (n < 0 || !(*out = sim_malloc((size_t)n + 1))) return -1;
    return vsnprintf(*out, (size_t)n + 1, f, a);
}
int sim_asprintf(char **out, const char *f, ...) {
    va_list a; va_start(a, f);
    int r = sim_vasprintf(out, f, a);
    va_end(a);
    return r;
}
void *sim_aligned_alloc(size_t al, size_t n) {
    if (fail_now(n)) { errno = ENOMEM; return NULL; }
    void *p = aligned_alloc(al, n);
    if (p) track(p, n);
    return p;
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
    void *p = NULL;
    if (fail_now(n)) return ENOMEM;
    int r = posix_memalign(&p, al, n);
    if (!r) track(p, n), *out = p;
    return r;
}
void sim_free_tracked(void *p) { sim_free(p); }
void sim_alloc_reset(void) {
    memset(&sim_as, 0, sizeof sim_as);
    sim_fail_at = 0; sim_fail_len = 0; sim_mem_limit = 0;
    if (tab) memset(tab, 0, cap * sizeof *tab);
    used = 0;
}
void sim_alloc_faults_off(void) { sim_fail_at = 0; sim_fail_len = 0; }

/* gcc -fsanitize-coverage=trace-pc: called on every basic block of the SUT */
__attribute__((no_sanitize_address))
void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    ++sim_steps;
    sim_cov[(pc * 2654435761u >> 12) & 0xffff] = 1;
    if (sim_step_limit && sim_steps > sim_step_limit) {
        static const char m[] = "SIM-HANG: step budget of one call exceeded\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(77);
    }
}
