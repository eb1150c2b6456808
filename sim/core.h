// Deterministic simulation core: PRNG, events, traces, run context.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <functional>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    // weighted choice; returns index
    size_t weighted(const std::vector<unsigned> &w) {
        u64 t = 0; for (unsigned x : w) t += x;
        u64 r = below(t);
        for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
        return w.size() - 1;
    }
};

static inline u64 fnv(u64 h, const void *p, size_t n) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h;
}
static inline u64 mix64(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull)); return r.next(); }

// One simulated event.  `t` is simulated time in microseconds, `op` names the
// actor's action, `a` are numeric arguments and `b` is a byte payload.
struct Ev {
    u64 t = 0;
    std::string op;
    std::vector<i64> a;
    std::string b;
    i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Trace {
    std::string prop;
    u64 seed = 0;
    std::map<std::string, i64> cfg;
    std::vector<Ev> ev;
    i64 get(const char *k, i64 d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};

std::string trace_dump(const Trace &t);
bool trace_load(const std::string &path, Trace &t);
std::string hexs(const std::string &s);
std::string show(const std::string &s); // printable form for messages

struct Stats {
    std::map<std::string, u64> c;      // counters (probes, fault kinds, ...)
    std::unordered_set<u64> states;    // distinct abstract states
    std::unordered_set<u64> scheds;    // distinct interleavings (actor order hashes)
    std::unordered_set<u64> cases;     // distinct non-trivial runs (hash of the whole trace)
    u64 sim_us = 0, events = 0, runs = 0, nontrivial = 0, checks = 0;
};

// Context of one run.
struct Ctx {
    const Trace *tr = nullptr;
    Stats *st = nullptr;
    u64 h = 0xcbf29ce484222325ull; // hash over every observation of the run
    bool violated = false, foreign = false, verbose = false;
    bool nontrivial = false;
    std::string cls, msg;
    size_t at = 0;

    void log(const std::string &s) {
        h = fnv(h, s.data(), s.size()); h = fnv(h, "\n", 1);
        if (verbose) printf("%s\n", s.c_str());
    }
    void logn(u64 v) { h = fnv(h, &v, sizeof v); }
    void count(const std::string &k, u64 n = 1) { if (st) st->c[k] += n; }
    void fault(const std::string &k, u64 n = 1) { if (st) st->c["fault:" + k] += n; }
    void probe(const std::string &k, u64 n = 1) { if (st) st->c["probe:" + k] += n; }
    void state(u64 v) { if (st && st->states.size() < 400000) st->states.insert(v); }
    void check() { if (st) st->checks++; }
    // report a violation of this property
    void viol(const std::string &c, const std::string &m) {
        if (violated || foreign) return;
        violated = true; cls = c; msg = m;
        log("VIOLATION " + c + ": " + m);
    }
    // divergence that is not this property's business: stop comparing
    void alien(const std::string &c, const std::string &m) {
        if (violated || foreign) return;
        foreign = true; cls = c; msg = m;
        log("FOREIGN " + c + ": " + m);
        count("foreign_divergence:" + c);
    }
    bool stop() const { return violated || foreign; }
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Prop {
    const char *id;
    void (*gen)(Rng &, Trace &, int tier); // tier 0 quick, 1 thorough
    void (*exec)(const Trace &, Ctx &);
};
extern const std::vector<Prop> &props();

// ---- hooks.c: allocator and step-counter seams ---------------------------
extern "C" {
typedef struct sim_alloc_stats {
    u64 calls, fails, live_blocks, live_bytes, bad_frees, peak_bytes;
} sim_alloc_stats;
extern sim_alloc_stats sim_as;
extern long sim_fail_at;     // fail the n-th following allocation (1-based), 0 = off
extern long sim_fail_len;    // how many consecutive allocations fail (-1 = all)
void sim_alloc_reset(void);  // forget live blocks (start of a run)
void sim_alloc_faults_off(void);
extern u64 sim_mem_limit;
extern u64 sim_steps;        // basic blocks executed by the code under test
extern u64 sim_step_limit;   // abort ("HANG") when exceeded
extern u8 sim_cov[1 << 16];  // coverage bitmap over the code under test
void sim_free_tracked(void *p); // free() for memory handed out by the SUT
}
