// C36 byte queue (shl-ring) and growable array (shl-array), under allocation failures.
#include "core.h"
#include "gen.h"
#include "props.h"
extern "C" {
#include "shl-ring.h"
int arr_new(void **out, size_t es, size_t n); void arr_free(void *a); int arr_zresize(void *a, size_t n); int arr_push(void *a, const void *d);
void arr_pop(void *a); void *arr_get(void *a); size_t arr_len(void *a); size_t arr_bsize(void *a); size_t arr_es(void *a);
}

static void gen36(Rng &r, Trace &t, int tier) {
    u64 now = 0; bool arr = r.chance(1, 2); t.cfg["array"] = arr;
    int n = (int)r.range(5, tier ? 1500 : r.chance(1, 6) ? 400 : 80);
    if (arr) {
        t.cfg["es"] = r.pick(std::vector<i64>{1, 2, 3, 4, 8, 12, 24, 100, 4096}); t.cfg["init"] = r.pick(std::vector<i64>{0, 1, 2, 3, 4, 5, 7, 64});
        int pp = (int)r.range(1, 8), pq = (int)r.range(0, 6);
        for (int i = 0; i < n; ++i) {
            tick(r, now); if (r.chance(1, 8)) t.ev.push_back(ev(now, "oom", {1, r.pick(std::vector<i64>{1, 1, -1})}));
            if (r.chance(1, 30)) { pp = (int)r.range(1, 8); pq = (int)r.range(0, 8); }
            int x = (int)r.below(pp + pq + 2);
            if (x < pp) t.ev.push_back(ev(now, "push", {(i64)r.below(1 << 20)}));
            else if (x < pp + pq) t.ev.push_back(ev(now, "pop"));
            else if (x == pp + pq) t.ev.push_back(ev(now, "zresize", {r.chance(1, 3) ? -1 - (i64)r.below(4) : r.chance(1, 2) ? (i64)r.below(20) : r.pick(std::vector<i64>{0, 1, 4, 5, 8, 9, 16, 17, 31, 33, 64, 127, 300, 300, 1000})}));
            else if (r.chance(1, 4)) t.ev.push_back(ev(now, "zhuge", {(i64)r.below(8), (i64)r.below(2)}));
            else t.ev.push_back(ev(now, r.chance(1, 4) ? "null" : "audit"));
        }
    } else {
        i64 big = r.pick(std::vector<i64>{10, 300, 4096, 5000, 20000});
        auto sz = [&]() -> i64 { switch (r.below(8)) { case 0: return 0; case 1: return (i64)1 << r.below(14); case 2: return ((i64)1 << r.below(14)) + r.range(-1, 1); case 3: return r.pick(std::vector<i64>{4095, 4096, 4097, 8191, 8192, 8193}); default: return r.range(1, big); } };
        for (int i = 0; i < n; ++i) {
            tick(r, now); if (r.chance(1, 8)) t.ev.push_back(ev(now, "oom", {1, 1}));
            switch (r.below(16)) {
            case 0: t.ev.push_back(ev(now, "copy", {r.chance(1, 2) ? -1 - (i64)r.below(3) : sz()})); break;
            case 1: t.ev.push_back(ev(now, "peek")); break;
            case 2: t.ev.push_back(ev(now, r.chance(1, 8) ? r.chance(1, 2) ? "flush" : "clear" : "peek0")); break;
            case 3: t.ev.push_back(ev(now, r.chance(1, 6) ? "huge" : "fill", {(i64)r.below(6), r.range(-1, 1)})); break;
            case 4: case 5: case 6: case 7: case 8: t.ev.push_back(ev(now, "pull", {r.chance(1, 5) ? -1 - (i64)r.below(3) : sz()})); break;
            default: t.ev.push_back(ev(now, "push", {sz()}));
            }
        }
    }
    if (r.chance(1, 40)) t.ev.insert(t.ev.begin() + (i64)r.below(t.ev.size() + 1), ev(now, "many", {r.pick(std::vector<i64>{1000, 5000, 33000, 66000, 140000}), (i64)r.below(2)}));
    t.ev.push_back(ev(now, "audit"));
}
static void exec_ring(const Trace &t, Ctx &c) {
    shl_ring g; memset(&g, 0, sizeof g); std::string q; u64 seq = 1; i64 at = 0, len = 0; size_t pos = 0; (void)pos;
    auto data = [&](size_t n) { std::string s(n, 0); for (auto &x : s) x = (char)mix64(seq++, 5); return s; };
    auto peek = [&](size_t i, const char *what) {
        struct iovec v[2] = {{nullptr, 0}, {nullptr, 0}}; size_t n = shl_ring_peek(&g, v); c.check();
        if (n != shl_ring_peek(&g, nullptr)) { c.viol("peek", fmt("event %zu (%s): peeking without pointers gives a different count", i, what)); return; }
        if (n > 2 || (n == 0) != q.empty()) { c.viol("peek", fmt("event %zu (%s): %zu pieces for a queue of %zu bytes", i, what, n, q.size())); return; }
        std::string s; for (size_t k = 0; k < n; ++k) { if (!v[k].iov_len || v[k].iov_len > q.size()) { c.viol("peek", fmt("event %zu (%s): a piece of %zu bytes for a queue of %zu bytes", i, what, v[k].iov_len, q.size())); return; } s.append((char *)v[k].iov_base, v[k].iov_len); }
        if (s != q) { size_t k = 0; while (k < s.size() && k < q.size() && s[k] == q[k]) ++k; c.viol("content", fmt("event %zu (%s): the queue of %zu bytes shows %zu bytes, different from byte %zu on", i, what, q.size(), s.size(), k)); }
        if (n == 2) { c.probe("wrapped"); c.nontrivial = true; }
    };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i; u64 f0 = sim_as.fails;
        if (e.op == "oom") { at = e.arg(0); len = e.arg(1); continue; }
        if (e.op == "push" || e.op == "fill") {
            // fill: to just below, exactly at, or just beyond a power of two
            size_t n = (size_t)e.arg(0); if (e.op == "fill") { size_t p = (size_t)4096 << (e.arg(0) % 4); i64 m = (i64)p + e.arg(1) - (i64)q.size(); n = m > 0 ? (size_t)m : 0; }
            std::string s = data(n); std::vector<char> exact(s.begin(), s.end());
            if (at) { sim_fail_at = at; sim_fail_len = len; at = 0; }
            sim_steps = 0; sim_step_limit = 100000; int r = shl_ring_push(&g, exact.data(), n); sim_step_limit = 0; sim_alloc_faults_off();
            bool failed = sim_as.fails > f0; if (failed) { c.fault("allocation_failure"); c.nontrivial = true; }
            if (r == 0) q += s; else { c.probe("failed_pushes"); if (!failed) c.viol("push", fmt("event %zu: pushing %zu bytes failed with %d although memory is available", i, n, r)); else if (r > 0) c.viol("push", fmt("event %zu: a failed push returned %d", i, r)); }
        } else if (e.op == "many") { // a reader that lags far behind, then catches up (or not)
            i64 left = e.arg(0); at = 0; c.probe("long_queues");
            while (left > 0 && !c.stop()) { std::string s = data((size_t)std::min<i64>(left, 3000)); left -= (i64)s.size(); if (shl_ring_push(&g, s.data(), s.size())) c.viol("push", fmt("event %zu: pushing to a queue of %zu bytes failed", i, q.size())); q += s; }
            if (e.arg(1)) while (q.size() > 100 && !c.stop()) { char b[5000]; size_t m = shl_ring_copy(&g, b, sizeof b); if (m != std::min(sizeof b, q.size()) || q.compare(0, m, b, m)) c.viol("copy", fmt("event %zu: the first bytes of a queue of %zu bytes are wrong", i, q.size())); shl_ring_pull(&g, m); q.erase(0, m); }
        } else if (e.op == "huge") { // more than any memory holds: must be refused before the data is touched
            static const size_t hs[] = {(size_t)1 << 40, (size_t)1 << 62, ((size_t)1 << 63) - 1, (size_t)1 << 63, ((size_t)1 << 63) + 1, ~(size_t)0};
            size_t n = hs[(size_t)e.arg(0) % 6] - (e.arg(1) > 0 ? q.size() : 0); char b[1] = {0};
            sim_mem_limit = 64 << 20; int r = shl_ring_push(&g, b, n); sim_mem_limit = 0; c.probe("huge_pushes");
            if (r >= 0) c.viol("push", fmt("event %zu: pushing %zu bytes succeeded", i, n));
        } else if (e.op == "pull") {
            size_t n = e.arg(0) < 0 ? e.arg(0) == -1 ? q.size() : e.arg(0) == -2 ? ~(size_t)0 : q.size() + 1 : (size_t)e.arg(0);
            sim_steps = 0; sim_step_limit = 100000; shl_ring_pull(&g, n); sim_step_limit = 0; q.erase(0, std::min(n, q.size()));
        } else if (e.op == "copy") {
            size_t n = e.arg(0) < 0 ? e.arg(0) == -1 ? q.size() : e.arg(0) == -2 ? q.size() + 7 : q.size() / 2 : (size_t)e.arg(0);
            std::vector<char> b(std::max<size_t>(1, n)); size_t m = shl_ring_copy(&g, b.data(), n); c.check();
            if (m != std::min(n, q.size()) || q.compare(0, m, std::string(b.data(), m))) c.viol("copy", fmt("event %zu: copying at most %zu of %zu bytes gives %zu bytes%s", i, n, q.size(), m, m == std::min(n, q.size()) ? " with other contents" : ""));
        } else if (e.op == "flush") { shl_ring_flush(&g); q.clear(); }
        else if (e.op == "clear") { shl_ring_clear(&g); q.clear(); if (sim_as.live_blocks) c.viol("leak", fmt("event %zu: clearing leaves %llu blocks", i, (unsigned long long)sim_as.live_blocks)); }
        c.check();
        if (!c.stop() && shl_ring_get_size(&g) != q.size()) c.viol("size", fmt("event %zu (%s): the queue reports %zu bytes, it holds %zu", i, e.op.c_str(), shl_ring_get_size(&g), q.size()));
        if (!c.stop()) peek(i, e.op.c_str());
        c.logn(q.size()); c.state(mix64(g.size, mix64(g.start >> 6, g.used >> 6)));
    }
    if (c.stop()) return;
    shl_ring_clear(&g);
    if (sim_as.live_blocks) c.viol("leak", "memory left after clearing the queue");
}
static void exec_array(const Trace &t, Ctx &c) {
    size_t es = (size_t)t.get("es", 4); std::vector<std::string> m; void *a = nullptr; i64 at = 0, len = 0; size_t maxlen = 0;
    if (arr_new(&a, es, (size_t)t.get("init")) || !a) { c.viol("construct", "no array although memory is available"); return; }
    auto audit = [&](size_t i, const char *what) {
        c.check();
        if (arr_len(a) != m.size() || arr_bsize(a) != m.size() * es || arr_es(a) != es) { c.viol("length", fmt("event %zu (%s): length %zu, %zu bytes, element size %zu; expected length %zu of size %zu", i, what, arr_len(a), arr_bsize(a), arr_es(a), m.size(), es)); return; }
        const char *p = (const char *)arr_get(a);
        for (size_t k = 0; k < m.size(); ++k) if (memcmp(p + k * es, m[k].data(), es)) { c.viol("content", fmt("event %zu (%s): element %zu of %zu is not what was stored", i, what, k, m.size())); return; }
    };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i; u64 f0 = sim_as.fails; int r = 0;
        if (e.op == "oom") { at = e.arg(0); len = e.arg(1); continue; }
        if (e.op == "null") { // without an array nothing happens
            char b[4096]; memset(b, 1, sizeof b); arr_pop(nullptr); arr_free(nullptr);
            void *o = &o, *o0 = o; if (arr_push(nullptr, b) >= 0 || arr_push(a, nullptr) >= 0 || arr_zresize(nullptr, 3) >= 0 || arr_get(nullptr) || arr_len(nullptr) || arr_bsize(nullptr) || arr_es(nullptr) || arr_new(&o, 0, 3) >= 0 || arr_new(nullptr, 3, 3) >= 0 || o != o0) c.viol("null", fmt("event %zu: a call without array, data or element size did something", i));
        } else if (e.op == "push" || e.op == "zresize") {
            std::string s(es, 0); size_t n = 0;
            if (e.op == "push") for (size_t k = 0; k < es; ++k) s[k] = (char)mix64((u64)e.arg(0), k);
            else n = e.arg(0) < 0 ? (size_t)std::max<i64>(0, (i64)m.size() + (e.arg(0) + 3)) : (size_t)e.arg(0);
            std::vector<char> exact(s.begin(), s.end());
            if (at) { sim_fail_at = at; sim_fail_len = len; at = 0; }
            sim_steps = 0; sim_step_limit = 100000; r = e.op == "push" ? arr_push(a, exact.data()) : arr_zresize(a, n); sim_step_limit = 0; sim_alloc_faults_off();
            bool failed = sim_as.fails > f0; if (failed) { c.fault("allocation_failure"); c.nontrivial = true; }
            if (r == 0) { if (e.op == "push") m.push_back(s); else m.resize(n, std::string(es, 0)); }
            else { c.probe("failed_growth"); if (!failed) c.viol("grow", fmt("event %zu: %s failed with %d although memory is available", i, e.op.c_str(), r)); else if (r > 0) c.viol("grow", fmt("event %zu: a failed call returned %d", i, r)); }
        } else if (e.op == "zhuge") { // more than any memory holds: must be refused and change nothing
            const size_t hs[] = {(size_t)1 << 61, (size_t)1 << 62, ((size_t)1 << 63) - 1, (size_t)1 << 63, ((size_t)1 << 63) + 1, ~(size_t)0, ~(size_t)0 / es + 1, (size_t)1 << 60};
            size_t n = hs[(size_t)e.arg(0) % 8]; void *o = &o, *o0 = o; sim_mem_limit = 64 << 20; c.probe("huge_arrays");
            if (n > m.size() && (e.arg(1) ? arr_new(&o, es, n) : arr_zresize(a, n)) >= 0) c.viol("grow", fmt("event %zu: %s %zu elements of %zu bytes succeeded", i, e.arg(1) ? "an array for" : "resizing to", n, es));
            sim_mem_limit = 0; if (!c.stop() && o != o0) c.viol("construct", fmt("event %zu: a failed construction returns an array", i));
        } else if (e.op == "many") { // grows far, one element after the other
            at = 0; c.probe("long_arrays"); size_t n = (size_t)e.arg(0) / (1 + es / 24);
            for (size_t k = 0; k < n && !c.stop(); ++k) { std::string s(es, (char)(k * 31)); for (size_t b = 0; b < es && b < 4; ++b) s[b] = (char)(k >> 8 * b); if (arr_push(a, s.data())) c.viol("grow", fmt("event %zu: the array cannot grow beyond %zu elements", i, m.size())); m.push_back(s); }
            if (e.arg(1) && !c.stop()) { audit(i, "many"); while (m.size() > 50) { arr_pop(a); m.pop_back(); } }
        } else if (e.op == "pop") { arr_pop(a); if (!m.empty()) m.pop_back(); }
        maxlen = std::max(maxlen, m.size());
        if (!c.stop()) audit(i, e.op.c_str());
        c.logn(m.size()); c.state(mix64(m.size(), mix64(es, maxlen)));
    }
    if (maxlen > 8) c.nontrivial = true;
    if (c.stop()) return;
    arr_free(a);
    if (sim_as.live_blocks) c.viol("leak", fmt("%llu blocks left after the array was freed", (unsigned long long)sim_as.live_blocks));
}
static void exec36(const Trace &t, Ctx &c) { if (t.get("array")) exec_array(t, c); else exec_ring(t, c); if (!c.stop() && sim_as.bad_frees) c.viol("free", "memory that is not allocated was freed"); }
void props_util(std::vector<Prop> &v) { v.push_back({"C36", gen36, exec36}); }
