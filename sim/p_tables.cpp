// C25 symbol table, C26 hash table, under allocation failures.
#include "core.h"
#include "gen.h"
#include "props.h"
extern "C" {
struct tsm_symbol_table; typedef u32 tsm_symbol_t;
int tsm_symbol_table_new(tsm_symbol_table **out);
void tsm_symbol_table_ref(tsm_symbol_table *tbl);
void tsm_symbol_table_unref(tsm_symbol_table *tbl);
tsm_symbol_t tsm_symbol_append(tsm_symbol_table *tbl, tsm_symbol_t sym, u32 ucs4);
const u32 *tsm_symbol_get(tsm_symbol_table *tbl, tsm_symbol_t *sym, size_t *size);
unsigned tsm_symbol_get_width(tsm_symbol_table *tbl, tsm_symbol_t sym);
unsigned tsm_ucs4_get_width(u32 ucs4);
#include "shl-htable.h"
}
static const u32 SYM_MAX = 0x7fffffff;
static const size_t SYM_LEN = 10; // TSM_UCS4_MAXLEN

// ---- C25 -------------------------------------------------------------------
static void gen25(Rng &r, Trace &t, int tier) {
    u64 now = 0; int n = (int)r.range(5, tier ? 2000 : r.chance(1, 6) ? 700 : 120);
    int alpha = (int)r.range(1, 8); std::vector<u32> abc;
    for (int i = 0; i < alpha; ++i) abc.push_back(r.pick(std::vector<u32>{'a', 'b', 'e', 0, 0x301, 0x302, 0x20dd, 0x4e00, 0x1f600, 0x10ffff, 0x110000, SYM_MAX, SYM_MAX - 1, (u32)r.below(0x110000), (u32)r.below(SYM_MAX)}));
    t.cfg["tables"] = r.chance(1, 3) ? 2 : 1; t.cfg["refs"] = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 6)) t.ev.push_back(ev(now, "oom", {r.range(1, 3), r.pick(std::vector<i64>{1, 1, 2, -1})}));
        switch (r.below(12)) {
        case 0: t.ev.push_back(ev(now, "audit", {(i64)r.below(2)})); break;
        case 1: t.ev.push_back(ev(now, "again", {(i64)r.below(2), (i64)r.below(1000)})); break;
        case 2: t.ev.push_back(ev(now, "invalid", {(i64)r.below(2), (i64)r.below(1000), (i64)SYM_MAX + 1 + (i64)r.below(3)})); break;
        case 3: t.ev.push_back(ev(now, "ref", {(i64)r.below(2)})); break;
        default: // base: 0 = fresh character, else an earlier symbol (mostly recent)
            t.ev.push_back(ev(now, "append", {(i64)r.below(2), r.chance(1, 5) ? -1 : (i64)r.below(1000), (i64)abc[r.below(abc.size())], (i64)abc[r.below(abc.size())], r.chance(2, 3)}));
        }
    }
    if (r.chance(1, 60)) t.ev.insert(t.ev.begin() + (i64)r.below(t.ev.size() + 1), ev(now, "many", {(i64)r.below(2), r.pick(std::vector<i64>{900, 5000, 17000, 66000}), (i64)r.below(0x5000)}));
    t.ev.push_back(ev(now, "audit", {0})); t.ev.push_back(ev(now, "audit", {1}));
}
static void exec25(const Trace &t, Ctx &c) {
    struct Tab { tsm_symbol_table *t = nullptr; std::map<std::vector<u32>, u32> of; std::map<u32, std::vector<u32>> seq; std::vector<u32> syms; std::map<u32, const u32 *> ptr; int refs = 1; };
    std::vector<Tab> v((size_t)t.get("tables", 1));
    for (auto &x : v) if (tsm_symbol_table_new(&x.t)) { c.viol("construct", "no table although memory is available"); return; }
    i64 at = 0, len = 0;
    auto str = [](const std::vector<u32> &s) { std::string r; for (u32 k : s) r += fmt("%s%x", r.empty() ? "" : "+", k); return r; };
    auto look = [&](Tab &x, u32 sym, const std::vector<u32> &want, size_t i) {
        u32 q = sym; size_t n = 12345; sim_steps = 0; sim_step_limit = 100000; const u32 *p = tsm_symbol_get(x.t, &q, &n); sim_step_limit = 0; c.check();
        std::vector<u32> got; for (size_t k = 0; k < n && k < 100; ++k) got.push_back(p[k]);
        if (got != want) { c.viol("expand", fmt("event %zu: symbol %x expands to %s (%zu characters), expected %s", i, sym, str(got).c_str(), n, str(want).c_str())); return; }
        unsigned w = tsm_symbol_get_width(x.t, sym), ww = tsm_ucs4_get_width(want[0]);
        if (w != ww) c.viol("width", fmt("event %zu: symbol %x (%s) has width %u, expected %u", i, sym, str(want).c_str(), w, ww));
        if (want.size() > 1) { auto &o = x.ptr[sym]; if (!o) o = p; else for (size_t k = 0; k < want.size(); ++k) if (o[k] != want[k]) { c.viol("moved", fmt("event %zu: the text of symbol %x handed out earlier changed", i, sym)); break; } }
    };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "oom") { at = e.arg(0); len = e.arg(1); continue; }
        Tab &x = v[(size_t)e.arg(0) % v.size()];
        if (e.op == "ref") { if (x.refs < (int)t.get("refs", 1)) { tsm_symbol_table_ref(x.t); ++x.refs; } else if (x.refs > 1) { tsm_symbol_table_unref(x.t); --x.refs; } continue; }
        if (e.op == "many") { // a long text full of different combinations
            c.probe("long_texts"); at = 0;
            for (i64 k = 0; k < e.arg(1) && !c.stop(); ++k) {
                std::vector<u32> q = {(u32)(0x100 + (e.arg(2) + k) % 0x7000), (u32)(0x300 + (e.arg(2) + k) / 0x7000)};
                sim_steps = 0; sim_step_limit = 1000000; u32 s = tsm_symbol_append(x.t, q[0], q[1]); sim_step_limit = 0; auto o = x.of.find(q);
                if (o != x.of.end()) { if (o->second != s) c.viol("unique", fmt("event %zu: %s is symbol %x, but combining it again gives %x", i, str(q).c_str(), o->second, s)); continue; }
                if (s == q[0]) c.viol("lost", fmt("event %zu: combination %zu, %s, does nothing although memory is available", i, x.syms.size(), str(q).c_str()));
                else if (s <= SYM_MAX || x.seq.count(s)) c.viol("unique", fmt("event %zu: combination %zu, %s, is represented by %x, which is another text", i, x.syms.size(), str(q).c_str(), s));
                else { x.of[q] = s; x.seq[s] = q; x.syms.push_back(s); look(x, s, q, i); }
            }
            c.check(); c.logn(x.syms.size()); continue;
        }
        if (e.op == "audit") { for (auto &s : x.seq) { look(x, s.first, s.second, i); if (c.stop()) break; } c.logn(x.seq.size()); continue; }
        u32 base; std::vector<u32> seq; u32 ch = (u32)e.arg(2);
        if (e.op == "again") { // the same text once more, character by character
            if (x.syms.empty()) continue;
            u32 want = x.syms[(size_t)e.arg(1) % x.syms.size()]; seq = x.seq[want]; u32 s = seq[0];
            u64 f0 = sim_as.fails; if (at) { sim_fail_at = at; sim_fail_len = len; at = 0; }
            for (size_t k = 1; k < seq.size(); ++k) s = tsm_symbol_append(x.t, s, seq[k]);
            sim_alloc_faults_off(); c.check();
            if (s != want && sim_as.fails == f0) c.viol("unique", fmt("event %zu: combining %s again gives %x instead of %x", i, str(seq).c_str(), s, want));
            continue;
        }
        if (e.arg(1) < 0 || x.syms.empty()) { base = (u32)e.arg(3); seq = {base}; }
        else { size_t n = x.syms.size(), k = (size_t)e.arg(1); base = e.arg(4) ? x.syms[n - 1 - k % std::min<size_t>(n, 6)] : x.syms[k % n]; seq = x.seq[base]; }
        if (base > SYM_MAX && !x.seq.count(base)) continue;
        bool fail = at; if (at) { sim_fail_at = at; sim_fail_len = len; at = 0; }
        u64 f0 = sim_as.fails;
        sim_steps = 0; sim_step_limit = 1000000; u32 s = tsm_symbol_append(x.t, base, ch); sim_step_limit = 0;
        sim_alloc_faults_off(); c.check();
        bool failed = sim_as.fails > f0; (void)fail;
        if (failed) { c.fault("allocation_failure"); c.nontrivial = true; }
        if (e.op == "invalid") { if (s != base) c.viol("invalid", fmt("event %zu: appending the invalid character %x to %x gives %x", i, ch, base, s)); continue; }
        std::vector<u32> ns = seq; ns.push_back(ch);
        if (ch > SYM_MAX || seq.size() >= SYM_LEN) { if (s != base) c.viol("limit", fmt("event %zu: appending to a symbol of maximal length gives %x instead of %x", i, s, base)); c.probe("appends_at_length_limit"); continue; }
        auto known = x.of.find(ns);
        c.logn(s);
        if (known != x.of.end()) {
            if (s != known->second && !(failed && s == base)) c.viol("unique", fmt("event %zu: %s is symbol %x, but combining it again gives %x", i, str(ns).c_str(), known->second, s));
        } else if (failed) {
            if (s == base) c.probe("failed_appends");
            else if (s <= SYM_MAX || x.seq.count(s)) c.viol("failed", fmt("event %zu: out of memory while appending to %x gives %x, which means %s", i, base, s, x.seq.count(s) ? str(x.seq[s]).c_str() : "another character"));
            else { x.of[ns] = s; x.seq[s] = ns; x.syms.push_back(s); }
        } else if (s == base) c.viol("lost", fmt("event %zu: appending %x to %x (%s) does nothing although memory is available", i, ch, base, str(seq).c_str()));
        else if (s <= SYM_MAX) c.viol("unique", fmt("event %zu: %s is represented by %x, which is a character", i, str(ns).c_str(), s));
        else if (x.seq.count(s)) c.viol("unique", fmt("event %zu: %s and %s are both symbol %x", i, str(ns).c_str(), str(x.seq[s]).c_str(), s));
        else { x.of[ns] = s; x.seq[s] = ns; x.syms.push_back(s); }
        if (c.stop()) break;
        if (x.seq.count(s)) look(x, s, x.seq[s], i);
        if (!c.stop() && !x.syms.empty()) { u32 o = x.syms[i * 7 % x.syms.size()]; look(x, o, x.seq[o], i); }
        c.state(mix64(x.syms.size(), mix64(failed, seq.size())));
    }
    if (v[0].syms.size() > 3) c.nontrivial = true;
    if (c.stop()) return;
    for (auto &x : v) { while (--x.refs) { tsm_symbol_table_unref(x.t); for (auto &s : x.seq) { look(x, s.first, s.second, t.ev.size()); break; } } tsm_symbol_table_unref(x.t); }
    if (sim_as.live_blocks) c.viol("leak", fmt("%llu blocks remain after the tables were released", (unsigned long long)sim_as.live_blocks));
    if (sim_as.bad_frees) c.viol("free", "memory that is not allocated was freed");
}

// ---- C26 -------------------------------------------------------------------
// elements are opaque pointers (any bit pattern a pointer may have); keys are looked up here
static std::map<const void *, u64> *g_keys; static int g_hash; static u64 g_qkey; static const char g_q = 0;
static u64 key_of(const void *p) { return p == &g_q ? g_qkey : (*g_keys)[p]; }
static size_t hash_key(u64 k) {
    switch (g_hash) {
    case 0: return 0;                                   // all collide
    case 1: return (size_t)k;                           // identity
    case 2: return (size_t)(k % 3);                     // few buckets
    case 3: return (size_t)(k << 40);                   // only high bits differ
    case 4: return ~(size_t)0 - (size_t)(k % 5);        // wraps at the end of the table
    case 5: return (size_t)(k / 4 * 0x10001);           // clusters
    default: return (size_t)mix64(k, 77);
    }
}
static bool f_cmp(const void *a, const void *b) { return key_of(a) == key_of(b); }
static size_t f_rehash(const void *e, void *) { return hash_key(key_of(e)); }
static std::map<const void *, int> *g_seen;
static void f_visit(void *e, void *) { ++(*g_seen)[e]; }

static void gen26(Rng &r, Trace &t, int tier) {
    u64 now = 0; t.cfg["mode"] = r.pick(std::vector<i64>{0, 0, 0, 1, 2}); t.cfg["hash"] = (i64)r.below(7);
    t.cfg["ptrs"] = (i64)r.below(6); t.cfg["keys"] = r.pick(std::vector<i64>{3, 10, 60, 1000});
    int n = (int)r.range(5, tier ? 3000 : r.chance(1, 6) ? 800 : 150); i64 K = t.cfg["keys"];
    int pi = (int)r.range(2, 8), pr = (int)r.range(1, 7);
    for (int i = 0; i < n; ++i) {
        tick(r, now); if (r.chance(1, 20)) { pi = (int)r.range(1, 8); pr = (int)r.range(1, 8); }
        int x = (int)r.below(pi + pr + 3);
        if (x < pi) { if (r.chance(1, 8)) t.ev.push_back(ev(now, "oom")); t.ev.push_back(ev(now, r.chance(1, 12) ? "dup" : "insert", {(i64)r.below(K), (i64)r.below(1 << 20)})); }
        else if (x < pi + pr) t.ev.push_back(ev(now, "remove", {r.chance(1, 2) ? (i64)r.below(K) : -1 - (i64)r.below(1000)}));
        else if (x == pi + pr) t.ev.push_back(ev(now, r.chance(1, 15) ? "clear" : r.chance(1, 3) ? "visit" : "lookup", {(i64)r.below(K)}));
        else t.ev.push_back(ev(now, "lookup", {r.chance(1, 2) ? (i64)r.below(K) : -1 - (i64)r.below(1000)}));
    }
    if (r.chance(1, 60)) { i64 N = r.pick(std::vector<i64>{1000, 5000, 30000, 66000}); t.ev.insert(t.ev.begin() + (i64)r.below(t.ev.size() + 1), ev(now, "many", {N, (i64)r.below(3)})); }
    t.ev.push_back(ev(now, "visit")); t.ev.push_back(ev(now, "clear"));
}
static void exec26(const Trace &t, Ctx &c) {
    std::map<const void *, u64> keys; std::map<const void *, int> seen; g_keys = &keys; g_seen = &seen; g_hash = (int)t.get("hash", 6);
    int mode = (int)t.get("mode"), pm = (int)t.get("ptrs");
    std::multimap<u64, const void *> m; std::vector<const void *> all; u64 serial = 0;
    std::deque<unsigned long> ul; std::deque<std::string> strs; std::deque<char *> sp; // real elements (modes 1, 2); addresses are stable
    shl_htable h; memset(&h, 0x5a, sizeof h);
    if (mode == 0) shl_htable_init(&h, f_cmp, f_rehash, nullptr); else if (mode == 1) shl_htable_init_ulong(&h); else shl_htable_init_str(&h);
    auto kstr = [&](u64 k) { return g_hash == 2 ? std::string((size_t)(k % 40), 'x') + fmt("%llu", (unsigned long long)k) : fmt("%llu", (unsigned long long)k); };
    auto kul = [&](u64 k) -> unsigned long { return g_hash == 3 ? k << 40 : g_hash == 0 ? k << 20 : k; };
    auto mk = [&](u64 k, u64 rnd) -> const void * {
        if (mode == 1) { ul.push_back(kul(k)); const void *p = &ul.back(); keys[p] = k; return p; }
        if (mode == 2) { strs.push_back(kstr(k)); sp.push_back((char *)strs.back().c_str()); const void *p = &sp.back(); keys[p] = k; return p; }
        u64 q;
        for (;;) { // address patterns
            ++serial;
            switch (pm) {
            case 0: q = 0x555500000000ull + serial * 16; break;
            case 1: q = 0x555500000000ull + serial; break;                              // unaligned
            case 2: q = (mix64(serial, rnd) & 0x7fffffffffffull) | 0x10000; break;      // everything differs
            case 3: q = (serial % 2 ? 0x7ffd00000000ull : 0x10000ull) + serial * 8; break; // stack and low heap
            case 4: q = 0x100000ull << (serial % 26); q += serial / 26 * 8; break;
            default: q = serial < 10 ? 0x600000000000ull + serial * 64 : (mix64(serial, 3) & 0x7ffffffffff8ull) | 0x10000;
            }
            if (!keys.count((void *)q) && (void *)q != &g_q) break;
        }
        keys[(void *)q] = k; return (void *)q;
    };
    auto look = [&](u64 k, const void **out, bool rm) -> bool {
        void *o = nullptr; bool r; sim_steps = 0; sim_step_limit = 200000 + 200 * all.size();
        if (mode == 0) { g_qkey = k; r = rm ? shl_htable_remove(&h, &g_q, hash_key(k), &o) : shl_htable_lookup(&h, &g_q, hash_key(k), &o); }
        else if (mode == 1) { unsigned long *u = nullptr; r = rm ? shl_htable_remove_ulong(&h, kul(k), &u) : shl_htable_lookup_ulong(&h, kul(k), &u); o = u; }
        else { char **s = nullptr; std::string q = kstr(k); size_t hv = 0; r = rm ? shl_htable_remove_str(&h, q.c_str(), &hv, &s) : shl_htable_lookup_str(&h, q.c_str(), &hv, &s); o = s; }
        sim_step_limit = 0; *out = o; return r;
    };
    auto pick_key = [&](i64 a) -> u64 { if (a >= 0 || all.empty()) return (u64)std::llabs(a); return keys[all[(size_t)(-1 - a) % all.size()]]; };
    auto audit = [&](size_t i, const char *what) {
        c.check(); std::map<const void *, int> want; for (auto &x : m) ++want[x.second];
        if (seen != want) { size_t n = 0; for (auto &x : seen) n += x.second; c.viol("visit", fmt("event %zu: %s reaches %zu elements (%zu different), the table holds %zu (%zu different)", i, what, n, seen.size(), m.size(), want.size())); }
        seen.clear();
    };
    bool oom = false;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "oom") { oom = true; continue; }
        if (e.op == "many") { // a big table; of every second element only the key is kept
            if (mode != 2 && g_hash != 1 && g_hash != 6) continue;
            c.probe("big_tables"); oom = false;
            for (i64 n = 0; n < e.arg(0) && !c.stop(); ++n) {
                u64 k = 100000 + (u64)n; const void *p = mk(k, k); int r; sim_steps = 0; sim_step_limit = 100000000;
                if (mode == 0) r = shl_htable_insert(&h, p, hash_key(k)); else if (mode == 1) r = shl_htable_insert_ulong(&h, (unsigned long *)p); else { size_t hv = 0; r = shl_htable_insert_str(&h, (char **)p, &hv); }
                sim_step_limit = 0; if (r) c.viol("insert", fmt("event %zu: insertion %lld failed with %d although memory is available", i, (long long)n, r)); else m.insert({k, p});
            }
            for (i64 n = 0; n < e.arg(0) && !c.stop(); ++n) if (e.arg(1) && (n % 3 == 0 || e.arg(1) == 2)) {
                u64 k = 100000 + (u64)n; const void *o; if (!look(k, &o, true)) { c.viol("remove", fmt("event %zu: key %llu of %zu cannot be removed", i, (unsigned long long)k, m.size())); break; }
                auto q = m.find(k); if (q->second != o) { c.viol("remove", fmt("event %zu: removal of key %llu returns another element", i, (unsigned long long)k)); break; } m.erase(q);
            }
            for (auto &x : m) { const void *o; if (c.stop()) break; if (x.first >= 100000 && !look(x.first, &o, false)) c.viol("lookup", fmt("event %zu: key %llu is lost among %zu", i, (unsigned long long)x.first, m.size())); }
            all.clear(); for (auto &x : m) all.push_back(x.second); c.check(); c.logn(m.size()); continue;
        }
        if (e.op == "insert" || e.op == "dup") {
            u64 k = pick_key(e.arg(0)); const void *p = e.op == "dup" && !all.empty() ? all[(size_t)e.arg(1) % all.size()] : mk(k, (u64)e.arg(1)); k = keys[p];
            u64 f0 = sim_as.fails; if (oom) { sim_fail_at = 1; sim_fail_len = -1; } oom = false; int r;
            sim_steps = 0; sim_step_limit = 300000 + 400 * (all.size() + 1) * (g_hash == 6 || mode == 1 ? 4 : 4 + all.size() / 4);
            if (mode == 0) r = shl_htable_insert(&h, p, hash_key(k)); else if (mode == 1) r = shl_htable_insert_ulong(&h, (unsigned long *)p); else { size_t hv = 0; r = shl_htable_insert_str(&h, (char **)p, &hv); }
            sim_step_limit = 0; sim_alloc_faults_off(); c.check();
            bool failed = sim_as.fails > f0; if (failed) { c.fault("allocation_failure"); c.nontrivial = true; }
            if (r == 0) { m.insert({k, p}); all.push_back(p); }
            else { c.probe("failed_insertions"); if (!failed) { c.viol("insert", fmt("event %zu: insertion failed with %d although memory is available", i, r)); break; } }
        } else if (e.op == "lookup" || e.op == "remove") {
            u64 k = pick_key(e.arg(0)); const void *o; bool rm = e.op == "remove", r = look(k, &o, rm); c.check();
            auto q = m.equal_range(k); bool have = q.first != q.second;
            if (r != have) { c.viol(rm ? "remove" : "lookup", fmt("event %zu: %s of key %llu %s, but the table %s it (%zu elements)", i, e.op.c_str(), (unsigned long long)k, r ? "succeeds" : "fails", have ? "contains" : "does not contain", m.size())); break; }
            if (r) {
                auto it = q.first; while (it != q.second && it->second != o) ++it;
                if (it == q.second) { c.viol(rm ? "remove" : "lookup", fmt("event %zu: %s of key %llu returns an element that is not in the table under that key", i, e.op.c_str(), (unsigned long long)k)); break; }
                if (rm) { m.erase(it); all.erase(std::find(all.begin(), all.end(), o)); c.probe("removals"); }
                c.logn(keys[o]);
            }
        } else if (e.op == "visit") { sim_steps = 0; sim_step_limit = 500000 + 500 * (u64)t.ev.size() + 500 * all.size(); if (mode == 0) shl_htable_visit(&h, f_visit, nullptr); else if (mode == 1) shl_htable_visit_ulong(&h, (void (*)(unsigned long *, void *))f_visit, nullptr); else shl_htable_visit_str(&h, (void (*)(char **, void *))f_visit, nullptr); sim_step_limit = 0; audit(i, "a traversal"); }
        else if (e.op == "clear") {
            shl_htable_clear(&h, f_visit, nullptr); audit(i, "clearing"); m.clear(); all.clear(); c.probe("clears"); if (sim_as.live_blocks) c.viol("leak", fmt("event %zu: clearing leaves %llu blocks", i, (unsigned long long)sim_as.live_blocks));
        }
        if (m.size() > 8) c.nontrivial = true;
        c.logn(m.size()); c.state(mix64(mix64(m.size(), h.htable.deleted), mix64(g_hash, pm) + h.htable.bits));
    }
    // everything still found
    if (!c.stop()) for (auto &x : m) { const void *o; if (!look(x.first, &o, false)) { c.viol("lookup", fmt("key %llu is lost", (unsigned long long)x.first)); break; } }
    if (!c.stop()) { shl_htable_clear(&h, nullptr, nullptr); if (sim_as.live_blocks) c.viol("leak", "memory left after clearing"); }
}

void props_tables(std::vector<Prop> &v) {
    v.push_back({"C25", gen25, exec25});
    v.push_back({"C26", gen26, exec26});
}
