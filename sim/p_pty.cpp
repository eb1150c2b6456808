// shl_pty on the simulated kernel: C22 transport, C23 progress, C24 open/close.
#include "kernel.h"
#include "gen.h"
#include "props.h"
extern "C" {
#define _Static_assert static_assert
#include "shl-pty.h"
}
using namespace kern;

static u8 pat(u64 salt, u64 i) { u64 z = (salt + i / 8) * 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 32; return (u8)(z >> (8 * (i % 8))); }

// the application's open, with the child branch ending in the simulated kernel
static int k_open(shl_pty **out, shl_pty_input_fn fn, void *d, unsigned w, unsigned h) {
    sim_steps = 0; sim_step_limit = 10000000;
    int r = shl_pty_open(out, fn, d, (unsigned short)w, (unsigned short)h);
    if (in_child()) { Proc &p = k->p[k->cur]; if (r == 0) child_back(); p.exited = true; p.exit_code = 100; kill_proc(k->cur); _exit(0); }
    sim_step_limit = 0;
    return r;
}

struct World {
    struct P {
        World *w; int id; shl_pty *pty = nullptr; int proc = -1, idx = -1; bool open = false, alive = false, shut = false, added = false, needflush = false;
        u64 want = 0, sent = 0, got = 0;        // client -> terminal: wanted, accepted by the kernel, seen by the callback
        u64 queued = 0, cgot = 0;               // terminal -> client: accepted for writing, read by the client
        i64 reply = 0; int kill = -1; bool gone = false;
    };
    std::vector<P> v; int bridge = -1; bool delay = false, direct = false; std::string bad; u64 rounds = 0; Ctx *c;
    u64 ssalt(const P &p) { return p.id * 2 * 1000003ull + 17; }
    u64 rsalt(const P &p) { return (p.id * 2 + 1) * 1000003ull + 99; }
    static void cb(shl_pty *pty, void *d, char *u8_, size_t n) {
        P *p = (P *)d; World *w = p->w;
        if (!p->pty || pty != p->pty) { w->bad = fmt("terminal %d: callback with a wrong handle", p->id); return; }
        for (size_t i = 0; i < n; ++i) if ((u8)u8_[i] != pat(w->ssalt(*p), p->got + i) || p->got + i >= p->sent) {
            if (w->bad.empty()) w->bad = fmt("terminal %d: byte %llu handed to the application is not the client's byte (client wrote %llu)", p->id, (unsigned long long)(p->got + i), (unsigned long long)p->sent);
            return;
        }
        p->got += n;
        if (p->reply > 0) { i64 m = p->reply; p->reply = 0; w->queue(*p, m); p->needflush = true; }
        if (p->kill >= 0) { int q = p->kill; p->kill = -1; if (q < (int)w->v.size()) { if (q == p->id) { w->c->probe("terminals_closed_by_their_own_callback"); } w->app_close(w->v[q]); } }
    }
    int queue(P &p, i64 n) {
        std::vector<u8> b(n); for (i64 i = 0; i < n; ++i) b[i] = pat(rsalt(p), p.queued + i);
        int r = shl_pty_write(p.pty, (const char *)b.data(), n);
        if (r == 0) p.queued += n;
        return r;
    }
    void app_close(P &p) {
        if (!p.pty) return;
        if (!direct) shl_pty_bridge_remove(bridge, p.pty);
        shl_pty_close(p.pty); shl_pty_unref(p.pty); p.pty = nullptr; p.open = false; p.gone = true;
    }
    bool client_write_(P &p) { // as much as the kernel takes
        if (!p.alive) return false;
        bool any = false;
        while (p.sent < p.want) {
            u8 b[4096]; u32 n = (u32)std::min<u64>(sizeof b, p.want - p.sent); for (u32 i = 0; i < n; ++i) b[i] = pat(ssalt(p), p.sent + i);
            u32 m = kern::client_write(p.proc, 1, b, n); p.sent += m; if (m) any = true; if (m < n) break;
        }
        if (!delay && any) deliver(p.idx, 1 << 30);
        return any;
    }
    bool client_read_(P &p, u64 max) {
        if (!p.alive) return false;
        bool any = false;
        while (max) {
            u8 b[4096]; u32 m = kern::client_read(p.proc, 0, b, (u32)std::min<u64>(sizeof b, max)); if (!m) break;
            for (u32 i = 0; i < m; ++i) if (b[i] != pat(rsalt(p), p.cgot + i) || p.cgot + i >= p.queued) { if (bad.empty()) bad = fmt("terminal %d: byte %llu read by the client is not the byte queued (%llu queued)", p.id, (unsigned long long)(p.cgot + i), (unsigned long long)p.queued); return any; }
            p.cgot += m; max -= m; any = true;
        }
        return any;
    }
    void client_exit(P &p) { if (!p.alive) return; p.alive = false; kill_proc(p.proc); }
    void hup(P &p) { if (!p.alive || p.shut) return; client_write_(p); client_hup(p.proc); p.shut = true; }
    void reopen(P &p) { if (!p.alive || !p.shut || !client_reopen(p.proc, p.idx)) return; p.shut = false; c->probe("clients_came_back"); }
    void lib(const std::function<void()> &f) { sim_steps = 0; sim_step_limit = 50000000; f(); sim_step_limit = 0; disarm(); sim_alloc_faults_off(); }
    void flush(P &p) {
        p.needflush = false; if (!p.pty) return;
        if (direct) { int n = 0; while (n++ < 1000 && p.pty && shl_pty_dispatch(p.pty) == -EAGAIN) ; }
        else shl_pty_bridge_dispatch_pty(bridge, p.pty);
    }
    void flushes() { for (auto &p : v) if (p.needflush) flush(p); }
    // one round of the event loop; false if it would sleep
    bool round(bool force = false) {
        if (direct) { bool any = false; for (auto &p : v) if (p.pty) { u64 a = p.got, b = p.idx >= 0 ? k->pty[p.idx].out.len : 0; flush(p); if (p.got != a || (p.idx >= 0 && k->pty[p.idx].out.len != b)) any = true; } flushes(); return any; }
        if (!force && !ep_ready(0, bridge)) return false;
        ++rounds; int r = shl_pty_bridge_dispatch(bridge, 0);
        if (r < 0 && bad.empty()) bad = fmt("shl_pty_bridge_dispatch failed with %d", r);
        flushes();
        return true;
    }
    bool start(const Trace &t, Ctx &ctx) {
        c = &ctx; reset(); sim_step_limit = 0;
        int n = (int)t.get("n", 2); u32 cap = (u32)t.get("cap", 4096);
        delay = t.get("delay"); direct = t.get("direct");
        v.resize(n);
        if (!direct) { bridge = shl_pty_bridge_new(); if (bridge < 0) { ctx.alien("setup", "bridge"); return false; } }
        for (int i = 0; i < n; ++i) {
            P &p = v[i]; p.w = this; p.id = i;
            int r = k_open(&p.pty, cb, &p, 80, 24);
            if (r <= 0 || !p.pty) { ctx.alien("setup", fmt("open %d", r)); return false; }
            p.proc = last_child; p.idx = slave_of(p.proc, 0); p.open = p.alive = true;
            if (p.idx < 0) { ctx.alien("setup", "the child has no terminal"); return false; }
            exec(p.proc);
            k->pty[p.idx].in.cap = cap; k->pty[p.idx].out.cap = (u32)t.get("ocap", 4096); k->pty[p.idx].wake_at = (u32)t.get("wake", 128) % k->pty[p.idx].out.cap;
            if (!direct) { r = shl_pty_bridge_add(bridge, p.pty); if (r) { ctx.alien("setup", "bridge add"); return false; } }
        }
        return true;
    }
    void finish() { for (auto &p : v) if (p.pty) app_close(p); if (bridge >= 0) shl_pty_bridge_free(bridge); bridge = -1; }
};

static i64 amount(Rng &r, i64 cap) {
    switch (r.below(6)) {
    case 0: return r.range(1, 10);
    case 1: return r.range(1, 300);
    case 2: return r.pick(std::vector<i64>{4095, 4096, 4097, 8192, 16382, 16383, 16384, 16385, 32766, 32768, 40000});
    case 3: return std::max<i64>(1, cap + r.range(-2, 2));
    case 4: return r.range(1, 5000);
    default: return r.chance(1, 4) ? r.range(1, 70000) : r.range(1, 1000);
    }
}
static void gen_pty(Rng &r, Trace &t, int tier, bool live) {
    int n = (int)r.range(1, live ? 4 : 3); t.cfg["n"] = n;
    i64 cap = r.pick(std::vector<i64>{64, 255, 1000, 4095, 4096, 16383, 16384, 40000, 65535}), oc = r.pick(std::vector<i64>{64, 255, 1000, 4096, 16384, 65535});
    t.cfg["cap"] = cap; t.cfg["ocap"] = oc; t.cfg["wake"] = r.pick(std::vector<i64>{0, 1, 128, 1 << 20}); t.cfg["delay"] = r.chance(1, 2);
    if (!live && r.chance(1, 4)) t.cfg["direct"] = 1;
    bool faults = r.chance(4, 5);
    if (live) { t.cfg["flood"] = n > 1 && r.chance(1, 3) ? (i64)r.below(n) : -1; t.cfg["stalled"] = n > 1 && r.chance(1, 3) ? (i64)r.below(n) : -1; }
    i64 maxin = cap * 60, maxout = oc * 60; u64 now = 0;
    int ne = (int)r.range(5, tier ? 200 : 60);
    auto am = [&](i64 c, i64 m) { return std::min(amount(r, c), m); };
    for (int i = 0; i < ne; ++i) {
        tick(r, now); i64 p = (i64)r.below(n);
        if (faults) while (r.chance(1, 3)) {
            i64 at = (i64)r.below(r.chance(1, 3) ? 8 : 3);
            if (r.chance(1, 2)) t.ev.push_back(ev(now, "flt", {at, r.chance(1, 2) ? 3 : 1, r.chance(1, 2) ? r.range(1, 20) : r.range(1, 5000)}));
            else t.ev.push_back(ev(now, "inj", {at, r.chance(1, 12) ? r.range(4, 5) : (i64)r.below(4), (i64)r.below(n), am(cap, maxin)}));
        }
        switch (r.below(20)) {
        case 0: case 1: case 2: case 3: t.ev.push_back(ev(now, "cw", {p, am(cap, maxin)})); break;
        case 4: case 5: case 6: case 7: if (r.chance(1, 8)) t.ev.push_back(ev(now, "oom")); t.ev.push_back(ev(now, "aw", {p, am(oc, maxout), !(!live && r.chance(1, 4))})); break;
        case 8: case 9: case 10: t.ev.push_back(ev(now, "cr", {p, r.chance(1, 3) ? 1 << 20 : amount(r, oc)})); break;
        case 11: case 12: case 13: case 14: case 15: t.ev.push_back(ev(now, "loop", {r.range(1, 4)})); break;
        case 16: t.ev.push_back(ev(now, "dl", {p, r.chance(1, 2) ? 1 << 20 : r.range(1, 300)})); break;
        case 17: t.ev.push_back(ev(now, "reply", {p, am(oc, maxout)})); break;
        case 18: if (r.chance(1, 4)) t.ev.push_back(ev(now, "exit", {p})); else if (r.chance(1, 3)) t.ev.push_back(ev(now, r.chance(1, 2) ? "hup" : "reopen", {p})); else t.ev.push_back(ev(now, "kick")); break;
        default: if (r.chance(1, 6)) t.ev.push_back(r.chance(1, 2) ? ev(now, "acl", {p}) : ev(now, "cbclose", {p, (i64)r.below(n)})); else t.ev.push_back(ev(now, "resize", {p, (i64)r.below(300), (i64)r.below(100)}));
        }
    }
}
static void gen22(Rng &r, Trace &t, int tier) { gen_pty(r, t, tier, false); }
static void gen23(Rng &r, Trace &t, int tier) { gen_pty(r, t, tier, true); }

static void exec_pty(const Trace &t, Ctx &c, bool live) {
    World w; if (!w.start(t, c)) { return; }
    std::vector<Fault> fl; std::vector<std::vector<i64>> inj; bool oom = false;
    auto act = [&](i64 what, World::P &p, i64 n) {
        if (what == 0) { p.want += n; w.client_write_(p); }
        else if (what == 1) w.client_read_(p, n);
        else if (what == 2) deliver(p.idx, (u32)n);
        else if (what == 4) w.hup(p);
        else if (what == 5) w.reopen(p);
        else w.client_write_(p);
    };
    u64 shorts0 = 0, eintr0 = 0, eagain0 = 0; (void)shorts0; (void)eintr0; (void)eagain0;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "flt") { fl.push_back({0, (int)e.arg(0), (int)e.arg(1), (int)e.arg(2)}); continue; }
        if (e.op == "inj") { inj.push_back(e.a); continue; }
        if (e.op == "oom") { oom = true; continue; }
        World::P &p = w.v[(size_t)e.arg(0) % w.v.size()];
        if (e.op == "cw") { p.want += e.arg(1); w.client_write_(p); }
        else if (e.op == "cr") w.client_read_(p, e.arg(1));
        else if (e.op == "dl") deliver(p.idx, (u32)e.arg(1));
        else if (e.op == "exit") { w.client_write_(p); w.client_exit(p); c.probe("client_exits"); }
        else if (e.op == "hup") w.hup(p);
        else if (e.op == "reopen") w.reopen(p);
        else if (e.op == "reply") p.reply = e.arg(1);
        else if (e.op == "cbclose") p.kill = (int)((size_t)e.arg(1) % w.v.size());
        else {
            std::vector<Fault> now_fl = fl; arm(fl); fl.clear(); std::vector<std::vector<i64>> todo = inj; inj.clear();
            on_call = [&](int n) { for (auto &x : todo) if (!x.empty() && x[0] == n) { std::vector<i64> y = x; x.clear(); c.probe("client_acts_inside_a_library_call"); act(y[1], w.v[(size_t)y[2] % w.v.size()], y[3]); } };
            u64 b0 = k->bad_close + k->bad_use;
            if (e.op == "aw" && p.pty) {
                bool o = oom; oom = false; u64 f0 = sim_as.fails; int r = 0;
                w.lib([&] { if (o) { sim_fail_at = 1; sim_fail_len = 1; } std::function<void(int)> h = on_call; r = w.queue(p, e.arg(1)); });
                if (sim_as.fails > f0) c.fault("allocation_failure");
                if (r != 0 && sim_as.fails == f0) c.viol("refused", fmt("event %zu: writing %lld bytes failed with %d although memory was available", i, (long long)e.arg(1), r));
                if (r > 0) c.viol("refused", fmt("event %zu: write returned %d", i, r));
                if (e.arg(2)) { arm(now_fl); w.lib([&] { w.flush(p); }); }
                if (e.arg(1) > 4096) c.probe("large_writes");
            }
            else if (e.op == "loop") { for (i64 q = 0; q < e.arg(0); ++q) w.lib([&] { w.round(); }); }
            else if (e.op == "kick") { w.lib([&] { if (!w.direct) shl_pty_bridge_dispatch(w.bridge, 0); w.flushes(); }); }
            else if (e.op == "acl") { w.lib([&] { w.app_close(p); }); c.probe("terminals_removed"); }
            else if (e.op == "resize" && p.pty) w.lib([&] { shl_pty_resize(p.pty, (unsigned short)e.arg(1), (unsigned short)e.arg(2)); });
            on_call = nullptr; disarm();
            for (auto &x : todo) if (!x.empty()) act(x[1], w.v[(size_t)x[2] % w.v.size()], x[3]);
            (void)b0;
        }
        c.check();
        if (!w.bad.empty()) { if (live) c.alien("data", w.bad); else c.viol("data", fmt("event %zu (%s): %s", i, e.op.c_str(), w.bad.c_str())); }
        for (auto &q : w.v) { c.logn(q.sent); c.logn(q.got); c.logn(q.queued); c.logn(q.cgot); }
        if (w.v.size()) { auto &q = w.v[i % w.v.size()]; c.state(mix64(mix64(q.sent > q.got, q.queued > q.cgot), mix64(k->pty[q.idx].out.len == k->pty[q.idx].out.cap, mix64(k->pty[q.idx].in.len == k->pty[q.idx].in.cap, mix64((i64)(q.queued % 4096), q.alive))))); }
    }
    if (c.stop()) return;
    // faults are over: everything pending has to move
    c.fault("interrupted_call", k->eintr); c.fault("short_transfer", k->shorts); c.fault("would_block", k->eagain);
    if (k->eintr || k->shorts || k->eagain) c.nontrivial = true;
    on_call = nullptr; disarm(); fl.clear();
    int flood = live ? (int)t.get("flood", -1) : -1, stalled = live ? (int)t.get("stalled", -1) : -1;
    if (flood >= (int)w.v.size()) flood = -1; if (stalled >= (int)w.v.size()) stalled = -1;
    if (flood >= 0 && w.v[flood].alive && w.v[flood].pty) c.probe("drain_next_to_flooding_client");
    if (stalled >= 0 && w.v[stalled].alive && w.v[stalled].pty) c.probe("drain_next_to_stalled_client");
    w.delay = false;
    for (auto &p : w.v) w.reopen(p);
    auto pend = [&](World::P &p) -> u64 { if (!p.pty) return 0; u64 n = 0; if (p.alive) n = (p.want - p.got) + (p.queued - p.cgot); else n = p.sent - p.got; return n; };
    auto done = [&](bool special) { for (auto &p : w.v) { if (!special && (p.id == flood)) continue; if (!special && p.id == stalled) { if (p.pty && p.alive && p.want > p.got) return false; continue; } if (pend(p)) return false; } return true; };
    for (int phase = 0; phase < 2 && !c.stop(); ++phase) { // 0: next to flooding/stalled clients; 1: nobody holds back
        if (phase == 0 && flood < 0 && stalled < 0) continue;
        u64 need = 0, mincap = std::min<u64>(std::min<u64>((u64)t.get("cap", 4096), (u64)t.get("ocap", 4096)), 16000); for (auto &p : w.v) need += pend(p);
        u64 limit = 100 + 8 * w.v.size() * (1 + need / mincap) * (phase == 0 ? 2 : 1) + (phase == 0 ? 8 * w.v.size() * w.v.size() : 0), n = 0, r0 = w.rounds; bool stuck = false;
        while (!done(phase == 1)) {
            if (++n > limit) break;
            bool any = false;
            for (auto &p : w.v) {
                if (phase == 0 && p.id == flood && p.alive && p.pty) { u32 room = k->pty[p.idx].in.cap - k->pty[p.idx].in.len; p.want = std::max(p.want, p.sent + room); }
                if (w.client_write_(p)) any = true;
                if (p.alive) { u32 v0 = k->pty[p.idx].visible; deliver(p.idx, 1 << 30); if (k->pty[p.idx].visible != v0) any = true; }
                if (!(phase == 0 && p.id == stalled) && w.client_read_(p, 1 << 30)) any = true;
            }
            w.lib([&] { if (w.round()) any = true; });
            if (!w.bad.empty()) break;
            if (!any) { stuck = true; break; }
        }
        c.check();
        if (!w.bad.empty()) { if (live) c.alien("data", w.bad); else c.viol("data", fmt("while draining: %s", w.bad.c_str())); break; }
        if (!done(phase == 1)) {
            std::string s; for (auto &p : w.v) if (p.pty) s += fmt(" [terminal %d: %llu bytes from and %llu bytes to the client pending%s]", p.id, (unsigned long long)(p.sent - p.got), (unsigned long long)(p.alive ? p.queued - p.cgot : 0), p.id == flood && !phase ? ", flooding" : p.id == stalled && !phase ? ", not reading" : "");
            if (live) { c.viol(stuck ? "stall" : "slow", stuck ? fmt("the event loop sleeps for ever although data is pending and the peers are ready:%s", s.c_str()) : fmt("not transferred after %llu event-loop rounds:%s", (unsigned long long)(w.rounds - r0), s.c_str())); break; }
            // C22 is not about progress: dispatch by hand
            for (int q = 0; q < 20000 && !done(true) && w.bad.empty(); ++q) for (auto &p : w.v) { w.client_write_(p); if (p.alive) deliver(p.idx, 1 << 30); w.client_read_(p, 1 << 30); if (p.pty) w.lib([&] { shl_pty_dispatch(p.pty); w.flushes(); }); w.client_read_(p, 1 << 30); }
            c.probe("drained_by_hand");
            if (!w.bad.empty()) c.viol("data", fmt("while draining: %s", w.bad.c_str()));
            else if (!done(true)) c.viol("lost", fmt("bytes never arrive:%s", s.c_str()));
        }
        c.logn(w.rounds);
    }
    for (auto &p : w.v) { c.logn(p.got); c.logn(p.cgot); if (p.got > 0 && p.cgot > 0) c.probe("terminals_with_traffic_both_ways"); }
    if (c.stop()) return;
    w.finish();
}
static void exec22(const Trace &t, Ctx &c) { exec_pty(t, c, false); }
static void exec23(const Trace &t, Ctx &c) { exec_pty(t, c, true); }

// ---- C24 -------------------------------------------------------------------
static void gen24(Rng &r, Trace &t, int tier) {
    u64 now = 0; t.cfg["std"] = r.chance(1, 3) ? (i64)r.below(8) : 7; t.cfg["extra"] = r.chance(1, 3) ? (i64)r.below(5) : 0;
    t.cfg["maxfd"] = r.chance(1, 4) ? r.range(3, 14) : 64;
    int n = (int)r.range(1, tier ? 30 : 12);
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3:
            if (r.chance(3, 4)) { int q = (int)r.range(1, r.chance(1, 4) ? 3 : 1); while (q--) {
                bool ch = r.chance(2, 3); i64 kind = r.pick(std::vector<i64>{0, 0, 0, 4, 1, 2, 3});
                if (kind == 2) ch = true;
                t.ev.push_back(ev(now, "flt", {ch, ch ? (i64)r.below(r.chance(1, 6) ? 60 : 24) : (i64)r.below(8), kind, (i64)r.below(8)})); } }
            if (r.chance(1, 8)) t.ev.push_back(ev(now, "oom"));
            t.ev.push_back(ev(now, "open", {r.chance(1, 8) ? (i64)r.below(65536) : r.range(1, 300), r.chance(1, 8) ? (i64)r.below(65536) : r.range(1, 100)})); break;
        case 4: case 5: t.ev.push_back(ev(now, "close", {(i64)r.below(6)})); break;
        case 6: t.ev.push_back(ev(now, "unref", {(i64)r.below(6)})); break;
        case 7: t.ev.push_back(ev(now, r.chance(1, 2) ? "ref" : "exec", {(i64)r.below(6)})); break;
        case 8: if (r.chance(1, 3)) t.ev.push_back(ev(now, "flt", {0, (i64)r.below(3), 0, (i64)r.below(4)})); t.ev.push_back(ev(now, r.chance(1, 2) ? "bridge" : "unbridge", {})); break;
        default: t.ev.push_back(ev(now, "use", {(i64)r.below(6)}));
        }
    }
}
static void cb24(shl_pty *, void *, char *, size_t) {}
static void exec24(const Trace &t, Ctx &c) {
    reset();
    Proc &app = k->p[0];
    for (int i = 0; i < (int)t.get("extra"); ++i) { app.fd[3 + i] = 0; ++k->ofd[0].refs; }
    for (int i = 0; i < 3; ++i) if (!(t.get("std", 7) >> i & 1)) { app.fd[i] = -1; --k->ofd[0].refs; }
    k->max_fd = (int)t.get("maxfd", 64);
    struct H { shl_pty *p; int refs; bool open; int proc, idx; };
    std::vector<H> v; std::vector<int> br; std::vector<Fault> fl; bool oom = false;
    int base = open_fds(0); u64 mem0 = sim_as.live_blocks;
    auto expect = [&]() { int n = base + (int)br.size(); for (auto &h : v) if (h.open) ++n; return n; };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "flt") { fl.push_back({(int)e.arg(0), (int)e.arg(1), (int)e.arg(2), (int)e.arg(3)}); continue; }
        if (e.op == "oom") { oom = true; continue; }
        H *h = v.empty() ? nullptr : &v[(size_t)e.arg(0) % v.size()];
        u64 bc = k->bad_close, bu = k->bad_use, live = sim_as.live_blocks; int calls0 = 0; (void)calls0;
        if (e.op == "open") {
            shl_pty *p = (shl_pty *)(uintptr_t)0x1230; int hits0 = fault_hits; last_child = -1; int nf0 = app.nfault, ns0 = app.nsoft; app.nfault = app.nsoft = 0;
            u64 f0 = sim_as.fails; if (oom) { sim_fail_at = 1; sim_fail_len = 1; } oom = false;
            arm(fl); fl.clear();
            int r = k_open(&p, cb24, nullptr, (unsigned)e.arg(0), (unsigned)e.arg(1));
            disarm(); sim_alloc_faults_off(); c.check();
            if (sim_as.fails > f0) c.fault("allocation_failure");
            int appf = app.nfault; bool soft = app.nsoft; app.nfault = nf0; app.nsoft = ns0; (void)hits0;
            Proc *ch = last_child > 0 ? &k->p[last_child] : nullptr;
            if (appf) c.fault("failed_call_in_parent", appf);
            if (ch && ch->nfault) c.fault(ch->killed ? "child_killed" : "failed_call_in_child", ch->nfault);
            c.log(fmt("open %d child %d exit %d fds %d", r > 0, ch ? ch->returned : -1, ch ? ch->exited : 0, open_fds(0)));
            if (ch && ch->crashed) { c.viol("crash", fmt("event %zu: the child branch crashed in %s", i, ch->last)); break; }
            bool late = ch && ch->killed && ch->sent; // died after it had reported to be ready
            soft |= ch && ch->nsoft; // an interrupted call may be repeated or be a failure
            bool failed_step = appf || (ch && ch->nfault && !late) || sim_as.fails > f0;
            if (failed_step || soft) c.nontrivial = true;
            bool ok = r > 0;
            if (ok && failed_step) { c.viol("lied", fmt("event %zu: opening reports success (%d) although a step failed (%s)", i, r, ch && ch->nfault ? "in the child" : "in the parent")); break; }
            if (!ok && r == 0) { c.viol("lied", fmt("event %zu: opening returned 0 in the parent", i)); break; }
            if (!ok) {
                c.probe("opens_failed");
                if (p != (shl_pty *)(uintptr_t)0x1230 && p != nullptr) { c.viol("halfopen", fmt("event %zu: opening failed with %d but handed out a handle", i, r)); break; }
                if (sim_as.live_blocks != live) { c.viol("leak", fmt("event %zu: failed opening (%d) left %lld blocks allocated", i, r, (long long)(sim_as.live_blocks - live))); break; }
                if (ch && ch->returned && !appf && !soft && !c.stop()) { c.viol("lied", fmt("event %zu: opening failed with %d in the application but succeeded in the child", i, r)); break; }
                if (!failed_step && !soft && !app.nfault && k->max_fd - open_fds(0) >= 6 && k->nproc) { c.viol("failed", fmt("event %zu: opening failed with %d although every step worked (child %s%s)", i, r, ch ? ch->returned ? "came back" : ch->exited ? "gave up after " : "?" : "not started", ch && ch->exited ? ch->last : "")); break; }
            } else {
                c.probe("opens_succeeded"); c.nontrivial = true;
                if (!p || p == (shl_pty *)(uintptr_t)0x1230) { c.viol("lied", fmt("event %zu: success without a handle", i)); break; }
                v.push_back({p, 1, true, last_child, -1});
                int fd = shl_pty_get_fd(p);
                if (late && ok) { c.probe("child_killed_when_ready"); if (shl_pty_get_fd(p) < 0) { c.viol("fd", fmt("event %zu: no descriptor", i)); break; } v.back().idx = k->ofd[app.fd[shl_pty_get_fd(p)]].obj; continue; }
                if (!ch || !ch->returned) { c.viol("lied", fmt("event %zu: opening reports success but the child %s", i, ch && ch->exited ? "gave up" : "is not ready")); break; }
                if (fd < 0 || fd >= NFD || app.fd[fd] < 0 || k->ofd[app.fd[fd]].type != MASTER) { c.viol("fd", fmt("event %zu: the handle's descriptor %d is not the terminal", i, fd)); break; }
                int b = k->ofd[app.fd[fd]].obj; v.back().idx = b;
                for (int q = 0; q < 3; ++q) if (slave_of(last_child, q) != b) { c.viol("child", fmt("event %zu: standard stream %d of the child is not the terminal", i, q)); break; }
                if (c.stop()) break;
                if (k->pty[b].cols != (unsigned short)e.arg(0) || k->pty[b].rows != (unsigned short)e.arg(1)) { c.viol("size", fmt("event %zu: terminal of %lldx%lld opened with size %ux%u", i, (long long)e.arg(0), (long long)e.arg(1), k->pty[b].cols, k->pty[b].rows)); break; }
                if (r != k->next_pid + last_child || shl_pty_get_child(p) != r) { c.viol("child", fmt("event %zu: wrong process id %d", i, r)); break; }
                if (ch->live1 != live) { c.viol("leak", fmt("event %zu: the child keeps %lld blocks of the attempt", i, (long long)(ch->live1 - live))); break; }
                exec(last_child);
                for (int q = 0; q < 3; ++q) if (slave_of(last_child, q) != b) { c.viol("child", fmt("event %zu: standard stream %d is gone once the child executes the client", i, q)); break; }
                for (int q = 3; q < NFD && !c.stop(); ++q) if (ch->fd[q] >= 0 && k->ofd[ch->fd[q]].type != OTHER) c.viol("childfd", fmt("event %zu: the client inherits descriptor %d of the attempt", i, q));
            }
        } else if (e.op == "close" && h && h->refs) {
            arm(fl); fl.clear(); shl_pty_close(h->p); disarm(); h->open = false; c.probe("closes");
        } else if (e.op == "ref" && h && h->refs) { shl_pty_ref(h->p); ++h->refs; }
        else if (e.op == "unref" && h && h->refs) { arm(fl); fl.clear(); shl_pty_unref(h->p); disarm(); if (!--h->refs) { h->open = false; h->p = nullptr; } }
        else if (e.op == "bridge") { arm(fl); fl.clear(); int n0 = fault_hits, r = shl_pty_bridge_new(); disarm(); if (r >= 0) br.push_back(r); else if (fault_hits == n0 && k->max_fd - open_fds(0) > 1 && br.size() < NEP) c.viol("failed", fmt("event %zu: bridge_new failed with %d", i, r)); }
        else if (e.op == "unbridge" && !br.empty()) { shl_pty_bridge_free(br.back()); br.pop_back(); }
        else if (e.op == "use" && h && h->refs) {
            int b = h->idx; arm({});
            if (h->open != shl_pty_is_open(h->p)) { c.viol("open", fmt("event %zu: is_open is wrong", i)); break; }
            int w = shl_pty_write(h->p, "x", 1), rs = shl_pty_resize(h->p, 33, 44), sg = shl_pty_signal(h->p, 2), d = shl_pty_dispatch(h->p), g = shl_pty_get_fd(h->p);
            int ba = br.empty() ? -1 : shl_pty_bridge_add(br[0], h->p);
            if (!br.empty()) { shl_pty_bridge_dispatch_pty(br[0], h->p); shl_pty_bridge_remove(br[0], h->p); }
            disarm(); c.check(); c.probe(h->open ? "uses_of_open_handles" : "uses_of_closed_handles");
            if (h->open) {
                if (w || g < 0 || ba > 0 || d > 0) { c.viol("use", fmt("event %zu: operations on an open handle: write %d, fd %d, dispatch %d", i, w, g, d)); break; }
                if (rs == 0 && (k->pty[b].cols != 33 || k->pty[b].rows != 44)) { c.viol("size", fmt("event %zu: resize to 33x44 gives %ux%u", i, k->pty[b].cols, k->pty[b].rows)); break; }
            } else if (w >= 0 || rs >= 0 || sg >= 0 || d >= 0 || g >= 0 || ba >= 0) { c.viol("closed", fmt("event %zu: operations on a closed handle: write %d, resize %d, signal %d, dispatch %d, fd %d, bridge_add %d", i, w, rs, sg, d, g, ba)); break; }
        } else if (e.op == "exec" && h && h->proc > 0 && k->p[h->proc].alive) kill_proc(h->proc);
        fl.clear();
        if (k->bad_close > bc) c.viol("close", fmt("event %zu (%s): %s although that descriptor is not open", i, e.op.c_str(), k->bad));
        if (k->bad_use > bu) c.viol("stale", fmt("event %zu (%s): %s although that descriptor is not open", i, e.op.c_str(), k->bad));
        if (open_fds(0) != expect()) c.viol("fdleak", fmt("event %zu (%s): the application holds %d descriptors, expected %d", i, e.op.c_str(), open_fds(0), expect()));
        c.logn(open_fds(0)); c.state(mix64(mix64(v.size(), open_fds(0)), mix64(e.op.size(), fault_hits % 64 + (last_child > 0 ? fnv(7, k->p[last_child].last, strlen(k->p[last_child].last)) : 0))));
    }
    if (c.stop()) return;
    for (auto &h : v) while (h.refs) { shl_pty_unref(h.p); --h.refs; }
    for (int b : br) shl_pty_bridge_free(b);
    if (open_fds(0) != base) c.viol("fdleak", fmt("%d descriptors remain after everything was closed", open_fds(0) - base));
    if (sim_as.live_blocks != mem0) c.viol("leak", fmt("%lld blocks remain after everything was closed", (long long)(sim_as.live_blocks - mem0)));
}

// ---- C33 the child's environment ----------------------------------------------
static void gen33(Rng &r, Trace &t, int tier) {
    t.cfg["sigseed"] = (i64)r.below(1u << 30); t.cfg["leader"] = r.chance(1, 2); t.cfg["closed"] = r.chance(1, 6) ? (i64)r.below(8) : 0;
    bool faults = r.chance(1, 2); u64 now = 0; int n = (int)r.range(2, tier ? 40 : 14), opens = 0;
    i64 lw = 80, lh = 24; // the same size again for another terminal, or after a failure, or after the program chose its own
    auto size = [&](const char *op, std::vector<i64> a) {
        if (!r.chance(1, 3)) { lw = r.chance(1, 4) ? (i64)r.below(65536) : r.range(1, 300); lh = r.chance(1, 4) ? (i64)r.below(65536) : r.range(1, 100); }
        a.push_back(lw); a.push_back(lh); t.ev.push_back(ev(now, op, a));
    };
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (!opens || (opens < 6 && r.chance(1, 3))) {
            if (faults && r.chance(1, 2)) t.ev.push_back(ev(now, "flt", {(i64)r.below(2), (i64)r.below(r.chance(1, 6) ? 60 : 24), r.pick(std::vector<i64>{0, 4, 3}), (i64)r.below(8)}));
            size("open", {}); ++opens;
        } else {
            if (r.chance(1, 8)) { t.ev.push_back(ev(now, "ownsize", {(i64)r.below(6), r.range(1, 300), r.range(1, 100)})); continue; }
            if (faults && r.chance(1, 3)) t.ev.push_back(ev(now, "flt", {0, 0, 0, (i64)r.below(8)}));
            switch (r.below(6)) {
            case 0: case 1: case 2: size("resize", {(i64)r.below(6)}); break;
            case 3: case 4: t.ev.push_back(ev(now, "signal", {(i64)r.below(6), r.chance(1, 8) ? r.range(-2, 80) : r.pick(std::vector<i64>{1, 2, 3, 9, 15, 18, 19, 20, 28})})); break;
            default: t.ev.push_back(ev(now, "close", {(i64)r.below(6)}));
            }
        }
    }
}
static void exec33(const Trace &t, Ctx &c) {
    reset(); Proc &app = k->p[0];
    Rng r((u64)t.get("sigseed"));
    for (int i = 1; i < 32; ++i) { if (i == 9 || i == 19) continue; if (r.chance(1, 4)) app.sigmask |= 1ull << (i - 1); app.disp[i] = r.chance(1, 3) ? (u8)r.range(1, 2) : 0; }
    if (!t.get("leader")) app.sid = 77; // the application is not a session leader itself
    for (int q = 0; q < 3; ++q) if (t.get("closed") >> q & 1) { --k->ofd[app.fd[q]].refs; app.fd[q] = -1; }
    u64 mask0 = app.sigmask; u8 disp0[65]; memcpy(disp0, app.disp, sizeof disp0); int sid0 = app.sid, ctty0 = app.ctty;
    struct H { shl_pty *p; int idx, rows, cols, sig, nsig, proc; }; std::vector<H> v; std::vector<Fault> fl;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "flt") { fl.push_back({(int)e.arg(0), (int)e.arg(1), (int)e.arg(2), (int)e.arg(3)}); continue; }
        H *h = v.empty() ? nullptr : &v[(size_t)e.arg(0) % v.size()]; u64 e0 = k->errs + k->eintr;
        if (e.op == "open") {
            shl_pty *p = nullptr; arm(fl); last_child = -1; int rc = k_open(&p, [](shl_pty *, void *, char *, size_t) {}, nullptr, (unsigned)e.arg(0), (unsigned)e.arg(1)); disarm();
            c.log(fmt("open %d", rc > 0));
            if (rc > 0 && p) {
                int fd = shl_pty_get_fd(p), ch = last_child;
                if (fd < 0 || fd >= NFD || app.fd[fd] < 0 || k->ofd[app.fd[fd]].type != MASTER || ch < 0) { c.alien("setup", "no terminal"); break; }
                int b = k->ofd[app.fd[fd]].obj; Pty &y = k->pty[b]; Proc &q = k->p[ch];
                if (q.killed || q.crashed || !q.returned) { c.alien("setup", "the child did not come back"); break; }
                c.nontrivial = true; c.check(); c.probe("children_started");
                for (int g = 1; g < 32 && !c.stop(); ++g) {
                    if (q.sigmask >> (g - 1) & 1) c.viol("mask", fmt("event %zu: signal %d is blocked in the child", i, g));
                    if (q.disp[g] == 1) c.viol("ignored", fmt("event %zu: signal %d is ignored in the child", i, g));
                    if (q.disp[g] == 2) c.viol("handler", fmt("event %zu: a handler of the application is still installed for signal %d in the child", i, g));
                }
                if (q.sid != ch + 1) c.viol("session", fmt("event %zu: the child does not lead a session of its own", i));
                if (q.ctty != b) c.viol("ctty", fmt("event %zu: the terminal is not the controlling terminal of the child", i));
                if (y.cc[2] != 8) c.viol("erase", fmt("event %zu: the erase character is %#o instead of backspace", i, y.cc[2]));
                if (!(y.iflag & 0040000)) c.viol("utf8", fmt("event %zu: the terminal is not set to UTF-8 input", i));
                if (y.iflag != (0002400u | 0040000u) || y.oflag != 05u || y.lflag != (01u | 02u | 010u | 020u | 040u | 01000u | 04000u | 0100000u) || y.cc[0] != 3 || y.cc[4] != 4 || y.cc[3] != 025 || y.cc[6] != 1)
                    c.viol("termios", fmt("event %zu: other terminal settings were changed (iflag %#o oflag %#o lflag %#o)", i, y.iflag, y.oflag, y.lflag));
                if (y.cols != (unsigned short)e.arg(0) || y.rows != (unsigned short)e.arg(1)) c.viol("size", fmt("event %zu: the terminal has %ux%u cells instead of %lldx%lld", i, y.cols, y.rows, (long long)e.arg(0), (long long)e.arg(1)));
                for (int s = 0; s < 3 && !c.stop(); ++s) { if (slave_of(ch, s) != b) c.viol("streams", fmt("event %zu: standard stream %d of the child is not the terminal", i, s)); else if ((k->ofd[q.fd[s]].flags & 3) != 2 || k->ofd[q.fd[s]].flags & 04000) c.viol("streams", fmt("event %zu: standard stream %d of the child cannot be read, written or blocks not", i, s)); }
                if (!app.cloexec[fd]) c.viol("inherit", fmt("event %zu: programs started by the application would inherit the terminal", i));
                exec(ch);
                v.push_back({p, b, y.rows, y.cols, y.sig, y.nsig, ch});
            } else if (rc > 0) c.alien("setup", "no handle");
            else { c.probe("opens_failed"); if (k->errs + k->eintr == e0 && k->calls) { Proc *q = last_child > 0 ? &k->p[last_child] : nullptr; if (!q || !(q->nfault + q->nsoft)) c.alien("setup", "open failed without a fault"); } }
        } else if (e.op == "ownsize" && h && h->p) { // the program sets the size of its terminal itself, like stty does
            k->pty[h->idx].cols = (unsigned short)e.arg(1); k->pty[h->idx].rows = (unsigned short)e.arg(2); h->cols = k->pty[h->idx].cols; h->rows = k->pty[h->idx].rows; c.probe("sizes_set_by_the_program"); continue; // keeps pending faults for the next call
        } else if (e.op == "resize" && h && h->p) {
            sim_steps = 0; sim_step_limit = 1000000; arm(fl); int rc = shl_pty_resize(h->p, (unsigned short)e.arg(1), (unsigned short)e.arg(2)); disarm(); sim_step_limit = 0; c.check(); c.probe("resizes");
            if (rc == 0) { h->cols = (unsigned short)e.arg(1); h->rows = (unsigned short)e.arg(2); }
            else if (k->errs + k->eintr == e0) c.viol("resize", fmt("event %zu: resizing failed with %d although the kernel refused nothing", i, rc));
            else if (k->pty[h->idx].cols == (unsigned short)e.arg(1) && k->pty[h->idx].rows == (unsigned short)e.arg(2)) { h->cols = k->pty[h->idx].cols; h->rows = k->pty[h->idx].rows; } // done on a second attempt or not at all
            if (rc > 0) c.viol("resize", fmt("event %zu: resizing returned %d", i, rc));
        } else if (e.op == "signal" && h && h->p) {
            int sg = (int)e.arg(1), rc; arm(fl); rc = shl_pty_signal(h->p, sg); disarm(); c.check(); c.probe("signals");
            Pty &y = k->pty[h->idx];
            if (rc == 0) { h->sig = sg; ++h->nsig; if (y.nsig == h->nsig && sg != y.sig) c.viol("signal", fmt("event %zu: signal %d was sent instead of %d", i, y.sig, sg)); }
            else if (sg > 0 && sg <= 64 && k->errs + k->eintr == e0) c.viol("signal", fmt("event %zu: sending signal %d failed with %d although the kernel refused nothing", i, sg, rc));
            if (rc > 0) c.viol("signal", fmt("event %zu: sending a signal returned %d", i, rc));
        } else if (e.op == "close" && h && h->p) { shl_pty_close(h->p); shl_pty_unref(h->p); h->p = nullptr; }
        fl.clear();
        if (k->errs + k->eintr > e0) c.fault("failed_call", k->errs + k->eintr - e0);
        for (auto &x : v) if (x.p && !c.stop()) {
            Pty &y = k->pty[x.idx];
            if (y.cols != x.cols || y.rows != x.rows) c.viol("size", fmt("event %zu (%s): a terminal has %ux%u cells, expected %dx%d", i, e.op.c_str(), y.cols, y.rows, x.cols, x.rows));
            if (y.nsig != x.nsig) c.viol("signal", fmt("event %zu (%s): a terminal received %d signals, expected %d", i, e.op.c_str(), y.nsig, x.nsig));
        }
        if (app.sigmask != mask0 || memcmp(app.disp, disp0, sizeof disp0)) c.viol("parent", fmt("event %zu (%s): the application's own signal setup changed", i, e.op.c_str()));
        if (app.sid != sid0 || app.ctty != ctty0) c.viol("parent", fmt("event %zu (%s): the application's own session or terminal changed", i, e.op.c_str()));
        c.state(mix64(v.size(), mix64(k->errs, e.op.size())));
    }
    for (auto &x : v) if (x.p) { shl_pty_close(x.p); shl_pty_unref(x.p); }
}

void props_pty(std::vector<Prop> &v) {
    v.push_back({"C22", gen22, exec22});
    v.push_back({"C23", gen23, exec23});
    v.push_back({"C24", gen24, exec24});
    v.push_back({"C33", gen33, exec33});
}
