// Whole sessions: client program - kernel - shl_pty - bridge - terminal - user, end to end (C35).
#include "kernel.h"
#include "gen.h"
#include "props.h"
#include "world.h"
extern "C" {
#define _Static_assert static_assert
#include "shl-pty.h"
}
using namespace kern;

namespace {
// What happened to a terminal, in order: `n` more bytes of the client's output, or an action of its user.
struct Step { u64 n = 0; Ev e; };
struct Sess {
    struct Loop *l = nullptr; int id = 0;
    shl_pty *pty = nullptr; tsm_screen *con = nullptr; tsm_vte *vte = nullptr; Sut s;
    int proc = -1, idx = -1; bool alive = false, closed = false, needflush = false, resize_due = false; unsigned rw = 0, rh = 0;
    std::string want, back, accepted;  // what the program writes; what it has read; what the pty has taken for it
    u64 sent = 0, fed = 0;
    std::vector<Step> steps;
    unsigned w0 = 0, h0 = 0, sb = 0; bool in_input = false;
};
struct Loop {
    std::vector<Sess> v; int bridge = -1; bool delay = false, eager = false; std::string bad, cls; u64 rounds = 0;
    void fail(const char *c, const std::string &m) { if (bad.empty()) { bad = m; cls = c; } }
    static void on_write(tsm_vte *, const char *u, size_t n, void *d) {
        Sess *p = (Sess *)d; p->s.out.append(u, n);
        if (!p->pty) return;
        int r = shl_pty_write(p->pty, u, n);
        if (r) p->l->fail("refused", fmt("session %d: writing %zu bytes was refused with %d", p->id, n, r));
        else p->accepted.append(u, n);
        if (!p->in_input || p->l->eager) p->needflush = true; // not from here, to avoid recursion; what is written while input is handled is sent by the same dispatch
    }
    static void on_input(shl_pty *pty, void *d, char *u, size_t n) {
        Sess *p = (Sess *)d;
        if (pty != p->pty) { p->l->fail("handle", fmt("session %d: input of another pty", p->id)); return; }
        if (p->fed + n > p->sent || memcmp(u, p->want.data() + p->fed, n)) { p->l->fail("data", fmt("session %d: %zu bytes at position %llu are not what the program wrote", p->id, n, (unsigned long long)p->fed)); return; }
        p->fed += n; p->in_input = true;
        if (!p->steps.empty() && p->steps.back().n) p->steps.back().n += n; else { p->steps.emplace_back(); p->steps.back().n = n; }
        tsm_vte_input(p->vte, u, n); p->in_input = false;
    }
    bool client_write_(Sess &p) {
        if (!p.alive) return false;
        bool any = false;
        while (p.sent < p.want.size()) { u32 n = (u32)std::min<u64>(4096, p.want.size() - p.sent), m = kern::client_write(p.proc, 1, (const u8 *)p.want.data() + p.sent, n); p.sent += m; if (m) any = true; if (m < n) break; }
        if (!delay && any) deliver(p.idx, 1 << 30);
        return any;
    }
    bool client_read_(Sess &p, u64 max) {
        if (!p.alive) return false;
        bool any = false;
        while (max) { u8 b[4096]; u32 m = kern::client_read(p.proc, 0, b, (u32)std::min<u64>(sizeof b, max)); if (!m) break; p.back.append((char *)b, m); max -= m; any = true;
            if (p.back.size() > p.accepted.size() || p.accepted.compare(0, p.back.size(), p.back)) { fail("replies", fmt("session %d: the program read bytes that were not sent to it in this order", p.id)); return any; } }
        return any;
    }
    void lib(const std::function<void()> &f) { sim_steps = 0; sim_step_limit = 400000000; f(); sim_step_limit = 0; disarm(); }
    void flushes() { for (auto &p : v) if (p.needflush) { p.needflush = false; if (p.pty) shl_pty_bridge_dispatch_pty(bridge, p.pty); } }
    bool round() {
        if (!ep_ready(0, bridge)) { bool any = false; for (auto &p : v) any |= p.needflush; flushes(); return any; }
        ++rounds; int r = shl_pty_bridge_dispatch(bridge, 0); if (r < 0) fail("dispatch", fmt("shl_pty_bridge_dispatch failed with %d", r));
        flushes();
        return true;
    }
    void user(Sess &p, const Ev &e) {
        p.steps.emplace_back(); p.steps.back().e = e;
        if (e.op == "resize") { tsm_screen_resize(p.con, (unsigned)e.arg(0), (unsigned)e.arg(1)); p.rw = (unsigned)e.arg(0); p.rh = (unsigned)e.arg(1); p.resize_due = true; resize(p); }
        else apply_sut(p.s, e);
    }
    void resize(Sess &p) { if (p.resize_due && p.pty && shl_pty_resize(p.pty, (unsigned short)p.rw, (unsigned short)p.rh) == 0) p.resize_due = false; }
    void close(Sess &p) { if (!p.pty) return; shl_pty_bridge_remove(bridge, p.pty); shl_pty_close(p.pty); shl_pty_unref(p.pty); p.pty = nullptr; p.closed = true; }
};
void osc35(tsm_vte *, const char *u, size_t n, void *d) { ((Sess *)d)->s.osc.push_back(std::string(u, n)); }
void mouse35(tsm_vte *, tsm_mouse_track_mode m, bool px, void *d) { ((Sess *)d)->s.mcb.push_back({(int)m, px}); }
int open35(Sess &p) {
    sim_steps = 0; sim_step_limit = 10000000;
    int r = shl_pty_open(&p.pty, Loop::on_input, &p, (unsigned short)p.w0, (unsigned short)p.h0);
    if (in_child()) { Proc &q = k->p[k->cur]; if (r == 0) child_back(); q.exited = true; q.exit_code = 100; kill_proc(k->cur); _exit(0); }
    sim_step_limit = 0;
    return r;
}
}

static void gen35(Rng &r, Trace &t, int tier) {
    int n = (int)r.range(1, 3); t.cfg["n"] = n;
    t.cfg["cap"] = r.pick(std::vector<i64>{64, 255, 1000, 4096, 16384, 65535}); t.cfg["ocap"] = r.pick(std::vector<i64>{64, 255, 1000, 4096}); t.cfg["wake"] = r.pick(std::vector<i64>{0, 1, 128}); t.cfg["delay"] = r.chance(1, 2); t.cfg["eager"] = r.chance(1, 4);
    std::vector<StreamGen> g(n);
    for (int i = 0; i < n; ++i) {
        i64 w, h; pick_size(r, w, h); t.cfg[fmt("w%d", i)] = w; t.cfg[fmt("h%d", i)] = h; t.cfg[fmt("sb%d", i)] = r.chance(1, 4) ? 0 : (i64)r.below(30);
        g[i].w = (unsigned)w; g[i].h = (unsigned)h;
        for (int f = 0; f < T_NUM; ++f) g[i].wt[f] = r.chance(1, 4) ? 0 : 3;
        g[i].wt[T_TEXT] = 15; g[i].wt[T_UTF8] = 6; g[i].wt[T_QUERY] = 10; g[i].wt[T_GARBAGE] = r.chance(1, 3) ? 3 : 0; g[i].wt[T_8BIT] = r.chance(1, 6) ? 2 : 0;
    }
    bool faults = r.chance(4, 5); u64 now = 0;
    int ne = (int)r.range(8, tier ? 400 : 240);
    auto user = [&](int p) -> Ev {
        StreamGen &q = g[p]; Ev e;
        switch (r.below(6)) {
        case 0: case 1: e = rnd_key_event(r, now); break;
        case 2: e = rnd_mouse_event(r, now, q.w, q.h); break;
        case 3: { i64 w = std::max<i64>(1, (i64)q.w + r.range(-3, 3)), h = std::max<i64>(1, (i64)q.h + r.range(-2, 2)); e = ev(now, "resize", {w, h}); q.w = (unsigned)w; q.h = (unsigned)h; break; }
        case 4: e = rnd_view_event(r, now, q.h, 20); break;
        default: e = ev(now, "palette", {}, r.chance(1, 2) ? "vga" : "legacy");
        }
        e.op = fmt("u%d.", p) + e.op; return e;
    };
    for (int i = 0; i < ne; ++i) {
        tick(r, now); int p = (int)r.below(n);
        if (faults) while (r.chance(1, 3)) {
            i64 at = (i64)r.below(r.chance(1, 3) ? 8 : 3);
            t.ev.push_back(r.chance(2, 3) ? ev(now, "flt", {at, r.pick(std::vector<i64>{3, 1, 1}), r.chance(1, 2) ? r.range(1, 6) : r.range(1, 300)}) : ev(now, "inj", {at, (i64)r.below(3), (i64)r.below(n), r.range(1, 400)}));
        }
        switch (r.below(20)) {
        case 0: case 1: case 2: case 3: case 4: case 5: { std::string b; int m = (int)r.range(1, r.chance(1, 6) ? 60 : 6); while (m--) b += g[p].piece(r); t.ev.push_back(ev(now, "cw", {p}, b)); break; }
        case 6: case 7: t.ev.push_back(ev(now, "cr", {p, r.chance(1, 2) ? 1 << 20 : r.range(1, 100)})); break;
        case 8: case 9: case 10: case 11: case 12: t.ev.push_back(ev(now, "loop", {r.range(1, 4)})); break;
        case 13: t.ev.push_back(ev(now, "dl", {p, r.chance(1, 2) ? 1 << 20 : r.range(1, 100)})); break;
        case 14: case 15: case 16: case 17: t.ev.push_back(user(p)); break;
        case 18: t.ev.push_back(ev(now, "draw", {p})); break;
        default: if (r.chance(1, 8)) t.ev.push_back(ev(now, r.chance(1, 2) ? "exit" : "close", {p})); else t.ev.push_back(ev(now, "cmp", {p}));
        }
    }
}

static void exec35(const Trace &t, Ctx &c) {
    Loop L; reset(); sim_step_limit = 0;
    int n = (int)std::min<i64>(4, std::max<i64>(1, t.get("n", 1))); L.delay = t.get("delay"); L.eager = t.get("eager"); L.v.resize(n);
    L.bridge = shl_pty_bridge_new(); if (L.bridge < 0) { c.alien("setup", "bridge"); return; }
    for (int i = 0; i < n; ++i) {
        Sess &p = L.v[i]; p.l = &L; p.id = i;
        p.w0 = (unsigned)t.get(fmt("w%d", i).c_str(), 20); p.h0 = (unsigned)t.get(fmt("h%d", i).c_str(), 6); p.sb = (unsigned)t.get(fmt("sb%d", i).c_str(), 10);
        p.rw = p.w0; p.rh = p.h0;
        if (open35(p) <= 0 || !p.pty) { c.alien("setup", "open"); return; }
        p.proc = last_child; p.idx = slave_of(p.proc, 0); p.alive = true;
        if (p.idx < 0) { c.alien("setup", "the child has no terminal"); return; }
        exec(p.proc);
        k->pty[p.idx].in.cap = (u32)t.get("cap", 4096); k->pty[p.idx].out.cap = (u32)t.get("ocap", 4096); k->pty[p.idx].wake_at = (u32)t.get("wake", 128) % k->pty[p.idx].out.cap;
        if (tsm_screen_new(&p.con, nullptr, nullptr) || tsm_screen_resize(p.con, p.w0, p.h0)) { c.alien("setup", "screen"); return; }
        tsm_screen_set_max_sb(p.con, p.sb);
        if (tsm_vte_new(&p.vte, p.con, Loop::on_write, &p, nullptr, nullptr)) { c.alien("setup", "terminal"); return; }
        p.s.con = p.con; p.s.vte = p.vte;
        tsm_vte_set_osc_cb(p.vte, osc35, &p); tsm_vte_set_mouse_cb(p.vte, mouse35, &p);
        if (shl_pty_bridge_add(L.bridge, p.pty)) { c.alien("setup", "bridge add"); return; }
    }
    std::vector<Fault> fl; std::vector<std::vector<i64>> inj;
    auto act = [&](i64 what, Sess &p, i64 m) { if (what == 0) L.client_write_(p); else if (what == 1) L.client_read_(p, m); else deliver(p.idx, (u32)m); };
    // the same history over a perfect connection
    auto compare = [&](Sess &p, const char *when) {
        Sut q; q.create(p.w0, p.h0, p.sb); u64 at = 0;
        for (auto &x : p.steps) { if (x.n) { q.feed(p.want.substr(at, x.n)); at += x.n; } else apply_sut(q, x.e); }
        c.check();
        std::string d;
        if (q.out != p.s.out) d = fmt("sent to the program '%s', over a perfect connection '%s'", show(p.s.out).c_str(), show(q.out).c_str());
        else if (q.osc != p.s.osc) d = "titles differ";
        else if (q.mcb != p.s.mcb) d = "mouse callbacks differ";
        else if (q.cx() != p.s.cx() || q.cy() != p.s.cy()) d = fmt("cursor (%u,%u), over a perfect connection (%u,%u)", p.s.cx(), p.s.cy(), q.cx(), q.cy());
        else d = grid_vs_grid(q.draw(), p.s.draw());
        if (d.empty() && q.hash_all() != p.s.hash_all()) d = "modes or counters differ";
        if (!d.empty()) c.viol("session", fmt("session %d %s: %s", p.id, when, d.c_str()));
        c.logn(p.s.hash_all());
        q.destroy();
    };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "flt") { fl.push_back({0, (int)e.arg(0), (int)e.arg(1), (int)e.arg(2)}); continue; }
        if (e.op == "inj") { inj.push_back(e.a); continue; }
        bool us = e.op[0] == 'u' && e.op.size() > 3 && e.op[2] == '.';
        Sess &p = L.v[(size_t)(us ? e.op[1] - '0' : e.arg(0)) % n];
        if (e.op == "cw") { if (p.alive) p.want += e.b; L.client_write_(p); }
        else if (e.op == "cr") L.client_read_(p, (u64)e.arg(1));
        else if (e.op == "dl") deliver(p.idx, (u32)e.arg(1));
        else if (e.op == "exit") { if (p.alive) { L.client_write_(p); p.want.resize(p.sent); p.alive = false; kill_proc(p.proc); c.probe("programs_exited"); } }
        else if (e.op == "draw") p.s.draw();
        else if (e.op == "cmp") compare(p, "so far");
        else {
            arm(fl); fl.clear(); std::vector<std::vector<i64>> todo = inj; inj.clear();
            on_call = [&](int m) { for (auto &x : todo) if (!x.empty() && x[0] == m) { std::vector<i64> y = x; x.clear(); act(y[1], L.v[(size_t)y[2] % n], y[3]); } };
            if (us) { Ev u = e; u.op = e.op.substr(3); L.lib([&] { L.user(p, u); }); }
            else if (e.op == "loop") { for (i64 q = 0; q < e.arg(0); ++q) L.lib([&] { L.round(); }); }
            else if (e.op == "close") { L.lib([&] { L.close(p); }); c.probe("sessions_closed"); }
            on_call = nullptr; disarm();
            for (auto &x : todo) if (!x.empty()) act(x[1], L.v[(size_t)x[2] % n], x[3]);
        }
        if (!L.bad.empty()) c.viol(L.cls, fmt("event %zu (%s): %s", i, e.op.c_str(), L.bad.c_str()));
        for (auto &q : L.v) { c.logn(q.sent); c.logn(q.fed); c.logn(q.back.size()); }
        c.state(mix64(mix64(p.sent > p.fed, p.accepted.size() > p.back.size()), mix64(tsm_screen_get_flags(p.con), tsm_vte_get_flags(p.vte))));
    }
    if (c.stop()) return;
    c.fault("interrupted_call", k->eintr); c.fault("short_transfer", k->shorts); c.fault("would_block", k->eagain);
    on_call = nullptr; disarm(); L.delay = false;
    // faults are over: within a bounded number of rounds everything has arrived everywhere
    auto pend = [&](Sess &p) -> u64 { if (p.closed) return 0; return (p.alive ? p.want.size() : p.sent) - p.fed + (p.alive ? p.accepted.size() - p.back.size() : 0); };
    u64 need = 0; for (auto &p : L.v) need += pend(p);
    u64 limit = 400 + 64 * n * (1 + need / 32), m = 0; bool stuck = false;
    for (;;) {
        u64 left = 0; for (auto &p : L.v) left += pend(p);
        if (!left || ++m > limit) { stuck = left; break; }
        bool any = false;
        for (auto &p : L.v) { if (L.client_write_(p)) any = true; u32 v0 = k->pty[p.idx].visible; if (p.alive) deliver(p.idx, 1 << 30); if (k->pty[p.idx].visible != v0) any = true; if (L.client_read_(p, 1 << 30)) any = true; L.resize(p); }
        L.lib([&] { if (L.round()) any = true; });
        if (!L.bad.empty()) { c.viol(L.cls, "while draining: " + L.bad); return; }
        if (!any) { stuck = true; break; }
    }
    c.check();
    if (stuck) { std::string s; for (auto &p : L.v) if (pend(p)) s += fmt(" [session %d: %llu bytes of output, %llu bytes of input]", p.id, (unsigned long long)(p.sent - p.fed), (unsigned long long)(p.accepted.size() - p.back.size())); c.viol("stall", "never transferred although everybody is ready:" + s); return; }
    for (auto &p : L.v) {
        L.resize(p);
        if (!p.closed && (k->pty[p.idx].cols != p.rw || k->pty[p.idx].rows != p.rh)) { c.viol("winsize", fmt("session %d: the program sees %ux%u, the terminal is %ux%u", p.id, k->pty[p.idx].cols, k->pty[p.idx].rows, p.rw, p.rh)); return; }
        compare(p, "at the end"); if (c.stop()) return;
        if (p.fed) c.nontrivial = true;
        if (p.back.size()) c.probe("sessions_with_traffic_both_ways");
    }
    for (auto &p : L.v) { L.close(p); tsm_vte_unref(p.vte); tsm_screen_unref(p.con); }
    shl_pty_bridge_free(L.bridge);
    c.check();
    if (sim_as.live_blocks || sim_as.bad_frees) c.viol("leak", fmt("%llu blocks are left after all sessions have ended", (unsigned long long)sim_as.live_blocks));
    else if (k->bad_close || k->bad_use) c.viol("descriptor", fmt("a descriptor was misused: %s", k->bad));
}

void props_session(std::vector<Prop> &v) {
    v.push_back({"C35", gen35, exec35});
}
