// C11 memory safety and bounded work, C12 allocation failures, C13 release and growth.
#include "world.h"
#include "gen.h"
#include "props.h"

static void start(const Trace &t, Sut &s, ref::Term *m) {
    unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6), sb = (unsigned)t.get("sb", 0);
    s.create(w, h, sb);
    if (m) { ref::Palette p; ref::palette_named("legacy", p); m->create(w, h, p); m->s.sb_max = sb; }
}
static void dims(Rng &r, Trace &t, StreamGen &g) {
    i64 w, h; pick_size(r, w, h);
    t.cfg["w"] = w; t.cfg["h"] = h; g.w = (unsigned)w; g.h = (unsigned)h;
    t.cfg["sb"] = r.pick(std::vector<i64>{0, 0, 1, 2, 5, 50});
}

// ---- C11 -------------------------------------------------------------------
static i64 extreme(Rng &r, unsigned dim) {
    switch (r.below(5)) {
    case 0: return (i64)r.below(dim + 2);
    case 1: return r.pick(std::vector<i64>{0, 1, dim, (i64)dim + 1, (i64)dim - 1});
    case 2: return r.pick(std::vector<i64>{0x7fffffff, 0x80000000ll, 0xffffffffll, 0xfffffffell, 0x80000001ll, 65535, 65536, 0x10000 - 2});
    case 3: return (i64)r.below(200);
    default: return (i64)r.below(1ull << r.below(33));
    }
}
static void gen11(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    for (int f = 0; f < T_NUM; ++f) g.wt[f] = 2;
    g.wt[T_TEXT] = 6; g.wt[T_WIDE] = 6; g.wt[T_GARBAGE] = 12; g.wt[T_SGR] = 4; g.wt[T_MARGIN] = 4; g.wt[T_MOVE] = 6; g.wt[T_LINES] = 4; g.wt[T_INSMODE] = 3; g.wt[T_TAB] = 4;
    for (auto &x : g.wt) if (r.chance(1, 4)) x = 0;
    g.wt[T_GARBAGE] = std::max(g.wt[T_GARBAGE], 1u);
    bool api = r.chance(2, 3);
    int n = (int)r.range(10, tier ? 300 : 90); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(api ? 14 : 8)) {
        case 0: t.ev.push_back(ev(now, "drawall")); break;
        case 1: { std::string b; int k = (int)r.range(1, 5); for (int q = 0; q < k; ++q) b += g.piece(r); if (r.chance(1, 3)) b = garbage(r, (int)r.range(1, 60)); emit_feed(r, t, now, b, r.chance(1, 6) ? 3 : 0); break; }
        case 2: { // CSI with hostile parameters
            std::string b = "\x1b["; if (r.chance(1, 4)) b += r.pick(std::vector<std::string>{"?", ">", "!", " ", "$", "\""});
            int k = (int)r.below(r.chance(1, 6) ? 40 : 4); for (int q = 0; q <= k; ++q) { if (q) b += r.chance(1, 12) ? ":" : ";"; if (r.chance(4, 5)) b += fmt("%llu", (unsigned long long)extreme(r, std::max(g.w, g.h))); }
            if (r.chance(1, 4)) b += "m"; else b += (char)r.range(0x40, 0x7e);
            emit_feed(r, t, now, b, 0); break; }
        case 3: { i64 w = std::max<i64>(1, (i64)g.w + r.range(-6, 6)), h = std::max<i64>(1, (i64)g.h + r.range(-4, 4));
                  if (r.chance(1, 6)) { w = 1; } if (r.chance(1, 6)) h = 1;
                  if (r.chance(1, 10)) { w = extreme(r, g.w); if (r.chance(1, 2)) h = extreme(r, g.h); t.ev.push_back(ev(now, "resize", {w, h})); break; }
                  t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; break; }
        case 4: case 5: emit_feed(r, t, now, g.piece(r), 0); break;
        case 6: switch (r.below(9)) {
            case 0: t.ev.push_back(ev(now, "selstart", {extreme(r, g.w), extreme(r, g.h)})); break;
            case 1: case 2: t.ev.push_back(ev(now, "seltarget", {extreme(r, g.w), extreme(r, g.h)})); break;
            case 3: t.ev.push_back(ev(now, "copyall")); break;
            case 4: t.ev.push_back(ev(now, r.chance(1, 2) ? "sbup" : "sbdown", {extreme(r, g.h)})); break;
            case 5: t.ev.push_back(ev(now, r.chance(1, 2) ? "pgup" : "pgdn", {extreme(r, 3)})); break;
            case 6: t.ev.push_back(ev(now, "maxsb", {extreme(r, 5)})); break;
            case 7: t.ev.push_back(ev(now, r.pick(std::vector<const char *>{"clearsb", "sbreset", "selreset", "vreset", "vhard"}))); break;
            default: t.ev.push_back(ev(now, "palette", {}, r.pick(std::vector<std::string>{"legacy", "vga", "custom", "nonsense", ""})));
            } break;
        case 7: switch (r.below(3)) {
            case 0: t.ev.push_back(ev(now, "key", {extreme(r, 0xffff), extreme(r, 128), (i64)r.below(32), r.chance(1, 2) ? extreme(r, 0x110000) : (i64)r.below(0x30000)})); break;
            case 1: t.ev.push_back(rnd_key_event(r, now)); break;
            default: { Ev e = rnd_mouse_event(r, now, g.w, g.h); for (int k = 0; k < 6; ++k) if (r.chance(1, 4)) e.a[k] = extreme(r, 10); t.ev.push_back(e); }
            } break;
        default: t.ev.push_back(ev(now, "api", {(i64)r.below(API_N), extreme(r, std::max(g.w, g.h)), extreme(r, std::max(g.w, g.h))}));
        }
    }
    t.ev.push_back(ev(now, "copyall")); t.ev.push_back(ev(now, "drawall"));
}
static void exec11(const Trace &t, Ctx &c) {
    Sut s; sim_mem_limit = 64u << 20;
    start(t, s, nullptr);
    if (!s.con) return;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        u64 bf = sim_as.bad_frees, fl = sim_as.fails;
        if (e.op == "drawall") { Grid g = s.draw(); if (!g.order_ok) c.viol("draw", fmt("event %zu: draw made %zu calls for a %ux%u screen", i, g.calls, g.w, g.h)); for (auto &k : g.c) c.logn(k.ch ^ (u64)k.w << 40); }
        else if (e.op == "copyall") { std::string x; int rc; int k = s.copy(x, &rc); c.log(x); if (k < -1) c.viol("copy", fmt("event %zu: copy returned %d but no terminated string", i, rc)); }
                else if (e.op == "resize" && (e.arg(0) > 2000 || e.arg(1) > 2000)) {
            s.mw = std::max(s.mw, (unsigned)std::min<i64>(e.arg(0), 1 << 22)); s.mh = std::max(s.mh, (unsigned)std::min<i64>(e.arg(1), 1 << 20));
            sim_steps = 0; sim_step_limit = 2000000000ull;
            int rc = tsm_screen_resize(s.con, (unsigned)e.arg(0), (unsigned)e.arg(1)); Sut::disarm();
            c.probe("huge_resizes"); if (rc) c.probe("huge_resizes_refused");
            if (!rc && (u64)s.w() * s.h() > 200000) { s.budget(16, 3000, 3000); sim_step_limit = 2000000000ull; tsm_screen_resize(s.con, 20, 6); Sut::disarm(); }
        } else {
            if (e.op == "feed") c.nontrivial = true;
            if (e.op == "api") c.probe("direct_api_calls");
            apply_sut(s, e);
        }
        c.check();
        if (sim_as.fails > fl) c.fault("out_of_memory");
        if (sim_as.bad_frees > bf) c.viol("free", fmt("event %zu (%s): memory that is not allocated was freed", i, e.op.c_str()));
        if (s.cy() >= s.h() || s.cx() > s.w() + 1) c.viol("cursor", fmt("event %zu (%s '%s'): cursor (%u,%u) on a %ux%u screen", i, e.op.c_str(), show(e.b).c_str(), s.cx(), s.cy(), s.w(), s.h()));
        if (s.sbpos() > s.sbn()) c.viol("sbpos", fmt("event %zu (%s): scrollback position %u of %u", i, e.op.c_str(), s.sbpos(), s.sbn()));
        c.logn(s.cx() * 100003ull + s.cy()); c.log(s.out); s.out.clear();
        c.state(mix64(mix64(tsm_vte_get_flags(s.vte), tsm_screen_get_flags(s.con)), mix64(s.cx() >= s.w(), s.cy() + 1 == s.h()) + s.w() * 64 + s.h()));
    }
    s.destroy();
    if (!c.stop() && sim_as.live_blocks) c.viol("leak", fmt("%llu blocks are still allocated after the last reference was dropped", (unsigned long long)sim_as.live_blocks));
}

// ---- C12 -------------------------------------------------------------------
static void gen12(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    t.cfg["sb"] = r.pick(std::vector<i64>{0, 1, 3, 8, 50});
    g.set({{T_TEXT, 16}, {T_WIDE, 2}, {T_C0, 16}, {T_MOVE, 6}, {T_ERASE, 2}, {T_INSDEL, 2}, {T_LINES, 4}, {T_SCROLL, 8}, {T_MARGIN, 2}, {T_ALT, 2}, {T_SGR, 2}, {T_OSC, 2}, {T_QUERY, 2}, {T_SAVE, 1}, {T_TAB, 4}});
    t.cfg["ctor"] = r.chance(1, 3) ? r.range(1, 120) : 0;
    t.cfg["ctorlen"] = r.pick(std::vector<i64>{1, 1, 3, -1});
    t.cfg["ctorvte"] = r.chance(1, 3) ? r.range(1, 4) : 0;
    int n = (int)r.range(8, tier ? 160 : 60); u64 now = 0;
    auto oom = [&](int to) { t.ev.push_back(ev(now, "oom", {r.range(1, to), r.pick(std::vector<i64>{1, 1, 1, 2, 5, -1}), r.chance(1, 3) ? 1 : 0})); };
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(12)) {
        case 0: case 1: { i64 w = std::max<i64>(1, (i64)g.w + r.range(-6, 8)), h = std::max<i64>(1, (i64)g.h + r.range(-4, 6)); if (r.chance(2, 3)) oom((int)(4 * h + 8)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; break; }
        case 2: if (r.chance(1, 3)) { if (r.chance(2, 3)) oom(2); t.ev.push_back(r.chance(1, 2) ? ev(now, "palette", {}, r.pick(std::vector<std::string>{"legacy", "vga", "solarized"})) : ev(now, "custom", {(i64)r.below(100)})); } break;
        case 3: if (r.chance(1, 2)) { t.ev.push_back(ev(now, "selstart", {(i64)r.below(g.w), (i64)r.below(g.h)})); t.ev.push_back(ev(now, "seltarget", {(i64)r.below(g.w), (i64)r.below(g.h)})); oom(2); t.ev.push_back(ev(now, "copy")); t.ev.push_back(ev(now, "selreset")); } break;
        case 4: t.ev.push_back(ev(now, "maxsb", {(i64)r.below(10)})); break;
        default: {
            std::string b; int k = (int)r.range(1, 4); for (int q = 0; q < k; ++q) { b += g.piece(r); if (r.chance(1, 2)) b += "\r\n" + g.label(r); }
            if (r.chance(1, 2)) oom(6);
            emit_feed(r, t, now, b, r.chance(1, 4) ? 6 : 0); }
        }
    }
    t.ev.push_back(ev(now, "audit"));
}
static std::string line_text(const ref::Line &l, unsigned w) { std::string r; unsigned x = 0; for (auto &k : l.c) if (w && x++ >= w) break; else if (k.w) r += ref::utf8(k.ch ? k.ch : ' '); while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
// all history lines as the library shows them (view must be at the bottom; is put back there)
static std::vector<std::string> sut_history(Sut &s) {
    std::vector<std::string> v; unsigned n = s.sbn();
    if (tsm_screen_get_flags(s.con) & TSM_SCREEN_ALTERNATE) return v;
    tsm_screen_sb_reset(s.con);
    if (!n) return v;
    tsm_screen_sb_up(s.con, n + 5);
    for (unsigned i = 0; i < n; ++i) {
        Grid g = s.draw(); unsigned y = 0, left = n - i;
        for (; y < g.h && y < left; ++y) { std::string x = g.row(y); while (!x.empty() && x.back() == ' ') x.pop_back(); v.push_back(x); }
        i += y - 1; tsm_screen_sb_down(s.con, y);
    }
    tsm_screen_sb_reset(s.con);
    return v;
}
static void exec12(const Trace &t, Ctx &c) {
    Sut s; ref::Term m;
    if (t.get("ctor")) {
        // construction under memory pressure: fails cleanly, then works
        sim_fail_at = t.get("ctor"); sim_fail_len = t.get("ctorlen", 1); u64 f0 = sim_as.fails;
        unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6);
        int rc = s.create(w, h, (unsigned)t.get("sb"));
        sim_alloc_faults_off(); c.check();
        if (sim_as.fails > f0) c.fault("allocation_failure_in_construction");
        if (rc == 0) { s.destroy(); s = Sut(); }
        else { if (sim_as.fails == f0) c.viol("construct", fmt("construction failed with %d although memory was available", rc)); c.nontrivial = true; }
        if (sim_as.live_blocks) c.viol("leak", fmt("%llu blocks remain after %s", (unsigned long long)sim_as.live_blocks, rc ? "failed construction" : "destruction"));
        if (c.stop()) return;
        s = Sut();
    }
    if (t.get("ctorvte")) {
        // the same for the emulator alone: the screen it was meant for stays as usable as it was, and nobody else's
        unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6);
        if (tsm_screen_new(&s.con, nullptr, nullptr) || tsm_screen_resize(s.con, w, h)) { c.viol("construct", "construction failed although memory was available"); return; }
        tsm_screen_set_flags(s.con, TSM_SCREEN_AUTO_WRAP); tsm_screen_attr at = {}; at.fccode = -1; at.bccode = -1;
        for (int i = 0; i < 3; ++i) tsm_screen_write(s.con, (tsm_symbol_t)('a' + i), &at);
        std::string before = s.draw().row(0); unsigned cx = s.cx(), cy = s.cy();
        tsm_vte *v = nullptr; u64 f0 = sim_as.fails;
        sim_fail_at = t.get("ctorvte"); sim_fail_len = t.get("ctorlen", 1);
        int rc = tsm_vte_new(&v, s.con, [](tsm_vte *, const char *, size_t, void *) {}, nullptr, nullptr, nullptr);
        sim_alloc_faults_off(); c.check();
        if (rc) {
            c.fault("allocation_failure_in_construction"); c.nontrivial = true;
            if (sim_as.fails == f0) c.viol("construct", fmt("creating the emulator failed with %d although memory was available", rc));
            else if (s.draw().row(0) != before || s.cx() != cx || s.cy() != cy) c.viol("changed", "a failed creation of the emulator changed the screen");
            else if ((rc = tsm_vte_new(&v, s.con, [](tsm_vte *, const char *, size_t, void *) {}, nullptr, nullptr, nullptr))) c.viol("retry", fmt("creating the emulator fails with %d after memory became available again", rc));
            if (c.stop()) return;
        }
        tsm_vte_unref(v); tsm_screen_unref(s.con); s = Sut();
        if (sim_as.bad_frees) { c.viol("free", "memory that is not allocated was freed while creating or destroying the emulator"); return; }
        if (sim_as.live_blocks) { c.viol("leak", fmt("%llu blocks remain after the emulator and its screen are gone; creation %s", (unsigned long long)sim_as.live_blocks, sim_as.fails > f0 ? "failed at first" : "succeeded")); return; }
    }
    start(t, s, &m);
    if (!s.con) { c.viol("construct", "construction failed although memory was available"); return; }
    bool pend = false, lossy = false, gives_up = false; i64 at = 0, len = 0;
    m.s.keep_dropped = true;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "oom") { pend = true; at = e.arg(0); len = e.arg(1); gives_up = e.arg(2, 0); continue; }
        bool arm = pend; pend = false;
        u64 f0 = sim_as.fails, h0 = 0;
        int rc = 0; std::string txt; size_t out0 = s.out.size();
        bool failable = e.op == "resize" || e.op == "palette" || e.op == "custom" || e.op == "copy";
        if (arm && failable) h0 = s.hash_all();
        std::vector<std::string> hb; if (arm && failable) hb = sut_history(s);
        u64 blocks0 = sim_as.live_blocks, bytes0 = sim_as.live_bytes; (void)bytes0;
        auto call = [&](bool faulty) {
            if (faulty) { sim_fail_at = at; sim_fail_len = len; }
            if (e.op == "copy") { rc = s.copy(txt, nullptr); int k; (void)k; }
            else if (e.op == "resize") { s.budget(4, (unsigned)e.arg(0), (unsigned)e.arg(1)); rc = tsm_screen_resize(s.con, (unsigned)e.arg(0), (unsigned)e.arg(1)); Sut::disarm(); }
            else if (e.op == "palette") rc = tsm_vte_set_palette(s.vte, e.b.c_str());
            else if (e.op == "custom") { uint8_t p[18][3]; Rng q((u64)e.arg(0)); for (auto &x : p) for (auto &y : x) y = (uint8_t)q.below(256); rc = tsm_vte_set_custom_palette(s.vte, p); if (!rc) { bool fl = false; if (faulty && sim_as.fails == f0) fl = true; (void)fl; sim_alloc_faults_off(); rc = 0; } }
            else apply_sut(s, e);
            sim_alloc_faults_off();
        };
        call(arm);
        bool failed = sim_as.fails > f0;
        if (failed) { c.fault("allocation_failure_in_" + e.op); c.nontrivial = true; }
        c.check();
        if (sim_as.bad_frees) { c.viol("free", fmt("event %zu (%s): memory that is not allocated was freed", i, e.op.c_str())); break; }
        if (failable && rc != 0 && !(e.op == "copy" && rc == -1 && !failed)) {
            if (!failed) { c.viol("error", fmt("event %zu: %s failed with %d although memory was available", i, e.op.c_str(), rc)); break; }
            c.probe("calls_failed");
            if (s.hash_all() != h0) { c.viol("changed", fmt("event %zu: %s(%lld,%lld) reported failure %d but changed the visible state", i, e.op.c_str(), (long long)e.arg(0), (long long)e.arg(1), rc)); break; }
            if (e.op != "copy" && sut_history(s) != hb) { c.viol("changed", fmt("event %zu: %s reported failure %d but changed the scrollback", i, e.op.c_str(), rc)); break; }
            if (e.op != "resize" && sim_as.live_blocks != blocks0) { c.viol("leak", fmt("event %zu: failed %s left %lld more blocks allocated", i, e.op.c_str(), (long long)(sim_as.live_blocks - blocks0))); break; }
            if (gives_up) { c.probe("not_tried_again"); continue; } // everything goes on as if the call had not been made
            // memory is back: the same call succeeds
            f0 = sim_as.fails; call(false);
            if (rc != 0) { c.viol("retry", fmt("event %zu: %s fails with %d after memory became available again", i, e.op.c_str(), rc)); break; }
            failed = false;
        }
        if (e.op == "copy" || e.op == "audit" || e.op == "selstart" || e.op == "seltarget" || e.op == "selreset") {
            if (e.op != "audit") continue;
        } else if (e.op == "custom") {
            // only stored; selected by name
            ref::Palette p; (void)p; m.set_palette(m.pal);
        } else apply_model(m, e);
        size_t mo = 0; (void)mo;
        // after any event: everything visible as in the model ...
        std::string d = diff_cursor(s, m); if (d.empty()) d = diff_state(s, m);
        if (d.empty()) { tsm_screen_sb_reset(s.con); m.s.sb_reset(); d = diff_grid(s.draw(), m, CMP_CHARS | CMP_ATTRS); }
        if (d.empty() && e.op == "feed") { std::string a = s.out.substr(out0), b; for (auto &x : m.out) b += x; if (a != b) d = "reply '" + show(a) + "', expected '" + show(b) + "'"; }
        m.out.clear();
        if (!d.empty()) { if (failed) c.viol("state", fmt("event %zu: %s with a failing allocation: %s", i, e.op.c_str(), d.c_str())); else if (c.nontrivial) c.viol("later", fmt("event %zu (%s), after earlier allocation failures: %s", i, e.op.c_str(), d.c_str())); else c.alien("content", d); break; }
        // ... and the history too, except for lines lost to a failed allocation
        if (failed) lossy = true;
        if (failed && s.sbn() != m.s.sb.size()) c.probe("history_lines_lost", 1);
        if (m.s.is_alt()) { // cannot look at the history now
            if (s.sbn() > m.s.sb.size() + m.s.gone_lines.size()) { c.viol("history", fmt("event %zu: %u history lines, at most %zu possible", i, s.sbn(), m.s.sb.size() + m.s.gone_lines.size())); break; }
            continue;
        }
        std::vector<std::string> have = sut_history(s), want; for (auto &l : m.s.sb) want.push_back(line_text(l, m.s.w));
        // the same look does not mean the same lines: some may differ only beyond the right border
        if (have != want || (lossy && m.s.gone_lines.size() + m.s.sb.size() > have.size())) {
            if (!lossy) { if (c.nontrivial) c.viol("history", fmt("event %zu (%s): history (%zu lines) differs from the %zu lines scrolled out, without an allocation failure in between", i, e.op.c_str(), have.size(), want.size())); else c.alien("history", "content"); break; }
            // align from the newest line backwards; lost lines leave room, so older lines than a full history would hold may be there too
            std::deque<ref::Line> pool = m.s.gone_lines; for (auto &l : m.s.sb) pool.push_back(l);
            size_t k = pool.size(); bool ok = true, amb = false; std::deque<ref::Line> keep;
            for (size_t q = have.size(); q-- > 0 && ok;) {
                while (k > 0 && line_text(pool[k - 1], m.s.w) != have[q]) --k;
                if (!k) { ok = false; break; }
                keep.push_front(pool[--k]);
                for (size_t z = 0; z < k && !amb; ++z) if (line_text(pool[z], m.s.w) == have[q] && line_text(pool[z], 0) != line_text(pool[k], 0)) amb = true;
            }
            if (!ok) { c.viol("history", fmt("event %zu (%s): the history contains lines that were not scrolled out, or in another order ('%s')", i, e.op.c_str(), have.empty() ? "" : show(have[0]).c_str())); break; }
            if (have.size() > m.s.sb_max) { c.viol("history", fmt("event %zu (%s): %zu history lines, limit %u", i, e.op.c_str(), have.size(), m.s.sb_max)); break; }
            if (amb) { c.alien("history", "cannot tell which of two equal-looking lines was lost"); break; }
            m.s.sb = keep;
        }
        lossy = false; m.s.gone_lines.clear();
        c.logn(s.hash_all()); c.logn(have.size());
        c.state(mix64(mix64(failed, (u64)at), mix64(m.s.w * 64 + m.s.h, have.size())));
    }
    s.destroy();
    if (!c.stop() && sim_as.live_blocks) c.viol("leak", fmt("%llu blocks (%llu bytes) are still allocated at the end", (unsigned long long)sim_as.live_blocks, (unsigned long long)sim_as.live_bytes));
}

// ---- C13 -------------------------------------------------------------------
static void gen13(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    for (int f = 0; f < T_NUM; ++f) g.wt[f] = 2;
    g.wt[T_TEXT] = 10; g.wt[T_C0] = 10; g.wt[T_SCROLL] = 8; g.wt[T_OSC] = 4; g.wt[T_ZERO] = 3;
    int n = (int)r.range(5, tier ? 120 : 45); u64 now = 0;
    t.cfg["cycles"] = r.chance(1, 2) ? (tier ? 12 : 7) : 1;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(10)) {
        case 0: { i64 w = std::max<i64>(1, (i64)g.w + r.range(-5, 5)), h = std::max<i64>(1, (i64)g.h + r.range(-3, 4)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; break; }
        case 1: t.ev.push_back(r.chance(1, 2) ? ev(now, "palette", {}, r.pick(std::vector<std::string>{"legacy", "vga", "nonsense", "soft-black", "custom", "", ""})) : ev(now, "custom", {(i64)r.below(9)})); break;
        case 2: t.ev.push_back(ev(now, "selstart", {(i64)r.below(g.w), (i64)r.below(g.h)})); t.ev.push_back(ev(now, "seltarget", {(i64)r.below(g.w), (i64)r.below(g.h)})); t.ev.push_back(ev(now, "copy")); break;
        case 3: t.ev.push_back(r.chance(1, 2) ? ev(now, "maxsb", {(i64)r.below(12)}) : r.chance(1, 2) ? ev(now, "clearsb") : rnd_view_event(r, now, g.h, 10)); break;
        case 4: t.ev.push_back(ev(now, r.pick(std::vector<const char *>{"sref", "sunref", "vref", "vunref", "sunref", "vunref"}))); break;
        case 5: t.ev.push_back(r.chance(1, 2) ? rnd_key_event(r, now) : rnd_mouse_event(r, now, g.w, g.h)); break;
        case 6: if (r.chance(1, 3)) t.ev.push_back(ev(now, r.chance(1, 2) ? "vhard" : "vreset")); else t.ev.push_back(ev(now, "draw2")); break;
        default: { std::string b; int k = (int)r.range(1, 4); for (int q = 0; q < k; ++q) b += g.piece(r) + (r.chance(1, 2) ? "\r\n" : ""); emit_feed(r, t, now, b, 0); }
        }
    }
    t.cfg["screenfirst"] = r.below(2);
}
static void exec13(const Trace &t, Ctx &c) {
    Sut s; start(t, s, nullptr);
    int sr = 1, vr = 1; // references held by the application
    auto use = [&](size_t i) { // both objects work as long as somebody holds them
        if (vr) { s.feed("ok\r\n"); }
        if (sr || vr) { Grid g = s.draw(); c.check(); if (!g.order_ok) c.viol("use", fmt("event %zu: screen unusable while referenced", i)); }
    };
    int cycles = (int)t.get("cycles", 1); std::vector<u64> blocks, bytes;
    // Caches and lines that are only widened when they come round again settle after a bounded number of
    // repetitions; whoever still grows after the usual few gets many more before it is judged.
    auto rising = [&]() { size_t n = blocks.size(); if (n < 6) return false; bool up = true; for (size_t k = n - 4; k < n; ++k) if (bytes[k] <= bytes[k - 1]) up = false; return up || blocks[n - 1] > blocks[2]; };
    const int LONG = 128;
    for (int cy = 0; (cy < cycles || (cycles > 1 && cy < LONG && (cy > cycles || rising()))) && !c.stop() && (sr || vr); ++cy) {
        for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
            const Ev &e = t.ev[i]; c.at = i;
            if (!sr && !vr) break;
            if (e.op == "sref") { if (sr) { tsm_screen_ref(s.con); ++sr; } }
            else if (e.op == "vref") { if (vr) { tsm_vte_ref(s.vte); ++vr; } }
            else if (e.op == "sunref") { if (sr && (cycles == 1 || sr > 1)) { tsm_screen_unref(s.con); --sr; c.probe("screen_unrefs"); if (sr || vr) use(i); } }
            else if (e.op == "vunref") { if (vr && (cycles == 1 || vr > 1)) { tsm_vte_unref(s.vte); --vr; c.probe("vte_unrefs"); if (sr || vr) use(i); } }
            else if (e.op == "copy") { std::string x; s.copy(x); c.log(x); }
            else if (e.op == "draw2") { Grid g = s.draw(); c.logn(g.ret); }
            else if (vr) apply_sut(s, e);
            else if (e.op == "resize") { s.budget(4, (unsigned)e.arg(0), (unsigned)e.arg(1)); tsm_screen_resize(s.con, (unsigned)e.arg(0), (unsigned)e.arg(1)); Sut::disarm(); }
            else continue;
            c.check();
            if (sim_as.bad_frees) c.viol("free", fmt("event %zu (%s): memory that is not allocated was freed", i, e.op.c_str()));
            s.out.clear(); s.osc.clear(); s.mcb.clear(); s.writes.clear();
        }
        if (cycles > 1 && vr) { // back to the same size, empty history, same settings
            tsm_vte_hard_reset(s.vte); tsm_screen_selection_reset(s.con); tsm_vte_set_palette(s.vte, "legacy"); tsm_vte_set_custom_palette(s.vte, nullptr);
            tsm_screen_set_max_sb(s.con, (unsigned)t.get("sb")); tsm_screen_clear_sb(s.con);
            s.budget(4, (unsigned)t.get("w"), (unsigned)t.get("h")); tsm_screen_resize(s.con, (unsigned)t.get("w"), (unsigned)t.get("h")); Sut::disarm();
            tsm_screen_clear_sb(s.con); tsm_vte_hard_reset(s.vte);
            blocks.push_back(sim_as.live_blocks); bytes.push_back(sim_as.live_bytes);
            c.state(mix64(sim_as.live_blocks, sim_as.live_bytes));
        }
    }
    size_t n = blocks.size();
    if (n >= 6) {
        c.check(); c.probe("plateaus_judged");
        if (n >= (size_t)LONG) {
            c.probe("long_repetitions");
            auto grows = [&](const std::vector<u64> &v) { return v[n - 1] > v[n * 3 / 4] && v[n * 3 / 4] > v[n / 2] && v[n / 2] > v[n / 4]; };
            if (grows(blocks)) c.viol("growth", fmt("number of allocated blocks grows from %llu to %llu while the same work is repeated %zu times", (unsigned long long)blocks[2], (unsigned long long)blocks[n - 1], n));
            else if (grows(bytes)) c.viol("growth", fmt("memory keeps growing while the same work is repeated %zu times: %llu ... %llu bytes", n, (unsigned long long)bytes[2], (unsigned long long)bytes[n - 1]));
        }
    }
    c.nontrivial = true;
    if (!c.stop()) {
        auto su = [&]() { while (sr) { tsm_screen_unref(s.con); --sr; if (sr || vr) use(t.ev.size()); } };
        auto vu = [&]() { while (vr) { tsm_vte_unref(s.vte); --vr; if (sr || vr) use(t.ev.size()); } };
        if (t.get("screenfirst")) { su(); vu(); } else { vu(); su(); }
        c.check();
        if (sim_as.live_blocks) c.viol("leak", fmt("%llu blocks (%llu bytes) are still allocated after the last reference was dropped", (unsigned long long)sim_as.live_blocks, (unsigned long long)sim_as.live_bytes));
        if (sim_as.bad_frees) c.viol("free", "memory that is not allocated was freed at the end");
    }
    c.logn(sim_as.calls); c.logn(sim_as.peak_bytes);
}

void props_robust(std::vector<Prop> &v) {
    v.push_back({"C11", gen11, exec11});
    v.push_back({"C12", gen12, exec12});
    v.push_back({"C13", gen13, exec13});
}
