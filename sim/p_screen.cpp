// Properties about what the screen shows: C01-C07, C17, C19, C21.
#include "world.h"
#include "gen.h"
#include "props.h"

static void start(const Trace &t, Sut &s, ref::Term *m) {
    unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6), sb = (unsigned)t.get("sb", 0);
    s.create(w, h, sb);
    if (m) { ref::Palette p; ref::palette_named("legacy", p); m->create(w, h, p); m->s.sb_max = sb; }
}
static void dims(Rng &r, Trace &t, StreamGen &g, i64 minw = 1, i64 minh = 1) {
    i64 w, h; pick_size(r, w, h);
    if (w < minw) w = minw;
    if (h < minh) h = minh;
    t.cfg["w"] = w; t.cfg["h"] = h; g.w = (unsigned)w; g.h = (unsigned)h;
    static const std::vector<i64> sbs = {0, 1, 2, 5, 20, 100};
    t.cfg["sb"] = r.pick(sbs);
}
static int frag(Rng &r) { static const std::vector<int> f = {0, 0, 1, 3, 16}; return r.pick(f); }

// ---- C04 -------------------------------------------------------------------
static void gen04(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_TEXT, 30}, {T_UTF8, 4}, {T_WIDE, 6}, {T_ZERO, 1}, {T_C0, 14}, {T_MOVE, 16}, {T_ERASE, 8}, {T_INSDEL, 6}, {T_LINES, 6},
           {T_SCROLL, 4}, {T_MARGIN, 4}, {T_TAB, 6}, {T_WRAPMODE, 2}, {T_INSMODE, 2}, {T_ORIGIN, 2}, {T_LNM, 1}, {T_ALT, 1}, {T_SRESET, 1},
           {T_SAVE, 1}, {T_SGR, 1}, {T_CURMODE, 1}});
    // swarm: switch some features off for this run
    for (auto &x : g.wt) if (r.chance(1, 4)) x = 0;
    g.wt[T_TEXT] = std::max(g.wt[T_TEXT], 10u);
    int n = (int)r.range(10, tier ? 220 : 90), mf = frag(r), dr = (int)r.range(1, 4); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 14)) { t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); continue; }
        emit_feed(r, t, now, g.piece(r), mf);
        if (r.chance(1, dr)) t.ev.push_back(ev(now, "draw"));
    }
    t.ev.push_back(ev(now, "draw"));
}
static void exec04(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        apply_sut(s, e); apply_model(m, e);
        std::string d = diff_cursor(s, m); c.check();
        if (!d.empty()) { c.viol("cursor", fmt("event %zu (%s): %s", i, show(e.b).c_str(), d.c_str())); break; }
        if (e.op == "draw") {
            if (m.s.viewing) { m.s.sb_reset(); tsm_screen_sb_reset(s.con); }
            Grid g = s.draw(); c.check();
            d = diff_grid(g, m, CMP_CHARS);
            if (!d.empty()) { c.viol("cells", fmt("event %zu: %s", i, d.c_str())); break; }
            for (unsigned y = 0; y < g.h; ++y) c.log(g.row(y));
        }
        c.logn(s.cx() << 16 | s.cy()); c.state(abstract_state(m));
    }
    if (m.s.wraps) c.probe("wrap");
    if (m.s.scrolls) c.probe("scroll");
    c.nontrivial = m.s.wraps + m.s.scrolls > 0;
    s.destroy();
}

// ---- C05 -------------------------------------------------------------------
static void gen05(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_TEXT, 30}, {T_WIDE, 3}, {T_C0, 16}, {T_MOVE, 10}, {T_ERASE, 4}, {T_SGR, 8}, {T_ALT, 5}, {T_MARGIN, 4}, {T_TAB, 3}, {T_SCROLL, 2},
           {T_LINES, 2}, {T_ORIGIN, 1}, {T_WRAPMODE, 1}, {T_SAVE, 1}});
    for (auto &x : g.wt) if (r.chance(1, 5)) x = 0;
    g.wt[T_TEXT] = std::max(g.wt[T_TEXT], 10u);
    int n = (int)r.range(8, tier ? 160 : 60); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 5)) {
            i64 w = t.get("w"), h = t.get("h");
            if (r.chance(1, 3)) pick_size(r, w, h);
            else { w = std::max<i64>(1, (i64)g.w + r.range(-4, 4)); h = std::max<i64>(1, (i64)g.h + r.range(-3, 3)); if (r.chance(1, 4)) w = g.w; if (r.chance(1, 4)) h = g.h; }
            if (r.chance(1, 60)) h = r.range(130, 300);
            t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h;
        } else if (r.chance(1, 20)) t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb")));
        else emit_feed(r, t, now, g.piece(r), r.chance(1, 5) ? 3 : 0);
        if (r.chance(1, 3)) t.ev.push_back(ev(now, "draw"));
    }
    t.ev.push_back(ev(now, "draw"));
}
static void exec05(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    bool resized = false;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        bool rs = e.op == "resize" && e.arg(0) > 0 && e.arg(1) > 0;
        auto compare = [&](bool own, const char *when) {
            std::string d = diff_cursor(s, m); c.check();
            if (d.empty()) d = diff_grid(s.draw(), m, own ? CMP_CHARS | CMP_ATTRS : CMP_CHARS);
            if (d.empty() && s.sbn() != m.s.sb.size()) d = fmt("%u scrollback lines, expected %zu", s.sbn(), m.s.sb.size());
            if (!d.empty()) { if (own) c.viol("resize", fmt("event %zu, %s: %s", i, when, d.c_str())); else c.alien("pre-resize", d); }
        };
        if (rs) compare(resized, resized ? "between resizes" : "before"); // before the first resize any difference is not about resizing
        if (c.stop()) break;
        apply_sut(s, e); apply_model(m, e);
        if (rs) {
            resized = true; c.nontrivial = true;
            c.probe((unsigned)e.arg(1) < m.s.h ? "shrink" : "resize"); c.fault("resize");
            if (m.s.is_alt()) c.probe("resize_in_alt");
            compare(true, fmt("after resize to %lldx%lld", (long long)e.arg(0), (long long)e.arg(1)).c_str());
        } else if (e.op == "draw") {
            Grid g = s.draw();
            for (unsigned y = 0; y < g.h; ++y) c.log(g.row(y));
            compare(resized, "at redraw");
        }
        c.logn(s.cx() << 16 | s.cy()); c.state(abstract_state(m));
    }
    // history entered by shrinking must read back in order
    if (!c.stop() && resized) {
        tsm_screen_sb_up(s.con, 1000000); m.s.sb_up(1000000);
        std::string d = diff_grid(s.draw(), m, CMP_CHARS); c.check();
        if (!d.empty()) c.viol("history", "top of history: " + d);
    }
    s.destroy();
}

// ---- C06 -------------------------------------------------------------------
static void gen06(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g, 6, 1);
    if (t.get("h") > 8) { t.cfg["h"] = r.range(2, 6); g.h = (unsigned)t.get("h"); }
    t.cfg["w"] = g.w = std::max(8u, g.w > 20 ? 20u : g.w);
    t.cfg["sb"] = r.pick(std::vector<i64>{0, 1, 2, 3, 5, 8, 20});
    int n = (int)r.range(20, tier ? 300 : 120); u64 now = 0;
    if (r.chance(1, 50)) { // tall: more lines at once than the library moves in one go
        t.cfg["h"] = r.range(120, 300); g.h = (unsigned)t.get("h"); t.cfg["w"] = g.w = 8; n = (int)r.range(10, 30);
        if (r.chance(3, 4)) t.cfg["sb"] = r.range(100, 700);
    }
    if (r.chance(1, 3)) t.ev.push_back(ev(0, "fixed", {1}));
    bool resets = r.chance(1, 4);
    int many = (int)r.below(n);
    if (r.chance(1, 200)) t.cfg["sb"] = 100000;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (i == many && rnd_many(r, t, now, "\r\n" + g.label(r))) continue;
        switch (r.below(16)) {
        case 0: case 1: case 2: case 3: case 4: { // lines of output
            std::string b; int k = (int)r.range(1, 4);
            for (int q = 0; q < k; ++q) b += "\r\n" + g.label(r);
            emit_feed(r, t, now, b, r.chance(1, 6) ? 4 : 0); break; }
        case 5: emit_feed(r, t, now, "\x1b[" + num(r, g.h) + "S", 0); break;
        case 6: emit_feed(r, t, now, r.chance(1, 2) ? g.pieceof(r, T_MARGIN) : "\x1b[r", 0); break;
        case 7: emit_feed(r, t, now, g.pieceof(r, r.chance(1, 2) ? T_MOVE : T_SCROLL), 0); break;
        case 8: if (r.chance(1, 2)) emit_feed(r, t, now, g.pieceof(r, T_ALT), 0); else emit_feed(r, t, now, "\x1b[999;1H" + g.label(r), 0); break;
        case 9: case 10: case 11: t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break;
        case 12: if (r.chance(1, 3)) t.ev.push_back(ev(now, "maxsb", {r.pick(std::vector<i64>{0, 1, 2, 3, 5, 8, 20})})); else if (r.chance(1, 3)) t.ev.push_back(ev(now, "clearsb")); else t.ev.push_back(ev(now, "sbreset")); break;
        case 13: if (r.chance(1, 3)) t.ev.push_back(ev(now, "fixed", {(i64)r.below(2)})); else if (resets && r.chance(1, 3)) emit_feed(r, t, now, r.chance(1, 2) ? "\x1b[!p" : "\x1b" "c", 0); break;
        case 14: if (r.chance(1, 2)) { i64 w = std::max<i64>(8, (i64)g.w + r.range(-3, 3)), h = std::max<i64>(1, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; } break;
        case 15: t.ev.push_back(ev(now, "audit")); break;
        }
        if (r.chance(1, 3)) t.ev.push_back(ev(now, "draw"));
    }
    t.ev.push_back(ev(now, "audit"));
}
static void exec06(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        apply_sut(s, e); apply_model(m, e);
        c.check();
        if (s.sbn() != m.s.sb.size()) { c.viol("count", fmt("event %zu (%s %s): %u scrollback lines, expected %zu", i, e.op.c_str(), show(e.b).c_str(), s.sbn(), m.s.sb.size())); break; }
        if (s.sbn() > m.s.sb_max) { c.viol("bound", "more scrollback lines than the maximum"); break; }
        if ((int)s.sbpos() != m.s.view_index()) { c.viol("position", fmt("event %zu (%s %s): reported view position %u, the line at the top of the view has index %d of %zu", i, e.op.c_str(), show(e.b).c_str(), s.sbpos(), m.s.view_index(), m.s.sb.size())); break; }
        if (e.op == "draw" || e.op == "audit") {
            Grid g = s.draw(); std::string d = diff_grid(g, m, CMP_CHARS);
            for (unsigned y = 0; y < g.h; ++y) c.log(g.row(y));
            if (!d.empty()) { if (m.s.viewing) c.viol("view", fmt("event %zu: %s", i, d.c_str())); else c.alien("screen", d); break; }
        }
        if (e.op == "audit") { // read the whole history back, then return to where we were
            bool was = m.s.viewing; size_t pos = (size_t)m.s.view_index();
            for (ref::Screen *q = &m.s; q; q = nullptr) { q->sb_up(1u << 20); tsm_screen_sb_up(s.con, 1u << 20); }
            while (!c.stop()) {
                std::string d = diff_grid(s.draw(), m, CMP_CHARS); c.check();
                if (!d.empty()) { c.viol("history", fmt("event %zu, view at line %d: %s", i, m.s.view_index(), d.c_str())); break; }
                if (!m.s.viewing) break;
                m.s.sb_down(m.s.h); tsm_screen_sb_page_down(s.con, 1);
                if ((int)s.sbpos() != m.s.view_index()) c.viol("position", fmt("event %zu: paging down reports %u, expected %d", i, s.sbpos(), m.s.view_index()));
            }
            if (was && !c.stop()) { unsigned up = (unsigned)(m.s.sb.size() - pos); m.s.sb_up(up); tsm_screen_sb_up(s.con, up); }
            c.probe("audits");
        }
        if (m.s.viewing) { c.probe("events_while_scrolled_back"); if (m.s.dropped) c.nontrivial = true; }
        c.logn(s.sbn() << 8 | s.sbpos()); c.state(abstract_state(m));
    }
    if (m.s.dropped) c.probe("runs_with_dropped_lines");
    if (m.s.scrolled_out > 2) c.nontrivial = true;
    s.destroy();
}

// ---- C07 -------------------------------------------------------------------
struct MainSnap { Grid g; unsigned cx, cy, sbn; std::vector<std::string> hist; };
static Grid normalised(Sut &s) {
    Grid g = s.draw(); unsigned f = tsm_screen_get_flags(s.con);
    // remove cursor and inverse-mode rendering: what remains is the cell content
    if (f & TSM_SCREEN_INVERSE) for (auto &k : g.c) k.at.inverse = !k.at.inverse;
    unsigned r0 = s.sbn() - s.sbpos(), x = std::min(s.cx(), g.w - 1), y = r0 + s.cy();
    if (!(f & TSM_SCREEN_HIDE_CURSOR) && y < g.h) { auto &k = g.c[(size_t)y * g.w + x]; k.at.inverse = !k.at.inverse; }
    for (auto &k : g.c) k.age = 0;
    return g;
}
static MainSnap snap(Sut &s) {
    MainSnap n; tsm_screen_sb_reset(s.con);
    n.g = normalised(s); n.cx = s.cx(); n.cy = s.cy(); n.sbn = s.sbn();
    unsigned left = n.sbn;
    tsm_screen_sb_up(s.con, 1u << 20);
    while (left) {
        Grid g = s.draw();
        for (unsigned y = 0; y < g.h && left; ++y, --left) n.hist.push_back(g.row(y));
        tsm_screen_sb_page_down(s.con, 1);
    }
    tsm_screen_sb_reset(s.con);
    return n;
}
static void gen07(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_TEXT, 30}, {T_WIDE, 3}, {T_C0, 16}, {T_MOVE, 12}, {T_ERASE, 6}, {T_INSDEL, 3}, {T_LINES, 4}, {T_SCROLL, 4}, {T_MARGIN, 3}, {T_TAB, 2},
           {T_SGR, 8}, {T_ORIGIN, 2}, {T_WRAPMODE, 1}, {T_INSMODE, 1}, {T_CURMODE, 2}, {T_INERT, 1}, {T_CHARSET, 1}, {T_QUERY, 1}});
    u64 now = 0; int rounds = (int)r.range(1, tier ? 6 : 3);
    for (int k = 0; k < rounds; ++k) {
        int n = (int)r.range(3, 20);
        for (int i = 0; i < n; ++i) { tick(r, now); emit_feed(r, t, now, g.piece(r), r.chance(1, 5) ? 2 : 0); if (r.chance(1, 10)) emit_feed(r, t, now, "\x1b" "7", 0); }
        i64 v = r.below(3); // 47, 1047, 1049
        t.ev.push_back(ev(now, "enter", {v}));
        n = (int)r.range(1, 30);
        for (int i = 0; i < n; ++i) {
            tick(r, now);
            if (r.chance(1, 8)) t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb")));
            else if (r.chance(1, 10)) emit_feed(r, t, now, r.chance(1, 2) ? "\x1b" "7" : "\x1b" "8", 0);
            else if (r.chance(1, 8)) t.ev.push_back(ev(now, "draw"));
            else if (r.chance(1, 20)) t.ev.push_back(ev(now, "reenter", {(i64)r.below(3)}));
            else emit_feed(r, t, now, g.piece(r), r.chance(1, 5) ? 2 : 0);
        }
        t.ev.push_back(ev(now, "leave", {r.chance(1, 6) ? (i64)r.below(3) : v == 2 ? 2 : (i64)r.below(2)}));
        if (r.chance(1, 4)) { // left again, at once or later
            n = r.chance(1, 2) ? 0 : (int)r.range(1, 6);
            for (int i = 0; i < n; ++i) { tick(r, now); emit_feed(r, t, now, g.piece(r), 0); }
            t.ev.push_back(ev(now, "releave", {(i64)r.below(3)}));
        }
    }
}
static void exec07(const Trace &t, Ctx &c) {
    Sut s; start(t, s, nullptr);
    static const char *num[3] = {"47", "1047", "1049"};
    bool in = false, resaved = false; i64 how = 0; MainSnap n;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if ((e.op == "reenter" && in) || (e.op == "releave" && !in)) { // switching to the screen that is displayed already
            unsigned f0 = tsm_screen_get_flags(s.con), v0 = tsm_vte_get_flags(s.vte); i64 v = e.arg(0) % 3;
            MainSnap b; if (!in) b = snap(s);
            s.feed(std::string("\x1b[?") + num[v] + (in ? "h" : "l")); c.check(); c.probe(in ? "entered_again" : "left_again");
            if (tsm_screen_get_flags(s.con) != f0 || tsm_vte_get_flags(s.vte) != v0) { c.viol("modes", fmt("event %zu: ?%s%c changed modes: screen %#x to %#x, terminal %#x to %#x", i, num[v], in ? 'h' : 'l', f0, tsm_screen_get_flags(s.con), v0, tsm_vte_get_flags(s.vte))); break; }
            if (in && v == 2) {
                resaved = true;
                tsm_screen_sb_reset(s.con);
                Grid g = normalised(s);
                for (auto &k : g.c) if (k.w != 1 || k.ch != ' ') { c.viol("notblank", fmt("event %zu: alternate screen entered again with ?1049h is not blank: '%s'", i, show(g.row(0)).c_str())); break; }
            } else if (!in) {
                MainSnap a = snap(s);
                std::string d = a.sbn != b.sbn || a.hist != b.hist ? "scrollback differs" : grid_vs_grid(b.g, a.g);
                if (d.empty() && v < 2 && (a.cx != b.cx || a.cy != b.cy)) d = "cursor moved";
                if (!d.empty()) c.viol("main", fmt("event %zu: ?%sl on the main screen changed it: %s", i, num[v], d.c_str()));
            }
        } else if (e.op == "enter" && !in) {
            n = snap(s); how = e.arg(0); in = true; resaved = false;
            unsigned f0 = tsm_screen_get_flags(s.con), v0 = tsm_vte_get_flags(s.vte);
            s.feed(std::string("\x1b[?") + num[how % 3] + "h"); c.check();
            if ((tsm_screen_get_flags(s.con) ^ TSM_SCREEN_ALTERNATE) != f0 || tsm_vte_get_flags(s.vte) != v0) { c.viol("modes", fmt("event %zu: entering with ?%sh changed other modes: screen %#x to %#x, terminal %#x to %#x", i, num[how % 3], f0, tsm_screen_get_flags(s.con), v0, tsm_vte_get_flags(s.vte))); break; }
            if (!(tsm_screen_get_flags(s.con) & TSM_SCREEN_ALTERNATE)) { c.viol("enter", fmt("?%sh did not switch to the alternate screen", num[how % 3])); break; }
            if (how == 2) {
                Grid g = normalised(s);
                for (auto &k : g.c) if (k.w != 1 || k.ch != ' ') { c.viol("notblank", fmt("event %zu: alternate screen entered with ?1049h is not blank: '%s'", i, show(g.row(0)).c_str())); break; }
            }
            c.nontrivial = true;
        } else if (e.op == "leave" && in) {
            in = false;
            unsigned f0 = tsm_screen_get_flags(s.con), v0 = tsm_vte_get_flags(s.vte);
            s.feed(std::string("\x1b[?") + num[e.arg(0) % 3] + "l");
            unsigned cx = s.cx(), cy = s.cy();
            if ((tsm_screen_get_flags(s.con) ^ TSM_SCREEN_ALTERNATE) != f0 || tsm_vte_get_flags(s.vte) != v0) c.viol("modes", fmt("event %zu: leaving changed other modes: screen %#x to %#x, terminal %#x to %#x", i, f0, tsm_screen_get_flags(s.con), v0, tsm_vte_get_flags(s.vte)));
            if (how == 2 && e.arg(0) % 3 == 2 && !resaved && (cx != std::min(n.cx, s.w() - 1) || cy != n.cy)) c.viol("cursor", fmt("event %zu: cursor was (%u,%u) when ?1049h entered, (%u,%u) after ?1049l", i, n.cx, n.cy, cx, cy));
            MainSnap a = snap(s); c.check();
            if (a.sbn != n.sbn) c.viol("scrollback", fmt("event %zu: scrollback had %u lines on entry, %u on leaving", i, n.sbn, a.sbn));
            else if (a.hist != n.hist) c.viol("scrollback", fmt("event %zu: scrollback content changed while in the alternate screen", i));
            std::string d = grid_vs_grid(n.g, a.g);
            if (!d.empty()) c.viol("main", fmt("event %zu: main screen on entry vs after leaving: %s", i, d.c_str()));
            for (unsigned y = 0; y < a.g.h; ++y) c.log(a.g.row(y));
            c.probe("alt_round_trips");
        } else if (e.op == "draw") { c.log(s.draw().row(0)); }
        else apply_sut(s, e);
        c.logn(s.cx() << 16 | s.cy());
        c.state(mix64(s.cx() * 100 + s.cy(), tsm_screen_get_flags(s.con) * 2 + in));
    }
    s.destroy();
}

// ---- C01 -------------------------------------------------------------------
static void gen01(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    for (int f = 0; f < T_NUM; ++f) g.wt[f] = 3;
    g.wt[T_TEXT] = 15; g.wt[T_UTF8] = 10; g.wt[T_WIDE] = 6; g.wt[T_SGR] = 8; g.wt[T_OSC] = 5; g.wt[T_GARBAGE] = r.chance(1, 3) ? 12 : 1; g.wt[T_8BIT] = r.chance(1, 5) ? 2 : 0;
    t.cfg["frag"] = (i64)(r.next() >> 2); t.cfg["maxfrag"] = r.pick(std::vector<i64>{1, 1, 2, 3, 7, 30});
    int n = (int)r.range(8, tier ? 150 : 60); u64 now = 0; bool echo = r.chance(1, 4); // with local echo keys write to the screen, too
    if (echo) t.ev.push_back(ev(now, "feed", {}, "\x1b[12l"));
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (echo && r.chance(1, 15)) emit_feed(r, t, now, r.chance(1, 3) ? "\x1b[12h" : "\x1b[12l", 0);
        if (r.chance(1, echo ? 6 : 12)) {
            switch (echo && r.chance(1, 2) ? 0 : r.below(6)) {
            case 0: t.ev.push_back(rnd_key_event(r, now)); break;
            case 1: t.ev.push_back(rnd_mouse_event(r, now, g.w, g.h)); break;
            case 2: { i64 w = std::max<i64>(1, (i64)g.w + r.range(-3, 3)), h = std::max<i64>(1, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); break; }
            case 3: t.ev.push_back(rnd_view_event(r, now, g.h, 20)); break;
            default: t.ev.push_back(ev(now, "draw")); break;
            }
        } else emit_feed(r, t, now, g.piece(r), r.chance(1, 4) ? 5 : 0);
    }
    t.ev.push_back(ev(now, "draw"));
}
static void exec01(const Trace &t, Ctx &c) {
    Sut a, b; start(t, a, nullptr); start(t, b, nullptr);
    Rng fr((u64)t.get("frag", 1)); i64 mf = std::max<i64>(1, t.get("maxfrag", 3));
    std::string pend; u64 cuts = 0;
    auto flush = [&]() {
        if (pend.empty()) return;
        a.feed(pend); // one call
        for (size_t i = 0; i < pend.size();) { // many calls
            size_t k = (size_t)fr.range(1, mf); if (k > pend.size() - i) k = pend.size() - i;
            if (fr.chance(1, 9)) { b.feed(""); c.fault("zero_length_read"); }
            b.feed(pend.substr(i, k)); ++cuts; i += k;
            if (i < pend.size() && ((u8)pend[i] & 0xc0) == 0x80) c.fault("cut_inside_utf8");
            else if (i < pend.size() && pend[i - 1] == 0x1b) c.fault("cut_after_esc");
        }
        pend.clear(); c.fault("short_read", cuts);
        cuts = 0;
    };
    auto compare = [&](size_t i) {
        c.check();
        if (a.out != b.out) { c.viol("replies", fmt("event %zu: replies '%s' unsplit, '%s' split", i, show(a.out).c_str(), show(b.out).c_str())); return; }
        if (a.osc != b.osc) { c.viol("osc", fmt("event %zu: OSC deliveries differ (%zu vs %zu)", i, a.osc.size(), b.osc.size())); return; }
        if (a.mcb != b.mcb) { c.viol("mousecb", fmt("event %zu: mouse callbacks differ", i)); return; }
        if (a.cx() != b.cx() || a.cy() != b.cy()) { c.viol("cursor", fmt("event %zu: cursor (%u,%u) unsplit, (%u,%u) split", i, a.cx(), a.cy(), b.cx(), b.cy())); return; }
        Grid x = a.draw(), y = b.draw();
        std::string d = grid_vs_grid(x, y);
        if (!d.empty()) { c.viol("screen", fmt("event %zu, unsplit vs split: %s", i, d.c_str())); return; }
        if (a.hash_all() != b.hash_all()) c.viol("modes", fmt("event %zu: modes or scrollback counters differ", i));
        c.logn(a.hash_all());
    };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "feed") { pend += e.b; continue; }
        flush();
        if (e.op == "draw") compare(i);
        else { apply_sut(a, e); apply_sut(b, e); if (e.op == "resize") c.fault("resize"); }
        c.state(mix64(a.cx() * 100 + a.cy(), tsm_screen_get_flags(a.con) * 65536ull + tsm_vte_get_flags(a.vte)));
    }
    flush();
    if (!c.stop()) compare(t.ev.size());
    // history must match as well
    if (!c.stop()) {
        tsm_screen_sb_up(a.con, 1u << 20); tsm_screen_sb_up(b.con, 1u << 20);
        std::string d = grid_vs_grid(a.draw(), b.draw());
        if (!d.empty()) c.viol("history", "unsplit vs split: " + d);
    }
    c.nontrivial = true;
    a.destroy(); b.destroy();
}

// ---- C02 -------------------------------------------------------------------
static void gen02(Rng &r, Trace &t, int tier) {
    t.cfg["w"] = 400; t.cfg["h"] = 1; t.cfg["sb"] = 0;
    int n = (int)r.range(1, tier ? 10 : 5); u64 now = 0; int mf = frag(r);
    for (int k = 0; k < n; ++k) {
        std::string s; int len = (int)r.range(1, 25); bool corrupt = r.chance(4, 5);
        for (int i = 0; i < len; ++i) {
            if (corrupt && r.chance(1, 6)) {
                switch (r.below(11)) {
                case 0: s += (char)r.range(0x80, 0xbf); break;                                // stray continuation
                case 1: { std::string u = ref::utf8(rnd_char(r, 4)); s += u.substr(0, u.size() - 1); break; } // truncated
                case 2: s += (char)r.range(0xf5, 0xff); break;                                // never valid
                case 3: { u32 c = (u32)r.range(0, 0x7f); s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); break; } // 2-byte overlong
                case 4: { u32 c = (u32)r.range(0, 0x7ff); if (r.chance(1, 2)) c &= 0x7f; s += "\xe0"; s += (char)(0x80 | c >> 6); s += (char)(0x80 | (c & 63)); break; } // 3-byte overlong
                case 5: { u32 c = (u32)r.range(0, 0xffff); if (r.chance(1, 2)) c &= 0x7f; s += "\xf0"; s += (char)(0x80 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); break; } // 4-byte overlong
                case 6: { u32 c = (u32)r.range(0xd800, 0xdfff); s += (char)(0xe0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); break; } // surrogate
                case 7: { s += "\xf4"; s += (char)r.range(0x90, 0xbf); s += (char)r.range(0x80, 0xbf); s += (char)r.range(0x80, 0xbf); break; } // beyond Unicode
                case 8: { std::string u = ref::utf8(rnd_char(r, 4)); u.insert(1 + r.below(u.size() - 1), 1, (char)r.range(r.chance(1, 2) ? 0xf5 : 0xc0, 0xff)); s += u; break; } // a byte inserted into a character
                case 9: { std::string u = ref::utf8(rnd_char(r, r.chance(1, 2) ? 2 : 4)); s += u.substr(0, r.range(1, (i64)u.size() - 1)); s += r.chance(1, 2) ? ref::utf8(rnd_char(r, r.chance(1, 2) ? 0 : 4)) : ""; break; } // cut anywhere
                default: { // noise on the wire: flip one bit of a valid character
                    std::string u = ref::utf8(rnd_char(r, (int)r.range(1, 4))); size_t p = r.below(u.size()); u[p] = (char)((u8)u[p] ^ (u8)(1u << r.below(8))); if ((u8)u[p] < 0x20 || (u8)u[p] == 0x7f) u[p] = (char)0x80; s += u; }
                }
            } else s += ref::utf8(rnd_char(r, r.chance(1, 2) ? 0 : (int)r.pick(std::vector<int>{1, 2, 4})));
        }
        t.ev.push_back(ev(now, "line"));
        emit_feed(r, t, now, s, mf);
    }
    t.ev.push_back(ev(now, "line"));
}
// decode by the Unicode standard's table of well-formed sequences
static int wf_len(const std::string &s, size_t i, u32 *cp) {
    auto B = [&](size_t k) -> int { return i + k < s.size() ? (u8)s[i + k] : -1; };
    auto cont = [](int b) { return b >= 0x80 && b <= 0xbf; };
    int a = B(0), b = B(1), c = B(2), d = B(3);
    if (a < 0x80) { *cp = (u32)a; return 1; }
    if (a >= 0xc2 && a <= 0xdf) { if (!cont(b)) return 0; *cp = (u32)((a & 31) << 6 | (b & 63)); return 2; }
    if (a >= 0xe0 && a <= 0xef) {
        if (!cont(b) || !cont(c)) return 0;
        if (a == 0xe0 && b < 0xa0) return 0;
        if (a == 0xed && b > 0x9f) return 0;
        *cp = (u32)((a & 15) << 12 | (b & 63) << 6 | (c & 63)); return 3;
    }
    if (a >= 0xf0 && a <= 0xf4) {
        if (!cont(b) || !cont(c) || !cont(d)) return 0;
        if (a == 0xf0 && b < 0x90) return 0;
        if (a == 0xf4 && b > 0x8f) return 0;
        *cp = (u32)((a & 7) << 18 | (b & 63) << 12 | (c & 63) << 6 | (d & 63)); return 4;
    }
    return 0;
}
static void exec02(const Trace &t, Ctx &c) {
    Sut s; start(t, s, nullptr);
    std::string line;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "feed") { s.feed(e.b); line += e.b; continue; }
        if (e.op != "line") continue;
        // judge the line displayed so far
        Grid g = s.draw();
        std::vector<u32> disp;
        unsigned end = std::min(s.cx(), g.w);
        for (unsigned x = 0; x < end; ++x) if (g.at(x, 0).w) disp.push_back(g.at(x, 0).ch);
        struct Tok { bool ill; u32 cp; int n; };
        std::vector<Tok> tok; bool ctl = false;
        for (size_t k = 0; k < line.size();) {
            u32 cp; int n = wf_len(line, k, &cp);
            if (n == 0) { if (!tok.empty() && tok.back().ill) tok.back().n++; else tok.push_back({true, 0, 1}); k++; }
            else { if (cp < 0x20 || (cp >= 0x7f && cp < 0xa0)) ctl = true; tok.push_back({false, cp, n}); k += n; }
        }
        if (ctl) { c.count("skipped_lines_with_controls"); } // produced by corruption that happens to be well-formed; not judged
        else {
            c.check();
            size_t N = disp.size(), ills = 0;
            for (auto &k : tok) ills += k.ill;
            if (ills) { c.nontrivial = true; c.fault("ill_formed_run", ills); }
            // NFA over positions of the displayed text
            std::vector<char> cur(N + 1, 0); cur[0] = 1; size_t failtok = 0; bool ok = true;
            // ill-formed bytes show as replacement characters or not at all; encoded surrogates and values beyond Unicode are passed on as they are
            auto okbad = [](u32 ch) { return ch == 0xfffd || (ch >= 0xd800 && ch < 0xe000) || ch > 0x10ffff; };
            for (size_t k = 0; k < tok.size() && ok; ++k) {
                std::vector<char> nx(N + 1, 0);
                bool after_ill = k && tok[k - 1].ill;
                for (size_t p = 0; p <= N; ++p) if (cur[p]) {
                    if (tok[k].ill) { for (int q = 0; q <= tok[k].n && p + q <= N; ++q) { nx[p + q] = 1; if (p + q < N && !okbad(disp[p + q])) break; } }
                    else {
                        int wd = ref::width_of(tok[k].cp);
                        if (wd == 0) nx[p] = 1;
                        else if (p < N && disp[p] == tok[k].cp) nx[p + 1] = 1;
                        if (after_ill) { nx[p] = 1; for (int q = 0; q < tok[k].n && p + q < N && okbad(disp[p + q]); ++q) nx[p + q + 1] = 1; }
                    }
                }
                cur = nx; failtok = k; ok = false;
                for (char x : cur) if (x) ok = true;
            }
            // a truncated sequence at the very end has not been judged by the decoder yet: nothing displayed for it is fine
            if (ok && !cur[N]) ok = false;
            if (!ok) {
                std::string d; for (u32 x : disp) d += ref::utf8(x);
                c.viol("decode", fmt("bytes '%s' displayed as '%s' (first mismatch near token %zu)", show(line).c_str(), show(d).c_str(), failtok));
            }
        }
        for (u32 x : disp) c.logn(x);
        c.state(mix64(disp.size(), line.size()));
        s.destroy(); s = Sut(); start(t, s, nullptr); line.clear();
    }
    s.destroy();
}

// ---- C03 -------------------------------------------------------------------
static void gen03(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g, 12, 2);
    g.set({{T_TEXT, 20}, {T_WIDE, 3}, {T_C0, 8}, {T_MOVE, 10}, {T_ERASE, 3}, {T_SGR, 8}, {T_MARGIN, 2}, {T_TAB, 2}, {T_CHARSET, 2}, {T_INSMODE, 1}, {T_ORIGIN, 1}, {T_ALT, 1}, {T_SAVE, 1}});
    int n = (int)r.range(6, tier ? 120 : 45); u64 now = 0;
    bool rec = r.chance(1, 2);
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 3)) t.ev.push_back(ev(now, "inert", {}, inert_seq(r)));
        else if (r.chance(1, 8)) { // a sequence of the client lost its tail: CAN arrives instead
            std::string p = g.pieceof(r, (int)r.pick(std::vector<int>{T_MOVE, T_SGR, T_ERASE, T_MARGIN, T_LINES}));
            if (p.size() > 2 && p[0] == 0x1b && p[1] == '[') t.ev.push_back(ev(now, "inert", {}, p.substr(0, 2 + r.below(p.size() - 2)) + "\x18"));
        } else emit_feed(r, t, now, g.piece(r), 0);
    }
    if (rec) for (int k = (int)r.range(1, 4); k > 0; --k) t.ev.push_back(ev(now, "garbage", {r.range(0x20, 0x7e)}, garbage(r, (int)r.range(1, 40))));
}
static void exec03(const Trace &t, Ctx &c) {
    Sut a, b; start(t, a, nullptr); start(t, b, nullptr);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "inert") {
            a.feed(e.b); c.check(); c.nontrivial = true; c.fault("inert_or_aborted_sequence");
            std::string why;
            if (a.out != b.out) why = fmt("reply '%s'", show(a.out.substr(std::min(a.out.size(), b.out.size()))).c_str());
            else if (a.cx() != b.cx() || a.cy() != b.cy()) why = fmt("cursor moved from (%u,%u) to (%u,%u)", b.cx(), b.cy(), a.cx(), a.cy());
            else { why = grid_vs_grid(b.draw(), a.draw()); if (why.empty() && a.hash_all() != b.hash_all()) why = "modes changed"; }
            if (!why.empty()) c.viol("not-inert", fmt("event %zu: sequence '%s' had an effect: %s", i, show(e.b).c_str(), why.c_str()));
        } else if (e.op == "garbage") {
            a.feed(e.b); a.feed(std::string(1, (char)e.arg(0, 'x')) + "\x18"); c.fault("garbage_burst"); c.check(); c.nontrivial = true;
            a.feed("\x1b[!p"); a.out.clear();
            a.feed("\x1b[1;1H\x1b[2KM\x1b[3CK\x1b[6n");
            Grid g = a.draw(); std::string row = g.row(0);
            if (row.substr(0, 6) != "M   K " || a.cx() != 5 || a.cy() != 0) c.viol("no-recovery", fmt("event %zu: after garbage '%s' + one character + CAN the line shows '%s', cursor (%u,%u)", i, show(e.b).c_str(), show(row).c_str(), a.cx(), a.cy()));
            else if (a.out != "\x1b[1;6R") c.viol("no-recovery", fmt("event %zu: after recovery the cursor query was answered with '%s'", i, show(a.out).c_str()));
            c.probe("recoveries");
        } else { apply_sut(a, e); apply_sut(b, e); }
        if (i + 1 == t.ev.size() || e.op == "inert") c.logn(a.hash_all());
        c.state(mix64(a.cx() * 100 + a.cy(), tsm_screen_get_flags(a.con) * 65536ull + tsm_vte_get_flags(a.vte)));
    }
    // attributes and character sets in force must be the same too
    bool garb = false; for (auto &e : t.ev) garb |= e.op == "garbage";
    if (!c.stop() && !garb) {
        a.feed("\x1b[1;1Hq\xc3\xa9~"); b.feed("\x1b[1;1Hq\xc3\xa9~"); c.check();
        std::string d = grid_vs_grid(b.draw(), a.draw());
        if (!d.empty()) c.viol("not-inert", "text written afterwards differs: " + d);
    }
    a.destroy(); b.destroy();
}

// ---- C17 -------------------------------------------------------------------
static void gen17(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_TEXT, 24}, {T_WIDE, 2}, {T_C0, 8}, {T_MOVE, 10}, {T_ERASE, 8}, {T_INSDEL, 4}, {T_LINES, 4}, {T_SCROLL, 4}, {T_SGR, 28}, {T_SAVE, 2}, {T_ALT, 2},
           {T_MARGIN, 1}, {T_CURMODE, 2}, {T_SRESET, 1}, {T_INSMODE, 1}, {T_HRESET, 1}});
    for (auto &x : g.wt) if (r.chance(1, 5)) x = 0;
    g.wt[T_SGR] = std::max(g.wt[T_SGR], 8u); g.wt[T_TEXT] = std::max(g.wt[T_TEXT], 8u);
    static const std::vector<std::string> pn = {"", "legacy", "vga", "solarized", "solarized-black", "solarized-white", "soft-black", "base16-dark", "base16-light", "no-such-palette", "custom", "custom"};
    int n = (int)r.range(10, tier ? 180 : 80); u64 now = 0; bool pals = r.chance(1, 2);
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (pals && r.chance(1, 15)) { if (r.chance(1, 4)) t.ev.push_back(ev(now, "custom", {(i64)r.below(r.chance(1, 2) ? 2 : 1000), r.chance(1, 2) ? (i64)r.range(1, 18) : 0, (i64)r.below(1000), (i64)r.pick(std::vector<int>{0, 0, 1, 2, 2, 3})})); else t.ev.push_back(ev(now, "palette", {}, r.pick(pn)));
            if (r.chance(1, 2)) { // colour bars
                std::string b; int n0 = (int)r.below(16);
                for (int k = 0; k < 16; ++k) { int q = (n0 + k) % 16; b += fmt("\x1b[%d;%dm%c", q < 8 ? 30 + q : 82 + q, q < 8 ? 47 - q : 115 - q, 'a' + q); }
                emit_feed(r, t, now, b + "\x1b[m", 0); t.ev.push_back(ev(now, "draw"));
            } }
        else if (r.chance(1, 25)) { i64 w = std::max<i64>(1, (i64)g.w + r.range(-3, 3)), h = std::max<i64>(1, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; }
        else if (r.chance(1, 25)) t.ev.push_back(rnd_view_event(r, now, g.h, 20));
        else emit_feed(r, t, now, g.piece(r), r.chance(1, 5) ? 3 : 0);
        if (r.chance(1, 2)) t.ev.push_back(ev(now, "draw"));
    }
    t.ev.push_back(ev(now, "draw"));
}
static void exec17(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        apply_sut(s, e); apply_model(m, e);
        if (e.op == "draw" || e.op == "palette" || e.op == "custom") {
            std::string d = diff_cursor(s, m);
            Grid g = s.draw(); c.check();
            if (d.empty()) d = diff_grid(g, m, CMP_CHARS);
            if (!d.empty()) { if (e.op == "draw") c.alien("chars", d); else c.viol("palette", fmt("event %zu: %s", i, d.c_str())); break; }
            d = diff_grid(g, m, CMP_ATTRS);
            if (!d.empty()) { c.viol("attrs", fmt("event %zu: %s", i, d.c_str())); break; }
            tsm_screen_attr da; tsm_vte_get_def_attr(s.vte, &da);
            if (da.fccode != m.def.fcc || da.bccode != m.def.bcc || da.fr != m.def.fr || da.fg != m.def.fg || da.fb != m.def.fb || da.br != m.def.br || da.bg != m.def.bg || da.bb != m.def.bb)
                c.viol("default-attr", fmt("event %zu: default attributes do not follow the palette", i));
            for (auto &k : g.c) if (k.w) c.logn(k.ch ^ (u64)k.at.fr << 32 ^ (u64)k.at.bg << 40 ^ (u64)k.at.inverse << 60);
            c.state(mix64(m.cattr.fr << 16 | m.cattr.fg << 8 | m.cattr.fb, m.cattr.br << 16 | m.cattr.bg << 8 | m.cattr.bb) ^ (m.cattr.bold | m.cattr.italic << 1 | m.cattr.underline << 2 | m.cattr.inverse << 3 | m.cattr.blink << 4));
            c.nontrivial = true;
        }
    }
    s.destroy();
}

// ---- C19 -------------------------------------------------------------------
static void gen19(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g, 4, 2);
    g.set({{T_TEXT, 12}, {T_C0, 4}, {T_MOVE, 14}, {T_SGR, 12}, {T_CHARSET, 12}, {T_WRAPMODE, 5}, {T_ORIGIN, 6}, {T_MARGIN, 6}, {T_ALT, 3}, {T_SCROLL, 2}, {T_SRESET, 1}, {T_HRESET, 1}, {T_INSMODE, 1}});
    int n = (int)r.range(8, tier ? 160 : 70); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(9)) {
        case 0: t.ev.push_back(ev(now, "save")); break;
        case 1: t.ev.push_back(ev(now, "restore")); break;
        case 2: if (r.chance(1, 2)) t.ev.push_back(ev(now, r.chance(1, 2) ? "asave" : "arestore")); break;
        case 3: if (r.chance(1, 4)) { i64 w = std::max<i64>(4, (i64)g.w + r.range(-3, 3)), h = std::max<i64>(2, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); } break;
        default: emit_feed(r, t, now, g.piece(r), 0);
        }
    }
    t.ev.push_back(ev(now, "restore"));
}
static void exec19(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    auto diff = [&]() {
        std::string d = diff_cursor(s, m);
        if (d.empty()) d = diff_grid(s.draw(), m, CMP_CHARS | CMP_ATTRS);
        if (d.empty()) d = diff_state(s, m);
        return d;
    };
    auto both = [&](const std::string &b) { s.feed(b); m.input(b); };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        bool sv = e.op == "save", rs = e.op == "restore", as = e.op == "asave", ar = e.op == "arestore";
        if (!(sv || rs || as || ar)) { apply_sut(s, e); apply_model(m, e); continue; }
        std::string d = diff();
        if (!d.empty()) { c.alien("before", d); break; }
        c.check(); c.nontrivial = true;
        both(sv ? "\x1b" "7" : rs ? "\x1b" "8" : as ? "\x1b[?1048h" : "\x1b[?1048l");
        d = diff();
        if (!d.empty()) { c.viol(sv || as ? "save-changes" : "restore", fmt("event %zu (%s): %s", i, e.op.c_str(), d.c_str())); break; }
        c.probe(e.op);
        if (rs || ar) { // what is typed next shows attributes and character sets in force
            if (m.flags & ref::V_DECOM) c.probe("restore_in_origin_mode");
            both("q"); both("\xc3\xb1");
            d = diff();
            if (!d.empty()) { c.viol("after-restore", fmt("event %zu: text written after %s: %s", i, e.op.c_str(), d.c_str())); break; }
        }
        c.logn(s.hash_all()); c.state(abstract_state(m));
    }
    s.destroy();
}

// ---- C21 -------------------------------------------------------------------
static void gen21(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g, 8, 2);
    g.set({{T_TEXT, 20}, {T_UTF8, 6}, {T_WIDE, 2}, {T_CHARSET, 30}, {T_C0, 3}, {T_MOVE, 3}, {T_SRESET, 1}, {T_SAVE, 2}, {T_SGR, 1}, {T_ALT, 1}, {T_HRESET, 1}});
    bool eight = r.chance(1, 4);
    int n = (int)r.range(10, tier ? 200 : 80), mf = frag(r); u64 now = 0;
    static const char all[] = "B0<A4C5RQKYE6ZH7=";
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 6)) { static const char sl[] = "()*+"; emit_feed(r, t, now, std::string("\x1b") + sl[r.below(4)] + all[r.below(sizeof all - 1)], mf); }
        else if (r.chance(1, 4)) { // every graphic position
            std::string b; int k = (int)r.range(1, 6);
            for (int q = 0; q < k; ++q) b += r.chance(1, 2) ? std::string(1, (char)r.range(0x21, 0x7e)) : ref::utf8((u32)r.range(0xa1, 0xfe));
            emit_feed(r, t, now, b, mf);
        } else if (eight && r.chance(1, 8)) emit_feed(r, t, now, r.chance(1, 3) ? "\x1b[61\"p" : r.chance(1, 2) ? "\x1b[62\"p" : "\x1b[!p", mf);
        else if (eight && r.chance(1, 4)) t.ev.push_back(ev(now, "raw", {}, std::string(1, (char)r.range(0xa0, 0xff)) + (char)r.range(0x21, 0x7e)));
        else emit_feed(r, t, now, g.piece(r), mf);
        if (r.chance(1, 2)) t.ev.push_back(ev(now, "draw"));
    }
    t.ev.push_back(ev(now, "draw"));
}
static void exec21(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        Ev e = t.ev[i]; c.at = i;
        if (e.op == "raw") { // 8-bit graphic bytes: only meaningful outside UTF-8 mode
            if (!(m.flags & (ref::V_8BIT | ref::V_7BIT))) continue;
            e.op = "feed"; c.probe("8bit_input");
        }
        // in 7/8-bit mode UTF-8 text is just bytes, some of which are C1 controls: keep those runs out
        if (e.op == "feed" && (m.flags & (ref::V_8BIT | ref::V_7BIT)) && t.ev[i].op != "raw") {
            bool hi = false; for (char ch : e.b) hi |= (u8)ch >= 0x80;
            if (hi) continue;
        }
        apply_sut(s, e); apply_model(m, e);
        if (e.op == "draw") {
            c.check();
            std::string d = diff_cursor(s, m);
            Grid g = s.draw();
            if (d.empty()) d = diff_grid(g, m, CMP_CHARS);
            if (!d.empty()) c.viol("mapping", fmt("event %zu: %s", i, d.c_str()));
            for (unsigned y = 0; y < g.h; ++y) c.log(g.row(y));
        }
        c.state(mix64(m.G[0] | m.G[1] << 2 | m.G[2] << 4 | m.G[3] << 6 | m.gl << 8 | m.gr << 10, (u64)(m.glt + 1) | (u64)(m.flags & 24) << 4));
        c.nontrivial = true;
    }
    s.destroy();
}

void props_screen(std::vector<Prop> &v) {
    v.push_back({"C01", gen01, exec01});
    v.push_back({"C02", gen02, exec02});
    v.push_back({"C03", gen03, exec03});
    v.push_back({"C04", gen04, exec04});
    v.push_back({"C05", gen05, exec05});
    v.push_back({"C06", gen06, exec06});
    v.push_back({"C07", gen07, exec07});
    v.push_back({"C17", gen17, exec17});
    v.push_back({"C19", gen19, exec19});
    v.push_back({"C21", gen21, exec21});
}
