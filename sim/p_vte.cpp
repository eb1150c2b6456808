// Properties about the terminal's talk with client and application:
// C14 replies, C15 keys, C16 mouse, C18 hard reset, C20 OSC, C27 isolation.
#include "world.h"
#include "gen.h"
#include "props.h"

static void start(const Trace &t, Sut &s, ref::Term *m) {
    unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6), sb = (unsigned)t.get("sb", 0);
    s.create(w, h, sb);
    if (m) { ref::Palette p; ref::palette_named("legacy", p); m->create(w, h, p); m->s.sb_max = sb; }
}
static void dims(Rng &r, Trace &t, StreamGen &g) {
    i64 w, h; pick_size(r, w, h);
    t.cfg["w"] = w; t.cfg["h"] = h; g.w = (unsigned)w; g.h = (unsigned)h;
    t.cfg["sb"] = r.pick(std::vector<i64>{0, 1, 5, 20});
}
static std::string join(const std::vector<std::string> &v, size_t from = 0) { std::string r; for (size_t i = from; i < v.size(); ++i) r += v[i]; return r; }
static void soften(Rng &r, StreamGen &g, int keep) { for (auto &x : g.wt) if (r.chance(1, 4)) x = 0; g.wt[keep] = std::max(g.wt[keep], 8u); }
static Ev resize_ev(Rng &r, u64 now, StreamGen &g) {
    i64 w = std::max<i64>(1, (i64)g.w + r.range(-4, 4)), h = std::max<i64>(1, (i64)g.h + r.range(-3, 3));
    g.w = (unsigned)w; g.h = (unsigned)h; return ev(now, "resize", {w, h});
}
static std::string diff_all(Sut &s, const ref::Term &m) {
    std::string d = diff_cursor(s, m); if (!d.empty()) return d;
    d = diff_state(s, m); if (!d.empty()) return d;
    return diff_grid(s.draw(), m, CMP_CHARS);
}

// ---- C14 -------------------------------------------------------------------
static void gen14(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_QUERY, 30}, {T_TEXT, 16}, {T_UTF8, 3}, {T_WIDE, 4}, {T_C0, 8}, {T_MOVE, 10}, {T_ERASE, 2}, {T_SCROLL, 2}, {T_MARGIN, 3}, {T_ORIGIN, 3}, {T_TAB, 3}, {T_WRAPMODE, 2}, {T_INSMODE, 1},
           {T_ALT, 2}, {T_SGR, 3}, {T_SAVE, 3}, {T_INERT, 14}, {T_OSC, 5}, {T_MOUSEMODE, 2}, {T_KEYMODE, 3}, {T_CURMODE, 1}, {T_CHARSET, 2}, {T_SRESET, 1}, {T_HRESET, 1}, {T_8BIT, 1}});
    soften(r, g, T_QUERY);
    int n = (int)r.range(5, tier ? 250 : 80), frag = r.chance(1, 2) ? 0 : (int)r.range(1, 5); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(12)) {
        case 0: t.ev.push_back(rnd_key_event(r, now)); break;
        case 1: if (r.chance(1, 3)) t.ev.push_back(resize_ev(r, now, g)); break;
        case 2: t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break;
        case 3: { std::string b; int k = (int)r.range(1, 12); for (int q = 0; q < k; ++q) b += g.pieceof(r, r.chance(2, 3) ? T_QUERY : T_MOVE); emit_feed(r, t, now, b, frag); break; }
        case 4: { // parameters no query answers, or that select the answer
            static const std::vector<std::string> q = {"\x1b[7n", "\x1b[n", "\x1b[0n", "\x1b[1c", "\x1b[>1c", "\x1b[=c", "\x1b[0;0c", "\x1b[6;1n", "\x1b[5;6n", "\x1b[06n", "\x1b[>0c", "\x1b[006n", "\x1b[65535n", "\x1b[6;n", "\xc2\x9b" "6n", "\xc2\x9b" "c"};
            emit_feed(r, t, now, r.pick(q), frag); break; }
        default: emit_feed(r, t, now, g.piece(r), frag);
        }
    }
    emit_feed(r, t, now, "\x18\x1b[6n\x1b[5n", 0);
}
// a reply that differs only in the coordinates of a cursor report
static std::string nocoord(const std::string &o) {
    std::string r; size_t i = 0;
    while (i < o.size()) {
        if (o[i] == '\x1b' && i + 1 < o.size() && o[i + 1] == '[') {
            size_t k = i + 2; while (k < o.size() && (isdigit((u8)o[k]) || o[k] == ';')) ++k;
            if (k < o.size() && o[k] == 'R' && k > i + 2) { r += "<CPR>"; i = k + 1; continue; }
        }
        r += o[i++];
    }
    return r;
}
static void exec14(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        size_t so = s.out.size(), mo = m.out.size();
        unsigned bx = s.cx(), by = s.cy();
        bool cur_ok = bx == m.s.cx && by == m.s.cy;
        apply_sut(s, e); apply_model(m, e);
        std::string a = s.out.substr(so), b = join(m.out, mo);
        if (e.op == "feed") {
            c.check();
            if (m.out.size() > mo) { c.nontrivial = true; c.probe("replies", m.out.size() - mo); if (i && t.ev[i - 1].op == "key") c.probe("reply_after_key"); }
            if (a != b) {
                std::string why = fmt("event %zu: input '%s' is answered '%s', expected '%s' (cursor (%u,%u) of %ux%u)", i, show(e.b).c_str(), show(a).c_str(), show(b).c_str(), s.cx(), s.cy(), s.w(), s.h());
                bool same_cur = cur_ok && s.cx() == m.s.cx && s.cy() == m.s.cy;
                if (nocoord(a) == nocoord(b) && !same_cur) {
                    // only coordinates differ and the cursor itself is not where the model has it: judge against the real cursor if it did not move meanwhile
                    if (bx == s.cx() && by == s.cy()) {
                        unsigned x = bx >= s.w() ? s.w() - 1 : bx;
                        std::string want = fmt("\x1b[%u;%uR", by + 1, x + 1), cp = a; size_t k; bool okc = true;
                        while ((k = cp.find("R")) != std::string::npos) { size_t st = cp.rfind("\x1b[", k); if (st == std::string::npos || cp.substr(st, k + 1 - st) != want) okc = false; cp.erase(0, k + 1); }
                        if (!okc) { c.viol("reply", why); break; }
                    }
                    c.alien("cursor", why);
                } else c.viol("reply", why);
                break;
            }
        } else if (e.op == "key") { if (a != b) { c.alien("key", show(a) + " vs " + show(b)); break; } }
        else if (!a.empty()) { c.viol("unasked", fmt("event %zu (%s) makes the terminal send '%s'", i, e.op.c_str(), show(a).c_str())); break; }
        c.log(a);
        c.state(abstract_state(m));
    }
    s.destroy();
}

// ---- C15 -------------------------------------------------------------------
static void gen15(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_KEYMODE, 24}, {T_8BIT, 4}, {T_TEXT, 6}, {T_C0, 4}, {T_MOVE, 4}, {T_QUERY, 6}, {T_SRESET, 2}, {T_HRESET, 2}, {T_INERT, 4}, {T_OSC, 2}, {T_CHARSET, 3}, {T_SAVE, 2}, {T_MOUSEMODE, 3}, {T_ALT, 2}, {T_SGR, 2}});
    soften(r, g, T_KEYMODE);
    if (r.chance(2, 3)) g.wt[T_8BIT] = 0;
    bool echo = r.chance(1, 3);
    int n = (int)r.range(8, tier ? 250 : 80), frag = r.chance(1, 2) ? 0 : (int)r.range(1, 4); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: case 4: t.ev.push_back(rnd_key_event(r, now)); break;
        case 5: if (r.chance(1, 3)) t.ev.push_back(ev(now, "bsdel", {(i64)r.below(2)})); else if (r.chance(1, 8)) t.ev.push_back(ev(now, r.chance(1, 2) ? "vreset" : "vhard")); else if (r.chance(1, 4)) t.ev.push_back(rnd_mouse_event(r, now, g.w, g.h)); break;
        case 6: if (echo) emit_feed(r, t, now, r.chance(1, 2) ? "\x1b[12l" : "\x1b[12h", frag); break;
        default: emit_feed(r, t, now, g.piece(r), frag);
        }
    }
}
static void exec15(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        size_t so = s.out.size(), mo = m.out.size();
        if (e.op != "key") {
            apply_sut(s, e); apply_model(m, e);
            std::string a = s.out.substr(so), b = join(m.out, mo);
            if (a != b) { if (!b.empty() && b[0] != '\x1b' && !a.empty() && a[0] == '\x1b') c.viol("leak", fmt("event %zu: reply to the client is '%s', expected '%s'", i, show(a).c_str(), show(b).c_str())); else if (e.op == "feed" && a.size() > b.size() && a.find('\x1b') == 0 && a.substr(1) == b) c.viol("leak", fmt("event %zu: output '%s' carries a stray ESC, expected '%s'", i, show(a).c_str(), show(b).c_str())); else c.alien("reply", show(a) + " vs " + show(b)); break; }
            continue;
        }
        bool echo = !(m.flags & ref::V_SRM);
        // ESC followed by a non-ASCII character is no sequence whose interpretation is specified
        if (echo && (e.arg(2) & 8) && e.arg(3) > 0x7f) continue;
        bool screen_ok = echo && diff_all(s, m).empty();
        u64 h0 = echo ? 0 : s.hash_all();
        s.budget(64);
        bool ra = tsm_vte_handle_keyboard(s.vte, (u32)e.arg(0), (u32)e.arg(1), (u32)e.arg(2), (u32)e.arg(3));
        s.disarm();
        bool rb = m.key((u32)e.arg(0), (u32)e.arg(1), (u32)e.arg(2), (u32)e.arg(3));
        c.check(); c.nontrivial = true;
        if (m.flags & (ref::V_7BIT | ref::V_8BIT)) c.probe("keys_in_7_8bit_mode");
        std::string a = s.out.substr(so), b = join(m.out, mo);
        // with local echo, replies to queries among the typed bytes may come before or after the key itself
        std::string b2 = b;
        if (m.out.size() > mo) { b2 = m.out.back(); for (size_t k = mo; k + 1 < m.out.size(); ++k) b2 += m.out[k]; }
        c.log(a); c.logn(ra);
        std::string what = fmt("event %zu: key sym %#llx ascii %#llx mods %#llx unicode %#llx in modes %#x", i, (long long)e.arg(0), (long long)e.arg(1), (long long)e.arg(2), (long long)e.arg(3), m.flags);
        if (a != b && !(echo && a == b2)) c.viol("encoding", what + fmt(" sent '%s', expected '%s'", show(a).c_str(), show(b).c_str()));
        else if (ra != rb) c.viol("handled", what + fmt(" returned %d, expected %d", ra, rb));
        else if (!echo && s.hash_all() != h0) c.viol("screen", what + " changed the screen although local echo is off");
        else if (echo) {
            c.probe("keys_with_echo");
            std::string d = diff_all(s, m);
            if (!d.empty()) { if (screen_ok) c.viol("echo", what + ": local echo: " + d); else c.alien("screen", d); }
        }
        c.state(mix64(mix64(m.flags, (u64)e.arg(2)), (u64)e.arg(0)));
    }
    s.destroy();
}

// ---- C16 -------------------------------------------------------------------
static void gen16(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_MOUSEMODE, 20}, {T_TEXT, 4}, {T_MOVE, 3}, {T_ALT, 1}, {T_SRESET, 1}, {T_HRESET, 1}, {T_QUERY, 2}, {T_INERT, 2}, {T_SAVE, 1}, {T_KEYMODE, 1}});
    int n = (int)r.range(8, tier ? 300 : 90), frag = r.chance(2, 3) ? 0 : (int)r.range(1, 4); u64 now = 0;
    i64 lx = 0, ly = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(12)) {
        case 0: if (r.chance(1, 6)) t.ev.push_back(ev(now, r.chance(1, 2) ? "vreset" : "vhard")); break;
        case 1: t.ev.push_back(rnd_key_event(r, now)); break;
        case 2: { static const std::vector<std::string> m = {"\x1b[?1002;1006h", "\x1b[?1003;1006h", "\x1b[?1003;1016h", "\x1b[?1006;1003h", "\x1b[?1006l\x1b[?1003l", "\x1b[?1003l\x1b[?1006l", "\x1b[?9h", "\x1b[?9l", "\x1b[?1000h", "\x1b[?1000l", "\x1b[?9;1006h", "\x1b[?1002;1016l"}; emit_feed(r, t, now, r.pick(m), frag); break; }
        case 3: case 4: emit_feed(r, t, now, g.piece(r), frag); break;
        default: {
            Ev e = rnd_mouse_event(r, now, g.w, g.h);
            if (r.chance(1, 3)) { e.a[0] = lx; e.a[1] = ly; }
            if (r.chance(1, 12)) for (int k = 0; k < 2; ++k) if (r.chance(1, 2)) e.a[k] = r.range(215, 260); // where one byte is not enough any more
            if (r.chance(1, 12)) { static const std::vector<i64> big = {0x7fffffff, 0x80000000ll, 0xfffffffell, 0xffffffffll, 999999999}; for (int k = 0; k < 4; ++k) if (r.chance(1, 3)) e.a[k] = r.pick(big); }
            lx = e.a[0]; ly = e.a[1];
            t.ev.push_back(e);
        }
        }
    }
}
static void exec16(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    u64 fresh_x = 0, fresh_y = 0; (void)fresh_x; (void)fresh_y;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        size_t so = s.out.size(), mo = m.out.size();
        if (e.op == "mouse") {
            auto A = [&](size_t k) { return (u32)e.arg(k); };
            bool amb = m.mouse_amb, sgrmove = (A(5) & 4) && m.mouse_mode == 1006 && m.mouse_event == 1003;
            bool samecell = A(0) + 1 == m.last_col && A(1) + 1 == m.last_row;
            s.budget(64);
            bool ra = tsm_vte_handle_mouse(s.vte, A(0), A(1), A(2), A(3), A(4), A(5), (u8)A(6));
            s.disarm();
            bool rb = m.mouse(A(0), A(1), A(2), A(3), A(4), A(5), (u8)A(6));
            std::string a = s.out.substr(so), b = join(m.out, mo);
            c.check(); if (!b.empty()) c.nontrivial = true; else c.probe("mouse_events_not_reported");
            c.log(a); c.logn(ra);
            if (sgrmove) m.mouse_amb = false;
            if (a != b) {
                // first movement after a mode switch in the cell reported before: reported again or not
                if (sgrmove && amb && samecell && a == fmt("\x1b[<35;%u;%uM", A(0) + 1, A(1) + 1)) { c.probe("ambiguous_first_move"); continue; }
                c.viol("report", fmt("event %zu: mouse cell %u,%u pixel %u,%u button %u event %u modifiers %u in protocol %u, tracking %u sent '%s', expected '%s'", i, A(0), A(1), A(2), A(3), A(4), A(5), A(6), m.mouse_mode, m.mouse_event, show(a).c_str(), show(b).c_str()));
                break;
            }
            if (ra != rb) { c.viol("handled", fmt("event %zu: mouse event %u returned %d but %s sent", i, A(5), ra, b.empty() ? "nothing was" : "a report was")); break; }
        } else {
            apply_sut(s, e); apply_model(m, e);
            std::string a = s.out.substr(so), b = join(m.out, mo);
            if (a != b) { c.alien("reply", show(a) + " vs " + show(b)); break; }
        }
        unsigned tr = s.mcb.empty() ? 0 : (unsigned)s.mcb.back().first; bool px = !s.mcb.empty() && s.mcb.back().second;
        c.check(); c.logn(tr * 2 + px);
        if (tr != m.track() || (tr && px != m.track_px())) {
            c.viol("callback", fmt("event %zu (%s '%s'): the application was last told tracking %u%s, the client has requested %u%s (protocol %u)", i, e.op.c_str(), show(e.b).c_str(), tr, px ? " with pixels" : "", m.track(), m.track() && m.track_px() ? " with pixels" : "", m.mouse_mode));
            break;
        }
        c.state(mix64(m.mouse_mode * 4096 + m.mouse_event, e.op == "mouse" ? (u64)(e.arg(4) * 512 + e.arg(5) * 32 + e.arg(6)) : 77777));
    }
    s.destroy();
}

// ---- C18 -------------------------------------------------------------------
static void all_feats(Rng &r, StreamGen &g) {
    for (int f = 0; f < T_NUM; ++f) g.wt[f] = 3;
    g.wt[T_TEXT] = 10; g.wt[T_MOVE] = 8; g.wt[T_C0] = 8; g.wt[T_HRESET] = 0; g.wt[T_GARBAGE] = r.chance(1, 4) ? 4 : 0; g.wt[T_8BIT] = r.chance(1, 5) ? 2 : 0;
    for (auto &x : g.wt) if (r.chance(1, 4)) x = 0;
    g.wt[T_TEXT] = std::max(g.wt[T_TEXT], 6u);
}
static Ev app_event(Rng &r, u64 now, StreamGen &g, const Trace &t) {
    switch (r.below(16)) {
    case 0: case 1: return rnd_view_event(r, now, g.h, (unsigned)t.get("sb"));
    case 2: case 3: case 4: return rnd_key_event(r, now);
    case 5: case 6: return rnd_mouse_event(r, now, g.w, g.h);
    case 7: return resize_ev(r, now, g);
    case 8: return ev(now, "palette", {}, r.pick(std::vector<std::string>{"legacy", "vga", "solarized", "solarized-white", "soft-black", "base16-dark", "base16-light"}));
    case 9: return ev(now, "custom", {(i64)r.below(r.chance(1, 2) ? 2 : 100), r.chance(1, 2) ? (i64)r.range(1, 18) : 0, (i64)r.below(1000), (i64)r.below(2)});
    case 10: return ev(now, "bsdel", {(i64)r.below(2)});
    case 11: return ev(now, "selstart", {(i64)r.below(g.w), (i64)r.below(g.h)});
    case 12: return ev(now, "seltarget", {(i64)r.below(g.w), (i64)r.below(g.h)});
    case 13: return ev(now, "maxsb", {(i64)r.below(30)});
    case 14: return ev(now, "fixed", {(i64)r.below(2)});
    default: return ev(now, r.chance(1, 2) ? "vreset" : "clearsb");
    }
}
// the pointer wanders over a few cells while everything is tracked
static void mouse_session(Rng &r, std::vector<Ev> &out, u64 now, StreamGen &g) {
    out.push_back(ev(now, "feed", {}, r.chance(3, 4) ? "\x1b[?1006h\x1b[?1003h" : "\x1b[?1003h\x1b[?1016h"));
    int n = (int)r.range(1, 4);
    while (n--) { Ev e = rnd_mouse_event(r, now, std::min(g.w, 2u), std::min(g.h, 2u)); if (r.chance(3, 4)) e.a[4] = 0, e.a[5] = 4; out.push_back(e); }
}
static void gen18(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g); all_feats(r, g);
    int n = (int)r.range(3, tier ? 150 : 50), frag = r.chance(1, 2) ? 0 : (int)r.range(1, 5); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 5)) t.ev.push_back(app_event(r, now, g, t));
        else emit_feed(r, t, now, g.piece(r), frag);
    }
    if (r.chance(1, 2)) { // something left half-finished
        static const std::vector<std::string> half = {"\x1b", "\x1b[", "\x1b[12;", "\x1b[?100", "\x1b]0;abc", "\x1bPabc", "\xe2", "\xe2\x82", "\xf0\x9f\x98", "\x1b(", "\x1bN", "\x1bO", "\x1b_x", "\x0e"};
        emit_feed(r, t, now, r.pick(half), 0);
    }
    bool mouse = r.chance(1, 4);
    if (mouse) mouse_session(r, t.ev, now, g);
    t.ev.push_back(ev(now, "reset", {(i64)r.below(2)}));
    if (mouse) mouse_session(r, t.ev, now, g);
    all_feats(r, g); g.wt[T_HRESET] = 1;
    n = (int)r.range(3, tier ? 120 : 40);
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 4)) { Ev e = app_event(r, now, g, t); t.ev.push_back(e); }
        else emit_feed(r, t, now, g.piece(r), frag);
    }
}
static void exec18(const Trace &t, Ctx &c) {
    Sut a, b; start(t, a, nullptr);
    unsigned sb = (unsigned)t.get("sb"); bool bsdel = false; Ev pal; pal.op = "nop"; Ev custom; custom.op = "nop"; bool reset = false, partial = false;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "reset") {
            // (C02 allows an incomplete character to swallow the byte after it: do not let that be the request)
            if (e.arg(0)) tsm_vte_hard_reset(a.vte); else a.feed(partial ? "\x18\x1b" "c" : "\x1b" "c");
            a.out.clear(); a.osc.clear();
            if (reset) b.destroy();
            b = Sut(); b.create(a.w(), a.h(), sb);
            if (custom.op != "nop") apply_sut(b, custom);
            if (pal.op != "nop") apply_sut(b, pal);
            // a palette change repaints the main screen only: paint the other one, too
            if (custom.op != "nop" || pal.op != "nop") b.feed("\x1b[?1049h\x1b[?1049l");
            if (bsdel) tsm_vte_set_backspace_sends_delete(b.vte, true);
            b.out.clear(); reset = true; c.nontrivial = true; c.probe(e.arg(0) ? "reset_by_application" : "reset_by_client");
        } else {
            if (e.op == "maxsb") sb = (unsigned)e.arg(0);
            if (e.op == "bsdel") bsdel = e.arg(0);
            if (e.op == "palette") pal = e;
            if (e.op == "custom") { custom = e; pal = Ev(); pal.op = "nop"; }
            if (e.op == "feed" && !e.b.empty()) partial = (u8)e.b.back() >= 0x80;
            apply_sut(a, e);
            if (reset) apply_sut(b, e);
        }
        if (!reset) continue;
        c.check();
        Grid ga = a.draw(), gb = b.draw();
        // while history is viewed after a resize, the padding of its lines is not specified: compare attributes of characters only
        if (a.sbpos() != a.sbn() && b.sbpos() != b.sbn() && ga.c.size() == gb.c.size())
            for (size_t k = 0; k < ga.c.size(); ++k) if (ga.c[k].ch == ' ' && gb.c[k].ch == ' ') ga.c[k].at = gb.c[k].at;
        std::string d = grid_vs_grid(ga, gb);
        auto num = [&](const char *n, u64 x, u64 y) { if (d.empty() && x != y) d = fmt("%s %llu vs %llu", n, (unsigned long long)x, (unsigned long long)y); };
        num("cursor x", a.cx(), b.cx()); num("cursor y", a.cy(), b.cy());
        num("screen flags", tsm_screen_get_flags(a.con), tsm_screen_get_flags(b.con));
        num("modes", tsm_vte_get_flags(a.vte), tsm_vte_get_flags(b.vte));
        num("scrollback lines", a.sbn(), b.sbn()); num("scrollback position", a.sbpos(), b.sbpos());
        num("mouse protocol", tsm_vte_get_mouse_mode(a.vte), tsm_vte_get_mouse_mode(b.vte));
        num("mouse tracking", tsm_vte_get_mouse_event(a.vte), tsm_vte_get_mouse_event(b.vte));
        auto last = [](Sut &s) { return s.mcb.empty() ? 0u : (unsigned)s.mcb.back().first; };
        num("tracking last told to the application", last(a), last(b));
        if (d.empty() && a.out != b.out) d = fmt("output '%s' vs '%s'", show(a.out).c_str(), show(b.out).c_str());
        if (d.empty() && a.osc != b.osc) d = "OSC callbacks differ";
        if (d.empty()) { std::string x, y; int rx = a.copy(x), ry = b.copy(y); if (rx != ry || x != y) d = fmt("selection copy %d '%s' vs %d '%s'", rx, show(x).c_str(), ry, show(y).c_str()); }
        if (d.empty()) {
            tsm_screen_attr p, q; tsm_vte_get_def_attr(a.vte, &p); tsm_vte_get_def_attr(b.vte, &q);
            if (p.fccode != q.fccode || p.bccode != q.bccode || p.fr != q.fr || p.fg != q.fg || p.fb != q.fb || p.br != q.br || p.bg != q.bg || p.bb != q.bb) d = "default attributes differ";
        }
        if (!d.empty()) c.viol("differs", fmt("event %zu (%s '%s'): reset terminal against new one: %s", i, e.op.c_str(), show(e.b).c_str(), d.c_str()));
        c.logn(a.hash_all()); c.log(a.out);
        a.out.clear(); b.out.clear();
        c.state(mix64(mix64(tsm_vte_get_flags(a.vte), tsm_screen_get_flags(a.con)), mix64(a.cx(), a.cy()) + a.sbn()));
    }
    a.destroy(); if (reset) b.destroy();
}

// ---- C20 -------------------------------------------------------------------
static std::string oscch(Rng &r, int kind) { u32 ch; do ch = rnd_char(r, kind); while ((ch & 0xfffe) == 0xfffe || (ch >= 0xfdd0 && ch <= 0xfdef)); return ref::utf8(ch); } // noncharacters are not text
static void gen20(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_OSC, 10}, {T_TEXT, 10}, {T_UTF8, 3}, {T_MOVE, 5}, {T_C0, 4}, {T_SGR, 2}, {T_QUERY, 2}, {T_INERT, 4}, {T_ALT, 1}, {T_CHARSET, 2}, {T_SRESET, 1}, {T_HRESET, 1}, {T_SAVE, 1}});
    soften(r, g, T_OSC);
    if (r.chance(1, 6)) g.wt[T_8BIT] = 2;
    int n = (int)r.range(4, tier ? 150 : 50), frag = r.chance(1, 2) ? 0 : (int)r.range(1, 6); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 8)) t.ev.push_back(r.chance(1, 3) ? resize_ev(r, now, g) : r.chance(1, 2) ? rnd_key_event(r, now) : ev(now, r.chance(1, 12) ? "vhard" : "nop"));
        if (r.chance(1, 2)) {
            std::string p;
            // multi-byte characters around the limit, embedded controls, long tails
            if (r.chance(1, 2)) { int k = (int)r.range(0, 12); for (int q = 0; q < k; ++q) p += oscch(r, (int)r.below(5)); }
            else { int k = (int)r.range(118, 134); p = "0;" + std::string((size_t)std::max(0, k - 2 - (int)r.below(6)), 'x'); int tail = (int)r.below(r.chance(1, 4) ? 400 : 12); for (int q = 0; q < tail; ++q) p += oscch(r, r.chance(1, 2) ? 0 : (int)r.range(1, 4)); }
            if (r.chance(1, 5)) { size_t at = 0; for (int tries = 0; tries < 8; ++tries) { at = r.below(p.size() + 1); if (at >= p.size() || ((u8)p[at] & 0xc0) != 0x80) break; at = 0; } static const std::vector<std::string> cc = {std::string("\0", 1), "\n", "\r", "\t", "\x0e", "\x7f", "\x05", "\x1f"}; p.insert(at, r.pick(cc)); }
            static const std::vector<std::string> term = {"\x07", "\x07", "\x1b\\", "\x1b\\", "\xc2\x9c"};
            std::string b = (r.chance(1, 6) ? "\xc2\x9d" : "\x1b]") + p;
            if (r.chance(1, 16)) b += "\x18"; else b += r.pick(term);
            if (r.chance(1, 3)) { // the application does something while the string is incomplete
                int k = (int)r.range(1, 4); size_t at = 0;
                while (k-- && at < b.size()) {
                    size_t q = (size_t)r.range(1, (i64)(b.size() - at)); if (r.chance(1, 3)) q = std::min(q, (size_t)3);
                    emit_feed(r, t, now, b.substr(at, q), frag); at += q;
                    t.ev.push_back(r.chance(1, 6) ? resize_ev(r, now, g) : app_event(r, now, g, t)); tick(r, now);
                }
                b.erase(0, at);
            }
            emit_feed(r, t, now, b, frag);
        } else emit_feed(r, t, now, g.piece(r), frag);
    }
}
static void exec20(const Trace &t, Ctx &c) {
    Sut s; ref::Term m; start(t, s, &m);
    size_t si = 0, mi = 0;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        bool in = m.st == ref::Term::OSC;
        bool cand = e.op == "feed" && (in || e.b.substr(0, 2) == "\x1b]" || e.b.substr(0, 2) == "\xc2\x9d");
        bool look = cand && (e.b.size() > 3 || i % 8 == 0); // the hash of the whole state is slow: not after every fragment
        u64 acts = m.acts, h0 = look ? s.hash_all() : 0; size_t olog = s.osc.size();
        m.osc_abort = false;
        apply_sut(s, e); apply_model(m, e);
        // an event that is nothing but a piece of an OSC string must not change the screen
        bool pure = look && m.acts == acts;
        if (pure) { c.check(); c.nontrivial = true; c.probe("pieces_of_osc_strings"); if (s.hash_all() != h0) { c.viol("screen", fmt("event %zu: OSC bytes '%s' changed the screen", i, show(e.b).c_str())); break; } }
        if (s.osc_bad) { c.viol("termination", fmt("event %zu: OSC callback with a string that is too long or not NUL-terminated", i)); break; }
        // deliveries so far; a string that was aborted or ended by another sequence need not be delivered
        bool abort = m.osc_abort || m.esc_after_osc;
        while (mi < m.osc.size() || si < s.osc.size()) {
            c.check();
            if (mi < m.osc.size() && si < s.osc.size() && m.osc[mi] == s.osc[si]) { ++mi; ++si; c.probe("osc_delivered"); continue; }
            if (mi < m.osc.size() && si >= s.osc.size() && abort && mi + 1 == m.osc.size()) { if (m.esc_after_osc) { c.probe("osc_pending_st"); break; } ++mi; c.probe("osc_aborted"); continue; }
            if (abort && mi < m.osc.size() && si < s.osc.size()) { ++mi; continue; }
            c.viol("payload", fmt("event %zu '%s': application received %s, expected %s", i, show(e.b.substr(0, 300)).c_str(), si < s.osc.size() ? ("'" + show(s.osc[si]) + fmt("' (%zu bytes)", s.osc[si].size())).c_str() : "nothing", mi < m.osc.size() ? ("'" + show(m.osc[mi]) + fmt("' (%zu bytes)", m.osc[mi].size())).c_str() : "nothing"));
            break;
        }
        for (; olog < s.osc.size(); ++olog) c.log(s.osc[olog]);
        if (c.stop()) break;
        c.state(mix64(m.oscbuf.size(), mix64(m.st, m.osc.size() ? m.osc.back().size() : 999)));
    }
    s.destroy();
}

// ---- C27 -------------------------------------------------------------------
static void gen27(Rng &r, Trace &t, int tier) {
    int n = (int)r.range(2, 3); t.cfg["n"] = n;
    std::vector<std::vector<Ev>> q((size_t)n);
    for (int k = 0; k < n; ++k) {
        StreamGen g; Trace sub; dims(r, sub, g); all_feats(r, g); g.wt[T_HRESET] = r.chance(1, 2); g.wt[T_OSC] = 6; g.wt[T_QUERY] = 6; g.wt[T_ZERO] = 2;
        t.cfg[fmt("w%d", k)] = g.w; t.cfg[fmt("h%d", k)] = g.h; t.cfg[fmt("sb%d", k)] = sub.get("sb");
        int frag = r.chance(1, 2) ? (int)r.range(1, 3) : 0, m = (int)r.range(3, tier ? 80 : 25); u64 now = 0;
        for (int i = 0; i < m; ++i) {
            switch (r.below(10)) {
            case 0: case 1: sub.ev.push_back(app_event(r, now, g, sub)); break;
            case 2: if (r.chance(1, 2)) mouse_session(r, sub.ev, now, g); else sub.ev.push_back(ev(now, "copy")); break;
            case 3: if (r.chance(1, 3)) sub.ev.push_back(ev(now, "recreate")); break;
            case 4: if (r.chance(1, 3)) sub.ev.push_back(ev(now, "oom", {(i64)r.range(1, 8), r.pick(std::vector<i64>{1, 1, 2, -1})})); break;
            default: emit_feed(r, sub, now, g.piece(r), frag);
            }
        }
        q[k] = sub.ev;
    }
    u64 now = 0; std::vector<size_t> pos((size_t)n, 0);
    for (;;) {
        std::vector<int> live; for (int k = 0; k < n; ++k) if (pos[k] < q[k].size()) live.push_back(k);
        if (live.empty()) break;
        int k = r.pick(live), burst = (int)r.range(1, 3);
        while (burst-- && pos[k] < q[k].size()) { Ev e = q[k][pos[k]++]; tick(r, now); e.t = now; e.op += fmt("@%d", k); t.ev.push_back(e); }
    }
}
struct Inst { Sut s; std::vector<u64> log; bool pend = false; i64 oa = 0, ol = 0; };
static void step27(const Trace &t, Inst &x, int k, Ev e, Ctx *c) {
    e.op.resize(e.op.find('@'));
    std::string txt; int rc = 0;
    auto arm = [&]() { if (x.pend) { sim_fail_at = x.oa; sim_fail_len = x.ol; x.pend = false; if (c) c->fault("allocation_failure"); } };
    if (e.op == "oom") { x.pend = true; x.oa = e.arg(0); x.ol = e.arg(1); return; }
    if (e.op == "recreate" || !x.s.con) {
        x.s.destroy(); x.s = Sut(); x.s.create((unsigned)t.get(fmt("w%d", k).c_str(), 5), (unsigned)t.get(fmt("h%d", k).c_str(), 3), (unsigned)t.get(fmt("sb%d", k).c_str()));
        if (e.op == "recreate") return;
    }
    if (e.op == "copy") { arm(); rc = x.s.copy(txt); }
    else { arm(); apply_sut(x.s, e); }
    sim_alloc_faults_off();
    u64 h = x.s.hash_all(); h = fnv(h, txt.data(), txt.size()); h = fnv(h, &rc, sizeof rc);
    h = fnv(h, x.s.out.data(), x.s.out.size()); x.s.out.clear();
    for (auto &o : x.s.osc) h = fnv(h, o.data(), o.size() + 1);
    x.s.osc.clear();
    for (auto &o : x.s.mcb) h = fnv(h, &o.first, sizeof o.first);
    x.s.mcb.clear();
    x.log.push_back(h);
}
static void exec27(const Trace &t, Ctx &c) {
    int n = (int)t.get("n", 2); if (n < 1) n = 1; if (n > 3) n = 3;
    auto who = [&](const Ev &e) { size_t p = e.op.find('@'); return p == std::string::npos ? -1 : atoi(e.op.c_str() + p + 1); };
    std::vector<Inst> alone((size_t)n), mix((size_t)n);
    for (int k = 0; k < n; ++k) {
        for (auto &e : t.ev) if (who(e) == k) step27(t, alone[k], k, e, nullptr);
        alone[k].s.destroy();
    }
    int prev = -1;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; int k = who(e); if (k < 0 || k >= n) continue;
        c.at = i; if (prev >= 0 && prev != k) { c.nontrivial = true; c.probe("switches_between_terminals"); } prev = k;
        step27(t, mix[k], k, e, &c);
        size_t l = mix[k].log.size();
        c.check();
        if (l && mix[k].log[l - 1] != alone[k].log[l - 1]) c.viol("influence", fmt("event %zu (%s): terminal %d behaves differently than alone", i, e.op.c_str(), k));
        if (l) { c.logn(mix[k].log[l - 1]); c.state(mix[k].log[l - 1]); }
    }
    for (auto &x : mix) x.s.destroy();
}

void props_vte(std::vector<Prop> &v) {
    v.push_back({"C14", gen14, exec14});
    v.push_back({"C15", gen15, exec15});
    v.push_back({"C16", gen16, exec16});
    v.push_back({"C18", gen18, exec18});
    v.push_back({"C20", gen20, exec20});
    v.push_back({"C27", gen27, exec27});
}
