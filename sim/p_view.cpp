// Properties about viewing: C08 incremental redraw, C09 selection copy, C10 highlighting.
#include "world.h"
#include "gen.h"
#include "props.h"

static void start(const Trace &t, Sut &s, ref::Term *m) {
    unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6), sb = (unsigned)t.get("sb", 0);
    s.create(w, h, sb);
    if (m) { ref::Palette p; ref::palette_named("legacy", p); m->create(w, h, p); m->s.sb_max = sb; }
}
static void dims(Rng &r, Trace &t, StreamGen &g) {
    i64 w, h; pick_size(r, w, h);
    t.cfg["w"] = w; t.cfg["h"] = h; g.w = (unsigned)w; g.h = (unsigned)h;
    static const std::vector<i64> sbs = {0, 1, 2, 5, 20, 100};
    t.cfg["sb"] = r.pick(sbs);
}
static i64 coord(Rng &r, unsigned dim) {
    if (r.chance(1, 20)) return r.pick(std::vector<i64>{dim, dim + 1, 1000, 0x7fffffff, 0xffffffffll});
    return (i64)r.below(dim);
}

// ---- C08 -------------------------------------------------------------------
static void gen08(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_TEXT, 20}, {T_UTF8, 2}, {T_WIDE, 4}, {T_C0, 12}, {T_MOVE, 14}, {T_ERASE, 6}, {T_INSDEL, 6}, {T_LINES, 6}, {T_SCROLL, 5}, {T_MARGIN, 3},
           {T_TAB, 4}, {T_WRAPMODE, 1}, {T_INSMODE, 3}, {T_ORIGIN, 1}, {T_ALT, 4}, {T_SGR, 6}, {T_CURMODE, 4}, {T_SAVE, 3}, {T_SRESET, 1}, {T_HRESET, 1}, {T_CHARSET, 1}});
    for (auto &x : g.wt) if (r.chance(1, 4)) x = 0;
    g.wt[T_TEXT] = std::max(g.wt[T_TEXT], 6u);
    int fbs = r.chance(1, 2) ? 1 : (int)r.range(2, 3);
    t.cfg["fbs"] = fbs;
    int n = (int)r.range(10, tier ? 300 : 100), dr = (int)r.range(1, 5); u64 now = 0;
    bool wrap = fbs == 1 && r.chance(1, 4), api = r.chance(1, 3);
    i64 near = 0 - (i64)r.range(1, 40);
    int at = wrap ? (int)r.below(n) : -1;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (i == at) t.ev.push_back(ev(now, "age", {near}));
        switch (r.below(12)) {
        case 0: t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break;
        case 1: if (r.chance(1, 2)) t.ev.push_back(ev(now, "selstart", {coord(r, g.w), coord(r, g.h)})); else if (r.chance(3, 4)) t.ev.push_back(ev(now, "seltarget", {coord(r, g.w), coord(r, g.h)})); else t.ev.push_back(ev(now, "selreset")); break;
        case 2: if (r.chance(1, 3)) { i64 w = std::max<i64>(1, (i64)g.w + r.range(-3, 3)), h = std::max<i64>(1, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; } break;
        case 3: if (r.chance(1, 6)) t.ev.push_back(ev(now, "palette", {}, r.pick(std::vector<std::string>{"legacy", "vga", "solarized", "soft-black", "base16-light"})));
                else if (r.chance(1, 6)) t.ev.push_back(ev(now, r.chance(1, 2) ? "vreset" : "vhard"));
                else if (r.chance(1, 4)) t.ev.push_back(ev(now, "maxsb", {(i64)r.below(8)}));
                else if (r.chance(1, 6)) t.ev.push_back(ev(now, "clearsb"));
                else if (r.chance(1, 4)) t.ev.push_back(ev(now, "fixed", {(i64)r.below(2)}));
                break;
        case 4: if (api) { i64 f = r.chance(1, 3) ? (i64)API_WRITE : (i64)r.below(API_N); t.ev.push_back(ev(now, "api", {f, f == API_WRITE ? (i64)rnd_char(r, (int)r.below(3)) : coord(r, g.w), f == API_UP || f == API_DOWN ? (i64)r.below(2) : coord(r, g.h), (i64)(r.next() >> 20) + 1})); break; } // fallthrough
        default: emit_feed(r, t, now, g.piece(r), r.chance(1, 6) ? 3 : 0);
        }
        if (r.chance(1, dr)) t.ev.push_back(ev(now, "render", {(i64)r.below(fbs)}));
    }
    for (int i = 0; i < fbs; ++i) t.ev.push_back(ev(now, "render", {i}));
}
static void exec08(const Trace &t, Ctx &c) {
    Sut s; start(t, s, nullptr);
    int n = (int)std::max<i64>(1, t.get("fbs", 1));
    struct Fb { Grid g; u64 age = 0; };
    std::vector<Fb> fb(n);
    bool wrapped = false;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "age") { if (wrapped || n > 1) continue; wrapped = true; c.fault("age_counter_jump"); }
        if (e.op != "render") { apply_sut(s, e); continue; }
        Fb &f = fb[(size_t)e.arg(0) % n];
        Grid g = s.draw(); c.check();
        if (!g.order_ok) { c.viol("coverage", fmt("event %zu: draw did not report every cell of the %ux%u screen exactly once, row by row (%zu calls)", i, g.w, g.h, g.calls)); break; }
        if (f.g.w != g.w || f.g.h != g.h) { // the renderer's buffer changes its size; what it then holds is garbage
            f.g = Grid(); f.g.w = g.w; f.g.h = g.h; f.g.c.assign((size_t)g.w * g.h, GCell());
            for (auto &k : f.g.c) { k.ch = 0xBAD; k.w = 7; }
        }
        u64 skipped = 0;
        for (size_t k = 0; k < g.c.size(); ++k) {
            if (f.age && g.c[k].age && g.c[k].age <= f.age) { ++skipped; continue; }
            f.g.c[k] = g.c[k];
        }
        if (!g.ret) c.probe("age_overflow_draws");
        if (skipped) { c.nontrivial = true; c.probe("cells_skipped", skipped); }
        for (unsigned y = 0; y < g.h && !c.stop(); ++y) for (unsigned x = 0; x < g.w; ++x) {
            const GCell &a = f.g.at(x, y), &b = g.at(x, y);
            if (a.ch != b.ch || a.w != b.w || !(a.at == b.at)) {
                c.viol("stale", fmt("event %zu, buffer %lld: cell (%u,%u) of %ux%u is not redrawn (age %llu, previous draw returned %llu): shows U+%04X width %u inverse %d fg %d/%d,%d,%d bg %d/%d,%d,%d, a full redraw shows U+%04X width %u inverse %d fg %d/%d,%d,%d bg %d/%d,%d,%d; cursor (%u,%u)",
                                    i, (long long)e.arg(0), x, y, g.w, g.h, (unsigned long long)b.age, (unsigned long long)f.age, a.ch, a.w, a.at.inverse, a.at.fcc, a.at.fr, a.at.fg, a.at.fb, a.at.bcc, a.at.br, a.at.bg, a.at.bb,
                                    b.ch, b.w, b.at.inverse, b.at.fcc, b.at.fr, b.at.fg, b.at.fb, b.at.bcc, b.at.br, b.at.bg, b.at.bb, s.cx(), s.cy()));
                break;
            }
        }
        f.age = g.ret;
        for (unsigned y = 0; y < g.h; ++y) c.log(g.row(y));
        c.logn(skipped);
        c.state(mix64(mix64(skipped, tsm_screen_get_flags(s.con)), mix64(s.cx() << 8 | s.cy(), s.sbpos())));
    }
    s.destroy();
}

// ---- selection model shared by C09 and C10 ---------------------------------
struct SelEnd { u64 id = 0; unsigned x = 0; };
struct SelModel {
    bool active = false; SelEnd a, b;
    void set(SelEnd &e, const ref::Term &m, u64 x, u64 y) {
        if (x >= m.s.w) x = m.s.w - 1;
        if (y >= m.s.h) y = m.s.h - 1;
        e.id = m.s.row((unsigned)y).id; e.x = (unsigned)x;
    }
    bool apply(const ref::Term &m, const Ev &e) {
        if (e.op == "selstart") { active = true; set(a, m, (u32)e.arg(0), (u32)e.arg(1)); b = a; }
        else if (e.op == "seltarget") { if (active) set(b, m, (u32)e.arg(0), (u32)e.arg(1)); }
        else if (e.op == "selreset") active = false;
        else return false;
        return true;
    }
    static std::vector<const ref::Line *> lines(const ref::Term &m) {
        std::vector<const ref::Line *> v;
        if (!m.s.is_alt()) for (auto &l : m.s.sb) v.push_back(&l);
        for (auto &l : m.s.L()) v.push_back(&l);
        return v;
    }
    bool dropped(const ref::Term &m) const { // is the line of an end gone?
        bool i = false, j = false; for (auto *l : lines(m)) { i |= l->id == a.id; j |= l->id == b.id; }
        return !i || !j;
    }
    // An end whose line has just left the screen for good (not into or out of the scrollback) moves to the
    // nearest line that was selected and still exists. Returns false if which one that is is not specified.
    bool reanchor(const std::vector<u64> &before, const ref::Term &m, unsigned top, unsigned bottom, bool down, u64 nlost) {
        auto idx = [](const std::vector<u64> &v, u64 id) { for (size_t k = 0; k < v.size(); ++k) if (v[k] == id) return (long)k; return -1l; };
        std::vector<u64> now; for (auto *l : lines(m)) now.push_back(l->id);
        long i = idx(before, a.id), j = idx(before, b.id);
        bool ga = i >= 0 && idx(now, a.id) < 0, gb = j >= 0 && idx(now, b.id) < 0;
        if (!ga && !gb) return true;
        if ((ga || idx(now, a.id) < 0) && (gb || idx(now, b.id) < 0)) {
            if (ga && gb) { // the rest between them may still be there, unless it is all gone
                for (long k = std::min(i, j); k <= std::max(i, j); ++k) if (idx(now, before[(size_t)k]) >= 0) return false;
                a.id = b.id = 0; return true;
            }
            // the other end was dropped before: everything up to here was selected
        }
        SelEnd &e = ga ? a : b, &o = ga ? b : a; long n = ga ? i : j, q = ga ? j : i;
        bool last = q < 0 || n > q; // was it the last selected line?
        if (last && n == q) return false;
        if (!down && nlost >= bottom - top + 1) return false; // the whole region is new
        if (down && last && nlost >= bottom - top + 1) return false;
        for (long k = n; k >= 0 && k < (long)before.size() && k != (last ? -1 : q + 1); k += last ? -1 : 1) if (idx(now, before[(size_t)k]) >= 0) {
            if (last && q >= 0 && k < q) return false;
            e.id = before[(size_t)k]; e.x = last ? m.s.w - 1 : 0; return true;
        }
        return false;
    }
    // first and last selected cell as (line index, column); false if nothing is selected any more
    bool range(const std::vector<const ref::Line *> &v, long &l0, unsigned &x0, long &l1, unsigned &x1) const {
        if (!active) return false;
        long i = -1, j = -1;
        for (size_t k = 0; k < v.size(); ++k) { if (v[k]->id == a.id) i = (long)k; if (v[k]->id == b.id) j = (long)k; }
        if (i < 0 && j < 0) return false;
        l0 = i; x0 = a.x; l1 = j; x1 = b.x;
        if (l0 > l1 || (l0 == l1 && x0 > x1)) { std::swap(l0, l1); std::swap(x0, x1); }
        if (l0 < 0) { l0 = 0; x0 = 0; } // dropped: starts with the first line there is
        return true;
    }
};
static std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static void gensel(Rng &r, Trace &t, int tier, bool hl) {
    StreamGen g; dims(r, t, g);
    if (t.get("h") > 10) { t.cfg["h"] = r.range(2, 8); g.h = (unsigned)t.get("h"); }
    if (t.get("w") > 30) { t.cfg["w"] = r.range(4, 20); g.w = (unsigned)t.get("w"); }
    bool alt = r.chance(1, 6), margins = !alt && r.chance(1, 3); u64 now = 0;
    if (r.chance(1, 8)) t.ev.push_back(ev(now, "feed", {}, "\x1b[?5h"));
    if (alt) { emit_feed(r, t, now, "ABC\r\nDEF\r\nGHI\r\nJKL\r\nMNO\r\n\x1b[?1049h", 0); }
    int n = (int)r.range(10, tier ? 220 : 70);
    bool sel = false;
    int many = alt ? -1 : (int)r.below(n);
    if (!alt && r.chance(1, 600)) { // the history around its 65536th line
        t.cfg["sb"] = r.range(20, 60); n = 60;
        t.ev.push_back(ev(now, "many", {65536 - (i64)r.below(20)}, "\r\n" + g.label(r)));
    }
    if (!hl && !alt && r.chance(1, 500)) { // a long history on a screen that became very wide: sizes around 2^31 and 2^32
        static const std::vector<std::pair<i64, i64>> v = {{17896, 60000}, {8950, 60000}, {65540, 16384}, {65540, 8192}};
        auto q = r.pick(v); t.cfg["sb"] = 100000; i64 h = r.range(1, 3);
        t.ev.push_back(ev(now, "many", {q.first + (i64)r.below(9)}, "\r\n" + g.label(r) + "12"));
        t.ev.push_back(ev(now, "resize", {q.second, h}));
        t.ev.push_back(ev(now, "sbup", {200000})); t.ev.push_back(ev(now, "selstart", {0, 0})); t.ev.push_back(ev(now, "sbreset"));
        t.ev.push_back(ev(now, "seltarget", {q.second - 1, h - 1})); t.ev.push_back(ev(now, "look")); return;
    }
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (i == many && rnd_many(r, t, now, "\r\n" + g.label(r))) continue;
        switch (r.below(14)) {
        case 0: case 1: case 2: { std::string b; int k = (int)r.range(1, r.chance(1, 6) ? (i64)g.h + 3 : 3); for (int q = 0; q < k; ++q) { b += "\r\n"; if (r.chance(3, 4)) b += g.label(r); if (r.chance(1, 3)) b += "\x1b[3C" + rnd_text(r, (int)r.range(1, 4), 0); } emit_feed(r, t, now, b, r.chance(1, 8) ? 3 : 0); break; }
        case 3: emit_feed(r, t, now, g.pieceof(r, (int)r.pick(std::vector<int>{T_TEXT, T_UTF8, T_WIDE, T_WIDE, T_TEXT})), 0); break;
        case 4: emit_feed(r, t, now, "\x1b[" + num(r, g.h) + ";" + num(r, g.w) + "H" + (r.chance(1, 2) ? rnd_text(r, (int)r.range(1, 5), 0) : ""), 0); break;
        case 5: emit_feed(r, t, now, r.chance(1, 2) ? g.pieceof(r, T_ERASE) : r.chance(1, 2) ? g.pieceof(r, T_INSDEL) : hl ? std::string(r.chance(1, 2) ? "\x1b[7m" : "\x1b[27m") : std::string("\t"), 0); break;
        case 6: emit_feed(r, t, now, r.chance(1, 2) ? "\x1b[" + num(r, g.h) + "S" : r.chance(2, 3) ? fmt("\x1b[%uT", (unsigned)r.range(1, 2)) : std::string("\x1b[H\x1bM"), 0); break;
        case 7: if (!alt) { t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break; } // fallthrough
        case 8: t.ev.push_back(ev(now, "selstart", {coord(r, g.w), coord(r, g.h)})); sel = true; break;
        case 9: case 10: if (sel) { t.ev.push_back(ev(now, "seltarget", {coord(r, g.w), coord(r, g.h)})); } break;
        case 11: if (!alt && r.chance(1, 4)) t.ev.push_back(ev(now, "maxsb", {r.pick(std::vector<i64>{0, 1, 2, 3, 5, 20})})); else if (!alt && r.chance(1, 8)) t.ev.push_back(ev(now, "clearsb")); else if (r.chance(1, 8)) t.ev.push_back(ev(now, "fixed", {(i64)r.below(2)})); break;
        case 12: if (r.chance(1, 2)) { bool keep = r.chance(1, 2); if (!keep) { t.ev.push_back(ev(now, "selreset")); sel = false; } // else a resize with an active selection
                 if (keep || r.chance(1, 2)) { i64 w = std::max<i64>(1, (i64)g.w + r.range(-4, 4)), h = std::max<i64>(1, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; } } break;
        default: if (margins && r.chance(1, 3)) emit_feed(r, t, now, g.pieceof(r, T_MARGIN), 0); if (hl && r.chance(1, 6)) emit_feed(r, t, now, g.pieceof(r, T_CURMODE), 0); break;
        }
        if (r.chance(1, 3)) t.ev.push_back(ev(now, "look"));
    }
    t.ev.push_back(ev(now, "look"));
}
static void gen09(Rng &r, Trace &t, int tier) { gensel(r, t, tier, false); }
static void gen10(Rng &r, Trace &t, int tier) { gensel(r, t, tier, true); }

// does the library show the same lines everywhere in its history as the model?
static std::string same_content(Sut &s, ref::Term m) {
    std::string d = diff_grid(s.draw(), m, CMP_CHARS);
    if (!d.empty()) return d;
    if (s.sbn() != m.s.sb.size()) return "scrollback count";
    tsm_screen_sb_reset(s.con); m.s.sb_reset();
    tsm_screen_sb_up(s.con, 1u << 20); m.s.sb_up(1u << 20);
    for (;;) {
        d = diff_grid(s.draw(), m, CMP_CHARS);
        if (!d.empty() || !m.s.viewing) return d;
        m.s.sb_down(m.s.h); tsm_screen_sb_page_down(s.con, 1);
    }
}
static void execsel(const Trace &t, Ctx &c, bool hl) {
    Sut s; ref::Term m; start(t, s, &m); SelModel sm;
    bool lost = false; // an end of the selection left the screen where it is not specified what is then selected
    bool moved = false, ever_inv = false; u64 out0 = 0;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op != "look") {
            apply_sut(s, e);
            if (m.s.def.inverse) ever_inv = true;
            if (!sm.apply(m, e)) {
                m.s.lost_bottom.clear();
                if (sm.active && !lost && e.op == "feed") {
                    std::vector<u64> before; auto ids = [&] { before.clear(); for (auto *l : SelModel::lines(m)) before.push_back(l->id); };
                    ids(); u64 sc = m.s.scrolls;
                    for (u8 q : e.b) {
                        unsigned top = m.s.mt, bottom = m.s.mb; bool alt = m.s.is_alt(); m.s.lost_bottom.clear();
                        m.input(std::string(1, (char)q));
                        bool down = !m.s.lost_bottom.empty();
                        if (down) { moved = true; c.probe("scrolled_down_with_selection"); }
                        if (down || (alt && m.s.is_alt() && m.s.scrolls != sc)) {
                            std::vector<u64> now; for (auto *l : SelModel::lines(m)) now.push_back(l->id);
                            u64 gone = 0; for (u64 id : before) { bool in = false; for (u64 x : now) in |= x == id; if (!in) ++gone; }
                            SelEnd a0 = sm.a, b0 = sm.b;
                            if (!lost && !sm.reanchor(before, m, top, bottom, down, gone)) lost = true;
                            if (down && alt && sm.a.id && sm.dropped(m)) lost = true;
                            if (a0.id != sm.a.id || b0.id != sm.b.id) c.probe("ends_cut_off");
                        }
                        if (m.s.scrolls != sc || m.s.is_alt() != alt) { ids(); sc = m.s.scrolls; }
                    }
                } else apply_model(m, e);
                if (sm.active && e.op == "resize") { moved = true; c.probe("resized_with_selection"); }
            } else { moved = false; out0 = m.s.scrolled_out; if (e.op != "seltarget") lost = false; }
            if (sm.active && m.s.scrolled_out != out0) moved = true;
            continue;
        }
        if (sm.active && lost) { std::string text; s.copy(text); s.draw(); c.probe("looks_with_lost_end"); continue; }
        auto v = SelModel::lines(m);
        long l0, l1; unsigned x0, x1; bool any = sm.range(v, l0, x0, l1, x1);
        c.check();
        if (sm.active) { c.nontrivial = true; if (moved) c.probe("looks_at_moved_selection"); if (!any) c.probe("selection_completely_dropped"); if (l0 != l1) c.probe("multi_row"); }
        if (!hl) {
            std::string text; int ret; int k = s.copy(text, &ret);
            std::string bad;
            if (!sm.active) { if (k != -1) bad = fmt("copy without a selection returned %d", ret); }
            else if (k == -1) bad = fmt("copy failed with %d", ret);
            else if (k < -1) bad = "copy returned no or an unterminated string";
            else if (text.find('\0') != std::string::npos) bad = "copied text contains NUL: '" + show(text) + "'";
            else {
                std::vector<std::string> want, wstrip;
                if (any) for (long l = l0; l <= l1; ++l) {
                    const auto &cells = v[(size_t)l]->c; std::string row;
                    size_t lastw = 0; for (size_t x = 0; x < cells.size() && x < m.s.w; ++x) if (cells[x].ch && cells[x].w) lastw = x + 1;
                    size_t from = l == l0 ? x0 : 0, to = std::min<size_t>(l == l1 ? x1 + 1 : m.s.w, lastw);
                    for (size_t x = from; x < to; ++x) if (cells[x].w) row += ref::utf8(cells[x].ch ? cells[x].ch : ' ');
                    want.push_back(row);
                }
                std::vector<std::string> got; size_t o = 0;
                for (;;) { size_t q = text.find('\n', o); got.push_back(text.substr(o, q == std::string::npos ? q : q - o)); if (q == std::string::npos) break; o = q + 1; }
                if (want.empty()) want.push_back("");
                bool eq = got.size() == want.size();
                for (size_t q = 0; eq && q < got.size(); ++q) eq = got[q] == want[q] || got[q] == rstrip(want[q]);
                if (!eq) { std::string w; for (auto &x : want) w += (w.empty() && &x == &want[0] ? "" : "\n") + x; bad = fmt("selection %s copied as '%s', expected '%s'", any ? fmt("from line %ld column %u to line %ld column %u", l0, x0, l1, x1).c_str() : "(all dropped)", show(text).c_str(), show(w).c_str()); }
            }
            c.log(text);
            if (!bad.empty()) {
                std::string d = same_content(s, m);
                if (!d.empty()) c.alien("content", d); else c.viol("copy", fmt("event %zu: %s", i, bad.c_str()));
                break;
            }
        } else {
            Grid g = s.draw();
            if (!g.order_ok) { c.viol("coverage", fmt("event %zu: draw did not report every cell of the %ux%u screen exactly once, row by row (%zu calls)", i, g.w, g.h, g.calls)); break; }
            std::string d = diff_grid(g, m, CMP_CHARS); if (d.empty()) d = diff_cursor(s, m);
            if (!d.empty()) { c.alien("content", d); break; }
            int r0 = m.s.screen_row0();
            for (unsigned y = 0; y < g.h && !c.stop(); ++y) {
                const ref::Line &ln = m.s.row(y); long li = -1;
                for (size_t k = 0; k < v.size(); ++k) if (v[k] == &ln) li = (long)k;
                for (unsigned x = 0; x < g.w; ++x) {
                    bool cell = x < ln.c.size();
                    if (cell && (ln.c[x].attr_any || !ln.c[x].w)) continue;
                    if (!cell && (ever_inv || m.s.def.inverse)) continue; // how a history line is padded is not specified
                    bool inv = cell ? ln.c[x].at.inverse : m.s.def.inverse;
                    if (!(m.s.flags & ref::F_HIDE) && (int)y == r0 + (int)m.s.cy && x == m.s.ccx()) inv = !inv;
                    if (m.s.flags & ref::F_INVERSE) inv = !inv;
                    bool selected = any && (li > l0 || (li == l0 && x >= x0)) && (li < l1 || (li == l1 && x <= x1));
                    if (g.at(x, y).at.inverse != (inv != selected)) {
                        c.viol("highlight", fmt("event %zu: cell (%u,%u)%s is %shighlighted; %s, view starts at line %d of %zu history lines", i, x, y, cell ? "" : " beyond its line", selected ? "not " : "",
                                                any ? fmt("selected are line %ld column %u to line %ld column %u, this is line %ld", l0, x0, l1, x1, li).c_str() : "nothing is selected", m.s.view_index(), m.s.sb.size()));
                        break;
                    }
                }
            }
            for (auto &k : g.c) c.logn(k.at.inverse);
        }
        c.state(mix64(mix64(any ? l1 - l0 : -1, any ? (x0 > x1) : 2), mix64(m.s.sb.size(), (u64)m.s.view_index())));
    }
    s.destroy();
}
static void exec09(const Trace &t, Ctx &c) { execsel(t, c, false); }
static void exec10(const Trace &t, Ctx &c) { execsel(t, c, true); }

void props_view(std::vector<Prop> &v) {
    v.push_back({"C08", gen08, exec08});
    v.push_back({"C09", gen09, exec09});
    v.push_back({"C10", gen10, exec10});
}
