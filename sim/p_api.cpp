// The screen interface itself: C31 direct operations, C32 draw identifiers, C34 observers without influence.
#include "world.h"
#include "gen.h"
#include "props.h"
#include <errno.h>
#include <stdarg.h>

static void dims(Rng &r, Trace &t, StreamGen &g) {
    i64 w, h; pick_size(r, w, h);
    t.cfg["w"] = w; t.cfg["h"] = h; g.w = (unsigned)w; g.h = (unsigned)h;
    t.cfg["sb"] = r.pick(std::vector<i64>{0, 0, 1, 2, 5, 50});
}
static i64 count(Rng &r, unsigned dim) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return (i64)dim + r.range(-1, 1);
    case 2: return (i64)r.below(2 * dim + 2);
    case 3: return r.chance(1, 3) ? r.pick(std::vector<i64>{0x7fffffff, 0x80000000ll, 0xffffffffll, 0xfffffffell, 65535, 65536, 1000}) : 1;
    default: return r.chance(1, 2) ? 1 : (i64)r.below(dim + 1);
    }
}

// ---- C31 -------------------------------------------------------------------
static void gen31(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    bool mixed = r.chance(1, 3), wide = r.chance(1, 2);
    t.cfg["vte"] = mixed; t.cfg["wide"] = wide;
    g.set({{T_TEXT, 10}, {T_C0, 6}, {T_MOVE, 8}, {T_ERASE, 5}, {T_INSDEL, 5}, {T_LINES, 4}, {T_SCROLL, 3}, {T_MARGIN, 2}, {T_TAB, 3}, {T_ORIGIN, 1}, {T_SGR, 3}, {T_WIDE, wide ? 3u : 0u}});
    // each run prefers some operations, so that long undisturbed sequences of them occur
    std::vector<unsigned> wt(API_N, 2);
    wt[API_WRITE] = 40; wt[API_MOVETO] = 8; wt[API_NEWLINE] = 6; wt[API_MARGINS] = 3; wt[API_RESET] = 1; wt[API_SETFL] = 4; wt[API_RSTFL] = 3;
    for (auto &x : wt) { if (r.chance(1, 4)) x = 0; else if (r.chance(1, 6)) x *= 5; }
    wt[API_WRITE] = std::max(wt[API_WRITE], 20u);
    if (mixed) wt[API_SETFL] = wt[API_RSTFL] = wt[API_DEFATTR] = wt[API_RESET] = 0;
    int n = (int)r.range(15, tier ? 400 : 120); u64 now = 0;
    auto attr = [&]() -> i64 { // seed of an attribute; protected cells and wide characters do not meet in one run
        for (;;) { i64 s = (i64)(r.next() >> 20) + 1; Ev e; e.a = {0, 0, 0, s}; if (!wide || !api_attr(e).protect) return s; }
    };
    i64 cur = attr();
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        if (r.chance(1, 12)) {
            switch (r.below(6)) {
            case 0: { i64 w = std::max<i64>(1, (i64)g.w + r.range(-4, 4)), h = std::max<i64>(1, (i64)g.h + r.range(-3, 3)); if (r.chance(1, 6)) { w = r.range(1, 90); h = r.range(1, 30); }
                      if (r.chance(1, 10)) (r.chance(1, 2) ? w : h) = 0;
                      t.ev.push_back(ev(now, "resize", {w, h})); if (w && h) { g.w = (unsigned)w; g.h = (unsigned)h; } break; }
            case 1: case 2: t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break;
            case 3: t.ev.push_back(ev(now, "maxsb", {(i64)r.below(8)})); break;
            case 4: t.ev.push_back(ev(now, r.chance(1, 2) ? "clearsb" : "sbreset")); break;
            default: t.ev.push_back(ev(now, "null", {count(r, g.w), count(r, g.h)}));
            }
            continue;
        }
        if (mixed && r.chance(1, 3)) { if (r.chance(1, 8)) t.ev.push_back(ev(now, "feed", {0, 1}, fmt("\x1b[?%d%c", (int)r.below(3), r.chance(1, 2) ? 'J' : 'K'))); else emit_feed(r, t, now, g.piece(r), 0); continue; }
        i64 f = (i64)r.weighted(wt);
        if (r.chance(1, 10)) cur = attr();
        i64 a = count(r, std::max(g.w, g.h)), b = count(r, g.h), s = cur;
        switch (f) {
        case API_WRITE: {
            int k = r.chance(3, 4) ? 0 : r.chance(1, 2) ? 1 : r.chance(1, 2) ? 4 : 3; if (wide && r.chance(1, 4)) k = 2;
            u32 ch = rnd_char(r, k); if (!wide && ref::width_of(ch) > 1) ch = 'w';
            a = ch; if (r.chance(1, 3)) s = attr();
            int rep = r.chance(1, 6) ? (int)r.range(1, (i64)std::min(g.w, 30u) + 2) : 1;
            for (int q = 1; q < rep; ++q) { t.ev.push_back(ev(now, "api", {f, a, b, s})); a = 'a' + (i64)r.below(26); }
            break; }
        case API_MOVETO: case API_MOVETO2: a = r.chance(1, 8) ? count(r, g.w) : (i64)r.below(g.w); b = r.chance(1, 8) ? count(r, g.h) : (i64)r.below(g.h); break;
        case API_MARGINS: if (r.chance(2, 3)) { a = (i64)r.below(g.h + 1); b = a + (i64)r.below(g.h + 1); } else { a = count(r, g.h); } break;
        case API_SETFL: case API_RSTFL: a = r.chance(1, 4) ? (i64)r.below(128) : 1ll << r.below(7); break;
        case API_DEFATTR: s = attr(); break;
        }
        t.ev.push_back(ev(now, "api", {f, a, b, s}));
    }
}
static std::string null_calls(const Ev &e) {
    unsigned a = (unsigned)e.arg(0), b = (unsigned)e.arg(1);
    Sut z; z.con = nullptr; z.vte = nullptr;
    for (int f = 0; f < API_N; ++f) api_call_on(nullptr, ev(0, "api", {f, a, b, 0}));
    tsm_screen_ref(nullptr); tsm_screen_unref(nullptr);
    if (tsm_screen_get_width(nullptr) || tsm_screen_get_height(nullptr) || tsm_screen_get_flags(nullptr) || tsm_screen_get_cursor_x(nullptr) || tsm_screen_get_cursor_y(nullptr) ||
        tsm_screen_sb_get_line_count(nullptr) || tsm_screen_sb_get_line_pos(nullptr)) return "a getter without a screen returned something";
    if (tsm_screen_resize(nullptr, a, b) >= 0 || tsm_screen_set_margins(nullptr, a, b) >= 0) return "an operation without a screen claims to have succeeded";
    tsm_screen_set_max_sb(nullptr, a); tsm_screen_clear_sb(nullptr); tsm_screen_sb_up(nullptr, a); tsm_screen_sb_down(nullptr, a);
    tsm_screen_sb_page_up(nullptr, a); tsm_screen_sb_page_down(nullptr, a); tsm_screen_sb_reset(nullptr);
    tsm_screen_selection_reset(nullptr); tsm_screen_selection_start(nullptr, a, b); tsm_screen_selection_target(nullptr, a, b);
    char *p = nullptr; if (tsm_screen_selection_copy(nullptr, &p) >= 0) return "a copy without a screen claims to have succeeded";
    if (tsm_screen_draw(nullptr, nullptr, nullptr)) return "a draw without a screen returned an age";
    return "";
}
static void exec31(const Trace &t, Ctx &c) {
    Sut s; ref::Term m;
    unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6), sb = (unsigned)t.get("sb", 0);
    if (t.get("vte")) { s.create(w, h, sb); ref::Palette p; ref::palette_named("legacy", p); m.create(w, h, p); }
    else {
        if (tsm_screen_new(&s.con, nullptr, nullptr)) return;
        tsm_screen_set_flags(s.con, TSM_SCREEN_HIDE_CURSOR);
        ref::Attr d = s.draw().at(0, 0).at; // the attributes of a new screen are its own choice
        tsm_screen_reset_flags(s.con, TSM_SCREEN_HIDE_CURSOR);
        m.s.init(80, 24, d);
        s.budget(4, w, h);
        if (tsm_screen_resize(s.con, w, h)) { c.alien("create", "resize failed"); s.destroy(); return; }
        Sut::disarm();
        m.s.resize(w, h); tsm_screen_set_max_sb(s.con, sb);
    }
    m.s.sb_max = sb;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        std::string d;
        if (e.op == "null") d = null_calls(e);
        else if (e.op == "resize") {
            s.budget(4, (unsigned)e.arg(0), (unsigned)e.arg(1)); int rc = tsm_screen_resize(s.con, (unsigned)e.arg(0), (unsigned)e.arg(1)); Sut::disarm();
            bool ok = e.arg(0) && e.arg(1);
            if ((rc >= 0) != ok) d = fmt("resize to %lldx%lld returned %d", (long long)e.arg(0), (long long)e.arg(1), rc);
            m.s.resize((unsigned)e.arg(0), (unsigned)e.arg(1));
        } else { apply_sut(s, e); apply_model(m, e); if (e.op == "api") { c.nontrivial = true; c.probe("direct_calls");  } }
        c.check();
        if (d.empty()) d = diff_cursor(s, m);
        if (d.empty()) d = diff_grid(s.draw(), m, CMP_CHARS | CMP_ATTRS);
        if (d.empty() && tsm_screen_get_flags(s.con) != tsm_flags_of(m)) d = fmt("flags %#x, expected %#x", tsm_screen_get_flags(s.con), tsm_flags_of(m));
        if (d.empty() && s.sbn() != m.s.sb.size()) d = fmt("%u history lines, expected %zu", s.sbn(), m.s.sb.size());
        if (d.empty() && s.sbpos() != (unsigned)m.s.view_index()) d = fmt("history position %u, expected %d", s.sbpos(), m.s.view_index());
        if (!d.empty()) {
            if (e.op == "feed" && !e.arg(1)) c.alien("stream", d); // what streams do is the business of other properties
            else c.viol(e.op == "api" ? fmt("call-%lld", (long long)e.arg(0)) : e.op, fmt("event %zu: after %s(%lld, %lld, %lld): %s", i, e.op.c_str(), (long long)e.arg(0), (long long)e.arg(1), (long long)e.arg(2), d.c_str()));
        }
        c.logn(s.cx() * 100003ull + s.cy());
        c.state(abstract_state(m));
    }
    s.destroy();
}

// ---- C32 -------------------------------------------------------------------
static void gen32(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    g.set({{T_TEXT, 14}, {T_UTF8, 8}, {T_WIDE, 6}, {T_C0, 6}, {T_MOVE, 8}, {T_ERASE, 4}, {T_INSDEL, 4}, {T_LINES, 2}, {T_SCROLL, 2}, {T_SGR, 16}, {T_CURMODE, 4}, {T_ALT, 2}, {T_CHARSET, 2}, {T_HRESET, 1}});
    bool api = r.chance(1, 2);
    int n = (int)r.range(10, tier ? 250 : 80); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(12)) {
        case 0: t.ev.push_back(ev(now, "selstart", {(i64)r.below(g.w), (i64)r.below(g.h)})); break;
        case 1: t.ev.push_back(r.chance(3, 4) ? ev(now, "seltarget", {(i64)r.below(g.w), (i64)r.below(g.h)}) : ev(now, "selreset")); break;
        case 2: t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break;
        case 3: case 4: if (api) { t.ev.push_back(ev(now, "api", {API_WRITE, (i64)rnd_char(r, (int)r.below(5)), 0, (i64)(r.next() >> 20) + 1})); break; } // fallthrough
        default: emit_feed(r, t, now, g.piece(r), 0);
        }
        if (r.chance(1, 2)) t.ev.push_back(ev(now, "look"));
    }
    t.ev.push_back(ev(now, "look"));
}
static void exec32(const Trace &t, Ctx &c) {
    Sut s; s.create((unsigned)t.get("w", 20), (unsigned)t.get("h", 6), (unsigned)t.get("sb", 0));
    std::map<u64, u64> look_of, id_of;
    auto name = [](u64 k) { return fmt("U+%04X%s width %d bold %d italic %d underline %d inverse %d blink %d", (unsigned)(k & 0x1fffff), k >> 32 & 1 ? "" : " (blank)", (int)(k >> 40 & 15), (int)(k >> 48 & 1), (int)(k >> 49 & 1), (int)(k >> 50 & 1), (int)(k >> 51 & 1), (int)(k >> 52 & 1)); };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op != "look") { apply_sut(s, e); continue; }
        Grid g = s.draw();
        for (size_t k = 0; k < g.c.size() && !c.stop(); ++k) {
            const GCell &x = g.c[k];
            if (!x.w) continue; // the hidden part of a wide character is not drawn
            u64 look = (u64)x.ch | (u64)(x.len > 0) << 32 | (u64)x.w << 40 | (u64)x.at.bold << 48 | (u64)x.at.italic << 49 | (u64)x.at.underline << 50 | (u64)x.at.inverse << 51 | (u64)x.at.blink << 52;
            c.check();
            auto a = look_of.emplace(x.id, look);
            if (a.first->second != look) c.viol("ambiguous", fmt("event %zu: cell (%zu,%zu) is drawn with identifier %#llx for %s; the same identifier stood for %s", i, k % g.w, k / g.w, (unsigned long long)x.id, name(look).c_str(), name(a.first->second).c_str()));
            if (x.len && x.ch != ' ') {
                auto b = id_of.emplace(look, x.id);
                if (b.first->second != x.id) c.viol("unstable", fmt("event %zu: cell (%zu,%zu), %s, is drawn with identifier %#llx, before with %#llx", i, k % g.w, k / g.w, name(look).c_str(), (unsigned long long)x.id, (unsigned long long)b.first->second));
            }
            c.logn(look);
        }
        if (look_of.size() > 3) c.nontrivial = true;
        c.state(mix64(look_of.size(), id_of.size()));
    }
    c.probe("distinct_identifiers", look_of.size());
    s.destroy();
}

// ---- C34 -------------------------------------------------------------------
static u64 log_calls; static bool log_bad;
static void log_cb(void *data, const char *file, int line, const char *func, const char *subs, unsigned int sev, const char *format, va_list args) {
    char buf[2048];
    int n = vsnprintf(buf, sizeof buf, format, args); // reads every argument the format names
    ++log_calls;
    if (n < 0 || sev > 7 || data != &log_calls || !format || !*format) log_bad = true;
    if (file && strlen(file) > 4096) log_bad = true;
    if (func && strlen(func) > 4096) log_bad = true;
    if (!subs || strlen(subs) > 200) log_bad = true;
}
static int draw_err(tsm_screen *, uint64_t, const uint32_t *ch, size_t len, unsigned, unsigned, unsigned, const tsm_screen_attr *, tsm_age_t, void *d) {
    u64 *h = (u64 *)d; for (size_t i = 0; i < len; ++i) *h = mix64(*h, ch[i]);
    return (*h & 3) ? -ENOMEM : 0;
}
static char pickc(Rng &r, const char *s) { return s[r.below(strlen(s))]; }
// a well-formed sequence with any final byte, known to the emulator or not
static std::string odd_seq(Rng &r) {
    std::string s = r.chance(1, 5) ? "\xc2\x9b" : "\x1b[";
    if (r.chance(1, 5)) return std::string("\x1b") + (r.chance(1, 2) ? std::string(1, pickc(r, " #%()*+-./")) : "") + (char)r.range(0x30, 0x7e);
    if (r.chance(1, 10)) return s + r.pick(std::vector<std::string>{"38;5m", "38m", "48;5m", "38;2;1m", "48;2;1;2m", "38;9m", "48;5;1;38m", "1;38;5;300m"});
    if (r.chance(1, 3)) s += pickc(r, "???>=!");
    for (int n = (int)r.below(4); n--;) s += fmt("%d%s", (int)r.below(r.chance(1, 4) ? 3000 : 110), n ? ";" : "");
    if (r.chance(1, 5)) s += pickc(r, " !\"#$'*");
    return s + (r.chance(1, 3) ? pickc(r, "JKhlmncqrgpWX") : (char)r.range(0x40, 0x7e));
}
static void gen34(Rng &r, Trace &t, int tier) {
    StreamGen g; dims(r, t, g);
    for (int f = 0; f < T_NUM; ++f) g.wt[f] = 2;
    g.wt[T_TEXT] = 8; g.wt[T_INERT] = 12; g.wt[T_OSC] = 5; g.wt[T_MOUSEMODE] = 5; g.wt[T_QUERY] = 4; g.wt[T_GARBAGE] = 4; g.wt[T_HRESET] = 1;
    for (auto &x : g.wt) if (r.chance(1, 4)) x = 0;
    t.cfg["obs"] = (i64)r.range(1, 15);
    bool api = r.chance(1, 3);
    int n = (int)r.range(10, tier ? 300 : 90); u64 now = 0;
    for (int i = 0; i < n; ++i) {
        tick(r, now);
        switch (r.below(12)) {
        case 0: t.ev.push_back(rnd_key_event(r, now)); break;
        case 1: t.ev.push_back(rnd_mouse_event(r, now, g.w, g.h)); break;
        case 2: t.ev.push_back(rnd_view_event(r, now, g.h, (unsigned)t.get("sb"))); break;
        case 3: if (r.chance(1, 3)) { i64 w = std::max<i64>(1, (i64)g.w + r.range(-4, 4)), h = std::max<i64>(1, (i64)g.h + r.range(-2, 2)); t.ev.push_back(ev(now, "resize", {w, h})); g.w = (unsigned)w; g.h = (unsigned)h; }
                else t.ev.push_back(ev(now, "palette", {}, r.pick(std::vector<std::string>{"legacy", "vga", "nonsense", "", "custom"}))); break;
        case 4: if (api) { t.ev.push_back(ev(now, "api", {(i64)r.below(API_N), count(r, g.w), count(r, g.h), (i64)(r.next() >> 20) + 1})); break; } // fallthrough
        default: emit_feed(r, t, now, r.chance(1, 4) ? odd_seq(r) : g.piece(r), r.chance(1, 8) ? 3 : 0);
        }
        if (r.chance(1, 3)) t.ev.push_back(ev(now, "observe", {(i64)r.below(2)}));
    }
}
static void exec34(const Trace &t, Ctx &c) {
    unsigned w = (unsigned)t.get("w", 20), h = (unsigned)t.get("h", 6), sb = (unsigned)t.get("sb", 0), obs = (unsigned)t.get("obs", 15);
    Sut a, b; log_calls = 0; log_bad = false;
    if (a.create(w, h, sb, 0, nullptr, nullptr)) return;
    if (b.create(w, h, sb, (obs & 2 ? OBS_OSC : 0) | (obs & 4 ? OBS_MOUSE : 0), obs & 1 ? log_cb : nullptr, &log_calls)) { a.destroy(); return; }
    u64 dh = 1;
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "observe") {
            if (!(obs & 8)) continue;
            b.budget(0);
            if (e.arg(0)) tsm_screen_draw(b.con, draw_err, &dh); else { tsm_screen_attr x; tsm_vte_get_def_attr(b.vte, &x); tsm_vte_get_flags(b.vte); tsm_screen_get_flags(b.con); tsm_vte_get_mouse_mode(b.vte); tsm_vte_get_mouse_event(b.vte); tsm_screen_sb_get_line_pos(b.con); }
            Sut::disarm(); c.probe(e.arg(0) ? "failing_draws" : "getters"); c.nontrivial = true;
        } else { apply_sut(a, e); apply_sut(b, e); }
        c.check();
        std::string d;
        if (a.out != b.out) d = fmt("the silent terminal sent '%s', the observed one '%s'", show(a.out).c_str(), show(b.out).c_str());
        else if (a.cx() != b.cx() || a.cy() != b.cy()) d = fmt("cursor (%u,%u) without and (%u,%u) with observers", a.cx(), a.cy(), b.cx(), b.cy());
        else if (tsm_screen_get_flags(a.con) != tsm_screen_get_flags(b.con) || tsm_vte_get_flags(a.vte) != tsm_vte_get_flags(b.vte)) d = "modes differ";
        else if (tsm_vte_get_mouse_mode(a.vte) != tsm_vte_get_mouse_mode(b.vte) || tsm_vte_get_mouse_event(a.vte) != tsm_vte_get_mouse_event(b.vte)) d = "mouse modes differ";
        else if (a.sbn() != b.sbn() || a.sbpos() != b.sbpos()) d = fmt("history %u/%u without and %u/%u with observers", a.sbpos(), a.sbn(), b.sbpos(), b.sbn());
        else if (log_bad) d = "a log message was handed over with wrong arguments";
        if (d.empty() && i + 1 == t.ev.size()) d = grid_vs_grid(a.draw(), b.draw());
        if (!d.empty()) c.viol("influence", fmt("event %zu (%s '%s'), observers %s%s%s%s: %s", i, e.op.c_str(), show(e.b).c_str(), obs & 1 ? "log " : "", obs & 2 ? "osc " : "", obs & 4 ? "mouse " : "", obs & 8 ? "draw" : "", d.c_str()));
        c.log(a.out); a.out.clear(); b.out.clear(); a.writes.clear(); b.writes.clear();
        c.state(mix64(tsm_vte_get_flags(a.vte), mix64(tsm_screen_get_flags(a.con), obs)));
    }
    if (log_calls) { c.probe("log_messages", log_calls); c.nontrivial = true; }
    if (b.osc.size()) { c.probe("osc_callbacks", b.osc.size()); c.nontrivial = true; }
    if (b.mcb.size()) { c.probe("mouse_callbacks", b.mcb.size()); c.nontrivial = true; }
    a.destroy(); b.destroy();
}

void props_api(std::vector<Prop> &v) {
    v.push_back({"C31", gen31, exec31});
    v.push_back({"C32", gen32, exec32});
    v.push_back({"C34", gen34, exec34});
}
