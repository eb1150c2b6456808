#include "world.h"

std::string Grid::row(unsigned y) const {
    std::string r;
    for (unsigned x = 0; x < w; ++x) { const GCell &k = at(x, y); if (k.w == 0) continue; r += ref::utf8(k.ch); }
    return r;
}
static void cb_write(tsm_vte *, const char *u8, size_t n, void *d) { Sut *s = (Sut *)d; s->out.append(u8, n); s->writes.emplace_back(u8, n); }
static void cb_osc(tsm_vte *, const char *u8, size_t n, void *d) {
    Sut *s = (Sut *)d; s->osc.emplace_back(u8, n);
    if (u8[n] != 0 || n > 127) s->osc_bad = true;
}
static void cb_mouse(tsm_vte *, tsm_mouse_track_mode m, bool px, void *d) { ((Sut *)d)->mcb.push_back({(int)m, px}); }

int Sut::create(unsigned W, unsigned H, unsigned sb, int observers, tsm_log_t log, void *log_data) {
    int r = tsm_screen_new(&con, log, log_data);
    if (r) { con = nullptr; return r; }
    r = tsm_screen_resize(con, W, H);
    if (r) { tsm_screen_unref(con); con = nullptr; return r; }
    tsm_screen_set_max_sb(con, sb);
    r = tsm_vte_new(&vte, con, cb_write, this, log, log_data);
    if (r) { tsm_screen_unref(con); con = nullptr; vte = nullptr; return r; }
    if (observers & OBS_OSC) tsm_vte_set_osc_cb(vte, cb_osc, this);
    if (observers & OBS_MOUSE) tsm_vte_set_mouse_cb(vte, cb_mouse, this);
    return 0;
}
void Sut::destroy() {
    if (vte) tsm_vte_unref(vte);
    if (con) tsm_screen_unref(con);
    vte = nullptr; con = nullptr;
}
void Sut::budget(size_t n, unsigned w2, unsigned h2) {
    u64 w = std::max(this->w(), w2), h = std::max(this->h(), h2), sb = sbn();
    mw = std::max<unsigned>(mw, w); mh = std::max<unsigned>(mh, h);
    sim_steps = 0;
    sim_step_limit = (w2 || h2 ? 200ull * std::min<u64>((u64)mw * mh, 6000000) : 0) + 20ull * mh * (n + 1) + 100000 + (u64)(n + 1) * (500 + 40 * (w * h + w + h)) + 200 * (sb + 1) + 10 * sb * w;
}
struct DrawCtx { Grid *g; };
static int cb_draw(tsm_screen *, uint64_t id, const uint32_t *ch, size_t len, unsigned width, unsigned x, unsigned y,
                   const tsm_screen_attr *a, tsm_age_t age, void *d) {
    Grid *g = ((DrawCtx *)d)->g;
    size_t i = g->calls++;
    if (x >= g->w || y >= g->h || i != (size_t)y * g->w + x) { g->order_ok = false; return 0; }
    GCell &c = g->c[i];
    c.ch = len ? ch[0] : ' '; c.len = (u8)len; c.w = (u8)width; c.age = age; c.id = id;
    c.at.fcc = a->fccode; c.at.bcc = a->bccode;
    c.at.fr = a->fr; c.at.fg = a->fg; c.at.fb = a->fb; c.at.br = a->br; c.at.bg = a->bg; c.at.bb = a->bb;
    c.at.bold = a->bold; c.at.italic = a->italic; c.at.underline = a->underline; c.at.inverse = a->inverse; c.at.blink = a->blink; c.at.prot = a->protect;
    return 0;
}
Grid Sut::draw() {
    Grid g; g.w = w(); g.h = h(); g.c.resize((size_t)g.w * g.h);
    DrawCtx d{&g};
    budget(0);
    g.ret = tsm_screen_draw(con, cb_draw, &d);
    disarm();
    if (g.calls != g.c.size()) g.order_ok = false;
    return g;
}
void Sut::feed(const std::string &b) {
    budget(b.size());
    std::vector<char> tmp(b.begin(), b.end()); // exact-size heap copy: over-reads of the input trap
    tsm_vte_input(vte, tmp.data(), tmp.size());
    disarm();
}
int Sut::copy(std::string &text, int *ret) {
    char *p = (char *)1;
    budget(sbn() + 4);
    int r = tsm_screen_selection_copy(con, &p);
    disarm();
    if (ret) *ret = r;
    text.clear();
    if (r < 0) return -1;
    if (!p) return -2;
    text.assign(p, r);
    if (p[r] != 0) { sim_free_tracked(p); return -3; }
    sim_free_tracked(p);
    return 0;
}
u64 Sut::hash_all() {
    Grid g = draw(); u64 h = 0xcbf29ce484222325ull;
    auto add = [&](u64 v) { h = fnv(h, &v, sizeof v); };
    for (auto &c : g.c) {
        add(c.w ? c.ch : 0xffff0000u); add(c.w);
        if (c.w) { add((u64)c.at.fcc & 0xff); add((u64)c.at.bcc & 0xff); add(c.at.fr << 16 | c.at.fg << 8 | c.at.fb); add(c.at.br << 16 | c.at.bg << 8 | c.at.bb);
        add(c.at.bold | c.at.italic << 1 | c.at.underline << 2 | c.at.inverse << 3 | c.at.blink << 4 | c.at.prot << 5); }
    }
    add(g.order_ok); add(w()); add(this->h()); add(cx()); add(cy()); add(tsm_screen_get_flags(con)); add(sbn()); add(sbpos());
    add(tsm_vte_get_flags(vte)); add(tsm_vte_get_mouse_mode(vte)); add(tsm_vte_get_mouse_event(vte));
    return h;
}

static void fill_custom(const Ev &e, uint8_t p[18][3]) {
    Rng r((u64)e.arg(0)); for (int i = 0; i < 18; ++i) for (int k = 0; k < 3; ++k) p[i][k] = (uint8_t)r.below(256);
    if (e.arg(1)) { Rng q((u64)e.arg(2)); p[(e.arg(1) - 1) % 18][q.below(3)] = (uint8_t)q.below(256); } // one colour of a palette changed
}

// ---- direct calls of the screen interface ------------------------------------
tsm_screen_attr api_attr(const Ev &e) {
    unsigned a = (unsigned)e.arg(1), b = (unsigned)e.arg(2);
    tsm_screen_attr at; memset(&at, 0, sizeof at);
    if (!e.arg(3)) { at.fccode = (int8_t)a; at.bccode = (int8_t)b; at.bold = a & 1; at.inverse = b & 1; at.protect = (a >> 1) & 1; return at; }
    Rng r((u64)e.arg(3)); auto rare = [&] { return r.chance(1, 5); };
    at.fccode = (int8_t)r.range(-1, 17); at.bccode = (int8_t)r.range(-1, 17);
    at.fr = (u8)r.next(); at.fg = (u8)r.next(); at.fb = (u8)r.next(); at.br = (u8)r.next(); at.bg = (u8)r.next(); at.bb = (u8)r.next();
    at.bold = rare(); at.italic = rare(); at.underline = rare(); at.inverse = rare(); at.blink = rare(); at.protect = r.chance(1, 3);
    return at;
}
ref::Attr model_attr(const tsm_screen_attr &a) {
    ref::Attr r; r.fcc = a.fccode; r.bcc = a.bccode; r.fr = a.fr; r.fg = a.fg; r.fb = a.fb; r.br = a.br; r.bg = a.bg; r.bb = a.bb;
    r.bold = a.bold; r.italic = a.italic; r.underline = a.underline; r.inverse = a.inverse; r.blink = a.blink; r.prot = a.protect;
    return r;
}
void api_call_on(tsm_screen *c, const Ev &e) {
    unsigned f = (unsigned)e.arg(0) % API_N, a = (unsigned)e.arg(1), b = (unsigned)e.arg(2);
    tsm_screen_attr at = api_attr(e);
    unsigned n = std::min(a, 100000u); // calls whose work is by contract proportional to the number given
    switch (f) {
    case API_MARGINS: tsm_screen_set_margins(c, a, b); break;
    case API_MOVETO: case API_MOVETO2: tsm_screen_move_to(c, a, b); break;
    case API_UP: tsm_screen_move_up(c, a, b & 1); break;
    case API_DOWN: tsm_screen_move_down(c, a, b & 1); break;
    case API_LEFT: tsm_screen_move_left(c, a); break;
    case API_RIGHT: tsm_screen_move_right(c, a); break;
    case API_END: tsm_screen_move_line_end(c); break;
    case API_HOME: tsm_screen_move_line_home(c); break;
    case API_TABR: tsm_screen_tab_right(c, n); break;
    case API_TABL: tsm_screen_tab_left(c, n); break;
    case API_INSL: tsm_screen_insert_lines(c, a); break;
    case API_DELL: tsm_screen_delete_lines(c, a); break;
    case API_INSC: tsm_screen_insert_chars(c, a); break;
    case API_DELC: tsm_screen_delete_chars(c, a); break;
    case API_ERCUR: tsm_screen_erase_cursor(c); break;
    case API_ERCH: tsm_screen_erase_chars(c, a); break;
    case API_ER_CTE: tsm_screen_erase_cursor_to_end(c, b & 1); break;
    case API_ER_HTC: tsm_screen_erase_home_to_cursor(c, b & 1); break;
    case API_ER_LINE: tsm_screen_erase_current_line(c, b & 1); break;
    case API_ER_STC: tsm_screen_erase_screen_to_cursor(c, b & 1); break;
    case API_ER_CTS: tsm_screen_erase_cursor_to_screen(c, b & 1); break;
    case API_ER_ALL: tsm_screen_erase_screen(c, b & 1); break;
    case API_SCRUP: tsm_screen_scroll_up(c, a); break;
    case API_SCRDOWN: tsm_screen_scroll_down(c, a); break;
    case API_NEWLINE: tsm_screen_newline(c); break;
    case API_SETTAB: tsm_screen_set_tabstop(c); break;
    case API_RSTTAB: tsm_screen_reset_tabstop(c); break;
    case API_RSTALL: tsm_screen_reset_all_tabstops(c); break;
    case API_SETFL: tsm_screen_set_flags(c, a & 0x7f); break;
    case API_RSTFL: tsm_screen_reset_flags(c, a & 0x7f); break;
    case API_DEFATTR: tsm_screen_set_def_attr(c, &at); break;
    case API_RESET: tsm_screen_reset(c); break;
    case API_WRITE: tsm_screen_write(c, a % 0x110000, &at); break;
    }
}
static void api_model(ref::Screen &s, const Ev &e) {
    unsigned f = (unsigned)e.arg(0) % API_N, a = (unsigned)e.arg(1), b = (unsigned)e.arg(2);
    ref::Attr at = model_attr(api_attr(e));
    unsigned n = std::min(a, 100000u), x = s.ccx(), W = s.w - 1, H = s.h - 1, y = s.cy; bool prot = b & 1;
    static const unsigned fl[7][2] = {{TSM_SCREEN_ALTERNATE, ref::F_ALT}, {TSM_SCREEN_INVERSE, ref::F_INVERSE}, {TSM_SCREEN_HIDE_CURSOR, ref::F_HIDE}, {TSM_SCREEN_REL_ORIGIN, ref::F_ORIGIN},
        {TSM_SCREEN_AUTO_WRAP, ref::F_WRAP}, {TSM_SCREEN_INSERT_MODE, ref::F_INSERT}, {TSM_SCREEN_FIXED_POS, ref::F_FIXED}};
    switch (f) {
    case API_MARGINS: s.set_margins(a, b); break;
    case API_MOVETO: case API_MOVETO2: s.move_to(a, b); break;
    case API_UP: s.up(a, b & 1); break;
    case API_DOWN: s.down(a, b & 1); break;
    case API_LEFT: s.left(a); break;
    case API_RIGHT: s.right(a); break;
    case API_END: s.cx = W; break;
    case API_HOME: s.cx = 0; break;
    case API_TABR: if (n) s.tab_right(n); break;
    case API_TABL: s.tab_left(n); break;
    case API_INSL: s.insert_lines(a); break;
    case API_DELL: s.delete_lines(a); break;
    case API_INSC: s.insert_chars(a); break;
    case API_DELC: s.delete_chars(a); break;
    case API_ERCUR: s.erase(x, y, x, y); break;
    case API_ERCH: s.erase_chars(a); break;
    case API_ER_CTE: s.erase(x, y, W, y, prot); break;
    case API_ER_HTC: s.erase(0, y, x, y, prot); break;
    case API_ER_LINE: s.erase(0, y, W, y, prot); break;
    case API_ER_STC: s.erase(0, 0, x, y, prot); break;
    case API_ER_CTS: s.erase(x, y, W, H, prot); break;
    case API_ER_ALL: s.erase(0, 0, W, H, prot); break;
    case API_SCRUP: s.scroll_up(a); break;
    case API_SCRDOWN: s.scroll_down(a); break;
    case API_NEWLINE: s.newline(); break;
    case API_SETTAB: if (s.cx < s.w) s.tabs[s.cx] = true; break;
    case API_RSTTAB: if (s.cx < s.w) s.tabs[s.cx] = false; break;
    case API_RSTALL: s.tabs.assign(s.w, false); break;
    case API_SETFL: for (auto &k : fl) if (a & k[0]) s.set_flag(k[1], true); break;
    case API_RSTFL: for (auto &k : fl) if (a & k[0]) s.set_flag(k[1], false); break;
    case API_DEFATTR: s.def = at; break;
    case API_RESET: s.reset(); break;
    case API_WRITE: s.put(a % 0x110000, at); break;
    }
}
bool apply_sut(Sut &s, const Ev &e) {
    auto A = [&](size_t i) { return (unsigned)e.arg(i); };
    const std::string &o = e.op;
    if (o == "feed") { s.feed(e.b); return true; }
    if (o == "many") { // a long output: the same bytes again and again
        std::string b; for (i64 i = 0, n = e.arg(0); i < n; ++i) { b += e.b; if (b.size() > 4000 || i + 1 == n) { s.feed(b); b.clear(); } }
        return true;
    }
    s.budget(16);
    if (o == "key") tsm_vte_handle_keyboard(s.vte, A(0), A(1), A(2), A(3));
    else if (o == "mouse") tsm_vte_handle_mouse(s.vte, A(0), A(1), A(2), A(3), A(4), A(5), (u8)A(6));
    else if (o == "resize") { s.budget(4, A(0), A(1)); tsm_screen_resize(s.con, A(0), A(1)); }
    else if (o == "sbup") tsm_screen_sb_up(s.con, A(0));
    else if (o == "sbdown") tsm_screen_sb_down(s.con, A(0));
    else if (o == "pgup") tsm_screen_sb_page_up(s.con, A(0));
    else if (o == "pgdn") tsm_screen_sb_page_down(s.con, A(0));
    else if (o == "sbreset") tsm_screen_sb_reset(s.con);
    else if (o == "maxsb") tsm_screen_set_max_sb(s.con, A(0));
    else if (o == "clearsb") tsm_screen_clear_sb(s.con);
    else if (o == "fixed") { if (A(0)) tsm_screen_set_flags(s.con, TSM_SCREEN_FIXED_POS); else tsm_screen_reset_flags(s.con, TSM_SCREEN_FIXED_POS); }
    else if (o == "palette") tsm_vte_set_palette(s.vte, e.b.empty() ? nullptr : e.b.c_str());
    else if (o == "custom") { uint8_t p[18][3]; fill_custom(e, p);
        if (e.arg(3) == 1) tsm_vte_set_palette(s.vte, "custom");
        tsm_vte_set_custom_palette(s.vte, e.arg(3) == 3 ? nullptr : p);
        if (e.arg(3) == 0) tsm_vte_set_palette(s.vte, "custom"); }
    else if (o == "vreset") tsm_vte_reset(s.vte);
    else if (o == "vhard") tsm_vte_hard_reset(s.vte);
    else if (o == "bsdel") tsm_vte_set_backspace_sends_delete(s.vte, A(0));
    else if (o == "selstart") tsm_screen_selection_start(s.con, A(0), A(1));
    else if (o == "seltarget") tsm_screen_selection_target(s.con, A(0), A(1));
    else if (o == "selreset") tsm_screen_selection_reset(s.con);
    else if (o == "age") shim_set_age(s.con, (u64)e.arg(0));
    else if (o == "api") { sim_step_limit += 4000000; api_call_on(s.con, e); }
    else if (o == "draw" || o == "nop") { s.disarm(); return true; }
    else { s.disarm(); return false; }
    s.disarm();
    return true;
}
bool apply_model(ref::Term &m, const Ev &e) {
    auto A = [&](size_t i) { return (unsigned)e.arg(i); };
    const std::string &o = e.op;
    if (o == "feed") m.input(e.b);
    else if (o == "many") for (i64 i = 0, n = e.arg(0); i < n; ++i) m.input(e.b);
    else if (o == "key") m.key(A(0), A(1), A(2), A(3));
    else if (o == "mouse") m.mouse(A(0), A(1), A(2), A(3), A(4), A(5), A(6));
    else if (o == "resize") m.s.resize(A(0), A(1));
    else if (o == "sbup") m.s.sb_up(A(0));
    else if (o == "sbdown") m.s.sb_down(A(0));
    else if (o == "pgup") m.s.sb_up((unsigned)std::min<u64>(0xffffffffu, (u64)A(0) * m.s.h));
    else if (o == "pgdn") m.s.sb_down((unsigned)std::min<u64>(0xffffffffu, (u64)A(0) * m.s.h));
    else if (o == "sbreset") m.s.sb_reset();
    else if (o == "maxsb") m.s.set_max_sb(A(0));
    else if (o == "clearsb") m.s.clear_sb();
    else if (o == "fixed") m.s.set_flag(ref::F_FIXED, A(0));
    else if (o == "palette") { ref::Palette p; m.custom_on = e.b == "custom";
        if (m.custom_on && m.custom_set) p = m.custom; else if (!ref::palette_named(e.b.empty() ? "legacy" : e.b, p)) ref::palette_named("legacy", p); m.set_palette(p); }
    else if (o == "custom") { ref::Palette p; fill_custom(e, p.c); if (e.arg(3) < 2) m.custom_on = true;
        m.custom_set = e.arg(3) != 3; m.custom = p;
        if (!m.custom_on) p = m.pal; else if (!m.custom_set) ref::palette_named("legacy", p);
        m.set_palette(p); }
    else if (o == "vreset") m.soft_reset();
    else if (o == "vhard") m.hard_reset();
    else if (o == "bsdel") m.bs_del = A(0);
    else if (o == "api") api_model(m.s, e);
    else if (o == "selstart" || o == "seltarget" || o == "selreset" || o == "age" || o == "draw" || o == "nop") ;
    else return false;
    return true;
}

static std::string cstr(u32 c) { return c >= 0x20 && c < 0x7f ? fmt("'%c'", (int)c) : fmt("U+%04X", c); }
std::string diff_grid(const Grid &g, const ref::Term &m, int what) {
    const ref::Screen &s = m.s;
    if (g.w != s.w || g.h != s.h) return fmt("size %ux%u, expected %ux%u", g.w, g.h, s.w, s.h);
    if (!g.order_ok) return "draw did not report every cell exactly once in order";
    int r0 = s.screen_row0();
    for (unsigned y = 0; y < s.h; ++y) {
        const ref::Line &l = s.row(y);
        bool hist = (int)y < r0;
        for (unsigned x = 0; x < s.w; ++x) {
            const GCell &k = g.at(x, y);
            static const ref::Cell none;
            const ref::Cell &e = x < l.c.size() ? l.c[x] : none;
            bool any = x >= l.c.size() || e.attr_any;
            if (what & CMP_CHARS) {
                if (k.w != e.w) return fmt("cell (%u,%u)%s has width %u, expected %u", x, y, hist ? " of history" : "", k.w, e.w);
                u32 ch = e.ch ? e.ch : ' ';
                if (e.w && k.ch != ch) return fmt("cell (%u,%u)%s shows %s, expected %s; row is '%s'", x, y, hist ? " of history" : "", cstr(k.ch).c_str(), cstr(ch).c_str(), show(g.row(y)).c_str());
            }
            if ((what & CMP_ATTRS) && !any && e.w) {
                ref::Attr a = e.at;
                bool cur = !(s.flags & ref::F_HIDE) && (int)y == r0 + (int)s.cy && x == s.ccx();
                if (cur) a.inverse = !a.inverse;
                if (s.flags & ref::F_INVERSE) a.inverse = !a.inverse;
                if (!(a == k.at))
                    return fmt("cell (%u,%u)%s '%s' has attributes fg=%d/%d,%d,%d bg=%d/%d,%d,%d b%d i%d u%d r%d k%d p%d, expected fg=%d/%d,%d,%d bg=%d/%d,%d,%d b%d i%d u%d r%d k%d p%d",
                               x, y, hist ? " of history" : "", cstr(k.ch).c_str(), k.at.fcc, k.at.fr, k.at.fg, k.at.fb, k.at.bcc, k.at.br, k.at.bg, k.at.bb,
                               k.at.bold, k.at.italic, k.at.underline, k.at.inverse, k.at.blink, k.at.prot,
                               a.fcc, a.fr, a.fg, a.fb, a.bcc, a.br, a.bg, a.bb, a.bold, a.italic, a.underline, a.inverse, a.blink, a.prot);
            }
        }
    }
    return "";
}
std::string diff_cursor(const Sut &s, const ref::Term &m) {
    if (s.cx() != m.s.cx || s.cy() != m.s.cy) return fmt("cursor at (%u,%u), expected (%u,%u)", s.cx(), s.cy(), m.s.cx, m.s.cy);
    return "";
}
unsigned tsm_flags_of(const ref::Term &m) {
    unsigned f = m.s.flags, r = 0;
    if (f & ref::F_ALT) r |= TSM_SCREEN_ALTERNATE;
    if (f & ref::F_INVERSE) r |= TSM_SCREEN_INVERSE;
    if (f & ref::F_HIDE) r |= TSM_SCREEN_HIDE_CURSOR;
    if (f & ref::F_ORIGIN) r |= TSM_SCREEN_REL_ORIGIN;
    if (f & ref::F_WRAP) r |= TSM_SCREEN_AUTO_WRAP;
    if (f & ref::F_INSERT) r |= TSM_SCREEN_INSERT_MODE;
    if (f & ref::F_FIXED) r |= TSM_SCREEN_FIXED_POS;
    return r;
}
std::string diff_state(const Sut &s, const ref::Term &m) {
    unsigned f = tsm_screen_get_flags(s.con), e = tsm_flags_of(m);
    if (f != e) return fmt("screen flags %#x, expected %#x", f, e);
    unsigned vf = tsm_vte_get_flags(s.vte);
    if (vf != m.flags) return fmt("terminal modes %#x, expected %#x", vf, m.flags);
    return "";
}
std::string grid_vs_grid(const Grid &a, const Grid &b) {
    if (a.w != b.w || a.h != b.h) return fmt("size %ux%u vs %ux%u", a.w, a.h, b.w, b.h);
    if (!a.order_ok || !b.order_ok) return "draw did not report every cell exactly once in order";
    for (unsigned y = 0; y < a.h; ++y) for (unsigned x = 0; x < a.w; ++x) {
        const GCell &p = a.at(x, y), &q = b.at(x, y);
        if (p.w != q.w) return fmt("cell (%u,%u): width %u vs %u", x, y, p.w, q.w);
        if (p.w && p.ch != q.ch) return fmt("cell (%u,%u): %s vs %s; rows '%s' vs '%s'", x, y, cstr(p.ch).c_str(), cstr(q.ch).c_str(), show(a.row(y)).c_str(), show(b.row(y)).c_str());
        if (p.w && !(p.at == q.at)) return fmt("cell (%u,%u) %s: attributes differ (fg %d/%d bg %d/%d b%d%d i%d%d u%d%d r%d%d k%d%d)", x, y, cstr(p.ch).c_str(), p.at.fcc, q.at.fcc, p.at.bcc, q.at.bcc,
            p.at.bold, q.at.bold, p.at.italic, q.at.italic, p.at.underline, q.at.underline, p.at.inverse, q.at.inverse, p.at.blink, q.at.blink);
    }
    return "";
}
u64 abstract_state(const ref::Term &m) {
    u64 h = 7; auto add = [&](u64 v) { h = fnv(h, &v, sizeof v); };
    add(m.s.flags); add(m.flags); add(m.st); add(m.s.cx >= m.s.w); add(m.s.cx == 0); add(m.s.cy == m.s.mt); add(m.s.cy == m.s.mb);
    add(m.s.cy < m.s.mt ? 1 : m.s.cy > m.s.mb ? 2 : 0); add(m.s.mt != 0); add(m.s.mb != m.s.h - 1);
    add(m.s.sb.empty() ? 0 : m.s.sb.size() >= m.s.sb_max ? 2 : 1); add(m.s.viewing); add(m.gl); add(m.gr); add(m.glt + 1); add(m.mouse_mode); add(m.mouse_event);
    add(m.s.w < 3 ? m.s.w : 3); add(m.s.h < 3 ? m.s.h : 3);
    return h;
}
