// The GTK terminal widget on a simulated main loop, window system, font and kernel (C30).
#include "seam.h"
#include "kernel.h"
#include "gen.h"
#include "props.h"
#include "world.h"
#include <cmath>
#include <gdk/gdkkeysyms.h>
extern "C" uint32_t xkb_keysym_to_utf32(uint32_t);
using namespace kern;

namespace {
const char *const FAMILY[] = {"Monospace", "Sim", "Fake", "Mono"};
const char *const AA[] = {"default", "gray", "none", "subpixel"};
const int AAENUM[] = {CAIRO_ANTIALIAS_DEFAULT, CAIRO_ANTIALIAS_GRAY, CAIRO_ANTIALIAS_NONE, CAIRO_ANTIALIAS_SUBPIXEL};
const char *const ORDER[] = {"default", "rgb", "bgr", "vrgb", "vbgr"};
const int ALLMODS = GDK_SHIFT_MASK | GDK_LOCK_MASK | GDK_CONTROL_MASK | GDK_MOD1_MASK | GDK_MOD4_MASK;

// One widget, its window, its program, and the twin terminal that is told the same directly.
struct Term {
    struct World *w = nullptr; int id = 0;
    seam::Widget wd; GtkTsmTerminal *t = nullptr; bool gone = false, configured = false, face = false, dirtymode = false;
    unsigned W = 0, H = 0; std::vector<u32> fb, last; unsigned last_key = 0; bool shown = false;
    std::string family = "Monospace", desc; int size = 10, aa = 0, order = 0, oname = 0; bool debug = false; i64 sb = -1;
    Sut s; std::vector<std::string> titles; size_t osc_seen = 0; u64 twin_rev = 0;
    unsigned sel = 0; u32 sel_t = 0; double sel_x = 0, sel_y = 0;
    // program
    bool attached = false, alive = false; int proc = -1, bg = -1, idx = -1; unsigned stops = 0, forks = 0; i64 on_stop = 0;
    std::string want, back; u64 sent = 0, fed = 0, exit_sent = 0; size_t out0 = 0; bool exited_noted = false;
    seam::Font font() const { return seam::font(family, size); }
};
struct World {
    std::vector<Term> v; bool delay = false; std::string bad, cls; u64 rounds = 0, draws = 0, exposes = 0; bool restart = true;
    void fail(const char *c, const std::string &m) { if (bad.empty()) { bad = m; cls = c; } }
    void lib(const std::function<void()> &f) { sim_steps = 0; sim_step_limit = 400000000; f(); sim_step_limit = 0; disarm(); }
};
World *world;

struct Pic { std::vector<u32> px; unsigned W, H, cols, rows; const Term *t; seam::Font f; unsigned wide = 0; };
std::string utf8(u32 c) {
    std::string s; int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
    if (n == 1) return std::string(1, (char)c);
    for (int i = n - 1; i > 0; --i) s.insert(s.begin(), (char)(0x80 | (c >> (6 * (n - 1 - i)) & 0x3f)));
    s.insert(s.begin(), (char)((0xff00 >> n & 0xff) | c >> (6 * (n - 1)))); return s;
}
u8 mixc(int f, int b, int m) { return (u8)((f * m + b * (255 - m)) / 255.0 + 0.5); }
int paint(tsm_screen *, uint64_t, const uint32_t *ch, size_t len, unsigned cw, unsigned x, unsigned y, const tsm_screen_attr *a, tsm_age_t, void *d) {
    Pic &p = *(Pic *)d; const Term &t = *p.t;
    if (!cw) { if (x && x < p.wide) return 0; cw = 1; len = 0; } // what is left of a wide character that was cut in half is a blank
    p.wide = x + cw;
    int F[3] = {a->fr, a->fg, a->fb}, B[3] = {a->br, a->bg, a->bb}; if (a->inverse) for (int i = 0; i < 3; ++i) std::swap(F[i], B[i]);
    std::string u; for (size_t i = 0; i < len; ++i) u += utf8(ch[i]);
    unsigned th = std::max(1u, std::min((p.f.ch - p.f.base) / 2, p.f.ch / 14)), ul = std::min(p.f.base + th, p.f.ch - th);
    for (unsigned j = 0; j < p.f.ch; ++j) for (unsigned i = 0; i < p.f.cw * cw; ++i) {
        unsigned X = x * p.f.cw + i, Y = y * p.f.ch + j; if (X >= p.W || Y >= p.H || X >= p.cols * p.f.cw || Y >= p.rows * p.f.ch) continue;
        u32 v = 0;
        for (int c = 0; c < 3; ++c) {
            int m = 0;
            if (len) { m = seam::glyph_mask(t.family, t.size, a->bold ? 1 : a->italic ? 2 : 0, t.order + 8 * AAENUM[t.aa], u, t.aa == 1 || t.aa == 2 ? 0 : c, i, j); if (t.aa == 2) m = m >= 128 ? 255 : 0; }
            if (a->underline && j >= ul && j < ul + th) m = 255;
            v = v << 8 | mixc(F[c], B[c], m);
        }
        p.px[(size_t)Y * p.W + X] = v;
    }
    return 0;
}
Pic expected(Term &t) {
    Pic p; p.W = t.W; p.H = t.H; p.t = &t; p.f = t.font(); p.cols = t.s.w(); p.rows = t.s.h();
    tsm_screen_attr a; tsm_vte_get_def_attr(t.s.vte, &a);
    p.px.assign((size_t)p.W * p.H, (u32)a.br << 16 | a.bg << 8 | a.bb);
    if (t.face) { t.s.budget(0); tsm_screen_draw(t.s.con, paint, &p); Sut::disarm(); }
    return p;
}
void judge_picture(Term &t, Ctx &c, const char *when) {
    if (!t.shown) return;
    Pic p = expected(t); c.check();
    for (size_t i = 0; i < p.px.size(); ++i) if (p.px[i] != t.fb[i]) {
        if (t.dirtymode && t.fb[i] == 0xd01010 && t.face) { unsigned x = i % t.W, y = i / t.W, cx = x % p.f.cw, cy = y % p.f.ch; if (x < p.cols * p.f.cw && y < p.rows * p.f.ch && (!cx || !cy || cx == p.f.cw - 1 || cy == p.f.ch - 1 || x == t.W - 1 || y == t.H - 1)) continue; } // the outline of a redrawn cell
        unsigned x = i % t.W, y = i / t.W; seam::Font f = t.font();
        c.viol("picture", fmt("widget %d %s: pixel (%u,%u) of a %ux%u window, cell (%u,%u) of %ux%u, is #%06x instead of #%06x", t.id, when, x, y, t.W, t.H, x / f.cw, y / f.ch, t.s.w(), t.s.h(), t.fb[i], p.px[i])); return;
    }
}

// the frame the window system asks for; (x, y, w, h) is what it lost
void draw(Term &t, int x, int y, int w, int h) {
    if (t.gone || !t.configured) return;
    cairo_surface_t *s = cairo_image_surface_create_for_data((u8 *)t.fb.data(), CAIRO_FORMAT_RGB24, t.W, t.H, t.W * 4);
    cairo_t *cr = cairo_create(s);
    cairo_rectangle(cr, x, y, w, h); cairo_clip(cr); cairo_set_source_rgb(cr, 1, 0, 1); cairo_paint(cr); cairo_set_source_rgb(cr, 0, 0, 0);
    seam::emit(t.t, "draw", cr);
    cairo_destroy(cr); cairo_surface_flush(s); cairo_surface_destroy(s);
    for (u32 &v : t.fb) v &= 0xffffff;
}
void frame(Term &t) {
    if (t.gone || !t.configured) return;
    t.wd.dirty = false; t.shown = true; ++world->draws; draw(t, 0, 0, t.W, t.H);
    if (!t.dirtymode || !t.face || t.gone) { t.last.clear(); return; }
    // what changed since the frame before has an outline
    Pic p = expected(t); unsigned key = (unsigned)mix64(mix64(fnv(1, t.family.data(), t.family.size()), t.size * 64 + t.aa * 8 + t.order), p.W * 1000 + p.H);
    if (t.last_key == key && t.last.size() == p.px.size()) for (unsigned y = 0; y < p.rows; ++y) for (unsigned x = 0; x < p.cols; ++x) {
        bool diff = false; for (unsigned j = y * p.f.ch; j < (y + 1) * p.f.ch && j < p.H; ++j) for (unsigned i = x * p.f.cw; i < (x + 1) * p.f.cw && i < p.W; ++i) if (p.px[(size_t)j * p.W + i] != t.last[(size_t)j * p.W + i]) diff = true;
        if (diff && t.fb[(size_t)y * p.f.ch * p.W + x * p.f.cw] != 0xd01010) world->fail("dirty", fmt("widget %d: cell (%u,%u) changed and has no outline although redrawn cells are to be shown", t.id, x, y));
    }
    t.last = p.px; t.last_key = key;
}

void geometry(Term &t) { // the size of the grid follows the window and the font
    unsigned c = 1, r = 1; if (t.face) { seam::Font f = t.font(); c = std::max(1u, t.W / f.cw); r = std::max(1u, t.H / f.ch); }
    if (t.s.w() != c || t.s.h() != r) { t.s.budget(4, c, r); tsm_screen_resize(t.s.con, c, r); Sut::disarm(); }
}
void configure(Term &t, unsigned w, unsigned h) {
    if (t.gone) return;
    t.W = w; t.H = h; t.wd.w = w; t.wd.h = h; t.fb.assign((size_t)w * h, 0x123456); t.shown = false; t.configured = true; geometry(t);
    GdkEvent e; memset(&e, 0, sizeof e); e.configure.type = GDK_CONFIGURE; e.configure.width = w; e.configure.height = h;
    seam::emit(t.t, "configure-event", &e);
    if (!t.wd.dirty) world->fail("stale", fmt("widget %d: no frame is requested after the window was resized", t.id));
    const int need = GDK_KEY_PRESS_MASK | GDK_BUTTON_MOTION_MASK | GDK_BUTTON_PRESS_MASK | GDK_BUTTON_RELEASE_MASK;
    if ((t.wd.mask & need & ~GDK_BUTTON_MOTION_MASK) != (need & ~GDK_BUTTON_MOTION_MASK) || !(t.wd.mask & (GDK_BUTTON_MOTION_MASK | GDK_BUTTON1_MOTION_MASK | GDK_POINTER_MOTION_MASK)) || !t.wd.focus || !(t.wd.mask & GDK_EXPOSURE_MASK)) world->fail("events", fmt("widget %d: the window does not receive the events it needs", t.id));
}
void press(Term &t, const Ev &e) { // keyval, state, keymap result ok, key, consumed, code, group, release
    if (t.gone || !t.configured) return;
    GdkEvent g; memset(&g, 0, sizeof g); g.key.type = e.arg(7) ? GDK_KEY_RELEASE : GDK_KEY_PRESS; g.key.keyval = (guint)e.arg(0); g.key.state = (guint)e.arg(1); g.key.hardware_keycode = (guint16)e.arg(5); g.key.group = (guint8)e.arg(6);
    seam::key.ok = e.arg(2); seam::key.key = (guint)e.arg(3); seam::key.consumed = (GdkModifierType)e.arg(4); seam::key.code = (guint16)e.arg(5); seam::key.state = (guint)e.arg(1); seam::key.group = (guint8)e.arg(6);
    bool used = false; guint st = (guint)e.arg(1);
    if (!e.arg(7)) {
        guint k = seam::key.ok ? seam::key.key : 0; bool only_shift = (st & ~seam::key.consumed & ALLMODS) == GDK_SHIFT_MASK;
        t.s.budget(16);
        if (only_shift && k == GDK_KEY_Up) tsm_screen_sb_up(t.s.con, 1), used = true;
        else if (only_shift && k == GDK_KEY_Down) tsm_screen_sb_down(t.s.con, 1), used = true;
        else if (only_shift && k == GDK_KEY_Page_Up) tsm_screen_sb_page_up(t.s.con, 1), used = true;
        else if (only_shift && k == GDK_KEY_Page_Down) tsm_screen_sb_page_down(t.s.con, 1), used = true;
        else {
            unsigned m = (st & GDK_SHIFT_MASK ? TSM_SHIFT_MASK : 0) | (st & GDK_LOCK_MASK ? TSM_LOCK_MASK : 0) | (st & GDK_CONTROL_MASK ? TSM_CONTROL_MASK : 0) | (st & GDK_MOD1_MASK ? TSM_ALT_MASK : 0) | (st & GDK_MOD4_MASK ? TSM_LOGO_MASK : 0);
            u32 u = xkb_keysym_to_utf32((u32)e.arg(0));
            used = tsm_vte_handle_keyboard(t.s.vte, (u32)e.arg(0), 0, m, u ? u : TSM_VTE_INVALID);
            if (used) tsm_screen_sb_reset(t.s.con);
        }
        Sut::disarm();
    }
    bool r = seam::emit(t.t, "key-press-event", &g);
    if (r != used) world->fail("key", fmt("widget %d: key 0x%x with modifiers 0x%x is %s", t.id, (unsigned)e.arg(0), st, r ? "taken although the terminal has no use for it" : "passed on although the terminal used it"));
}
unsigned cell(double v, unsigned n) { return v < 0 ? 0 : (unsigned)(v / n); }
void mouse(Term &t, const Ev &e) { // kind 0 press 1 double 2 triple 3 release 4 motion, x*4, y*4, time, button
    if (t.gone || !t.configured) return;
    GdkEvent g; memset(&g, 0, sizeof g); double x = e.arg(1) / 4.0, y = e.arg(2) / 4.0; u32 tm = (u32)e.arg(3); int kd = (int)e.arg(0); guint b = (guint)e.arg(4, 1);
    seam::Font f = t.font(); t.s.budget(16);
    if (kd == 4) {
        g.motion.type = GDK_MOTION_NOTIFY; g.motion.x = x; g.motion.y = y; g.motion.time = tm;
        if (t.sel && t.face) {
            if (t.sel == 1) { if (fabs(t.sel_x - x) > 3 || fabs(t.sel_y - y) > 3) { t.sel = 2; tsm_screen_selection_start(t.s.con, cell(t.sel_x, f.cw), cell(t.sel_y, f.ch)); } }
            else tsm_screen_selection_target(t.s.con, cell(x, f.cw), cell(y, f.ch));
        }
    } else {
        g.button.type = kd == 0 ? GDK_BUTTON_PRESS : kd == 1 ? GDK_2BUTTON_PRESS : kd == 2 ? GDK_3BUTTON_PRESS : GDK_BUTTON_RELEASE; g.button.button = b; g.button.x = x; g.button.y = y; g.button.time = tm;
        if (b == 1 && t.face) {
            if (kd == 0) { t.sel = 1; t.sel_t = tm; t.sel_x = x; t.sel_y = y; }
            else if (kd < 3) { t.sel = 2; tsm_screen_selection_start(t.s.con, cell(x, f.cw), cell(y, f.ch)); }
            else { if (t.sel == 1 && (u32)(tm - t.sel_t) < 100) tsm_screen_selection_reset(t.s.con); t.sel = 0; }
        }
    }
    Sut::disarm();
    seam::emit(t.t, kd == 4 ? "motion-notify-event" : kd == 3 ? "button-release-event" : "button-press-event", &g);
}
void property(Term &t, i64 which, i64 a, i64 b, i64 var = 0) {
    if (t.gone) return;
    switch (which % 6) {
    case 0: { int sz = (int)std::min<i64>(44, std::max<i64>(3, b)); t.family = FAMILY[(u64)a % 4]; t.size = sz; std::string d = fmt("%s %d", t.family.c_str(), sz);
        switch (var) { case 1: d = fmt("%s Bold %d", t.family.c_str(), sz); break; case 2: d = fmt("%s Italic %d", t.family.c_str(), sz); break; case 3: d = t.family; t.size = 10; break; case 4: t.family = "monospace"; d = fmt("%d", sz); break; } // what is missing has a default, the style is the terminal's
        t.desc = d; g_object_set(t.t, "font", d.c_str(), nullptr); break; }
    case 1: t.aa = (int)((u64)a % 4); g_object_set(t.t, "anti-aliasing", AA[t.aa], nullptr); break;
    case 2: { int o = (int)((u64)a % 5); g_object_set(t.t, "subpixel-order", ORDER[o], nullptr); static const int M[] = {CAIRO_SUBPIXEL_ORDER_DEFAULT, CAIRO_SUBPIXEL_ORDER_RGB, CAIRO_SUBPIXEL_ORDER_BGR, CAIRO_SUBPIXEL_ORDER_VRGB, CAIRO_SUBPIXEL_ORDER_VBGR}; t.order = M[o]; t.oname = o; break; }
    case 3: { guint n = (guint)((u64)a % 60); t.s.budget(16); tsm_screen_set_max_sb(t.s.con, n); Sut::disarm(); g_object_set(t.t, "sb-size", n, nullptr); t.sb = n; break; }
    case 4: t.dirtymode = a & 1; g_object_set(t.t, "show-dirty", (gboolean)t.dirtymode, nullptr); break;
    default: t.debug = a & 1; g_object_set(t.t, "debug", (gboolean)t.debug, nullptr);
    }
    if (which % 6 < 3 && t.face && t.configured) geometry(t);
}
void check_props(Term &t, Ctx &c) {
    gchar *f = nullptr, *a = nullptr, *o = nullptr; guint sb = 0; gboolean d = 0, g = 0; g_object_get(t.t, "font", &f, "anti-aliasing", &a, "sb-size", &sb, "show-dirty", &d, "subpixel-order", &o, "debug", &g, nullptr); c.check();
    std::string fn = f ? f : "", an = a ? a : "", on = o ? o : ""; g_free(f); g_free(a); g_free(o);
    if (an != AA[t.aa] || (bool)d != t.dirtymode) c.viol("property", fmt("widget %d: a property reads back as '%s'/%d instead of '%s'/%d", t.id, an.c_str(), (int)d, AA[t.aa], (int)t.dirtymode));
    else if (on != ORDER[t.oname] || (bool)g != t.debug || (t.sb >= 0 && sb != (guint)t.sb)) c.viol("property", fmt("widget %d: the properties read back as '%s', debug %d, scrollback %u instead of '%s', %d, %lld", t.id, on.c_str(), (int)g, sb, ORDER[t.oname], (int)t.debug, (long long)t.sb));
    else if (!t.desc.empty() && fn != t.desc) c.viol("property", fmt("widget %d: the font reads back as '%s'", t.id, fn.c_str()));
}

// program side
int who(Term &t) { return t.alive ? t.proc : t.bg; }
bool pwrite_(Term &t) {
    int p = who(t); if (p < 0) return false; bool any = false;
    while (t.sent < t.want.size()) { u32 n = (u32)std::min<u64>(4096, t.want.size() - t.sent), m = kern::client_write(p, 1, (const u8 *)t.want.data() + t.sent, n); t.sent += m; if (m) any = true; if (m < n) break; }
    if (!world->delay && any) deliver(t.idx, 1 << 30);
    return any;
}
std::string to_program(Term &t) { return t.s.out.substr(std::min(t.out0, t.s.out.size())); }
bool pread_(Term &t, u64 max) {
    if (!t.alive) return false; bool any = false;
    while (max) { u8 b[4096]; u32 m = kern::client_read(t.proc, 0, b, (u32)std::min<u64>(sizeof b, max)); if (!m) break; t.back.append((char *)b, m); max -= m; any = true; }
    // (the twin may be told of an event a moment before the widget, never after)
    std::string o = to_program(t);
    if (any && (t.back.size() > o.size() || o.compare(0, t.back.size(), t.back))) world->fail("replies", fmt("widget %d: the program read '%s', which was not typed or answered ('%s')", t.id, show(t.back.substr(t.back.size() > 60 ? t.back.size() - 60 : 0)).c_str(), show(o.substr(o.size() > 60 ? o.size() - 60 : 0)).c_str()));
    return any;
}
void pexit(Term &t) { if (!t.alive) return; pwrite_(t); if (t.bg < 0) t.want.resize(t.sent); t.exit_sent = t.sent; t.alive = false; deliver(t.idx, 1 << 30); kill_proc(t.proc); }

void input(Term &t, const char *u, size_t n) {
    if (!t.attached) world->fail("data", fmt("widget %d: input without a program", t.id));
    else if (t.fed + n > t.sent || memcmp(u, t.want.data() + t.fed, n)) world->fail("data", fmt("widget %d: %zu bytes at position %llu are not what the program wrote", t.id, n, (unsigned long long)t.fed));
    else {
        u64 a = sim_steps, b = sim_step_limit; t.fed += n;
        t.s.budget(n); tsm_vte_input(t.s.vte, u, n); Sut::disarm();
        sim_steps = a; sim_step_limit = b;
    }
}
bool dofork(Term &t) {
    if (t.gone) return false;
    bool was = t.attached; if (!was) { t.out0 = t.s.out.size(); t.face = true; t.attached = true; t.want.clear(); t.back.clear(); t.sent = t.fed = t.exit_sent = 0; t.bg = -1; if (t.configured) geometry(t); }
    u64 a = sim_steps, b = sim_step_limit; sim_steps = 0; sim_step_limit = 20000000;
    pid_t pid = gtktsm_terminal_fork(t.t);
    if (in_child()) { Proc &q = k->p[k->cur]; if (pid == 0) child_back(); q.exited = true; q.exit_code = 100; kill_proc(k->cur); _exit(0); }
    sim_steps = a; sim_step_limit = b;
    if (was) { if (pid != -EALREADY) world->fail("fork", fmt("widget %d: a second program was started next to the first: %d", t.id, (int)pid)); return false; }
    if (pid <= 0) { world->fail("fork", fmt("widget %d: no program was started: %d", t.id, (int)pid)); return false; }
    ++t.forks; t.proc = (int)pid - k->next_pid; t.idx = slave_of(t.proc, 0); t.alive = true; exec(t.proc);
    if (t.idx < 0) { world->fail("fork", "the program has no terminal"); t.alive = false; return false; }
    k->pty[t.idx].in.cap = (u32)t.w->v.size() ? k->pty[t.idx].in.cap : 4096;
    return true;
}
void drop(Term &t) { if (t.gone) return; t.gone = true; t.attached = false; g_object_unref(t.t); }
void stopped(GtkTsmTerminal *, gpointer d) {
    Term &t = *(Term *)d; ++t.stops;
    if (!t.attached || t.alive) world->fail("stopped", fmt("widget %d: reports the end of a program that %s", t.id, t.alive ? "is still running" : "was never there"));
    else if (t.fed < t.exit_sent) world->fail("lost", fmt("widget %d: the last %llu of %llu bytes the program wrote before it ended are never displayed", t.id, (unsigned long long)(t.exit_sent - t.fed), (unsigned long long)t.exit_sent));
    t.attached = false;
    if (t.bg >= 0) { kill_proc(t.bg); t.bg = -1; }
    if (t.on_stop == 1) drop(t); else if (t.on_stop == 2 && t.forks < 6) dofork(t);
}
void title(GtkTsmTerminal *, const char *s, gpointer d) { ((Term *)d)->titles.push_back(s ? s : "(null)"); }
void check_titles(Term &t, Ctx &c) {
    std::vector<std::string> w; for (auto &o : t.s.osc) if (o.compare(0, 2, "2;") == 0) w.push_back(o.c_str() + 2);
    c.check(); if (w != t.titles) c.viol("title", fmt("widget %d: %zu titles announced instead of %zu, the last '%s' instead of '%s'", t.id, t.titles.size(), w.size(), t.titles.empty() ? "" : show(t.titles.back()).c_str(), w.empty() ? "" : show(w.back()).c_str()));
}
bool create(Term &t) {
    t.wd = {}; t.wd.mask = GDK_EXPOSURE_MASK | GDK_STRUCTURE_MASK; seam::making = &t.wd; seam::widgets.push_back(&t.wd);
    t.t = gtktsm_terminal_new(); seam::making = nullptr;
    if (!t.t || !t.wd.vte || t.wd.term && t.wd.term != t.t) return false;
    t.wd.term = t.t; g_object_ref_sink(t.t); t.wd.input = [&t](const char *u, size_t n) { input(t, u, n); };
    g_signal_connect(t.t, "terminal-stopped", G_CALLBACK(stopped), &t); g_signal_connect(t.t, "terminal-title-changed", G_CALLBACK(title), &t);
    return t.s.create(80, 24, 2000, OBS_OSC) == 0;
}
void critical(const gchar *dom, GLogLevelFlags l, const gchar *m, gpointer) { if (world && l & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING | G_LOG_LEVEL_ERROR)) world->fail("critical", fmt("%s: %s", dom ? dom : "", m)); }
}

static void gen30(Rng &r, Trace &t, int tier) {
    int n = r.chance(1, 4) ? 2 : 1; t.cfg["n"] = n; u64 now = 0;
    t.cfg["cap"] = r.pick(std::vector<i64>{64, 255, 1000, 4096, 16384, 65535}); t.cfg["ocap"] = r.pick(std::vector<i64>{64, 255, 1000, 4096}); t.cfg["wake"] = r.pick(std::vector<i64>{0, 1, 128}); t.cfg["delay"] = r.chance(1, 2);
    std::vector<StreamGen> g(n); std::vector<int> W(n, 100), H(n, 80);
    bool wrap = r.chance(1, 4); u32 tm = (u32)r.below(1u << 31);
    for (int i = 0; i < n; ++i) {
        t.cfg[fmt("stop%d", i)] = r.pick(std::vector<i64>{0, 0, 1, 2});
        for (int f = 0; f < T_NUM; ++f) g[i].wt[f] = r.chance(1, 3) ? 0 : 3;
        g[i].wt[T_TEXT] = 25; g[i].wt[T_SGR] = 8; g[i].wt[T_UTF8] = 5; g[i].wt[T_WIDE] = 4; g[i].wt[T_QUERY] = 5; g[i].wt[T_OSC] = 3; g[i].wt[T_GARBAGE] = r.chance(1, 3) ? 3 : 0; g[i].wt[T_8BIT] = r.chance(1, 6) ? 2 : 0; g[i].wt[T_ZERO] = 0;
    }
    auto size = [&](int i) -> Ev { if (r.chance(1, 3)) { W[i] = std::max(1, W[i] + (int)r.range(-2, 2)); H[i] = std::max(1, H[i] + (int)r.range(-2, 2)); return ev(now, "cfg", {i, W[i], H[i]}); } W[i] = (int)(r.chance(1, 10) ? r.range(1, 8) : r.range(10, tier ? 260 : 160)); H[i] = (int)(r.chance(1, 10) ? r.range(1, r.chance(1, 3) ? 50 : 14) : r.range(14, tier ? 200 : 120)); g[i].w = std::max(1, W[i] / 5); g[i].h = std::max(1, H[i] / 14); return ev(now, "cfg", {i, W[i], H[i]}); };
    auto prop = [&](int i) -> Ev { i64 k = r.pick(std::vector<i64>{0, 0, 1, 2, 3, 4, 5}); return ev(now, "prop", {i, k, (i64)r.below(60), r.chance(1, 8) ? r.range(13, 44) : r.range(3, 12), r.chance(1, 4) ? r.range(1, 4) : 0}); };
    auto pos = [&](int m) -> i64 { return r.chance(1, 6) ? r.range(-200, 4 * m + 200) : r.range(0, 4 * m - 1); };
    bool started = false;
    for (int i = 0; i < n; ++i) { // set-up in any order
        std::vector<Ev> e; if (r.chance(3, 4)) e.push_back(ev(now, "prop", {i, 0, (i64)r.below(4), r.range(3, 10)})); if (r.chance(1, 3)) e.push_back(prop(i));
        e.push_back(size(i)); e.push_back(ev(now, "fork", {i})); if (r.chance(1, 3)) e.push_back(ev(now, "frame", {i}));
        for (size_t q = e.size(); q > 1; --q) std::swap(e[q - 1], e[r.below(q)]);
        for (auto &x : e) t.ev.push_back(x);
    }
    bool faults = r.chance(4, 5); int ne = (int)r.range(8, tier ? 300 : 160);
    for (int i = 0; i < ne; ++i) {
        tick(r, now); int p = (int)r.below(n);
        if (faults) while (r.chance(1, 3)) {
            i64 at = (i64)r.below(r.chance(1, 3) ? 8 : 3);
            t.ev.push_back(r.chance(2, 3) ? ev(now, "flt", {at, r.pick(std::vector<i64>{3, 1, 1}), r.chance(1, 2) ? r.range(1, 6) : r.range(1, 300)}) : ev(now, "inj", {at, (i64)r.below(3), p, r.range(1, 400)}));
        }
        switch (r.below(32)) {
        case 30: { // wide characters that are cut
            int x = (int)r.range(1, (i64)std::max(2, (int)g[p].w)), y = (int)r.range(1, (i64)std::max(1, (int)g[p].h)); std::string b = r.chance(1, 2) ? fmt("\33[%dm", (int)r.range(41, 47)) : "", away = r.chance(2, 3) ? r.chance(1, 2) ? "\33[H" : "\33[?25l" : "";
            auto put = [&](const std::string &v) { t.ev.push_back(ev(now, "cw", {p}, v)); t.ev.push_back(ev(now, "settle", {p})); };
            put(fmt("\33[%d;%dH", y, std::max(1, x - 1)) + (r.chance(1, 2) ? "abcdef" : "") + fmt("\33[%d;%dH", y, x) + b + (r.chance(1, 3) ? "\xe4\xb8\xad\xe6\x96\x87" : "\xe4\xb8\xad") + away);
            std::string c = fmt("\33[%d;%dH", y, x + (int)r.pick(std::vector<i64>{-1, 0, 0, 1, 1, 2})); switch (r.below(6)) { case 0: case 1: c += "a"; break; case 2: c += fmt("\33[%dX", (int)r.range(1, 3)); break; case 3: c += "\33[P"; break; case 4: c += "\33[@"; break; default: c += "\33[42m\33[K"; }
            put(c + away); if (r.chance(1, 2)) put(fmt("\33[?25h\33[%d;%dH", y, x + (int)r.range(-1, 1))); break; }
        case 31: { // looking back
            std::string b; for (int q = (int)r.range(3, 30); q--;) b += fmt("%d line\r\n", q * 7); t.ev.push_back(ev(now, "cw", {p}, b)); t.ev.push_back(ev(now, "settle", {p}));
            for (int q = (int)r.range(1, 8); q--;) { i64 ks = r.pick(std::vector<i64>{GDK_KEY_Up, GDK_KEY_Up, GDK_KEY_Down, GDK_KEY_Page_Up, GDK_KEY_Page_Up, GDK_KEY_Page_Down}); t.ev.push_back(ev(now, "key", {p, ks, 1, 1, ks, 0, 7, 0, 0})); if (r.chance(1, 2)) t.ev.push_back(ev(now, "frame", {p})); if (r.chance(1, 6)) t.ev.push_back(ev(now, "prop", {p, 3, (i64)r.below(30), 5, 0})); if (r.chance(1, 8)) t.ev.push_back(ev(now, "cw", {p}, "x\r\n")); }
            break; }
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: { std::string b; int m = (int)r.range(1, r.chance(1, 6) ? 50 : 6); while (m--) b += g[p].piece(r); t.ev.push_back(ev(now, "cw", {p}, b)); break; }
        case 7: t.ev.push_back(ev(now, "cr", {p, r.chance(1, 2) ? 1 << 20 : r.range(1, 100)})); break;
        case 8: case 9: case 10: case 11: case 12: t.ev.push_back(ev(now, "loop", {r.range(1, 4), (i64)r.below(1 << 20)})); break;
        case 13: t.ev.push_back(ev(now, "dl", {p, r.chance(1, 2) ? 1 << 20 : r.range(1, 100)})); break;
        case 14: case 15: case 16: case 17: t.ev.push_back(ev(now, "frame", {p})); break;
        case 18: t.ev.push_back(ev(now, "expose", {p, (i64)r.below(W[p]), (i64)r.below(H[p]), r.range(1, W[p]), r.range(1, H[p])})); break;
        case 19: case 20: { // key
            Ev k = rnd_key_event(r, now); i64 st = 0; i64 m = k.arg(2); if (m & 1) st |= 1; if (m & 2) st |= 2; if (m & 4) st |= 4; if (m & 8) st |= 8; if (m & 16) st |= 64; if (r.chance(1, 6)) st |= 16; if (r.chance(1, 8)) st |= 256;
            i64 kv = k.arg(0), ks = kv;
            if (r.chance(1, 2)) { ks = r.pick(std::vector<i64>{GDK_KEY_Up, GDK_KEY_Down, GDK_KEY_Page_Up, GDK_KEY_Page_Down}); kv = r.chance(1, 8) ? kv : ks; if (r.chance(3, 4)) st |= 1; if (r.chance(1, 2)) st &= ~(i64)(ALLMODS & ~1); }
            t.ev.push_back(ev(now, "key", {p, kv, st, r.chance(7, 8), ks, r.chance(1, 4) ? (i64)r.below(16) : 0, (i64)r.below(256), (i64)r.below(4), r.chance(1, 12)})); break; }
        case 21: case 22: case 23: { // selecting
            if (wrap && r.chance(1, 2)) tm = 0xffffffffu - (u32)r.below(150); // the event clock wraps
            i64 x = pos(W[p]), y = pos(H[p]), b = r.chance(1, 10) ? r.range(2, 3) : 1; auto at = [&](int kd) { t.ev.push_back(ev(now, "mouse", {p, kd, x, y, (i64)tm, b})); };
            switch (r.below(6)) {
            case 0: at((int)r.below(5)); break;
            case 1: at(0); tm += (u32)r.pick(std::vector<i64>{1, 50, 99, 100, 101, 500}); at(3); break;
            case 2: at(0); tm += 20; at(3); tm += 40; at(0); at(1); if (r.chance(1, 2)) { x = pos(W[p]); at(4); } tm += 20; at(3); if (r.chance(1, 2)) { at(0); at(2); at(3); } break;
            default: at(0); for (int q = (int)r.range(1, 4); q--;) { tm += (u32)r.range(1, 80); if (r.chance(1, 3)) { x += r.range(-16, 16); y += r.range(-16, 16); } else { x = pos(W[p]); y = pos(H[p]); } at(4); if (r.chance(1, 4)) t.ev.push_back(ev(now, "frame", {p})); } if (r.chance(7, 8)) { tm += (u32)r.range(1, 300); at(3); }
            }
            tm += (u32)r.range(0, 2000); break; }
        case 24: t.ev.push_back(size(p)); break;
        case 25: t.ev.push_back(prop(p)); break;
        case 26: t.ev.push_back(ev(now, "fork", {p})); break;
        case 27: t.ev.push_back(ev(now, r.chance(1, 3) ? "drop" : "exit", {p})); if (t.ev.back().op == "drop" && !r.chance(1, 4)) t.ev.back().op = "settle"; break;
        case 28: t.ev.push_back(r.chance(1, 2) ? ev(now, "kill", {p, r.range(-1, 20), (i64)r.chance(1, 2)}) : ev(now, "bg", {p})); break;
        default: t.ev.push_back(ev(now, "settle", {p}));
        }
    }
}

static void exec30(const Trace &t, Ctx &c) {
    World Wd; world = &Wd; World &L = Wd; reset(); seam::reset(); sim_step_limit = 0; g_log_set_default_handler(critical, nullptr);
    int n = (int)std::min<i64>(2, std::max<i64>(1, t.get("n", 1))); L.delay = t.get("delay"); L.v.resize(n);
    for (int i = 0; i < n; ++i) { Term &p = L.v[i]; p.w = &L; p.id = i; p.on_stop = t.get(fmt("stop%d", i).c_str()); L.lib([&] { if (!create(p)) c.alien("setup", "widget"); }); if (c.stop()) return; }
    u64 fd0 = 3; std::vector<Fault> fl; std::vector<std::vector<i64>> inj; bool progress = false;
    auto act = [&](i64 what, Term &p, i64 m) { if (what == 0) pwrite_(p); else if (what == 1) pread_(p, m); else if (p.idx >= 0) deliver(p.idx, (u32)m); };
    auto opened = [&](Term &p) { if (p.idx < 0) return; k->pty[p.idx].in.cap = (u32)t.get("cap", 4096); k->pty[p.idx].out.cap = (u32)t.get("ocap", 4096); k->pty[p.idx].wake_at = (u32)t.get("wake", 128) % k->pty[p.idx].out.cap; };
    auto verdict = [&](size_t i, const char *op) { if (!L.bad.empty()) c.viol(L.cls, fmt("event %zu (%s): %s", i, op, L.bad.c_str())); else if (!seam::bad.empty()) c.viol("toolkit", fmt("event %zu (%s): %s", i, op, seam::bad.c_str())); };
    // faults are over: everything written is displayed, everything typed arrives, within a bounded number of iterations
    auto settle = [&](const char *when) {
        on_call = nullptr; disarm(); bool dl = L.delay; L.delay = false; Rng rr(99);
        auto pend = [&](Term &p) -> u64 { if (p.gone || !p.attached) return 0; if (!p.alive) return 1; return p.want.size() - p.fed + (to_program(p).size() - p.back.size()); };
        u64 need = 0; for (auto &p : L.v) need += pend(p);
        u64 limit = 400 + 64 * n * (1 + need / 32), m = 0; bool stuck = false;
        for (;;) {
            u64 left = 0; for (auto &p : L.v) left += pend(p);
            if (!left && !seam::ready()) break;
            if (++m > limit) { stuck = true; break; }
            bool any = false;
            for (auto &p : L.v) { if (p.idx < 0 || p.gone || !p.attached) continue; if (pwrite_(p)) any = true; u32 v0 = k->pty[p.idx].visible; deliver(p.idx, 1 << 30); if (k->pty[p.idx].visible != v0) any = true; if (pread_(p, 1 << 30)) any = true; }
            L.lib([&] { if (seam::step(rr)) any = true; });
            for (auto &p : L.v) if (p.alive && k->pty[p.idx].in.cap != (u32)t.get("cap", 4096)) opened(p);
            verdict(c.at, when); if (c.stop()) return;
            if (!any) { stuck = true; break; }
        }
        L.delay = dl; c.check();
        if (stuck) { std::string s; for (auto &p : L.v) if (pend(p)) s += p.alive ? fmt(" [widget %d: %llu bytes of output, %llu bytes of input]", p.id, (unsigned long long)(p.want.size() - p.fed), (unsigned long long)(to_program(p).size() - p.back.size())) : fmt(" [widget %d: the end of the program]", p.id); c.viol("stall", "no progress although everybody is ready:" + s); return; }
        for (auto &p : L.v) {
            if (p.gone) continue;
            if (p.attached && p.configured && (k->pty[p.idx].cols != p.s.w() || k->pty[p.idx].rows != p.s.h())) { c.viol("winsize", fmt("widget %d %s: the program sees %ux%u, the window holds %ux%u cells", p.id, when, k->pty[p.idx].cols, k->pty[p.idx].rows, p.s.w(), p.s.h())); return; }
            if (p.stops > p.forks || (!p.attached && p.stops != p.forks)) { c.viol("stopped", fmt("widget %d: %u programs, %u ends reported", p.id, p.forks, p.stops)); return; }
            if (!p.wd.dirty) judge_picture(p, c, "at rest");
            if (p.wd.dirty && p.configured) { L.lib([&] { frame(p); }); judge_picture(p, c, "after a frame"); }
            check_titles(p, c); check_props(p, c);
            verdict(c.at, when); if (c.stop()) return;
        }
    };
    for (size_t i = 0; i < t.ev.size() && !c.stop(); ++i) {
        const Ev &e = t.ev[i]; c.at = i;
        if (e.op == "flt") { fl.push_back({0, (int)e.arg(0), (int)e.arg(1), (int)e.arg(2)}); continue; }
        if (e.op == "inj") { inj.push_back(e.a); continue; }
        Term &p = L.v[(size_t)(e.op == "loop" ? 0 : e.arg(0)) % n]; Ev x = e; if (!x.a.empty()) x.a.erase(x.a.begin());
        if (e.op == "cw") { if (who(p) >= 0) { p.want += e.b; pwrite_(p); } }
        else if (e.op == "cr") pread_(p, (u64)e.arg(1));
        else if (e.op == "dl") { if (p.idx >= 0) deliver(p.idx, (u32)e.arg(1)); }
        else if (e.op == "exit") { if (p.alive) { pexit(p); c.probe("programs_exited"); } }
        else if (e.op == "bg") { if (p.alive && p.bg < 0) { p.bg = clone_proc(p.proc); if (p.bg >= 0) c.probe("background_programs"); } }
        else if (e.op == "settle") { settle("settling"); if (c.stop()) break; }
        else if (e.op == "fork") { L.lib([&] { if (dofork(p)) opened(p); }); }
        else {
            arm(fl); fl.clear(); std::vector<std::vector<i64>> todo = inj; inj.clear();
            on_call = [&](int m) { for (auto &q : todo) if (!q.empty() && q[0] == m) { std::vector<i64> y = q; q.clear(); act(y[1], L.v[(size_t)y[2] % n], y[3]); } };
            if (e.op == "loop") { Rng rr((u64)e.arg(1)); u64 cnt = 0; for (i64 q = 0; q < std::min<i64>(8, e.arg(0)); ++q) { sim_steps = 0; sim_step_limit = 400000000; seam::step(rr, &cnt); sim_step_limit = 0; } c.logn(cnt); }
            else if (e.op == "cfg") L.lib([&] { configure(p, (unsigned)std::min<i64>(400, std::max<i64>(1, e.arg(1))), (unsigned)std::min<i64>(400, std::max<i64>(1, e.arg(2)))); });
            else if (e.op == "frame") { if (p.wd.dirty) { L.lib([&] { frame(p); }); if (!p.gone && !p.wd.dirty) judge_picture(p, c, "after a frame"); } }
            else if (e.op == "expose") { if (p.shown && !p.gone) { L.lib([&] { draw(p, (int)e.arg(1), (int)e.arg(2), (int)e.arg(3), (int)e.arg(4)); p.last.clear(); }); c.probe("partial_exposes"); } }
            else if (e.op == "key") L.lib([&] { press(p, x); });
            else if (e.op == "mouse") L.lib([&] { mouse(p, x); });
            else if (e.op == "prop") L.lib([&] { property(p, e.arg(1), e.arg(2), e.arg(3), e.arg(4)); });
            else if (e.op == "drop") { L.lib([&] { drop(p); }); c.probe("widgets_destroyed"); }
            else if (e.op == "kill" && !p.gone) {
                int ns = p.idx >= 0 ? k->pty[p.idx].nsig : 0; L.lib([&] { gtktsm_terminal_kill(p.t, (int)e.arg(1)); });
                if (p.attached) { bool got = k->pty[p.idx].nsig == ns + 1 && k->pty[p.idx].sig == (int)e.arg(1); if (e.arg(1) > 0 ? (!got && p.alive) : k->pty[p.idx].nsig != ns) L.fail("kill", fmt("widget %d: signal %d was %sdelivered", p.id, (int)e.arg(1), got ? "" : "not ")); if (got && p.alive && e.arg(2)) { pexit(p); c.probe("programs_killed"); } }
            }
            on_call = nullptr; disarm();
            for (auto &q : todo) if (!q.empty()) act(q[1], L.v[(size_t)q[2] % n], q[3]);
            for (auto &q : L.v) if (q.alive && k->pty[q.idx].in.cap != (u32)t.get("cap", 4096)) opened(q);
        }
        verdict(i, e.op.c_str());
        for (auto &q : L.v) {
            if (c.stop() || q.gone) continue;
            if (!q.wd.dirty) judge_picture(q, c, fmt("after event %zu (%s), no frame requested,", i, e.op.c_str()).c_str());
            c.logn(q.sent); c.logn(q.fed); c.logn(q.back.size()); c.logn(q.wd.queued); if (!q.fb.empty()) c.h = fnv(c.h, q.fb.data(), q.fb.size() * 4);
            c.state(mix64(mix64(q.attached * 8 + q.alive * 4 + q.configured * 2 + q.face, q.sent > q.fed), mix64(tsm_screen_get_flags(q.s.con), q.s.w() * 1000 + q.s.h())));
        }
    }
    if (c.stop()) return;
    c.fault("interrupted_call", k->eintr); c.fault("short_transfer", k->shorts); c.fault("would_block", k->eagain); c.count("probe:frames", L.draws);
    settle("at the end"); if (c.stop()) return;
    for (auto &p : L.v) if (p.fed && p.shown) c.nontrivial = true;
    for (auto &p : L.v) { L.lib([&] { drop(p); }); p.s.destroy(); }
    c.check(); verdict(c.at, "destruction"); if (c.stop()) return;
    if (sim_as.live_blocks || sim_as.bad_frees) c.viol("leak", fmt("%llu blocks are left after the widgets are gone", (unsigned long long)sim_as.live_blocks));
    else if (seam::sources()) c.viol("leak", fmt("%zu sources are left in the main loop after the widgets are gone", seam::sources()));
    else if (seam::objects()) c.viol("leak", fmt("%zu fonts, layouts or surfaces are left after the widgets are gone", seam::objects()));
    else if (seam::things()) c.viol("leak", fmt("%zu strings, font descriptions or font options are left after the widgets are gone", seam::things()));
    else if (seam::instances()) c.viol("leak", fmt("%d widgets are left although nobody refers to them", seam::instances()));
    else if (k->bad_close || k->bad_use) c.viol("descriptor", fmt("a descriptor was misused: %s", k->bad));
    else if (open_fds(0) != (int)fd0) c.viol("leak", fmt("%d descriptors are left after the widgets are gone", open_fds(0) - (int)fd0));
}

void props_gtk(std::vector<Prop> &v) {
    v.push_back({"C30", gen30, exec30});
}
