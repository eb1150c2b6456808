// Reference terminal: an independent, deliberately simple executable model of
// what a libtsm terminal (screen + VTE) shows and sends. No ageing, no
// allocation, no incremental anything: lines are vectors of cells.
#pragma once
#include "core.h"

namespace ref {

struct Attr {
    int fcc = 0, bcc = 0;           // palette index or -1
    u8 fr = 0, fg = 0, fb = 0, br = 0, bg = 0, bb = 0;
    bool bold = false, italic = false, underline = false, inverse = false, blink = false, prot = false;
    bool operator==(const Attr &o) const {
        return fcc == o.fcc && bcc == o.bcc && fr == o.fr && fg == o.fg && fb == o.fb && br == o.br &&
               bg == o.bg && bb == o.bb && bold == o.bold && italic == o.italic &&
               underline == o.underline && inverse == o.inverse && blink == o.blink && prot == o.prot;
    }
};

struct Cell {
    u32 ch = 0;      // 0 = blank
    u8 w = 1;        // 0 = continuation of a wide character
    bool attr_any = false;
    Attr at;
};
struct Line { std::vector<Cell> c; u64 id = 0; };

// a selection end: either a line (identified by its id) or "above everything"
struct Anchor { bool top = false; bool on_screen = false; u64 id = 0; unsigned x = 0; };

enum { F_ALT = 1, F_INVERSE = 2, F_HIDE = 4, F_ORIGIN = 8, F_WRAP = 16, F_INSERT = 32, F_FIXED = 64 };

int width_of(u32 cp); // 0,1,2 (generator alphabet; falls back to the library)

struct Screen {
    unsigned w = 0, h = 0;
    std::vector<Line> main, alt;
    unsigned flags = 0;
    Attr def, def_main_saved;
    unsigned mt = 0, mb = 0;
    unsigned cx = 0, cy = 0;
    std::vector<bool> tabs;
    std::deque<Line> sb;
    unsigned sb_max = 0;
    std::vector<u64> lost_bottom; // ids of lines that left at the bottom margin
    bool keep_dropped = false; std::deque<Line> gone_lines; // lines that fell out of a full history
    bool viewing = false; u64 view_id = 0;   // line id at the top of the view
    u64 next_id = 1;
    u64 scrolled_out = 0, dropped = 0, wraps = 0, scrolls = 0;

    bool is_alt() const { return flags & F_ALT; }
    std::vector<Line> &L() { return is_alt() ? alt : main; }
    const std::vector<Line> &L() const { return is_alt() ? alt : main; }

    Cell blank() const { Cell c; c.at = def; return c; }
    Line blank_line(const Attr &a) { Line l; Cell c; c.at = a; l.c.assign(w, c); l.id = next_id++; return l; }

    void init(unsigned W, unsigned H, const Attr &d) {
        w = W; h = H; def = d; mt = 0; mb = H - 1;
        main.clear(); alt.clear();
        for (unsigned i = 0; i < H; ++i) { main.push_back(blank_line(d)); alt.push_back(blank_line(d)); }
        for (auto &l : alt) for (auto &c : l.c) c.attr_any = true;
        tabs_reset();
    }
    void tabs_reset() { tabs.assign(w, false); for (unsigned i = 0; i < w; i += 8) tabs[i] = true; }

    int view_index() const { // index of the top visible sb line; sb.size() if not viewing
        if (!viewing) return (int)sb.size();
        for (size_t i = 0; i < sb.size(); ++i) if (sb[i].id == view_id) return (int)i;
        return -1;
    }
    void push_sb(Line l) {
        ++scrolled_out;
        if (sb_max == 0) { ++dropped; return; }
        if (sb.size() >= sb_max) {
            u64 gone = sb.front().id;
            if (viewing && (view_id == gone || !(flags & F_FIXED))) {
                int i = view_index();
                view_id = (i + 1 < (int)sb.size()) ? sb[i + 1].id : l.id;
            }
            if (keep_dropped) gone_lines.push_back(sb.front());
            sb.pop_front(); ++dropped;
        }
        sb.push_back(std::move(l));
    }
    void scroll_up(unsigned n) {
        if (!n) return;
        ++scrolls;
        unsigned max = mb + 1 - mt; if (n > max) n = max;
        auto &g = L();
        for (unsigned i = 0; i < n; ++i) {
            Line l = g[mt];
            g.erase(g.begin() + mt);
            g.insert(g.begin() + mb, blank_line(def));
            if (!is_alt()) push_sb(std::move(l));
        }
    }
    void scroll_down(unsigned n) {
        if (!n) return;
        ++scrolls;
        unsigned max = mb + 1 - mt; if (n > max) n = max;
        auto &g = L();
        for (unsigned i = 0; i < n; ++i) { lost_bottom.push_back(g[mb].id); g.erase(g.begin() + mb); g.insert(g.begin() + mt, blank_line(def)); }
    }
    unsigned ccx() const { return cx >= w ? w - 1 : cx; }
    void put(u32 ch, const Attr &a) {
        unsigned len = width_of(ch);
        if (!len) return;
        unsigned last = (cy <= mb || cy >= h) ? mb : h - 1;
        if (cx >= w) { if (flags & F_WRAP) { cx = 0; ++cy; ++wraps; } else cx = w - 1; }
        if (cy > last) { cy = last; scroll_up(1); }
        auto &r = L()[cy].c;
        if ((flags & F_INSERT) && cx + len < w) {
            Cell z = blank();
            r.insert(r.begin() + cx, len, z);
            r.resize(w);
        }
        r[cx].ch = ch; r[cx].w = len; r[cx].at = a; r[cx].attr_any = false;
        for (unsigned i = 1; i < len && cx + i < w; ++i) { r[cx + i].w = 0; r[cx + i].attr_any = true; }
        cx += len;
    }
    void erase(unsigned x0, unsigned y0, unsigned x1, unsigned y1, bool protect = false) {
        if (y1 >= h) y1 = h - 1;
        if (x1 >= w) x1 = w - 1;
        for (unsigned y = y0; y <= y1; ++y) {
            unsigned to = (y == y1) ? x1 : w - 1;
            for (unsigned x = (y == y0 ? x0 : 0); x <= to; ++x) if (!protect || !L()[y].c[x].at.prot) L()[y].c[x] = blank();
        }
    }
    void move_to(unsigned x, unsigned y) {
        unsigned last = (flags & F_ORIGIN) ? mb : h - 1;
        if (x >= w) x = w - 1;
        if (flags & F_ORIGIN) y = (y > 0x7fffffffu) ? y : y + mt;
        if (y > last) y = last;
        cx = x; cy = y;
    }
    void move_abs(unsigned x, unsigned y) {
        if (x >= w) x = w - 1;
        if (y >= h) y = h - 1;
        cx = x; cy = y;
    }
    void up(unsigned n, bool scroll) {
        if (!n) return;
        unsigned top = cy >= mt ? mt : 0, d = cy - top;
        if (n > d) { if (scroll) scroll_down(n - d); cy = top; } else cy -= n;
    }
    void down(unsigned n, bool scroll) {
        if (!n) return;
        unsigned bot = cy <= mb ? mb : h - 1, d = bot - cy;
        if (n > d) { if (scroll) scroll_up(n - d); cy = bot; } else cy += n;
    }
    void left(unsigned n) { if (!n) return; unsigned x = ccx(); cx = n > x ? 0 : x - n; }
    void right(unsigned n) { if (!n) return; cx = (n >= w || cx + n >= w) ? w - 1 : cx + n; }
    void newline() { down(1, true); cx = 0; }
    void tab_right(unsigned n) {
        unsigned x = cx;
        for (unsigned i = 0; i < n && x + 1 < w; ++i) { ++x; while (x < w && !tabs[x]) ++x; }
        cx = x >= w ? w - 1 : x;
    }
    void tab_left(unsigned n) {
        unsigned x = ccx();
        for (unsigned i = 0; i < n && x > 0; ++i) { --x; while (x > 0 && !tabs[x]) --x; }
        if (n) cx = x;
    }
    void insert_lines(unsigned n) {
        if (!n || cy < mt || cy > mb) return;
        unsigned max = mb - cy + 1; if (n > max) n = max;
        auto &g = L();
        for (unsigned i = 0; i < n; ++i) { g.erase(g.begin() + mb); g.insert(g.begin() + cy, blank_line(def)); }
        cx = 0;
    }
    void delete_lines(unsigned n) {
        if (!n || cy < mt || cy > mb) return;
        unsigned max = mb - cy + 1; if (n > max) n = max;
        auto &g = L();
        for (unsigned i = 0; i < n; ++i) { g.erase(g.begin() + cy); g.insert(g.begin() + mb, blank_line(def)); }
        cx = 0;
    }
    void insert_chars(unsigned n) {
        if (!n) return;
        cx = ccx(); unsigned max = w - cx; if (n > max) n = max;
        auto &r = L()[cy].c; r.insert(r.begin() + cx, n, blank()); r.resize(w);
    }
    void delete_chars(unsigned n) {
        if (!n) return;
        cx = ccx(); unsigned max = w - cx; if (n > max) n = max;
        auto &r = L()[cy].c; r.erase(r.begin() + cx, r.begin() + cx + n); r.resize(w, blank());
    }
    void erase_chars(unsigned n) { if (!n) return; unsigned x = ccx(); u64 e = (u64)x + n - 1; erase(x, cy, e >= w ? w - 1 : (unsigned)e, cy); }
    void set_margins(unsigned top, unsigned bottom) {
        if (!top) top = 1;
        if (bottom <= top || bottom > h) { mt = 0; mb = h - 1; } else { mt = top - 1; mb = bottom - 1; }
    }
    void set_flag(unsigned f, bool on) {
        if (f == F_ALT && on && !is_alt()) def_main_saved = def;
        if (on) flags |= f; else flags &= ~f;
    }
    void set_max_sb(unsigned m) {
        while (sb.size() > m) {
            u64 gone = sb.front().id; if (keep_dropped) gone_lines.push_back(sb.front()); sb.pop_front(); ++dropped;
            if (viewing && view_id == gone) { if (sb.empty()) viewing = false; else view_id = sb.front().id; }
        }
        sb_max = m;
    }
    void clear_sb() { sb.clear(); gone_lines.clear(); viewing = false; }
    void sb_up(unsigned n) {
        if (!n || sb.empty()) return;
        i64 i = view_index(); i -= n; if (i < 0) i = 0;
        viewing = true; view_id = sb[i].id;
    }
    void sb_down(unsigned n) {
        if (!n || !viewing) return;
        u64 i = (u64)view_index() + n;
        if (i >= sb.size()) viewing = false; else view_id = sb[i].id;
    }
    void sb_reset() { viewing = false; }
    void reset() { flags = 0; mt = 0; mb = h - 1; tabs_reset(); }
    void resize(unsigned W, unsigned H) {
        if (!W || !H || (W == w && H == h)) return;
        Attr dm = is_alt() ? def_main_saved : def;
        for (int b = 0; b < 2; ++b) {
            auto &g = b ? alt : main; const Attr &d = b ? def : dm;
            Cell z; z.at = d;
            for (auto &l : g) l.c.resize(W, z);
        }
        w = W; mt = 0; mb = h - 1; tabs_reset();
        if (cx >= w) cx = w - 1;
        if (H < h) {
            unsigned d = h - H;
            scroll_up(d);
            main.resize(H); alt.resize(H);
            cy = cy > d ? cy - d : 0;
        } else {
            while (main.size() < H) main.push_back(blank_line(dm));
            while (alt.size() < H) alt.push_back(blank_line(def));
        }
        h = H; mb = h - 1;
        if (cy >= h) cy = h - 1;
    }
    // line shown in row y of the current view
    const Line &row(unsigned y) const {
        if (viewing) {
            size_t i = view_index();
            if (i + y < sb.size()) return sb[i + y];
            return L()[y - (sb.size() - i)];
        }
        return L()[y];
    }
    int screen_row0() const { return viewing ? (int)sb.size() - view_index() : 0; } // view row of screen row 0
};

// VTE flags as visible through tsm_vte_get_flags()
enum { V_CKM = 1, V_KPAM = 2, V_LNM = 4, V_8BIT = 8, V_7BIT = 16, V_C1 = 32, V_KAM = 64, V_IRM = 128,
       V_SRM = 256, V_TCM = 512, V_SCNM = 1024, V_DECOM = 2048, V_AWM = 4096, V_ARM = 8192, V_NRC = 16384,
       V_BCE = 32768 };

struct Saved { unsigned x = 0, y = 0; Attr at; int gl = 0, gr = 1; bool wrap = true, origin = false; };

enum Charset { CS_LOWER, CS_UPPER, CS_SUPP, CS_SPECIAL };
u32 cs_map(int cs, unsigned idx); // idx 0..95

struct Palette { u8 c[18][3]; };
bool palette_named(const std::string &name, Palette &p);

struct Term {
    Screen s;
    unsigned flags = 0;
    Palette pal, custom = {}; bool custom_on = false, custom_set = false;
    Attr def, cattr;
    int G[4] = {CS_LOWER, CS_UPPER, CS_LOWER, CS_UPPER};
    int gl = 0, gr = 1, glt = -1;
    Saved saved;
    unsigned ax = 0, ay = 0;
    unsigned mouse_mode = 0, mouse_event = 0, last_col = 0, last_row = 0;
    bool bs_del = false;
    std::vector<std::string> out;   // writes towards the client, one per write group
    std::vector<std::string> osc;   // completed OSC strings
    bool esc_after_osc = false, mouse_amb = false;
    unsigned track() const { return mouse_mode == 0 ? 0 : mouse_mode == 9 ? 1002 : mouse_event; }
    bool track_px() const { return mouse_mode == 1016; }
    u64 acts = 0;                   // characters printed, control functions executed
    bool osc_abort = false;         // some OSC string was ended by something else than BEL/ST

    // parser
    enum St { GROUND, ESC, ESC_INT, CSI_ENTRY, CSI_PARAM, CSI_INT, CSI_IGN, DCS_ENTRY, DCS_PARAM, DCS_INT,
              DCS_PASS, DCS_IGN, OSC, ST_IGN };
    St st = GROUND;
    std::string inter;
    std::vector<i64> par; bool par_seen = false;
    std::string oscbuf; bool oscfull = false;
    // utf-8
    int u_need = 0, u_total = 0; u32 u_cp = 0;

    void create(unsigned W, unsigned H, const Palette &p);
    void def_from_palette();
    void to_rgb(Attr &a) const;
    void soft_reset();
    void hard_reset();
    void set_palette(const Palette &p);
    void input(const std::string &b);
    void byte(u8 b);
    void code(u32 c);
    void print(u32 c);
    void ctrl(u32 c);
    void esc(u8 c);
    void csi(u8 c);
    void sgr();
    void mode(bool set);
    void reply(const std::string &r) { out.push_back(r); }
    bool key(u32 sym, u32 ascii, unsigned mods, u32 uni);
    bool mouse(unsigned cx, unsigned cy, unsigned px, unsigned py, unsigned button, unsigned ev, unsigned mods);
    i64 p(size_t i) const { return i < par.size() ? par[i] : -1; }
    unsigned n1(size_t i = 0) const { i64 v = p(i); return v <= 0 ? 1 : (unsigned)v; }
    void clear() { inter.clear(); par.assign(1, -1); }
    void write_out(const std::string &b, bool alt);
};
std::string utf8(u32 cp);
std::vector<u32> known_keysyms();
} // namespace ref
