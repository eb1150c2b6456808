// Reference terminal, VTE half.  Written from the documented behaviour of the
// control functions, with tables of its own.
#include "model.h"
extern "C" {
#include "libtsm.h"
}

namespace ref {

int width_of(u32 cp) {
    if (cp >= 0x20 && cp < 0x7f) return 1;
    return (int)tsm_ucs4_get_width(cp); // single-character widths: property C28 (not claimed)
}

std::string utf8(u32 c) {
    std::string r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    return r;
}

u32 cs_map(int cs, unsigned i) {
    static const u32 spec[] = {9830, 9618, 9225, 9228, 9229, 9226, 176, 177, 9252, 9227, 9496, 9488, 9484, 9492, 9532,
                               9146, 9147, 9472, 9148, 9149, 9500, 9508, 9524, 9516, 9474, 8804, 8805, 960, 8800, 163, 8901};
    switch (cs) {
    case CS_LOWER: return i == 0 || i == 95 ? 0 : 32 + i;
    case CS_UPPER: return i == 0 || i == 95 ? 0 : 160 + i;
    case CS_SUPP:
        switch (i) {
        case 0: case 4: case 6: case 12: case 13: case 14: case 15: case 20: case 24: case 30: case 48: case 62:
        case 80: case 94: case 95: return 0;
        case 8: return 164; case 55: return 338; case 61: return 376; case 87: return 339; case 93: return 255;
        }
        return 160 + i;
    case CS_SPECIAL:
        if (i == 0 || i == 63 || i == 95) return 0;
        if (i < 63) return 32 + i;
        return spec[i - 64];
    }
    return 0;
}

#define P(r, g, b) {0x##r, 0x##g, 0x##b}
static const struct { const char *n; Palette p; } pals[] = {
    {"legacy", {{{0,0,0},{205,0,0},{0,205,0},{205,205,0},{0,0,238},{205,0,205},{0,205,205},{229,229,229},{127,127,127},{255,0,0},{0,255,0},{255,255,0},{92,92,255},{255,0,255},{0,255,255},{255,255,255},{229,229,229},{0,0,0}}}},
    {"vga", {{{0,0,0},{170,0,0},{0,170,0},{170,85,0},{0,0,170},{170,0,170},{0,170,170},{170,170,170},{85,85,85},{255,85,85},{85,255,85},{255,255,85},{85,85,255},{255,85,255},{85,255,255},{255,255,255},{170,170,170},{0,0,0}}}},
    {"solarized", {{{7,54,66},{220,50,47},{133,153,0},{181,137,0},{38,139,210},{211,54,130},{42,161,152},{238,232,213},{0,43,54},{203,75,22},{88,110,117},{101,123,131},{131,148,150},{108,113,196},{147,161,161},{253,246,227},{238,232,213},{7,54,66}}}},
    {"solarized-black", {{{0,0,0},{220,50,47},{133,153,0},{181,137,0},{38,139,210},{211,54,130},{42,161,152},{238,232,213},{0,43,54},{203,75,22},{88,110,117},{101,123,131},{131,148,150},{108,113,196},{147,161,161},{253,246,227},{238,232,213},{0,0,0}}}},
    {"solarized-white", {{{7,54,66},{220,50,47},{133,153,0},{181,137,0},{38,139,210},{211,54,130},{42,161,152},{238,232,213},{0,43,54},{203,75,22},{88,110,117},{101,123,131},{131,148,150},{108,113,196},{147,161,161},{253,246,227},{7,54,66},{238,232,213}}}},
    {"soft-black", {{P(3f,3f,3f),P(70,50,50),P(60,b4,8a),P(df,af,8f),P(9a,b8,d7),P(dc,8c,c3),P(8c,d0,d3),P(ff,ff,ff),P(70,90,80),P(dc,a3,a3),P(72,d5,a3),P(f0,df,af),P(94,bf,f3),P(ec,93,d3),P(93,e0,e3),P(dc,dc,cc),P(dc,dc,cc),P(2c,2c,2c)}}},
    {"base16-dark", {{P(00,00,00),P(ab,46,42),P(a1,b5,6c),P(f7,ca,88),P(7c,af,c2),P(ba,8b,af),P(86,c1,b9),P(aa,aa,aa),P(55,55,55),P(ab,46,42),P(a1,b5,6c),P(f7,ca,88),P(7c,af,c2),P(ba,8b,af),P(86,c1,b9),P(ff,ff,ff),P(d8,d8,d8),P(18,18,18)}}},
    {"base16-light", {{P(00,00,00),P(ab,46,42),P(a1,b5,6c),P(f7,ca,88),P(7c,af,c2),P(ba,8b,af),P(86,c1,b9),P(aa,aa,aa),P(55,55,55),P(ab,46,42),P(a1,b5,6c),P(f7,ca,88),P(7c,af,c2),P(ba,8b,af),P(86,c1,b9),P(ff,ff,ff),P(18,18,18),P(d8,d8,d8)}}},
};
#undef P
bool palette_named(const std::string &n, Palette &p) {
    for (auto &x : pals) if (n == x.n) { p = x.p; return true; }
    return false;
}

void Term::to_rgb(Attr &a) const {
    if (a.fcc >= 0) {
        int c = a.fcc; if (a.bold && c < 8) c += 8; if (c >= 18) c = 16;
        a.fr = pal.c[c][0]; a.fg = pal.c[c][1]; a.fb = pal.c[c][2];
    }
    if (a.bcc >= 0) {
        int c = a.bcc; if (c >= 18) c = 17;
        a.br = pal.c[c][0]; a.bg = pal.c[c][1]; a.bb = pal.c[c][2];
    }
}
void Term::def_from_palette() { def = Attr(); def.fcc = 16; def.bcc = 17; to_rgb(def); }
void Term::create(unsigned W, unsigned H, const Palette &p) {
    pal = p; def_from_palette();
    s.init(W, H, def);
    soft_reset();
    clear();
}
void Term::soft_reset() {
    flags = V_TCM | V_ARM | V_SRM | V_AWM | V_BCE;
    s.reset(); s.set_flag(F_WRAP, true);
    st = GROUND; u_need = 0;
    G[0] = CS_LOWER; G[1] = CS_UPPER; G[2] = CS_LOWER; G[3] = CS_UPPER;
    gl = 0; gr = 1; glt = -1;
    mouse_mode = mouse_event = 0; last_col = last_row = 0;
    cattr = def; s.def = def;
    saved = Saved(); saved.at = def;
}
void Term::hard_reset() {
    soft_reset();
    ax = ay = 0;
    for (auto &l : s.alt) for (auto &c : l.c) { c = s.blank(); c.attr_any = true; }
    s.erase(0, 0, s.w - 1, s.h - 1);
    s.clear_sb();
    s.move_abs(0, 0);
}
void Term::set_palette(const Palette &p) {
    pal = p; def_from_palette(); cattr = def; s.def = def;
    s.erase(0, 0, s.w - 1, s.h - 1);
}
void Term::input(const std::string &b) { for (char c : b) byte((u8)c); }
void Term::byte(u8 b) {
    if (flags & V_7BIT) { code(b & 0x7f); return; }
    if (flags & V_8BIT) { code(b); return; }
    if (u_need) {
        if ((b & 0xc0) == 0x80) {
            u_cp = u_cp << 6 | (b & 63);
            if (!--u_need) code(u_cp);
            return;
        }
        u_need = 0; code(0xfffd); return; // lockstep streams are well-formed; see C02 for the rest
    }
    if (b < 0x80) code(b);
    else if (b >= 0xc2 && b < 0xe0) { u_need = 1; u_cp = b & 0x1f; }
    else if (b >= 0xe0 && b < 0xf0) { u_need = 2; u_cp = b & 0x0f; }
    else if (b >= 0xf0 && b < 0xf5) { u_need = 3; u_cp = b & 0x07; }
    else if (b < 0xc0) return; // out of sync
    else code(0xfffd);
}
static bool c0(u32 c) { return c < 0x20; }
void Term::code(u32 c) {
    bool was_osc = st == OSC;
    auto leave = [&](bool good) {
        if (was_osc) { osc.push_back(oscbuf); if (!good) osc_abort = true; }
    };
    if (esc_after_osc) { esc_after_osc = false; if (c != '\\') osc_abort = true; }
    // anywhere
    if (c == 0x18 || c == 0x1a || (c >= 0x80 && c <= 0x8f) || (c >= 0x91 && c <= 0x97) || c == 0x99 || c == 0x9a || c == 0x9c) {
        leave(c == 0x9c); st = GROUND; ctrl(c); return;
    }
    if (c == 0x1b) { leave(true); esc_after_osc = was_osc; st = ESC; clear(); return; }
    if (c == 0x98 || c == 0x9e || c == 0x9f) { leave(false); st = ST_IGN; return; }
    if (c == 0x90) { leave(false); st = DCS_ENTRY; clear(); return; }
    if (c == 0x9d) { leave(false); st = OSC; oscbuf.clear(); oscfull = false; return; }
    if (c == 0x9b) { leave(false); st = CSI_ENTRY; clear(); return; }
    switch (st) {
    case GROUND:
        if (c0(c)) ctrl(c); else print(c);
        return;
    case ESC: case ESC_INT:
        if (c0(c)) { ctrl(c); return; }
        if (c == 0x7f) return;
        if (c < 0x30 || c > 0x9f) { inter += c < 0x80 ? (char)c : '#'; st = ESC_INT; return; }
        if (st == ESC) {
            if (c == '[') { st = CSI_ENTRY; clear(); return; }
            if (c == ']') { st = OSC; oscbuf.clear(); oscfull = false; return; }
            if (c == 'P') { st = DCS_ENTRY; clear(); return; }
            if (c == 'X' || c == '^' || c == '_') { st = ST_IGN; return; }
        }
        st = GROUND; esc((u8)c);
        return;
    case CSI_ENTRY: case CSI_PARAM:
        if (c0(c)) { ctrl(c); return; }
        if (c == 0x7f) return;
        if (c < 0x30) { inter += (char)c; st = CSI_INT; return; }
        if (c == ':' || c > 0x7f) { st = CSI_IGN; return; }
        if (c < 0x3c) {
            st = CSI_PARAM;
            if (c == ';') { par.push_back(-1); return; }
            i64 &v = par.back();
            if (v <= 0xffff) v = (v <= 0 ? 0 : v * 10) + (c - '0');
            return;
        }
        if (c < 0x40) {
            if (st == CSI_ENTRY) { inter += (char)c; st = CSI_PARAM; } else st = CSI_IGN;
            return;
        }
        st = GROUND; csi((u8)c);
        return;
    case CSI_INT:
        if (c0(c)) { ctrl(c); return; }
        if (c == 0x7f) return;
        if (c < 0x30) { inter += (char)c; return; }
        if (c < 0x40 || c > 0x7f) { st = CSI_IGN; return; }
        st = GROUND; csi((u8)c);
        return;
    case CSI_IGN:
        if (c0(c)) { ctrl(c); return; }
        if (c >= 0x40 && c < 0x7f) st = GROUND;
        return;
    case OSC:
        if (c == 7) { leave(true); st = GROUND; return; }
        if (c0(c)) return;
        if (!oscfull) {
            std::string u = utf8(c);
            if (oscbuf.size() + u.size() > 127) oscfull = true; else oscbuf += u;
        }
        return;
    case DCS_ENTRY: case DCS_PARAM: case DCS_INT: case DCS_PASS: case DCS_IGN: case ST_IGN:
        return;
    }
}
void Term::print(u32 c) {
    ++acts;
    if (c >= 33 && c <= 126) {
        if (glt >= 0) { c = cs_map(G[glt], c - 32); glt = -1; }
        else c = cs_map(G[gl], c - 32);
    } else if (c >= 161 && c <= 254) c = cs_map(G[gr], c - 160);
    to_rgb(cattr);
    s.put(c, cattr);
}
void Term::ctrl(u32 c) {
    ++acts;
    switch (c) {
    case 0x05: reply("\x06"); break;
    case 0x08: s.left(1); break;
    case 0x09: s.tab_right(1); break;
    case 0x0a: case 0x0b: case 0x0c: if (flags & V_LNM) s.newline(); else s.down(1, true); break;
    case 0x0d: s.cx = 0; break;
    case 0x0e: gl = 1; break;
    case 0x0f: gl = 0; break;
    case 0x1a: to_rgb(cattr); s.put(0xbf, cattr); break;
    case 0x84: s.down(1, true); break;
    case 0x85: s.newline(); break;
    case 0x88: if (s.cx < s.w) s.tabs[s.cx] = true; break;
    case 0x8d: s.up(1, true); break;
    case 0x8e: glt = 2; break;
    case 0x8f: glt = 3; break;
    case 0x9a: reply("\x1b[?60;1;6;9;15c"); break;
    }
}
void Term::esc(u8 c) {
    if (c != '\\' || !inter.empty()) ++acts;
    int slot = -1;
    if (inter == "(") slot = 0; else if (inter == ")") slot = 1; else if (inter == "*") slot = 2; else if (inter == "+") slot = 3;
    if (slot >= 0) {
        if (c == 'B') G[slot] = CS_LOWER;
        else if (c == '<') G[slot] = CS_SUPP;
        else if (c == '0') G[slot] = CS_SPECIAL;
        else if (strchr("A4C5RQKYE6ZH7=", c)) G[slot] = CS_UPPER;
        return;
    }
    if (inter == " ") { if (c == 'F') flags &= ~V_C1; else if (c == 'G') flags |= V_C1; return; }
    if (!inter.empty()) return;
    switch (c) {
    case 'D': s.down(1, true); break;
    case 'E': s.newline(); break;
    case 'H': if (s.cx < s.w) s.tabs[s.cx] = true; break;
    case 'M': s.up(1, true); break;
    case 'N': glt = 2; break;
    case 'O': glt = 3; break;
    case 'Z': reply("\x1b[?60;1;6;9;15c"); break;
    case '~': gr = 1; break;
    case 'n': gl = 2; break;
    case '}': gr = 2; break;
    case 'o': gl = 3; break;
    case '|': gr = 3; break;
    case '=': flags |= V_KPAM; break;
    case '>': flags &= ~V_KPAM; break;
    case 'c': hard_reset(); break;
    case '7':
        saved.x = s.cx; saved.y = s.cy; saved.at = cattr; saved.gl = gl; saved.gr = gr;
        saved.wrap = flags & V_AWM; saved.origin = flags & V_DECOM; break;
    case '8':
        s.move_abs(saved.x, saved.y);
        cattr = saved.at; to_rgb(cattr); s.def = cattr;
        gl = saved.gl; gr = saved.gr;
        if (saved.wrap) flags |= V_AWM; else flags &= ~V_AWM;
        s.set_flag(F_WRAP, saved.wrap);
        if (saved.origin) flags |= V_DECOM; else flags &= ~V_DECOM;
        s.set_flag(F_ORIGIN, saved.origin);
        break;
    }
}
void Term::sgr() {
    static const u8 lv[6] = {0, 0x5f, 0x87, 0xaf, 0xd7, 0xff};
    size_t n = par.size();
    if (n == 1 && par[0] == -1) par[0] = 0;
    for (size_t i = 0; i < n; ++i) {
        i64 v = par[i];
        if (v == 0) { Attr d = def; cattr = d; cattr.bold = cattr.italic = cattr.underline = cattr.inverse = cattr.blink = false; }
        else if (v == 1) cattr.bold = true;
        else if (v == 3) cattr.italic = true;
        else if (v == 4) cattr.underline = true;
        else if (v == 5) cattr.blink = true;
        else if (v == 7) cattr.inverse = true;
        else if (v == 22) cattr.bold = false;
        else if (v == 23) cattr.italic = false;
        else if (v == 24) cattr.underline = false;
        else if (v == 25) cattr.blink = false;
        else if (v == 27) cattr.inverse = false;
        else if (v >= 30 && v <= 37) cattr.fcc = v - 30;
        else if (v >= 40 && v <= 47) cattr.bcc = v - 40;
        else if (v >= 90 && v <= 97) cattr.fcc = v - 90 + 8;
        else if (v >= 100 && v <= 107) cattr.bcc = v - 100 + 8;
        else if (v == 39) { cattr.fcc = def.fcc; cattr.fr = def.fr; cattr.fg = def.fg; cattr.fb = def.fb; }
        else if (v == 49) { cattr.bcc = def.bcc; cattr.br = def.br; cattr.bg = def.bg; cattr.bb = def.bb; }
        else if (v == 38 || v == 48) {
            int code; u8 r = 0, g = 0, b = 0;
            if (p(i + 1) == 5 && p(i + 2) >= 0) {
                i64 k = par[i + 2];
                if (k < 16) code = k;
                else if (k < 232) { k -= 16; r = lv[k / 36]; g = lv[k / 6 % 6]; b = lv[k % 6]; code = -1; }
                else { r = g = b = 8 + (k - 232) * 10; code = -1; }
                i += 2;
            } else if (p(i + 1) == 2 && p(i + 2) >= 0 && p(i + 3) >= 0 && p(i + 4) >= 0) {
                r = par[i + 2]; g = par[i + 3]; b = par[i + 4]; code = -1; i += 4;
            } else continue;
            if (v == 38) { cattr.fcc = code; cattr.fr = r; cattr.fg = g; cattr.fb = b; }
            else { cattr.bcc = code; cattr.br = r; cattr.bg = g; cattr.bb = b; }
        }
    }
    to_rgb(cattr); s.def = cattr;
}
void Term::mode(bool set) {
    auto fl = [&](unsigned f) { if (set) flags |= f; else flags &= ~f; };
    bool priv = inter == "?";
    for (i64 v : par) {
        if (v < 0) continue;
        if (!priv) {
            switch (v) {
            case 2: fl(V_KAM); break;
            case 4: fl(V_IRM); s.set_flag(F_INSERT, set); break;
            case 12: fl(V_SRM); break;
            case 20: fl(V_LNM); break;
            }
            continue;
        }
        switch (v) {
        case 1: fl(V_CKM); break;
        case 5: fl(V_SCNM); s.set_flag(F_INVERSE, set); break;
        case 6: fl(V_DECOM); s.set_flag(F_ORIGIN, set); break;
        case 7: fl(V_AWM); s.set_flag(F_WRAP, set); break;
        case 8: fl(V_ARM); break;
        case 25: fl(V_TCM); s.set_flag(F_HIDE, !set); break;
        case 42: fl(V_NRC); break;
        case 47: s.set_flag(F_ALT, set); break;
        case 1047: if (!set && s.flags & F_ALT) s.erase(0, 0, s.w - 1, s.h - 1); s.set_flag(F_ALT, set); break;
        case 1048: if (set) { ax = s.cx; ay = s.cy; } else s.move_abs(ax, ay); break;
        case 1049:
            if (set) { ax = s.cx; ay = s.cy; s.set_flag(F_ALT, true); s.erase(0, 0, s.w - 1, s.h - 1); }
            else { s.set_flag(F_ALT, false); s.move_abs(ax, ay); }
            break;
        case 9: mouse_mode = set ? 9 : 0; mouse_event = set ? 1002 : 0; mouse_amb = true; break;
        case 1002: case 1003: mouse_event = mouse_mode == 9 ? 1002 : set ? (unsigned)v : 0; mouse_amb = true; break;
        case 1006: case 1016: mouse_mode = set ? (unsigned)v : 0; mouse_amb = true; break;
        }
    }
}
void Term::csi(u8 c) {
    ++acts;
    if (par.size() > 16) par.resize(16);
    const std::string &in = inter;
    auto ok = [&](const char *allowed) { for (const char *a = allowed; *a; ++a) if (in.size() == 1 && in[0] == *a) return true; return in.empty(); };
    const char *allow = c == 'h' || c == 'l' || c == 'J' || c == 'K' || c == 'n' ? "?" : c == 'c' ? ">" : c == 'p' ? "!>$\"" : "";
    if (!ok(allow)) return;
    bool sel = in == "?"; // selective erase spares protected cells
    switch (c) {
    case 'A': s.up(n1(), false); break;
    case 'B': s.down(n1(), false); break;
    case 'C': s.right(n1()); break;
    case 'D': s.left(n1()); break;
    case 'E': s.down(n1(), false); s.cx = 0; break;
    case 'F': s.up(n1(), false); s.cx = 0; break;
    case 'd': s.move_to(s.cx, n1() - 1); break;
    case 'e': if (s.flags & F_ORIGIN) s.down(n1(), false); else s.move_abs(s.cx, s.cy + n1()); break;
    case 'H': case 'f': s.move_to(n1(1) - 1, n1(0) - 1); break;
    case 'G': s.move_abs(n1() - 1, s.cy); break;
    case 'J':
        if (p(0) <= 0) s.erase(s.ccx(), s.cy, s.w - 1, s.h - 1, sel);
        else if (p(0) == 1) s.erase(0, 0, s.cx, s.cy, sel);
        else if (p(0) == 2) s.erase(0, 0, s.w - 1, s.h - 1, sel);
        break;
    case 'K':
        if (p(0) <= 0) s.erase(s.ccx(), s.cy, s.w - 1, s.cy, sel);
        else if (p(0) == 1) s.erase(0, s.cy, s.cx, s.cy, sel);
        else if (p(0) == 2) s.erase(0, s.cy, s.w - 1, s.cy, sel);
        break;
    case 'X': s.erase_chars(n1()); break;
    case 'm': sgr(); break;
    case 'p':
        if (in == ">" || in == "!") soft_reset();
        else if (in == "$") ;
        else {
            soft_reset();
            if (p(0) == 61) { flags |= V_7BIT; G[0] = CS_LOWER; G[1] = CS_SUPP; }
            else if (p(0) >= 62 && p(0) <= 64) {
                if (p(1) == 1 || p(1) == 2) flags |= V_C1;
                flags |= V_8BIT; G[0] = CS_LOWER; G[1] = CS_SUPP;
            }
        }
        break;
    case 'h': mode(true); break;
    case 'l': mode(false); break;
    case 'r': s.set_margins(p(0) < 0 ? 0 : p(0), p(1) < 0 ? 0 : p(1)); break;
    case 'c':
        if (par.size() == 1 && p(0) <= 0) {
            if (in.empty()) reply("\x1b[?60;1;6;9;15c");
            else if (in == ">") reply("\x1b[>1;1;0c");
        }
        break;
    case 'L': s.insert_lines(n1()); break;
    case 'M': s.delete_lines(n1()); break;
    case 'g':
        if (p(0) <= 0) { if (s.cx < s.w) s.tabs[s.cx] = false; }
        else if (p(0) == 3) s.tabs.assign(s.w, false);
        break;
    case '@': s.insert_chars(n1()); break;
    case 'P': s.delete_chars(n1()); break;
    case 'Z': s.tab_left(n1()); break;
    case 'I': s.tab_right(n1()); break;
    case 'n':
        if (p(0) == 5) reply("\x1b[0n");
        else if (p(0) == 6) { char b[64]; snprintf(b, sizeof b, "\x1b[%u;%uR", s.cy + 1, s.ccx() + 1); reply(b); }
        break;
    case 'S': s.scroll_up(n1()); break;
    case 'T': s.scroll_down(n1()); break;
    }
}
void Term::write_out(const std::string &b, bool alt) {
    std::string f = (alt ? "\x1b" : "") + b;
    if (!(flags & V_SRM)) input(f);
    out.push_back(f);
}

// ---- keyboard -------------------------------------------------------------
struct KeyDef { u32 sym; int kind; const char *a, *b; };
enum { K_FIX, K_CUR, K_CURX, K_KP, K_FN, K_BS, K_RET, K_KPENT };
static const KeyDef keys[] = {
    {0xff08, K_BS, 0, 0}, {0xff09, K_FIX, "\t", 0}, {0xff89, K_FIX, "\t", 0}, {0xfe20, K_FIX, "\x1b[Z", 0},
    {0xff0a, K_FIX, "\n", 0}, {0xff0b, K_FIX, "\x0b", 0}, {0xff15, K_FIX, "\x15", 0}, {0xff1b, K_FIX, "\x1b", 0},
    {0xff8d, K_KPENT, 0, 0}, {0xff0d, K_RET, 0, 0},
    {0xff68, K_FIX, "\x1b[1~", 0}, {0xff63, K_FIX, "\x1b[2~", 0}, {0xffff, K_FIX, "\x1b[3~", 0}, {0xff60, K_FIX, "\x1b[4~", 0},
    {0xff55, K_FIX, "\x1b[5~", 0}, {0xff9a, K_FIX, "\x1b[5~", 0}, {0xff56, K_FIX, "\x1b[6~", 0}, {0xff9b, K_FIX, "\x1b[6~", 0},
    {0xff52, K_CUR, "A", 0}, {0xff97, K_CUR, "A", 0}, {0xff54, K_CUR, "B", 0}, {0xff99, K_CUR, "B", 0},
    {0xff53, K_CUR, "C", 0}, {0xff98, K_CUR, "C", 0}, {0xff51, K_CUR, "D", 0}, {0xff96, K_CUR, "D", 0},
    {0xff50, K_CURX, "H", 0}, {0xff95, K_CURX, "H", 0}, {0xff57, K_CURX, "F", 0}, {0xff9c, K_CURX, "F", 0},
    {0xff9e, K_KP, "p", "0"}, {0xffb0, K_KP, "p", "0"}, {0xffb1, K_KP, "q", "1"}, {0xffb2, K_KP, "r", "2"}, {0xffb3, K_KP, "s", "3"},
    {0xffb4, K_KP, "t", "4"}, {0xffb5, K_KP, "u", "5"}, {0xffb6, K_KP, "v", "6"}, {0xffb7, K_KP, "w", "7"}, {0xffb8, K_KP, "x", "8"},
    {0xffb9, K_KP, "y", "9"}, {0xffad, K_KP, "m", "-"}, {0xffac, K_KP, "l", ","}, {0xff9f, K_KP, "n", "."}, {0xffae, K_KP, "n", "."},
    {0xffbd, K_KP, "j", "/"}, {0xffaf, K_KP, "j", "/"}, {0xffaa, K_KP, "o", "*"}, {0xffab, K_KP, "k", "+"}, {0xff80, K_FIX, " ", 0},
    {0xffbe, K_FN, "\x1bOP", "\x1b[23~"}, {0xff91, K_FN, "\x1bOP", "\x1b[23~"},
    {0xffbf, K_FN, "\x1bOQ", "\x1b[24~"}, {0xff92, K_FN, "\x1bOQ", "\x1b[24~"},
    {0xffc0, K_FN, "\x1bOR", "\x1b[25~"}, {0xff93, K_FN, "\x1bOR", "\x1b[25~"},
    {0xffc1, K_FN, "\x1bOS", "\x1b[26~"}, {0xff94, K_FN, "\x1bOS", "\x1b[26~"},
    {0xffc2, K_FN, "\x1b[15~", "\x1b[28~"}, {0xffc3, K_FN, "\x1b[17~", "\x1b[29~"}, {0xffc4, K_FN, "\x1b[18~", "\x1b[31~"},
    {0xffc5, K_FN, "\x1b[19~", "\x1b[32~"}, {0xffc6, K_FN, "\x1b[20~", "\x1b[33~"}, {0xffc7, K_FN, "\x1b[21~", "\x1b[34~"},
    {0xffc8, K_FN, "\x1b[23~", "\x1b[23;2~"}, {0xffc9, K_FN, "\x1b[24~", "\x1b[24;2~"}, {0xffca, K_FN, "\x1b[25~", "\x1b[25;2~"},
    {0xffcb, K_FN, "\x1b[26~", "\x1b[26;2~"}, {0xffcc, K_FN, "\x1b[28~", "\x1b[28;2~"}, {0xffcd, K_FN, "\x1b[29~", "\x1b[29;2~"},
    {0xffce, K_FN, "\x1b[31~", "\x1b[31;2~"}, {0xffcf, K_FN, "\x1b[32~", "\x1b[32;2~"}, {0xffd0, K_FN, "\x1b[33~", "\x1b[33;2~"},
    {0xffd1, K_FN, "\x1b[34~", "\x1b[34;2~"},
};
std::vector<u32> known_keysyms() { std::vector<u32> v; for (auto &k : keys) v.push_back(k.sym); return v; }

bool Term::key(u32 sym, u32 ascii, unsigned mods, u32 uni) {
    bool shift = mods & 1, ctl = mods & 4, alt = mods & 8;
    auto w = [&](const std::string &b) { write_out(b, alt); return true; };
    if (ctl) {
        u32 k = ascii ? ascii : sym;
        int v = -1;
        if (k >= 'a' && k <= 'z') v = k - 'a' + 1;
        else if (k >= 'A' && k <= 'Z') v = k - 'A' + 1;
        else switch (k) {
        case '2': case ' ': v = 0; break;
        case '3': case '[': case '{': v = 0x1b; break;
        case '4': case '\\': case '|': v = 0x1c; break;
        case '5': case ']': case '}': v = 0x1d; break;
        case '6': case '`': case '~': v = 0x1e; break;
        case '7': case '/': case '?': v = 0x1f; break;
        case '8': v = 0x7f; break;
        }
        if (v >= 0) return w(std::string(1, (char)v));
    }
    for (auto &k : keys) if (k.sym == sym) switch (k.kind) {
    case K_FIX: return w(k.a);
    case K_BS: return w(bs_del ? "\x7f" : "\x08");
    case K_KPENT: if (flags & V_KPAM) return w("\x1bOM"); // fallthrough
    case K_RET: return w(flags & V_LNM ? "\r\n" : "\r");
    case K_CUR: return w((ctl ? std::string("\x1b[1;5") : flags & V_CKM ? std::string("\x1bO") : std::string("\x1b[")) + k.a);
    case K_CURX: return w((flags & V_CKM ? std::string("\x1bO") : std::string("\x1b[")) + k.a);
    case K_KP: return w(flags & V_KPAM ? std::string("\x1bO") + k.a : std::string(k.b));
    case K_FN: return w(shift ? k.b : k.a);
    }
    if (uni != 0xffffffffu) {
        if (flags & V_7BIT) return w(std::string(1, uni > 0x7f ? '?' : (char)uni));
        if (flags & V_8BIT) return w(std::string(1, uni > 0xff ? '?' : (char)uni));
        return w(utf8(uni));
    }
    return false;
}
bool Term::mouse(unsigned cx, unsigned cy, unsigned px, unsigned py, unsigned b, unsigned ev, unsigned mods) {
    bool moved = ev & 4, pressed = ev & 1;
    if (moved && (mouse_mode == 9 || mouse_event != 1003)) return false;
    unsigned code = b == 4 ? 64 : b == 5 ? 65 : b;
    char buf[80];
    if (mouse_mode == 9) {
        if (ev & 2) code = 3;
        std::string r = "\x1b[M";
        r += (char)((code | mods) + 32);
        r += (char)std::min(cx + 33u, 255u); r += (char)std::min(cy + 33u, 255u);
        write_out(r, false);
        return true;
    }
    if (!mouse_event) return false;
    if (mouse_mode == 1006) {
        if (moved) {
            if (cx + 1 == last_col && cy + 1 == last_row) return false;
            last_col = cx + 1; last_row = cy + 1;
            snprintf(buf, sizeof buf, "\x1b[<35;%u;%uM", cx + 1, cy + 1);
        } else snprintf(buf, sizeof buf, "\x1b[<%u;%u;%u%c", code | mods, cx + 1, cy + 1, pressed ? 'M' : 'm');
    } else if (mouse_mode == 1016) {
        if (moved) snprintf(buf, sizeof buf, "\x1b[<35;%u;%uM", px, py);
        else snprintf(buf, sizeof buf, "\x1b[<%u;%u;%u%c", code | mods, px, py, pressed ? 'M' : 'm');
    } else return false;
    write_out(buf, false);
    return true;
}
} // namespace ref
