#include "gen.h"
#include "model.h"

u32 rnd_char(Rng &r, int kind) {
    static const std::vector<u32> lat = {0xa1, 0xa9, 0xb0, 0xb5, 0xc4, 0xd6, 0xdf, 0xe9, 0xf1, 0xfc, 0xfe, 0xff, 0x100, 0x17f, 0x3a9, 0x3c0, 0x416, 0x44f, 0x7ff, 0x5d0,
        0x2500, 0x2502, 0x253c, 0x2588, 0x20ac, 0x2260, 0x2665, 0xfffd, 0xe000, 0x1d400, 0x10000, 0xffee};
    static const std::vector<u32> wide = {0x4e00, 0x65e5, 0x672c, 0x8a9e, 0xac00, 0xd55c, 0x3042, 0x30a2, 0xff21, 0x1f600, 0x1f680, 0x20000, 0x2fffd};
    static const std::vector<u32> zero = {0x300, 0x301, 0x308, 0x36f, 0x200b, 0x20d0};
    switch (kind) {
    case 0: { u32 c = (u32)r.range(0x20, 0x7e); return c; }
    case 1: return r.pick(lat);
    case 2: return r.pick(wide);
    case 3: return r.pick(zero);
    default: {
        u32 c;
        switch (r.below(4)) {
        case 0: c = (u32)r.range(0xa0, 0x7ff); break;
        case 1: c = (u32)r.range(0x800, 0xffff); break;
        case 2: c = (u32)r.range(0x10000, 0x10ffff); break;
        default: { static const std::vector<u32> edge = {0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffc, 0xffef, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffd}; c = r.pick(edge); }
        }
        if (c >= 0xd800 && c < 0xe000) c = 0xe000 + (c & 0xff);
        return c;
    }
    }
}
std::string rnd_text(Rng &r, int n, int mix) {
    std::string s;
    for (int i = 0; i < n; ++i) {
        int k = 0;
        if (mix && r.chance(1, 3)) k = (int)r.range(1, mix > 3 ? 3 : mix);
        s += ref::utf8(rnd_char(r, k));
    }
    return s;
}
std::string num(Rng &r, unsigned dim) {
    switch (r.below(12)) {
    case 0: return "";
    case 1: return "0";
    case 2: return "1";
    case 3: return fmt("%u", dim);
    case 4: return fmt("%u", dim + 1);
    case 5: return fmt("%u", dim > 1 ? dim - 1 : 1);
    case 6: return fmt("%u", (unsigned)r.range(1, 3));
    case 7: if (r.chance(1, 6)) return fmt("%u", r.chance(1, 2) ? 65535u : (unsigned)r.range(100, 99999)); // fallthrough
    default: return fmt("%u", (unsigned)r.range(1, dim + 2));
    }
}
void pick_size(Rng &r, i64 &w, i64 &h) {
    if (r.chance(1, 100)) { w = r.range(2, 5); h = r.range(120, 300); return; } // more rows than the library moves at once
    if (r.chance(1, 80)) { w = r.range(100, 300); h = r.range(1, 4); return; }
    if (r.chance(1, 300)) { w = r.range(100, 130); h = r.range(100, 130); return; }
    switch (r.below(16)) {
    case 0: w = 1; h = r.range(1, 4); break;
    case 1: w = r.range(1, 10); h = 1; break;
    case 2: w = 2; h = r.range(2, 6); break;
    case 3: w = 80; h = 24; break;
    case 4: w = r.range(16, 40); h = r.range(8, 16); break;
    default: w = r.range(3, 20); h = r.range(2, 8); break;
    }
}
void tick(Rng &r, u64 &now) {
    static const std::vector<u64> d = {0, 1, 10, 50, 200, 1000, 16000, 100000};
    now += r.below(r.pick(d) + 1);
}
// a long output; beyond 2^16 lines now and then
bool rnd_many(Rng &r, Trace &t, u64 now, std::string line) {
    if (!r.chance(1, 40)) return false;
    static const std::vector<i64> n = {255, 256, 257, 300, 1000, 5000};
    t.ev.push_back(ev(now, "many", {r.chance(1, 24) ? 65530 + (i64)r.below(20) : r.pick(n) + (i64)r.below(3)}, line));
    return true;
}
void emit_feed(Rng &r, Trace &t, u64 &now, const std::string &b, int maxfrag) {
    size_t i = 0;
    while (i < b.size()) {
        size_t k = maxfrag <= 0 ? b.size() - i : (size_t)r.range(1, maxfrag);
        if (k > b.size() - i) k = b.size() - i;
        t.ev.push_back(ev(now, "feed", {}, b.substr(i, k)));
        tick(r, now);
        i += k;
    }
}
static std::string inert_seq_esc(Rng &r) {
    auto N = [&]() { return fmt("%u", (unsigned)r.below(200)); };
    static const std::string unk = "auvyi`~xwQRUVWq\\]^_{|}"; // finals libtsm gives no meaning to without markers
    // contents of a string: anything but what ends it
    auto S = [&](int most) {
        std::string p; int n = (int)r.range(0, most); bool ctl = r.chance(1, 3), uni = r.chance(1, 4);
        for (int i = 0; i < n; ++i) { if (ctl && r.chance(1, 6)) { static const char c[] = "\x01\x05\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x11\x13\x17\x19\x1c\x1f\x7f"; p += c[r.below(sizeof c - 1)]; } else if (uni && r.chance(1, 4)) p += ref::utf8(rnd_char(r, (int)r.below(3))); else p += (char)r.range(0x20, 0x7e); }
        return p;
    };
    auto J = [&]() { std::string p; int n = (int)r.range(0, 5); for (int i = 0; i < n; ++i) p += (char)r.range(0x20, 0x3f); return p; }; // after an error nothing counts until the final
    switch (r.below(24)) {
    case 22: { // several different intermediates: sets and functions nobody knows
        static const std::string im = "!\"#$%&'()*+,-./ "; std::string p; int n = (int)r.range(2, 4);
        while ((int)p.size() < n) { char k = im[r.below(im.size())]; if (p.find(k) == p.npos) p += k; }
        return "\x1b" + p + std::string(1, (char)r.range(0x30, 0x7e)); }
    case 23: { // DECSCL, DECSTR and DECRQM are the only ones with these markers
        static const std::vector<std::string> m = {"*", " ", "'", "+", "(", ")", "#", "%", "&", ",", "-", "!$", "\"$", "! ", " \""};
        return "\x1b[" + std::string(r.chance(1, 3) ? "?" : "") + fmt("%u", (unsigned)r.range(58, 66)) + (r.chance(1, 2) ? ";1" : "") + r.pick(m) + "p"; }
    case 0: return "\x1b[" + N() + ":" + N() + (r.chance(1, 2) ? J() : "") + std::string(1, (char)r.range(0x40, 0x7e));
    case 1: return "\x1b[" + N() + "?" + N() + (r.chance(1, 2) ? J() : "") + std::string(1, (char)r.range(0x40, 0x7e));
    case 2: return "\x1b[" + N() + ";" + N() + std::string(1, unk[r.below(unk.size())]);
    case 3: return "\x1b[" + N() + " " + N() + (r.chance(1, 2) ? J() : "") + std::string(1, (char)r.range(0x40, 0x7e)); // param after intermediate
    case 4: return "\x1bP" + S(60) + "\x1b\\";
    case 5: { static const char k[] = "X^_"; char q = k[r.below(3)]; return std::string("\x1b") + q + S(60) + "\x1b\\"; }
    case 6: { std::string p; int n = (int)r.range(0, 40); for (int i = 0; i < n; ++i) p += N() + ";"; return "\x1b[" + p + std::string(1, unk[r.below(unk.size())]); }
    case 7: { // cancelled
        std::string p = "\x1b["; int n = (int)r.range(0, 12); for (int i = 0; i < n; ++i) p += (char)r.range(0x30, 0x3b); return p + "\x18"; }
    case 8: { std::string p = "\x1b"; int n = (int)r.range(0, 4); for (int i = 0; i < n; ++i) p += (char)r.range(0x20, 0x2f); return p + "\x18"; }
    case 9: return "\x1bP" + S(300) + "\x18";
    case 10: return "\x1b[?" + fmt("%u", (unsigned)r.range(2100, 9999)) + (r.chance(1, 2) ? "h" : "l");
    case 11: return "\x1b[" + fmt("%u", (unsigned)r.range(30, 99)) + (r.chance(1, 2) ? "h" : "l");
    case 12: return "\x1b[?" + N() + "$p";
    case 13: { static const char f[] = "abdefgijklmpqrstuvwx"; return std::string("\x1b") + f[r.below(sizeof f - 1)]; }
    case 14: { static const char i[] = "#%&,-./"; return std::string("\x1b") + i[r.below(7)] + (char)r.range(0x30, 0x7e); }
    case 15: { static const char m[] = "<=>"; static const char f[] = "ABCDEFGHIJKLMPSTXZ@dfgr"; return std::string("\x1b[") + m[r.below(3)] + N() + f[r.below(sizeof f - 1)]; }
    case 16: return "\x1b[>" + N() + ";" + N() + "m";
    case 17: { static const char i[] = " $'*\"+"; static const char f[] = "ABCDEFGHIJKLMPSTXZ@dfgrxyz{|}"; return "\x1b[" + N() + ";" + N() + std::string(1, i[r.below(6)]) + f[r.below(sizeof f - 1)]; }
    case 18: return "\x1b[?" + N() + ";" + N() + "r";
    case 19: return "\x1b[" + fmt("%u", (unsigned)r.range(3, 9)) + "J";
    case 20: return std::string("\x1b[?") + "1;1;0S";
    default: return std::string("\x00", 1) + (r.chance(1, 2) ? "\x7f" : "\x07");
    }
}
std::string inert_seq(Rng &r) {
    std::string s = inert_seq_esc(r);
    if (s.size() > 2 && s[0] == 0x1b && r.chance(1, 6)) { // introduced and ended by C1 controls
        static const std::string esc = "[PX^_", c1 = "\x9b\x90\x98\x9e\x9f"; size_t k = esc.find(s[1]);
        if (k != esc.npos) s = std::string("\xc2") + c1[k] + s.substr(2);
        if (s.size() > 2 && s.substr(s.size() - 2) == "\x1b\\" && r.chance(1, 2)) s = s.substr(0, s.size() - 2) + "\xc2\x9c";
    }
    return s;
}
std::string garbage(Rng &r, int n) {
    static const std::vector<std::string> frag = {"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1b_", "\xc2\x9b", "\xc2\x9d", "\xc2\x90", "\x1b\\", ";", "?", ">", "!p", "38;5;", "48;2;", "m", "h", "l", "[?1049", "[2J", "\x9b", "\x9d", "\xff", "\xc0\x80", "\xe0\x80", "\xf0\x80\x80", "\xed\xa0\x80", "\xf4\x90", "\x18", "\x1a", "65535", "99999999999", "1;1H", "\x0e", "\x0f", "\x1b(0", "\x1b[61\"p", "\x1b[62\"p", "\x1bc", "\x1b7", "\x1b8", "\x1b[?1000h"};
    std::string s;
    for (int i = 0; i < n; ++i) {
        switch (r.below(5)) {
        case 0: s += r.pick(frag); break;
        case 1: s += (char)r.below(256); break;
        case 2: s += (char)r.range(0x20, 0x7f); break;
        case 3: s += (char)r.range(0x30, 0x3f); break;
        default: s += r.chance(1, 2) ? (char)r.range(0x80, 0xff) : (char)r.range(0, 0x1f); break;
        }
    }
    return s;
}
std::string StreamGen::label(Rng &r) { return fmt("L%llu", (unsigned long long)++uniq) + (r.chance(1, 2) ? "." : ""); }

std::string StreamGen::pieceof(Rng &r, int f) {
    const std::string C = "\x1b[";
    switch (f) {
    case T_TEXT: {
        if (r.chance(1, 3)) return label(r);
        return rnd_text(r, (int)r.range(1, r.chance(1, 4) ? (i64)w + 2 : 6), 0);
    }
    case T_UTF8: return rnd_text(r, (int)r.range(1, 5), 1);
    case T_WIDE: { std::string s; int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) s += ref::utf8(rnd_char(r, r.chance(1, 4) ? 0 : 2)); return s; }
    case T_ZERO: return ref::utf8(rnd_char(r, 3));
    case T_C0: { static const std::vector<std::string> c = {"\n", "\r\n", "\r", "\b", "\t", "\x0b", "\x0c", "\x07", "\n\n", "\x1b" "D", "\x1b" "E", "\x1bM", "\xc2\x84", "\xc2\x85", "\xc2\x8d"}; return r.pick(c); }
    case T_MOVE: {
        switch (r.below(9)) {
        case 0: case 1: case 2: return C + num(r, h) + ";" + num(r, w) + (r.chance(1, 3) ? "f" : "H");
        case 3: return C + num(r, h) + (r.chance(1, 2) ? "A" : "B");
        case 4: return C + num(r, w) + (r.chance(1, 2) ? "C" : "D");
        case 5: return C + num(r, h) + (r.chance(1, 2) ? "E" : "F");
        case 6: return C + num(r, w) + "G";
        case 7: return C + num(r, h) + (r.chance(1, 2) ? "d" : "e");
        default: return C + "H";
        }
    }
    case T_ERASE: switch (r.below(3)) {
        case 0: return C + (r.chance(1, 4) ? "?" : "") + (r.chance(1, 4) ? "" : fmt("%u", (unsigned)r.below(3))) + "J";
        case 1: return C + (r.chance(1, 4) ? "?" : "") + (r.chance(1, 4) ? "" : fmt("%u", (unsigned)r.below(3))) + "K";
        default: return C + num(r, w) + "X";
        }
    case T_INSDEL: return C + num(r, w) + (r.chance(1, 2) ? "@" : "P");
    case T_LINES: return C + num(r, h) + (r.chance(1, 2) ? "L" : "M");
    case T_SCROLL: return C + num(r, h) + (r.chance(1, 2) ? "S" : "T");
    case T_MARGIN:
        if (r.chance(1, 4)) return C + "r";
        { unsigned a = (unsigned)r.range(1, h), b = (unsigned)r.range(1, h + 1); if (r.chance(3, 4) && a > b) std::swap(a, b); return C + fmt("%u;%u", a, b) + "r"; }
    case T_TAB: switch (r.below(6)) {
        case 0: return "\x1bH"; case 1: return C + "g"; case 2: return C + "3g"; case 3: return C + num(r, 3) + "I"; case 4: return C + num(r, 3) + "Z"; default: return "\t";
        }
    case T_WRAPMODE: return C + "?7" + (r.chance(1, 2) ? "h" : "l");
    case T_INSMODE: return C + "4" + (r.chance(1, 2) ? "h" : "l");
    case T_ORIGIN: return C + "?6" + (r.chance(1, 2) ? "h" : "l");
    case T_LNM: return C + "20" + (r.chance(1, 2) ? "h" : "l");
    case T_ALT: {
        static const std::vector<std::string> on = {"?47h", "?1047h", "?1049h"}, off = {"?47l", "?1047l", "?1049l"};
        if (balanced_alt) { if (alt) { std::string s = C + off[alt - 1]; alt = 0; return s; } alt = (int)r.range(1, 3); return C + on[alt - 1]; }
        return C + (r.chance(1, 2) ? r.pick(on) : r.pick(off));
    }
    case T_SGR: {
        std::string p; int n = (int)r.range(0, 4);
        static const std::vector<std::string> simple = {"0", "1", "3", "4", "5", "7", "22", "23", "24", "25", "27", "39", "49"};
        for (int i = 0; i < n; ++i) {
            if (i) p += ";";
            switch (r.below(7)) {
            case 0: case 1: p += r.pick(simple); break;
            case 2: p += fmt("%u", (unsigned)r.range(30, 37)); break;
            case 3: p += fmt("%u", (unsigned)r.range(40, 47)); break;
            case 4: p += fmt("%u", (unsigned)(r.chance(1, 2) ? r.range(90, 97) : r.range(100, 107))); break;
            case 5: p += fmt("%u;5;%u", r.chance(1, 2) ? 38u : 48u, (unsigned)r.below(256)); break;
            default: p += fmt("%u;2;%u;%u;%u", r.chance(1, 2) ? 38u : 48u, (unsigned)r.below(256), (unsigned)r.below(256), (unsigned)r.below(256)); break;
            }
        }
        return C + p + "m";
    }
    case T_CHARSET: {
        static const char sl[] = "()*+", ds[] = "B0<A", nat[] = "A4C5RQKYE6ZH7=";
        switch (r.below(6)) {
        case 0: case 1: return std::string("\x1b") + sl[r.below(4)] + (r.chance(1, 6) ? nat[r.below(14)] : ds[r.below(4)]);
        case 2: return r.chance(1, 2) ? "\x0e" : "\x0f";
        case 3: { static const char k[] = "no~}|"; return std::string("\x1b") + k[r.below(5)]; }
        case 4: return std::string(r.chance(1, 2) ? "\x1bN" : "\x1bO") + (r.chance(2, 3) ? rnd_text(r, 1, 0) : "");
        default: return r.chance(1, 2) ? "\xc2\x8e" : "\xc2\x8f";
        }
    }
    case T_SAVE: switch (r.below(3)) { case 0: return "\x1b" "7"; case 1: return "\x1b" "8"; default: return C + "?1048" + (r.chance(1, 2) ? "h" : "l"); }
    case T_QUERY: { static const std::vector<std::string> q = {"\x1b[6n", "\x1b[5n", "\x1b[c", "\x1b[0c", "\x1b[>c", "\x1bZ", "\x05", "\xc2\x9a"}; return r.pick(q); }
    case T_OSC: {
        std::string p = fmt("%u;", (unsigned)r.below(3)); int n = (int)r.range(0, r.chance(1, 3) ? 160 : 20);
        for (int i = 0; i < n; ++i) { u32 ch = rnd_char(r, r.chance(1, 4) ? (int)r.range(1, 4) : 0); if ((ch & 0xfffe) == 0xfffe || (ch >= 0xfdd0 && ch <= 0xfdef)) ch = 'n'; p += ref::utf8(ch); }
        return (r.chance(1, 5) ? "\xc2\x9d" : "\x1b]") + p + (r.chance(1, 2) ? "\x07" : r.chance(1, 4) ? "\xc2\x9c" : "\x1b\\");
    }
    case T_SRESET: return C + "!p";
    case T_HRESET: return "\x1b" "c";
    case T_INERT: return inert_seq(r);
    case T_MOUSEMODE: { static const std::vector<std::string> m = {"?9", "?1002", "?1003", "?1006", "?1016"}; return C + r.pick(m) + (r.chance(2, 3) ? "h" : "l"); }
    case T_KEYMODE: { static const std::vector<std::string> m = {"\x1b[?1h", "\x1b[?1l", "\x1b=", "\x1b>", "\x1b[20h", "\x1b[20l"}; return r.pick(m); }
    case T_CURMODE: { static const std::vector<std::string> m = {"?25", "?5", "?25", "?5", "?8", "?42", "2", "?12", "?18"}; return C + r.pick(m) + (r.chance(1, 2) ? "h" : "l"); }
    case T_GARBAGE: return garbage(r, (int)r.range(1, 12));
    case T_8BIT: { if (r.chance(1, 3)) { std::string b = "\x18\x18\x1b[62\"p"; int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) b += (char)r.range(0xa0, 0xff); return b; } // raw 8-bit characters
        static const std::vector<std::string> m = {"\x1b[61\"p", "\x1b[62\"p", "\x1b[63;1\"p", "\x1b[64;2\"p", "\x1b[99\"p", "\x1b[!p", "\x1b G", "\x1b F"}; return r.pick(m); }
    }
    return "";
}
std::string StreamGen::piece(Rng &r) { return pieceof(r, (int)r.weighted(wt)); }

static i64 pages(Rng &r, unsigned h) { return r.chance(3, 4) ? 1 : r.pick(std::vector<i64>{2, 3, 0x7fffffff, 0x80000000ll, 0xffffffffll, (1ll << 32) / h + 1}); }
Ev rnd_view_event(Rng &r, u64 now, unsigned h, unsigned sbmax) {
    switch (r.below(8)) {
    case 0: case 1: return ev(now, "sbup", {r.range(1, 4)});
    case 2: return ev(now, "sbdown", {r.range(1, 4)});
    case 3: return ev(now, "pgup", {pages(r, h)});
    case 4: return ev(now, "pgdn", {pages(r, h)});
    case 5: return ev(now, "sbreset");
    case 6: return ev(now, "sbup", {(i64)r.below(sbmax + 3)});
    default: return ev(now, "sbdown", {(i64)r.below(sbmax + 3)});
    }
}
Ev rnd_key_event(Rng &r, u64 now) {
    static const std::vector<u32> ks = ref::known_keysyms();
    i64 mods = 0;
    if (r.chance(1, 4)) mods |= 1;
    if (r.chance(1, 4)) mods |= 4;
    if (r.chance(1, 4)) mods |= 8;
    if (r.chance(1, 16)) mods |= 2;
    if (r.chance(1, 16)) mods |= 16;
    i64 sym, ascii = 0, uni = 0xffffffffll;
    switch (r.below(9)) {
    case 8: { // around the limits of the encodings
        static const std::vector<i64> u = {0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xffff - 2, 0x10000, 0x10ffff - 2, 0xd7ff, 0xe000};
        uni = r.pick(u); sym = 0x1000000 + uni; break; }
    case 0: case 1: sym = r.pick(ks); if (r.chance(1, 3)) uni = r.range(1, 127); break;
    case 2: { // printable ascii
        sym = r.range(0x20, 0x7e); ascii = r.chance(1, 2) ? sym : 0; uni = sym; break; }
    case 3: { // non-latin layout with an ascii fallback
        sym = 0x6c0 + (i64)r.below(64); ascii = r.chance(2, 3) ? r.range('a', 'z') : 0; uni = 0x430 + (i64)r.below(32); break; }
    case 4: sym = 0x1000000 + (i64)r.range(0x100, 0xffff); uni = rnd_char(r, (int)r.range(1, 2)); break;
    case 5: sym = r.range(0xffe1, 0xffee); break; // pure modifiers: no meaning
    case 6: sym = r.range(0x20, 0x7e); ascii = sym; uni = sym; mods |= 4; break;
    default: sym = r.range(0xa0, 0xff); uni = sym; break;
    }
    return ev(now, "key", {sym, ascii, mods, uni});
}
Ev rnd_mouse_event(Rng &r, u64 now, unsigned w, unsigned h) {
    i64 x = (i64)r.below(w), y = (i64)r.below(h);
    if (r.chance(1, 3)) { x = std::min<i64>(x, 1); y = std::min<i64>(y, 1); } // a few cells are visited again and again
    if (r.chance(1, 12)) x = r.pick(std::vector<i64>{93, 94, 95, 222, 223, 300, 4000, 70000});
    if (r.chance(1, 12)) y = r.pick(std::vector<i64>{93, 94, 95, 222, 223, 300, 4000, 70000});
    static const std::vector<i64> btn = {0, 1, 2, 4, 5}, evs = {1, 2, 4};
    i64 e = r.pick(evs), b = e == 4 ? 0 : r.pick(btn);
    i64 m = 0; if (r.chance(1, 4)) m |= 4; if (r.chance(1, 5)) m |= 8; if (r.chance(1, 5)) m |= 16;
    i64 px = x * 9 + (i64)r.below(9), py = y * 18 + (i64)r.below(18);
    if (r.chance(1, 16)) px = r.pick(std::vector<i64>{0, 1, 99999, 1234567, 99999999});
    if (r.chance(1, 16)) py = r.pick(std::vector<i64>{0, 1, 99999, 1234567, 99999999});
    return ev(now, "mouse", {x, y, px, py, b, e, m});
}
