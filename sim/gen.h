// Seeded workload generators: what a client program writes, and what user and
// application do meanwhile.
#pragma once
#include "core.h"

enum Feat { // client stream features
    T_TEXT, T_UTF8, T_WIDE, T_C0, T_MOVE, T_ERASE, T_INSDEL, T_LINES, T_SCROLL, T_MARGIN, T_TAB, T_WRAPMODE, T_INSMODE,
    T_ORIGIN, T_LNM, T_ALT, T_SGR, T_CHARSET, T_SAVE, T_QUERY, T_OSC, T_SRESET, T_HRESET, T_INERT, T_MOUSEMODE,
    T_KEYMODE, T_CURMODE, T_GARBAGE, T_8BIT, T_ZERO, T_NUM
};
struct StreamGen {
    unsigned w = 20, h = 6;
    std::vector<unsigned> wt = std::vector<unsigned>(T_NUM, 0);
    u64 uniq = 0;        // unique line labels
    bool balanced_alt = false; int alt = 0; // alt-screen switching state
    StreamGen() {}
    StreamGen &set(std::initializer_list<std::pair<int, unsigned>> l) { for (auto &p : l) wt[p.first] = p.second; return *this; }
    std::string piece(Rng &r);
    std::string pieceof(Rng &r, int feat);
    std::string label(Rng &r);
};
u32 rnd_char(Rng &r, int kind);            // 0 ascii, 1 latin/symbols width 1, 2 wide, 3 zero width, 4 any valid scalar
std::string rnd_text(Rng &r, int n, int mix);
std::string inert_seq(Rng &r);             // a control sequence without any effect
std::string garbage(Rng &r, int n);        // arbitrary bytes, biased to control structure
std::string num(Rng &r, unsigned dim);     // a CSI parameter near `dim`
void pick_size(Rng &r, i64 &w, i64 &h);
// split a byte string into feed events at random fragment boundaries
bool rnd_many(Rng &r, Trace &t, u64 now, std::string line);
void emit_feed(Rng &r, Trace &t, u64 &now, const std::string &b, int maxfrag);
void tick(Rng &r, u64 &now);
static inline Ev ev(u64 t, const char *op, std::vector<i64> a = {}, std::string b = "") { Ev e; e.t = t; e.op = op; e.a = std::move(a); e.b = std::move(b); return e; }
Ev rnd_view_event(Rng &r, u64 now, unsigned h, unsigned sbmax);
Ev rnd_key_event(Rng &r, u64 now);
Ev rnd_mouse_event(Rng &r, u64 now, unsigned w, unsigned h);
