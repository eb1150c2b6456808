// The simulated world: the real library driven through its public API, next to
// the reference terminal.
#pragma once
#include "core.h"
#include "model.h"
extern "C" {
#include "libtsm.h"
int shim_set_age(struct tsm_screen *con, uint64_t v); // 0 if unsupported
}

struct GCell { u32 ch = 0; u8 w = 0; u8 len = 0; ref::Attr at; u64 age = 0; u64 id = 0; };
struct Grid {
    unsigned w = 0, h = 0; std::vector<GCell> c;
    u64 ret = 0; bool order_ok = true; size_t calls = 0;
    const GCell &at(unsigned x, unsigned y) const { return c[(size_t)y * w + x]; }
    std::string row(unsigned y) const;
};

enum { OBS_OSC = 1, OBS_MOUSE = 2 };
struct Sut {
    tsm_screen *con = nullptr; tsm_vte *vte = nullptr;
    std::string out; std::vector<std::string> writes; std::vector<std::string> osc; bool osc_bad = false;
    std::vector<std::pair<int, bool>> mcb;
    u64 sbw = 0;
    unsigned mw = 0, mh = 0; // largest size ever given (lines are kept allocated)
    int create(unsigned w, unsigned h, unsigned sb, int observers = OBS_OSC | OBS_MOUSE, tsm_log_t log = nullptr, void *log_data = nullptr);
    void destroy();
    Grid draw();
    void feed(const std::string &b);
    unsigned w() const { return tsm_screen_get_width(con); }
    unsigned h() const { return tsm_screen_get_height(con); }
    unsigned cx() const { return tsm_screen_get_cursor_x(con); }
    unsigned cy() const { return tsm_screen_get_cursor_y(con); }
    unsigned sbn() const { return tsm_screen_sb_get_line_count(con); }
    unsigned sbpos() const { return tsm_screen_sb_get_line_pos(con); }
    void budget(size_t n, unsigned w2 = 0, unsigned h2 = 0); // arm the step limit for one call
    static void disarm() { sim_step_limit = 0; }
    int copy(std::string &text, int *ret = nullptr); // selection text; -1 none
    u64 hash_all(); // every observable: grid, cursor, flags, sb, modes
};

// application-level event applied to the SUT. Returns false if op unknown.
bool apply_sut(Sut &s, const Ev &e);
// the same event applied to the reference terminal
bool apply_model(ref::Term &m, const Ev &e);

// direct calls of the screen interface: op "api", arguments {call, a, b, seed of the attributes}
enum { API_MARGINS, API_MOVETO, API_MOVETO2, API_UP, API_DOWN, API_LEFT, API_RIGHT, API_END, API_HOME, API_TABR, API_TABL, API_INSL, API_DELL,
       API_INSC, API_DELC, API_ERCUR, API_ERCH, API_ER_CTE, API_ER_HTC, API_ER_LINE, API_ER_STC, API_ER_CTS, API_ER_ALL, API_SCRUP, API_SCRDOWN,
       API_NEWLINE, API_SETTAB, API_RSTTAB, API_RSTALL, API_SETFL, API_RSTFL, API_DEFATTR, API_RESET, API_WRITE, API_N };
tsm_screen_attr api_attr(const Ev &e);
void api_call_on(tsm_screen *c, const Ev &e);
ref::Attr model_attr(const tsm_screen_attr &a);

enum { CMP_CHARS = 1, CMP_ATTRS = 2, CMP_NOSEL = 4 };
// "" if equal
std::string diff_grid(const Grid &g, const ref::Term &m, int what);
std::string diff_cursor(const Sut &s, const ref::Term &m);
std::string diff_state(const Sut &s, const ref::Term &m); // flags, modes, sb counters
std::string grid_vs_grid(const Grid &a, const Grid &b);
u64 abstract_state(const ref::Term &m);
unsigned tsm_flags_of(const ref::Term &m);
