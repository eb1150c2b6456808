// Seams of the widget (src/gtktsm/gtktsm-terminal.c): main loop, windows, fonts.
// The widget's calls to these libraries are redirected to simg_* (see simbuild.py).
#pragma once
#include "core.h"
#include <gtk/gtk.h>
#include <pango/pangocairo.h>
extern "C" {
#define _Static_assert static_assert
#include "libtsm.h"
#include "gtktsm-terminal.h"
}

namespace seam {
struct Widget { // what the toolkit knows about one widget
    GtkTsmTerminal *term = nullptr; tsm_vte *vte = nullptr;
    bool dirty = false, focus = false; int mask = 0; u64 queued = 0; int w = 1, h = 1;
    std::function<void(const char *, size_t)> input;
};
struct Key { bool ok = false; guint key = 0; GdkModifierType consumed = (GdkModifierType)0; guint code = 0; guint state = 0; gint group = 0; bool wrong = false; };
struct Font { unsigned cw, ch, base; };
extern std::vector<Widget *> widgets;
extern Widget *making;                    // the widget under construction
extern Key key;                           // what the keymap says about the current key event
extern std::string bad;                   // misuse of the toolkit
extern i64 clock_us;

void reset();
bool step(Rng &r, u64 *n = nullptr);      // one iteration of the main loop; false if nothing was ready
bool ready();
size_t sources();                         // sources and channels that exist
size_t objects();                         // fonts, layouts and surfaces that exist
size_t things();                          // strings and descriptions that were not freed
int instances();                          // widgets that exist
guint emit(GtkTsmTerminal *t, const char *sig, void *arg);

Font font(const std::string &family, int size);
// coverage of pixel (x, y) of a glyph; c: colour channel
int glyph_mask(const std::string &family, int size, int style, int order, const std::string &u8, int c, int x, int y);
}
