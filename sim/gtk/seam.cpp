#include "seam.h"
#include "kernel.h"
#include <unordered_map>
namespace seam {
std::vector<Widget *> widgets; Widget *making; Key key; std::string bad; i64 clock_us;
static void misuse(const std::string &m) { if (bad.empty()) bad = m; }

// ---- main loop -------------------------------------------------------------
enum { IO, CHILD, IDLE, TIMER };
struct Src { guint id; int kind, prio, fd = -1; GPid pid = 0; GCallback fn = nullptr; gpointer data = nullptr; void *chan = nullptr; GDestroyNotify notify = nullptr; i64 due = 0, every = 0; };
struct Chan { int fd, refs; };
static std::vector<Src> srcs; static guint next_id; static std::vector<Chan *> chans; static Chan *freed = nullptr;
static guint add(Src s) { s.id = ++next_id; srcs.push_back(s); return s.id; }
static void chan_unref(Chan *c) { for (size_t i = 0; i < chans.size(); ++i) if (chans[i] == c) { if (!--c->refs) { chans.erase(chans.begin() + i); delete c; } return; } misuse("use of a channel that is gone"); }
static bool drop(guint id) {
    for (size_t i = 0; i < srcs.size(); ++i) if (srcs[i].id == id) { Src s = srcs[i]; srcs.erase(srcs.begin() + i); if (s.chan) chan_unref((Chan *)s.chan); if (s.notify) s.notify(s.data); return true; }
    return false;
}
static bool child_gone(GPid pid) { int n = (int)pid - kern::k->next_pid; return n > 0 && n < kern::NPROC && kern::k->p[n].used && !kern::k->p[n].alive; }
static bool is_ready(const Src &s) {
    switch (s.kind) { case IO: return kern::ep_ready(0, s.fd); case CHILD: return child_gone(s.pid); case TIMER: return clock_us >= s.due; default: return true; }
}
bool ready() { for (auto &s : srcs) if (s.kind != TIMER && is_ready(s)) return true; return false; }
bool step(Rng &r, u64 *n) {
    int best = 1 << 30; for (auto &s : srcs) if (is_ready(s)) best = std::min(best, s.prio);
    std::vector<guint> l; for (auto &s : srcs) if (s.prio == best && is_ready(s)) l.push_back(s.id);
    if (l.empty()) { i64 d = -1; for (auto &s : srcs) if (s.kind == TIMER && (d < 0 || s.due < d)) d = s.due; if (d > clock_us) clock_us = d; return false; }
    // the kernel may report only some of them, in any order of arrival, at least one
    std::vector<guint> q; for (guint i : l) if (r.chance(3, 4)) q.push_back(i);
    if (q.empty()) q.push_back(r.pick(l));
    for (guint id : q) {
        Src *s = nullptr; for (auto &x : srcs) if (x.id == id) s = &x;
        if (!s) continue;
        Src c = *s; bool keep = false; if (n) ++*n;
        switch (c.kind) {
        case IO: keep = ((GIOFunc)c.fn)((GIOChannel *)c.chan, G_IO_IN, c.data); break;
        case CHILD: { int p = (int)c.pid - kern::k->next_pid; ((GChildWatchFunc)c.fn)(c.pid, kern::k->p[p].exit_code << 8, c.data); break; }
        default: keep = ((GSourceFunc)c.fn)(c.data);
        }
        if (!keep) drop(id); else for (auto &x : srcs) if (x.id == id) x.due = clock_us + x.every;
    }
    return true;
}
size_t sources() { return srcs.size() + chans.size(); }

// ---- fonts -------------------------------------------------------------------
struct Obj { int kind; std::string family = "?"; int size = 0, style = 0, order = 0; std::string text; int aa = 0; }; // kind 0 map, 1 context, 2 layout
static std::unordered_map<void *, Obj *> objs; static size_t surfaces; static GObject *defmap; static cairo_user_data_key_t skey;
static void gone(gpointer p, GObject *o) { auto i = objs.find(o); if (i != objs.end()) { delete i->second; objs.erase(i); } }
static void *make(int kind, const Obj *from = nullptr) { GObject *o = (GObject *)g_object_new(G_TYPE_OBJECT, nullptr); Obj *b = from ? new Obj(*from) : new Obj; b->kind = kind; objs[o] = b; g_object_weak_ref(o, gone, nullptr); return o; }
static Obj *get(void *o, int kind) { auto i = objs.find(o); if (i == objs.end() || i->second->kind != kind) { fprintf(stderr, "SIM-GOBJECT: a font object is used that does not exist\n"); abort(); } return i->second; }
size_t objects() { return objs.size() - (defmap ? 1 : 0) + (defmap ? defmap->ref_count - 1 : 0) + surfaces; }
Font font(const std::string &family, int size) { unsigned v = fnv(7, family.data(), family.size()), x = v & 1, h = 4 + (unsigned)size + x; return {2 + x + (unsigned)size / 3, h, v & 2 ? h * 9 / 10 : h * 3 / 4}; }
static u64 text_hash(const Obj &o) { return fnv(3, o.text.data(), o.text.size()); }
int glyph_mask(const std::string &family, int size, int style, int order, const std::string &u8, int c, int x, int y) {
    Font f = font(family, size); if (x < 0 || y < 0 || x >= (int)(2 * f.cw + 1) || y >= (int)f.ch) return 0;
    if (u8 == " ") return 0;
    u64 h = mix64(mix64(fnv(fnv(3, u8.data(), u8.size()), family.data(), family.size()), (u64)size * 64 + (style & 1 ? 1 : style) * 16 + order), (u64)y * 64 + x);
    h >>= 8 + 16 * c; unsigned v = h & 0xffff;
    return v & 1 ? 0 : v & 2 ? 255 : (v >> 8);
}
static int bearing(const Obj &o) { return (int)(text_hash(o) % 5) - 2; }
static void show(cairo_t *cr, Obj *o) {
    Font f = font(o->family, o->size); double px, py; cairo_get_current_point(cr, &px, &py);
    double r = 0, g = 0, b = 0, a = 0; bool white = cairo_pattern_get_rgba(cairo_get_source(cr), &r, &g, &b, &a) == CAIRO_STATUS_SUCCESS && r == 1 && g == 1 && b == 1 && a == 1;
    cairo_surface_t *s = cairo_get_target(cr); cairo_surface_flush(s);
    u8 *d = cairo_image_surface_get_data(s); int st = cairo_image_surface_get_stride(s), w = cairo_image_surface_get_width(s), h = cairo_image_surface_get_height(s); cairo_format_t fm = cairo_image_surface_get_format(s);
    int ox = (int)px + bearing(*o), oy = (int)py - (int)f.base;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        int m[3]; for (int c = 0; c < 3; ++c) { m[c] = glyph_mask(o->family, o->size, o->style, o->order + 8 * o->aa, o->text, c, x - ox, y - oy); if (!white) m[c] = m[c] * 3 / 4; }
        if (fm == CAIRO_FORMAT_A1) { if (m[0] >= 128) d[y * st + x / 8] |= 1 << x % 8; }
        else if (fm == CAIRO_FORMAT_A8) d[y * st + x] = m[0];
        else ((u32 *)(d + y * st))[x] = 0xff000000u | m[0] << 16 | m[1] << 8 | m[2];
    }
    cairo_surface_mark_dirty(s);
}
static void surface_gone(void *) { --surfaces; }
static std::unordered_map<void *, int> heap; static int live; static GObjectClass *base;
template <class T> static T *held(T *p) { if (p) ++heap[(void *)p]; return p; }
static void unheld(const void *p) { auto i = heap.find((void *)p); if (i != heap.end() && !--i->second) heap.erase(i); }
size_t things() { return heap.size(); }
int instances() { return live; }
static void area_finalize(GObject *o) { --live; base->finalize(o); }
static void area_init(GTypeInstance *, gpointer) { ++live; }
static void area_class(gpointer c, gpointer) { base = (GObjectClass *)g_type_class_peek_parent(c); ((GObjectClass *)c)->finalize = area_finalize; }

void reset() {
    srcs.clear(); for (auto c : chans) delete c; chans.clear(); next_id = 0; widgets.clear(); making = nullptr; key = {}; bad.clear(); clock_us = 5000000;
    for (auto &o : objs) { g_object_weak_unref((GObject *)o.first, gone, nullptr); delete o.second; } objs.clear(); surfaces = 0; heap.clear(); live = 0;
    defmap = (GObject *)make(0);
}
static Widget *of(void *t) { for (auto w : widgets) if (w->term == t) return w; if (making) { if (!making->term) making->term = (GtkTsmTerminal *)t; if (making->term == t) return making; } fprintf(stderr, "SIM-GOBJECT: a widget is used that does not exist\n"); abort(); }
static gboolean handled(GSignalInvocationHint *, GValue *acc, const GValue *ret, gpointer) { gboolean b = g_value_get_boolean(ret); g_value_set_boolean(acc, b); return !b; }
guint emit(GtkTsmTerminal *t, const char *sig, void *arg) { gboolean r = FALSE; g_signal_emit_by_name(t, sig, arg, &r); return r; }
}
using namespace seam;

extern "C" {
GType simg_gtk_drawing_area_get_type(void) {
    static GType t = 0;
    if (!t) {
        t = g_type_register_static_simple(G_TYPE_INITIALLY_UNOWNED, "SimDrawingArea", sizeof(GtkDrawingAreaClass), area_class, sizeof(GtkDrawingArea), area_init, (GTypeFlags)0);
        g_type_class_unref(g_type_class_ref(t));
        for (const char *s : {"configure-event", "draw", "key-press-event", "key-release-event", "button-press-event", "button-release-event", "motion-notify-event", "scroll-event", "focus-in-event", "focus-out-event"})
            g_signal_new(s, t, G_SIGNAL_RUN_LAST, 0, handled, nullptr, nullptr, G_TYPE_BOOLEAN, 1, G_TYPE_POINTER);
    }
    return t;
}
void simg_gtk_widget_queue_draw(GtkWidget *w) { Widget *x = of(w); x->dirty = true; ++x->queued; }
void simg_gtk_widget_queue_draw_area(GtkWidget *w, gint, gint, gint, gint) { simg_gtk_widget_queue_draw(w); }
void simg_gtk_widget_queue_draw_region(GtkWidget *w, const cairo_region_t *) { simg_gtk_widget_queue_draw(w); }
int simg_gtk_widget_get_allocated_width(GtkWidget *w) { return of(w)->w; }
int simg_gtk_widget_get_allocated_height(GtkWidget *w) { return of(w)->h; }
void simg_gtk_widget_get_allocation(GtkWidget *w, GtkAllocation *a) { *a = {0, 0, of(w)->w, of(w)->h}; }
void simg_gdk_window_invalidate_rect(GdkWindow *w, const GdkRectangle *, gboolean) { ((Widget *)w)->dirty = true; ++((Widget *)w)->queued; }
int simg_gdk_window_get_width(GdkWindow *w) { return ((Widget *)w)->w; }
int simg_gdk_window_get_height(GdkWindow *w) { return ((Widget *)w)->h; }
gint simg_gtk_widget_get_events(GtkWidget *w) { return of(w)->mask; }
void simg_gtk_widget_set_events(GtkWidget *w, gint m) { of(w)->mask = m; }
void simg_gtk_widget_grab_focus(GtkWidget *w) { of(w); }
gboolean simg_gtk_widget_get_realized(GtkWidget *w) { of(w); return TRUE; }
gboolean simg_gtk_widget_get_mapped(GtkWidget *w) { of(w); return TRUE; }
gboolean simg_gtk_widget_get_visible(GtkWidget *w) { of(w); return TRUE; }
GdkWindow *simg_gtk_widget_get_window(GtkWidget *w) { return (GdkWindow *)of(w); }
GdkDisplay *simg_gtk_widget_get_display(GtkWidget *w) { of(w); return (GdkDisplay *)&key; }
void simg_gtk_widget_set_can_focus(GtkWidget *w, gboolean b) { of(w)->focus = b; }
GdkEventMask simg_gdk_window_get_events(GdkWindow *w) { return (GdkEventMask)((Widget *)w)->mask; }
void simg_gdk_window_set_events(GdkWindow *w, GdkEventMask m) { ((Widget *)w)->mask = m; }
void simg_gtk_widget_add_events(GtkWidget *w, gint m) { of(w)->mask |= m; }
GdkKeymap *simg_gdk_keymap_get_for_display(GdkDisplay *d) { if (d != (GdkDisplay *)&key) misuse("keymap of another display"); return (GdkKeymap *)&key; }
gboolean simg_gdk_keymap_translate_keyboard_state(GdkKeymap *m, guint code, GdkModifierType state, gint group, guint *kv, gint *eg, gint *lv, GdkModifierType *cons) {
    if (m != (GdkKeymap *)&key || code != key.code || state != key.state || group != key.group) misuse("the keymap was asked about another key than the one pressed");
    if (kv) *kv = key.ok ? key.key : 0; if (eg) *eg = 0; if (lv) *lv = 0; if (cons) *cons = key.ok ? key.consumed : (GdkModifierType)0;
    return key.ok;
}
GIOChannel *simg_g_io_channel_unix_new(int fd) { Chan *c = new Chan{fd, 1}; chans.push_back(c); return (GIOChannel *)c; }
void simg_g_io_channel_unref(GIOChannel *c) { chan_unref((Chan *)c); }
GIOChannel *simg_g_io_channel_ref(GIOChannel *c) { ++((Chan *)c)->refs; return c; }
void simg_g_io_channel_set_close_on_unref(GIOChannel *, gboolean) {}
guint simg_g_io_add_watch_full(GIOChannel *c, gint prio, GIOCondition, GIOFunc f, gpointer d, GDestroyNotify n) { Src s; s.kind = IO; s.prio = prio; s.fd = ((Chan *)c)->fd; s.fn = (GCallback)f; s.data = d; s.chan = c; s.notify = n; ++((Chan *)c)->refs; return add(s); }
guint simg_g_io_add_watch(GIOChannel *c, GIOCondition m, GIOFunc f, gpointer d) { return simg_g_io_add_watch_full(c, 0, m, f, d, nullptr); }
guint simg_g_idle_add_full(gint prio, GSourceFunc f, gpointer d, GDestroyNotify n) { Src s; s.kind = IDLE; s.prio = prio; s.fn = (GCallback)f; s.data = d; s.notify = n; return add(s); }
guint simg_g_idle_add(GSourceFunc f, gpointer d) { return simg_g_idle_add_full(G_PRIORITY_DEFAULT_IDLE, f, d, nullptr); }
guint simg_g_timeout_add_full(gint prio, guint ms, GSourceFunc f, gpointer d, GDestroyNotify n) { Src s; s.kind = TIMER; s.prio = prio; s.fn = (GCallback)f; s.data = d; s.notify = n; s.every = (i64)ms * 1000; s.due = clock_us + s.every; return add(s); }
guint simg_g_timeout_add(guint ms, GSourceFunc f, gpointer d) { return simg_g_timeout_add_full(0, ms, f, d, nullptr); }
guint simg_g_child_watch_add_full(gint prio, GPid pid, GChildWatchFunc f, gpointer d, GDestroyNotify n) { Src s; s.kind = CHILD; s.prio = prio; s.pid = pid; s.fn = (GCallback)f; s.data = d; s.notify = n; return add(s); }
guint simg_g_child_watch_add(GPid pid, GChildWatchFunc f, gpointer d) { return simg_g_child_watch_add_full(0, pid, f, d, nullptr); }
gboolean simg_g_source_remove_by_user_data(gpointer d) { for (auto &s : srcs) if (s.data == d) return drop(s.id); return FALSE; }
gboolean simg_g_idle_remove_by_data(gpointer d) { for (auto &s : srcs) if (s.data == d && s.kind == IDLE) return drop(s.id); return FALSE; }
gboolean simg_g_source_remove(guint id) { if (drop(id)) return TRUE; misuse(fmt("source %u is removed but does not exist", id)); return FALSE; }
gchar *simg_g_strdup(const gchar *s) { return held(g_strdup(s)); }
gchar *simg_g_strndup(const gchar *s, gsize n) { return held(g_strndup(s, n)); }
gchar *simg_g_ucs4_to_utf8(const gunichar *s, glong n, glong *r, glong *w, GError **e) { return held(g_ucs4_to_utf8(s, n, r, w, e)); }
void simg_g_free(gpointer p) { unheld(p); g_free(p); }
void simg_g_value_take_string(GValue *v, gchar *s) { unheld(s); g_value_take_string(v, s); }
PangoFontDescription *simg_pango_font_description_from_string(const char *s) { return held(pango_font_description_from_string(s)); }
PangoFontDescription *simg_pango_font_description_new(void) { return held(pango_font_description_new()); }
PangoFontDescription *simg_pango_font_description_copy(const PangoFontDescription *d) { return held(pango_font_description_copy(d)); }
void simg_pango_font_description_free(PangoFontDescription *d) { unheld(d); pango_font_description_free(d); }
cairo_font_options_t *simg_cairo_font_options_create(void) { return held(cairo_font_options_create()); }
cairo_font_options_t *simg_cairo_font_options_copy(const cairo_font_options_t *o) { return held(cairo_font_options_copy(o)); }
void simg_cairo_font_options_destroy(cairo_font_options_t *o) { unheld(o); cairo_font_options_destroy(o); }
void simg_g_spawn_close_pid(GPid) {}
gint64 simg_g_get_monotonic_time(void) { return clock_us += 7; }
void simg_g_logv(const gchar *, GLogLevelFlags l, const gchar *f, va_list ap) {
    char b[512]; vsnprintf(b, sizeof b, f, ap);
    if (l & (G_LOG_LEVEL_ERROR | G_LOG_FLAG_FATAL)) { fprintf(stderr, "SIM-GERROR: the widget ends the application: %s\n", b); abort(); }
    if (l & (G_LOG_LEVEL_CRITICAL)) misuse(b);
}
void simg_g_log(const gchar *dom, GLogLevelFlags l, const gchar *f, ...) { va_list ap; va_start(ap, f); simg_g_logv(dom, l, f, ap); va_end(ap); }

PangoFontMap *simg_pango_cairo_font_map_get_default(void) { return (PangoFontMap *)defmap; }
PangoFontMap *simg_pango_cairo_font_map_new(void) { return (PangoFontMap *)make(0); }
PangoContext *simg_pango_font_map_create_context(PangoFontMap *m) { get(m, 0); return (PangoContext *)make(1); }
void simg_pango_context_set_base_dir(PangoContext *c, PangoDirection) { get(c, 1); }
void simg_pango_context_set_language(PangoContext *c, PangoLanguage *) { get(c, 1); }
void simg_pango_context_set_font_description(PangoContext *c, const PangoFontDescription *d) {
    Obj *o = get(c, 1); const char *f = pango_font_description_get_family(d); o->family = f ? f : "?";
    o->size = pango_font_description_get_size(d) / PANGO_SCALE; o->style = (pango_font_description_get_weight(d) >= PANGO_WEIGHT_SEMIBOLD ? 1 : 0) | (pango_font_description_get_style(d) != PANGO_STYLE_NORMAL ? 2 : 0);
}
void simg_pango_cairo_context_set_font_options(PangoContext *c, const cairo_font_options_t *f) { Obj *o = get(c, 1); o->order = cairo_font_options_get_subpixel_order(f); o->aa = cairo_font_options_get_antialias(f); }
PangoLayout *simg_pango_layout_new(PangoContext *c) { return (PangoLayout *)make(2, get(c, 1)); }
void simg_pango_layout_set_height(PangoLayout *l, int) { get(l, 2); }
void simg_pango_layout_set_width(PangoLayout *l, int) { get(l, 2); }
void simg_pango_layout_set_spacing(PangoLayout *l, int) { get(l, 2); }
void simg_pango_layout_set_text(PangoLayout *l, const char *t, int n) { get(l, 2)->text.assign(t, n < 0 ? strlen(t) : n); }
void simg_pango_layout_get_pixel_extents(PangoLayout *l, PangoRectangle *ink, PangoRectangle *log) {
    Obj *o = get(l, 2); Font f = font(o->family, o->size); int n = (int)o->text.size();
    PangoRectangle r = {bearing(*o), 0, n > 1 ? (int)f.cw * n - (o->size % 3 == 0 ? 0 : o->size % 3 == 1 ? n / 2 : n - 1) : (int)f.cw * n, (int)f.ch};
    if (log) *log = r; if (ink) *ink = {r.x + 1, 1, r.width - 2, r.height - 2};
}
void simg_pango_layout_get_pixel_size(PangoLayout *l, int *w, int *h) { PangoRectangle r; simg_pango_layout_get_pixel_extents(l, nullptr, &r); if (w) *w = r.width; if (h) *h = r.height; }
int simg_pango_layout_get_baseline(PangoLayout *l) { Obj *o = get(l, 2); return (int)font(o->family, o->size).base * PANGO_SCALE - 300; }
int simg_pango_layout_get_line_count(PangoLayout *l) { get(l, 2); return 1; }
PangoLayoutLine *simg_pango_layout_get_line_readonly(PangoLayout *l, int n) { Obj *o = get(l, 2); return n ? nullptr : (PangoLayoutLine *)o; }
PangoLayoutLine *simg_pango_layout_get_line(PangoLayout *l, int n) { return simg_pango_layout_get_line_readonly(l, n); }
void simg_pango_layout_line_get_pixel_extents(PangoLayoutLine *ln, PangoRectangle *ink, PangoRectangle *log) {
    Obj *o = (Obj *)ln; Font f = font(o->family, o->size); int b = bearing(*o);
    if (ink) *ink = {b + 1, 1 - (int)f.base, (int)f.cw - 2, (int)f.ch - 2}; if (log) *log = {b, -(int)f.base, (int)f.cw, (int)f.ch};
}
void simg_pango_cairo_update_context(cairo_t *, PangoContext *c) { get(c, 1); }
void simg_pango_cairo_update_layout(cairo_t *, PangoLayout *l) { get(l, 2); }
void simg_pango_cairo_show_layout_line(cairo_t *cr, PangoLayoutLine *ln) { show(cr, (Obj *)ln); }
void simg_pango_cairo_show_layout(cairo_t *cr, PangoLayout *l) { Obj *o = get(l, 2); cairo_rel_move_to(cr, 0, font(o->family, o->size).base); show(cr, o); }
cairo_surface_t *simg_cairo_image_surface_create_for_data(unsigned char *d, cairo_format_t f, int w, int h, int st) { cairo_surface_t *s = cairo_image_surface_create_for_data(d, f, w, h, st); ++surfaces; cairo_surface_set_user_data(s, &skey, (void *)1, surface_gone); return s; }
cairo_surface_t *simg_cairo_image_surface_create(cairo_format_t f, int w, int h) { cairo_surface_t *s = cairo_image_surface_create(f, w, h); ++surfaces; cairo_surface_set_user_data(s, &skey, (void *)1, surface_gone); return s; }
int simg_tsm_vte_new(struct tsm_vte **out, struct tsm_screen *con, tsm_vte_write_cb w, void *d, tsm_log_t log, void *ld) { int r = tsm_vte_new(out, con, w, d, log, ld); if (!r && making && !making->vte) making->vte = *out; return r; }
void simg_tsm_vte_input(struct tsm_vte *v, const char *u8, size_t n) { for (auto w : widgets) if (w->vte == v && w->input) w->input(u8, n); tsm_vte_input(v, u8, n); }
}
