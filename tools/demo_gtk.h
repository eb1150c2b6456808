/* The terminal widget without a display: the toolkit calls it makes are replaced
 * by the minimum below; glib, cairo and the pty are real. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <gtk/gtk.h>
#include <pango/pangocairo.h>

static unsigned queued, glyphs;		/* frames requested, glyphs rendered */
static guint key_val; static GdkModifierType key_used;

static GType area_type(void)
{
	static GType t; static const char *s[] = { "configure-event", "draw", "key-press-event", "button-press-event", "button-release-event", "motion-notify-event" };
	unsigned i;

	if (t)
		return t;
	t = g_type_register_static_simple(G_TYPE_INITIALLY_UNOWNED, "DemoArea", sizeof(GtkDrawingAreaClass), NULL, sizeof(GtkDrawingArea), NULL, 0);
	g_type_class_ref(t);
	for (i = 0; i < G_N_ELEMENTS(s); ++i)
		g_signal_new(s[i], t, G_SIGNAL_RUN_LAST, 0, g_signal_accumulator_true_handled, NULL, NULL, G_TYPE_BOOLEAN, 1, G_TYPE_POINTER);
	return t;
}
static void demo_queue(GtkWidget *w) { ++queued; }
static void *demo_wnd(void *w) { return w; }
static int demo_events(void *w) { return GDK_EXPOSURE_MASK; }
static void demo_nop() {}
static gboolean demo_key(GdkKeymap *m, guint c, GdkModifierType st, gint g, guint *kv, gint *eg, gint *lv, GdkModifierType *cons) { *kv = key_val; *cons = key_used; return TRUE; }
/* fonts: the size is the width of a cell, cells are twice as high */
static int font_size(void *o) { return GPOINTER_TO_INT(g_object_get_data(o, "size")); }
static void *demo_obj(void *from) { GObject *o = g_object_new(G_TYPE_OBJECT, NULL); if (from) g_object_set_data(o, "size", g_object_get_data(from, "size")); return o; }
static void demo_desc(void *c, const PangoFontDescription *d) { g_object_set_data(c, "size", GINT_TO_POINTER(pango_font_description_get_size(d) / PANGO_SCALE)); }
static void demo_text(void *l, const char *t, int n) { g_object_set_data_full(l, "text", g_strndup(t, n), g_free); g_object_set_data(l, "len", GINT_TO_POINTER(n)); }
static void demo_ext(void *l, PangoRectangle *i, PangoRectangle *r) { r->x = r->y = 0; r->width = font_size(l) * GPOINTER_TO_INT(g_object_get_data(l, "len")); r->height = 2 * font_size(l); }
static int demo_base(void *l) { return font_size(l) * 3 / 2 * PANGO_SCALE; }
static int demo_count(void *l) { return 1; }
static void *demo_line(void *l, int n) { return l; }
static void demo_lext(void *l, PangoRectangle *i, PangoRectangle *r) { r->x = 0; r->y = -font_size(l) * 3 / 2; r->width = font_size(l); r->height = 2 * font_size(l); }
static void demo_show(cairo_t *cr, void *l)
{	/* a full block */
	++glyphs;
	cairo_paint(cr);
}
#undef GTK_TYPE_DRAWING_AREA
#define GTK_TYPE_DRAWING_AREA area_type()
#define gtk_widget_queue_draw demo_queue
#define gtk_widget_get_window demo_wnd
#define gtk_widget_get_display demo_wnd
#define gdk_keymap_get_for_display demo_wnd
#define gdk_window_get_events demo_events
#define gdk_window_set_events demo_nop
#define gtk_widget_set_can_focus demo_nop
#define gdk_keymap_translate_keyboard_state demo_key
#define pango_cairo_font_map_get_default() demo_obj(NULL)
#define pango_font_map_create_context demo_obj
#define pango_context_set_base_dir demo_nop
#define pango_context_set_language demo_nop
#define pango_context_set_font_description demo_desc
#define pango_cairo_context_set_font_options demo_nop
#define pango_layout_new demo_obj
#define pango_layout_set_height demo_nop
#define pango_layout_set_spacing demo_nop
#define pango_layout_set_text demo_text
#define pango_layout_get_pixel_extents demo_ext
#define pango_layout_get_baseline demo_base
#define pango_layout_get_line_count demo_count
#define pango_layout_get_line_readonly demo_line
#define pango_layout_line_get_pixel_extents demo_lext
#define pango_cairo_update_context demo_nop
#define pango_cairo_show_layout_line demo_show
#define G_DISABLE_CAST_CHECKS
#include "gtktsm-terminal.c"

static GtkTsmTerminal *term;
static GtkTsmTerminalPrivate *priv;
static uint32_t px[200][200];	/* the window */
static unsigned win_w, win_h;
static int demo_failed;
#define CHECK(_x) do { if (!(_x)) { printf("line %d: %s\n", __LINE__, #_x); demo_failed = 1; } } while (0)
#define DONE() return demo_failed

static gboolean demo_emit(const char *sig, void *arg) { gboolean r = FALSE; g_signal_emit_by_name(term, sig, arg, &r); return r; }
static void demo_size(unsigned w, unsigned h)
{
	GdkEvent e = { 0 };

	e.configure.type = GDK_CONFIGURE; e.configure.width = win_w = w; e.configure.height = win_h = h;
	demo_emit("configure-event", &e);
}
static void demo_start(unsigned w, unsigned h, const char *font)
{
	alarm(60);
	term = g_object_ref_sink(g_object_new(GTKTSM_TYPE_TERMINAL, "font", font, "anti-aliasing", "gray", NULL));
	priv = gtktsm_terminal_get_instance_private(term);
	terminal_set_font(term);
	demo_size(w, h);
}
static void demo_frame(void)
{
	cairo_surface_t *s = cairo_image_surface_create_for_data((void*)px, CAIRO_FORMAT_RGB24, win_w, win_h, sizeof(px[0]));
	cairo_t *cr = cairo_create(s);

	queued = 0;
	demo_emit("draw", cr);
	cairo_destroy(cr);
	cairo_surface_destroy(s);
}
static uint32_t pix(unsigned x, unsigned y) { return px[y][x] & 0xffffff; }
static void demo_out(const char *s) { tsm_vte_input(priv->vte, s, strlen(s)); gtk_widget_queue_draw(GTK_WIDGET(term)); }
static gboolean demo_press(guint val, guint state)
{
	GdkEvent e = { 0 };

	key_val = val; key_used = 0;
	e.key.type = GDK_KEY_PRESS; e.key.keyval = val; e.key.state = state;
	return demo_emit("key-press-event", &e);
}
static void demo_mouse(int type, double x, double y, guint32 time)
{
	GdkEvent e = { 0 };

	if (type == GDK_MOTION_NOTIFY) {
		e.motion.type = type; e.motion.x = x; e.motion.y = y; e.motion.time = time;
		demo_emit("motion-notify-event", &e);
		return;
	}
	e.button.type = type; e.button.button = 1; e.button.x = x; e.button.y = y; e.button.time = time;
	demo_emit(type == GDK_BUTTON_RELEASE ? "button-release-event" : "button-press-event", &e);
}
