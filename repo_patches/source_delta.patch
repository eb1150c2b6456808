From ab9637c5861f679bb292fe5631bb65a46779757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 01/58] fix: screen: do not shift cells out of bounds in insert
 mode

The check compared against "size_x - len" in unsigned arithmetic, so a wide
character written in insert mode on a one-column screen wrapped around and
memmove() was called with a huge length.
---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..99bcb4c 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -404,7 +404,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From e503865a4ff13ea02c7cf7b2f87947b1d30b9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 02/58] fix: screen: back-tab from a pending wrap must not read
 past the tab ruler

A cursor that waits behind the last column is at size_x; wide characters can
even put it at size_x + 1. Start looking for tab stops from the last column.
---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 99bcb4c..befba83 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1358,6 +1358,9 @@ void tsm_screen_tab_left(struct tsm_screen *con, unsigned int num)
 	screen_inc_age(con);
 
 	x = con->cursor_x;
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+
 	for (i = 0; i < num; ++i) {
 		for (j = x - 1; j > 0; --j) {
 			if (con->tab_ruler[j])
-- 
2.43.0


From 4664ba4a20f093b199f32b3b86e267e25c8ac791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 03/58] fix: vte: do not read past the CSI argument array on
 SGR 38/48

An extended color selector in the last of the 16 argument slots read
csi_argv[16].
---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..8361682 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1380,6 +1380,10 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
+			if (i + 1 >= vte->csi_argc) {
+				llog_debug(vte, "invalid SGR");
+				break;
+			}
 			if (vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
-- 
2.43.0


From 51bdeae8000ca7c4ad2e4bb95e0ab05482fc594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 04/58] fix: vte: do not sign-extend input bytes in 8bit mode

On platforms with a signed char every GR byte was handed to the parser as
0xffffffXX instead of 0xXX, so neither GR characters nor C1 controls worked
in 8bit mode.
---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 8361682..b44361d 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2526,7 +2526,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (unsigned char)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From 540a9974913bfc6ae7a08fada5046d911c5ca05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 05/58] fix: vte: do not apply the origin-mode offset to
 absolute cursor positions

DECRC, the 1048/1049 cursor restore, CHA and VPR take the current or saved
position from the screen, which is absolute, and passed it to
tsm_screen_move_to(), which adds the top margin again while origin mode is
set. So in origin mode these moved the cursor down by the top margin.
---
 src/tsm/tsm-vte.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index b44361d..2e0cd1d 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -752,10 +752,21 @@ static void save_state(struct tsm_vte *vte)
 	vte->saved_state.origin_mode = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
 }
 
+/* Move the cursor to a position that was obtained from the screen, that is, a
+ * position that is always relative to the screen, never to the margins. */
+static void move_to_abs(struct tsm_vte *vte, unsigned int x, unsigned int y)
+{
+	if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+		tsm_screen_reset_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+	tsm_screen_move_to(vte->con, x, y);
+	if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+		tsm_screen_set_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+}
+
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
+	move_to_abs(vte, vte->saved_state.cursor_x,
+		    vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -1676,8 +1687,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				vte->alt_cursor_y =
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1695,8 +1706,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
@@ -1837,7 +1848,10 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, x, y + num);
+		if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+			tsm_screen_move_down(vte->con, num, false);
+		else
+			move_to_abs(vte, x, y + num);
 		break;
 	case 'F': /* CPL */
 		/* Move cursor up the indicated # of rows, to column 1 */
@@ -1864,7 +1878,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		move_to_abs(vte, num - 1, y);
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From 447c5b95aed4a5c704eec4829bc651cd63d0bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 06/58] fix: unicode: reject overlong UTF-8 sequences

The check for C0 and C1 never matched as the byte was sign-extended, and
overlong three and four byte sequences were not checked for at all. So for
example E0 80 9B was decoded as the C1 control CSI and C1 81 as an ASCII 'A'.
---
 src/tsm/tsm-unicode.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..d2395be 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (unsigned char)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -536,14 +536,14 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT3:
 		mach->ch |= (c & 0x3F) << 12;
-		if ((c & 0xC0) == 0x80)
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x10000)
 			mach->state = TSM_UTF8_EXPECT2;
 		else
 			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
-		if ((c & 0xC0) == 0x80)
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x800)
 			mach->state = TSM_UTF8_EXPECT1;
 		else
 			mach->state = TSM_UTF8_REJECT;
-- 
2.43.0


From 3741f23775a2ea93c67134ad8be20df4fccf5f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 07/58] fix: vte: do not execute unknown private sequences as
 the plain ones

Private markers and intermediates were ignored by most functions, or not even
recorded. So for example "CSI > 4 ; 2 m" (set key modifier options) was
executed as SGR, "CSI ? 1 r" (restore DEC mode) as set margins, "CSI SP A" as
cursor up, "CSI < M" as delete line and "ESC # 8" (screen alignment test) as
restore cursor.
---
 src/tsm/tsm-vte.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 2e0cd1d..c1c5e0b 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* CSI: any other marker/intermediate */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1010,6 +1011,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
@@ -1791,11 +1795,38 @@ static void csi_dsr(struct tsm_vte *vte)
 static void do_csi(struct tsm_vte *vte, uint32_t data)
 {
 	int num, x, y, upper, lower;
+	unsigned int flags;
 	bool protect;
 
 	if (vte->csi_argc < CSI_ARG_MAX)
 		vte->csi_argc++;
 
+	/* Private markers and intermediates select a different function. Do not
+	 * mistake functions that we don't know for the plain ones. */
+	switch (data) {
+	case 'J':
+	case 'K':
+	case 'h':
+	case 'l':
+	case 'n':
+		flags = CSI_WHAT;
+		break;
+	case 'c':
+		flags = CSI_GT;
+		break;
+	case 'p':
+		flags = vte->csi_flags;
+		break;
+	default:
+		flags = 0;
+		break;
+	}
+	if (vte->csi_flags & ~flags) {
+		llog_debug(vte, "unhandled CSI sequence %c with flags %x",
+			   data, vte->csi_flags);
+		return;
+	}
+
 	switch (data) {
 	case 'A': /* CUU */
 		/* move cursor up */
-- 
2.43.0


From 33c2f98f52aa4f977333f6e1aa37cf7a29045ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 08/58] fix: vte: hard reset must also reset the alternate
 screen

A hard reset left the contents of the alternate screen and the cursor saved by
modes 1048/1049 in place, so a later "CSI ? 47 h" showed text from before the
reset and "CSI ? 1048 l" moved the cursor to a stale position. Initialize the
alternate screen of a new terminal with the default colors as well.
---
 src/tsm/tsm-vte.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index c1c5e0b..7ce2fd1 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -456,6 +456,15 @@ static void copy_bcolor(struct tsm_screen_attr *dest,
 	dest->bb = src->bb;
 }
 
+/* erase main and alternate screen; requires the main screen to be active */
+static void vte_erase_screens(struct tsm_vte *vte)
+{
+	tsm_screen_set_flags(vte->con, TSM_SCREEN_ALTERNATE);
+	tsm_screen_erase_screen(vte->con, false);
+	tsm_screen_reset_flags(vte->con, TSM_SCREEN_ALTERNATE);
+	tsm_screen_erase_screen(vte->con, false);
+}
+
 SHL_EXPORT
 int tsm_vte_new(struct tsm_vte **out, struct tsm_screen *con,
 		tsm_vte_write_cb write_cb, void *data,
@@ -494,7 +503,7 @@ int tsm_vte_new(struct tsm_vte **out, struct tsm_screen *con,
 		goto err_free;
 
 	tsm_vte_reset(vte);
-	tsm_screen_erase_screen(vte->con, false);
+	vte_erase_screens(vte);
 
 	llog_debug(vte, "new vte object");
 	tsm_screen_ref(vte->con);
@@ -843,7 +852,9 @@ void tsm_vte_hard_reset(struct tsm_vte *vte)
 		return;
 
 	tsm_vte_reset(vte);
-	tsm_screen_erase_screen(vte->con, false);
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
+	vte_erase_screens(vte);
 	tsm_screen_clear_sb(vte->con);
 	tsm_screen_move_to(vte->con, 0, 0);
 }
-- 
2.43.0


From 43e4d285ad536d2c20e90c4643bb789f60ec0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 09/58] fix: screen: use the current default colors for cells
 exposed by a resize

Cells of the main screen were initialized with the attributes saved when the
alternate screen was entered last, or with all zero if it never was.
---
 src/tsm/tsm-screen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index befba83..4303add 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -605,6 +605,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	unsigned int i, j, width, diff, start;
 	int ret;
 	bool *tab_ruler;
+	struct tsm_screen_attr *def_attr;
 
 	if (!con || !x || !y)
 		return -EINVAL;
@@ -686,6 +687,12 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	start = x;
 	if (x > con->size_x)
 		start = con->size_x;
+
+	/* the main screen's attributes are only saved while in alt screen */
+	def_attr = &con->def_attr;
+	if (con->flags & TSM_SCREEN_ALTERNATE)
+		def_attr = &con->def_attr_main;
+
 	for (j = 0; j < con->line_num; ++j) {
 		/* main-lines may go into SB, so clear all cells */
 		i = 0;
@@ -694,7 +701,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				def_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From eda4b9dffe4c610fd00017b2d367d38eee8787f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 10/58] fix: screen: keep the reported scrollback position in
 step with the view

---
 src/tsm/tsm-screen.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 4303add..9e5126a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -230,13 +230,16 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 		if (con->sb_pos) {
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
+				/* the next line takes over the index of its
+				 * predecessor as the top-most line is gone */
 				if (con->sb_pos->next) {
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
 				} else {
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
+					con->sb_pos_num = con->sb_count;
 				}
+			} else {
+				--con->sb_pos_num;
 			}
 		}
 
@@ -807,6 +810,8 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else if (con->sb_pos)
+			--con->sb_pos_num;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -821,6 +826,9 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		line_free(line);
 	}
 
+	if (!con->sb_pos)
+		con->sb_pos_num = con->sb_count;
+
 	con->sb_max = max;
 }
 
@@ -938,7 +946,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
-- 
2.43.0


From c07fc87a69b8a927347e58ad80600b724f945e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 11/58] fix: render: a selection end above the scrollback
 matches no visible line

---
 src/tsm/tsm-render.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..b04b8c9 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -100,13 +100,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
-			    (!con->sel_start.line &&
+			    (!con->sel_start.line && k > 0 &&
 			     con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
-			    (!con->sel_end.line &&
+			    (!con->sel_end.line && k > 0 &&
 			     con->sel_end.y == k - 1))
 				sel_end = true;
 			else
-- 
2.43.0


From e4ba08f2c09ed784ec12a07e36b36cfa5260c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 12/58] fix: screen: keep selection ends on their lines when
 scrolling up

---
 src/tsm/tsm-screen.c | 62 ++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 9e5126a..fbfb2f0 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -272,6 +272,42 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 	}
 }
 
+/* Line @y is about to leave the screen at the top. Attach selection-ends on it
+ * to @line if it moves into the scrollback buffer. If it is dropped (@line is
+ * NULL), the selection starts at the first remaining line. */
+static void selection_scroll_out(struct tsm_screen *con, int y,
+				 struct line *line, int first)
+{
+	struct selection_pos *start = &con->sel_start, *end = &con->sel_end;
+	bool on_start, on_end;
+
+	if (!con->sel_active)
+		return;
+
+	on_start = !start->line && start->y == y;
+	on_end = !end->line && end->y == y;
+
+	if (line) {
+		if (on_start) {
+			start->line = line;
+			start->y = SELECTION_TOP;
+		}
+		if (on_end) {
+			end->line = line;
+			end->y = SELECTION_TOP;
+		}
+	} else if (on_start && on_end) {
+		start->y = SELECTION_TOP;
+		end->y = SELECTION_TOP;
+	} else if (on_start) {
+		start->x = 0;
+		start->y = first;
+	} else if (on_end) {
+		end->x = 0;
+		end->y = first;
+	}
+}
+
 static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 {
 	unsigned int i, j, max, pos;
@@ -306,8 +342,11 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 			ret = -EAGAIN;
 
 		if (!ret) {
+			selection_scroll_out(con, pos, con->lines[pos], 0);
 			link_to_scrollback(con, con->lines[pos]);
 		} else {
+			selection_scroll_out(con, pos, NULL, (i + 1 < max) ?
+					     pos + 1 : con->margin_top);
 			cache[i] = con->lines[pos];
 			for (j = 0; j < con->size_x; ++j)
 				screen_cell_init(con, &cache[i]->cells[j]);
@@ -324,24 +363,15 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 	       cache, num * sizeof(struct line*));
 
 	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0) {
+		pos = con->margin_top + num;
+		if (!con->sel_start.line &&
+		    con->sel_start.y >= (int)pos &&
+		    con->sel_start.y <= (int)con->margin_bottom)
 			con->sel_start.y -= num;
-			if (con->sel_start.y < 0) {
-				con->sel_start.line = con->sb_last;
-				while (con->sel_start.line && ++con->sel_start.y < 0)
-					con->sel_start.line = con->sel_start.line->prev;
-				con->sel_start.y = SELECTION_TOP;
-			}
-		}
-		if (!con->sel_end.line && con->sel_end.y >= 0) {
+		if (!con->sel_end.line &&
+		    con->sel_end.y >= (int)pos &&
+		    con->sel_end.y <= (int)con->margin_bottom)
 			con->sel_end.y -= num;
-			if (con->sel_end.y < 0) {
-				con->sel_end.line = con->sb_last;
-				while (con->sel_end.line && ++con->sel_end.y < 0)
-					con->sel_end.line = con->sel_end.line->prev;
-				con->sel_end.y = SELECTION_TOP;
-			}
-		}
 	}
 }
 
-- 
2.43.0


From ef01668f1dfae7cd9bb4e7f317b30ea6549eb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 13/58] fix: selection: clamp selected positions to the screen

---
 src/tsm/tsm-selection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..f9a2df2 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -66,6 +66,12 @@ static void selection_set(struct tsm_screen *con, struct selection_pos *sel,
 {
 	struct line *pos;
 
+	/* there is nothing to select beyond the screen */
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	sel->line = NULL;
 	pos = con->sb_pos;
 
-- 
2.43.0


From 7222cd4c55b4de8cf26ba9087cbb50bcd1a63816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 14/58] fix: selection: order the ends of a selection correctly

---
 src/tsm/tsm-selection.c | 68 +++++++++--------------------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index f9a2df2..3b6d9b8 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -196,63 +196,25 @@ static void swap_selections(struct selection_pos **a, struct selection_pos **b)
  */
 static void norm_selection(struct tsm_screen *con, struct selection_pos **start, struct selection_pos **end)
 {
-	struct line *iter;
-	struct selection_pos *buffer;
-
-	if ((*end)->line == NULL && (*end)->y == SELECTION_TOP) {
-		swap_selections(start, end);
-
-		return;
-	}
+	bool swap;
 
-	if ((*start)->line && (*end)->line) {
-		/* single line selection */
-		if ((*start)->line == (*end)->line) {
-			if ((*start)->x > (*end)->x) {
-				swap_selections(start, end);
-			}
-
-			return;
-		}
-
-		/*
-		 * multi line selection
-		 *
-		 * search from end->line to con->sb_last
-		 * if we find start->line on the way we
-		 * need to change start and end
-		*/
-		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
-			if (iter == (*start)->line) {
-				swap_selections(start, end);
-			}
-
-			iter = iter->next;
-		}
-
-		return;
-	}
-
-	/* end is in scroll back buffer and start on screen */
-	if (!(*start)->line && (*end)->line) {
-		swap_selections(start, end);
-		return;
-	}
-
-	/* reorder one-line selection if selection was created right to left */
-	if ((*start)->y == (*end)->y) {
-		if ((*start)->x > (*end)->x) {
-			swap_selections(start, end);
-		}
-
-		return;
+	if (!(*start)->line != !(*end)->line) {
+		/* the scroll back buffer is above the screen, but a cut-off
+		 * selection end is above everything */
+		if ((*start)->line)
+			swap = (*end)->y == SELECTION_TOP;
+		else
+			swap = (*start)->y != SELECTION_TOP;
+	} else if ((*start)->line && (*start)->line != (*end)->line) {
+		swap = (*start)->line->sb_id > (*end)->line->sb_id;
+	} else if (!(*start)->line && (*start)->y != (*end)->y) {
+		swap = (*start)->y > (*end)->y;
+	} else {
+		swap = (*start)->x > (*end)->x;
 	}
 
-	/* reorder multi-line selection if selection was created bottom to top */
-	if ((*start)->y > (*end)->y) {
+	if (swap)
 		swap_selections(start, end);
-	}
 }
 
 /*
-- 
2.43.0


From 79d240c3798683698fa5fa2f8070613f167a9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 15/58] fix: selection: copy blanks as spaces and keep one
 output line per row

---
 src/tsm/tsm-selection.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 3b6d9b8..0a051a3 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -139,7 +139,7 @@ static unsigned int calc_line_len(struct line *line)
 	int i;
 
 	for (i = 0; i < line->size; i++) {
-		if (line->cells[i].ch != 0) {
+		if (line->cells[i].ch != 0 && line->cells[i].width != 0) {
 			line_len = i + 1;
 		}
 	}
@@ -158,10 +158,6 @@ static unsigned int copy_line(struct line *line, char *buf,
 	int line_len;
 
 	line_len = calc_line_len(line);
-	if (start > line_len) {
-		return 0;
-	}
-
 	end = start + len;
 
 	if (end > line_len) {
@@ -169,7 +165,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* skip the right halves of wide characters */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
-- 
2.43.0


From a26bfdc7ee7b9bbb5019f1d653183e27e8678bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 16/58] fix: selection: stay inside the screen and the buffer
 when copying

---
 src/tsm/tsm-selection.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 0a051a3..768b722 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -258,6 +258,12 @@ static int selection_count_lines(struct selection_pos *start, struct selection_p
 		return 0;
 	}
 
+	/* everything on screen above the end is selected if the selection
+	 * starts in the scroll back buffer */
+	if (start->line) {
+		return end->y + 1;
+	}
+
 	return end->y - start->y + 1;
 }
 
@@ -316,8 +322,8 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
  */
 static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
-	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// 4 is the max size of a Unicode character, each line has a line break
+	return (con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
@@ -364,7 +370,7 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 		return pos;
 	}
 
-	for (i = start->y; i <= end->y; i++) {
+	for (i = start->line ? 0 : start->y; i <= end->y; i++) {
 		line_len = calc_selection_line_len(con, start, end, i);
 
 		line_x = 0;
@@ -408,7 +414,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
-		return 0;
+		return *out ? 0 : -ENOMEM;
 	}
 
 	norm_selection(con, &start, &end);
@@ -423,6 +429,17 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 		}
 	}
 
+	/* the screen may have become smaller in the meantime */
+	if (!start->line && start->y >= (int)con->size_y) {
+		start->y = con->size_y - 1;
+	}
+	if (!end->line && end->y >= (int)con->size_y) {
+		end->y = con->size_y - 1;
+	}
+	if (end->x >= con->size_x) {
+		end->x = con->size_x - 1;
+	}
+
 	total_lines =  selection_count_lines_sb(con, start, end);
 	total_lines += selection_count_lines(start, end);
 	buf_size = calc_line_copy_buffer(con, total_lines);
-- 
2.43.0


From b8c95295b94daf0c937c25b4560fc2c35e29b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 17/58] fix: screen: drop both selection ends if nothing
 remains selected

---
 src/tsm/tsm-screen.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index fbfb2f0..6f3eaab 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -272,6 +272,26 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 	}
 }
 
+/* The line of selection-end @sel is gone. If the other end is above it, nothing
+ * but the scrollback buffer can remain selected. Otherwise, the selection now
+ * starts at line @first. */
+static void selection_drop_end(struct tsm_screen *con,
+			       struct selection_pos *sel,
+			       struct selection_pos *other, int first)
+{
+	if (other->line || (other->y == SELECTION_TOP && con->sb_last &&
+			    !(con->flags & TSM_SCREEN_ALTERNATE))) {
+		sel->line = con->sb_last;
+		sel->x = con->size_x - 1;
+		sel->y = SELECTION_TOP;
+	} else if (other->y == SELECTION_TOP) {
+		sel->y = SELECTION_TOP;
+	} else {
+		sel->x = 0;
+		sel->y = first;
+	}
+}
+
 /* Line @y is about to leave the screen at the top. Attach selection-ends on it
  * to @line if it moves into the scrollback buffer. If it is dropped (@line is
  * NULL), the selection starts at the first remaining line. */
@@ -300,11 +320,9 @@ static void selection_scroll_out(struct tsm_screen *con, int y,
 		start->y = SELECTION_TOP;
 		end->y = SELECTION_TOP;
 	} else if (on_start) {
-		start->x = 0;
-		start->y = first;
+		selection_drop_end(con, start, end, first);
 	} else if (on_end) {
-		end->x = 0;
-		end->y = first;
+		selection_drop_end(con, end, start, first);
 	}
 }
 
-- 
2.43.0


From 24f6ddedd592dc34915013dc7ebbef4871048faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 18/58] fix: selection: a cut-off selection in the alternate
 screen starts on screen

---
 src/tsm/tsm-selection.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 768b722..b39c39d 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -420,7 +420,9 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	norm_selection(con, &start, &end);
 
 	if (start->line == NULL && start->y == SELECTION_TOP) {
-		if (con->sb_first != NULL) {
+		/* the alternate screen does not use the scroll back buffer */
+		if (con->sb_first != NULL &&
+		    (end->line || !(con->flags & TSM_SCREEN_ALTERNATE))) {
 			start->line = con->sb_first;
 			start->x = 0;
 		} else {
-- 
2.43.0


From 8753188c65968d88fdb322d715e0638c90b9106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 19/58] fix: screen: a resize changes the whole picture

---
 src/tsm/tsm-screen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 6f3eaab..b8b73d2 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -733,6 +733,8 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	}
 
 	screen_inc_age(con);
+	/* TODO: more sophisticated ageing */
+	con->age = con->age_cnt;
 
 	/* clear expansion/padding area */
 	start = x;
-- 
2.43.0


From 1827f3c4af9b30a348cb1954c07eec616d0cad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 20/58] fix: selection: ignore stale cells beyond the screen
 width

---
 src/tsm/tsm-selection.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index b39c39d..0c1312e 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -132,13 +132,14 @@ void tsm_screen_selection_target(struct tsm_screen *con,
 	selection_set(con, &con->sel_end, posx, posy);
 }
 
-/* calculates the line length from the beginning to the last non zero character */
-static unsigned int calc_line_len(struct line *line)
+/* calculates the line length from the beginning to the last non zero character
+ * on the screen */
+static unsigned int calc_line_len(struct tsm_screen *con, struct line *line)
 {
 	unsigned int line_len = 0;
 	int i;
 
-	for (i = 0; i < line->size; i++) {
+	for (i = 0; i < line->size && i < con->size_x; i++) {
 		if (line->cells[i].ch != 0 && line->cells[i].width != 0) {
 			line_len = i + 1;
 		}
@@ -150,14 +151,15 @@ static unsigned int calc_line_len(struct line *line)
 /* TODO: tsm_ucs4_to_utf8 expects UCS4 characters, but a cell contains a
  * tsm-symbol (which can contain multiple UCS4 chars). Fix this when introducing
  * support for combining characters. */
-static unsigned int copy_line(struct line *line, char *buf,
+static unsigned int copy_line(struct tsm_screen *con,
+			      struct line *line, char *buf,
 			      unsigned int start, unsigned int len)
 {
 	unsigned int i, end;
 	char *pos = buf;
 	int line_len;
 
-	line_len = calc_line_len(line);
+	line_len = calc_line_len(con, line);
 	end = start + len;
 
 	if (end > line_len) {
@@ -346,7 +348,7 @@ static int copy_lines_sb(struct tsm_screen *con, struct selection_pos *start, st
 		}
 
 		line_len = calc_selection_line_len_sb(con, start, end, iter);
-		pos += copy_line(iter, &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, iter, &(buf[pos]), line_x, line_len);
 
 		if (iter == con->sb_last || iter == end->line) {
 			break;
@@ -378,7 +380,7 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 			line_x = start->x;
 		}
 
-		pos += copy_line(con->lines[i], &(buf[pos]), line_x, line_len);
+		pos += copy_line(con, con->lines[i], &(buf[pos]), line_x, line_len);
 	}
 
 	return pos;
-- 
2.43.0


From 37a32b29651c571dc3bf815c8caede16196e5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 21/58] fix: screen: redraw cells beyond short lines when
 default attributes change

---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8b73d2..511209b 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1023,6 +1023,10 @@ void tsm_screen_set_def_attr(struct tsm_screen *con,
 {
 	if (!con || !attr)
 		return;
+
+	/* cells beyond the end of short lines are drawn with these attributes */
+	screen_inc_age(con);
+
 	memcpy(&con->def_attr, attr, sizeof(*attr));
 }
 
-- 
2.43.0


From 8c9dbebe54720cae76eb45bf3f7ff8472444a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 22/58] fix: vte: report the last column while a wrap is
 pending

---
 src/tsm/tsm-vte.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 7ce2fd1..52f650a 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1795,6 +1795,9 @@ static void csi_dsr(struct tsm_vte *vte)
 	} else if (vte->csi_argv[0] == 6) {
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
+		/* with a pending wrap, the cursor is on the last column */
+		if (x >= tsm_screen_get_width(vte->con))
+			x = tsm_screen_get_width(vte->con) - 1;
 		len = snprintf(buf, sizeof(buf), "\e[%u;%uR", y + 1, x + 1);
 		if (len >= sizeof(buf))
 			vte_write(vte, "\e[0;0R", 6);
-- 
2.43.0


From f3bbd4e65a93729d6fe8bae5c5072bac5a309376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 23/58] fix: vte: map everything beyond ASCII to '?' in 7bit
 mode

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 52f650a..eefd055 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3157,7 +3157,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From d7d74e7b3df19dcf725aac2340467b71f9d89c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 24/58] fix: vte: send the Alt prefix with its key only

---
 src/tsm/tsm-vte.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index eefd055..d5e4926 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -706,18 +706,21 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 	}
 #endif
 
+	/* The ESC belongs to this data only. Local echo might reset the VTE or
+	 * cause further writes, so drop the flag before parsing anything. */
+	bool prepend = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (prepend)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (prepend)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From 66f8ae336b310c878f46a25e73e6e535c2f76c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 25/58] fix: vte: truncate long OSC strings without holes

---
 src/tsm/tsm-vte.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index d5e4926..4d67355 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -169,6 +169,7 @@ struct tsm_vte {
 	tsm_vte_osc_cb osc_cb;
 	void *osc_data;
 	unsigned int osc_len;
+	bool osc_full;
 	char osc_arg[OSC_MAX_LEN];
 
 	tsm_vte_mouse_cb mouse_cb;
@@ -986,6 +987,7 @@ static void do_clear(struct tsm_vte *vte)
 	vte->csi_flags = 0;
 
 	vte->osc_len = 0;
+	vte->osc_full = false;
 	memset(vte->osc_arg, 0, sizeof(vte->osc_arg));
 }
 
@@ -2117,7 +2119,9 @@ static uint32_t vte_map(struct tsm_vte *vte, uint32_t val)
 static void do_osc_collect(struct tsm_vte *vte, uint32_t val) {
 	char buf[4];
 	int len = tsm_ucs4_to_utf8(val, buf);
-	if (vte->osc_len + len > sizeof(vte->osc_arg) - 1) {
+	/* truncate; do not append later characters that might fit again */
+	if (vte->osc_full || vte->osc_len + len > sizeof(vte->osc_arg) - 1) {
+		vte->osc_full = true;
 		return;
 	}
 
-- 
2.43.0


From 3bffea704b1b72c44cb8881996c9f588f236fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 26/58] fix: vte: hard reset drops the selection

---
 src/tsm/tsm-vte.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 4d67355..0efb16e 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -859,6 +859,7 @@ void tsm_vte_hard_reset(struct tsm_vte *vte)
 	vte->alt_cursor_x = 0;
 	vte->alt_cursor_y = 0;
 	vte_erase_screens(vte);
+	tsm_screen_selection_reset(vte->con);
 	tsm_screen_clear_sb(vte->con);
 	tsm_screen_move_to(vte->con, 0, 0);
 }
-- 
2.43.0


From 0325e7b802f8f122966df27c0fac804d43c7ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 27/58] fix: vte: keep the mouse callback in step with the
 requested tracking

---
 src/tsm/tsm-vte.c | 51 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 0efb16e..c175999 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -805,6 +805,19 @@ static void restore_state(struct tsm_vte *vte)
 	}
 }
 
+/* Tell the application which mouse events it should pass on. Without a
+ * protocol nothing can be reported, so there is nothing to track, either. */
+static void mouse_notify(struct tsm_vte *vte)
+{
+	if (!vte->mouse_cb)
+		return;
+
+	vte->mouse_cb(vte, vte->mouse_mode ? vte->mouse_event
+					   : TSM_MOUSE_TRACK_DISABLE,
+		      vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL,
+		      vte->mouse_data);
+}
+
 /*
  * Reset VTE state
  * This performs a soft reset of the VTE. That is, everything is reset to the
@@ -814,9 +827,13 @@ static void restore_state(struct tsm_vte *vte)
 SHL_EXPORT
 void tsm_vte_reset(struct tsm_vte *vte)
 {
+	bool tracking;
+
 	if (!vte)
 		return;
 
+	tracking = vte->mouse_mode && vte->mouse_event;
+
 	vte->flags = 0;
 	vte->flags |= TSM_VTE_FLAG_TEXT_CURSOR_MODE;
 	vte->flags |= TSM_VTE_FLAG_AUTO_REPEAT_MODE;
@@ -841,6 +858,8 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
 	vte->mouse_last_row = 0;
+	if (tracking)
+		mouse_notify(vte);
 
 	memcpy(&vte->cattr, &vte->def_attr, sizeof(vte->cattr));
 	to_rgb(vte, &vte->cattr);
@@ -1642,11 +1661,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			continue;
 		case TSM_VTE_MOUSE_MODE_X10:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-			vte->mouse_event = TSM_VTE_MOUSE_EVENT_BTN;
-
-			if (vte->mouse_cb) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
-			}
+			vte->mouse_event = set ? TSM_VTE_MOUSE_EVENT_BTN : 0;
+			mouse_notify(vte);
 			continue;
 		case 12: /* blinking cursor */
 			/* TODO: implement */
@@ -1739,33 +1755,20 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			    vte->mouse_event = set ? vte->csi_argv[i] : 0;
 			}
 
-			if (vte->mouse_cb && vte->mouse_mode) {
-			    vte->mouse_cb(vte, vte->mouse_event, vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL, vte->mouse_data);
-			}
+			if (vte->mouse_mode)
+			    mouse_notify(vte);
 			continue;
 		case TSM_VTE_MOUSE_MODE_SGR:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
 
-			if (!vte->mouse_cb) {
-			    continue;
-			}
-
-			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
-			    continue;
-			}
+			if (!set || vte->mouse_event)
+			    mouse_notify(vte);
 			continue;
 		case TSM_VTE_MOUSE_MODE_PIXEL:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
 
-			if (!vte->mouse_cb) {
-			    continue;
-			}
-
-			if (!set || vte->mouse_event) {
-			    vte->mouse_cb(vte, vte->mouse_event, set, vte->mouse_data);
-			    continue;
-			}
+			if (!set || vte->mouse_event)
+			    mouse_notify(vte);
 			continue;
 		default:
 			llog_debug(vte, "unknown DEC %set-Mode %d",
-- 
2.43.0


From 2b177736552b4240094947de1240a4218be47728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 28/58] fix: vte: encode the mouse wheel in X10 mode

---
 src/tsm/tsm-vte.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index c175999..511770c 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3206,18 +3206,18 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		return false;
 	}
 
+	if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
+		button = 64;
+	} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
+		button = 65;
+	}
+
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_SGR || vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL) {
 		/* internally we use zero indexing but the xterm spec requires the
 		 * top left cell to have the coordinates 1,1 */
 		cell_x++;
 		cell_y++;
 
-		if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
-			button = 64;
-		} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
-			button = 65;
-		}
-
 		reply_flags = button | modifiers;
 	}
 
-- 
2.43.0


From da477c67973bcefb350d0553d720da6ad8247bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 29/58] fix: vte: do not truncate mouse reports with large
 coordinates

---
 src/tsm/tsm-vte.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 511770c..ec6f155 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3197,7 +3197,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[48];
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3259,7 +3259,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			vte->mouse_last_row = cell_y;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
@@ -3269,7 +3269,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			pressed = true;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
-- 
2.43.0


From 845e6662138bafbad7774a6e652ce47e53f40c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 30/58] fix: re-arm a pty in the bridge when it could not be
 dispatched completely

The pty is already in the epoll set, so EPOLL_CTL_ADD always failed with
EEXIST and the edge-triggered event was lost: pending data stayed where it
was until the client happened to write again.
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..5aa1152 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From 9725fa7a5f5d0b35a4cf6361fffa03f892589622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 31/58] fix: reschedule the pty dispatcher when queued output
 is left

pty_write() reports with -EAGAIN that it stopped before the kernel's buffer
was full, but shl_pty_dispatch() dropped this, so with edge-triggered events
the rest of the queue was never written.
---
 src/shared/shl-pty.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 5aa1152..830e897 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -392,14 +392,16 @@ static int pty_read(struct shl_pty *pty)
 
 int shl_pty_dispatch(struct shl_pty *pty)
 {
-	int r;
+	int r, w;
 
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
-	return r;
+	w = pty_write(pty);
+
+	/* reschedule the dispatcher also if there is more to write */
+	return r ? r : (w == -EAGAIN ? w : 0);
 }
 
 int shl_pty_write(struct shl_pty *pty, const char *u8, size_t len)
-- 
2.43.0


From 9c23b2c7c786a9c79faceede43de8c7bb3d3e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 32/58] fix: open ptys also while the standard streams are
 closed

Without open standard streams the write end of the setup pipe becomes
descriptor 2 and is overwritten when the slave is made stderr. The child then
wrote its message to the terminal, and the parent reported failure for a
child that went on.
---
 src/shared/shl-pty.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 830e897..68a2861 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -234,6 +234,13 @@ pid_t shl_pty_open(struct shl_pty **out,
 		free(pty);
 		pty = NULL;
 
+		/* move the pipe out of the way of the std-fds */
+		if (comm[1] <= STDERR_FILENO) {
+			comm[1] = fcntl(comm[1], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+			if (comm[1] < 0)
+				exit(1);
+		}
+
 		r = pty_setup_child(slave, term_width, term_height);
 		if (r < 0)
 			exit(1);
-- 
2.43.0


From 6f476981cc02b2ea402ff265123ee7c5aa3d7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 33/58] fix: give up in the child if the parent cannot be told

The parent reports failure then, so the child must not go on as if the pty had
been opened.
---
 src/shared/shl-pty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 68a2861..c1f3ce0 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -250,8 +250,10 @@ pid_t shl_pty_open(struct shl_pty **out,
 			close(slave);
 
 		/* wake parent */
-		pty_send(comm[1], SHL_PTY_SETUP);
+		r = pty_send(comm[1], SHL_PTY_SETUP);
 		close(comm[1]);
+		if (r < 0)
+			exit(1);
 
 		*out = NULL;
 		return pid;
-- 
2.43.0


From df302d7096876661e2092e3d2266637b9d49ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 34/58] fix: unicode: number symbols in step with the index of
 the symbol table

The first symbol got the ID of the second index entry, so every lookup
returned the text of the next symbol, or the default character.
---
 src/tsm/tsm-unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index d2395be..fccb88a 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,7 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
-- 
2.43.0


From 6510f48016b2e05929bae4176f1fe0bcd4a76f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 35/58] fix: unicode: free the whole symbol when it cannot be
 stored

---
 src/tsm/tsm-unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index fccb88a..4225fab 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -307,7 +307,7 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	free(--nval);
 	return sym;
 }
 
-- 
2.43.0


From aeeee13ac90755b9eba91969ab1d7d1a8e9fef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 36/58] fix: keep the selection in place when only other lines
 are scrolled down

Scrolling down moved both ends of a selection even if they were outside of
the scrolling region, or moved them off the screen.
---
 src/tsm/tsm-screen.c | 55 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 511209b..b094b12 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -393,6 +393,54 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 	}
 }
 
+/* The lines inside of the margins have been moved down by @num lines. Move
+ * selection-end @sel along, and return true if its line is gone. */
+static bool selection_move_down(struct tsm_screen *con,
+				struct selection_pos *sel, unsigned int num)
+{
+	if (sel->line || sel->y < (int)con->margin_top ||
+	    sel->y > (int)con->margin_bottom)
+		return false;
+
+	sel->y += num;
+	return sel->y > (int)con->margin_bottom;
+}
+
+/* The line of selection-end @sel left the screen at the bottom margin. Cut the
+ * selection off there. */
+static void selection_cut_bottom(struct tsm_screen *con,
+				 struct selection_pos *sel,
+				 struct selection_pos *other)
+{
+	if (!other->line && other->y > (int)con->margin_bottom) {
+		sel->x = 0;
+		sel->y = con->margin_bottom + 1;
+	} else {
+		sel->x = con->size_x - 1;
+		sel->y = con->margin_bottom;
+	}
+}
+
+static void selection_scroll_down(struct tsm_screen *con, unsigned int num)
+{
+	bool start_gone, end_gone;
+
+	if (!con->sel_active)
+		return;
+
+	start_gone = selection_move_down(con, &con->sel_start, num);
+	end_gone = selection_move_down(con, &con->sel_end, num);
+
+	if (start_gone && end_gone) {
+		con->sel_start.y = SELECTION_TOP;
+		con->sel_end.y = SELECTION_TOP;
+	} else if (start_gone) {
+		selection_cut_bottom(con, &con->sel_start, &con->sel_end);
+	} else if (end_gone) {
+		selection_cut_bottom(con, &con->sel_end, &con->sel_start);
+	}
+}
+
 static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 {
 	unsigned int i, j, max;
@@ -429,12 +477,7 @@ static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 	memcpy(&con->lines[con->margin_top],
 	       cache, num * sizeof(struct line*));
 
-	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0)
-			con->sel_start.y += num;
-		if (!con->sel_end.line && con->sel_end.y >= 0)
-			con->sel_end.y += num;
-	}
+	selection_scroll_down(con, num);
 }
 
 static void screen_write(struct tsm_screen *con, unsigned int x,
-- 
2.43.0


From 8f45e7b7680361974845d155132e984821317ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 37/58] fix: screen: erase the whole rest of the line for huge
 counts

---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b094b12..37e4c91 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1668,6 +1668,9 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	if (num > con->size_x - x)
+		num = con->size_x - x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 01b3847f6a62b99dddbe5a5e324cdd4c4d9fd481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 38/58] fix: screen: keep huge rows inside the margins in
 origin mode

---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 37e4c91..37e0879 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1306,6 +1306,10 @@ void tsm_screen_move_to(struct tsm_screen *con, unsigned int x,
 	if (x >= con->size_x)
 		x = con->size_x - 1;
 
+	/* the offset of the origin must not overflow */
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	y = to_abs_y(con, y);
 	if (y > last)
 		y = last;
-- 
2.43.0


From f23ea1e5e523536548b64de8fd9e4676ec5b0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 39/58] fix: array: zero all entries added by
 shl_array_zresize()

New entries were only zeroed if the array had to be reallocated; entries
that fit into the allocated memory kept whatever was there before.
---
 src/shared/shl-array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index f776807..1928419 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -115,10 +115,11 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 		arr->data = tmp;
 		arr->size = newsize;
+	}
 
+	if (size > arr->length)
 		memset(((uint8_t*)arr->data) + arr->element_size * arr->length,
 		       0, arr->element_size * (size - arr->length));
-	}
 
 	arr->length = size;
 	return 0;
-- 
2.43.0


From 43f892f37b6ca3ad33d0391d91159fbedede8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 40/58] fix: SHL_ALIGN_POWER2: return 0 on overflow as
 documented

Shifting by 64 is undefined and yields 1 on common machines, so that
shl_ring_push() of an impossible size shrank the buffer to one byte and
wrote behind it instead of returning -ENOMEM.
---
 src/shared/shl-macro.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/shl-macro.h b/src/shared/shl-macro.h
index 67607bd..875580a 100644
--- a/src/shared/shl-macro.h
+++ b/src/shared/shl-macro.h
@@ -141,6 +141,11 @@ static inline void shl_set_errno(int *r)
 /* align to next higher power-of-2 (except for: 0 => 0, overflow => 0) */
 static inline size_t SHL_ALIGN_POWER2(size_t u)
 {
+	if (!u || u > (SIZE_MAX >> 1) + 1)
+		return 0;
+	if (u == 1)
+		return 1;
+
 	return 1ULL << ((sizeof(u) * 8ULL) - __builtin_clzll(u - 1ULL));
 }
 
-- 
2.43.0


From 07834af4b21be77fbb00b5071bfb64441145ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 41/58] fix: gtktsm: display pending output of an exiting child

---
 src/gtktsm/gtktsm-terminal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 8afa0af..adb6ad3 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1959,10 +1959,18 @@ static void terminal_child_fn(GPid pid,
 {
 	GtkTsmTerminal *term = data;
 	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
+	unsigned int i;
 
 	g_spawn_close_pid(pid);
 	p->child_src = 0;
 
+	/* Display everything the child wrote before it exited. Limit this, as
+	 * other processes might still be writing to the pty. */
+	for (i = 0; i < 128; ++i) {
+		if (shl_pty_dispatch(p->pty) != -EAGAIN)
+			break;
+	}
+
 	shl_pty_bridge_remove(p->pty_bridge, p->pty);
 	shl_pty_close(p->pty);
 	shl_pty_unref(p->pty);
-- 
2.43.0


From e2ca81337a5aee0b26053b95bfaa0ad82f032bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 42/58] fix: gtktsm: resize screen and pty when the cell size
 changes

---
 src/gtktsm/gtktsm-terminal.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index adb6ad3..3d6707a 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1180,6 +1180,22 @@ static void terminal_recalculate_cells(GtkTsmTerminal *term,
 		p->rows = 1;
 }
 
+static void terminal_resize_grid(GtkTsmTerminal *term)
+{
+	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
+	int r;
+
+	r = tsm_screen_resize(p->screen, p->columns, p->rows);
+	if (r < 0)
+		g_error("tsm_screen_resize() failed: %d", r);
+
+	if (p->pty) {
+		r = shl_pty_resize(p->pty, p->columns, p->rows);
+		if (r < 0)
+			g_error("shl_pty_resize() failed: %d", r);
+	}
+}
+
 static void terminal_set_font(GtkTsmTerminal *term)
 {
 	GtkTsmTerminalPrivate *p = gtktsm_terminal_get_instance_private(term);
@@ -1242,7 +1258,11 @@ static void terminal_set_font(GtkTsmTerminal *term)
 	if (r < 0)
 		p->face_bold_italic = NULL;
 
+	/* the cell size might have changed, so adjust the grid */
 	terminal_recalculate_cells(term, p->width, p->height);
+	if (p->realized)
+		terminal_resize_grid(term);
+
 	gtk_widget_queue_draw(GTK_WIDGET(term));
 }
 
@@ -1264,15 +1284,7 @@ static gboolean terminal_configure_fn(GtkWidget *widget,
 	if (r < 0)
 		g_error("gtktsm_renderer_resize() failed: %d", r);
 
-	r = tsm_screen_resize(p->screen, p->columns, p->rows);
-	if (r < 0)
-		g_error("tsm_screen_resize() failed: %d", r);
-
-	if (p->pty) {
-		r = shl_pty_resize(p->pty, p->columns, p->rows);
-		if (r < 0)
-			g_error("shl_pty_resize() failed: %d", r);
-	}
+	terminal_resize_grid(term);
 
 	if (!p->realized) {
 		p->realized = true;
-- 
2.43.0


From 70d9cefabd3519a90df57fd115e94e5d119f5a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 43/58] fix: gtktsm: redraw all cells after a font change

---
 src/gtktsm/gtktsm-terminal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 3d6707a..b6b7e34 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1263,6 +1263,8 @@ static void terminal_set_font(GtkTsmTerminal *term)
 	if (p->realized)
 		terminal_resize_grid(term);
 
+	/* all cells have to be rendered again */
+	p->rend->age = 0;
 	gtk_widget_queue_draw(GTK_WIDGET(term));
 }
 
-- 
2.43.0


From bc5955642267c6c8db2dc81fade53475a255e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 44/58] fix: gtktsm: select from the first cell left of and
 above the widget

---
 src/gtktsm/gtktsm-terminal.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index b6b7e34..6bec135 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1432,6 +1432,12 @@ static gboolean terminal_key_fn(GtkWidget *widget,
 	return FALSE;
 }
 
+/* the pointer can be left of or above the widget while a button is held */
+static unsigned int terminal_to_cell(gdouble pos, unsigned int cell_size)
+{
+	return pos > 0 ? pos / cell_size : 0;
+}
+
 static gboolean terminal_button_fn(GtkWidget *widget,
 				   GdkEvent *ev,
 				   gpointer data)
@@ -1459,15 +1465,15 @@ static gboolean terminal_button_fn(GtkWidget *widget,
 		p->sel = 2;
 		/* TODO: select word */
 		tsm_screen_selection_start(p->screen,
-					   e->x / cell_width,
-					   e->y / cell_height);
+					   terminal_to_cell(e->x, cell_width),
+					   terminal_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_3BUTTON_PRESS) {
 		p->sel = 2;
 		/* TODO: select line */
 		tsm_screen_selection_start(p->screen,
-					   e->x / cell_width,
-					   e->y / cell_height);
+					   terminal_to_cell(e->x, cell_width),
+					   terminal_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_BUTTON_RELEASE) {
 		if (p->sel == 1 && p->sel_start + 100 > e->time) {
@@ -1506,14 +1512,14 @@ static gboolean terminal_motion_fn(GtkWidget *widget,
 		    fabs(p->sel_y - e->y) > 3) {
 			p->sel = 2;
 			tsm_screen_selection_start(p->screen,
-						   p->sel_x / cell_width,
-						   p->sel_y / cell_height);
+						   terminal_to_cell(p->sel_x, cell_width),
+						   terminal_to_cell(p->sel_y, cell_height));
 			gtk_widget_queue_draw(GTK_WIDGET(term));
 		}
 	} else {
 		tsm_screen_selection_target(p->screen,
-					    e->x / cell_width,
-					    e->y / cell_height);
+					    terminal_to_cell(e->x, cell_width),
+					    terminal_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	}
 
-- 
2.43.0


From 2564c9d0a661238bdc674d873098530bd259f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 45/58] fix: gtktsm: do not draw over the right half of wide
 characters

---
 src/gtktsm/gtktsm-terminal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 6bec135..08f3df7 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -956,6 +956,10 @@ static int renderer_draw_cell(struct tsm_screen *screen,
 	bool skip;
 	int r;
 
+	/* right half of a wide character, drawn together with its left half */
+	if (!cwidth)
+		return 0;
+
 	/* Skip if our age and the cell age is non-zero *and* the cell-age is
 	 * smaller than our age. */
 	skip = age && rend->age && age <= rend->age;
-- 
2.43.0


From b3910870c41fa3287abbff0c08a1ccbfae09931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 46/58] fix: gtktsm: remove dirty-cell highlights when they are
 turned off

---
 src/gtktsm/gtktsm-terminal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 08f3df7..c3ce48e 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1749,6 +1749,8 @@ static void terminal_set_property(GObject *gobj,
 		break;
 	case TERMINAL_PROP_SHOW_DIRTY:
 		p->show_dirty = g_value_get_boolean(val);
+		/* redraw all cells to remove the highlights again */
+		p->rend->age = 0;
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 		break;
 	case TERMINAL_PROP_DEBUG:
-- 
2.43.0


From c0655f3d95417aa1235f6fb4e8318fe8c04695f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 47/58] fix: gtktsm: clear the remains of half overwritten wide
 characters

---
 src/gtktsm/gtktsm-terminal.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index c3ce48e..c83be68 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -523,6 +523,7 @@ struct gtktsm_renderer {
 	uint8_t *data;
 	cairo_surface_t *surface;
 	tsm_age_t age;
+	unsigned int wide_end;
 };
 
 struct gtktsm_renderer_ctx {
@@ -956,9 +957,19 @@ static int renderer_draw_cell(struct tsm_screen *screen,
 	bool skip;
 	int r;
 
-	/* right half of a wide character, drawn together with its left half */
-	if (!cwidth)
-		return 0;
+	if (posx && posx < rend->wide_end) {
+		/* right half of a wide character, drawn with its left half */
+		if (!cwidth)
+			return 0;
+		/* cut off the right half, which may just have been drawn */
+		age = 0;
+	} else if (!cwidth) {
+		/* half of a wide character that is gone, nothing to draw */
+		cwidth = 1;
+		len = 0;
+		age = 0;
+	}
+	rend->wide_end = posx + cwidth;
 
 	/* Skip if our age and the cell age is non-zero *and* the cell-age is
 	 * smaller than our age. */
-- 
2.43.0


From db61f67e122b116d6206e12f1f09afdf24c7efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 48/58] fix: gtktsm: redraw after changing the scrollback size

---
 src/gtktsm/gtktsm-terminal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index c83be68..65baa5f 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1731,6 +1731,7 @@ static void terminal_set_property(GObject *gobj,
 	case TERMINAL_PROP_SB_SIZE:
 		p->prop_sb_size = g_value_get_uint(val);
 		tsm_screen_set_max_sb(p->screen, p->prop_sb_size);
+		gtk_widget_queue_draw(GTK_WIDGET(term));
 		break;
 	case TERMINAL_PROP_ANTI_ALIASING:
 		update_font = true;
-- 
2.43.0


From f97b5a02170cd495828e35524c5899417c525925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 49/58] fix: gtktsm: recognize clicks while the event time
 wraps

---
 src/gtktsm/gtktsm-terminal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gtktsm/gtktsm-terminal.c b/src/gtktsm/gtktsm-terminal.c
index 65baa5f..d20726d 100644
--- a/src/gtktsm/gtktsm-terminal.c
+++ b/src/gtktsm/gtktsm-terminal.c
@@ -1491,7 +1491,7 @@ static gboolean terminal_button_fn(GtkWidget *widget,
 					   terminal_to_cell(e->y, cell_height));
 		gtk_widget_queue_draw(GTK_WIDGET(term));
 	} else if (e->type == GDK_BUTTON_RELEASE) {
-		if (p->sel == 1 && p->sel_start + 100 > e->time) {
+		if (p->sel == 1 && e->time - p->sel_start < 100) {
 			tsm_screen_selection_reset(p->screen);
 			gtk_widget_queue_draw(GTK_WIDGET(term));
 		} else if (p->sel > 1) {
-- 
2.43.0


From cde0b77346c05d23faa6bafb174a1c51f94d6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 50/58] fix: highlight selections whose ends are beyond the
 right border

After the screen has become narrower, an end of the selection may lie beyond
the right border. Drawing never reached that column, so the highlight was
missing, or was turned on there and not off again, and covered everything up to
the bottom of the screen. Account for such ends at the end of their line.
---
 src/tsm/tsm-render.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index b04b8c9..45e6d1b 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -189,6 +189,15 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 						   "suppressing further warnings during this rendering round");
 			}
 		}
+
+		/* the screen may have become smaller since the selection was
+		 * made, so its ends may be beyond the right border */
+		if (con->sel_active) {
+			if (sel_start && con->sel_start.x >= con->size_x)
+				in_sel = !in_sel;
+			if (sel_end && con->sel_end.x >= con->size_x)
+				in_sel = !in_sel;
+		}
 	}
 
 	if (con->age_reset) {
-- 
2.43.0


From d268f8375bf7e5bba10f07a9c70da9efbcf7c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 51/58] fix: vte: leaving the alternate screen never erases the
 main screen

---
 src/tsm/tsm-vte.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index ec6f155..f159a9a 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1709,7 +1709,11 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				tsm_screen_set_flags(vte->con,
 						     TSM_SCREEN_ALTERNATE);
 			} else {
-				tsm_screen_erase_screen(vte->con, false);
+				/* never erase the main screen */
+				if (tsm_screen_get_flags(vte->con) &
+				    TSM_SCREEN_ALTERNATE)
+					tsm_screen_erase_screen(vte->con,
+								false);
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
 			}
-- 
2.43.0


From 03f60826abd3a0afcc6a9f945234dc8638a01bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:58 +0000
Subject: [PATCH 52/58] fix: vte: do not execute unknown sequences with several
 intermediates as known ones

---
 src/tsm/tsm-vte.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f159a9a..2981971 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1082,13 +1082,14 @@ static void do_param(struct tsm_vte *vte, uint32_t data)
 
 static bool set_charset(struct tsm_vte *vte, tsm_vte_charset *set)
 {
-	if (vte->csi_flags & CSI_POPEN)
+	/* further intermediates select sets that we do not know */
+	if (vte->csi_flags == CSI_POPEN)
 		vte->g0 = set;
-	else if (vte->csi_flags & CSI_PCLOSE)
+	else if (vte->csi_flags == CSI_PCLOSE)
 		vte->g1 = set;
-	else if (vte->csi_flags & CSI_MULT)
+	else if (vte->csi_flags == CSI_MULT)
 		vte->g2 = set;
-	else if (vte->csi_flags & CSI_PLUS)
+	else if (vte->csi_flags == CSI_PLUS)
 		vte->g3 = set;
 	else
 		return false;
@@ -1170,7 +1171,7 @@ static void do_esc(struct tsm_vte *vte, uint32_t data)
 			return;
 		break;
 	case 'F':
-		if (vte->csi_flags & CSI_SPACE) {
+		if (vte->csi_flags == CSI_SPACE) {
 			/* S7C1T */
 			/* Disable 8bit C1 mode */
 			vte->flags &= ~TSM_VTE_FLAG_USE_C1;
@@ -1178,7 +1179,7 @@ static void do_esc(struct tsm_vte *vte, uint32_t data)
 		}
 		break;
 	case 'G':
-		if (vte->csi_flags & CSI_SPACE) {
+		if (vte->csi_flags == CSI_SPACE) {
 			/* S8C1T */
 			/* Enable 8bit C1 mode */
 			vte->flags |= TSM_VTE_FLAG_USE_C1;
@@ -1842,7 +1843,11 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		flags = CSI_GT;
 		break;
 	case 'p':
-		flags = vte->csi_flags;
+		/* each of these selects a function of its own */
+		flags = 0;
+		if (vte->csi_flags == CSI_GT || vte->csi_flags == CSI_BANG ||
+		    vte->csi_flags == CSI_CASH || vte->csi_flags == CSI_DQUOTE)
+			flags = vte->csi_flags;
 		break;
 	default:
 		flags = 0;
-- 
2.43.0


From 03e9dc7cfbb9ead77e089d7dd64dd4dff00e1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 53/58] fix: shl-pty: reschedule pending writes also if reading
 fails

If the terminal is closed on the slave side, reading fails with EIO while
writing still works. The read error hid the -EAGAIN that tells the caller
that a write was interrupted or that there is more to write, so the rest
was never written, not even after the terminal was opened again.
---
 src/shared/shl-pty.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index c1f3ce0..3b28df8 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -409,8 +409,9 @@ int shl_pty_dispatch(struct shl_pty *pty)
 	r = pty_read(pty);
 	w = pty_write(pty);
 
-	/* reschedule the dispatcher also if there is more to write */
-	return r ? r : (w == -EAGAIN ? w : 0);
+	/* reschedule the dispatcher also if there is more to write, even if
+	 * there is nobody to read from at the moment */
+	return w == -EAGAIN ? w : r;
 }
 
 int shl_pty_write(struct shl_pty *pty, const char *u8, size_t len)
-- 
2.43.0


From e972f36ff66213d10c85faa4d5a4deec3cdfd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 54/58] fix: shl-pty: reset all signal handlers in the child

The loop stopped before SIGSYS, so if the application ignores SIGSYS or a
real-time signal, the program on the pty started with it being ignored.
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 3b28df8..ec80a25 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -146,7 +146,7 @@ static int pty_init_child(int fd)
 	if (r < 0)
 		return -errno;
 
-	for (i = 1; i < SIGSYS; ++i)
+	for (i = 1; i < NSIG; ++i)
 		signal(i, SIG_DFL);
 
 	r = grantpt(fd);
-- 
2.43.0


From a6f49f7d983eda81e37406981a89e5c6fd1533d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:54 +0000
Subject: [PATCH 55/58] fix: selection: compute the size of the copy buffer
 without overflow

The number of lines times the screen width was computed with 32 bits, so
copying a long history on a wide screen overran the buffer or failed.
Count what the selected lines can actually hold.
---
 src/tsm/tsm-selection.c | 60 ++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 0c1312e..1d32db7 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -220,23 +220,39 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 }
 
 /*
- * Counts the lines a normalized selection selects on the scroll back buffer
+ * Calculate the maximum needed space for a line
+ */
+static size_t calc_line_copy_buffer(struct tsm_screen *con, struct line *line)
+{
+	size_t len = line->size;
+
+	if (len > con->size_x) {
+		len = con->size_x;
+	}
+
+	// 4 is the max size of a Unicode character, each line has a line break
+	return len * 4 + 1;
+}
+
+/*
+ * Calculate the maximum needed space for the lines a normalized selection
+ * selects on the scroll back buffer
  *
  * Does not count the lines selected on the screen
  */
-static int selection_count_lines_sb(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
+static size_t calc_copy_buffer_sb(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
 {
 	struct line *iter;
-	int count = 0;
+	size_t size = 0;
 
 	/* Single line selection */
 	if (start->line && (start->line == end->line)) {
-		return 1;
+		return calc_line_copy_buffer(con, start->line);
 	}
 
 	iter = start->line;
 	while (iter) {
-		count++;
+		size += calc_line_copy_buffer(con, iter);
 
 		if (iter == con->sb_last) {
 			break;
@@ -245,16 +261,20 @@ static int selection_count_lines_sb(struct tsm_screen *con, struct selection_pos
 		iter = iter->next;
 	}
 
-	return count;
+	return size;
 }
 
 /*
- * Counts the lines a normalized selection selects on the screen
+ * Calculate the maximum needed space for the lines a normalized selection
+ * selects on the screen
  *
  * Does not count the lines selected in the scroll back buffer
  */
-static int selection_count_lines(struct selection_pos *start, struct selection_pos *end)
+static size_t calc_copy_buffer(struct tsm_screen *con, struct selection_pos *start, struct selection_pos *end)
 {
+	size_t size = 0;
+	int i;
+
 	/* Selection only spans lines of the scroll back buffer */
 	if (start->line && end->line) {
 		return 0;
@@ -262,11 +282,11 @@ static int selection_count_lines(struct selection_pos *start, struct selection_p
 
 	/* everything on screen above the end is selected if the selection
 	 * starts in the scroll back buffer */
-	if (start->line) {
-		return end->y + 1;
+	for (i = start->line ? 0 : start->y; i <= end->y; i++) {
+		size += calc_line_copy_buffer(con, con->lines[i]);
 	}
 
-	return end->y - start->y + 1;
+	return size;
 }
 
 /*
@@ -319,15 +339,6 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
 	return con->size_x;
 }
 
-/*
- * Calculate the maximum needed space for the number of lines given
- */
-static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
-{
-	// 4 is the max size of a Unicode character, each line has a line break
-	return (con->size_x * 4 + 1) * num_lines + 1;
-}
-
 /*
  * Copy all selected lines from the scroll back buffer
  */
@@ -391,9 +402,8 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 {
 	struct selection_pos *start, *end;
 	struct selection_pos start_copy, end_copy;
-	int buf_size = 0;
+	size_t buf_size;
 	int pos = 0;
-	int total_lines;
 
 	if (!con || !out) {
 		return -EINVAL;
@@ -444,9 +454,9 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 		end->x = con->size_x - 1;
 	}
 
-	total_lines =  selection_count_lines_sb(con, start, end);
-	total_lines += selection_count_lines(start, end);
-	buf_size = calc_line_copy_buffer(con, total_lines);
+	buf_size =  calc_copy_buffer_sb(con, start, end);
+	buf_size += calc_copy_buffer(con, start, end);
+	buf_size += 1;
 
 	*out = calloc(buf_size, 1);
 	if (!*out) {
-- 
2.43.0


From 3c472a56a7a8d297b9810bac382075b840d645eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:20 +0000
Subject: [PATCH 56/58] fix: screen: do not overflow when scrolling by many
 pages

---
 src/tsm/tsm-screen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 37e0879..d4c76d9 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1014,6 +1015,10 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 	if (!con || !num)
 		return;
 
+	/* this is further than anyone can scroll, but must not overflow */
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
+
 	screen_inc_age(con);
 	tsm_screen_sb_up(con, num * con->size_y);
 }
@@ -1024,6 +1029,10 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 	if (!con || !num)
 		return;
 
+	/* this is further than anyone can scroll, but must not overflow */
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
+
 	screen_inc_age(con);
 	tsm_screen_sb_down(con, num * con->size_y);
 }
-- 
2.43.0


From e3344e4de82f42fef5e6f8f39d58601494b53b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:10 +0000
Subject: [PATCH 57/58] fix: shl-array: refuse sizes that overflow

An impossible size made zresize() free or shrink the array and then write
beyond it.
---
 src/shared/shl-array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index 1928419..d83fc47 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -54,6 +54,8 @@ static inline int shl_array_new(struct shl_array **out, size_t element_size,
 
 	if (!initial_size)
 		initial_size = 4;
+	if (initial_size > SIZE_MAX / element_size)
+		return -ENOMEM;
 
 	arr = malloc(sizeof(*arr));
 	if (!arr)
@@ -109,6 +111,10 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 	if (size > arr->size) {
 		newsize = shl_array_pow2(size);
+		/* no memory can hold sizes that overflow */
+		if (!newsize || newsize > SIZE_MAX / arr->element_size)
+			return -ENOMEM;
+
 		tmp = realloc(arr->data, arr->element_size * newsize);
 		if (!tmp)
 			return -ENOMEM;
-- 
2.43.0


From 4bf25aaf31d90bd53a899e55a8a0481364f02316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:34 +0000
Subject: [PATCH 58/58] fix: pty: survive an input callback that drops the last
 reference

---
 src/shared/shl-pty.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index ec80a25..b271b1b 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -406,8 +406,11 @@ int shl_pty_dispatch(struct shl_pty *pty)
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
+	/* the input callback may close the pty and drop the last reference */
+	shl_pty_ref(pty);
 	r = pty_read(pty);
 	w = pty_write(pty);
+	shl_pty_unref(pty);
 
 	/* reschedule the dispatcher also if there is more to write, even if
 	 * there is nobody to read from at the moment */
@@ -487,8 +490,9 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 	if (bridge < 0 || !pty)
 		return -EINVAL;
 
+	shl_pty_ref(pty);
 	r = shl_pty_dispatch(pty);
-	if (r == -EAGAIN) {
+	if (r == -EAGAIN && shl_pty_is_open(pty)) {
 		/* EAGAIN means we couldn't dispatch data fast enough. Modify
 		 * the fd in the epoll-set so we get edge-triggered events
 		 * next round. */
@@ -500,6 +504,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
+	shl_pty_unref(pty);
 
 	return 0;
 }
-- 
2.43.0

