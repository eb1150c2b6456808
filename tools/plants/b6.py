V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"; U="src/tsm/tsm-unicode.c"; SE="src/tsm/tsm-selection.c"
HT="src/shared/shl-htable.c"; RG="src/shared/shl-ring.c"; AR="src/shared/shl-array.h"
H='#include "common.h"\n'

P("c01-empty-echo","C01",[(V,"""	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
""","""	++vte->parse_cnt;
	if (!len)
		return;

	for (i = 0; i < len; ++i) {
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e[12l");
	feedn("", 0);
	tsm_vte_handle_keyboard(vte, 'a', 'a', 0, 'a');
	ROW(0, "a");
	DONE();
}
""","an empty read, then keys in local echo mode","keys are never echoed again after an empty chunk of input")

P("c01-mode-hoist","C01",[(V,"""	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
			if (u8[i] & 0x80)""","""	unsigned int mode = vte->flags;

	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
		if (vte->state == STATE_GROUND)
			mode |= vte->flags;
		if (mode & TSM_VTE_FLAG_7BIT_MODE) {
			if (u8[i] & 0x80)""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e[61\"p\e[60\"p\xc3\xa9");
	draw();
	CHECK(grid[0][0] == 0xe9, "%x", grid[0][0]);
	DONE();
}
""","a compatibility level set and reset within one read, followed by a non-ASCII character","the rest of the chunk is read in 7bit mode")

P("c03-dcs-enq","C03",[(V,"""	case STATE_DCS_PASS:
		switch (raw) {
		case 0x00 ... 0x17:
		case 0x19:
		case 0x1c ... 0x1f:
		case 0x20 ... 0x7e:
			do_trans(vte, raw, STATE_NONE, ACTION_DCS_COLLECT);
			return;
""","""	case STATE_DCS_PASS:
		switch (raw) {
		case 0x0e:
		case 0x0f:
			/* shifts are valid everywhere */
			do_trans(vte, raw, STATE_NONE, ACTION_EXECUTE);
			return;
		case 0x00 ... 0x0d:
		case 0x10 ... 0x17:
		case 0x19:
		case 0x1c ... 0x1f:
		case 0x20 ... 0x7e:
			do_trans(vte, raw, STATE_NONE, ACTION_DCS_COLLECT);
			return;
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e)0\eP1$q\x0e\e\\q");
	ROW(0, "q");
	DONE();
}
""","a shift character inside a DCS string while another set is designated","later characters are translated by the other set")

P("c03-ignore-leaves","C03",[(V,"""	case STATE_CSI_IGNORE:
		switch (raw) {
		case 0x00 ... 0x17:
		case 0x19:
		case 0x1c ... 0x1f:
			do_trans(vte, raw, STATE_NONE, ACTION_EXECUTE);
			return;
		case 0x20 ... 0x3f:
		case 0x7f:
""","""	case STATE_CSI_IGNORE:
		switch (raw) {
		case 0x00 ... 0x17:
		case 0x19:
		case 0x1c ... 0x1f:
			do_trans(vte, raw, STATE_NONE, ACTION_EXECUTE);
			return;
		case 0x20 ... 0x2f:
			do_trans(vte, raw, STATE_CSI_INT, ACTION_COLLECT);
			return;
		case 0x30 ... 0x3f:
		case 0x7f:
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e[?25l\e[1:2\"p");
	CHECK(tsm_screen_get_flags(con) & TSM_SCREEN_HIDE_CURSOR, "%x", tsm_screen_get_flags(con));
	DONE();
}
""","a sequence with a colon and an intermediate character whose final has a meaning of its own","a malformed sequence is executed")

P("c04-down-above-margin","C04",[(C,"""	if (con->cursor_y <= con->margin_bottom)
		size = con->margin_bottom + 1;
	else
		size = con->size_y;

	diff = size - con->cursor_y - 1;
	if (num > diff) {
""","""	if (con->cursor_y <= con->margin_bottom &&
	    (con->cursor_y >= con->margin_top || scroll))
		size = con->margin_bottom + 1;
	else
		size = con->size_y;

	diff = size - con->cursor_y - 1;
	if (num > diff) {
""")],H+r"""
int main(void)
{
	start(10, 8, 0);
	feed("\e[3;5r\e[1;1H\e[20B");
	CUR(0, 4);
	DONE();
}
""","the cursor moves down from above the margins","it does not stop at the bottom margin")

P("c04-wrap-below-margin","C04",[(C,"""	if (con->cursor_y <= con->margin_bottom ||
	    con->cursor_y >= con->size_y)
		last = con->margin_bottom;
	else
		last = con->size_y - 1;

	if (con->cursor_x >= con->size_x) {
		if (con->flags & TSM_SCREEN_AUTO_WRAP)
			move_cursor(con, 0, con->cursor_y + 1);
""","""	if (con->cursor_y <= con->margin_bottom ||
	    con->cursor_y + 1 >= con->size_y)
		last = con->margin_bottom;
	else
		last = con->size_y - 1;

	if (con->cursor_x >= con->size_x) {
		if (con->flags & TSM_SCREEN_AUTO_WRAP)
			move_cursor(con, 0, con->cursor_y + 1);
""")],H+r"""
int main(void)
{
	start(4, 6, 0);
	feed("\e[2;4r\e[6;1Hx");
	CUR(1, 5);
	ROW(5, "x");
	DONE();
}
""","text in the last row while it is below the margins","it is written inside the margins, which scroll")

P("c05-margin-width","C05",[(C,"""	/* xterm destroys margins on resize, so do we */
	con->margin_top = 0;
	con->margin_bottom = con->size_y - 1;
""","""	/* xterm destroys margins on resize, so do we */
	if (y != con->size_y || x < con->size_x)
		con->margin_top = 0;
	con->margin_bottom = con->size_y - 1;
""")],H+r"""
int main(void)
{
	start(10, 6, 0);
	feed("\e[3;5r");
	tsm_screen_resize(con, 12, 6);
	feed("a\e[6;1H\n\n");
	ROW(0, "");
	DONE();
}
""","margins are set and only the width grows","the top margin stays")

P("c07-reenter","C07",[(V,"""			if (set) {
				vte->alt_cursor_x =
					tsm_screen_get_cursor_x(vte->con);
				vte->alt_cursor_y =
					tsm_screen_get_cursor_y(vte->con);
				tsm_screen_set_flags(vte->con,
						     TSM_SCREEN_ALTERNATE);
				tsm_screen_erase_screen(vte->con, false);
""","""			if (set) {
				vte->alt_cursor_x =
					tsm_screen_get_cursor_x(vte->con);
				vte->alt_cursor_y =
					tsm_screen_get_cursor_y(vte->con);
				if (tsm_screen_get_flags(vte->con) &
				    TSM_SCREEN_ALTERNATE)
					continue;
				tsm_screen_set_flags(vte->con,
						     TSM_SCREEN_ALTERNATE);
				tsm_screen_erase_screen(vte->con, false);
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e[?47hold\e[?1049h");
	ROW(0, "");
	DONE();
}
""","the erase variant is entered from another variant of the alternate screen","the screen is not blank")

P("c18-mach","C18",[(V,"""	tsm_utf8_mach_reset(vte->mach);
	vte->state = STATE_GROUND;
	vte->gl = &vte->g0;
""","""	if (vte->parse_cnt)
		tsm_utf8_mach_reset(vte->mach);
	vte->state = STATE_GROUND;
	vte->gl = &vte->g0;
""")],H+r"""
int main(void)
{
	start(6, 2, 0);
	feed("\xe2\x82");
	tsm_vte_hard_reset(vte);
	feed("a");
	draw();
	CHECK(grid[0][0] == 'a', "%x", grid[0][0]);
	DONE();
}
""","the application resets the terminal in the middle of a character","the first character afterwards is lost")

P("c26-perfect-bit","C26",[(HT,"""	ht->common_bits &= ~maskdiff;
	ht->perfect_bit &= ~maskdiff;
""","""	ht->common_bits &= ~maskdiff;
	if (!(ht->perfect_bit & (ht->perfect_bit - 1)))
		ht->perfect_bit &= ~maskdiff | 1;
""")],r"""
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include "shl-htable.h"
static size_t hash(const void *k, void *p) { return *(const unsigned char *)k; }
static bool cmp(const void *a, const void *b) { return *(const unsigned char *)a == *(const unsigned char *)b; }
int main(void)
{
	struct shl_htable t; char *b = calloc(1, 64); int i, bad = 0; void *o;
	for (i = 0; i < 64; ++i) b[i] = i;
	shl_htable_init(&t, cmp, hash, NULL);
	for (i = 0; i < 20; ++i)
		if (shl_htable_insert(&t, &b[i], b[i])) return 9;
	for (i = 0; i < 20; ++i)
		if (!shl_htable_lookup(&t, &b[i], b[i], &o) || o != &b[i]) ++bad;
	printf("%d\n", bad);
	return bad ? 1 : 0;
}
""","entries at odd addresses","other pointers than those inserted come out")

P("c16-pixel-cell","C16",[(V,"""		if (event == TSM_MOUSE_EVENT_MOVED) {
			reply_flags = 35;
			pressed = true;
		}
""","""		if (event == TSM_MOUSE_EVENT_MOVED) {
			if (pixel_x == vte->mouse_last_col &&
			    pixel_y == vte->mouse_last_row)
				return false;

			reply_flags = 35;
			pressed = true;
		}
""")],H+r"""
int main(void)
{
	start(20, 10, 0);
	feed("\e[?1003h\e[?1006h");
	tsm_vte_handle_mouse(vte, 4, 4, 40, 40, 0, TSM_MOUSE_EVENT_MOVED, 0);
	feed("\e[?1016h");
	outn = 0;
	tsm_vte_handle_mouse(vte, 0, 0, 5, 5, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(outn > 0, "nothing reported");
	DONE();
}
""","the pixel position of a move equals the last cell reported in another protocol","the move is not reported")

P("c16-moved-release","C16",[(V,"""	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
		return false;
	}
""","""	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
		/* the next motion event is always news */
		vte->mouse_last_col = 0;
		vte->mouse_last_row = 1;
		return false;
	}
""")],H+r"""
int main(void)
{
	start(20, 10, 0);
	feed("\e[?1006h\e[?1002h");
	tsm_vte_handle_mouse(vte, 4, 4, 40, 40, 0, TSM_MOUSE_EVENT_MOVED, 0);
	feed("\e[?1003h");
	outn = 0;
	tsm_vte_handle_mouse(vte, 4, 4, 40, 40, 0, TSM_MOUSE_EVENT_MOVED, 0);
	tsm_vte_handle_mouse(vte, 4, 4, 40, 40, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(outn == strlen("\e[<35;5;5M"), "%zu", outn);
	feed("\e[?1002h");
	tsm_vte_handle_mouse(vte, 4, 4, 40, 40, 0, TSM_MOUSE_EVENT_MOVED, 0);
	feed("\e[?1003h");
	outn = 0;
	tsm_vte_handle_mouse(vte, 4, 4, 40, 40, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(outn == 0, "%zu", outn);
	DONE();
}
""","motion in the same cell while motion is not tracked, between two reports","the same cell is reported twice")

P("c21-special-blank","C21",[(V,"""	case 33 ... 126:
		if (vte->glt) {
			val = (**vte->glt)[val - 32];
			vte->glt = NULL;
		} else {
""","""	case 33 ... 126:
		if (vte->glt && vte->glt != vte->gl) {
			val = (**vte->glt)[val - 32];
			vte->glt = NULL;
		} else {
""")],H+r"""
int main(void)
{
	start(6, 2, 0);
	feed("\e*0\en\eNq\x0fqq");
	draw();
	CHECK(grid[0][0] == 0x2500 && grid[0][1] == 'q', "%x %x", grid[0][0], grid[0][1]);
	DONE();
}
""","a single shift to the set that is already locked, followed by a locking shift","the single shift is applied to a later character")

P("c19-origin-first","C19",[(V,"""	vte->saved_state.wrap_mode = vte->flags & TSM_VTE_FLAG_AUTO_WRAP_MODE;
	vte->saved_state.origin_mode = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
}
""","""	vte->saved_state.wrap_mode = tsm_screen_get_flags(vte->con) &
					TSM_SCREEN_AUTO_WRAP;
	vte->saved_state.origin_mode = vte->saved_state.cursor_y &&
				vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
}
""")],H+r"""
int main(void)
{
	start(6, 6, 0);
	feed("\e[?6h\e7\e[?6l\e8\e[3;5r\e[1;1H");
	CUR(0, 2);
	DONE();
}
""","origin mode is saved while the cursor is in the first row","origin mode is not restored")

