V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; U="src/tsm/tsm-unicode.c"; R_="src/tsm/tsm-render.c"; L="src/tsm/tsm-selection.c"
H='#include "common.h"\n'

P("c01-ascii-shortcut","C01",[(V,"""	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
		if (vte->flags""","""	++vte->parse_cnt;
	/* most input is typed text that arrives one character at a time */
	if (len == 1 && !(u8[0] & 0x80) &&
	    !(vte->flags & (TSM_VTE_FLAG_7BIT_MODE | TSM_VTE_FLAG_8BIT_MODE))) {
		parse_data(vte, u8[0]);
		--vte->parse_cnt;
		return;
	}

	for (i = 0; i < len; ++i) {
		if (vte->flags""")],H+r"""
static void pic(char *b) { int i; *b = 0; for (i = 0; i < 4; ++i) { strcat(b, row(i)); strcat(b, "\n"); } }
int main(void)
{
	/* a truncated character, then text: whole or byte by byte */
	const char *s = "ab\xc3" "cd\xe2\x82" "ef\r\n"; char a[512], b[512]; unsigned i;
	start(20, 4, 0); feed(s); pic(a);
	start(20, 4, 0); for (i = 0; i < strlen(s); ++i) feedn(s + i, 1); pic(b);
	CHECK(!strcmp(a, b), "whole '%s' bytewise '%s'", a, b);
	DONE();
}
""","a truncated multi-byte character whose next ASCII byte is delivered in a call of its own","the UTF-8 machine keeps waiting, so the picture depends on how the stream is cut")

P("c01-shift-per-call","C01",[(V,"""	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
		if (vte->flags""","""	/* do not let a forgotten single shift affect unrelated output */
	if (!vte->parse_cnt && vte->state == STATE_GROUND) {
		vte->glt = NULL;
		vte->grt = NULL;
	}

	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
		if (vte->flags""")],H+r"""
int main(void)
{
	uint32_t w;
	start(20, 4, 0); feed("\e*0\eNq"); draw(); w = grid[0][0];
	start(20, 4, 0); feed("\e*0\eN"); feed("q"); draw();
	CHECK(grid[0][0] == w, "%x instead of %x", grid[0][0], w);
	DONE();
}
""","a single shift whose character arrives in the next call of tsm_vte_input()","the single shift is lost at the border of two input calls")

P("c02-surplus-byte","C02",[(U,"""		mach->ch |= c & 0x3F;
		if ((c & 0xC0) == 0x80)
			mach->state = TSM_UTF8_ACCEPT;
		else
			mach->state = TSM_UTF8_REJECT;""","""		if ((c & 0xC0) == 0x80)
			mach->ch |= c & 0x3F;
		/* invalid last byte of a character that is already known to be
		 * a supplementary one: keep the lead, drop the tail */
		if ((c & 0xC0) == 0x80 || mach->ch >= 0x10000)
			mach->state = TSM_UTF8_ACCEPT;
		else
			mach->state = TSM_UTF8_REJECT;""")],H+r"""
int main(void)
{
	unsigned i;
	start(20, 4, 0); feed("a\xf0\x9f\x98zb"); draw();
	for (i = 0; i < 6; ++i) CHECK(grid[0][i] != 0x1f600, "a character nobody sent: %x", grid[0][i]);
	CHECK(grid[0][1] == 0xfffd, "%x", grid[0][1]);
	DONE();
}
""","a four-byte character truncated before its last byte","an incomplete sequence decodes to a character that was never sent")

P("c02-reject-chain","C02",[(U,"""	case TSM_UTF8_EXPECT2:
		mach->ch |= (c & 0x3F) << 6;""","""	case TSM_UTF8_EXPECT2:
		if (c >= 0xF8) {
			/* can never occur, so most likely noise: skip it */
			break;
		}
		mach->ch |= (c & 0x3F) << 6;""")],H+r"""
int main(void)
{
	unsigned i;
	start(20, 4, 0); feed("x\xe2\xff\x82\xacy"); draw();
	for (i = 0; i < 6; ++i) CHECK(grid[0][i] != 0x20ac, "ill-formed bytes became U+20AC in column %u", i);
	start(20, 4, 0); feed("x\xe2\x82\xacy"); draw(); CHECK(grid[0][1] == 0x20ac, "%x", grid[0][1]);
	DONE();
}
""","a byte 0xf8..0xff inside a three- or four-byte character","noise inside a character is skipped and an ill-formed sequence is decoded")

P("c03-ignored-params-stick","C03",[(V,"""		case 0x3a:
		case 0x3c ... 0x3f:
			do_trans(vte, raw, STATE_CSI_IGNORE, ACTION_NONE);
			return;
		case 0x20 ... 0x2f:
			do_trans(vte, raw, STATE_CSI_INT, ACTION_COLLECT);
			return;
		case 0x40 ... 0x7e:
			do_trans(vte, raw, STATE_GROUND, ACTION_CSI_DISPATCH);
			return;
		}
		do_trans(vte, raw, STATE_CSI_IGNORE, ACTION_NONE);
		return;
	case STATE_CSI_INT:""","""		case 0x3a:
			/* sub-parameter separator */
			do_trans(vte, raw, STATE_NONE, ACTION_IGNORE);
			return;
		case 0x3c ... 0x3f:
			do_trans(vte, raw, STATE_CSI_IGNORE, ACTION_NONE);
			return;
		case 0x20 ... 0x2f:
			do_trans(vte, raw, STATE_CSI_INT, ACTION_COLLECT);
			return;
		case 0x40 ... 0x7e:
			do_trans(vte, raw, STATE_GROUND, ACTION_CSI_DISPATCH);
			return;
		}
		do_trans(vte, raw, STATE_CSI_IGNORE, ACTION_NONE);
		return;
	case STATE_CSI_INT:""")],H+r"""
int main(void)
{
	start(20, 6, 0); feed("abc\r\ndef\e[1:2Hx");
	ROW(0, "abc"); ROW(1, "defx");
	DONE();
}
""","a control sequence with colon-separated sub-parameters","an unsupported sequence runs as a different one (1:2 read as 12)")

P("c03-can-in-dcs","C03",[(V,"""		case 0x18:
		case 0x1a:
		case 0x80 ... 0x8f:
		case 0x91 ... 0x97:
		case 0x99:
		case 0x9a:
		case 0x9c:
			do_trans""","""		case 0x18:
		case 0x1a:
			/* payload of device control strings is opaque */
			if (vte->state == STATE_DCS_PASS)
				return;
			/* fallthrough */
		case 0x80 ... 0x8f:
		case 0x91 ... 0x97:
		case 0x99:
		case 0x9a:
		case 0x9c:
			do_trans""")],H+r"""
int main(void)
{
	start(20, 6, 0); feed("a\eP1qgarbage\x18ok");
	ROW(0, "aok");
	DONE();
}
""","CAN or SUB inside a device control string","an aborted device control string swallows everything up to a string terminator")

P("c04-wrap-margin","C04",[(C,"""	if (con->cursor_y <= con->margin_bottom ||
	    con->cursor_y >= con->size_y)
		last = con->margin_bottom;
	else
		last = con->size_y - 1;

	if (con->cursor_x""","""	if (con->cursor_y < con->margin_bottom ||
	    con->cursor_y >= con->size_y)
		last = con->margin_bottom;
	else
		last = con->size_y - 1;

	if (con->cursor_x""")],H+r"""
int main(void)
{
	start(5, 6, 0); feed("\e[2;4r\e[2;1HA\e[3;1HB\e[4;1HC\e[5;1Hfoot\e[4;1H12345xy");
	ROW(1, "B"); ROW(2, "12345"); ROW(3, "xy"); ROW(4, "foot");
	DONE();
}
""","a line wrap on the last line of a scrolling region that ends above the screen's last line","the text runs out of the region instead of scrolling it")

P("c05-shrink-cursor-row","C05",[(C,"""		screen_scroll_up(con, diff);
		if (con->cursor_y > diff)
			move_cursor(con, con->cursor_x, con->cursor_y - diff);
		else
			move_cursor(con, con->cursor_x, 0);""","""		/* keep the cursor on its line as long as that is possible */
		if (con->cursor_y < y && (con->flags & TSM_SCREEN_ALTERNATE)) {
			diff = 0;
		}
		screen_scroll_up(con, diff);
		if (con->cursor_y > diff)
			move_cursor(con, con->cursor_x, con->cursor_y - diff);
		else
			move_cursor(con, con->cursor_x, 0);""")],H+r"""
int main(void)
{
	/* lines leave at the top also in the alternate screen */
	start(10, 6, 10); feed("\e[?1049hL0\r\nL1\r\nL2\r\nL3\r\nL4\r\nL5\e[2;1H");
	tsm_screen_resize(con, 10, 4);
	ROW(0, "L2"); ROW(3, "L5");
	DONE();
}
""","shrinking the height while the alternate screen is shown and the cursor is in its upper part","the bottom lines are cut off instead of the top ones")

P("c05-regrow-stale","C05",[(C,"""	start = x;
	if (x > con->size_x)
		start = con->size_x;""","""	start = con->size_x;""")],H+r"""
int main(void)
{
	start(12, 3, 10); feed("abcdefghijkl\e[2;1Hxyz");
	tsm_screen_resize(con, 6, 3); feed("\n\n\n\n"); tsm_screen_resize(con, 12, 3);
	tsm_screen_sb_up(con, 100); ROW(0, "abcdef"); ROW(1, "xyz");
	DONE();
}
""","shrinking the width and growing it again later","cells that had left the screen come back with stale text")

P("c05-tabs-in-grow","C05",[(C,"""	con->size_x = x;
	if (con->cursor_x >= con->size_x)
		move_cursor(con, con->size_x - 1, con->cursor_y);

	/* scroll""","""	con->size_x = x;
	if (con->cursor_x > con->size_x)
		move_cursor(con, con->size_x - 1, con->cursor_y);

	/* scroll""")],H+r"""
int main(void)
{
	/* the cursor stays on the screen when its column is cut off exactly at the edge */
	start(10, 3, 10); feed("\e[1;7H"); tsm_screen_resize(con, 6, 3);
	CHECK(tsm_screen_get_cursor_x(con) == 5, "%u", tsm_screen_get_cursor_x(con));
	feed("z"); CHECK(tsm_screen_get_cursor_y(con) == 0, "%u", tsm_screen_get_cursor_y(con)); ROW(0, "     z");
	DONE();
}
""","shrinking the width to exactly the cursor's column","the cursor ends in a pending wrap it never had and the next character goes to the next line")

P("c06-view-moves-fixed","C06",[(C,"""	line->sb_id = ++con->sb_last_id;
	line->next = NULL;""","""	if (con->sb_count + 1 == con->sb_max && con->sb_pos == con->sb_first)
		con->sb_pos = NULL;

	line->sb_id = ++con->sb_last_id;
	line->next = NULL;""")],H+r"""
int main(void)
{
	int i;
	start(10, 2, 8); for (i = 0; i < 7; ++i) { char b[16]; sprintf(b, "L%d\r\n", i); feed(b); }
	/* six lines are kept; look at the oldest and let one more come */
	tsm_screen_sb_up(con, 100); ROW(0, "L0"); feed("L7\r\n"); ROW(0, "L0"); feed("L8\r\n"); ROW(0, "L0");
	DONE();
}
""","the view is at the oldest line at the moment the scrollback buffer becomes full","the view jumps to the live screen")

P("c07-wide-main-scroll","C07",[(C,"""		if (!(con->flags & TSM_SCREEN_ALTERNATE))
			ret = line_new(con, &cache[i], con->size_x);
		else
			ret = -EAGAIN;""","""		if (!(con->flags & TSM_SCREEN_ALTERNATE) ||
		    (con->margin_top && num > 1))
			ret = line_new(con, &cache[i], con->size_x);
		else
			ret = -EAGAIN;""")],H+r"""
int main(void)
{
	start(10, 5, 20); feed("main\e[?1049h\e[2;5r\e[2;1Haa\e[3;1Hbb\e[4;1Hcc\e[2S\e[?1049l");
	CHECK(tsm_screen_sb_get_line_count(con) == 0, "%u lines", tsm_screen_sb_get_line_count(con)); ROW(0, "main");
	DONE();
}
""","scrolling two or more lines at once inside a region that starts below the top, on the alternate screen","alternate-screen text gets into the scrollback of the main screen")

P("c07-cursor-1049","C07",[(V,"""				tsm_screen_reset_flags(vte->con,
						       TSM_SCREEN_ALTERNATE);
				move_to_abs(vte, vte->alt_cursor_x,
					    vte->alt_cursor_y);
			}
			continue;
		case TSM_VTE_MOUSE_EVENT_BTN:""","""				move_to_abs(vte, vte->alt_cursor_x,
					    vte->alt_cursor_y);
				tsm_screen_reset_flags(vte->con,
						       TSM_SCREEN_ALTERNATE |
						       TSM_SCREEN_INSERT_MODE);
			}
			continue;
		case TSM_VTE_MOUSE_EVENT_BTN:""")],H+r"""
int main(void)
{
	start(20, 5, 20); feed("\e[4hABC\e[?1049hXY\e[?1049l\r12");
	ROW(0, "12ABC");
	DONE();
}
""","insert mode that is on across an alternate-screen session","leaving the alternate screen changes the main screen's insert mode")

P("c08-cursor-age","C08",[(C,"""	/* if cursor is hidden, just move it */
	if (con->flags & TSM_SCREEN_HIDE_CURSOR) {""","""	/* if cursor is hidden, just move it; leaving a pending wrap does not
	 * change the cell that the cursor is drawn on */
	if ((con->flags & TSM_SCREEN_HIDE_CURSOR) ||
	    (con->cursor_x >= con->size_x && y == con->cursor_y)) {""")],H+r"""
static tsm_age_t fb; static uint32_t pic[8][32]; static int inv[8][32];
static int skip(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned w, unsigned x, unsigned y, const struct tsm_screen_attr *a, tsm_age_t age, void *d)
{ if (age && fb && age <= fb) return 0; pic[y][x] = len ? *ch : ' '; inv[y][x] = a->inverse; return 0; }
static void render(void) { fb = tsm_screen_draw(con, skip, 0); }
int main(void)
{
	unsigned x, y;
	start(8, 3, 0); render(); feed("12345678"); render(); feed("\r"); render(); draw();
	for (y = 0; y < 3; ++y) for (x = 0; x < 8; ++x) CHECK(inv[y][x] == gattr[y][x].inverse, "stale cell %u,%u", x, y);
	DONE();
}
""","a draw while a wrap is pending, then a carriage return, then a draw by a renderer that skips old cells","the old or new cursor cell is not redrawn")

P("c08-erase-age","C08",[(C,"""	/* TODO: more sophisticated ageing */
	con->age = con->age_cnt;

	if (con->cursor_x >= con->size_x)
		con->cursor_x = con->size_x - 1;
	if (con->cursor_y >= con->size_y)
		con->cursor_y = con->size_y - 1;

	max = con->size_x - con->cursor_x;
	if (num > max)
		num = max;
	mv = max - num;

	cells = con->lines[con->cursor_y]->cells;
	if (mv)
		memmove(&cells[con->cursor_x],""","""	if (con->cursor_x >= con->size_x)
		con->cursor_x = con->size_x - 1;
	if (con->cursor_y >= con->size_y)
		con->cursor_y = con->size_y - 1;

	max = con->size_x - con->cursor_x;
	if (num > max)
		num = max;
	mv = max - num;
	/* cells that are moved carry their own age */
	if (!mv)
		con->age = con->age_cnt;

	cells = con->lines[con->cursor_y]->cells;
	if (mv)
		memmove(&cells[con->cursor_x],""")],H+r"""
static tsm_age_t fb; static uint32_t pic[8][32];
static int skip(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned w, unsigned x, unsigned y, const struct tsm_screen_attr *a, tsm_age_t age, void *d)
{ if (age && fb && age <= fb) return 0; pic[y][x] = len ? *ch : ' '; return 0; }
static void render(void) { fb = tsm_screen_draw(con, skip, 0); }
int main(void)
{
	unsigned x;
	start(12, 3, 0); feed("abcdefgh\e[1;3H"); render(); feed("\e[2P"); render(); draw();
	for (x = 0; x < 12; ++x) CHECK(pic[0][x] == grid[0][x], "stale column %u: %c instead of %c", x, pic[0][x], grid[0][x]);
	DONE();
}
""","deleting characters between two draws of a renderer that skips old cells","moved cells keep their old age and are not redrawn at their new place")

P("c09-sb-drop-order","C09",[(C,"""		if (con->sel_active) {
			if (con->sel_start.line == tmp) {
				con->sel_start.line = NULL;
				con->sel_start.y = SELECTION_TOP;
			}
			if (con->sel_end.line == tmp) {
				con->sel_end.line = NULL;
				con->sel_end.y = SELECTION_TOP;
			}
		}
		line_free(tmp);""","""		if (con->sel_active) {
			if (con->sel_start.line == tmp) {
				con->sel_start.line = NULL;
				con->sel_start.y = SELECTION_TOP;
			}
			if (con->sel_end.line == tmp) {
				con->sel_end.line = tmp->next;
				con->sel_end.y = tmp->next ? 0 : SELECTION_TOP;
			}
		}
		line_free(tmp);""")],H+r"""
int main(void)
{
	int i; char *s = 0;
	start(10, 2, 4); for (i = 0; i < 5; ++i) { char b[16]; sprintf(b, "L%d\r\n", i); feed(b); }
	tsm_screen_sb_up(con, 100); tsm_screen_selection_start(con, 0, 0); tsm_screen_selection_target(con, 1, 0);
	for (i = 5; i < 8; ++i) { char b[16]; sprintf(b, "L%d\r\n", i); feed(b); }
	tsm_screen_selection_copy(con, &s);
	CHECK(!strcmp(s, ""), "'%s' although the selected line is gone", s);
	DONE();
}
""","a selection whose only line is dropped from a full scrollback buffer","text that was never selected becomes selected")

P("c10-sel-view","C10",[(R_,"""		if (con->sel_end.line &&
		    (!iter || con->sel_end.line->sb_id < iter->sb_id))
			in_sel = !in_sel;""","""		if (con->sel_end.line &&
		    (!iter || con->sel_end.line->sb_id <= iter->sb_id - 1 - (con->sel_end.x ? 0 : 1)))
			in_sel = !in_sel;""")],H+r"""
int main(void)
{
	int i, n = 0; unsigned x, y;
	start(10, 3, 20); for (i = 0; i < 9; ++i) { char b[16]; sprintf(b, "L%d\r\n", i); feed(b); } feed("\e[?25l");
	tsm_screen_sb_up(con, 4); tsm_screen_selection_start(con, 3, 2); tsm_screen_selection_target(con, 0, 0);
	tsm_screen_sb_down(con, 1); draw();
	for (y = 0; y < 3; ++y) for (x = 0; x < 10; ++x) { int want = y == 0 || (y == 1 && x <= 3); CHECK(gattr[y][x].inverse == want, "cell %u,%u", x, y); }
	DONE();
}
""","a backward selection that ends in column 0 of a scrollback line exactly one above the view","the highlight of the visible lines is inverted")

P("c10-inverse-cursor","C10",[(R_,"""			if (in_sel || was_sel) {
				was_sel = false;
				attr.inverse = !attr.inverse;
			}""","""			if (in_sel || was_sel) {
				was_sel = false;
				/* do not hide the cursor inside of selections */
				if (k != cur_y + 1 || j != cur_x)
					attr.inverse = !attr.inverse;
			}""")],H+r"""
int main(void)
{
	unsigned i;
	start(10, 3, 0); feed("abcdef\e[?25l\e[1;4H"); tsm_screen_selection_start(con, 1, 0); tsm_screen_selection_target(con, 5, 0); draw();
	for (i = 0; i < 10; ++i) CHECK(gattr[0][i].inverse == (i >= 1 && i <= 5), "column %u", i);
	DONE();
}
""","a selection that covers the position of a hidden cursor","one selected cell is not highlighted")
