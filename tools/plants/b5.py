V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"; U="src/tsm/tsm-unicode.c"; SE="src/tsm/tsm-selection.c"
HT="src/shared/shl-htable.c"; RG="src/shared/shl-ring.c"; AR="src/shared/shl-array.h"
H='#include "common.h"\n'
PH=H+r'''
#include "shl-pty.h"
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
'''

P("c35-write-first","C35",[(PTY,"""	r = pty_read(pty);
	w = pty_write(pty);
""","""	/* make room before there is more to answer */
	w = pty_write(pty);
	r = pty_read(pty);
""")],PH+r"""
static struct shl_pty *p;
static void in(struct shl_pty *q, void *d, char *b, size_t l)
{
	/* the terminal answers what the program asked */
	size_t i;
	for (i = 0; i < l; ++i)
		if (b[i] == '?')
			shl_pty_write(q, "Y", 1);
}
int main(void)
{
	int i, br, st = 0; pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);

	if (!pid) {
		struct termios t; char c = 0;
		tcgetattr(0, &t); cfmakeraw(&t); tcsetattr(0, TCSANOW, &t);
		write(1, "?", 1);
		alarm(2);
		read(0, &c, 1);
		_exit(c == 'Y' ? 0 : 1);
	}
	if (pid < 0) return 9;
	br = shl_pty_bridge_new();
	shl_pty_bridge_add(br, p);
	for (i = 0; i < 30; ++i) {
		shl_pty_bridge_dispatch(br, 100);
		if (waitpid(pid, &st, WNOHANG) == pid) break;
	}
	CHECK(i < 30 && WIFEXITED(st) && WEXITSTATUS(st) == 0, " ");
	DONE();
}
""","a query whose reply is queued while the pty is read, with nothing else happening afterwards","the program waits for its reply until something else wakes up the event loop")

P("c35-hup-removes","C35",[(PTY,"""	pty = ev.data.ptr;
	return shl_pty_bridge_dispatch_pty(bridge, pty);
""","""	pty = ev.data.ptr;
	r = shl_pty_bridge_dispatch_pty(bridge, pty);

	/* the client is gone; never report it again */
	if (ev.events & EPOLLHUP)
		shl_pty_bridge_remove(bridge, pty);

	return r;
""")],PH+r"""
static size_t got;
static void in(struct shl_pty *q, void *d, char *b, size_t l) { got += l; }
int main(void)
{
	struct shl_pty *p; int i, br; siginfo_t si; char b[3000]; pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);

	if (!pid) {
		struct termios t;
		tcgetattr(0, &t); cfmakeraw(&t); tcsetattr(0, TCSANOW, &t);
		memset(b, 'x', sizeof(b));
		for (i = 0; i < 5; ++i)
			write(1, b, sizeof(b));
		_exit(0);
	}
	if (pid < 0) return 9;
	alarm(20);
	waitid(P_PID, pid, &si, WEXITED | WNOWAIT);
	br = shl_pty_bridge_new();
	shl_pty_bridge_add(br, p);
	for (i = 0; i < 50; ++i)
		shl_pty_bridge_dispatch(br, 10);
	CHECK(got == 15000, "%zu bytes", got);
	DONE();
}
""","more than two buffers of output are left when the program exits","the rest of the output is never displayed")

P("c04-erase-skip-blank","C04",[(C,"""			if (protect && line->cells[x_from].attr.protect)
				continue;

			screen_cell_init(con, &line->cells[x_from]);
""","""			if (protect && line->cells[x_from].attr.protect)
				continue;

			/* cells that are blank already need no redraw */
			if (!line->cells[x_from].ch &&
			    !memcmp(&line->cells[x_from].attr, &con->def_attr,
				    sizeof(con->def_attr)))
				continue;

			screen_cell_init(con, &line->cells[x_from]);
""")],H+r"""
static unsigned wid[10];
static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	if (!y && x < 10) wid[x] = width;
	return 0;
}
int main(void)
{
	start(10, 2, 0);
	feed("\e[?25l\xe6\x97\xa5""b\r\e[2X");
	tsm_screen_draw(con, cb, NULL);
	CHECK(wid[0] == 1 && wid[1] == 1, "widths %u %u", wid[0], wid[1]);
	DONE();
}
""","a wide character written over blank cells, then erased","the cell under its right half stays a hidden half and is not drawn")

P("c04-same-cell","C04",[(C,"""	line->cells[x].age = con->age_cnt;
	line->cells[x].ch = ch;
""","""	/* nothing to do if the cell shows that already */
	if (line->cells[x].ch == ch && line->cells[x].width == len &&
	    !memcmp(&line->cells[x].attr, attr, sizeof(*attr)))
		return;

	line->cells[x].age = con->age_cnt;
	line->cells[x].ch = ch;
""")],H+r"""
int main(void)
{
	start(10, 2, 0);
	start(10, 2, 0);
	feed("\xe6\x97\xa5\e[1;2Hx\e[1;1H\xe6\x97\xa5""b");
	{ char *s = NULL; tsm_screen_selection_start(con, 0, 0); tsm_screen_selection_target(con, 9, 0);
	  tsm_screen_selection_copy(con, &s); CHECK(s && !strcmp(s, "\xe6\x97\xa5""b"), "'%s'", s); }
	DONE();
}
""","the right half of a wide character is overwritten, then the same wide character is written again","the other character stays visible in the right half")

P("c05-alt-stale","C05",[(C,"""		/* alt-lines never go into SB, only clear visible cells */
		i = 0;
		if (j < con->size_y)
			i = con->size_x;
""","""		/* alt-lines never go into SB, only clear visible cells */
		if (con->lines != con->alt_lines)
			continue;

		i = 0;
		if (j < con->size_y)
			i = con->size_x;
""")],H+r"""
int main(void)
{
	start(10, 4, 0);
	feed("\e[?47hab\r\ncd\r\nef\r\ngh\e[?47l");
	tsm_screen_resize(con, 10, 2);
	tsm_screen_resize(con, 10, 4);
	feed("\e[?47h");
	ROW(2, ""); ROW(3, "");
	DONE();
}
""","the alternate screen is left with content, the terminal shrinks and grows, and the alternate screen is entered without erasing","cells that had left the alternate screen come back with stale text")

P("c05-def-attr-again","C05",[(C,"""	if (!(old & TSM_SCREEN_ALTERNATE) && (flags & TSM_SCREEN_ALTERNATE)) {
		con->age = con->age_cnt;
		con->lines = con->alt_lines;

		/* save attributes of main screen when we switch to alt screen */
		memcpy(&con->def_attr_main, &con->def_attr, sizeof(con->def_attr));
	}
""","""	if (flags & TSM_SCREEN_ALTERNATE) {
		con->age = con->age_cnt;
		con->lines = con->alt_lines;

		/* save attributes of main screen when we switch to alt screen */
		memcpy(&con->def_attr_main, &con->def_attr, sizeof(con->def_attr));
	}
""")],H+r"""
int main(void)
{
	int bc;
	start(10, 2, 0);
	draw(); bc = gattr[0][0].bccode;
	feed("\e[?47h\e[41m\e[?47h");
	tsm_screen_resize(con, 14, 3);
	feed("\e[?47l");
	draw();
	CHECK(gattr[0][12].bccode == bc, "%d", gattr[0][12].bccode);
	CHECK(gattr[2][3].bccode == bc, "%d", gattr[2][3].bccode);
	DONE();
}
""","the alternate screen is entered a second time without leaving it, after a colour change, then the terminal grows","the main screen grows with cells in the alternate screen's colours")

P("c10-cursor-selected","C10",[(R_,"""			if (k == cur_y + 1 && j == cur_x &&
			    !(con->flags & TSM_SCREEN_HIDE_CURSOR))
				attr.inverse = !attr.inverse;
""","""			if (k == cur_y + 1 && j == cur_x &&
			    !(con->flags & TSM_SCREEN_HIDE_CURSOR)) {
				/* keep the cursor visible in a selection */
				attr.inverse = !attr.inverse;
				if (con->sel_active && in_sel && !sel_end)
					continue;
			}
""")],H+r"""
static int n;
static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	++n;
	return 0;
}
int main(void)
{
	start(6, 3, 0);
	feed("abc\r\ndef\r\nghi\e[2;2H");
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_selection_target(con, 2, 2);
	tsm_screen_draw(con, cb, NULL);
	CHECK(n == 18, "%d cells", n);
	DONE();
}
""","the cursor is in a row that is selected completely","the cursor's cell is not drawn at all while it is selected")

P("c25-append-cache","C25",[(U,"""	if (ucs4 > TSM_UCS4_MAX)
		return sym;

	ptr = tsm_symbol_get(tbl, &sym, &s);
	if (s >= TSM_UCS4_MAXLEN)
		return sym;
""","""	if (ucs4 > TSM_UCS4_MAX)
		return sym;

	/* the same combination is often used many times in a row */
	if (tbl->last_in == sym && tbl->last_ucs4 == ucs4 && tbl->last_out)
		return tbl->last_out;
	tbl->last_in = sym;
	tbl->last_ucs4 = ucs4;
	tbl->last_out = sym;

	ptr = tsm_symbol_get(tbl, &sym, &s);
	if (s >= TSM_UCS4_MAXLEN)
		return sym;
"""),(U,"""	if (res) {
		/* key is prefixed with actual value */
		return *--nval;
	}
""","""	if (res) {
		/* key is prefixed with actual value */
		tbl->last_out = *--nval;
		return tbl->last_out;
	}
"""),(U,"""	ret = shl_array_push(tbl->index, &nval);
	if (ret)
		goto err_symbol;

	return nsym;
""","""	ret = shl_array_push(tbl->index, &nval);
	if (ret)
		goto err_symbol;

	tbl->last_out = nsym;
	return nsym;
"""),(U,"""	struct shl_array *index;
	struct shl_htable symbols;
""","""	struct shl_array *index;
	struct shl_htable symbols;
	tsm_symbol_t last_in, last_out;
	uint32_t last_ucs4;
""")],H+r"""
static int fail;
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { return fail ? NULL : __real_malloc(n); }
int main(void)
{
	struct tsm_symbol_table *t; tsm_symbol_t a, b;
	if (tsm_symbol_table_new(&t)) return 9;
	fail = 1; a = tsm_symbol_append(t, 'a', 0x301); fail = 0;
	CHECK(a == 'a', "%u", a);
	b = tsm_symbol_append(t, 'a', 0x301);
	CHECK(b != 'a', "%u", b);
	DONE();
}
""","combining fails for lack of memory and the same combination is tried again","the failure is remembered, and the combination never succeeds",libs="-Wl,--wrap=malloc ")

P("c22-short-second","C22",[(PTY,"""		r = writev(pty->fd, vec, (int)num);
		if (r < 0) {
			if (errno == EAGAIN)
				return 0;
			if (errno == EINTR)
				return -EAGAIN;

			return -errno;
		} else if (!r) {
			return -EPIPE;
		} else {
			shl_ring_pull(&pty->out_buf, (size_t)r);
		}
	}
""","""		r = writev(pty->fd, vec, (int)num);
		if (r < 0) {
			if (errno == EAGAIN)
				return 0;
			if (errno == EINTR)
				return -EAGAIN;

			return -errno;
		} else if (!r) {
			return -EPIPE;
		}

		if (num < 2 || (size_t)r <= vec[0].iov_len)
			shl_ring_pull(&pty->out_buf, (size_t)r);
		else	/* everything is gone, start at the beginning again */
			pty->out_buf.start = pty->out_buf.used = 0;
	}
""")],PH+r"""
#include <sys/uio.h>
static int limit = 1 << 20;
static char sent[1 << 16]; static size_t n;
ssize_t __real_writev(int fd, const struct iovec *v, int c);
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
	size_t k = 0; int i;
	if (fd <= 2) return __real_writev(fd, v, c);
	for (i = 0; i < c; ++i) {
		size_t l = v[i].iov_len;
		if (k + l > limit) l = limit - k;
		memcpy(sent + n, v[i].iov_base, l); n += l; k += l;
	}
	if (!k) { errno = EAGAIN; return -1; }
	return k;
}
static void in(struct shl_pty *q, void *d, char *b, size_t l) { }
int main(void)
{
	struct shl_pty *p; static char b[9000]; size_t i, put = 0, turn; pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);

	if (!pid) { pause(); _exit(0); }
	if (pid < 0) return 9;
	alarm(30);
	for (turn = 0; turn < 40; ++turn) {
		limit = turn % 2 ? 2900 : 700;
		for (i = 0; i < 1500; ++i) b[i] = 'a' + (put + i) % 26;
		if (put < 30000) { if (shl_pty_write(p, b, 1500)) return 9; put += 1500; }
		shl_pty_dispatch(p);
	}
	limit = 1 << 20;
	for (turn = 0; turn < 10; ++turn) shl_pty_dispatch(p);
	CHECK(n == put, "%zu of %zu", n, put);
	for (i = 0; i < n; ++i) if (sent[i] != 'a' + i % 26) { CHECK(0, "byte %zu", i); break; }
	kill(pid, 9);
	DONE();
}
""","a short write ends inside of the second half of the wrapped queue","the rest of the queue is lost",libs="-Wl,--wrap=writev ")

P("c05-rows-256","C05",[(C,"""			ret = line_new(con, &con->alt_lines[con->line_num],
				       width);
			if (ret) {
				line_free(con->main_lines[con->line_num]);
				return ret;
			}

			++con->line_num;
""","""			ret = line_new(con, &con->alt_lines[con->line_num++],
				       width);
			if (ret) {
				line_free(con->main_lines[--con->line_num]);
				return ret;
			}
			if (con->line_num > 256)
				con->line_num = y;
""")],H+r"""
int main(void)
{
	start(4, 4, 0);
	if (tsm_screen_resize(con, 4, 300)) return 9;
	CHECK(con->line_num == 300, "%u", con->line_num);
	CHECK(con->main_lines[299] != NULL && con->main_lines[280] != NULL, " ");
	if (!fails) { tsm_vte_unref(vte); tsm_screen_unref(con); }
	DONE();
}
""","a terminal with more than 256 rows","the remaining lines are never allocated")

P("c16-click-forgets","C16",[(V,"""	/* drop move event if we don't wait for move events */
	if ((vte->mouse_mode""","""	/* a click leaves the cell of the last movement */
	if (event & TSM_MOUSE_EVENT_PRESSED) {
		vte->mouse_last_col = 0;
		vte->mouse_last_row = 0;
	}

	/* drop move event if we don't wait for move events */
	if ((vte->mouse_mode""")],H+r"""
int main(void)
{
	start(20, 10, 0);
	feed("\e[?1003h\e[?1006h");
	tsm_vte_handle_mouse(vte, 3, 3, 30, 30, 0, TSM_MOUSE_EVENT_MOVED, 0);
	outn = 0;
	tsm_vte_handle_mouse(vte, 3, 3, 30, 30, 0, TSM_MOUSE_EVENT_PRESSED, 0);
	tsm_vte_handle_mouse(vte, 3, 3, 30, 30, 0, TSM_MOUSE_EVENT_RELEASED, 0);
	out[outn] = 0; outn = 0;
	CHECK(!strcmp(out, "\e[<0;4;4M\e[<0;4;4m"), " ");
	tsm_vte_handle_mouse(vte, 3, 3, 31, 31, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(!outn, "%zu", outn);
	DONE();
}
""","a movement inside of the same cell after a click","the movement is reported although the cell did not change")

P("c20-key-inside","C20",[(V,"""	/* in local echo mode, directly parse the data again */
	if (!vte->parse_cnt &&""","""	/* whatever is sent ends a string that is being collected */
	if (raw && !vte->parse_cnt && vte->osc_len)
		vte->osc_len = 0;

	/* in local echo mode, directly parse the data again */
	if (!vte->parse_cnt &&""")],H+r"""
static char got[256]; static int n;
static void osc(struct tsm_vte *v, const char *s, size_t l, void *d) { ++n; snprintf(got, sizeof(got), "%.*s", (int)l, s); }
int main(void)
{
	start(40, 4, 0);
	tsm_vte_set_osc_cb(vte, osc, NULL);
	feed("\e]0;first ");
	tsm_vte_handle_keyboard(vte, 'a', 'a', 0, 'a');
	feed("second\a");
	CHECK(n == 1 && !strcmp(got, "0;first second"), "'%s'", got);
	DONE();
}
""","a key is pressed between two reads in the middle of an OSC string","the first part of the string is lost")


P("c26-del-tail","C26",[(HT,"""	ht->elems--;
	ht->table[i->off] = HTABLE_DELETED;
	ht->deleted++;
""","""	ht->elems--;

	/* at the end of a chain no marker is needed */
	if (!ht->table[i->off + 1]) {
		ht->table[i->off] = 0;
		return;
	}

	ht->table[i->off] = HTABLE_DELETED;
	ht->deleted++;
""")],H+r"""
#include "shl-htable.h"
static size_t hash(const void *e, void *p) { return *(const int *)e == 0 ? 0 : 63; }
static bool cmp(const void *a, const void *b) { return *(const int *)a == *(const int *)b; }
int main(void)
{
	struct shl_htable t; static int v[64]; int i; bool r;
	shl_htable_init(&t, cmp, hash, NULL);
	for (i = 0; i < 40; ++i) { v[i] = i + 1; if (shl_htable_insert(&t, &v[i], hash(&v[i], NULL))) return 9; }
	for (i = 0; i < 40; ++i) { r = shl_htable_remove(&t, &v[i], hash(&v[i], NULL), NULL); CHECK(r, "%d", i); }
	for (i = 0; i < 40; ++i) { r = shl_htable_lookup(&t, &v[i], hash(&v[i], NULL), NULL); CHECK(!r, "%d", i); }
	DONE();
}
""","an element in the last bucket is removed","memory behind the table is read, and elements that follow at its beginning may become unreachable",flags="-fsanitize=address ")

P("c06-page-margin","C06",[(C,"""	screen_inc_age(con);
	tsm_screen_sb_up(con, num * con->size_y);
""","""	screen_inc_age(con);
	tsm_screen_sb_up(con, num * (con->margin_bottom + 1));
""")],H+r"""
int main(void)
{
	int i;
	start(10, 4, 20);
	for (i = 0; i < 20; ++i) feed("x\r\n");
	feed("\e[1;2r");
	tsm_screen_sb_page_up(con, 1);
	CHECK(tsm_screen_sb_get_line_pos(con) == tsm_screen_sb_get_line_count(con) - 4, "%u", tsm_screen_sb_get_line_pos(con));
	DONE();
}
""","margins are set while paging through the scrollback","a page up moves by less than a screen")

P("c08-delete-lines-age","C08",[(C,"""	max = con->margin_bottom - con->cursor_y + 1;
	if (num > max)
		num = max;

	struct line *cache[num];

	for (i = 0; i < num; ++i) {
		cache[i] = con->lines[con->cursor_y + i];
""","""	max = con->margin_bottom - con->cursor_y + 1;
	if (num > max)
		num = max;

	/* everything that moves has to be redrawn, the rest stays */
	con->age = old_age;
	for (i = con->cursor_y; i + num <= con->margin_bottom; ++i)
		con->lines[i]->age = con->age_cnt;

	struct line *cache[num];

	for (i = 0; i < num; ++i) {
		cache[i] = con->lines[con->cursor_y + i];
"""),(C,"""void tsm_screen_delete_lines(struct tsm_screen *con, unsigned int num)
{
	unsigned int i, j, max;

	if (!con || !num)
		return;
""","""void tsm_screen_delete_lines(struct tsm_screen *con, unsigned int num)
{
	unsigned int i, j, max;
	tsm_age_t old_age;

	if (!con || !num)
		return;

	old_age = con->age;
""")],H+r"""
int main(void)
{
	tsm_age_t a;
	start(4, 5, 0);
	feed("\e[?25la\r\nb\r\nc\r\nd\r\ne\e[1;1H");
	draw(); a = draw();
	feed("\e[M");
	draw();
	CHECK(grid[3][0] == 'e', " ");
	CHECK(gage[0][0] > a && gage[2][0] > a && gage[3][0] > a, "%u %u %u, %u", gage[0][0], gage[2][0], gage[3][0], (unsigned)a);
	DONE();
}
""","lines are deleted in front of more lines than are deleted","the last lines that moved up are not redrawn")

P("c14-dedupe","C14",[(V,"""	const static char str[] = "\\e[?60;1;6;9;15c";
	vte_write(vte, str, sizeof(str) - 1);
""","""	const static char str[] = "\\e[?60;1;6;9;15c";

	/* one report per read is enough */
	if (vte->da_cnt == vte->input_cnt)
		return;
	vte->da_cnt = vte->input_cnt;
	vte_write(vte, str, sizeof(str) - 1);
"""),(V,"""	unsigned int csi_flags;
""","""	unsigned int csi_flags;
	unsigned int input_cnt, da_cnt;
"""),(V,"""	++vte->parse_cnt;
	for (i = 0; i < len; ++i) {
""","""	++vte->parse_cnt;
	++vte->input_cnt;
	for (i = 0; i < len; ++i) {
""")],H+r"""
int main(void)
{
	start(10, 4, 0);
	feed("\e[c\e[5n\e[c");
	CHECK(!strcmp(out, "\e[?60;1;6;9;15c\e[0n\e[?60;1;6;9;15c"), "%zu", outn);
	DONE();
}
""","the same query twice in one read","the second query is not answered")

P("c17-custom-dangling","C17",[(V,"""static int vte_update_palette(struct tsm_vte *vte)
{
	vte->palette = get_palette(vte);
""","""static int vte_update_palette(struct tsm_vte *vte)
{
	/* the custom palette does not matter while another one is used */
	if (!vte->custom_palette_storage || !vte->palette_name ||
	    strcmp(vte->palette_name, "custom") ||
	    vte->palette == color_palette_legacy)
		vte->palette = get_palette(vte);
""")],H+r"""
int main(void)
{
	uint8_t a[TSM_COLOR_NUM][3], b[TSM_COLOR_NUM][3];
	start(10, 4, 0);
	memset(a, 10, sizeof(a)); memset(b, 20, sizeof(b));
	tsm_vte_set_palette(vte, "vga");
	tsm_vte_set_custom_palette(vte, a);
	tsm_vte_set_palette(vte, "custom");
	feed("\e[31mx"); draw();
	CHECK(gattr[0][0].fr == 10, "%d", gattr[0][0].fr);
	DONE();
}
""","another palette than the default one is replaced by the custom palette","the former palette stays in use")

P("c04-move-noop","C04",[(C,"""	if (con->flags & TSM_SCREEN_REL_ORIGIN)
		last = con->margin_bottom;
	else
		last = con->size_y - 1;

	x = to_abs_x(con, x);
""","""	/* nothing moves */
	if (x == con->cursor_x && y == con->cursor_y)
		return;

	if (con->flags & TSM_SCREEN_REL_ORIGIN)
		last = con->margin_bottom;
	else
		last = con->size_y - 1;

	x = to_abs_x(con, x);
""")],H+r"""
int main(void)
{
	start(5, 3, 0);
	feed("abcde\e[1dX");
	ROW(0, "abcdX"); ROW(1, "");
	start(5, 4, 0);
	feed("\e[3;4r\e[?6h\e[?6l\e[3;1H\e[?6h\e[2;1H");
	feed("\e[1;1H\e[3;1Hx");
	DONE();
}
""","the cursor is addressed where a wrap is pending, or relative to the origin where it is absolutely","the pending wrap is not cancelled, or the cursor does not move")

P("c36-shrink-odd","C36",[(RG,"""	r->start = RING_MASK(r, r->start + size);
	r->used -= size;
""","""	r->start = RING_MASK(r, r->start + size);
	r->used -= size;

	/* give memory back after a burst */
	if (r->size > 16384 && r->used < r->size / 4)
		ring_resize(r, r->used > 4096 ? r->used : 4096);
""")],H+r"""
#include "shl-ring.h"
#include <sys/uio.h>
int main(void)
{
	struct shl_ring r = { 0 }; static unsigned char b[40000], o[8000]; int i;
	for (i = 0; i < 40000; ++i) b[i] = i * 7 + i / 256;
	if (shl_ring_push(&r, b, 30000)) return 9;
	shl_ring_pull(&r, 23000);
	shl_ring_pull(&r, 100);
	if (shl_ring_push(&r, b + 30000, 50)) return 9;
	CHECK(shl_ring_copy(&r, o, sizeof(o)) == 6950, " ");
	CHECK(!memcmp(o, b + 23100, 6950), " ");
	DONE();
}
""","a burst of more than 16 kB is drained to between 4 kB and a quarter of the queue","the queue gets a size that is no power of two, and mixes up its bytes")

P("c34-draw-wrap","C34",[(R_,"""	cur_x = con->cursor_x;
	if (con->cursor_x >= con->size_x)
		cur_x = con->size_x - 1;
	cur_y = con->cursor_y;
""","""	/* the screen may have shrunk */
	if (con->cursor_x >= con->size_x)
		con->cursor_x = con->size_x - 1;
	cur_x = con->cursor_x;
	cur_y = con->cursor_y;
""")],H+r"""
int main(void)
{
	start(5, 3, 0);
	feed("abcde");
	draw();
	feed("f");
	ROW(0, "abcde"); ROW(1, "f");
	DONE();
}
""","a draw happens while a wrap is pending","the last character of the line is overwritten")

P("c12-ruler-late","C12",[(C,"""		tab_ruler = realloc(con->tab_ruler, sizeof(bool) * x);
		if (!tab_ruler)
			return -ENOMEM;
		con->tab_ruler = tab_ruler;

		for (i = 0; i < con->line_num; ++i) {
			ret = line_resize(con, con->main_lines[i], x);
			if (ret)
				return ret;
			ret = line_resize(con, con->alt_lines[i], x);
			if (ret)
				return ret;
		}
	}
""","""		for (i = 0; i < con->line_num; ++i) {
			ret = line_resize(con, con->main_lines[i], x);
			if (ret)
				return ret;
			ret = line_resize(con, con->alt_lines[i], x);
			if (ret)
				return ret;
		}

		con->size_x = x;
		tab_ruler = realloc(con->tab_ruler, sizeof(bool) * x);
		if (!tab_ruler)
			return -ENOMEM;
		con->tab_ruler = tab_ruler;
	}
""")],H+r"""
static int fail;
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) { return fail && n == 50 ? NULL : __real_realloc(p, n); }
int main(void)
{
	start(10, 3, 0);
	fail = 1;
	CHECK(tsm_screen_resize(con, 50, 3) != 0, " ");
	CHECK(tsm_screen_get_width(con) == 10, "%u", tsm_screen_get_width(con));
	DONE();
}
""","the last allocation of a resize fails","the resize fails, but the screen has the new width already and a too short tab ruler",libs="-Wl,--wrap=realloc ")

P("c03-p-any","C03",[(V,"""	case 'c':
		flags = CSI_GT;
		break;
""","""	case 'c':
		flags = CSI_GT;
		break;
	case 'q':
	case 'r':
		flags = vte->csi_flags;
		break;
""")],H+r"""
int main(void)
{
	start(10, 5, 0);
	feed("\e[?2;3r\e[5;1Ha\nb");
	CHECK(con->margin_top == 0 && con->margin_bottom == 4, "%u %u", con->margin_top, con->margin_bottom);
	DONE();
}
""","the sequence to restore private modes, which is not supported","it sets margins and moves the cursor")

P("c15-alt-repeat","C15",[(V,"""	if (mods & TSM_ALT_MASK)
		vte->flags |= TSM_VTE_FLAG_PREPEND_ESCAPE;
""","""	if ((mods & TSM_ALT_MASK) &&
	    (vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE))
		vte->flags |= TSM_VTE_FLAG_PREPEND_ESCAPE;
""")],H+r"""
int main(void)
{
	start(10, 5, 0);
	feed("\e[12l");
	tsm_vte_handle_keyboard(vte, 'a', 'a', TSM_ALT_MASK, 'a');
	CHECK(outn == 2 && !memcmp(out, "\ea", 2), "%zu", outn);
	DONE();
}
""","Alt is pressed while local echo is on","the ESC is not sent")

P("c21-single-keep","C21",[(V,"""	case 33 ... 126:
		if (vte->glt) {
			val = (**vte->glt)[val - 32];
			vte->glt = NULL;
		} else {
""","""	case 33 ... 126:
		if (vte->glt) {
			/* the character may be absent in this set */
			if ((**vte->glt)[val - 32] != val)
				val = (**vte->glt)[val - 32];
			else if (vte->gl != vte->glt)
				val = (**vte->gl)[val - 32];
			vte->glt = NULL;
		} else {
""")],H+r"""
int main(void)
{
	start(10, 5, 0);
	feed("\e(0\e*B\eNq");
	draw();
	CHECK(grid[0][0] == 'q', "%x", grid[0][0]);
	DONE();
}
""","a single shift to a set that maps the character to itself while another set is locked","the character is mapped by the locked set")

P("c19-null-first","C19",[(V,"""static void save_state(struct tsm_vte *vte)
{
""","""static void save_state(struct tsm_vte *vte)
{
	/* a shift for one character belongs to the text, not to the state */
	vte->glt = NULL;

""")],H+r"""
int main(void)
{
	start(10, 5, 0);
	feed("\e*0\eN\e7q");
	draw();
	CHECK(grid[0][0] != 'q', "%x", grid[0][0]);
	DONE();
}
""","the cursor is saved between a single shift and its character","the shift is lost")

P("c11-tab-left-neg","C11",[(C,"""		for (j = x - 1; j > 0; --j) {
			if (con->tab_ruler[j])
				break;
		}

		if (j <= 0) {
			x = 0;
			break;
		}
		x = j;
""","""		for (j = x - 1; !con->tab_ruler[j]; --j)
			;

		/* there is always a stop in the first column */
		if (j <= 0) {
			x = 0;
			break;
		}
		x = j;
""")],H+r"""
int main(void)
{
	start(10, 5, 0);
	feed("abc\e[3g\e[Z");
	CUR(0, 0);
	DONE();
}
""","all tab stops are cleared, then a tab goes back","memory in front of the tab ruler is read",flags="-fsanitize=address ")

P("c31-insert-wide","C31",[(C,"""	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
	    x + len < con->size_x) {
		line->age = con->age_cnt;
		memmove(&line->cells[x + len], &line->cells[x],
			sizeof(struct cell) * (con->size_x - len - x));
	}
""","""	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
	    x + len < con->size_x) {
		line->age = con->age_cnt;
		/* there is nothing to move behind the last character */
		for (i = con->size_x; i > x + len; --i)
			if (line->cells[i - 1].ch)
				break;
		if (i > con->size_x - len)
			i = con->size_x - len;
		if (i > x)
			memmove(&line->cells[x + len], &line->cells[x],
				sizeof(struct cell) * (i - x));
	}
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e[44m\e[2X\e[m\e[4h\e[1;1Hx");
	draw();
	CHECK(gattr[0][2].bccode == 4, "%d", gattr[0][2].bccode);
	DONE();
}
""","insert mode in front of coloured blanks","the coloured blanks are not moved")

P("c33-tostop","C33",[(PTY,"""	attr.c_cc[VERASE] = 010;
""","""	attr.c_cc[VERASE] = 010;
	/* background programs must not mix up the screen */
	attr.c_lflag |= TOSTOP;
""")],PH+r"""
static void in(struct shl_pty *q, void *d, char *b, size_t l) { }
int main(void)
{
	struct shl_pty *p; struct termios t; pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { pause(); _exit(0); }
	if (pid < 0) return 9;
	CHECK(!tcgetattr(shl_pty_get_fd(p), &t) && !(t.c_lflag & TOSTOP), " ");
	kill(pid, 9);
	DONE();
}
""","a program writes from the background","it is stopped")

P("c24-late-size","C24",[(PTY,"""	/* wait for child setup */
	d = pty_recv(comm[0]);
	close(comm[0]);
	if (d != SHL_PTY_SETUP)
		return -EINVAL;
""","""	/* wait for child setup */
	d = pty_recv(comm[0]);
	if (d != SHL_PTY_SETUP)
		return -EINVAL;
	close(comm[0]);
""")],PH+r"""
static void in(struct shl_pty *q, void *d, char *b, size_t l) { }
#include <fcntl.h>
int __real_dup2(int a, int b);
int __wrap_dup2(int a, int b) { errno = EBADF; return -1; }
int main(void)
{
	struct shl_pty *p; pid_t pid; int a, b, i;
	for (a = 0, i = 3; i < 50; ++i) a += fcntl(i, F_GETFD) >= 0;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) _exit(0);
	CHECK(pid < 0, "%d", pid);
	for (b = 0, i = 3; i < 50; ++i) b += fcntl(i, F_GETFD) >= 0;
	CHECK(a == b, "%d %d", a, b);
	DONE();
}
""","the child fails during its setup","the descriptor of the setup pipe is leaked",libs="-Wl,--wrap=dup2 ")
