V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"; U="src/tsm/tsm-unicode.c"; SE="src/tsm/tsm-selection.c"
HT="src/shared/shl-htable.c"; RG="src/shared/shl-ring.c"; AR="src/shared/shl-array.h"
H='#include "common.h"\n'

P("c06-scroll-big","C06",[(C,"""		screen_scroll_up(con, 128);
		return screen_scroll_up(con, num - 128);
""","""		screen_scroll_up(con, 128);
		num -= 128;
		if (num > 128)
			num = 128;
		return screen_scroll_up(con, num);
""")],H+r"""
int main(void)
{
	start(3, 300, 1000);
	feed("\e[270S");
	CHECK(tsm_screen_sb_get_line_count(con) == 270, "%u", tsm_screen_sb_get_line_count(con));
	DONE();
}
""","more than 256 lines are scrolled at once","the lines beyond are not scrolled")

P("c13-spare-lines","C13",[("src/tsm/libtsm-int.h","""	struct line *sb_last;""","""	struct line *spare;		/* lines to use again */
	struct line *sb_last;"""),(C,"""	if (!width)
		return -EINVAL;

	line = malloc(sizeof(*line));
""","""	if (!width)
		return -EINVAL;

	line = con->spare;
	if (line && line->size == width) {
		con->spare = line->next;
		line->next = NULL;
		line->prev = NULL;
		line->age = con->age_cnt;
		for (i = 0; i < width; ++i)
			screen_cell_init(con, &line->cells[i]);
		*out = line;
		return 0;
	}

	line = malloc(sizeof(*line));
"""),(C,"""				con->sel_end.y = SELECTION_TOP;
			}
		}
		line_free(tmp);
	}

	line->sb_id""","""				con->sel_end.y = SELECTION_TOP;
			}
		}
		tmp->next = con->spare;
		con->spare = tmp;
	}

	line->sb_id"""),(C,"""	tsm_symbol_table_unref(con->sym_table);
	tsm_screen_clear_sb(con);
	free(con);
""","""	tsm_symbol_table_unref(con->sym_table);
	tsm_screen_clear_sb(con);
	while (con->spare) {
		struct line *tmp = con->spare;

		con->spare = tmp->next;
		line_free(tmp);
	}
	free(con);
""")],r"""
#define _GNU_SOURCE
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libtsm.h"
static void cycle(struct tsm_screen *s)
{
	tsm_screen_resize(s, 100, 24);
	tsm_screen_scroll_up(s, 20);
	tsm_screen_scroll_up(s, 20);
	tsm_screen_resize(s, 80, 24);
	tsm_screen_scroll_up(s, 20);
	tsm_screen_scroll_up(s, 20);
}
int main(void)
{
	struct tsm_screen *s;
	size_t a, b;
	int i;
	tsm_screen_new(&s, NULL, NULL);
	tsm_screen_set_max_sb(s, 20);
	for (i = 0; i < 5; ++i)
		cycle(s);
	a = mallinfo2().uordblks;
	for (i = 0; i < 50; ++i)
		cycle(s);
	b = mallinfo2().uordblks;
	if (b > a + 500000) {
		printf("%zu bytes more\n", b - a);
		return 1;
	}
	return 0;
}
""","scrolling with a full scrollback while the width changes","lines of other widths pile up in a list")

P("c27-palette-static","C27",[(V,"""	if (palette_name) {
		tmp = strdup(palette_name);
""","""	static char last[32];

	if (palette_name && *last && vte->palette_name &&
	    !strncmp(palette_name, last, sizeof(last) - 1))
		return 0;
	snprintf(last, sizeof(last), "%s", palette_name ? palette_name : "");

	if (palette_name) {
		tmp = strdup(palette_name);
""")],H+r"""
int main(void)
{
	struct tsm_screen *c2;
	struct tsm_vte *v2;
	struct tsm_screen_attr a;
	start(10, 3, 0);
	tsm_screen_new(&c2, NULL, NULL);
	tsm_vte_new(&v2, c2, write_cb, NULL, NULL, NULL);
	tsm_vte_set_palette(vte, "vga");
	tsm_vte_set_palette(v2, "solarized");
	tsm_vte_set_palette(vte, "solarized");
	tsm_vte_get_def_attr(vte, &a);
	CHECK(a.fr == 238 && a.br == 7, "%u %u", a.fr, a.br);
	DONE();
}
""","a palette is set that another terminal has been given last","the palette is not changed")

P("c08-sel-reset-skip","C08",[(SE,"""	screen_inc_age(con);
	/* TODO: more sophisticated ageing */
	con->age = con->age_cnt;

	con->sel_active = false;
""","""	screen_inc_age(con);
	/* nothing to draw if the selection is not in the view */
	if (con->sb_pos || !con->sel_start.line || con->sel_start.line == con->sb_last)
		con->age = con->age_cnt;

	con->sel_active = false;
""")],H+r"""
int main(void)
{
	unsigned a;
	start(4, 2, 10);
	feed("aaaabbbb");
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_selection_target(con, 1, 1);
	feed("\r\nccccdddd");
	feed("\e[1;1Hcccc");
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_sb_up(con, 2);
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_sb_reset(con);
	tsm_screen_selection_target(con, 1, 0);
	a = draw();
	tsm_screen_selection_reset(con);
	draw();
	CHECK(!gattr[0][0].inverse, "still highlighted");
	CHECK(!a || gage[0][0] == 0 || gage[0][0] > a, "age %u of %u", gage[0][0], a);
	DONE();
}
""","a selection from the scrollback to the screen is removed","the highlight remains in the incremental picture")

P("c34-log-arg","C34",[(V,"""		default:
			llog_debug(vte, "unknown DEC %set-Mode %d",
				   set?"S":"Res", vte->csi_argv[i]);
			continue;
""","""		default:
			if (vte->llog)
				llog_debug(vte, "unknown DEC %set-Mode %d",
					   set?"S":"Res", vte->csi_argv[i++]);
			continue;
""")],r"""
#include <stdarg.h>
#include <stdio.h>
#include "libtsm.h"
static void lg(void *d, const char *f, int l, const char *fn, const char *s, unsigned int sev, const char *fmt, va_list a) { }
static void wr(struct tsm_vte *v, const char *u8, size_t len, void *data) { }
int main(void)
{
	unsigned f[2];
	int i;
	for (i = 0; i < 2; ++i) {
		struct tsm_screen *s;
		struct tsm_vte *v;
		tsm_screen_new(&s, NULL, NULL);
		tsm_vte_new(&v, s, wr, NULL, i ? lg : NULL, NULL);
		tsm_vte_input(v, "\e[?9999;1h", 10);
		f[i] = tsm_vte_get_flags(v);
	}
	if (f[0] != f[1]) {
		printf("%x %x\n", f[0], f[1]);
		return 1;
	}
	return 0;
}
""","an unknown mode precedes a known one and a log callback is set","the mode after the unknown one is not set")

P("c14-small-buf","C14",[(V,"""static void csi_dsr(struct tsm_vte *vte)
{
	char buf[64];
""","""static void csi_dsr(struct tsm_vte *vte)
{
	char buf[10];
""")],H+r"""
int main(void)
{
	start(200, 120, 0);
	feed("\e[110;110H\e[6n");
	CHECK(outn == 10 && !memcmp(out, "\e[110;110R", 10), "%s", out);
	DONE();
}
""","a cursor query with both coordinates beyond 99","the reply is 0;0")

P("c12-ruler-first","C12",[(C,"""		con->tab_ruler = tab_ruler;

		for (i = 0; i < con->line_num; ++i) {
			ret""","""		con->tab_ruler = tab_ruler;
		for (i = 0; i < x; ++i)
			con->tab_ruler[i] = !(i % 8);

		for (i = 0; i < con->line_num; ++i) {
			ret"""),(C,"""	/* reset tabs */
	for (i = 0; i < x; ++i) {
		if (i % 8 == 0)
			con->tab_ruler[i] = true;
		else
			con->tab_ruler[i] = false;
	}

	/* We need""","""	/* reset tabs */
	for (i = 0; i < x && x <= con->size_x; ++i) {
		if (i % 8 == 0)
			con->tab_ruler[i] = true;
		else
			con->tab_ruler[i] = false;
	}

	/* We need""")],H+r"""
#include <dlfcn.h>
static int left = -1;
void *realloc(void *p, size_t n)
{
	static void *(*real)(void *, size_t);
	if (!real)
		real = dlsym(RTLD_NEXT, "realloc");
	if (left == 0)
		return NULL;
	if (left > 0)
		--left;
	return real(p, n);
}
int main(void)
{
	int r;
	start(20, 3, 0);
	feed("\e[3g\e[1;5H\eH\e[1;1H");
	left = 1;
	r = tsm_screen_resize(con, 100, 3);
	left = -1;
	CHECK(r < 0, "%d", r);
	feed("\tX");
	draw();
	CHECK(grid[0][4] == 'X', "cursor %u", tsm_screen_get_cursor_x(con));
	DONE();
}
""","memory runs out while lines are widened and there are custom tab stops","the tab stops are reset although resizing failed")

P("c11-tab-steps","C11",[(C,"""		x = j;
		if (x + 1 >= con->size_x)
			break;
""","""		x = j;
""")],H+r"""
#include <time.h>
int main(void)
{
	clock_t t;
	start(80, 24, 0);
	t = clock();
	tsm_screen_tab_right(con, 4294967295u);
	CHECK(clock() - t < CLOCKS_PER_SEC / 4, "%ld", (long)(clock() - t));
	DONE();
}
""","a huge number of tabs","the call works for seconds")

P("c15-echo-lf","C15",[(V,"""	if (mods & TSM_ALT_MASK)
		vte->flags |= TSM_VTE_FLAG_PREPEND_ESCAPE;
""","""	if ((mods & TSM_ALT_MASK) &&
	    !(mods & TSM_CONTROL_MASK && keysym >= XKB_KEY_F1 && keysym <= XKB_KEY_F12))
		vte->flags |= TSM_VTE_FLAG_PREPEND_ESCAPE;
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	tsm_vte_handle_keyboard(vte, 0xffbe, 0, TSM_ALT_MASK | TSM_CONTROL_MASK, -1);
	CHECK(outn == 4 && !memcmp(out, "\e\eOP", 4), "%zu", outn);
	DONE();
}
""","Control, Alt and a function key","the ESC for Alt is not sent")

P("c22-eagain-drop","C22",[(PTY,"""		r = writev(pty->fd, vec, (int)num);
		if (r < 0) {
			if (errno == EAGAIN)
				return 0;
			if (errno == EINTR)""","""		r = writev(pty->fd, vec, (int)num);
		if (r < 0 && num > 1 && errno == EINTR)
			r = writev(pty->fd, vec, 1) < 0 ? -1 : (ssize_t)vec[0].iov_len;
		if (r < 0) {
			if (errno == EAGAIN)
				return 0;
			if (errno == EINTR)""")],r"""
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "shl-pty.h"
static int mode;
static char got[1 << 16];
static size_t gotn;
ssize_t writev(int fd, const struct iovec *v, int n)
{
	size_t k, want = 0;
	int i;
	if (mode == 0) {
		errno = EAGAIN;
		return -1;
	}
	if (mode == 2 && n > 1) {
		mode = 3;
		errno = EINTR;
		return -1;
	}
	for (i = 0; i < n; ++i)
		want += v[i].iov_len;
	if (mode == 3 || (mode == 1 && want > 3000))
		want = mode == 3 ? 10 : 3000;
	mode = mode == 3 ? 4 : mode;
	k = want;
	for (i = 0; i < n && k; ++i) {
		size_t c = v[i].iov_len < k ? v[i].iov_len : k;
		memcpy(got + gotn, v[i].iov_base, c);
		gotn += c;
		k -= c;
	}
	return want;
}
static void in(struct shl_pty *p, void *d, char *u8, size_t len) { }
int main(void)
{
	struct shl_pty *p;
	static char sent[1 << 16];
	size_t sn = 0, i;
	int k, r;
	pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) {
		pause();
		_exit(0);
	}
	if (pid < 0)
		return 9;
	for (i = 0; i < sizeof(sent); ++i)
		sent[i] = 'a' + i % 23;
	/* fill, take most out, fill again: the queue wraps around */
	shl_pty_write(p, sent, 4000), sn = 4000;
	mode = 1;
	shl_pty_dispatch(p);
	mode = 0;
	for (k = 0; k < 40; ++k) {
		shl_pty_write(p, sent + sn, 1000);
		sn += 1000;
		mode = 2;
		shl_pty_dispatch(p);
		mode = mode == 2 ? 1 : mode;
		for (r = 0; r < 20; ++r) {
			mode = mode == 4 ? 4 : 1;
			shl_pty_dispatch(p);
		}
		mode = 0;
	}
	mode = 4;
	for (r = 0; r < 20; ++r)
		shl_pty_dispatch(p);
	kill(pid, 9);
	waitpid(pid, NULL, 0);
	if (gotn != sn || memcmp(got, sent, sn)) {
		printf("%zu of %zu\n", gotn, sn);
		return 1;
	}
	return 0;
}
""","an interrupted write while the queue wraps around, followed by a short one","bytes that were not written are dropped")
