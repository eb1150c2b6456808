V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; U="src/tsm/tsm-unicode.c"
RING="src/shared/shl-ring.c"; PTY="src/shared/shl-pty.c"; HT="src/shared/shl-htable.c"
H='#include "common.h"\n'
ASAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
# failing allocations: F >= 0 counts down to the one that fails
OOM=r'''
static int F = -1;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return F >= 0 && F-- == 0 ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return F >= 0 && F-- == 0 ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return F >= 0 && F-- == 0 ? NULL : __real_realloc(p, n); }
'''
WRAP="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"
HEAP=r'''
#include <malloc.h>
static long used(void) { return (long)mallinfo2().uordblks; }
'''

P("c11-margin-linenum","C11",[(C,"	} else if (bottom > con->size_y) {","	} else if (bottom > con->line_num) {")],H+r"""
int main(void)
{
	int i;
	start(10, 12, 0);
	tsm_screen_resize(con, 10, 6);
	feed("\e[2;9r");
	for (i = 0; i < 30; ++i) {
		feed("\n");
		CHECK(tsm_screen_get_cursor_y(con) < 6, "cursor row %u of 6", tsm_screen_get_cursor_y(con));
	}
	draw();
	DONE();
}
""","a screen that was higher before, and margins beyond its current height","the margins reach into lines that are not on the screen, the cursor leaves the screen")

P("c11-params-17","C11",[(V,"""	if (vte->csi_argc < CSI_ARG_MAX)
		vte->csi_argc++;

	/* Private""","""	if (vte->csi_argc <= CSI_ARG_MAX)
		vte->csi_argc++;

	/* Private""")],H+r"""
int main(void)
{
	start(10, 4, 0);
	feed("\e[31m\e[1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;1;1mx");
	draw();
	CHECK(gattr[0][0].fccode == 1, "colour %d", gattr[0][0].fccode);
	DONE();
}
""","a control sequence with more parameters than there is room for","one element behind the parameter array is used as a parameter",flags=ASAN)

P("c12-scroll-oom-dirty","C12",[(C,"""			cache[i] = con->lines[pos];
			for (j = 0; j < con->size_x; ++j)
				screen_cell_init(con, &cache[i]->cells[j]);""","""			cache[i] = con->lines[pos];
			for (j = 0; ret == -EAGAIN && j < con->size_x; ++j)
				screen_cell_init(con, &cache[i]->cells[j]);""")],H+OOM+r"""
int main(void)
{
	start(10, 3, 5);
	feed("one\r\ntwo\r\nthree");
	F = 0; feed("\r\n"); F = -1;
	ROW(0, "two"); ROW(1, "three"); ROW(2, "");
	DONE();
}
""","an allocation that fails while the main screen scrolls","the line that could not go into the scrollback re-appears at the bottom",libs=WRAP)

P("c12-resize-size-first","C12",[(C,"""	if (line->size < width) {
		tmp = realloc(line->cells, width * sizeof(struct cell));
		if (!tmp)
			return -ENOMEM;

		line->cells = tmp;

		while (line->size < width) {
			screen_cell_init(con, &line->cells[line->size]);
			++line->size;
		}
	}""","""	if (line->size < width) {
		unsigned int i = line->size;

		line->size = width;
		tmp = realloc(line->cells, line->size * sizeof(struct cell));
		if (!tmp)
			return -ENOMEM;

		line->cells = tmp;

		for ( ; i < width; ++i)
			screen_cell_init(con, &line->cells[i]);
	}""")],H+OOM+r"""
int main(void)
{
	int i, k;
	for (k = 0; k < 12; ++k) {
		start(10, 3, 5);
		F = k; tsm_screen_resize(con, 60, 3); F = -1;
		CHECK(!tsm_screen_resize(con, 60, 3), "resize");
		for (i = 0; i < 20; ++i)
			feed("this is long enough to fill the line of the screen again\r\n");
		draw();
	}
	DONE();
}
""","widening fails in the middle, and succeeds when it is tried again","a line that could not be enlarged counts as enlarged, and is written to beyond its end",flags=ASAN,libs=WRAP)

P("c13-palette-null","C13",[(V,"""	free(vte->palette_name);
	vte->palette_name = tmp;

	return vte_update_palette(vte);""","""	if (tmp)
		free(vte->palette_name);
	vte->palette_name = tmp;

	return vte_update_palette(vte);""")],H+HEAP+r"""
int main(void)
{
	long a; int i;
	start(10, 3, 0);
	tsm_vte_set_palette(vte, "solarized"); tsm_vte_set_palette(vte, NULL);
	a = used();
	for (i = 0; i < 1000; ++i)
		tsm_vte_set_palette(vte, "solarized"), tsm_vte_set_palette(vte, NULL);
	CHECK(used() - a < 1000, "%ld bytes more", used() - a);
	DONE();
}
""","a palette is selected by name and dropped again","the name of the palette is never released")

P("c13-custom-palette","C13",[(V,"""	tsm_utf8_mach_free(vte->mach);
	free(vte->custom_palette_storage);""","""	tsm_utf8_mach_free(vte->mach);
	if (vte->palette == vte->custom_palette_storage)
		free(vte->custom_palette_storage);""")],H+HEAP+r"""
int main(void)
{
	static uint8_t p[TSM_COLOR_NUM][3];
	long a = 0; int i;
	for (i = 0; i < 500; ++i) {
		if (i == 10) a = used();
		start(10, 3, 0);
		tsm_vte_set_custom_palette(vte, p);
		tsm_vte_unref(vte); tsm_screen_unref(con); tsm_screen_unref(con);
	}
	CHECK(used() - a < 5000, "%ld bytes more", used() - a);
	DONE();
}
""","a custom palette is set but another one is in use when the terminal is destroyed","the custom palette is not released")

P("c14-report-buffer","C14",[(V,"""static void csi_dsr(struct tsm_vte *vte)
{
	char buf[64];""","""static void csi_dsr(struct tsm_vte *vte)
{
	char buf[8];""")],H+r"""
int main(void)
{
	start(100, 40, 0);
	feed("\e[12;34H\e[6n");
	CHECK(outn == 8 && !memcmp(out, "\e[12;34R", 8), "reply '%s'", out + 1);
	DONE();
}
""","a cursor that is at row and column 10 or more","the cursor report says 0;0")

P("c14-c1-reply","C14",[(V,"""	const static char str[] = "\\e[?60;1;6;9;15c";
	vte_write(vte, str, sizeof(str) - 1);""","""	const static char str[] = "\\e[?60;1;6;9;15c";
	const static char str8[] = "\\x9b?60;1;6;9;15c";

	if (vte->flags & TSM_VTE_FLAG_USE_C1)
		vte_write_raw(vte, str8, sizeof(str8) - 1);
	else
		vte_write(vte, str, sizeof(str) - 1);""")],H+r"""
int main(void)
{
	start(100, 40, 0);
	feed("\e G\e[c");
	CHECK(!strcmp(out, "\e[?60;1;6;9;15c"), "reply '%s'", out + 1);
	DONE();
}
""","8 bit controls were requested while the terminal speaks UTF-8","the reply starts with a byte that is not valid UTF-8")

P("c15-8bit-high","C15",[(V,"			if (unicode > 0xff) {","			if (unicode > 0x7f) {")],H+r"""
int main(void)
{
	start(10, 4, 0);
	feed("\e[62\"p");
	tsm_vte_handle_keyboard(vte, 0xe4, 0, 0, 0xe4);
	CHECK(outn == 1 && (unsigned char)out[0] == 0xe4, "sent %02x", out[0] & 255);
	DONE();
}
""","a Latin-1 character is typed in 8 bit mode","a '?' is sent instead of it")

P("c15-alt-unhandled","C15",[(V,"""	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
	return false;
}""","""	return false;
}""")],H+r"""
int main(void)
{
	start(10, 4, 0);
	tsm_vte_handle_keyboard(vte, 0xffe1, 0, TSM_ALT_MASK, TSM_VTE_INVALID);
	tsm_vte_handle_keyboard(vte, 'a', 'a', 0, 'a');
	CHECK(!strcmp(out, "a"), "sent '%s'", out);
	DONE();
}
""","a key without a meaning is pressed together with Alt, then another key without it","the ESC goes in front of the next key")

P("c16-x10-223","C16",[(V,"		if (cell_x > 0xff) {","		if (cell_x > 0x100) {")],H+r"""
int main(void)
{
	start(300, 10, 0);
	feed("\e[?9h");
	tsm_vte_handle_mouse(vte, 223, 2, 0, 0, 0, TSM_MOUSE_EVENT_PRESSED, 0);
	CHECK(outn == 6, "%zu bytes", outn);
	DONE();
}
""","a click in exactly one column beyond the reach of the old protocol","the report is cut short")

P("c16-last-col-byte","C16",[(V,"""	unsigned int mouse_last_col;
	unsigned int mouse_last_row;""","""	uint8_t mouse_last_col;
	uint8_t mouse_last_row;""")],H+r"""
int main(void)
{
	start(400, 10, 0);
	feed("\e[?1006h\e[?1003h");
	tsm_vte_handle_mouse(vte, 300, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	outn = 0;
	tsm_vte_handle_mouse(vte, 300, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(!outn, "%zu bytes", outn);
	DONE();
}
""","the mouse moves within a cell in column 256 or beyond","the movement is reported again and again")

P("c17-bold-grey","C17",[(V,"		if (attr->bold && code < 8)","		if (attr->bold && code <= 8)")],H+r"""
int main(void)
{
	start(10, 4, 0);
	feed("\e[90ma\e[1mb"); draw();
	CHECK(gattr[0][0].fr == gattr[0][1].fr && gattr[0][0].fb == gattr[0][1].fb, "%d %d", gattr[0][0].fr, gattr[0][1].fr);
	DONE();
}
""","bold text in dark grey","is drawn in the foreground colour")

P("c17-rgb-skip","C17",[(V,"				i += 4;","				i += 3;")],H+r"""
int main(void)
{
	start(10, 4, 0);
	feed("\e[38;2;9;8;7ma\e[38;2;9;8;97mb"); draw();
	CHECK(!gattr[0][0].inverse, "inverse");
	CHECK(gattr[0][1].fr == 9 && gattr[0][1].fg == 8 && gattr[0][1].fb == 97, "%d,%d,%d", gattr[0][1].fr, gattr[0][1].fg, gattr[0][1].fb);
	DONE();
}
""","a true colour whose blue value is also the number of an attribute","the blue value is interpreted as an attribute")

P("c18-mouse-cell","C18",[(V,"""	vte->mouse_event = 0;
	vte->mouse_last_col = 0;
	vte->mouse_last_row = 0;""","""	vte->mouse_event = 0;""")],H+r"""
int main(void)
{
	start(30, 10, 0);
	feed("\e[?1006h\e[?1003h");
	tsm_vte_handle_mouse(vte, 3, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	feed("\ec\e[?1006h\e[?1003h"); outn = 0;
	tsm_vte_handle_mouse(vte, 3, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(outn, "no report");
	DONE();
}
""","the mouse is moved within the cell that was reported last before the reset","the first movement after the reset is not reported")

P("c18-g3-kept","C18",[(V,"""	vte->g2 = &tsm_vte_unicode_lower;
	vte->g3 = &tsm_vte_unicode_upper;

	vte->mouse_mode""","""	vte->g2 = &tsm_vte_unicode_lower;
	if (!vte->g3)
		vte->g3 = &tsm_vte_unicode_upper;

	vte->mouse_mode""")],H+r"""
int main(void)
{
	uint32_t w;
	start(30, 10, 0); feed("\eOq"); draw(); w = grid[0][0];
	feed("\e+0\ec\eOq"); draw();
	CHECK(grid[0][0] == w, "%x instead of %x", grid[0][0], w);
	DONE();
}
""","G3 is designated before the reset and used after it","the designation survives the reset")

P("c19-gr-saved","C19",[(V,"""	vte->saved_state.gl = vte->gl;
	vte->saved_state.gr = vte->gr;
	vte->saved_state.wrap""","""	vte->saved_state.gl = vte->gl;
	vte->saved_state.wrap""")],H+r"""
int main(void)
{
	uint32_t w;
	start(30, 10, 0);
	feed("\e*0\e}\xc3\xb1"); draw(); w = grid[0][0];
	feed("\e7\e~\e8\r\xc3\xb1"); draw();
	CHECK(grid[0][0] == w, "%x instead of %x", grid[0][0], w);
	DONE();
}
""","another set is invoked into GR before the save, and changed after it","the set that was invoked into GR is not restored")

P("c19-attr-fields","C19",[(V,"	vte->saved_state.cattr = vte->cattr;\n","""	copy_fcolor(&vte->saved_state.cattr, &vte->cattr);
	copy_bcolor(&vte->saved_state.cattr, &vte->cattr);
	vte->saved_state.cattr.bold = vte->cattr.bold;
	vte->saved_state.cattr.underline = vte->cattr.underline;
	vte->saved_state.cattr.inverse = vte->cattr.inverse;
	vte->saved_state.cattr.protect = vte->cattr.protect;
	vte->saved_state.cattr.blink = vte->cattr.blink;
""")],H+r"""
int main(void)
{
	start(30, 10, 0);
	feed("\e[3m\e7\e[m\e8x"); draw();
	CHECK(gattr[0][0].italic, "not italic");
	DONE();
}
""","the cursor is saved while italic text is selected","italic is not restored")

P("c20-osc-del","C20",[(V,"""		case 0x20 ... 0x7f:
			do_trans(vte, raw, STATE_NONE, ACTION_OSC_COLLECT);
			return;
		case 0x07:""","""		case 0x20 ... 0x7e:
			do_trans(vte, raw, STATE_NONE, ACTION_OSC_COLLECT);
			return;
		case 0x7f:
			do_trans(vte, raw, STATE_GROUND, ACTION_IGNORE);
			return;
		case 0x07:""")],H+r"""
static char got[256]; static int n;
static void osc(struct tsm_vte *v, const char *s, size_t l, void *d) { ++n; snprintf(got, sizeof(got), "%.*s", (int)l, s); }
int main(void)
{
	start(30, 10, 0);
	tsm_vte_set_osc_cb(vte, osc, NULL);
	feed("\e]2;ab\x7f" "cd\x07");
	CHECK(n == 1 && !strcmp(got, "2;ab\x7f" "cd"), "%d: '%s'", n, got);
	ROW(0, "");
	DONE();
}
""","a DEL inside of a string","ends the string, and the rest of it is shown on the screen")

P("c20-osc-stale","C20",[(V,"""		case ACTION_OSC_START:
			do_clear(vte);
			break;""","""		case ACTION_OSC_START:
			/* the parameters were cleared by the introducer */
			vte->osc_len = 0;
			break;""")],H+r"""
static char got[256]; static int n;
static void osc(struct tsm_vte *v, const char *s, size_t l, void *d) { ++n; snprintf(got, sizeof(got), "%.*s", (int)l, s); }
int main(void)
{
	char b[400];
	start(30, 10, 0);
	tsm_vte_set_osc_cb(vte, osc, NULL);
	memset(b, 'x', 300); b[300] = 0;
	feed("\xc2\x9d"); feed(b); feed("\x07");
	feed("\xc2\x9d" "2;ab\x07");
	CHECK(n == 2 && !strcmp(got, "2;ab"), "%d: '%s'", n, got);
	DONE();
}
""","a string that is too long, followed by one that is introduced by the C1 control","the second string is lost")

P("c21-shift-identity","C21",[(V,"""			val = (**vte->glt)[val - 32];
			vte->glt = NULL;""","""			uint32_t m = (**vte->glt)[val - 32];

			if (m != val)
				vte->glt = NULL;
			val = m;""")],H+r"""
int main(void)
{
	start(30, 10, 0);
	feed("\e*0\eNAqq"); draw();
	CHECK(grid[0][0] == 'A' && grid[0][1] == 'q', "%x %x", grid[0][0], grid[0][1]);
	DONE();
}
""","a single shift in front of a character that its set leaves alone","the shift applies to a later character")

P("c21-shift-sequence","C21",[(V,"""	vte->csi_argc = 0;
	for (i = 0; i < CSI_ARG_MAX; ++i)
		vte->csi_argv[i] = -1;
	vte->csi_flags = 0;
""","""	vte->csi_argc = 0;
	for (i = 0; i < CSI_ARG_MAX; ++i)
		vte->csi_argv[i] = -1;
	vte->csi_flags = 0;
	vte->glt = NULL;
	vte->grt = NULL;
""")],H+r"""
int main(void)
{
	uint32_t w;
	start(30, 10, 0);
	feed("\e*0\eNq"); draw(); w = grid[0][0];
	feed("\r\eN\e[1mq"); draw();
	CHECK(grid[0][0] == w, "%x instead of %x", grid[0][0], w);
	DONE();
}
""","an escape sequence between a single shift and its character","the shift is forgotten")

RINGT='#include "common.h"\n#include "shl-ring.h"\n#include <sys/uio.h>\n'
P("c22-ring-pos-early","C22",[(RING,"""	err = ring_grow(r, size);
	if (err < 0)
		return err;

	pos = RING_MASK(r, r->start + r->used);
	l = r->size - pos;""","""	pos = r->size ? RING_MASK(r, r->start + r->used) : 0;

	err = ring_grow(r, size);
	if (err < 0)
		return err;

	l = r->size - pos;""")],RINGT+r"""
int main(void)
{
	static unsigned char a[20000], b[20000]; struct shl_ring r; size_t i, n;
	for (i = 0; i < sizeof(a); ++i) a[i] = i * 7 + i / 251;
	memset(&r, 0, sizeof(r));
	shl_ring_push(&r, a, 3000); shl_ring_pull(&r, 2500);
	shl_ring_push(&r, a + 3000, 9000);
	n = shl_ring_copy(&r, b, sizeof(b));
	CHECK(n == 9500 && !memcmp(a + 2500, b, n), "%zu bytes or content", n);
	DONE();
}
""","the buffer grows after something has been taken out of it","the new bytes go to the wrong place")

P("c22-write-chunks","C22",[(PTY,"""	return shl_ring_push(&pty->out_buf, u8, len);""","""	size_t n;
	int r;

	/* grow the buffer in steps, callers might paste a lot at once */
	for ( ; len; u8 += n, len -= n) {
		n = len > SHL_PTY_BUFSIZE ? SHL_PTY_BUFSIZE : len;
		r = shl_ring_push(&pty->out_buf, u8, n);
		if (r < 0)
			return r;
	}

	return 0;""")],H+OOM+r"""
#include "shl-pty.h"
#include <unistd.h>
static ssize_t total;
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { ssize_t s = 0; for (int i = 0; i < n; ++i) s += v[i].iov_len; total += s; return s; }
static void in(struct shl_pty *p, void *d, char *b, size_t l) {}
int main(void)
{
	struct shl_pty *p; static char b[60000]; pid_t pid; int i, r, k;
	for (k = 1; k < 4; ++k) {
		pid = shl_pty_open(&p, in, NULL, 80, 24);
		if (!pid) { pause(); _exit(0); }
		if (pid < 0) return 9;
		total = 0;
		F = k; r = shl_pty_write(p, b, sizeof(b)); F = -1;
		for (i = 0; i < 20; ++i) shl_pty_dispatch(p);
		CHECK(total == (r < 0 ? 0 : (ssize_t)sizeof(b)), "returned %d, sent %zd", r, total);
		kill(pid, 9);
		shl_pty_unref(p);
	}
	DONE();
}
""".replace("#include <unistd.h>","#include <unistd.h>\n#include <signal.h>\n#include <sys/uio.h>"),"an allocation that fails after the first part of a large write","the write is reported as failed although its beginning was queued",libs=WRAP+",--wrap=writev")

P("c23-short-read","C23",[(PTY,"""		} else if (len > 0 && pty->fn_input) {
			/* set""","""		} else if ((size_t)len < sizeof(pty->in_buf) / 2) {
			/* nothing more is queued, wait for the next edge */
			pty->in_buf[len] = 0;
			if (pty->fn_input)
				pty->fn_input(pty, pty->fn_input_data,
					      pty->in_buf, len);
			return 0;
		} else if (len > 0 && pty->fn_input) {
			/* set""")],H+r"""
#include "shl-pty.h"
#include <unistd.h>
#include <signal.h>
#include <sys/epoll.h>
static size_t got;
static void in(struct shl_pty *p, void *d, char *b, size_t l) { got += l; }
static int shortly;
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { return __real_read(fd, b, shortly && n > 100 ? 100 : n); }
int main(void)
{
	struct shl_pty *p; pid_t pid; int br, i;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { char b[3000]; memset(b, 'x', sizeof(b)); write(1, b, sizeof(b)); pause(); _exit(0); }
	if (pid < 0) return 9;
	br = shl_pty_bridge_new();
	shl_pty_bridge_add(br, p);
	usleep(300000);
	shortly = 1;
	for (i = 0; i < 200; ++i) shl_pty_bridge_dispatch(br, 20);
	CHECK(got == 3000, "%zu bytes", got);
	kill(pid, 9);
	DONE();
}
""","a read that returns less than what is pending","the rest stays in the kernel as there is no further edge",libs="-Wl,--wrap=read")

P("c23-rearm-in","C23",[(PTY,"""		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;""","""		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLET;
		if (shl_ring_get_size(&pty->out_buf) > 0)
			up.events |= EPOLLOUT;""")],H+r"""
#include "shl-pty.h"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <termios.h>
static size_t got;
static void in(struct shl_pty *p, void *d, char *b, size_t l) { got += l; }
int main(void)
{
	struct shl_pty *p; pid_t pid; int br, i; static char b[200000]; int done = 0, st;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) {
		struct termios t; size_t n = 0; static char x[40000];
		tcgetattr(0, &t); cfmakeraw(&t); tcsetattr(0, TCSANOW, &t);
		for (i = 0; i < 4; ++i) write(1, x, 10000);
		sleep(1);
		while (n < sizeof(b)) { ssize_t r = read(0, x, sizeof(x)); if (r <= 0) break; n += r; }
		_exit(n == sizeof(b) ? 0 : 3);
	}
	if (pid < 0) return 9;
	usleep(200000);
	br = shl_pty_bridge_new();
	shl_pty_bridge_add(br, p);
	for (i = 0; i < 30; ++i) shl_pty_bridge_dispatch(br, 10);
	shl_pty_write(p, b, sizeof(b));
	shl_pty_bridge_dispatch_pty(br, p);
	for (i = 0; i < 150 && !done; ++i) { shl_pty_bridge_dispatch(br, 20); done = waitpid(pid, &st, WNOHANG) == pid; }
	CHECK(done && WIFEXITED(st) && WEXITSTATUS(st) == 0, "the client did not get everything");
	if (!done) kill(pid, 9);
	DONE();
}
""","the bridge is re-armed after much input while nothing is queued, and a large write follows","the bridge never reports again that the client can take more")

P("c24-dup2-all","C24",[(PTY,"""	if (dup2(slave, STDIN_FILENO) != STDIN_FILENO ||
	    dup2(slave, STDOUT_FILENO) != STDOUT_FILENO ||
	    dup2(slave, STDERR_FILENO) != STDERR_FILENO)
		return -errno;""","""	for (i = STDIN_FILENO; i <= STDERR_FILENO; ++i)
		r = dup2(slave, i);
	if (r != STDERR_FILENO)
		return -errno;"""),(PTY,"""	struct termios attr;
	struct winsize ws;

	/* get""","""	struct termios attr;
	struct winsize ws;
	int i, r = -1;

	/* get""")],H+r"""
#include "shl-pty.h"
#include <unistd.h>
#include <signal.h>
static void in(struct shl_pty *p, void *d, char *b, size_t l) {}
static int bad = -1; int __real_dup2(int, int);
int __wrap_dup2(int a, int b) { if (b == bad) { errno = EMFILE; return -1; } return __real_dup2(a, b); }
int main(void)
{
	struct shl_pty *p; pid_t pid;
	for (bad = 0; bad < 3; ++bad) {
		pid = shl_pty_open(&p, in, NULL, 80, 24);
		if (!pid) { pause(); _exit(0); }
		CHECK(pid < 0, "success without fd %d", bad);
		if (pid > 0) kill(pid, 9), shl_pty_unref(p);
	}
	DONE();
}
""","duplicating the terminal to one of the first two standard streams fails in the child","opening reports success",libs="-Wl,--wrap=dup2")

P("c24-size-besteffort","C24",[(PTY,"""	if (ioctl(slave, TIOCSWINSZ, &ws) < 0)
		return -errno;

	if (dup2""","""	/* the parent can still set the size with shl_pty_resize() */
	ioctl(slave, TIOCSWINSZ, &ws);

	if (dup2""")],H+r"""
#include "shl-pty.h"
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/ioctl.h>
static void in(struct shl_pty *p, void *d, char *b, size_t l) {}
int __real_ioctl(int, unsigned long, void *);
int __wrap_ioctl(int fd, unsigned long req, ...) { va_list a; void *p; va_start(a, req); p = va_arg(a, void *); va_end(a); if (req == TIOCSWINSZ) { errno = ENOMEM; return -1; } return __real_ioctl(fd, req, p); }
int main(void)
{
	struct shl_pty *p; pid_t pid;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { pause(); _exit(0); }
	CHECK(pid < 0, "success without the size");
	if (pid > 0) kill(pid, 9), shl_pty_unref(p);
	DONE();
}
""","setting the size fails in the child","opening reports success although the terminal does not have the requested size",libs="-Wl,--wrap=ioctl")

SYM=H+OOM
P("c25-index-first","C25",[(U,"""	ret = shl_htable_insert(&tbl->symbols, nval, hash_ucs4(nval, NULL));
	if (ret)
		goto err_id;

	ret = shl_array_push(tbl->index, &nval);
	if (ret)
		goto err_symbol;

	return nsym;

err_symbol:
	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
err_id:""","""	ret = shl_array_push(tbl->index, &nval);
	if (ret)
		goto err_id;

	ret = shl_htable_insert(&tbl->symbols, nval, hash_ucs4(nval, NULL));
	if (ret)
		goto err_id;

	return nsym;

err_id:""")],SYM+r"""
int main(void)
{
	struct tsm_symbol_table *t; tsm_symbol_t s[40]; size_t n; const uint32_t *u; int i, k;
	tsm_symbol_table_new(&t);
	for (i = 0; i < 40; ++i) {
		for (k = 1; k < 4; ++k) { F = k; tsm_symbol_append(t, 'a' + i, 0x300 + i); F = -1; }
		s[i] = tsm_symbol_append(t, 'a' + i, 0x300 + i);
	}
	for (i = 0; i < 40; ++i) {
		u = tsm_symbol_get(t, &s[i], &n);
		CHECK(n == 2 && u[0] == 'a' + i && u[1] == 0x300 + i, "symbol %d has %zu characters", i, n);
	}
	DONE();
}
""","the hash table cannot grow when a symbol is added","the index is off by one for all later symbols, and keeps a dangling entry",libs=WRAP)

P("c25-id-lost","C25",[(U,"""err_id:
	--tbl->next_id;
	free(--nval);""","""err_id:
	free(--nval);""")],SYM+r"""
int main(void)
{
	struct tsm_symbol_table *t; tsm_symbol_t s[40]; size_t n; const uint32_t *u; int i, k;
	tsm_symbol_table_new(&t);
	for (i = 0; i < 40; ++i) {
		for (k = 1; k < 4; ++k) { F = k; tsm_symbol_append(t, 'a' + i, 0x300 + i); F = -1; }
		s[i] = tsm_symbol_append(t, 'a' + i, 0x300 + i);
	}
	for (i = 0; i < 40; ++i) {
		u = tsm_symbol_get(t, &s[i], &n);
		CHECK(n == 2 && u[0] == 'a' + i && u[1] == 0x300 + i, "symbol %d has %zu characters", i, n);
	}
	DONE();
}
""","a table cannot grow when a symbol is added","the ids of all later symbols do not fit to their index",libs=WRAP)

HTT=H+r"""
#include "shl-htable.h"
static size_t rh(const void *e, void *p) { return *(const unsigned long *)e; }
static bool cmp(const void *a, const void *b) { return a == b; }
static unsigned long v[64]; static unsigned in[64];
static unsigned rnd(void) { static unsigned s = 1; s = s * 1103515245 + 12345; return s >> 16; }
int main(void)
{
	struct shl_htable t; int i, k, m, n = 0; void *o;
	for (m = 0; m < 400; ++m) {
		shl_htable_init(&t, cmp, rh, NULL); memset(in, 0, sizeof(in)); n = 0;
		for (i = 0; i < 64; ++i) v[i] = rnd() % 8;
		for (k = 0; k < 300; ++k) {
			i = rnd() % 24;
			if (in[i]) { CHECK(shl_htable_remove(&t, &v[i], v[i], &o), "element %d not removed", i); in[i] = 0; --n; }
			else if (n < 6 + m % 7) { shl_htable_insert(&t, &v[i], v[i]); in[i] = 1; ++n; }
			for (i = 0; i < 24; ++i)
				if (shl_htable_lookup(&t, &v[i], v[i], &o) != in[i]) { CHECK(0, "element %d: %d", i, in[i]); return 1; }
		}
		shl_htable_clear(&t, NULL, NULL);
	}
	DONE();
}
"""
P("c26-rehash-start","C26",[(HT,"""	/* Beware wrap cases: we need to start from first empty bucket. */
	for (start = 0; ht->table[start]; start++);
""","""	/* start from the first bucket that does not hold an element */
	for (start = 0; entry_is_valid(ht->table[start]); start++);
""")],HTT,"the table is rehashed while a chain of collisions wraps around its end","an element becomes unreachable")

P("c26-del-shortcut","C26",[(HT,"""	ht->elems--;
	ht->table[i->off] = HTABLE_DELETED;
	ht->deleted++;""","""	ht->elems--;
	/* no need for a tombstone at the end of a chain */
	if (!entry_is_valid(ht->table[(i->off + 1) & ((1 << ht->bits)-1)])) {
		ht->table[i->off] = 0;
		return;
	}
	ht->table[i->off] = HTABLE_DELETED;
	ht->deleted++;""")],HTT,"an element is removed whose successor in the chain was removed before","the elements behind it become unreachable")

P("c27-osc-static","C27",[(V,"""	memcpy(vte->osc_arg + vte->osc_len, buf, len);""","""	memcpy(osc_buf + vte->osc_len, buf, len);"""),
(V,"""	vte->osc_arg[vte->osc_len] = 0;
	vte->osc_cb(vte, vte->osc_arg, vte->osc_len, vte->osc_data);""","""	osc_buf[vte->osc_len] = 0;
	vte->osc_cb(vte, osc_buf, vte->osc_len, vte->osc_data);"""),
(V,"""static void do_osc_collect(struct tsm_vte *vte, uint32_t val) {""","""/* strings are rare, one buffer is enough */
static char osc_buf[OSC_MAX_LEN];

static void do_osc_collect(struct tsm_vte *vte, uint32_t val) {""")],H+r"""
static char got[256];
static void osc(struct tsm_vte *v, const char *s, size_t l, void *d) { snprintf(got, sizeof(got), "%.*s", (int)l, s); }
int main(void)
{
	struct tsm_vte *a;
	start(10, 3, 0); a = vte; tsm_vte_set_osc_cb(a, osc, NULL);
	start(10, 3, 0);
	tsm_vte_input(a, "\e]2;hel", 7);
	feed("\e]2;other\a");
	tsm_vte_input(a, "lo\a", 3);
	CHECK(!strcmp(got, "2;hello"), "'%s'", got);
	DONE();
}
""","two terminals are each in the middle of a string","the payloads mix")

P("c27-mouse-static","C27",[(V,"""			if (cell_x == vte->mouse_last_col && cell_y == vte->mouse_last_row) {
				return false;
			}

			reply_flags = 35;
			pressed = true;

			vte->mouse_last_col = cell_x;
			vte->mouse_last_row = cell_y;""","""			static unsigned int last_col, last_row;

			if (cell_x == last_col && cell_y == last_row &&
			    vte->mouse_last_col) {
				return false;
			}

			reply_flags = 35;
			pressed = true;

			/* remember that there was a report at all */
			vte->mouse_last_col = 1;
			last_col = cell_x;
			last_row = cell_y;""")],H+r"""
int main(void)
{
	struct tsm_vte *a;
	start(30, 10, 0); feed("\e[?1006h\e[?1003h"); a = vte;
	start(30, 10, 0); feed("\e[?1006h\e[?1003h");
	tsm_vte_handle_mouse(a, 3, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	tsm_vte_handle_mouse(vte, 5, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	outn = 0;
	tsm_vte_handle_mouse(a, 3, 2, 0, 0, 0, TSM_MOUSE_EVENT_MOVED, 0);
	CHECK(!outn, "%zu bytes", outn);
	DONE();
}
""","the mouse moves over two terminals in turn","movement within one cell is reported again")
