V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"; U="src/tsm/tsm-unicode.c"; SE="src/tsm/tsm-selection.c"
H='#include "common.h"\n'
PH=H+r'''
#include "shl-pty.h"
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
'''

P("c02-plane16","C02",[(U,"""			mach->ch = (c & 0x07) << 18;
""","""			/* F0 to F3, everything above is out of range */
			mach->ch = (c & 0x03) << 18;
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("a\xf4\x80\x80\x81\x62");
	draw();
	CHECK(grid[0][0] == 'a' && grid[0][1] == 0x100001 && grid[0][2] == 'b', "U+%X U+%X U+%X", grid[0][0], grid[0][1], grid[0][2]);
	DONE();
}
""","a character from the last Unicode plane","it is dropped or shown as another one")

P("c09-count-sb","C09",[(SE,"""	iter = start->line;
	while (iter) {
		size += calc_line_copy_buffer(con, iter);

		if (iter == con->sb_last) {
""","""	iter = start->line;
	while (iter && iter != end->line) {
		size += calc_line_copy_buffer(con, iter);

		if (iter == con->sb_last) {
""")],r"""
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stddef.h>
static int guard;
static void *guarded(size_t n, size_t s)
{
	size_t len = n * s, pg = (len + 4095) & ~4095ul;
	char *p = mmap(0, pg + 4096, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(p + pg, 4096, 0);
	return p + pg - len;
}
extern void *__libc_calloc(size_t, size_t);
void *calloc(size_t n, size_t s)
{
	return guard ? guarded(n, s) : __libc_calloc(n, s);
}
"""+H+r"""
int main(void)
{
	char *s;
	int i, k, r;
	start(20, 2, 10);
	for (k = 0; k < 6; ++k) {
		for (i = 0; i < 20; ++i)
			feed("\xe2\x94\x80");
		if (k < 5)
			feed("\r\n");
	}
	tsm_screen_sb_up(con, 4);
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_selection_target(con, 19, 1);
	guard = 1;
	r = tsm_screen_selection_copy(con, &s);
	guard = 0;
	CHECK(r == 121, "%d", r);
	DONE();
}
""","a selection of full rows of box drawing characters that ends in the history","the copy is written past the end of its buffer")

P("c33-size-static","C33",[(PTY,"""	struct winsize ws;

	if (!shl_pty_is_open(pty))
		return -ENODEV;

	memset(&ws, 0, sizeof(ws));
	ws.ws_col = term_width;
	ws.ws_row = term_height;
""","""	static struct winsize ws;

	if (!shl_pty_is_open(pty))
		return -ENODEV;

	/* do not disturb the client without need */
	if (ws.ws_col == term_width && ws.ws_row == term_height)
		return 0;

	ws.ws_col = term_width;
	ws.ws_row = term_height;
""")],PH+r"""
static int size(struct shl_pty *p)
{
	struct winsize ws;
	memset(&ws, 0, sizeof(ws));
	ioctl(shl_pty_get_fd(p), TIOCGWINSZ, &ws);
	return ws.ws_col * 1000 + ws.ws_row;
}
int main(void)
{
	struct shl_pty *p[2];
	pid_t pid[2];
	int i;
	for (i = 0; i < 2; ++i) {
		pid[i] = shl_pty_open(&p[i], NULL, NULL, 80, 24);
		if (!pid[i]) { pause(); _exit(0); }
		if (pid[i] < 0) return 9;
	}
	for (i = 0; i < 2; ++i)
		shl_pty_resize(p[i], 100, 30);
	for (i = 0; i < 2; ++i) {
		CHECK(size(p[i]) == 100030, "terminal %d has size %d", i, size(p[i]));
		kill(pid[i], SIGKILL);
	}
	DONE();
}
""","two terminals resized to the same size","the second one keeps its old window size")

P("c17-inverse-bold","C17",[(V,"""			vte->cattr.inverse = 1;
			break;
""","""			/* inverse text is not drawn in bold on a bright background */
			vte->cattr.inverse = 1;
			vte->cattr.bold &= vte->cattr.bccode < 8;
			break;
""")],H+r"""
int main(void)
{
	start(10, 3, 0);
	feed("\e[1;101;7mX");
	draw();
	CHECK(gattr[0][0].bold && gattr[0][0].inverse, "bold %d inverse %d", gattr[0][0].bold, gattr[0][0].inverse);
	DONE();
}
""","bold, a bright background and inverse together","bold is lost")
