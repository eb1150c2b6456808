G="src/gtktsm/gtktsm-terminal.c"; RG="src/shared/shl-ring.c"; AR="src/shared/shl-array.h"
H='#include "common.h"\n'
GH='#include "demo_gtk.h"\n'
gtk=dict(flags="$(pkg-config --cflags gtk+-3.0 pangocairo xkbcommon) -Isrc/gtktsm",libs="$(pkg-config --libs gtk+-3.0 pangocairo xkbcommon) -lm")

P("c30-clip-glyph","C30",[(G,"""	tmp = x + glyph->width;
	if (tmp <= x || x >= rend->width)
		return;
	if (tmp > rend->width)
		width = rend->width - x;
	else
		width = glyph->width;

	/* clip height */
	tmp = y + glyph->height;
""","""	width = glyph->width;
	tmp = x + width;
	if (tmp <= x || tmp > rend->width)
		return;

	/* clip height */
	tmp = y + glyph->height;
""")],GH+r"""
int main(void)
{
	demo_start(40, 20, "Monospace 10");
	demo_out("\e[?25la\xe6\x97\xa5");
	demo_frame();
	CHECK(pix(10, 0) == 0xe5e5e5 && pix(29, 19) == 0xe5e5e5);
	/* now the right half of the wide character is outside */
	demo_size(20, 20);
	memset(priv->rend->data, 0, 20 * 20 * 4);
	memset(px, 0, sizeof(px));
	demo_frame();
	CHECK(pix(0, 0) == 0xe5e5e5);
	CHECK(pix(10, 0) == 0xe5e5e5 && pix(19, 19) == 0xe5e5e5);
	DONE();
}
""","a wide character that is cut off by the right border of a window without padding","what remains visible of a wide character at the border is not painted",**gtk)

P("c30-idle-stuck","C30",[(G,"""	p->idle_src = 0;
	if (!p->pty)
		return FALSE;
""","""	if (!p->pty)
		return FALSE;
	p->idle_src = 0;
""")],GH+r"""
#include <fcntl.h>
static int stopped;
static void on_stop(void) { ++stopped; }
static void run(const char *cmd)
{
	pid_t p = gtktsm_terminal_fork(term);

	if (!p) {
		execl("/bin/sh", "sh", "-c", cmd, NULL);
		_exit(1);
	}
}
int main(void)
{
	char f[] = "/tmp/demoXXXXXX", cmd[100], b[20] = "";
	int fd = mkstemp(f), i;

	demo_start(80, 40, "Monospace 10");
	g_signal_connect(term, "terminal-stopped", (GCallback)on_stop, NULL);
	run("exit 0");
	while (!g_main_context_pending(NULL))
		usleep(1000);
	usleep(300000);
	demo_press('a', 0);
	while (!stopped)
		g_main_context_iteration(NULL, TRUE);
	while (g_main_context_iteration(NULL, FALSE))
		;
	sprintf(cmd, "stty -echo -icanon; dd of=%s bs=1 count=1 2>/dev/null; exit 0", f);
	run(cmd);
	for (i = 0; i < 50; ++i) {
		usleep(20000);
		while (g_main_context_iteration(NULL, FALSE))
			;
	}
	/* typed while nothing else is going on */
	demo_press('x', 0);
	for (i = 0; i < 150 && stopped < 2; ++i) {
		usleep(20000);
		while (g_main_context_iteration(NULL, FALSE))
			;
	}
	lseek(fd, 0, SEEK_SET);
	CHECK(read(fd, b, 10) == 1 && b[0] == 'x');
	unlink(f);
	DONE();
}
""","a key is pressed just before the program ends; then another program is started in the same widget and waits for input","typed input is queued but never sent",**gtk)

P("c30-consumed","C30",[(G,"""		} else if (key == GDK_KEY_Page_Up &&
		    ((e->state & ~cmod & ALL_MODS) == GDK_SHIFT_MASK)) {
""","""		} else if (key == GDK_KEY_Page_Up &&
		    ((e->state & ALL_MODS) == GDK_SHIFT_MASK)) {
""")],GH+r"""
int main(void)
{
	GdkEvent e = { 0 };
	int i;

	demo_start(80, 40, "Monospace 10");
	for (i = 0; i < 10; ++i)
		demo_out("line\r\n");
	CHECK(tsm_screen_sb_get_line_pos(priv->screen) == tsm_screen_sb_get_line_count(priv->screen));
	key_val = GDK_KEY_Page_Up; key_used = GDK_LOCK_MASK;
	e.key.type = GDK_KEY_PRESS; e.key.keyval = key_val; e.key.state = GDK_SHIFT_MASK | GDK_LOCK_MASK;
	demo_emit("key-press-event", &e);
	CHECK(tsm_screen_sb_get_line_pos(priv->screen) < tsm_screen_sb_get_line_count(priv->screen));
	DONE();
}
""","shift and page-up while the keymap consumed another modifier such as caps lock","the key is sent to the program instead of scrolling the view",**gtk)

P("c30-blank-underline","C30",[(G,"""	if (attr->underline)
		renderer_fill(rend,
			      x,
			      y + face->underline_pos,""","""	if (len && attr->underline)
		renderer_fill(rend,
			      x,
			      y + face->underline_pos,""")],GH+r"""
int main(void)
{
	unsigned u;

	demo_start(40, 20, "Monospace 10");
	u = priv->face_regular->underline_pos;
	demo_out("\e[?25l\e[4m\e[2Kx");
	demo_frame();
	CHECK(pix(25, u) == 0xe5e5e5);
	DONE();
}
""","cells erased while underlining is on","underlined blanks are painted without the line",**gtk)

P("c30-finalize-idle","C30",[(G,"""		shl_pty_close(p->pty);
		shl_pty_unref(p->pty);
	}

	if (p->idle_src)
		g_source_remove(p->idle_src);
""","""		shl_pty_close(p->pty);
		shl_pty_unref(p->pty);

		/* nothing is left to be written */
		if (p->idle_src)
			g_source_remove(p->idle_src);
	}
""")],GH+r"""
static int stopped;
static void on_stop(void) { ++stopped; }
int main(void)
{
	demo_start(80, 40, "Monospace 10");
	g_signal_connect(term, "terminal-stopped", (GCallback)on_stop, NULL);
	if (!gtktsm_terminal_fork(term))
		_exit(0);
	usleep(300000);
	demo_press('a', 0);
	while (!stopped)
		g_main_context_iteration(NULL, TRUE);
	g_object_unref(term);
	/* a source that still refers to the widget */
	CHECK(!g_main_context_find_source_by_funcs_user_data(NULL, &g_idle_funcs, term));
	DONE();
}
""","a key is pressed just before the program ends, and the widget is destroyed before the main loop gets idle","a callback runs on the destroyed widget",**gtk)

P("c36-grow-wraps","C36",[(RG,"""	if (r->size - r->used >= add)
		return 0;
""","""	if (r->used + add <= r->size)
		return 0;
""")],H+r"""
#include "shl-ring.h"
int main(void)
{
	struct shl_ring r;
	char x[10] = "123456789";

	memset(&r, 0, sizeof(r));
	CHECK(shl_ring_push(&r, x, 9) == 0, " ");
	CHECK(shl_ring_push(&r, x, (size_t)-4) == -ENOMEM, " ");
	DONE();
}
""","an impossible size whose sum with the contents wraps","the push is accepted and overwrites memory")

P("c36-array-grow","C36",[(AR,"""	if (arr->length >= arr->size) {
		newsize = arr->size * 2;
""","""	if (arr->length >= arr->size) {
		/* grow by half to waste less memory */
		newsize = arr->size + arr->size / 2;
""")],H+r"""
#include "shl-array.h"
int main(void)
{
	struct shl_array *a;
	char x[8] = "1234567";

	CHECK(!shl_array_new(&a, 8, 1), " ");
	CHECK(!shl_array_push(a, x), " ");
	a->data = realloc(a->data, 4096);
	CHECK(!shl_array_push(a, x), " ");
	CHECK(!shl_array_push(a, x), " ");
	CHECK(a->size >= a->length, " ");
	DONE();
}
""","an array created with an initial size of one element","elements are written behind the end of the array")

PH=H+r"""
#include "shl-pty.h"
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
static void in(struct shl_pty *p, void *d, char *b, size_t l) {}
"""
PTY="src/shared/shl-pty.c"
P("c22-large-direct","C22",[(PTY,"""	return shl_ring_push(&pty->out_buf, u8, len);
""","""	ssize_t r;

	/* do not copy large data if the kernel takes it right away */
	if (len >= sizeof(pty->in_buf)) {
		r = write(pty->fd, u8, len);
		if (r > 0) {
			u8 += r;
			len -= r;
		}
	}

	return shl_ring_push(&pty->out_buf, u8, len);
""")],PH+r"""
int main(void)
{
	struct shl_pty *p;
	static char b[20000];
	int st = -1, i;
	pid_t c = shl_pty_open(&p, in, NULL, 80, 24);

	if (!c) {
		execl("/bin/sh", "sh", "-c", "stty raw -echo; echo; a=$(dd bs=1 count=3 2>/dev/null); test \"$a\" = abc; exit $?", NULL);
		_exit(9);
	}
	alarm(30);
	sleep(1);
	memset(b, 'x', sizeof(b));
	shl_pty_write(p, "abc", 3);
	shl_pty_write(p, b, sizeof(b));
	for (i = 0; i < 300 && waitpid(c, &st, WNOHANG) != c; ++i) {
		shl_pty_dispatch(p);
		usleep(10000);
	}
	CHECK(WIFEXITED(st) && !WEXITSTATUS(st), " ");
	DONE();
}
""","a large write while earlier input is still queued","later input overtakes queued input")

P("c23-out-on-demand","C23",[(PTY,"""	memset(&ev, 0, sizeof(ev));
	ev.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
	ev.data.ptr = pty;

	r = epoll_ctl(bridge,
		      EPOLL_CTL_ADD,""","""	memset(&ev, 0, sizeof(ev));
	ev.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLET;
	/* avoid a wake-up for nothing */
	if (shl_ring_get_size(&pty->out_buf) > 0)
		ev.events |= EPOLLOUT;
	ev.data.ptr = pty;

	r = epoll_ctl(bridge,
		      EPOLL_CTL_ADD,""")],PH+r"""
int main(void)
{
	struct shl_pty *p;
	static char b[30000];
	int st = -1, i, br = shl_pty_bridge_new();
	pid_t c = shl_pty_open(&p, in, NULL, 80, 24);

	if (!c) {
		execl("/bin/sh", "sh", "-c", "stty raw -echo; sleep 2; dd bs=1 count=30000 of=/dev/null 2>/dev/null; exit 7", NULL);
		_exit(9);
	}
	alarm(30);
	CHECK(!shl_pty_bridge_add(br, p), " ");
	for (i = 0; i < 10; ++i)
		shl_pty_bridge_dispatch(br, 100);
	memset(b, 'x', sizeof(b));
	shl_pty_write(p, b, sizeof(b));
	shl_pty_bridge_dispatch_pty(br, p);
	for (i = 0; i < 200 && waitpid(c, &st, WNOHANG) != c; ++i)
		shl_pty_bridge_dispatch(br, 50);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 7, " ");
	DONE();
}
""","the program stops reading until the pty is full, while nothing is queued at the time the pty is added to the bridge","queued input is never sent although the program reads again")
