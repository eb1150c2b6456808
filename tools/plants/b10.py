V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"; U="src/tsm/tsm-unicode.c"; SE="src/tsm/tsm-selection.c"
H='#include "common.h"\n'
PH=H+r'''
#include "shl-pty.h"
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
'''

P("c09-cut-column","C09",[(SE,"""			start->line = con->sb_first;
			start->x = 0;
""","""			start->line = con->sb_first;
""")],H+r"""
int main(void)
{
	char *s; int r;
	start(10, 2, 2);
	feed("abcdef\r\nghijkl\r\n");		/* history: abcdef; screen: ghijkl, - */
	tsm_screen_sb_up(con, 5);
	tsm_screen_selection_start(con, 3, 0);	/* at the d */
	tsm_screen_sb_reset(con);
	tsm_screen_selection_target(con, 2, 0);	/* at the i */
	feed("mnopqr\r\nstuvwx\r\n");		/* abcdef is dropped */
	r = tsm_screen_selection_copy(con, &s);
	CHECK(r >= 0 && !strcmp(s, "ghi"), "'%s'", s);
	DONE();
}
""","the first selected line is dropped from a full scrollback","what is left of the selection is copied without the beginning of its first line")

P("c22-trailing-nul","C22",[(PTY,"""			pty->in_buf[len] = 0;
			pty->fn_input(pty,
""","""			pty->in_buf[len] = 0;
			/* fill characters at the end are of no interest */
			while (len > 1 && !pty->in_buf[len - 1])
				--len;
			pty->fn_input(pty,
""")],PH+r"""
static struct shl_pty *p;
static size_t got;
static void in(struct shl_pty *q, void *d, char *b, size_t l) { got += l; }
int main(void)
{
	int i, st; pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { write(1, "ab\0\0", 4); usleep(300000); _exit(0); }
	if (pid < 0) return 9;
	usleep(150000);
	for (i = 0; i < 30; ++i) { shl_pty_dispatch(p); usleep(10000); }
	waitpid(pid, &st, 0);
	CHECK(got == 4, "%zu bytes", got);
	DONE();
}
""","a read from the pty that ends with NUL bytes","these bytes are lost")

P("c35-flow","C35",[(PTY,"""	r = pty_read(pty);
	w = pty_write(pty);
""","""	/* flow control: handle no more requests while the program does not even
	 * take the previous answers */
	w = pty_write(pty);
	r = shl_ring_get_size(&pty->out_buf) > SHL_PTY_BUFSIZE / 2 ? 0 : pty_read(pty);
""")],PH+r"""
static struct shl_pty *p;
static size_t got;
static void in(struct shl_pty *q, void *d, char *b, size_t l) { got += l; }
int main(void)
{
	static char buf[40000];
	int i, br, st; pid_t pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) {	/* busy with its output, reads later */
		struct termios t; size_t k = 0;
		tcgetattr(0, &t); cfmakeraw(&t); tcsetattr(0, TCSANOW, &t);
		write(1, "r", 1);
		usleep(200000);
		alarm(3);
		memset(buf, 'x', sizeof(buf));
		while (k < sizeof(buf)) { ssize_t n = write(1, buf + k, sizeof(buf) - k); if (n <= 0) _exit(1); k += n; }
		_exit(0);
	}
	if (pid < 0) return 9;
	br = shl_pty_bridge_new();
	shl_pty_bridge_add(br, p);
	for (i = 0; i < 50 && !got; ++i) shl_pty_bridge_dispatch(br, 100);
	memset(buf, 'k', sizeof(buf));
	shl_pty_write(p, buf, sizeof(buf));
	for (i = 0; i < 30 && got < sizeof(buf) + 1; ++i) for (int k = 0; k < 40; ++k) shl_pty_bridge_dispatch(br, 2);
	CHECK(got == sizeof(buf) + 1, "%zu bytes", got);
	waitpid(pid, &st, WNOHANG);
	DONE();
}
""","a program that writes a lot before it reads a lot of pasted input","its output is no longer read: program and terminal wait for each other")

