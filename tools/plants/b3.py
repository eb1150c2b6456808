V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"
H='#include "common.h"\n'
PH=H+r'''
#include "shl-pty.h"
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
static void in(struct shl_pty *p, void *d, char *b, size_t l) {}
'''

P("c31-selective-gap","C31",[(C,"""			if (protect && line->cells[x_from].attr.protect)
				continue;
""","""			if (protect && line->cells[x_from].attr.protect) {
				/* protected fields are spared as a whole */
				while (x_from <= to &&
				       line->cells[x_from].attr.protect)
					++x_from;
				continue;
			}
""")],H+r"""
int main(void)
{
	struct tsm_screen_attr a = { .fccode = -1, .bccode = -1 };
	int i;
	start(10, 2, 0);
	for (i = 0; i < 6; ++i) {
		a.protect = i == 1 || i == 2;
		tsm_screen_write(con, 'a' + i, &a);
	}
	tsm_screen_move_to(con, 0, 0);
	feed("\e[?K");
	ROW(0, " bc");
	DONE();
}
""","a protected field in the middle of the erased region","the cell behind a protected field survives a selective erase")

P("c31-protect-sticks","C31",[(C,"""	memcpy(&line->cells[x].attr, attr, sizeof(*attr));

	for (i = 1;""","""	/* protection belongs to the field, not to the text in it */
	i = line->cells[x].attr.protect;
	memcpy(&line->cells[x].attr, attr, sizeof(*attr));
	if (i && len == 1 && !(con->flags & TSM_SCREEN_INSERT_MODE))
		line->cells[x].attr.protect = 1;

	for (i = 1;""")],H+r"""
int main(void)
{
	struct tsm_screen_attr a = { .fccode = -1, .bccode = -1, .protect = 1 };
	start(10, 2, 0);
	tsm_screen_write(con, 'a', &a);
	a.protect = 0;
	tsm_screen_move_to(con, 0, 0);
	tsm_screen_write(con, 'b', &a);
	tsm_screen_erase_current_line(con, true);
	ROW(0, "");
	DONE();
}
""","a protected cell is overwritten by plain text, then erased selectively","overwritten cells stay protected")

P("c31-flags-overlap","C31",[(C,"""	if (!con || !flags)
		return;

	screen_inc_age(con);

	old = con->flags;
	con->flags |= flags;
""","""	/* nothing to do if they are set already */
	if (!con || !flags || (con->flags & flags))
		return;

	screen_inc_age(con);

	old = con->flags;
	con->flags |= flags;
""")],H+r"""
int main(void)
{
	start(10, 2, 0);
	tsm_screen_set_flags(con, TSM_SCREEN_INSERT_MODE);
	tsm_screen_set_flags(con, TSM_SCREEN_INSERT_MODE | TSM_SCREEN_HIDE_CURSOR);
	CHECK(tsm_screen_get_flags(con) & TSM_SCREEN_HIDE_CURSOR, "%x", tsm_screen_get_flags(con));
	DONE();
}
""","several flags set in one call while one of them is set already","the other flags are not set")

P("c32-blank-id","C32",[(R_,"""			id = cell->ch;
			if (attr.bold)""","""			id = cell->ch ? cell->ch : ' ';
			if (attr.bold)""")],H+r"""
static uint64_t ids[2]; static size_t lens[2];
static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	if (y == 0 && x < 2) ids[x] = id, lens[x] = len;
	return 0;
}
int main(void)
{
	struct tsm_screen_attr a = { .fccode = -1, .bccode = -1, .underline = 1 };
	start(10, 2, 0);
	tsm_screen_set_def_attr(con, &a);
	tsm_screen_erase_screen(con, false);
	tsm_screen_write(con, ' ', &a);
	tsm_screen_move_to(con, 5, 1);
	tsm_screen_draw(con, cb, NULL);
	CHECK(lens[0] == lens[1] || ids[0] != ids[1], "one id for two glyphs");
	DONE();
}
""","an underlined space next to an erased cell while the default attributes are underlined","a blank and an underlined space have the same identifier")

P("c32-id-run","C32",[(R_,"""			id = cell->ch;
			if (attr.bold)
				id |= 1ULL << TSM_UCS4_MAX_BITS;""","""			/* runs of equal cells are common */
			if (j && cell->ch == run_ch && attr.bold == run_attr.bold &&
			    attr.underline == run_attr.underline &&
			    attr.inverse == run_attr.inverse &&
			    attr.blink == run_attr.blink) {
				id = run_id;
				goto same;
			}

			id = cell->ch;
			if (attr.bold)
				id |= 1ULL << TSM_UCS4_MAX_BITS;"""),
(R_,"""				id |= 1ULL << (TSM_UCS4_MAX_BITS + 4);
""","""				id |= 1ULL << (TSM_UCS4_MAX_BITS + 4);
			run_ch = cell->ch;
			run_attr = attr;
			run_id = id;
same:
"""),(R_,"	int ret, warned = 0;","	int ret, warned = 0;\n	tsm_symbol_t run_ch = 0;\n	struct tsm_screen_attr run_attr;\n	uint64_t run_id = 0;")],H+r"""
static uint64_t ids[2];
static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	if (y == 0 && x < 2) ids[x] = id;
	return 0;
}
int main(void)
{
	start(10, 2, 0);
	feed("a\e[3ma\e[m");
	tsm_screen_draw(con, cb, NULL);
	CHECK(ids[0] != ids[1], "upright and italic share an identifier");
	DONE();
}
""","two equal characters side by side that differ in the italic attribute only","they get the same identifier")

P("c32-early-id","C32",[(R_,"""			/* Encode attributes into the id to avoid caching problems */
			id = cell->ch;
			if (attr.bold)
				id |= 1ULL << TSM_UCS4_MAX_BITS;
			if (attr.italic)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 1);
			if (attr.underline)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 2);
			if (attr.inverse)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 3);
			if (attr.blink)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 4);

""",""),(R_,"""			/* TODO: do some more sophisticated inverse here. When""","""			/* Encode attributes into the id to avoid caching problems */
			id = cell->ch;
			if (attr.bold)
				id |= 1ULL << TSM_UCS4_MAX_BITS;
			if (attr.italic)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 1);
			if (attr.underline)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 2);
			if (attr.inverse)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 3);
			if (attr.blink)
				id |= 1ULL << (TSM_UCS4_MAX_BITS + 4);

			/* TODO: do some more sophisticated inverse here. When""")],H+r"""
static uint64_t ids[2]; static int inv[2];
static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	if (y == 0 && x < 2) ids[x] = id, inv[x] = attr->inverse;
	return 0;
}
int main(void)
{
	start(10, 2, 0);
	feed("aa\r\n");
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_selection_target(con, 0, 0);
	tsm_screen_draw(con, cb, NULL);
	CHECK(inv[0] != inv[1] && ids[0] != ids[1], "selected and plain cell share an identifier");
	DONE();
}
""","a selection or inverse video","cells differing in their final inverse attribute share an identifier")

P("c33-sigchld","C33",[(PTY,"""	for (i = 1; i < NSIG; ++i)
		signal(i, SIG_DFL);""","""	/* leave children of the client alone */
	for (i = 1; i < NSIG; ++i)
		if (i != SIGCHLD)
			signal(i, SIG_DFL);""")],PH+r"""
int main(void)
{
	struct shl_pty *p; pid_t pid; int st;
	signal(SIGCHLD, SIG_IGN);
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid)
		usleep(300000), _exit(signal(SIGCHLD, SIG_DFL) == SIG_IGN ? 7 : 3);
	signal(SIGCHLD, SIG_DFL);
	CHECK(pid > 0 && waitpid(pid, &st, 0) == pid && WIFEXITED(st) && WEXITSTATUS(st) == 3, "ignored in the child");
	DONE();
}
""","an application that ignores SIGCHLD","the client program starts with SIGCHLD ignored")

P("c33-ctty-eperm","C33",[(PTY,"""	r = ioctl(slave, TIOCSCTTY, 0);
	if (r < 0) {""","""	r = ioctl(slave, TIOCSCTTY, 0);
	if (r < 0 && errno == EPERM)
		r = ioctl(slave, TIOCSCTTY, 1);
	if (r < 0 && errno != EPERM) {""")],PH+r"""
#include <stdarg.h>
int __real_ioctl(int, unsigned long, void *);
int __wrap_ioctl(int fd, unsigned long req, void *arg)
{
	if (req == TIOCSCTTY) { errno = EPERM; return -1; }
	return __real_ioctl(fd, req, arg);
}
int main(void)
{
	struct shl_pty *p = NULL; pid_t pid;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { pause(); _exit(0); }
	CHECK(pid < 0, "success without a controlling terminal");
	if (pid > 0) kill(pid, 9), shl_pty_unref(p);
	DONE();
}
""","the kernel refuses the controlling terminal with EPERM","opening succeeds without a controlling terminal",libs="-Wl,--wrap=ioctl")

P("c33-termios-eintr","C33",[(PTY,"""	if (tcsetattr(slave, TCSANOW, &attr) < 0)
		return -errno;
""","""	tcsetattr(slave, TCSANOW, &attr);
""")],PH+r"""
int __wrap_tcsetattr(int fd, int how, const struct termios *t) { errno = EIO; return -1; }
int main(void)
{
	struct shl_pty *p = NULL; pid_t pid;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { pause(); _exit(0); }
	CHECK(pid < 0, "success without the terminal settings");
	if (pid > 0) kill(pid, 9), shl_pty_unref(p);
	DONE();
}
""","setting the terminal attributes fails","the client program runs with other terminal settings",libs="-Wl,--wrap=tcsetattr")

P("c33-resize-swallow","C33",[(PTY,"""	return ioctl(pty->fd, TIOCSWINSZ, &ws) < 0 ? -errno : 0;""","""	return ioctl(pty->fd, TIOCSWINSZ, &ws) < 0 && errno != EIO ? -errno : 0;""")],PH+r"""
int fail; int __real_ioctl(int, unsigned long, void *);
int __wrap_ioctl(int fd, unsigned long req, void *arg)
{
	if (req == TIOCSWINSZ && fail) { errno = EIO; return -1; }
	return __real_ioctl(fd, req, arg);
}
int main(void)
{
	struct shl_pty *p = NULL; pid_t pid;
	pid = shl_pty_open(&p, in, NULL, 80, 24);
	if (!pid) { pause(); _exit(0); }
	fail = 1;
	CHECK(shl_pty_resize(p, 40, 12) < 0, "a failed resize is reported as done");
	kill(pid, 9); shl_pty_unref(p);
	DONE();
}
""","the resize fails with EIO","a failed resize is reported as success",libs="-Wl,--wrap=ioctl")

P("c34-draw-error","C34",[(R_,"""			if (ret && warned++ < 3) {""","""			/* do not bother the renderer with it again */
			if (ret && cell->width > 1)
				cell->ch = 0;
			if (ret && warned++ < 3) {""")],H+r"""
static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	return -1;
}
int main(void)
{
	start(10, 2, 0);
	feed("\xe4\xb8\xad");
	tsm_screen_draw(con, cb, NULL);
	draw();
	CHECK(grid[0][0] == 0x4e2d, "%x", grid[0][0]);
	DONE();
}
""","a draw callback that fails for a wide character","the character disappears from the screen")

P("c34-log-format","C34",[(V,"""			llog_debug(vte, "unknown parameter to CSI-K: %d",""","""			llog_debug(vte, "unknown parameter to CSI-K: %s","""),],H+r"""
#include <stdarg.h>
static char line[512];
static void lg(void *d, const char *f, int l, const char *fn, const char *s, unsigned sev, const char *fmt, va_list a)
{
	vsnprintf(line, sizeof(line), fmt, a);
}
int main(void)
{
	tsm_screen_new(&con, NULL, NULL);
	tsm_vte_new(&vte, con, write_cb, NULL, lg, NULL);
	feed("\e[7K");
	CHECK(strstr(line, "7"), "%s", line);
	DONE();
}
""","a log callback and an unknown parameter in a build with debug messages","formatting the message crashes",flags="-DBUILD_ENABLE_DEBUG")
