/* helpers of the demonstrations: one screen and one terminal, driven by hand */
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libtsm.h"
#include "libtsm-int.h"

static struct tsm_screen *con;
static struct tsm_vte *vte;
static char out[1 << 16];		/* everything written to the client */
static size_t outn;
static uint32_t grid[128][512];		/* last drawn picture */
static struct tsm_screen_attr gattr[128][512];
static unsigned gage[128][512];

static void write_cb(struct tsm_vte *v, const char *u8, size_t len, void *data)
{
	if (outn + len < sizeof(out))
		memcpy(out + outn, u8, len), outn += len, out[outn] = 0;
}

static int draw_cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
		   unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	if (y < 128 && x < 512)
		grid[y][x] = len ? *ch : ' ', gattr[y][x] = *attr, gage[y][x] = age;
	return 0;
}

static tsm_age_t draw(void)
{
	return tsm_screen_draw(con, draw_cb, NULL);
}

static void start(unsigned w, unsigned h, unsigned sb)
{
	if (tsm_screen_new(&con, NULL, NULL) || tsm_vte_new(&vte, con, write_cb, NULL, NULL, NULL))
		exit(9);
	if (tsm_screen_resize(con, w, h))
		exit(9);
	tsm_screen_set_max_sb(con, sb);
	outn = 0;
}

static void feedn(const char *s, size_t n)
{
	tsm_vte_input(vte, s, n);
}

static void feed(const char *s)
{
	feedn(s, strlen(s));
}

/* row y of the picture, ASCII, without trailing blanks */
static const char *row(unsigned y)
{
	static char b[8][513];
	static int k;
	char *r = b[k++ % 8];
	unsigned i, n = tsm_screen_get_width(con);

	draw();
	for (i = 0; i < n && i < 512; ++i)
		r[i] = grid[y][i] < 128 ? (grid[y][i] ? grid[y][i] : ' ') : '#';
	while (i && r[i - 1] == ' ')
		--i;
	r[i] = 0;
	return r;
}

static int fails;
#define CHECK(c, ...) do { if (!(c)) { ++fails; printf("FAILED line %d: %s: ", __LINE__, #c); printf(__VA_ARGS__); puts(""); } } while (0)
#define ROW(y, want) do { const char *g_ = row(y); CHECK(!strcmp(g_, want), "row %d is '%s', expected '%s'", y, g_, want); } while (0)
#define CUR(x, y) CHECK(tsm_screen_get_cursor_x(con) == (x) && tsm_screen_get_cursor_y(con) == (y), "cursor %u,%u", tsm_screen_get_cursor_x(con), tsm_screen_get_cursor_y(con))
#define DONE() return fails ? 1 : 0
