U="src/tsm/tsm-unicode.c"; C="src/tsm/tsm-screen.c"; RG="src/shared/shl-ring.c"; V="src/tsm/tsm-vte.c"
H='#include "common.h"\n'

P("c25-table-limit","C25",[(U,"""	/* We save the key in nval and prefix it with the new ID. Note that
	 * the prefix is hidden, we actually store "++nval" in the htable. */
""","""	/* a hostile client must not fill the memory; start over */
	if (shl_array_get_length(tbl->index) > 4096) {
		nval = *SHL_ARRAY_AT(tbl->index, uint32_t*,
				     1 + tbl->next_id % 4096);
		return *--nval;
	}

	/* We save the key in nval and prefix it with the new ID. Note that
	 * the prefix is hidden, we actually store "++nval" in the htable. */
""")],H+r"""
int main(void)
{
	struct tsm_symbol_table *t; tsm_symbol_t s, q; size_t n; const uint32_t *u; int i;
	tsm_symbol_table_new(&t);
	for (i = 0; i < 6000; ++i) {
		s = q = tsm_symbol_append(t, 0x400 + i, 0x301);
		u = tsm_symbol_get(t, &q, &n);
		CHECK(n == 2 && u[0] == 0x400 + i && u[1] == 0x301, "symbol %d is %x", i, s);
	}
	tsm_symbol_table_unref(t);
	DONE();
}
""","more than 4096 different combined characters","a new combination is shown as an older one")

P("c36-flush-late","C36",[(RG,"""	if (size > r->used)
		size = r->used;

	if (size > 0) {
		l = r->size - r->start;
		if (size <= l) {
""","""	/* nobody reads more than a pipe holds at once */
	if (size > r->used)
		size = r->used;
	if (size > 65536)
		size = 65536;

	if (size > 0) {
		l = r->size - r->start;
		if (size <= l) {
""")],H+r"""
#include "shl-ring.h"
int main(void)
{
	struct shl_ring r = { 0 }; static unsigned char b[70000], o[70000]; int i;
	for (i = 0; i < 70000; ++i) b[i] = i * 7 + i / 256;
	if (shl_ring_push(&r, b, 70000)) return 9;
	CHECK(shl_ring_copy(&r, o, sizeof(o)) == 70000, " ");
	CHECK(!memcmp(o, b, 70000), " ");
	DONE();
}
""","a copy of more than 64 kB","the rest is not copied")

P("c31-page-margin","C31",[(C,"""	if (con->cursor_y <= con->margin_bottom)
		size = con->margin_bottom + 1;
	else
		size = con->size_y;

	diff = size - con->cursor_y - 1;
	if (num > diff) {
		num -= diff;
		if (scroll)
			screen_scroll_up(con, num);
		move_cursor(con, con->cursor_x, size - 1);
""","""	if (con->cursor_y <= con->margin_bottom)
		size = con->margin_bottom + 1;
	else
		size = con->size_y;

	diff = size - con->cursor_y - 1;
	if (num > diff) {
		num -= diff;
		if (num > con->size_y)
			num = con->size_y - 1;
		if (scroll)
			screen_scroll_up(con, num);
		move_cursor(con, con->cursor_x, size - 1);
""")],H+r"""
int main(void)
{
	start(5, 3, 20);
	feed("a\r\nb\r\nc");
	tsm_screen_move_to(con, 0, 2);
	tsm_screen_move_down(con, 50, true);
	CHECK(!strcmp(row(2), "") && !strcmp(row(0), ""), "'%s'", row(0));
	DONE();
}
""","moving down, with scrolling, by more lines than the screen has","the last line stays on the screen")
