V="src/tsm/tsm-vte.c"; C="src/tsm/tsm-screen.c"; R_="src/tsm/tsm-render.c"; PTY="src/shared/shl-pty.c"; U="src/tsm/tsm-unicode.c"; SE="src/tsm/tsm-selection.c"
HT="src/shared/shl-htable.c"; RG="src/shared/shl-ring.c"; AR="src/shared/shl-array.h"
H='#include "common.h"\n'

P("c10-id-index","C10",[(R_,"""		    (!iter || con->sel_start.line->sb_id < iter->sb_id))
""","""		    (!iter || con->sel_start.line->sb_id <= con->sb_pos_num))
"""),(R_,"""		    (!iter || con->sel_end.line->sb_id < iter->sb_id))
""","""		    (!iter || con->sel_end.line->sb_id <= con->sb_pos_num))
""")],H+r"""
int main(void)
{
	int i;
	char b[20];
	start(4, 3, 6);
	for (i = 0; i < 12; ++i)
		sprintf(b, "%c\r\n", 'a' + i), feed(b);
	/* the scrollback has dropped lines; select from the first kept one */
	tsm_screen_sb_up(con, 6);
	tsm_screen_selection_start(con, 0, 0);
	tsm_screen_sb_down(con, 2);
	tsm_screen_selection_target(con, 0, 2);
	draw();
	CHECK(gattr[0][0].inverse, "row 0 %d", gattr[0][0].inverse);
	CHECK(gattr[1][2].inverse, "row 1 %d", gattr[1][2].inverse);
	CHECK(!gattr[2][2].inverse, "row 2 %d", gattr[2][2].inverse);
	DONE();
}
""","a selection that begins above the view after the scrollback has dropped lines","the highlight is inverted over the view")

P("c12-new-screen-ref","C12",[(V,"""	ret = tsm_utf8_mach_new(&vte->mach);
	if (ret)
		goto err_free;
""","""	tsm_screen_ref(vte->con);
	ret = tsm_utf8_mach_new(&vte->mach);
	if (ret)
		goto err_free;
"""),(V,"""	llog_debug(vte, "new vte object");
	tsm_screen_ref(vte->con);
""","""	llog_debug(vte, "new vte object");
""")],r"""
#include <stddef.h>
static int countdown = -1;
extern void *__libc_malloc(size_t);
void *malloc(size_t n)
{
	if (countdown >= 0 && !countdown--)
		return NULL;
	return __libc_malloc(n);
}
"""+H+r"""
int main(void)
{
	int n, r;
	for (n = 0; n < 6; ++n) {
		if (tsm_screen_new(&con, NULL, NULL))
			return 9;
		countdown = n;
		r = tsm_vte_new(&vte, con, write_cb, NULL, NULL, NULL);
		countdown = -1;
		if (r)
			CHECK(con->ref == 1, "%zu references after a failure", (size_t)con->ref);
		else
			tsm_vte_unref(vte);
		tsm_screen_unref(con);
	}
	DONE();
}
""","memory runs out for the decoder of a new terminal","a reference to the screen is never dropped")

