V="src/tsm/tsm-vte.c"
H='#include "common.h"\n'

P("c17-custom-same","C17",[(V,"""		memcpy(tmp, palette, palette_byte_size);
	}

	free(vte->custom_palette_storage);
	vte->custom_palette_storage = tmp;

	return vte_update_palette(vte);""","""		memcpy(tmp, palette, palette_byte_size);
	}

	/* the same colours again need no repaint */
	if (tmp && vte->custom_palette_storage &&
	    !memcmp(tmp, vte->custom_palette_storage, TSM_COLOR_FOREGROUND * 3)) {
		free(vte->custom_palette_storage);
		vte->custom_palette_storage = tmp;
		return 0;
	}

	free(vte->custom_palette_storage);
	vte->custom_palette_storage = tmp;

	return vte_update_palette(vte);""")],H+r"""
int main(void)
{
	static uint8_t p[18][3];
	struct tsm_screen_attr a;

	start(5, 3, 20);
	p[16][0] = 10; p[17][0] = 20;
	tsm_vte_set_palette(vte, "custom");
	tsm_vte_set_custom_palette(vte, p);
	p[17][0] = 99;
	tsm_vte_set_custom_palette(vte, p);
	tsm_vte_get_def_attr(vte, &a);
	CHECK(a.br == 99 && a.fr == 10, "%d", a.br);
	feed("x");
	draw();
	CHECK(gattr[0][0].br == 99, "%d", gattr[0][0].br);
	DONE();
}
""","only the default background of the active custom palette is changed","the old background stays")
