/* Access to internals that have no public API (internal header only). */
#include <stdint.h>
#include "libtsm.h"
#ifdef SHIM_AGE
#include "libtsm-int.h"
int shim_set_age(struct tsm_screen *con, uint64_t v)
{
	tsm_age_t a = (tsm_age_t)v;
	if (a < con->age_cnt) return 0;
	con->age_cnt = a;
	return 1;
}
#else
int shim_set_age(struct tsm_screen *con, uint64_t v) { (void)con; (void)v; return 0; }
#endif
