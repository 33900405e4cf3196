/* The contracts of C04 for the 64-bit host item type, in executable form (CBMC only; natively the real functions run). */
#pragma once
#include "vp.h"
#include <float.h>
#include "item.h"

#ifdef VP_CBMC
size_t item_store_int64(const int64_t value, item_t *const stg)
{
	if (stg == NULL) { return SIZE_MAX; }
	stg[0] = value;
	return 1;
}
int64_t item_restore_int64(const item_t *const stg) { return stg == NULL ? LLONG_MAX : stg[0]; }
size_t item_store_double(const double value, item_t *const stg) { return item_store_int64((int64_t)vp_bits(value), stg); }
double item_restore_double(const item_t *const stg)
{
	union { int64_t i; double d; } cast;
	cast.i = item_restore_int64(stg);
	return cast.i == LLONG_MAX ? DBL_MAX : cast.d;
}
#endif
