/* C05: a vector is a finite sequence of items.  Sizes are symbolic up to CAP (2^40): no bound on length. */
#include "vector_common.h"

#define HEAD vector *const vec = any_vector(); const bool ok = IS_OK(vec)
#define REFUSED(c) if (!ok) { vp_check(c, "a broken vector is refused"); vp_reach("broken"); return; }

void h_create(void)
{
	const size_t alloc = vp_size(0, CAP);
	const vector vec = vector_create(alloc);
	vp_check(vec.size == 0 && vec.size_alloc >= 1 && vec.size_alloc >= alloc, "empty, with the asked capacity");
	vp_reach("created");
}

#define H_ADD(name, function, T, input, same) \
void name(void) \
{ \
	HEAD; \
	const T value = input; \
	const size_t r = function(vec, value); \
	REFUSED(r == SIZE_MAX) \
	if (r == SIZE_MAX) \
	{ \
		vp_check(SAME(vec), "a failed append changes nothing"); \
		FAIL_REACH \
		return; \
	} \
	vp_check(r == gsize && vec->size == gsize + 1 && vec->size <= vec->size_alloc, "length and index"); \
	vp_check(same, "appended value"); \
	vp_check(KEPT(vec), "other items unchanged"); \
	vp_reach("added"); \
}
#ifdef ALLOC_FAILS
	#define FAIL_REACH vp_reach("allocation failure");
#else
	#define FAIL_REACH vp_check(false, "append succeeds when memory is there");
#endif

H_ADD(h_add, vector_add, item_t, (item_t)vp_u64(), vec->array[gsize] == value)
H_ADD(h_add_double, vector_add_double, double, vp_double(), (uint64_t)vec->array[gsize] == vp_bits(value))
H_ADD(h_add_int64, vector_add_int64, int64_t, vp_i64(), vec->array[gsize] == value)

#define H_SET(name, function, T, input, success, same) \
void name(void) \
{ \
	HEAD; \
	const size_t index = vp_u64(); \
	const T value = input; \
	const bool done = function(vec, index, value) == success; \
	REFUSED(!done) \
	vp_check(done == (index < gsize), "set exactly inside of the sequence"); \
	vp_check(vec->size == gsize && vec->size_alloc == galloc && vec->array == garray, "shape unchanged"); \
	vp_check((done && gk == index) || KEPT(vec), "other items unchanged"); \
	if (done) { vp_check(same, "new value"); vp_reach("set"); } \
	else { vp_reach("outside"); } \
}

H_SET(h_set, vector_set, item_t, (item_t)vp_u64(), 0, vec->array[index] == value)
H_SET(h_set_double, vector_set_double, double, vp_double(), DOUBLE_SIZE, (uint64_t)vec->array[index] == vp_bits(value))
H_SET(h_set_int64, vector_set_int64, int64_t, vp_i64(), INT64_SIZE, vec->array[index] == value)

#define H_GET(name, function, T, bad, same) \
void name(void) \
{ \
	HEAD; \
	const size_t index = vp_bool() ? gk : vp_u64(); \
	const T r = function(vec, index); \
	REFUSED(r == bad) \
	vp_check(index < gsize || r == bad, "nothing outside of the sequence"); \
	vp_check(index >= gsize || index != gk || (same), "the stored value"); \
	vp_check(SAME(vec), "reading changes nothing"); \
	vp_reach("get"); \
}

H_GET(h_get, vector_get, item_t, ITEM_MAX, r == gv)
H_GET(h_get_double, vector_get_double, double, DBL_MAX, gv == LLONG_MAX || vp_bits(r) == (uint64_t)gv)
H_GET(h_get_int64, vector_get_int64, int64_t, LLONG_MAX, r == gv)

#define H_REMOVE(name, function, T, bad, same) \
void name(void) \
{ \
	HEAD; \
	const T r = function(vec); \
	REFUSED(r == bad) \
	vp_check(gsize != 0 || r == bad, "nothing to remove"); \
	vp_check(vec->size == (gsize == 0 ? 0 : gsize - 1), "one item less"); \
	vp_check(vec->size_alloc == galloc && vec->array == garray && KEPT(vec), "other items unchanged"); \
	vp_check(gsize == 0 || gk != gsize - 1 || (same), "the last value"); \
	vp_reach("remove"); \
}

H_REMOVE(h_remove, vector_remove, item_t, ITEM_MAX, r == gv)
H_REMOVE(h_remove_double, vector_remove_double, double, DBL_MAX, gv == LLONG_MAX || vp_bits(r) == (uint64_t)gv)
H_REMOVE(h_remove_int64, vector_remove_int64, int64_t, LLONG_MAX, r == gv)

#define H_SIZE(name, function, expected) \
void name(void) \
{ \
	HEAD; \
	const size_t size = vp_size(0, CAP); \
	const int r = function(vec, size); \
	REFUSED(r == -1) \
	if (r != 0) \
	{ \
		vp_check(r == -1 && SAME(vec), "a failed change of length changes nothing"); \
		FAIL_REACH \
		return; \
	} \
	vp_check(vec->size == (expected) && vec->size <= vec->size_alloc, "new length"); \
	vp_check(gk >= vec->size || vec->array[gk] == (gk < gsize ? gv : 0), "old items kept, new items zero"); \
	vp_reach("sized"); \
}

H_SIZE(h_increase, vector_increase, gsize + size)
H_SIZE(h_resize, vector_resize, size)

void h_size(void)
{
	HEAD;
	vp_check(vector_size(vec) == (ok ? gsize : SIZE_MAX), "length");
	vp_reach("size");
}

void h_is_correct(void)
{
	HEAD;
	vp_check(vector_is_correct(vec) == ok, "correctness");
	vp_reach("correct");
}

void h_clear(void)
{
	HEAD;
	vp_check(vector_clear(vec) == (ok ? 0 : -1), "cleared once");
	vp_check(vec == NULL || vec->array == NULL, "no storage left");
	vp_reach("cleared");
}
