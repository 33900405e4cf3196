/* Shared by C05 and C06: an arbitrary vector and its contracts.  Sizes are symbolic up to CAP (2^40): no bound on length. */
#pragma once
#include "vp.h"
#include "item_model.h"
#include "vector.h"

#ifdef VP_NATIVE
	#define CAP ((size_t)300)
#else
	#define CAP ((size_t)1 << 40)
#endif

/* Ghost: an arbitrary observed position gk, the item gv it held before the call, the old length and array. */
static size_t gk;
static item_t gv;
static size_t gsize;
static size_t galloc;
static item_t *garray;

#ifdef VP_CBMC
/*
 *	realloc seen through the observed cell gk: the new storage is arbitrary except for that cell, which is copied.
 *	(An over-approximation: every other cell of the result may hold anything.)
 */
void *realloc(void *p, size_t n)
{
	__CPROVER_precondition(p == NULL || (__CPROVER_DYNAMIC_OBJECT(p) && __CPROVER_POINTER_OFFSET(p) == 0 && __CPROVER_rw_ok(p, 0)),
		"realloc argument is dynamic storage");
	char *const q = malloc(n);
	if (q == NULL) { return NULL; }
	if (p != NULL)
	{
		const size_t old = __CPROVER_OBJECT_SIZE(p);
		const size_t cell = gk * sizeof(item_t);
		if (cell + sizeof(item_t) <= old && cell + sizeof(item_t) <= n) { *(item_t *)(q + cell) = *(item_t *)((char *)p + cell); }
		free(p);
	}
	return q;
}

/*
 *	memset seen through the observed cell gk: CBMC's own model is imprecise for symbolic lengths.
 *	The whole range must be writable; of the written bytes only those of cell gk are kept track of
 *	(no verified function reads any other cell back).
 */
void *memset(void *s, int c, size_t n)
{
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(s, n), "memset region writeable");
	const size_t from = __CPROVER_POINTER_OFFSET(s);
	const size_t cell = gk * sizeof(item_t);
	if (n != 0 && cell + sizeof(item_t) > from && cell < from + n)
	{
		item_t *const seen = (item_t *)((char *)s - from + cell);
		const uint64_t byte = (uint8_t)c;
		*seen = cell >= from && cell + sizeof(item_t) <= from + n ? (item_t)(byte * 0x0101010101010101ull) : (item_t)vp_u64();
	}
	return s;
}
#endif

#define IS_OK(v) ((v) != NULL && garray != NULL)
#define KEPT(v) (gk >= gsize || (v)->array[gk] == gv)
#define SAME(v) ((v)->size == gsize && (v)->size_alloc == galloc && (v)->array == garray && KEPT(v))

#define CAN_MUTATE REQUIRES(vec == NULL || __CPROVER_rw_ok(vec, sizeof(vector))) \
	ASSIGNS(vec != NULL: *vec; vec != NULL && vec->array != NULL: WHOLE(vec->array)) \
	FREES(vec != NULL && vec->array != NULL: vec->array)
#define ELEMENT_ONLY(index, n) REQUIRES(vec == NULL || __CPROVER_rw_ok(vec, sizeof(vector))) \
	ASSIGNS(IS_OK(vec) && (index) < gsize && gsize - (index) >= (n): __CPROVER_object_upto(&vec->array[index], (n) * sizeof(item_t)))
#define READ_ONLY REQUIRES(vec == NULL || __CPROVER_r_ok(vec, sizeof(vector))) ASSIGNS()
#define SHRINK_ONLY REQUIRES(vec == NULL || __CPROVER_rw_ok(vec, sizeof(vector))) ASSIGNS(vec != NULL: vec->size)

vector vector_create(const size_t alloc)
REQUIRES(alloc <= CAP)
ENSURES(RET.size == 0 && RET.size_alloc >= 1 && RET.size_alloc >= alloc)
ENSURES(RET.array == NULL || __CPROVER_rw_ok(RET.array, RET.size_alloc * sizeof(item_t)))
ASSIGNS();

#define ADD_CONTRACT(n) CAN_MUTATE \
	ENSURES(!IS_OK(vec) ==> RET == SIZE_MAX) \
	ENSURES((IS_OK(vec) && RET == SIZE_MAX) ==> SAME(vec)) \
	ENSURES((IS_OK(vec) && RET != SIZE_MAX) ==> (RET == gsize && vec->size == gsize + (n) \
		&& vec->size <= vec->size_alloc && KEPT(vec)))

size_t vector_add(vector *const vec, const item_t value)
ADD_CONTRACT(1)
ENSURES((IS_OK(vec) && RET != SIZE_MAX) ==> vec->array[gsize] == value);

size_t vector_add_double(vector *const vec, const double value)
ADD_CONTRACT(DOUBLE_SIZE)
ENSURES((IS_OK(vec) && RET != SIZE_MAX) ==> (uint64_t)vec->array[gsize] == vp_bits(value));

size_t vector_add_int64(vector *const vec, const int64_t value)
ADD_CONTRACT(INT64_SIZE)
ENSURES((IS_OK(vec) && RET != SIZE_MAX) ==> vec->array[gsize] == value);

int vector_set(vector *const vec, const size_t index, const item_t value)
ELEMENT_ONLY(index, 1)
ENSURES(RET == (IS_OK(vec) && index < gsize ? 0 : -1))
ENSURES(RET == 0 ==> (vec->array[index] == value && (gk == index || KEPT(vec))))
ENSURES((RET != 0 && IS_OK(vec)) ==> SAME(vec));

size_t vector_set_double(vector *const vec, const size_t index, const double value)
ELEMENT_ONLY(index, DOUBLE_SIZE)
ENSURES(RET == (IS_OK(vec) && index < gsize ? DOUBLE_SIZE : SIZE_MAX))
ENSURES(RET != SIZE_MAX ==> ((uint64_t)vec->array[index] == vp_bits(value) && (gk == index || KEPT(vec))))
ENSURES((RET == SIZE_MAX && IS_OK(vec)) ==> SAME(vec));

size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
ELEMENT_ONLY(index, INT64_SIZE)
ENSURES(RET == (IS_OK(vec) && index < gsize ? INT64_SIZE : SIZE_MAX))
ENSURES(RET != SIZE_MAX ==> (vec->array[index] == value && (gk == index || KEPT(vec))))
ENSURES((RET == SIZE_MAX && IS_OK(vec)) ==> SAME(vec));

item_t vector_get(const vector *const vec, const size_t index)
READ_ONLY
ENSURES((!IS_OK(vec) || index >= gsize) ==> RET == ITEM_MAX)
ENSURES((IS_OK(vec) && index == gk && gk < gsize) ==> RET == gv);

double vector_get_double(const vector *const vec, const size_t index)
READ_ONLY
ENSURES((!IS_OK(vec) || index >= gsize) ==> RET == DBL_MAX)
ENSURES((IS_OK(vec) && index == gk && gk < gsize && gv != LLONG_MAX) ==> vp_bits(RET) == (uint64_t)gv);

int64_t vector_get_int64(const vector *const vec, const size_t index)
READ_ONLY
ENSURES((!IS_OK(vec) || index >= gsize) ==> RET == LLONG_MAX)
ENSURES((IS_OK(vec) && index == gk && gk < gsize) ==> RET == gv);

item_t vector_remove(vector *const vec)
SHRINK_ONLY
ENSURES((!IS_OK(vec) || gsize == 0) ==> RET == ITEM_MAX)
ENSURES(IS_OK(vec) ==> (vec->size == (gsize == 0 ? 0 : gsize - 1) && KEPT(vec)))
ENSURES((IS_OK(vec) && gsize != 0 && gk == gsize - 1) ==> RET == gv);

double vector_remove_double(vector *const vec)
SHRINK_ONLY
ENSURES((!IS_OK(vec) || gsize < DOUBLE_SIZE) ==> RET == DBL_MAX)
ENSURES(IS_OK(vec) ==> (vec->size == (gsize < DOUBLE_SIZE ? gsize : gsize - DOUBLE_SIZE) && KEPT(vec)))
ENSURES((IS_OK(vec) && gsize != 0 && gk == gsize - 1 && gv != LLONG_MAX) ==> vp_bits(RET) == (uint64_t)gv);

int64_t vector_remove_int64(vector *const vec)
SHRINK_ONLY
ENSURES((!IS_OK(vec) || gsize < INT64_SIZE) ==> RET == LLONG_MAX)
ENSURES(IS_OK(vec) ==> (vec->size == (gsize < INT64_SIZE ? gsize : gsize - INT64_SIZE) && KEPT(vec)))
ENSURES((IS_OK(vec) && gsize != 0 && gk == gsize - 1) ==> RET == gv);

/* New items are zero, old items survive up to the new length. */
#define SIZE_CONTRACT(new_size) CAN_MUTATE \
	ENSURES((IS_OK(vec) && RET != 0) ==> (RET == -1 && SAME(vec))) \
	ENSURES(!IS_OK(vec) ==> RET == -1) \
	ENSURES((IS_OK(vec) && RET == 0) ==> (vec->size == (new_size) && vec->size <= vec->size_alloc)) \
	ENSURES((IS_OK(vec) && RET == 0 && gk < vec->size) ==> vec->array[gk] == (gk < gsize ? gv : 0))

int vector_increase(vector *const vec, const size_t size)
SIZE_CONTRACT(gsize + size);

int vector_resize(vector *const vec, const size_t size)
SIZE_CONTRACT(size);

size_t vector_size(const vector *const vec)
READ_ONLY
ENSURES(RET == (IS_OK(vec) ? gsize : SIZE_MAX));

bool vector_is_correct(const vector *const vec)
READ_ONLY
ENSURES(RET == IS_OK(vec));

int vector_clear(vector *const vec)
REQUIRES(vec == NULL || __CPROVER_rw_ok(vec, sizeof(vector)))
ASSIGNS(vec != NULL: vec->array)
FREES(vec != NULL: vec->array)
ENSURES(RET == (IS_OK(vec) ? 0 : -1))
ENSURES(vec != NULL ==> vec->array == NULL);


static vector *any_vector(void)
{
	garray = NULL;
	if (vp_bool())
	{
		return NULL;
	}
	vector *const vec = malloc(sizeof(vector));
	vp_assume(vec != NULL);
	vec->size_alloc = vp_size(1, CAP);
	vec->size = vp_size(0, CAP);
	vp_assume(vec->size <= vec->size_alloc);
	vec->array = vp_bool() ? NULL : malloc(vec->size_alloc * sizeof(item_t));
	gsize = vec->size;
	galloc = vec->size_alloc;
	garray = vec->array;
	gk = vp_size(0, CAP);
	gv = (item_t)vp_u64();
	if (vec->array != NULL && gk < gsize)
	{
		vec->array[gk] = gv;
	}
	return vec;
}

