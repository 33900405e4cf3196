/*
 *	The vector contracts of C05 in executable form, for the proofs of vector's clients (CBMC only; natively the
 *	real vector runs).  A vector holds at most MODEL_CAP items here: larger histories are cut off (assumed away),
 *	which is part of the stated bound of the groups that use it.
 */
#pragma once
#include "vp.h"
#include <float.h>
#include "vector.h"

#ifdef VP_CBMC
#ifndef MODEL_CAP
	#define MODEL_CAP 288
#endif

/*
 *	With MODEL_BUCKETS the first 256 cells are stored sparsely: a cell that was never touched reads as zero, at most
 *	MODEL_BUCKETS different ones are touched.
 */
#ifdef MODEL_BUCKETS
static size_t model_touched[MODEL_BUCKETS];
static size_t model_touched_size;

static size_t model_cell(const size_t index)
{
	if (index >= 256) { return index - 256 + MODEL_BUCKETS; }
	for (size_t i = 0; i < MODEL_BUCKETS; i++)
	{
		if (i < model_touched_size && model_touched[i] == index) { return i; }
	}
	__CPROVER_assume(model_touched_size < MODEL_BUCKETS);
	model_touched[model_touched_size] = index;
	return model_touched_size++;
}
#define CELL(i) model_cell(i)
#define CELLS (MODEL_CAP - 256 + MODEL_BUCKETS)
#else
#define CELL(i) (i)
#define CELLS MODEL_CAP
#endif

#ifndef MODEL_VECTORS
	#define MODEL_VECTORS 1
#endif

static size_t model_vectors = 0;

bool vector_is_correct(const vector *const vec) { return vec != NULL && vec->array != NULL; }

vector vector_create(const size_t alloc)
{
	vector vec;
	vec.size = 0;
	vec.size_alloc = alloc != 0 ? alloc : 1;
	static item_t model_cells[MODEL_VECTORS][CELLS];
	__CPROVER_assume(model_vectors < MODEL_VECTORS);
	vec.array = model_cells[model_vectors++];
	return vec;
}

static int model_resize(vector *const vec, const size_t size)
{
	__CPROVER_assume(size <= MODEL_CAP);
	const size_t from = vec->size;
	if (from == 0 && size >= 256)
	{
		for (size_t i = 0; i < CELLS; i++) { vec->array[i] = 0; }
	}
	else
	{
		for (size_t i = from; i < size; i++) { vec->array[CELL(i)] = 0; }
	}
	vec->size = size;
	if (size > vec->size_alloc) { vec->size_alloc = size; }
	return 0;
}

int vector_increase(vector *const vec, const size_t size) { return vector_is_correct(vec) ? model_resize(vec, vec->size + size) : -1; }
int vector_resize(vector *const vec, const size_t size) { return vector_is_correct(vec) ? model_resize(vec, size) : -1; }
size_t vector_size(const vector *const vec) { return vector_is_correct(vec) ? vec->size : SIZE_MAX; }

size_t vector_add(vector *const vec, const item_t value)
{
	if (!vector_is_correct(vec)) { return SIZE_MAX; }
	__CPROVER_assume(vec->size < MODEL_CAP);
	vec->array[CELL(vec->size)] = value;
	return vec->size++;
}

int vector_set(vector *const vec, const size_t index, const item_t value)
{
	if (!vector_is_correct(vec) || index >= vec->size) { return -1; }
	vec->array[CELL(index)] = value;
	return 0;
}

item_t vector_get(const vector *const vec, const size_t index)
{
	return vector_is_correct(vec) && index < vec->size ? vec->array[CELL(index)] : ITEM_MAX;
}

item_t vector_remove(vector *const vec)
{
	if (!vector_is_correct(vec) || vec->size == 0) { return ITEM_MAX; }
	vec->size--;
	return vec->array[CELL(vec->size)];
}

static item_t model_bits(const double value)
{
	union { double d; item_t i; } cast;
	cast.d = value;
	return cast.i;
}

static double model_double(const item_t bits)
{
	union { double d; item_t i; } cast;
	cast.i = bits;
	return bits == LLONG_MAX ? DBL_MAX : cast.d;
}

size_t vector_add_double(vector *const vec, const double value) { return vector_add(vec, model_bits(value)); }
size_t vector_add_int64(vector *const vec, const int64_t value) { return vector_add(vec, value); }
size_t vector_set_double(vector *const vec, const size_t index, const double value)
{
	return vector_set(vec, index, model_bits(value)) == 0 ? 1 : SIZE_MAX;
}
size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
{
	return vector_set(vec, index, value) == 0 ? 1 : SIZE_MAX;
}
double vector_get_double(const vector *const vec, const size_t index) { return model_double(vector_get(vec, index)); }
int64_t vector_get_int64(const vector *const vec, const size_t index) { return vector_get(vec, index); }
double vector_remove_double(vector *const vec) { return model_double(vector_remove(vec)); }
int64_t vector_remove_int64(vector *const vec) { return vector_remove(vec); }

int vector_clear(vector *const vec)
{
	if (!vector_is_correct(vec)) { return -1; }
	vec->array = NULL;
	return 0;
}
#endif
