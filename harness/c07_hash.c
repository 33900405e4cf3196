/*
 *	C07: a hash table is a finite map from keys to rows of values.
 *	The history starts from hash_create and runs OPS arbitrary operations over KEYS arbitrary distinct keys
 *	(so they may or may not share a bucket); an abstract map runs alongside.
 */
#include "vp.h"
#include <float.h>
#include "vector_model.h"
#include "hash.h"

#ifndef OPS
	#define OPS 3
#endif
#ifndef KEYS
	#define KEYS 2
#endif
#ifdef VP_NATIVE
	#undef KEYS
	#define KEYS 5
	#define WIDE 4
	#define LONGER for (size_t i = vp_size(0, 30); i > 0; i--) { step(vp_size(0, 2)); agrees(vp_size(0, KEYS - 1), vp_size(0, WIDE)); }
#else
	#define WIDE 2
	#define LONGER
#endif
#ifndef SEQUENCE
	#define SEQUENCE
#endif
#ifndef ROOM
	#define ROOM OPS
#endif

static item_t key[KEYS];
static bool present[KEYS];
static size_t amount[KEYS];
static item_t value[KEYS][WIDE];
static hash hs;

static void start(void)
{
	for (size_t i = 0; i < KEYS; i++)
	{
		key[i] = (item_t)(vp_bool() ? vp_u64() : vp_range(0, 3) * MAX_HASH + vp_range(0, 1));
		vp_assume(key[i] != ITEM_MAX);
		present[i] = false;
		amount[i] = 0;
		for (size_t j = 0; j < i; j++) { vp_assume(key[i] != key[j]); }
	}
	hs = hash_create(ROOM);
	vp_check(hash_is_correct(&hs), "a new table is correct");
}

/* The table agrees with the abstract map at key k. */
static void agrees(const size_t k, const size_t num)
{
	const size_t index = hash_get_index(&hs, key[k]);
	vp_check((index != SIZE_MAX) == present[k], "a key is found exactly when it is in the map");
	if (present[k])
	{
		vp_check(hash_get_key(&hs, index) == key[k], "its record carries the key");
		vp_check(hash_get_amount(&hs, key[k]) == amount[k], "and its number of values");
		vp_check(hash_get(&hs, key[k], num) == (num < amount[k] ? value[k][num] : ITEM_MAX), "and its values");
		vp_check(hash_get_int64_by_index(&hs, index, num) == (num < amount[k] ? value[k][num] : LLONG_MAX), "also as 64-bit numbers");
		vp_check(hash_get_by_index(&hs, index, num) == (num < amount[k] ? value[k][num] : ITEM_MAX), "by index as by key");
	}
	else
	{
		vp_check(hash_get(&hs, key[k], num) == ITEM_MAX, "nothing for an absent key");
		vp_check(hash_get_amount(&hs, key[k]) == 0, "no values for an absent key");
	}
}

static void step(const size_t op)
{
	const size_t k = vp_size(0, KEYS - 1);
	const size_t num = vp_size(0, WIDE);
	if (op == 0)
	{
		const size_t n = vp_size(0, WIDE);
		const size_t r = hash_add(&hs, key[k], n);
		vp_check((r != SIZE_MAX) == !present[k], "a key is added exactly when it is new");
		if (r != SIZE_MAX)
		{
			present[k] = true;
			amount[k] = n;
			for (size_t i = 0; i < WIDE; i++) { value[k][i] = 0; }
			vp_check(hash_get_index(&hs, key[k]) == r, "the index of the new record");
		}
	}
	else if (op == 1)
	{
		const item_t v = (item_t)vp_u64();
		const size_t r = vp_bool() ? hash_set(&hs, key[k], num, v) : hash_set_int64(&hs, key[k], num, v);
		vp_check((r != SIZE_MAX) == (present[k] && num < amount[k]), "set exactly inside of a present row");
		if (r != SIZE_MAX) { value[k][num] = v; }
	}
	else
	{
		vp_check(hash_remove(&hs, key[k]) == (present[k] ? 0 : -1), "a present key is removed once");
		present[k] = false;
	}
}

void h_history(void)
{
	start();
	SEQUENCE
	LONGER
	agrees(vp_size(0, KEYS - 1), vp_size(0, WIDE));
	vp_check(hash_is_correct(&hs), "stays correct");
	vp_reach("history");
	hash_clear(&hs);
	vp_check(!hash_is_correct(&hs), "cleared");
}

void h_double(void)
{
	start();
	const double d = vp_double();
	vp_assume(vp_bits(d) != LLONG_MAX);
	const size_t n = vp_size(0, WIDE);
	const size_t num = vp_bool() ? vp_size(0, WIDE) : vp_u64();
	const size_t index = hash_add(&hs, key[0], n);
	vp_check(index != SIZE_MAX, "added");
	const size_t r = hash_set_double(&hs, key[0], num, d);
	vp_check(r == (num < n ? index : SIZE_MAX), "set exactly inside of the row");
	const double got = hash_get_double(&hs, key[0], num);
	vp_check(num < n ? vp_bits(got) == vp_bits(d) : got == DBL_MAX, "the value set");
	vp_check(hash_get_amount(&hs, key[0]) == n && hash_get_key(&hs, index) == key[0], "the row keeps its shape");
	vp_check(num != 0 || n < 2 || hash_get(&hs, key[0], 1) == 0, "other values unchanged");
	vp_reach("double");
	hash_clear(&hs);
}

/* Broken tables are refused, whatever the key. */
void h_broken(void)
{
	hash none = { NULL, 0, 0 };
	hash *const bad = vp_bool() ? NULL : &none;
	const item_t k = (item_t)vp_u64();
	vp_check(!hash_is_correct(bad), "broken");
	vp_check(hash_add(bad, k, vp_size(0, WIDE)) == SIZE_MAX && hash_get_index(bad, k) == SIZE_MAX, "no records");
	vp_check(hash_get(bad, k, vp_u64()) == ITEM_MAX && hash_set(bad, k, vp_u64(), 1) == SIZE_MAX && hash_remove(bad, k) == -1, "no values");
	vp_reach("broken");
}

/* Contracts of the single operations on tables after such a history. */
static size_t ghost_key;
size_t hash_get_index(const hash *const hs, const item_t key)
REQUIRES(__CPROVER_r_ok(hs, sizeof(hash))) ASSIGNS() ENSURES((RET != SIZE_MAX) == present[ghost_key]);
size_t hash_add(hash *const hs, const item_t key, const size_t amount)
REQUIRES(__CPROVER_rw_ok(hs, sizeof(hash)))
ASSIGNS(*hs, WHOLE(hs->array)) FREES(hs->array)
ENSURES((RET != SIZE_MAX) == !present[ghost_key]);
int hash_remove(hash *const hs, const item_t key)
REQUIRES(__CPROVER_rw_ok(hs, sizeof(hash))) ASSIGNS(WHOLE(hs->array)) ENSURES(RET == (present[ghost_key] ? 0 : -1));
