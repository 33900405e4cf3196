/*
 *	Common vocabulary of the contract harnesses.
 *
 *	Every harness is one C text with two readings:
 *	  VP_CBMC    inputs are unconstrained (nondeterministic), contracts are real CBMC contract
 *	             clauses, vp_check() is an obligation;
 *	  VP_NATIVE  inputs come from a replay file (or from a seeded generator), contract clauses
 *	             vanish, vp_check() is an executable check, ASan/UBSan watch the real code.
 */
#pragma once

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_CBMC
	#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
	#define ENSURES(...) __CPROVER_ensures(__VA_ARGS__)
	#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
	#define FREES(...) __CPROVER_frees(__VA_ARGS__)
	#define RET __CPROVER_return_value
	#define OLD(x) __CPROVER_old(x)
	#define WHOLE(p) __CPROVER_object_whole(p)

	uint64_t nondet_vp_u64(void);

	static inline uint64_t vp_u64(void)
	{
		uint64_t vp_value = nondet_vp_u64();
		__CPROVER_input("vp", vp_value);
		return vp_value;
	}

	static inline uint64_t vp_range(const uint64_t lo, const uint64_t hi)
	{
		uint64_t vp_value = nondet_vp_u64();
		__CPROVER_assume(lo <= vp_value && vp_value <= hi);
		__CPROVER_input("vp", vp_value);
		return vp_value;
	}

	/* The verifier's harness, or its inputs replayed natively (random native runs are larger). */
	#define vp_small() true
	#define vp_assume(c) __CPROVER_assume(c)
	#define vp_check(c, msg) __CPROVER_assert(c, "VP-CHECK " msg)
	/* Must be reported as reachable (i.e. this assertion must FAIL), or the group is vacuous. */
	#define vp_reach(msg) __CPROVER_assert(0, "VP-REACH " msg)
#else
	#define REQUIRES(...)
	#define ENSURES(...)
	#define ASSIGNS(...)
	#define FREES(...)

	uint64_t vp_u64(void);
	uint64_t vp_range(uint64_t lo, uint64_t hi);
	bool vp_small(void);
	void vp_assume_fail(void);
	void vp_check_fail(const char *msg);

	#define vp_assume(c) do { if (!(c)) { vp_assume_fail(); } } while (0)
	#define vp_check(c, msg) do { if (!(c)) { vp_check_fail(msg); } } while (0)
	#define vp_reach(msg) do { } while (0)
#endif

static inline uint32_t vp_u32(void) { return (uint32_t)vp_range(0, UINT32_MAX); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_range(0, 255); }
static inline bool vp_bool(void) { return vp_range(0, 1) != 0; }
static inline size_t vp_size(const size_t lo, const size_t hi) { return (size_t)vp_range(lo, hi); }
static inline int64_t vp_i64(void) { return (int64_t)vp_u64(); }

static inline double vp_double(void)
{
	union { uint64_t u; double d; } cast;
	cast.u = vp_u64();
	return cast.d;
}

static inline uint64_t vp_bits(const double value)
{
	union { uint64_t u; double d; } cast;
	cast.d = value;
	return cast.u;
}
