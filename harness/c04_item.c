/* C04: 64-bit values and doubles in tables of narrower target items. */
#include "vp.h"
#include <float.h>
#include "item.h"
#include "workspace.h"

static inline bool valid(const item_status s) { return s > item_error && s < item_types; }
static inline bool is_signed(const item_status s) { return s <= item_int8; }
static inline unsigned width(const item_status s)
{
	return s == item_int64 || s == item_uint64 ? 64 : s == item_int32 || s == item_uint32 ? 32
		: s == item_int16 || s == item_uint16 ? 16 : 8;
}
static inline size_t count(const item_status s) { return 64 / width(s); }

/* The i-th target item of a 64-bit value: its i-th group of bits read as a number of the target type. */
static inline item_t spec_part(const item_status s, const uint64_t value, const size_t i)
{
	switch (s)
	{
		case item_int32: return (int32_t)(uint32_t)(value >> (32 * i));
		case item_uint32: return (uint32_t)(value >> (32 * i));
		case item_int16: return (int16_t)(uint16_t)(value >> (16 * i));
		case item_uint16: return (uint16_t)(value >> (16 * i));
		case item_int8: return (int8_t)(uint8_t)(value >> (8 * i));
		case item_uint8: return (uint8_t)(value >> (8 * i));
		default: return (item_t)value;
	}
}

static inline item_t spec_min(const item_status s)
{
	return s == item_int64 ? INT64_MIN : s == item_int32 ? -2147483648LL : s == item_int16 ? -32768 : s == item_int8 ? -128 : 0;
}

static inline item_t spec_max(const item_status s)
{
	return s == item_int64 || s == item_uint64 ? INT64_MAX : s == item_int32 ? 2147483647LL : s == item_uint32 ? 4294967295LL
		: s == item_int16 ? 32767 : s == item_uint16 ? 65535 : s == item_int8 ? 127 : 255;
}

static inline bool spec_stored(const item_status s, const uint64_t value, const item_t *const stg)
{
	for (size_t i = 0; i < 8; i++)
	{
		if (i < count(s) && stg[i] != spec_part(s, value, i)) { return false; }
	}
	return true;
}

static uint64_t ghost_value;
static size_t ghost_bytes;

item_t item_get_min(const item_status status) ENSURES(valid(status) ==> RET == spec_min(status)) ASSIGNS();
item_t item_get_max(const item_status status) ENSURES(valid(status) ==> RET == spec_max(status)) ASSIGNS();
bool item_check_var(const item_status status, const item_t var)
	ENSURES(valid(status) ==> RET == (spec_min(status) <= var && var <= spec_max(status))) ASSIGNS();

#define STORE(bits) REQUIRES(stg == NULL || __CPROVER_rw_ok(stg, 8 * sizeof(item_t))) \
	ENSURES(RET == (stg != NULL && valid(status) ? count(status) : SIZE_MAX)) \
	ENSURES(RET != SIZE_MAX ==> spec_stored(status, bits, stg)) \
	ASSIGNS(stg != NULL && status > item_error && status < item_types: __CPROVER_object_upto(stg, ghost_bytes))
size_t item_store_int64_for_target(const item_status status, const int64_t value, item_t *const stg) STORE((uint64_t)value);
size_t item_store_double_for_target(const item_status status, const double value, item_t *const stg) STORE(vp_bits(value));

#define LOAD(bad, same) REQUIRES(stg == NULL || __CPROVER_r_ok(stg, 8 * sizeof(item_t))) \
	ENSURES((stg == NULL || !valid(status)) ==> RET == bad) \
	ENSURES((stg != NULL && valid(status) && spec_stored(status, ghost_value, stg)) ==> (same)) ASSIGNS()
int64_t item_restore_int64_for_target(const item_status status, const item_t *const stg) LOAD(LLONG_MAX, RET == (int64_t)ghost_value);
/* The one pattern that doubles as the failure code is a NaN. */
double item_restore_double_for_target(const item_status status, const item_t *const stg)
	LOAD(DBL_MAX, ghost_value == LLONG_MAX || vp_bits(RET) == ghost_value);

static item_status any_status(void)
{
	return (item_status)((int64_t)vp_range(0, 11) - 2);
}

void h_range(void)
{
	const item_status s = any_status();
	const item_t r = RANGE_FUNCTION(s);
	if (!valid(s)) { vp_reach("invalid"); return; }
	vp_check(r == RANGE_SPEC(s), "the limit of the target type");
	vp_reach("valid");
}

void h_check(void)
{
	const item_status s = any_status();
	const item_t var = (item_t)vp_u64();
	const bool r = item_check_var(s, var);
	if (!valid(s)) { return; }
	vp_check(r == (spec_min(s) <= var && var <= spec_max(s)), "accepted exactly inside of the range");
	vp_reach("valid");
}

#define H_STORE(name, function, T, input, bits) \
void name(void) \
{ \
	const item_status s = any_status(); \
	const T value = input; \
	item_t room[9]; \
	for (size_t i = 0; i < 9; i++) { room[i] = (item_t)vp_u64(); } \
	const size_t k = vp_size(0, 8); \
	const item_t before = room[k]; \
	item_t *const stg = vp_range(0, 7) == 0 ? NULL : room; \
	ghost_bytes = valid(s) ? count(s) * sizeof(item_t) : 0; \
	const size_t n = function(s, value, stg); \
	vp_check(n == (stg != NULL && valid(s) ? count(s) : SIZE_MAX), "number of items"); \
	if (n == SIZE_MAX) { vp_check(room[k] == before, "a refused value changes nothing"); vp_reach("refused"); return; } \
	vp_check(spec_stored(s, bits, room), "items of the target type"); \
	vp_check(k < n || room[k] == before, "nothing behind the items changes"); \
	vp_check(k >= n || s == item_uint64 || (room[k] >= spec_min(s) && room[k] <= spec_max(s)), "items fit the target type"); \
	vp_reach("stored"); \
}

H_STORE(h_store_int64, item_store_int64_for_target, int64_t, vp_i64(), (uint64_t)value)
H_STORE(h_store_double, item_store_double_for_target, double, vp_double(), vp_bits(value))

#define H_LOAD(name, function, T, bad, same) \
void name(void) \
{ \
	const item_status s = any_status(); \
	item_t room[8]; \
	ghost_value = vp_u64(); \
	for (size_t i = 0; i < 8; i++) { room[i] = valid(s) && i < count(s) ? spec_part(s, ghost_value, i) : (item_t)vp_u64(); } \
	const item_t *const stg = vp_range(0, 7) == 0 ? NULL : room; \
	const T r = function(s, stg); \
	if (stg == NULL || !valid(s)) { vp_check(r == bad, "refused"); vp_reach("refused"); return; } \
	vp_check(same, "the stored value comes back"); \
	vp_reach("restored"); \
}

H_LOAD(h_load_int64, item_restore_int64_for_target, int64_t, LLONG_MAX, r == (int64_t)ghost_value)
H_LOAD(h_load_double, item_restore_double_for_target, double, DBL_MAX, ghost_value == LLONG_MAX || vp_bits(r) == ghost_value)

/* Round trip through the real code: host tables. */
void h_round_int64(void)
{
	item_t room[INT64_SIZE];
	const int64_t value = vp_i64();
	vp_check(item_store_int64(value, room) == INT64_SIZE, "size");
	vp_check(item_restore_int64(room) == value, "the stored integer comes back");
	vp_check(item_store_int64(value, NULL) == SIZE_MAX && item_restore_int64(NULL) == LLONG_MAX, "no storage");
	vp_reach("int64");
}

void h_round_double(void)
{
	item_t room[DOUBLE_SIZE];
	const double value = vp_double();
	vp_assume(vp_bits(value) != LLONG_MAX);
	vp_check(item_store_double(value, room) == DOUBLE_SIZE, "size");
	vp_check(vp_bits(item_restore_double(room)) == vp_bits(value), "the stored double comes back");
	vp_check(item_store_double(value, NULL) == SIZE_MAX && item_restore_double(NULL) == DBL_MAX, "no storage");
	vp_reach("double");
}

/* Target type from the flags of the command line. */
#ifdef FLAGS
static const char *const spelling[10] = { "-i64", "-i32", "-i16", "-i8", "-u64", "-u32", "-u16", "-u8", "-i", "-i641" };
static const char *flags[FLAGS];
static size_t flags_size;
static bool ws_ok;

bool ws_is_correct(const workspace *const ws) { return ws != NULL && ws_ok; }
const char *ws_get_flag(const workspace *const ws, const size_t index)
{
	return ws != NULL && ws_ok && index < flags_size ? flags[index] : NULL;
}

void h_status(void)
{
	static workspace ws;
	size_t kind[FLAGS];
	size_t found = 0;
	item_status expected = item_int32;
	ws_ok = vp_range(0, 7) != 0;
	flags_size = vp_size(0, FLAGS);
	for (size_t i = 0; i < FLAGS; i++)
	{
		kind[i] = vp_size(0, 9);
		flags[i] = spelling[kind[i]];
		if (i < flags_size && kind[i] < 8) { expected = (item_status)kind[i]; found++; }
	}
	const item_status r = item_get_status(&ws);
	vp_check(r == (!ws_ok || found > 1 ? item_error : expected), "target type of the flags");
	if (r == item_error) { vp_reach("error"); } else { vp_reach("status"); }
}
#endif
