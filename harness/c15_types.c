/*
 *	C15: types.  The questions about a type (its class, size, parts) are answered from a types table of any size and any
 *	contents: a type is a basic type (negative), or the index of a record whose first item is its class.  A const type answers
 *	for the type below it; at most DEPTH of them are nested.
 */
#include "vp.h"
#include "syntax.h"

#define DEPTH 2
#ifdef VP_NATIVE
	#define CAP ((size_t)60)
#else
	#define CAP ((size_t)1 << 40)
#endif

static syntax sx;

/*
 *	The types table behind vector's contract: reading is a function of the index, any function; outside of the table it gives
 *	ITEM_MAX.  Only the cells the answer depends on are given, reading another one is noted.
 */
#define CELLS 14
static struct { size_t index; item_t value; } memo[CELLS];
static size_t strange;

static item_t item(void);

static inline item_t cell(const size_t index)
{
	if (index >= sx.types.size) { return ITEM_MAX; }
	for (size_t i = 0; i < CELLS; i++)
	{
		if (memo[i].index == index) { return memo[i].value; }
	}
	strange++;
	return ITEM_MAX;
}

item_t vector_get(const vector *const vec, const size_t index)
{
	if (vec != &sx.types) { strange++; return ITEM_MAX; }
	return cell(index);
}

/* The cell comes to exist, with the value of an equal earlier one. */
static item_t known(const size_t n, const size_t index)
{
	item_t value = item();
	for (size_t i = n; i > 0; i--)
	{
		if (memo[i - 1].index == index) { value = memo[i - 1].value; }
	}
	memo[n].index = index;
	memo[n].value = value;
	return index < sx.types.size ? value : ITEM_MAX;
}

static inline bool sane(const item_t t) { return t > -((item_t)1 << 41) && t < ((item_t)1 << 41); }

/* What the table says about the type. */
static item_t kind;					/* class, not looking below const */
static item_t plain, plain_kind;	/* the type without its consts */
static item_t below, first, second, third, negative, element_kind;

#define IS_INTEGER (plain == TYPE_INTEGER || plain == TYPE_CHARACTER || plain_kind == TYPE_ENUM || (plain < 0 && negative == TYPE_ENUM))
#define QUESTIONS(Q) \
	Q(bool, type_is_boolean, plain == TYPE_BOOLEAN) \
	Q(bool, type_is_integer, IS_INTEGER) \
	Q(bool, type_is_floating, plain == TYPE_FLOATING) \
	Q(bool, type_is_arithmetic, IS_INTEGER || plain == TYPE_FLOATING) \
	Q(bool, type_is_const, kind == TYPE_CONST) \
	Q(bool, type_is_array, plain_kind == TYPE_ARRAY) \
	Q(bool, type_is_structure, plain_kind == TYPE_STRUCTURE) \
	Q(bool, type_is_enum, plain_kind == TYPE_ENUM) \
	Q(bool, type_is_enum_field, type < 0 && negative == TYPE_ENUM) \
	Q(bool, type_is_function, kind == TYPE_FUNCTION) \
	Q(bool, type_is_pointer, plain_kind == TYPE_POINTER) \
	Q(bool, type_is_scalar, plain == TYPE_BOOLEAN || IS_INTEGER || plain_kind == TYPE_POINTER || type == TYPE_NULL_POINTER) \
	Q(bool, type_is_aggregate, plain_kind == TYPE_ARRAY || plain_kind == TYPE_STRUCTURE) \
	Q(bool, type_is_string, plain_kind == TYPE_ARRAY && first == TYPE_CHARACTER) \
	Q(bool, type_is_struct_pointer, plain_kind == TYPE_POINTER && element_kind == TYPE_STRUCTURE) \
	Q(bool, type_is_file, plain == TYPE_FILE) \
	Q(type_t, type_get_class, (type_t)kind) \
	Q(size_t, type_size, plain_kind == TYPE_STRUCTURE ? (size_t)first : plain == TYPE_FLOATING ? 2 : 1) \
	Q(item_t, type_const_get_unqualified_type, kind == TYPE_CONST ? below : ITEM_MAX) \
	Q(item_t, type_array_get_element_type, plain_kind == TYPE_ARRAY ? first : ITEM_MAX) \
	Q(item_t, type_pointer_get_element_type, plain_kind == TYPE_POINTER ? first : ITEM_MAX) \
	Q(size_t, type_structure_get_member_amount, plain_kind == TYPE_STRUCTURE ? (size_t)second / 2 : SIZE_MAX) \
	Q(item_t, type_function_get_return_type, kind == TYPE_FUNCTION ? first : ITEM_MAX) \
	Q(size_t, type_function_get_parameter_amount, kind == TYPE_FUNCTION ? (size_t)second : SIZE_MAX) \
	Q(item_t, get_enum_field_type, type < 0 && negative == TYPE_ENUM ? -type : 0)
#define PARTS(Q) \
	Q(size_t, type_structure_get_member_name, 4 + 2 * index, plain_kind == TYPE_STRUCTURE ? (size_t)third : SIZE_MAX) \
	Q(item_t, type_structure_get_member_type, 3 + 2 * index, plain_kind == TYPE_STRUCTURE ? third : ITEM_MAX) \
	Q(item_t, type_function_get_parameter_type, 3 + index, kind == TYPE_FUNCTION ? third : ITEM_MAX)

static item_t item(void)
{
	switch (vp_range(0, 5))
	{
		case 0:
		case 1:
			return (item_t)vp_range(TYPE_FUNCTION, TYPE_CONST);
		case 2:
			return -(item_t)vp_range(0, 12);
		case 3:
			return (item_t)vp_range(0, 40);
		case 4:
			return -(item_t)vp_range(0, CAP);
		default:
			return (item_t)vp_u64();
	}
}

static item_t asked_type;

static void start(const size_t offset)
{
	memset(&sx, 0, sizeof(sx));
	for (size_t i = 0; i < CELLS; i++) { memo[i].index = SIZE_MAX; }
	strange = 0;
	sx.types.size_alloc = vp_size(0, CAP);
	sx.types.size = sx.types.size_alloc;
	const item_t type = asked_type = item();
	vp_assume(sane(type));
	plain = type;
	kind = plain_kind = type > 0 ? known(0, (size_t)type) : type;
	below = known(1, (size_t)(type > 0 ? type + 1 : 0));
	negative = known(2, (size_t)(type > 0 ? 0 : -type));
	if (kind == TYPE_CONST)
	{
		vp_assume(sane(below));
		plain = below;
		plain_kind = plain > 0 ? known(3, (size_t)plain) : plain;
		const item_t next = known(4, (size_t)(plain > 0 ? plain + 1 : 0));
		negative = known(5, (size_t)(plain > 0 ? 0 : -plain));
#ifdef SHALLOW
		vp_assume(plain_kind != TYPE_CONST);
#endif
		if (plain_kind == TYPE_CONST)
		{
			vp_assume(sane(next));
			plain = next;
			plain_kind = plain > 0 ? known(6, (size_t)plain) : plain;
			negative = known(7, (size_t)(plain > 0 ? 0 : -plain));
			vp_assume(plain_kind != TYPE_CONST);
		}
	}
	first = known(8, (size_t)plain + 1);
	second = known(9, (size_t)plain + 2);
	third = known(10, (size_t)plain + offset);
	element_kind = first;
	if (first > 0)
	{
		vp_assume(sane(first));
		element_kind = known(11, (size_t)first);
		if (element_kind == TYPE_CONST)
		{
			const item_t inner = known(12, (size_t)first + 1);
			vp_assume(sane(inner));
			element_kind = inner > 0 ? known(13, (size_t)inner) : inner;
			vp_assume(element_kind != TYPE_CONST);
		}
	}
}

static void done(void)
{
	vp_check(strange == 0, "a question is answered from the record of the type");
	vp_check(sx.types.size == sx.types.size_alloc, "asking changes nothing");
	vp_reach("asked");
}

#define HARNESS(T, f, spec) void h_##f(void) { start(3); const item_t type = asked_type; const T r = f(&sx, type); vp_check(r == (spec), #f); done(); }
#define PART_HARNESS(T, f, offset, spec) void h_##f(void) { const size_t index = vp_bool() ? vp_size(0, 3) : vp_size(0, CAP); start(offset); const item_t type = asked_type; \
	const T r = f(&sx, type, index); vp_check(r == (spec), #f); done(); }
QUESTIONS(HARNESS)
PARTS(PART_HARNESS)

void h_basic(void)
{
	const item_t type = item();
	vp_check(type_is_void(type) == (type == TYPE_VOID), "void");
	vp_check(type_is_null_pointer(type) == (type == TYPE_NULL_POINTER), "null");
	vp_check(type_is_undefined(type) == (type == TYPE_UNDEFINED), "undefined");
	vp_reach("basic");
}
