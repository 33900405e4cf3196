/*
 *	C14: expressions.  For operands of every kind of type the node built has the type, category, operator, operands and location the
 *	rules of the language give it, or exactly one error is reported and nothing is built.  Expressions of literals fold to their value.
 */
#include "vp.h"
#ifdef VP_CBMC
	#define MODEL_CAP 8
	#define MODEL_VECTORS 2
#endif
#include "vector_model.h"
#include "tree_model.h"
#include "builder.h"
#include "AST.h"
#include "map.h"

static syntax sx;
static builder bldr;
static size_t errors, warnings;
static unsigned operands;

void report_error(reporter *const rprt, universal_io *const io, const location loc, const err_t num, va_list args)
{
	(void)rprt; (void)io; (void)loc; (void)num; (void)args;
	errors++;
}

void report_warning(reporter *const rprt, universal_io *const io, const location loc, const warning_t num, va_list args)
{
	(void)rprt; (void)io; (void)loc; (void)num; (void)args;
	warnings++;
}

/* The types operands are taken from: every class, and const versions. */
typedef enum kind { INT, CHAR, BOOL, FLOAT, VOID_, FILE_, NIL, ENUM_, ARRAY, STRUCT, FUNCTION, POINTER, NONE } kind;
typedef struct described { item_t type, plain; kind is; bool fixed; size_t below; } described;

#define TYPES 24
static described all[TYPES];
static size_t amount;

static size_t fixed_float, string_type;
static item_t parameters[2] = { TYPE_FLOATING, TYPE_INTEGER };

/*
 *	In the proof the questions about types are answered by their contracts (C15): types are numbers, 10 + n stands for the n-th type
 *	below, POINTED + n for a pointer to it made later, FIXED + n for its const version.
 */
#ifdef VP_CBMC
#define MADE(...) ((item_t)(10 + amount))
#define POINTED 100
#define FIXED 200

static size_t which(const item_t t)
{
	switch (t)
	{
		case TYPE_INTEGER: return 0;
		case TYPE_CHARACTER: return 1;
		case TYPE_BOOLEAN: return 2;
		case TYPE_FLOATING: return 3;
		case TYPE_VOID: return 4;
		case TYPE_FILE: return 5;
		case TYPE_NULL_POINTER: return 6;
		default: return t >= 10 && t < 10 + (item_t)amount ? (size_t)t - 10 : TYPES;
	}
}

static bool made_const(const item_t t) { return t >= FIXED && t < FIXED + TYPES; }
static bool made_pointer(const item_t t) { return t >= POINTED && t < POINTED + TYPES; }
static described nothing = { ITEM_MAX, ITEM_MAX, NONE, false, 0 };

/* What the type is. */
static described get(const item_t t)
{
	if (made_const(t))
	{
		const described *const d = &all[t - FIXED];
		return (described){ t, d->type, d->is, true, d->below };
	}
	if (made_pointer(t)) { return (described){ t, t, POINTER, false, (size_t)(t - POINTED) }; }
	const size_t n = which(t);
	return n < TYPES ? all[n] : nothing;
}

static bool whole(const described d) { return d.is == INT || d.is == CHAR || d.is == ENUM_; }
#define Q(f, answer) bool type_is_##f(const syntax *const s, const item_t type) { (void)s; const described d = get(type); return answer; }
Q(boolean, d.is == BOOL)
Q(integer, whole(d))
Q(floating, d.is == FLOAT)
Q(arithmetic, whole(d) || d.is == FLOAT)
Q(const, d.fixed)
Q(array, d.is == ARRAY)
Q(structure, d.is == STRUCT)
Q(enum, d.is == ENUM_)
Q(enum_field, false)
Q(function, d.is == FUNCTION)
Q(pointer, d.is == POINTER)
Q(scalar, whole(d) || d.is == BOOL || d.is == POINTER || d.is == NIL)
Q(aggregate, d.is == ARRAY || d.is == STRUCT)
Q(string, d.is == ARRAY && all[d.below].type == TYPE_CHARACTER)
Q(struct_pointer, d.is == POINTER && all[d.below].is == STRUCT)
Q(file, d.is == FILE_)
bool type_is_void(const item_t type) { return type == TYPE_VOID; }
bool type_is_null_pointer(const item_t type) { return type == TYPE_NULL_POINTER; }
bool type_is_undefined(const item_t type) { return type == TYPE_UNDEFINED; }
type_t type_get_class(const syntax *const s, const item_t type)
{
	(void)s;
	const described d = get(type);
	return d.fixed ? TYPE_CONST : d.is == ARRAY ? TYPE_ARRAY : d.is == STRUCT ? TYPE_STRUCTURE : d.is == FUNCTION ? TYPE_FUNCTION : d.is == POINTER ? TYPE_POINTER
		: d.is == ENUM_ ? TYPE_ENUM : (type_t)type;
}
#define A(f, answer, other) item_t type_##f(const syntax *const s, const item_t type) { (void)s; const described d = get(type); return answer ? other : ITEM_MAX; }
A(const_get_unqualified_type, d.fixed, d.plain)
A(array_get_element_type, d.is == ARRAY, all[d.below].type)
A(pointer_get_element_type, d.is == POINTER, all[d.below].type)
A(function_get_return_type, d.is == FUNCTION, TYPE_INTEGER)
#undef A
#undef Q
size_t type_structure_get_member_amount(const syntax *const s, const item_t type) { return get(type).is == STRUCT ? 2 : SIZE_MAX; }
size_t type_structure_get_member_name(const syntax *const s, const item_t type, const size_t i) { return get(type).is == STRUCT ? 5 + i : SIZE_MAX; }
item_t type_structure_get_member_type(const syntax *const s, const item_t type, const size_t i) { return get(type).is != STRUCT ? ITEM_MAX : i == 0 ? TYPE_INTEGER : all[fixed_float].type; }
size_t type_function_get_parameter_amount(const syntax *const s, const item_t type) { return get(type).is == FUNCTION ? 2 : SIZE_MAX; }
item_t type_function_get_parameter_type(const syntax *const s, const item_t type, const size_t i) { return get(type).is == FUNCTION && i < 2 ? parameters[i] : ITEM_MAX; }
size_t type_size(const syntax *const s, const item_t type) { return get(type).is == FLOAT ? 2 : get(type).is == STRUCT ? 3 : 1; }

item_t type_pointer(syntax *const s, const item_t type)
{
	const size_t n = which(type);
	vp_check(n < TYPES, "a pointer to a type there is");
	for (size_t i = 0; i < TYPES; i++)
	{
		if (i < amount && all[i].is == POINTER && !all[i].fixed && all[i].below == n) { return all[i].type; }
	}
	return POINTED + (item_t)n;
}
item_t type_const(syntax *const s, const item_t type)
{
	const size_t n = which(type);
	vp_check(n < TYPES && !all[n].fixed, "the const version of a type there is");
	for (size_t i = 0; i < TYPES; i++)
	{
		if (i < amount && all[i].fixed && all[i].plain == type) { return all[i].type; }
	}
	return FIXED + (item_t)n;
}
item_t type_string(syntax *const s) { return all[string_type].type; }
#else
#define MADE(...) (__VA_ARGS__)
#endif

static size_t add(const kind is, const item_t type, const size_t below)
{
	all[amount] = (described){ type, type, is, false, below };
	return amount++;
}

static size_t fixed(const size_t of)
{
	all[amount] = (described){ MADE(type_const(&sx, all[of].type)), all[of].type, all[of].is, true, all[of].below };
	return amount++;
}

static void start(void)
{
	amount = errors = warnings = operands = 0;
	memset(&sx, 0, sizeof(sx));
#ifdef VP_NATIVE
	sx.types = vector_create(4);
	vector_increase(&sx.types, 1);
	sx.tree = vector_create(4);
#else
	static item_t there;
	sx.tree.array = &there;
#endif
	tree_reset();
	bldr = builder_create(&sx);

	const size_t n = add(INT, TYPE_INTEGER, 0), c = add(CHAR, TYPE_CHARACTER, 0), b = add(BOOL, TYPE_BOOLEAN, 0), f = add(FLOAT, TYPE_FLOATING, 0);
	add(VOID_, TYPE_VOID, 0);
	add(FILE_, TYPE_FILE, 0);
	add(NIL, TYPE_NULL_POINTER, 0);
	const size_t cn = fixed(n), cf = fixed(f);
	fixed(b);
	fixed_float = cf;
	const size_t pn = add(POINTER, MADE(type_pointer(&sx, TYPE_INTEGER)), n);
	add(POINTER, MADE(type_pointer(&sx, all[cn].type)), cn);
	fixed(pn);
	string_type = add(ARRAY, MADE(type_string(&sx)), c);
	const size_t an = add(ARRAY, MADE(type_array(&sx, TYPE_INTEGER)), n);
	add(ARRAY, MADE(type_array(&sx, all[cf].type)), cf);
	fixed(an);
#ifdef VP_NATIVE
	vector types = vector_create(2), names = vector_create(2);
	vector_add(&types, TYPE_INTEGER);
	vector_add(&types, all[cf].type);
	vector_add(&names, 5);
	vector_add(&names, 6);
#endif
	const size_t s = add(STRUCT, MADE(type_structure(&sx, &types, &names)), 0);
#ifdef VP_NATIVE
	vector_clear(&types);
	vector_clear(&names);
#endif
	add(POINTER, MADE(type_pointer(&sx, all[s].type)), s);
	const size_t cs = fixed(s);
	add(POINTER, MADE(type_pointer(&sx, all[cs].type)), cs);
	add(FUNCTION, MADE(type_add(&sx, (item_t[]){ TYPE_FUNCTION, TYPE_INTEGER, 2, parameters[0], parameters[1] }, 5)), 0);
	const size_t e = add(ENUM_, MADE(type_add(&sx, (item_t[]){ TYPE_ENUM }, 1)), 0);
#ifdef VP_NATIVE
	type_enum_add_fields(&sx, (item_t[]){ 0, 2, 9, 8 }, 4);
#endif
	fixed(e);
	vp_check(amount == TYPES, "all types are there");
}

static void stop(void)
{
#ifdef VP_NATIVE
	vector_clear(&sx.types);
	vector_clear(&sx.tree);
#endif
}

static bool integer(const described *const d) { return d->is == INT || d->is == CHAR || d->is == ENUM_; }
static bool arithmetic(const described *const d) { return integer(d) || d->is == FLOAT; }
static bool scalar(const described *const d) { return integer(d) || d->is == BOOL || d->is == POINTER || d->is == NIL; }

typedef struct operand
{
	node nd;
	described *d;
	bool lvalue, broken;
	location loc;
} operand;

/*
 *	The verifier's harness goes through all types of the operands one by one (every PARTS-th of the first one's); native runs choose some.
 */
#ifndef PART
	#define PART 0
	#define PARTS 1
#endif
static size_t chosen[3], choices;
/* The types pairs of operands are taken from in the proof. */
#ifdef WIDE
static const size_t pairs[] = { 0, 1, 2, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 17, 19, 21, 22, 23 };
#elif defined FEW
static const size_t pairs[] = { 0, 8, 10 };
#else
static const size_t pairs[] = { 0, 2, 3, 6, 8, 10, 12, 17 };
#endif
#define PAIRS (sizeof(pairs) / sizeof(size_t))
static size_t paired(void) { return vp_small() ? pairs[chosen[choices++]] : (size_t)vp_range(0, TYPES - 1); }

static size_t choice(const size_t last) { return vp_small() ? chosen[choices++] : (size_t)vp_range(0, last); }

#ifdef VP_CBMC
	#define VECTORS_GONE model_vectors = 0
#else
	#define VECTORS_GONE
#endif

#define EVERY(one, n0, n1, n2) \
	start(); \
	if (vp_small()) \
	{ \
		for (chosen[0] = PART; chosen[0] < (n0); chosen[0] += PARTS) \
		{ \
			for (chosen[1] = 0; chosen[1] < (n1); chosen[1]++) \
			{ \
				for (chosen[2] = 0; chosen[2] < (n2); chosen[2]++) \
				{ \
					tree_reset(); \
					VECTORS_GONE; \
					errors = warnings = choices = operands = 0; \
					one(); \
				} \
			} \
		} \
	} \
	else { one(); } \
	vp_reach(#one); \
	stop();

#ifndef GIVEN
	#define GIVEN 2
#endif

#ifndef BROKEN
	#define BROKEN 0		/* bit n: the n-th operand is broken */
#endif

#define ANY (size_t)vp_range(0, TYPES - 1)
static operand variable(const bool breakable, const size_t type)
{
	operand o;
	o.d = &all[type];
	o.loc = (location){ (size_t)vp_range(0, 1000), (size_t)vp_range(0, 1000) };
	o.nd = expression_identifier(&bldr.context, o.d->type, 200, o.loc);
	o.lvalue = vp_bool();
	node_set_arg(&o.nd, 1, o.lvalue ? LVALUE : RVALUE);
	o.broken = breakable && (vp_small() ? BROKEN >> operands++ & 1 : vp_range(0, 9) == 0);
	if (o.broken) { o.nd = node_broken(); }
	return o;
}

static bool same(const node *const a, const node *const b) { return a->tree == b->tree && a->index == b->index; }

/* The operand, converted to floating when asked for. */
static bool operand_is(const node *const nd, const operand *const o, const bool floating)
{
	if (same(nd, &o->nd)) { return !floating || o->d->is == FLOAT; }
	const node inner = node_get_child(nd, 0);
	return floating && expression_get_class(nd) == EXPR_CAST && expression_get_type(nd) == TYPE_FLOATING && !expression_is_lvalue(nd)
		&& expression_cast_get_source_type(nd) == o->d->type && same(&inner, &o->nd);
}

static void located(const node *const nd, const size_t begin, const size_t end)
{
	const location loc = node_get_location(nd);
	vp_check(loc.begin == begin && loc.end == end, "the location of the expression");
}

/* Nothing was wrong and a node was built, or one error was reported and none was. */
static bool built(const node *const nd, const bool legal, const bool broken)
{
	vp_check(errors == (legal || broken ? 0 : 1), "exactly one error is reported for a wrong expression, none for a right one");
	vp_check(node_is_correct(nd) == (legal && !broken), "an expression is built if and only if it is right");
	return legal && !broken;
}

void h_unary(void)
{
	start();
	operand o = variable(true, ANY);
	const described *const d = o.d;
	const node before = o.nd;
	const unary_t op = (unary_t)vp_range(UN_POSTINC, UN_UPB);
	const location op_loc = { (size_t)vp_range(0, 1000), (size_t)vp_range(0, 1000) };
	const node nd = build_unary_expression(&bldr, &o.nd, op, op_loc);
	o.nd = before;

	const bool step = op == UN_POSTINC || op == UN_POSTDEC || op == UN_PREINC || op == UN_PREDEC;
	const bool legal = step ? o.lvalue && arithmetic(d) && !d->fixed : op == UN_ADDRESS ? o.lvalue : op == UN_INDIRECTION ? d->is == POINTER
		: op == UN_ABS || op == UN_MINUS ? arithmetic(d) : op == UN_NOT ? integer(d) : op == UN_LOGNOT ? scalar(d) : d->is == ARRAY;
	if (built(&nd, legal, o.broken))
	{
		const item_t type = expression_get_type(&nd);
		vp_check(op == UN_ADDRESS ? type_is_pointer(&sx, type) && !type_is_const(&sx, type) && type_pointer_get_element_type(&sx, type) == d->type
			: type == (op == UN_INDIRECTION ? all[d->below].type : op == UN_NOT || op == UN_UPB ? TYPE_INTEGER : op == UN_LOGNOT ? TYPE_BOOLEAN : d->type),
			"the type of a unary expression");
		vp_check(expression_is_lvalue(&nd) == (op == UN_INDIRECTION), "its category");
		const node inner = node_get_child(&nd, 0);
		vp_check(expression_get_class(&nd) == EXPR_UNARY && expression_unary_get_operator(&nd) == op && same(&inner, &o.nd), "its operator and operand");
		const bool post = op == UN_POSTINC || op == UN_POSTDEC;
		located(&nd, post ? o.loc.begin : op_loc.begin, post ? op_loc.end : o.loc.end);
	}
	vp_check(warnings == 0, "no warning");
	vp_reach("unary");
	stop();
}

/* A value of the second type can become one of the first. */
static bool assignable(const described *const to, const described *const from)
{
	if (integer(from)) { return arithmetic(to); }
	if (to->is == POINTER && from->is == NIL) { return true; }
	if (to->is == POINTER && from->is == POINTER)
	{
		const described *const a = &all[to->below], *const b = &all[from->below];
		return a->plain == b->plain && (a->fixed || !b->fixed);
	}
	return to->plain == from->plain;
}

#ifndef FIRST
	#define FIRST BIN_MUL
	#define LAST BIN_COMMA
#endif

static void binary(void)
{
	operand l = variable(true, paired()), r = variable(true, paired());
	const described *const a = l.d, *const b = r.d;
	node left = l.nd, right = r.nd;
	const binary_t op = (binary_t)(vp_small() ? FIRST + choice(LAST - FIRST) : (size_t)vp_range(BIN_MUL, BIN_COMMA));
	const location op_loc = { (size_t)vp_range(0, 1000), (size_t)vp_range(0, 1000) };
	const node nd = build_binary_expression(&bldr, &left, &right, op, op_loc);

	const bool assignment = op >= BIN_ASSIGN && op <= BIN_OR_ASSIGN;
	const bool bits = op == BIN_REM || op == BIN_SHL || op == BIN_SHR || op == BIN_AND || op == BIN_XOR || op == BIN_OR
		|| op == BIN_REM_ASSIGN || (op >= BIN_SHL_ASSIGN && op <= BIN_OR_ASSIGN);
	const bool compare = op >= BIN_LT && op <= BIN_NE, equal = op == BIN_EQ || op == BIN_NE, logic = op == BIN_LOG_AND || op == BIN_LOG_OR;
	const bool numbers = arithmetic(a) && arithmetic(b);
	const bool legal = (!assignment || (l.lvalue && !a->fixed && assignable(a, b)))
		&& (op == BIN_ASSIGN || op == BIN_COMMA || (bits ? integer(a) && integer(b) : logic ? scalar(a) && scalar(b)
			: equal ? numbers || (a->is == POINTER && b->is == NIL) || (a->is == NIL && b->is == POINTER) || a->type == b->type : numbers));
	if (built(&nd, legal, l.broken || r.broken))
	{
		const bool floating = numbers && (a->is == FLOAT || b->is == FLOAT) && op != BIN_COMMA;
		const item_t type = assignment ? a->type : op == BIN_COMMA ? b->type : compare || logic ? TYPE_BOOLEAN : floating ? TYPE_FLOATING : TYPE_INTEGER;
		vp_check(expression_get_type(&nd) == type, "the type of a binary expression");
		vp_check(!expression_is_lvalue(&nd), "its category");
		vp_check(expression_get_class(&nd) == (assignment ? EXPR_ASSIGNMENT : EXPR_BINARY) && node_get_amount(&nd) == 2, "its class");
		vp_check((assignment ? expression_assignment_get_operator(&nd) : expression_binary_get_operator(&nd)) == op, "its operator");
		const node fst = node_get_child(&nd, 0), snd = node_get_child(&nd, 1);
		vp_check(operand_is(&fst, &l, floating && !assignment) && operand_is(&snd, &r, floating), "its operands, converted where the other one is floating");
		located(&nd, l.loc.begin, r.loc.end);
	}
	vp_check(l.broken || r.broken || warnings == (equal && (a->is == FLOAT || b->is == FLOAT) ? 1 : 0), "a warning for comparing floating values only");
}

void h_binary(void)
{
	EVERY(binary, PAIRS, PAIRS, LAST - FIRST + 1)
}

static void ternary(void)
{
	operand l = variable(true, paired()), r = variable(true, paired()), c = variable(true, vp_small() ? (size_t[]){ 2, 3, 10 }[choice(2)] : ANY);
	const described *const a = l.d, *const b = r.d;
	node cond = c.nd, left = l.nd, right = r.nd;
	const node nd = build_ternary_expression(&bldr, &cond, &left, &right, (location){ 1, 2 });
	const bool numbers = arithmetic(a) && arithmetic(b), floating = numbers && (a->is == FLOAT || b->is == FLOAT);
	const bool nil = b->is == NIL && a->is == POINTER;
	const bool legal = scalar(c.d) && (numbers || nil || (a->is == NIL && b->is == POINTER) || a->type == b->type);
	if (built(&nd, legal, c.broken || l.broken || r.broken))
	{
		vp_check(expression_get_type(&nd) == (floating ? TYPE_FLOATING : numbers ? TYPE_INTEGER : nil ? a->type : b->type), "the type of a conditional expression");
		vp_check(!expression_is_lvalue(&nd) && expression_get_class(&nd) == EXPR_TERNARY && node_get_amount(&nd) == 3, "its class");
		const node zero = node_get_child(&nd, 0), fst = node_get_child(&nd, 1), snd = node_get_child(&nd, 2);
		vp_check(operand_is(&zero, &c, false) && operand_is(&fst, &l, floating) && operand_is(&snd, &r, floating), "its operands");
		located(&nd, c.loc.begin, r.loc.end);
	}
}

void h_ternary(void)
{
	EVERY(ternary, PAIRS, PAIRS, 3)
}

void h_subscript(void)
{
	start();
	operand l = variable(true, ANY), r = variable(true, ANY);
	node base = l.nd, index = r.nd;
	const node nd = build_subscript_expression(&bldr, &base, &index, (location){ 1, 2 }, (location){ 3, 4 });
	if (built(&nd, l.d->is == ARRAY && integer(r.d), l.broken || r.broken))
	{
		const described *const element = &all[l.d->below];
		const item_t type = expression_get_type(&nd);
		vp_check(l.d->fixed && !element->fixed ? type_is_const(&sx, type) && type_const_get_unqualified_type(&sx, type) == element->type : type == element->type,
			"an element of an array has its type; of a const array, the const version");
		vp_check(expression_is_lvalue(&nd) && expression_get_class(&nd) == EXPR_SUBSCRIPT && node_get_amount(&nd) == 2, "its class");
		const node fst = node_get_child(&nd, 0), snd = node_get_child(&nd, 1);
		vp_check(operand_is(&fst, &l, false) && operand_is(&snd, &r, false), "its operands");
		located(&nd, l.loc.begin, 4);
	}
	vp_reach("subscript");
	stop();
}

const char *map_to_string(const map *const as, const size_t index) { (void)as; (void)index; return "name"; }

void h_member(void)
{
	start();
	operand o = variable(true, ANY);
	node base = o.nd;
	const size_t name = (size_t)vp_range(4, 7);
	const bool arrow = vp_bool();
	const node nd = build_member_expression(&bldr, &base, name, arrow, (location){ 1, 2 }, (location){ 3, 4 });
	const described *const s = arrow && o.d->is == POINTER ? &all[o.d->below] : o.d;
	if (built(&nd, s->is == STRUCT && arrow == (o.d->is == POINTER) && (name == 5 || name == 6), o.broken))
	{
		const item_t type = expression_get_type(&nd);
		const item_t plain = name == 5 ? TYPE_INTEGER : TYPE_FLOATING;
		vp_check(name == 6 || s->fixed ? type_is_const(&sx, type) && type_const_get_unqualified_type(&sx, type) == plain : type == plain,
			"a member has its type; of a const structure, the const version");
		vp_check(expression_is_lvalue(&nd) == (arrow || o.lvalue), "its category");
		vp_check(expression_get_class(&nd) == EXPR_MEMBER && expression_member_get_member_index(&nd) == name - 5 && expression_member_is_arrow(&nd) == arrow, "its place");
		const node inner = node_get_child(&nd, 0);
		vp_check(node_get_amount(&nd) == 1 && operand_is(&inner, &o, false), "its operand");
		located(&nd, o.loc.begin, 4);
	}
	vp_reach("member");
	stop();
}

static const size_t callees[] = { 21, 0 };

static void call(void)
{
	operand callee = variable(true, vp_small() ? callees[choice(1)] : ANY), args[3];
	node_vector list = node_vector_create();
	const size_t given = vp_small() ? GIVEN : (size_t)vp_range(0, 3);
	bool bad = false;
	for (size_t i = 0; i < 3; i++)
	{
		if (i < given)
		{
			args[i] = variable(false, i < 2 ? paired() : 0);
			node_vector_add(&list, &args[i].nd);
			bad = bad || (i < 2 && !assignable(&all[parameters[i] == TYPE_FLOATING ? 3 : 0], args[i].d));
		}
	}
	node called = callee.nd;
	const node nd = build_call_expression(&bldr, &called, vp_bool() || given != 0 ? &list : NULL, (location){ 1, 2 }, (location){ 3, 4 });
	if (built(&nd, callee.d->is == FUNCTION && given == 2 && !bad, callee.broken))
	{
		vp_check(expression_get_type(&nd) == TYPE_INTEGER && !expression_is_lvalue(&nd) && expression_get_class(&nd) == EXPR_CALL, "the type of a call is the type of the result");
		vp_check(expression_call_get_arguments_amount(&nd) == 2, "the number of arguments");
		const node fst = expression_call_get_argument(&nd, 0), snd = expression_call_get_argument(&nd, 1), zero = expression_call_get_callee(&nd);
		vp_check(operand_is(&zero, &callee, false) && operand_is(&fst, &args[0], true) && operand_is(&snd, &args[1], false), "the arguments, converted to the types of the parameters");
		located(&nd, callee.loc.begin, 4);
	}
	node_vector_clear(&list);
}

void h_call(void)
{
	EVERY(call, 2, PAIRS, PAIRS)
}

/* An initializer for a structure or an array, one level deep. */
static const size_t targets[] = { 15, 17 };

static void initializer(void)
{
	node_vector list = node_vector_create();
	operand items[3];
	const size_t given = vp_small() ? GIVEN : (size_t)vp_range(0, 3);
	const described *const to = &all[vp_small() ? targets[choice(1)] : ANY];
	for (size_t i = 0; i < 3; i++)
	{
		if (i < given)
		{
			items[i] = variable(false, i < 2 ? paired() : 0);
			node_vector_add(&list, &items[i].nd);
		}
	}
	node nd = build_initializer(&bldr, &list, (location){ 1, 2 }, (location){ 3, 4 });
	if (built(&nd, given > 0, false))
	{
		bool good = to->is == ARRAY || (to->is == STRUCT && given == 2);
		for (size_t i = 0; i < 3; i++)
		{
			if (i < given)
			{
				const described *const e = to->is == STRUCT ? &all[i == 0 ? 0 : 3] : &all[to->below];
				good = good && assignable(e, items[i].d);
			}
		}
		vp_check(check_assignment_operands(&bldr, to->type, &nd, true) == good && errors == (good ? 0 : 1), "an initializer fits when all its parts do");
		if (good)
		{
			vp_check(expression_get_type(&nd) == to->plain && expression_initializer_get_size(&nd) == given, "it gets the type of what it initializes");
			for (size_t i = 0; i < 3; i++)
			{
				if (i < given)
				{
					const node part = expression_initializer_get_subexpr(&nd, i);
					const bool floating = (to->is == STRUCT && i == 1) || (to->is == ARRAY && all[to->below].is == FLOAT);
					vp_check(operand_is(&part, &items[i], floating && items[i].d->is != FLOAT), "its parts, converted");
				}
			}
		}
		located(&nd, 1, 4);
	}
	node_vector_clear(&list);
}

void h_initializer(void)
{
	EVERY(initializer, 2, PAIRS, PAIRS)
}

void h_cast(void)
{
	start();
	operand from = variable(false, ANY);
	const described *const to = &all[vp_range(0, TYPES - 1)];
	const bool declaration = vp_bool();
	node nd = from.nd;
	const bool good = (declaration || !to->fixed) && assignable(to, from.d);
	vp_check(check_assignment_operands(&bldr, to->type, &nd, declaration) == good && errors == (good ? 0 : 1), "a value is accepted when it can become one of the type");
	if (good) { vp_check(operand_is(&nd, &from, to->is == FLOAT && from.d->is != FLOAT), "it is converted where the type is floating"); }
	node nothing = node_broken();
	vp_check(check_assignment_operands(&bldr, to->type, &nothing, declaration) && errors == (good ? 0 : 1), "what is wrong already is not reported again");
	vp_reach("conversion");
	stop();
}

/* Literals. */
typedef struct constant { kind is; int64_t value; double real; node nd; } constant;

#ifndef RANGE
	#define RANGE 0
#endif

static constant literal(const kind is)
{
	static const double reals[] = { 0.0, -0.0, 1.5, -2.25, 1e308, -3.0, 1e-310 };
	constant c;
	const location loc = { 10, 20 };
	c.is = is;
	c.value = is == BOOL ? vp_bool() : is == CHAR ? (int64_t)vp_range(0, 0x10FFFF) : is == NIL ? 0 : RANGE ? (int64_t)vp_range(0, 2 * RANGE) - RANGE
		: vp_range(0, 3) == 0 ? (int64_t)vp_range(0, 70) - 3 : vp_range(0, 9) == 0 ? INT64_MIN : (int64_t)vp_u64();
	c.real = reals[vp_range(0, sizeof(reals) / sizeof(double) - 1)];
	switch (is)
	{
		case INT: c.nd = build_integer_literal_expression(&bldr, c.value, loc); break;
		case ENUM_: c.nd = expression_integer_literal(&bldr.context, all[amount - 2].type, c.value, loc); break;
		case BOOL: c.nd = build_boolean_literal_expression(&bldr, c.value != 0, loc); break;
		case CHAR: c.nd = build_character_literal_expression(&bldr, (char32_t)c.value, loc); break;
		case NIL: c.nd = build_null_literal_expression(&bldr, loc); break;
		default: c.nd = build_floating_literal_expression(&bldr, c.real, loc);
	}
	return c;
}

static bool same_bits(const double a, const double b)
{
	union { double d; int64_t i; } x = { a }, y = { b };
	return x.i == y.i || (a != a && b != b);
}

/* The value of the expression: folded to a literal, or left to be computed with the operands as they are. */
static void value_is(const node *const nd, const kind is, const int64_t value, const double real, const bool may_stay, const item_t type)
{
	vp_check(node_is_correct(nd) && errors == 0 && !expression_is_lvalue(nd), "the expression is right");
	if (expression_get_class(nd) == EXPR_LITERAL)
	{
		const item_t t = expression_get_type(nd);
		vp_check(is == FLOAT ? t == TYPE_FLOATING && same_bits(expression_literal_get_floating(nd), real)
			: is == BOOL ? t == TYPE_BOOLEAN && expression_literal_get_boolean(nd) == (value != 0) : type_is_integer(&sx, t) && expression_literal_get_integer(nd) == value,
			"the expression folds to its value");
	}
	else
	{
		vp_check(may_stay && expression_get_type(nd) == type, "the expression is left to be computed");
	}
}

#ifndef KIND_L
	#define KIND_L INT
	#define KIND_R INT
#endif

static const kind kinds[] = { INT, ENUM_, BOOL, CHAR, NIL, FLOAT };

void h_fold_unary(void)
{
	for (size_t k = 0; k < 6; k++)
	{
		start();
		constant c = literal(kinds[k]);
		const bool number = c.is != BOOL && c.is != NIL, whole = number && c.is != FLOAT;
		unary_t op = (unary_t)vp_range(UN_MINUS, UN_ABS);
		vp_assume(op == UN_LOGNOT ? c.is != FLOAT : op == UN_NOT ? whole : number);
		const node nd = build_unary_expression(&bldr, &c.nd, op, (location){ 5, 6 });
		const int64_t minus = (int64_t)(0 - (uint64_t)c.value);
		if (op == UN_LOGNOT) { value_is(&nd, BOOL, c.value == 0, 0, c.is == CHAR, TYPE_BOOLEAN); }
		else if (c.is == FLOAT)
		{
			value_is(&nd, FLOAT, 0, op == UN_MINUS || c.real < 0 ? -c.real : c.real, false, 0);
		}
		else { value_is(&nd, INT, op == UN_NOT ? ~c.value : op == UN_MINUS || c.value < 0 ? minus : c.value, 0, c.is == CHAR, op == UN_NOT ? TYPE_INTEGER : TYPE_CHARACTER); }
		located(&nd, 5, 20);
		stop();
	}
	vp_reach("folded");
}

void h_fold_binary(void)
{
	start();
	constant l = literal(vp_small() ? KIND_L : kinds[vp_range(0, 5)]), r = literal(vp_small() ? KIND_R : kinds[vp_range(0, 5)]);
	const binary_t op = vp_small() ? FIRST : (binary_t)vp_range(BIN_MUL, BIN_LOG_OR);
	const bool compare = op >= BIN_LT && op <= BIN_NE, logic = op == BIN_LOG_AND || op == BIN_LOG_OR;
	const bool numbers = l.is != BOOL && r.is != BOOL && l.is != NIL && r.is != NIL, floating = l.is == FLOAT || r.is == FLOAT;
	const bool bits = op == BIN_REM || op == BIN_SHL || op == BIN_SHR || op == BIN_AND || op == BIN_XOR || op == BIN_OR;
	vp_assume(op <= BIN_LOG_OR && (logic ? !floating : bits ? numbers && !floating : numbers || ((op == BIN_EQ || op == BIN_NE) && l.is == r.is)));
	const double x = l.is == FLOAT ? l.real : (double)l.value, y = r.is == FLOAT ? r.real : (double)r.value;
	const int64_t a = l.value, b = r.value;
	const uint64_t ua = (uint64_t)a, ub = (uint64_t)b;
	const node nd = build_binary_expression(&bldr, &l.nd, &r.nd, op, (location){ 5, 6 });

	const bool undefined = !floating && (((op == BIN_DIV || op == BIN_REM) && (b == 0 || (b == -1 && a == INT64_MIN)))
		|| ((op == BIN_SHL || op == BIN_SHR) && (b < 0 || b > 63)));
	const bool stays = undefined || (!floating && (l.is == CHAR || l.is == NIL));
	int64_t value = 0;
	double real = 0;
	if (undefined) { vp_check(node_is_correct(&nd) && expression_get_class(&nd) == EXPR_BINARY, "what has no value is not folded"); }
	switch (op)
	{
		case BIN_MUL: value = (int64_t)(ua * ub); if (floating) { real = x * y; } break;
		case BIN_DIV: if (!undefined && !floating) { value = a / b; } if (floating) { real = x / y; } break;
		case BIN_REM: if (!undefined) { value = a % b; } break;
		case BIN_ADD: value = (int64_t)(ua + ub); real = x + y; break;
		case BIN_SUB: value = (int64_t)(ua - ub); real = x - y; break;
		case BIN_SHL: if (!undefined) { value = (int64_t)(ua << ub); } break;
		case BIN_SHR: if (!undefined) { value = a >> b; } break;
		case BIN_LT: value = floating ? x < y : a < b; break;
		case BIN_GT: value = floating ? x > y : a > b; break;
		case BIN_LE: value = floating ? x <= y : a <= b; break;
		case BIN_GE: value = floating ? x >= y : a >= b; break;
		case BIN_EQ: value = floating ? x == y : a == b; break;
		case BIN_NE: value = floating ? x != y : a != b; break;
		case BIN_AND: value = a & b; break;
		case BIN_XOR: value = a ^ b; break;
		case BIN_OR: value = a | b; break;
		case BIN_LOG_AND: value = a != 0 && b != 0; break;
		default: value = a != 0 || b != 0; break;
	}
	value_is(&nd, compare || logic ? BOOL : floating ? FLOAT : INT, value, real, stays, compare || logic ? TYPE_BOOLEAN : TYPE_INTEGER);
	located(&nd, 10, 20);
	vp_reach("folded");
	stop();
}
