/*
 *	C16: the expressions of directives (#if, #elif, #while, #eval) have C's precedence, associativity and 64-bit values; a sequence
 *	of tokens that is no expression, or divides by zero, is reported exactly once.
 */
#include "vp.h"
#ifdef VP_CBMC
	#define MODEL_CAP 24
	#define MODEL_VECTORS 2
#endif
#include "vector_model.h"
#include "computer.h"
#include "error.h"

static unsigned reports;

bool in_is_file(const universal_io *const io) { (void)io; return false; }
size_t in_get_position(const universal_io *const io) { (void)io; return 0; }
int in_set_position(universal_io *const io, const size_t position) { (void)io; (void)position; return 0; }
location loc_copy(location *const loc) { location copy; memset(&copy, 0, sizeof(copy)); if (loc != NULL) { copy.line = 1; } return copy; }
bool loc_is_correct(const location *const loc) { return loc != NULL && loc->line == 1; }
int loc_search_from(location *const loc) { (void)loc; return 0; }
void macro_verror(location *const loc, const error_t num, va_list args) { (void)loc; (void)num; (void)args; reports++; }

#ifdef VP_CBMC
/* A number takes up to 20 characters and the terminator, anything else is written as it stands. */
int sprintf(char *const buffer, const char *const format, ...)
{
	if (format[0] == '%' && format[1] != '%')
	{
		__CPROVER_assert(__CPROVER_w_ok(buffer, 21), "room for a number");
		buffer[0] = '0';
		buffer[20] = '\0';
		return 20;
	}
	int size = 0;
	for (const char *c = format; *c != '\0'; c += *c == '%' ? 2 : 1) { buffer[size++] = *c; }
	buffer[size] = '\0';
	return size;
}
#endif

#ifndef TEMPLATE
	#define TEMPLATE "nbn"
#endif
#define MAX_LENGTH 16
#define NUMBER (-1)

static int kinds[MAX_LENGTH];
static int64_t values[MAX_LENGTH];
static size_t length;

/* Binding strength of an operator with two operands, 0: not one. */
static int strength(const int kind)
{
	switch (kind)
	{
		case TK_MULT: case TK_DIV: case TK_MOD:
			return 10;
		case TK_ADD: case TK_SUB:
			return 9;
		case TK_L_SHIFT: case TK_R_SHIFT:
			return 8;
		case TK_LESS: case TK_GREATER: case TK_LESS_EQ: case TK_GREATER_EQ:
			return 7;
		case TK_EQ: case TK_NOT_EQ:
			return 6;
		case TK_BIT_AND:
			return 5;
		case TK_XOR:
			return 4;
		case TK_BIT_OR:
			return 3;
		case TK_AND:
			return 2;
		case TK_OR:
			return 1;
		default:
			return 0;
	}
}

static bool zero_division;
static bool malformed;

static int64_t apply(const int kind, const int64_t a, const int64_t b)
{
	switch (kind)
	{
		case TK_MULT: return (int64_t)((uint64_t)a * (uint64_t)b);
		case TK_DIV: if (b == 0) { zero_division = true; return 0; } return b == -1 ? (int64_t)(0 - (uint64_t)a) : a / b;
		case TK_MOD: if (b == 0) { zero_division = true; return 0; } return b == -1 ? 0 : a % b;
		case TK_ADD: return (int64_t)((uint64_t)a + (uint64_t)b);
		case TK_SUB: return (int64_t)((uint64_t)a - (uint64_t)b);
		case TK_L_SHIFT: return (int64_t)((uint64_t)a << (b & 63));
		case TK_R_SHIFT: return a >> (b & 63);
		case TK_LESS: return a < b;
		case TK_GREATER: return a > b;
		case TK_LESS_EQ: return a <= b;
		case TK_GREATER_EQ: return a >= b;
		case TK_EQ: return a == b;
		case TK_NOT_EQ: return a != b;
		case TK_BIT_AND: return a & b;
		case TK_XOR: return a ^ b;
		case TK_BIT_OR: return a | b;
		case TK_AND: return a != 0 && b != 0;
		default: return a != 0 || b != 0;
	}
}

static size_t at;
static int64_t reference(int weakest);

static int64_t operand(void)
{
	if (at >= length) { malformed = true; return 0; }
	const int kind = kinds[at];
	const int64_t value = values[at];
	at++;
	if (kind == NUMBER) { return value; }
	if (kind == TK_L_BOUND)
	{
		const int64_t inner = reference(1);
		if (at >= length || kinds[at] != TK_R_BOUND) { malformed = true; return 0; }
		at++;
		return inner;
	}
	if (kind == TK_COMPL || kind == TK_NOT || kind == TK_ADD || kind == TK_SUB)
	{
		const int64_t inner = operand();
		return kind == TK_COMPL ? ~inner : kind == TK_NOT ? inner == 0 : kind == TK_SUB ? (int64_t)(0 - (uint64_t)inner) : inner;
	}
	malformed = true;
	return 0;
}

/* Precedence climbing: everything that binds at least this strong. */
static int64_t reference(const int weakest)
{
	int64_t left = operand();
	while (!malformed && at < length && strength(kinds[at]) >= weakest)
	{
		const int kind = kinds[at++];
		const int64_t right = reference(strength(kind) + 1);
		left = apply(kind, left, right);
	}
	return left;
}

static int binary_operator(void) { return (int)vp_range(TK_MULT, TK_OR); }
#ifdef UNARY
static int unary_operator(void) { return vp_small() ? UNARY : (int)vp_range(TK_COMPL, TK_NOT); }
#else
static int unary_operator(void) { const unsigned n = (unsigned)vp_range(0, 3); return n == 0 ? TK_COMPL : n == 1 ? TK_NOT : n == 2 ? TK_ADD : TK_SUB; }
#endif
static int any_token(void)
{
	const int t = (int)vp_range(0, TK_OR + 4);
	return t > TK_OR || t == TK_U_NEGATION || t == TK_U_PLUS ? NUMBER : t;
}

static int64_t number(void)
{
	static const int64_t edges[] = { INT64_MIN, INT64_MAX, -1, 0, 1, 63, 64 };
#ifdef EDGES
	if (vp_small()) { return edges[length == 0 ? 0 : 2]; }
#endif
	if (!vp_small() && vp_range(0, 2) == 0) { return edges[vp_range(0, 6)]; }
#ifdef FIXED
	if (vp_small()) { return (int64_t)length * 3 + 2; }
#endif
#ifdef RANGE
	if (vp_small()) { return (int64_t)vp_range(0, 2 * RANGE) - RANGE; }
#endif
	return vp_small() || vp_bool() ? vp_i64() : (int64_t)vp_range(0, 40) - 10;
}

static void symbol(const char c)
{
	kinds[length] = c == 'n' ? NUMBER : c == 'b' ? vp_small() ? TK_OR : binary_operator() : c == 'u' ? unary_operator() : c == '(' ? TK_L_BOUND : c == ')' ? TK_R_BOUND :
		any_token();
	values[length] = kinds[length] == NUMBER ? number() : 0;
	length++;
}

/* Native runs make sequences of their own: mostly expressions. */
static void generate(const unsigned depth)
{
	const unsigned n = length + 6 > MAX_LENGTH || depth > 3 ? 0 : (unsigned)vp_range(0, 9);
	if (n == 9) { symbol('?'); }
	else if (n == 8) { symbol('('); generate(depth + 1); if (length < MAX_LENGTH) { symbol(')'); } }
	else if (n == 7) { symbol('u'); generate(depth + 1); }
	else if (n >= 4) { generate(depth + 1); if (length < MAX_LENGTH) { symbol('b'); } generate(depth + 1); }
	else if (length < MAX_LENGTH) { symbol('n'); }
}

static size_t chosen[3], choices;

/* In the proof: the template with the chosen operators in it; arbitrary numbers. */
static void fill(const char *const template)
{
	choices = 0;
	length = 0;
	for (size_t i = 0; template[i] != '\0'; i++)
	{
		symbol(template[i]);
		if (template[i] == 'b') { kinds[length - 1] = (int)chosen[choices++]; }
	}
}

static void run(void)
{
	reports = 0;
	at = 0;
	malformed = zero_division = false;
	const int64_t expected = reference(1);
	if (at != length) { malformed = true; }

	location loc;
	memset(&loc, 0, sizeof(loc));
	loc.line = 1;
#ifdef VP_CBMC
	model_vectors = 0;
#endif
	computer comp = computer_create(&loc, NULL, "#if");
	vp_check(computer_is_correct(&comp), "a new computer is correct");
	bool pushed = true;
	for (size_t i = 0; i < length && pushed; i++)
	{
		const int r = kinds[i] != NUMBER ? computer_push_token(&comp, i, (token_t)kinds[i])
#if defined(CHARACTERS) || defined(VP_NATIVE)
			: values[i] >= 0 && values[i] < 0x200000 ? computer_push_const(&comp, i, (char32_t)values[i], "name")
#endif
			: computer_push_number(&comp, i, values[i]);
		vp_check(r == 0 || reports == 1, "a refused token is reported");
		pushed = r == 0;
	}
	vp_check(pushed || malformed || zero_division, "a token of an expression is accepted");
	if (pushed)
	{
		const item_t result = computer_pop_result(&comp);
		vp_check(reports != 0 || result == expected, "the value of the expression");
	}
	vp_check((reports != 0) == (malformed || zero_division), "reported exactly when it has no value");
	vp_check(reports <= 1, "reported once");
	const bool good = reports == 0;
	vp_check((computer_clear(&comp) == 0) == good, "clearing tells whether something was reported");
}

/* All operators in the places of the template. */
#ifndef FIRST
	#define FIRST TK_MULT
	#define LAST TK_OR
#endif
#ifdef LEVELS
static const unsigned char each[] = { TK_DIV, TK_SUB, TK_R_SHIFT, TK_GREATER, TK_NOT_EQ, TK_BIT_AND, TK_XOR, TK_BIT_OR, TK_AND, TK_OR };
#else
static const unsigned char each[] = { TK_MULT, TK_DIV, TK_MOD, TK_ADD, TK_SUB, TK_L_SHIFT, TK_R_SHIFT, TK_LESS, TK_GREATER, TK_LESS_EQ, TK_GREATER_EQ, TK_EQ, TK_NOT_EQ,
	TK_BIT_AND, TK_XOR, TK_BIT_OR, TK_AND, TK_OR };
#endif
void h_expression(void)
{
#ifdef TOKENS
	static const signed char class[] = { NUMBER, TK_L_BOUND, TK_R_BOUND, TK_NOT, TK_SUB, TK_MULT, TK_OR };
	if (vp_small())
	{
		size_t amount = 1;
		for (size_t i = 0; i < TOKENS; i++) { amount *= sizeof(class); }
		for (size_t n = 0; n < amount; n++)
		{
			size_t rest = n;
			fill(TEMPLATE);
			for (const size_t end = length + TOKENS; length < end; length++)
			{
				kinds[length] = class[rest % sizeof(class)];
				values[length] = kinds[length] == NUMBER ? (int64_t)length * 3 + 2 : 0;
				rest /= sizeof(class);
			}
			run();
		}
	}
	else
#endif
	if (vp_small())
	{
		size_t operators = 0;
		for (const char *c = TEMPLATE; *c != '\0'; c++) { operators += *c == 'b'; }
		for (size_t i = 0; i < sizeof(each); i++)
		{
			for (size_t j = operators < 2 ? sizeof(each) - 1 : 0; j < sizeof(each); j++)
			{
				chosen[0] = each[i];
				chosen[1] = each[j];
				if (operators != 0 ? chosen[0] >= FIRST && chosen[0] <= LAST : i == 0)
				{
					fill(TEMPLATE);
					run();
				}
			}
		}
	}
	else
	{
		length = 0;
		generate(0);
		if (vp_range(0, 3) == 0 && length > 0) { kinds[vp_range(0, length - 1)] = any_token(); }
		run();
	}
	vp_reach("expression");
}

void h_broken(void)
{
	computer comp;
	memset(&comp, 0, sizeof(comp));
	reports = 0;
	vp_check(!computer_is_correct(NULL) && !computer_is_correct(&comp), "a missing or cleared computer is not correct");
	vp_check(computer_push_token(NULL, 0, TK_ADD) == -1 && computer_push_token(&comp, 0, TK_ADD) == -1, "token");
	vp_check(computer_push_number(NULL, 0, 1) == -1 && computer_push_number(&comp, 0, 1) == -1, "number");
	vp_check(computer_push_const(NULL, 0, 'a', "a") == -1 && computer_push_const(&comp, 0, 'a', "a") == -1, "const");
	vp_check(computer_pop_result(NULL) == 0 && computer_pop_result(&comp) == 0 && computer_clear(NULL) == -1 && computer_clear(&comp) == -1, "result");
	vp_check(reports == 0, "nothing to report");
	vp_reach("broken");
}
