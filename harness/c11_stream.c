/*
 *	C11: comments of any length.  The input is an endless nondeterministic stream; a ghost automaton watches what is
 *	read, the loop contracts relate the lexer to it.
 */
#include "vp.h"
#include "uniscanner.h"
#ifdef VP_CBMC
#include "lexer.c"
#else
#include "lexer.h"
#endif
#define MODEL_CAP 16
#include "vector_model.h"

enum { INSIDE, STAR, CLOSED, BEHIND, ENDED };
int state;
char32_t last_read;
size_t errors, warnings;
bool line, space;
static syntax sx;

#ifdef BASE
/* Digits of base BASE, as many as the stream likes, then a semicolon.  value is their value while it is below 2^60 * BASE. */
uint64_t value, digit, value_before;
bool over, over_before;
static char32_t scan_digit(void)
{
	vp_check(state != BEHIND, "nothing behind the literal is read");
	if (state == STAR)
	{
		state = INSIDE;
		return last_read = PREFIX;
	}
	value_before = value;
	over_before = over;
	if (vp_bool())
	{
		state = BEHIND;
		return last_read = ';';
	}
	const uint64_t d = digit = vp_range(0, BASE - 1);
	if (value >= 1ULL << 60) { over = true; }
	else { value = value * BASE + d; }
	return last_read = (char32_t)(d < 10 ? '0' + d : (vp_bool() ? 'a' : 'A') + d - 10);
}
#endif

char32_t uni_scan_char(universal_io *const io)
{
	(void)io;
#ifdef BASE
	return scan_digit();
#endif
	vp_check(state != BEHIND, "nothing behind the comment is skipped");
	if (state == CLOSED) { last_read = ';'; state = BEHIND; }
	else if (state == ENDED) { last_read = (char32_t)EOF; }
	else
	{
		last_read = vp_u32();
		state = last_read == (char32_t)EOF ? ENDED
			: line ? (last_read == '\n' ? BEHIND : INSIDE)
			: space ? (last_read == ' ' || last_read == '\t' || last_read == '\n' || last_read == '\r' ? INSIDE : BEHIND)
			: last_read == '*' ? STAR : last_read == '/' && state == STAR ? CLOSED : INSIDE;
	}
	return last_read;
}
int uni_unscan_char(universal_io *const io, const char32_t c) { (void)io; (void)c; return 0; }
size_t in_get_position(const universal_io *const io) { (void)io; return 0; }
int in_set_position(universal_io *const io, const size_t position) { (void)io; (void)position; return 0; }
void report_error(reporter *const r, universal_io *const io, const location loc, const err_t num, va_list args)
{
	(void)r; (void)io; (void)loc; (void)num; (void)args;
	errors++;
}
void warning(universal_io *const io, warning_t num, ...) { (void)io; (void)num; warnings++; }
size_t string_add(syntax *const s, const vector *const str) { (void)s; (void)str; return 0; }
size_t repr_reserve(syntax *const s, char32_t *const last) { (void)s; (void)last; return 0; }
item_t repr_get_reference(const syntax *const s, const size_t index) { (void)s; (void)index; return 0; }

#ifdef VP_CBMC
static lexer lxr;

void h_block(void)
{
	lxr.sx = &sx;
	lxr.character = last_read = '*';
	state = INSIDE;
	errors = 0;
	line = space = false;
	skip_block_comment(&lxr);
	vp_check(state == BEHIND ? lxr.character == ';' && errors == 0 : state == ENDED && lxr.character == (char32_t)EOF && errors == 1,
		"a block comment ends at the first closing pair, or is reported");
	vp_reach("skipped");
}

void h_line(void)
{
	lxr.sx = &sx;
	lxr.character = last_read = '/';
	state = INSIDE;
	errors = 0;
	line = space = false;
	line = true;
	skip_line_comment(&lxr);
	vp_check((state == BEHIND ? lxr.character == '\n' : state == ENDED && lxr.character == (char32_t)EOF) && errors == 0,
		"a line comment ends at the end of the line");
	vp_reach("skipped");
}

void h_space(void)
{
	lxr.sx = &sx;
	lxr.character = last_read = vp_bool() ? ' ' : vp_bool() ? '\n' : vp_bool() ? '\t' : '\r';
	state = INSIDE;
	errors = 0;
	line = false;
	space = true;
	skip_whitespace(&lxr);
	vp_check((state == BEHIND || state == ENDED) && lxr.character == last_read && errors == 0, "white space is skipped up to the next other character");
	vp_reach("skipped");
}

#ifdef BASE
void h_digits(void)
{
	lxr.sx = &sx;
	lxr.character = last_read = '0';
	state = BASE == 10 ? INSIDE : STAR;
	errors = warnings = value = 0;
	over = false;
	if (BASE == 10)
	{
		const uint64_t d = vp_range(1, 9);
		value = digit = d;
		value_before = 0;
		over_before = false;
		lxr.character = last_read = (char32_t)('0' + d);
	}
	const token tk = lex_numeric_literal(&lxr);
	vp_check(state == BEHIND && lxr.character == ';' && errors == 0, "all digits are read");
	vp_check(over ? tk.kind == TK_FLOAT_LITERAL && warnings == 1 : tk.kind == TK_INT_LITERAL && tk.data.int_value == value && warnings == 0,
		"the value of an integer literal of any length");
	vp_reach("digits");
}
#endif
#else
void h_digits(void) { }
void h_space(void) { }
void h_block(void) { }
void h_line(void) { }
#endif
