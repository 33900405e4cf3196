/*
 *	C12: string literals of any length, with any number of parts.  The input is an endless nondeterministic stream; a ghost
 *	automaton reads it by the language's rules and says which character has to be stored next.
 */
#include "vp.h"
#ifdef VP_CBMC
#include "lexer.c"

enum { ELEMENT, ESCAPE, OUTSIDE, BEHIND, ENDED };
int phase;
char32_t last_read, expected;
bool pending;
size_t errors, expected_errors, stored, expected_stored;
static syntax sx;
static lexer lxr;

char32_t uni_scan_char(universal_io *const io)
{
	(void)io;
	vp_check(!pending, "every character of the literal is stored");
	vp_check(phase != BEHIND, "nothing behind the literal is read");
	if (phase == ENDED) { return last_read = (char32_t)EOF; }
	last_read = vp_u32();
	if (phase == ELEMENT)
	{
		if (last_read == '"') { phase = OUTSIDE; }
		else if (last_read == '\n') { phase = OUTSIDE; expected_errors++; }
		else if (last_read == (char32_t)EOF) { phase = ENDED; expected_errors++; }
		else if (last_read == '\\') { phase = ESCAPE; }
		else { expected = last_read; pending = true; expected_stored++; }
	}
	else if (phase == ESCAPE)
	{
		vp_assume(last_read != (char32_t)EOF);
		expected = last_read == 'n' || last_read == 0x43D ? '\n' : last_read == 't' || last_read == 0x442 ? '\t' : last_read == '0' ? '\0' : last_read;
		expected_errors += expected == last_read && last_read != '\\' && last_read != '\'' && last_read != '"';
		pending = true;
		expected_stored++;
		phase = ELEMENT;
	}
	else
	{
		phase = last_read == '"' ? ELEMENT
			: last_read == ' ' || last_read == '\t' || last_read == '\n' || last_read == '\r' ? OUTSIDE
			: last_read == (char32_t)EOF ? ENDED : BEHIND;
	}
	return last_read;
}
int uni_unscan_char(universal_io *const io, const char32_t c) { (void)io; (void)c; return 0; }
size_t in_get_position(const universal_io *const io) { (void)io; return 0; }
int in_set_position(universal_io *const io, const size_t position) { (void)io; (void)position; return 0; }
void report_error(reporter *const r, universal_io *const io, const location loc, const err_t num, va_list args)
{
	(void)r; (void)io; (void)loc; (void)num; (void)args;
	errors++;
}
void warning(universal_io *const io, warning_t num, ...) { (void)io; (void)num; }
size_t repr_reserve(syntax *const s, char32_t *const last) { (void)s; (void)last; return 0; }
item_t repr_get_reference(const syntax *const s, const size_t index) { (void)s; (void)index; return 0; }

size_t vector_add(vector *const vec, const item_t value)
{
	vp_check(vec == &lxr.lexstr && pending && (char32_t)value == expected, "the stored character is the one that was written");
	pending = false;
	return stored++;
}
int vector_resize(vector *const vec, const size_t size)
{
	vp_check(vec == &lxr.lexstr && size == 0, "the next string starts empty");
	stored = 0;
	return 0;
}
vector vector_create(const size_t alloc) { vector vec; (void)alloc; vec.size = 0; return vec; }
int vector_clear(vector *const vec) { (void)vec; return 0; }
size_t string_add(syntax *const s, const vector *const str)
{
	(void)s;
	vp_check(str == &lxr.lexstr && stored == expected_stored && !pending, "the whole literal is added");
	return 5;
}

void h_string(void)
{
	lxr.sx = &sx;
	lxr.character = last_read = '"';
	phase = ELEMENT;
	pending = false;
	errors = expected_errors = stored = expected_stored = 0;
	const token tk = lex_string_literal(&lxr);
	vp_check(tk.kind == TK_STRING_LITERAL && tk.data.string_num == 5, "the token is the added string");
	vp_check(lxr.character == last_read && (phase == BEHIND || phase == ENDED), "lexing goes on right behind the literal");
	vp_check(errors == expected_errors && stored == 0, "errors are reported exactly for malformed text");
	vp_reach("string");
}
#else
void h_string(void) { }
#endif
