/*
 *	C11/C12: one lex() call, from any position of any text, yields the token the language defines there and stops
 *	right behind it.  The text is the harness's (one position per character); the tables are recorded.
 */
#include "vp.h"
#include <float.h>
#include <math.h>
#include "lexer.h"
#include "uniscanner.h"

#ifdef VP_CBMC
	#define MODEL_CAP 16
	#include "vector_model.h"
#endif
#ifndef N
	#define N 4
#endif
#ifdef VP_NATIVE
	#define ROOM 72
#else
	#define ROOM 40
#endif

static char32_t txt[ROOM + 1];
static size_t len, pos;
static size_t errors, warnings, strings_added, string_size;
static char32_t string_text[ROOM + 1];
static item_t reference;
static size_t ident_begin, ident_end;
static syntax sx;

static char32_t at(const size_t i) { return i < len ? txt[i] : (char32_t)EOF; }

/* The input: characters of the text, then the end for ever. */
char32_t uni_scan_char(universal_io *const io) { (void)io; return pos < len ? txt[pos++] : (char32_t)EOF; }
int uni_unscan_char(universal_io *const io, const char32_t c) { (void)io; (void)c; pos--; return 0; }
size_t in_get_position(const universal_io *const io) { (void)io; return pos; }
int in_set_position(universal_io *const io, const size_t position) { (void)io; pos = position; return 0; }

void report_error(reporter *const r, universal_io *const io, const location loc, const err_t num, va_list args)
{
	(void)r; (void)io; (void)loc; (void)num; (void)args;
	errors++;
}

void warning(universal_io *const io, warning_t num, ...) { (void)io; (void)num; warnings++; }

size_t string_add(syntax *const s, const vector *const str)
{
	(void)s;
	string_size = vector_size(str);
	for (size_t i = 0; i < (vp_small() ? N : ROOM); i++) { string_text[i] = i < string_size ? (char32_t)vector_get(str, i) : 0; }
	return strings_added++;
}

size_t repr_reserve(syntax *const s, char32_t *const last)
{
	(void)s;
	ident_begin = pos;
	*last = uni_scan_char(NULL);
	do { *last = uni_scan_char(NULL); } while (utf8_is_letter(*last) || utf8_is_digit(*last));
	ident_end = *last == (char32_t)EOF ? pos : pos - 1;
	return 77;
}

item_t repr_get_reference(const syntax *const s, const size_t index) { (void)s; return index == 77 ? reference : 0; }

#ifdef VP_CBMC
double pow(double base, double power)
{
	double result = 1.0;
#if defined(NO_NUMBERS) || defined(NO_FRACTIONS)
	vp_assume(false);
#endif
	for (int i = 0; i < 400 && i < (power < 0 ? -power : power); i++) { result *= base; }
	return power < 0 ? 1.0 / result : result;
}
#endif

/* The language. */
static const struct { const char *text; token_t kind; } punctuators[] = {
	{ "<<=", TK_LESS_LESS_EQUAL }, { ">>=", TK_GREATER_GREATER_EQUAL },
	{ "->", TK_ARROW }, { "++", TK_PLUS_PLUS }, { "--", TK_MINUS_MINUS }, { "<<", TK_LESS_LESS }, { ">>", TK_GREATER_GREATER },
	{ "<=", TK_LESS_EQUAL }, { ">=", TK_GREATER_EQUAL }, { "==", TK_EQUAL_EQUAL }, { "!=", TK_EXCLAIM_EQUAL },
	{ "&&", TK_AMP_AMP }, { "||", TK_PIPE_PIPE }, { "*=", TK_STAR_EQUAL }, { "/=", TK_SLASH_EQUAL }, { "%=", TK_PERCENT_EQUAL },
	{ "+=", TK_PLUS_EQUAL }, { "-=", TK_MINUS_EQUAL }, { "&=", TK_AMP_EQUAL }, { "^=", TK_CARET_EQUAL }, { "|=", TK_PIPE_EQUAL },
	{ "[", TK_L_SQUARE }, { "]", TK_R_SQUARE }, { "(", TK_L_PAREN }, { ")", TK_R_PAREN }, { "{", TK_L_BRACE }, { "}", TK_R_BRACE },
	{ ".", TK_PERIOD }, { "&", TK_AMP }, { "*", TK_STAR }, { "+", TK_PLUS }, { "-", TK_MINUS }, { "~", TK_TILDE },
	{ "!", TK_EXCLAIM }, { "/", TK_SLASH }, { "%", TK_PERCENT }, { "<", TK_LESS }, { ">", TK_GREATER }, { "^", TK_CARET },
	{ "|", TK_PIPE }, { "?", TK_QUESTION }, { ":", TK_COLON }, { ";", TK_SEMICOLON }, { "=", TK_EQUAL }, { ",", TK_COMMA },
};
#define PUNCTUATORS (sizeof(punctuators) / sizeof(*punctuators))

static bool digit(const char32_t c) { return c >= '0' && c <= '9'; }
static bool hexa(const char32_t c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned value_of(const char32_t c) { return digit(c) ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
static bool letter(const char32_t c)
{
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
		|| (c >= 0x410 && c <= 0x44F) || c == 0x401 || c == 0x451;
}
static bool power_mark(const char32_t c) { return c == 'e' || c == 'E' || c == 0x415 || c == 0x435; }

static struct
{
	token_t kind;
	size_t begin, end;			/* the token is txt[begin .. end) */
	size_t errors, warnings;
	uint64_t integer;
	double floating;
	bool unspecified;			/* value of an erroneous literal */
	size_t size;
	char32_t text[ROOM + 1];
	size_t restarts;
} want;

/* One character of a character or string literal at i. */
static char32_t ref_element(size_t *const i)
{
	char32_t c = at(*i);
	if (c != '\\')
	{
		*i += *i < len;
		return c;
	}
	++*i;
	c = at(*i);
	*i += *i < len;
	if (c == 'n' || c == 0x43D) { return '\n'; }
	if (c == 't' || c == 0x442) { return '\t'; }
	if (c == '0') { return '\0'; }
	if (c != '\\' && c != '\'' && c != '"') { want.errors++; want.unspecified |= c == (char32_t)EOF; }
	return c;
}

static double ten(const int power)
{
	double result = 1.0;
	for (int i = 0; i < 400 && i < (power < 0 ? -power : power); i++) { result *= 10.0; }
	return power < 0 ? 1.0 / result : result;
}

static void ref_number(size_t i)
{
#ifdef NO_NUMBERS
	if (vp_small())
	{
		vp_assume(false);
		return;
	}
#endif
	unsigned base = 10;
	bool modifier = false;
	if (at(i) == '0')
	{
		i++;
		const char32_t c = at(i);
		modifier = c == 'x' || c == 'X' || c == 'd' || c == 'D' || c == 'o' || c == 'O' || c == 'b' || c == 'B';
		base = c == 'x' || c == 'X' ? 16 : c == 'o' || c == 'O' ? 8 : c == 'b' || c == 'B' ? 2 : 10;
		i += modifier;
	}

	want.kind = TK_INT_LITERAL;
	while (hexa(at(i)) && (modifier || !power_mark(at(i))))
	{
		if (value_of(at(i)) >= base)
		{
			want.errors++;
			want.kind = TK_INT_LITERAL;
			want.unspecified = true;
			want.warnings = 0;
			while (hexa(at(i))) { i++; }
			want.end = i;
			return;
		}
		if (want.kind == TK_INT_LITERAL && want.integer >= 1ULL << 60)
		{
			want.kind = TK_FLOAT_LITERAL;
			want.floating = (double)want.integer;
			want.warnings = 1;
		}
		if (want.kind == TK_INT_LITERAL) { want.integer = want.integer * base + value_of(at(i)); }
		else { want.floating = want.floating * base + value_of(at(i)); }
		i++;
	}

#ifdef NO_FRACTIONS
	if (vp_small())
	{
		vp_assume(modifier || (at(i) != '.' && !power_mark(at(i))));
		want.end = i;
		return;
	}
#endif
	if (!modifier && at(i) == '.')
	{
		if (want.kind == TK_INT_LITERAL) { want.floating = (double)want.integer; }
		want.kind = TK_FLOAT_LITERAL;
		double scale = 1.0, fraction = 0.0;
		for (i++; digit(at(i)); i++)
		{
			fraction = fraction * 10 + value_of(at(i));
			scale *= 10;
		}
		want.floating += fraction / scale;
	}

	if (!modifier && power_mark(at(i)))
	{
		i++;
		const bool minus = at(i) == '-';
		i += minus || at(i) == '+';
		if (!digit(at(i)))
		{
			want.errors++;
			want.unspecified = true;
			want.kind = TK_FLOAT_LITERAL;
			want.warnings = 0;
			while (letter(at(i)) || digit(at(i)) || at(i) == '+' || at(i) == '-') { i++; }
			want.end = i;
			return;
		}
		int power = 0;
		for (; digit(at(i)); i++) { power = power < 1000 ? power * 10 + (int)value_of(at(i)) : power; }
		if (want.kind == TK_INT_LITERAL && minus)
		{
			want.kind = TK_FLOAT_LITERAL;
			want.floating = (double)want.integer;
		}
		if (want.kind == TK_INT_LITERAL)
		{
			uint64_t scaled = want.integer;
			for (int k = 0; k < 20 && k < power && want.kind == TK_INT_LITERAL && scaled != 0; k++)
			{
				if (scaled >= 1ULL << 60)
				{
					want.kind = TK_FLOAT_LITERAL;
					want.floating = (double)want.integer;
					want.warnings = 1;
				}
				else { scaled *= 10; }
			}
			want.integer = scaled;
		}
		if (want.kind == TK_FLOAT_LITERAL)
		{
			want.unspecified |= power > 290 || (want.floating > 1e15 && power > 250);
			want.floating *= ten(minus ? -power : power);
		}
	}
	want.end = i;
}

static bool ref_punctuator(const size_t i)
{
	for (size_t k = 0; k < PUNCTUATORS; k++)
	{
		const char *const s = punctuators[k].text;
		if (at(i) == (char32_t)s[0] && (s[1] == '\0' || (at(i + 1) == (char32_t)s[1] && (s[2] == '\0' || at(i + 2) == (char32_t)s[2]))))
		{
			want.kind = punctuators[k].kind;
			want.end = i + (s[1] == '\0' ? 1 : s[2] == '\0' ? 2 : 3);
			return true;
		}
	}
	return false;
}

static void ref_lex(size_t i)
{
	want.errors = want.warnings = want.integer = want.size = want.restarts = 0;
	want.unspecified = false;
	want.floating = 0.0;
	for (;; want.restarts++)
	{
		while (at(i) == ' ' || at(i) == '\t' || at(i) == '\n' || at(i) == '\r') { i++; }
		const char32_t c = at(i);
		want.begin = i;

		if (c == (char32_t)EOF)
		{
			want.kind = TK_EOF;
			want.end = i;
			return;
		}
		if (c == '/' && at(i + 1) == '/')
		{
			while (at(i) != '\n' && at(i) != (char32_t)EOF) { i++; }
			continue;
		}
		if (c == '/' && at(i + 1) == '*')
		{
			for (i += 2; i < len && !(at(i) == '*' && at(i + 1) == '/'); i++) { }
			want.errors += i >= len;
			i = i >= len ? len : i + 2;
			continue;
		}
		if (letter(c) || c == '#')
		{
			for (i++; letter(at(i)) || digit(at(i)); i++) { }
			want.end = i;
			want.kind = reference >= 0 ? TK_IDENTIFIER : (token_t)reference;
			if (reference == TK_LINE)
			{
				while (at(i) != '\n' && at(i) != (char32_t)EOF) { i++; }
				continue;
			}
			return;
		}
		if (digit(c) || (c == '.' && digit(at(i + 1))))
		{
			ref_number(i);
			return;
		}
		if (c == '\'')
		{
			want.kind = TK_CHAR_LITERAL;
			i++;
			if (at(i) == '\'')
			{
				want.errors++;
				want.unspecified = true;
				want.end = i + 1;
				return;
			}
			want.unspecified = at(i) == (char32_t)EOF;
			want.integer = ref_element(&i);
			if (at(i) == '\'') { i++; }
			else { want.errors++; }
			want.end = i;
			return;
		}
		if (c == '"')
		{
			want.kind = TK_STRING_LITERAL;
			while (at(i) == '"')
			{
				i++;
				while (at(i) != '"' && at(i) != '\n' && at(i) != (char32_t)EOF) { want.text[want.size++] = ref_element(&i); }
				if (at(i) == '"') { i++; }
				else { want.errors++; }
				while (at(i) == ' ' || at(i) == '\t' || at(i) == '\n' || at(i) == '\r') { i++; }
			}
			want.end = i;
			return;
		}
		if (ref_punctuator(i)) { return; }
		want.errors++;
		i++;
	}
}

static bool close_to(const double a, const double b)
{
	return a == b || (a > b ? a - b : b - a) <= 1e-12 * (a < 0 ? -a : a);
}

static char32_t symbol(void)
{
	if (vp_small())
	{
		const char32_t c = vp_u32();
		vp_assume(c != (char32_t)EOF);
		return c;
	}
#ifdef VP_NATIVE
	static const char *const sets[] = { "0123456789", "0123456789abcdefxXoObBdDeE.+-", "/*/*/*\n a", "\"'\\nt0a\"'", "<>=!&|+-*/%^?:;,.[](){}~", " \t\n\ra_#", "eE.19-+", "01" };
	static size_t set;
	if (vp_size(0, len % 4 == 0 ? 30 : 3) == 0) { set = vp_size(0, 7); }
	if (vp_size(0, 30) == 0) { return (char32_t)vp_range(1, 0x500); }
	return (char32_t)sets[set][vp_size(0, strlen(sets[set]) - 1)];
#else
	return 0;
#endif
}

static lexer lxr;

static void start(const size_t from)
{
	lxr.sx = &sx;
	lxr.lexstr = vector_create(MAX_STRING_LENGTH);
	pos = from;
	lxr.character = uni_scan_char(NULL);
	errors = warnings = strings_added = 0;
	reference = vp_i64();
#ifdef VP_NATIVE
	if (!vp_small() && vp_bool()) { reference = (item_t)vp_range(0, 40) - 32768; }
#endif
	vp_assume(reference >= 0 || (reference >= SHRT_MIN && reference <= TK_WHILE));
}

static void compare(const size_t from)
{
	ref_lex(from);
#ifdef ASSUMING
	vp_assume(!vp_small() || (ASSUMING));
#endif
	const token tk = lex(&lxr);
	vp_check(token_get_kind(&tk) == want.kind, "the kind of the token");
	vp_check(lxr.character == at(want.end), "lexing goes on right behind the token");
	vp_check(pos == (want.end < len ? want.end + 1 : len), "the position is behind the token");
	vp_check((errors != 0) == (want.errors != 0), "errors are reported exactly for malformed text");
	vp_check(warnings == want.warnings, "a warning exactly for an integer that does not fit");
	if (want.kind != TK_EOF)
	{
		const location loc = token_get_location(&tk);
		vp_check(loc.begin == want.begin + 1 && loc.end == pos, "the location of the token");
	}
	if (want.kind == TK_IDENTIFIER)
	{
		vp_check(token_get_ident_name(&tk) == 77 && ident_begin == want.begin && ident_end == want.end, "the name of the identifier");
	}
	if (want.kind == TK_INT_LITERAL && !want.unspecified)
	{
		vp_check(token_get_int_value(&tk) == want.integer, "the value of the integer literal");
	}
	if (want.kind == TK_FLOAT_LITERAL && !want.unspecified)
	{
		vp_check(close_to(token_get_float_value(&tk), want.floating), "the value of the floating literal");
	}
	if (want.kind == TK_CHAR_LITERAL && !want.unspecified)
	{
		vp_check(token_get_char_value(&tk) == want.integer, "the value of the character literal");
	}
	if (want.kind == TK_STRING_LITERAL)
	{
		vp_check(strings_added == 1 && token_get_string_num(&tk) == 0, "one string is added");
		vp_check(string_size == want.size, "the length of the string literal");
		for (size_t i = 0; i < (vp_small() ? N : ROOM); i++)
		{
			vp_check(i >= want.size || want.unspecified || string_text[i] == want.text[i], "the characters of the string literal");
		}
		vp_check(vector_size(&lxr.lexstr) == 0, "the next string starts empty");
	}
}

static void digits(const size_t from, const uint64_t base)
{
	for (size_t i = from; i < N; i++)
	{
		const uint64_t d = vp_range(0, base - 1);
		txt[i] = (char32_t)(d < 10 ? '0' + d : 'a' + d - 10);
	}
}

/* One token of an arbitrary text. */
#ifndef FIRSTS
	#define FIRSTS "?"
#endif
#ifndef SHORTEST
	#define SHORTEST 1
#endif
#ifndef NAME
	#define NAME 97
#endif
static const char firsts[] = FIRSTS;

static void restart(void)
{
#ifdef VP_CBMC
	model_vectors = 0;
#endif
}

/* Four tokens of a random text (native runs). */
static void larger(void)
{
	len = vp_size(0, ROOM);
	for (size_t i = 0; i < ROOM; i++) { txt[i] = symbol(); }
	if (vp_size(0, 3) == 0)
	{
		/* a numeric literal */
		const bool pointed = vp_bool(), few = vp_bool();
		const size_t whole = vp_size(0, pointed || few ? 10 : 22), fraction = pointed ? vp_size(0, 15) : 0;
		size_t k = 0;
		for (size_t i = 0; i < whole; i++) { txt[k++] = (char32_t)vp_size('0', '9'); }
		if (pointed) { txt[k++] = '.'; }
		for (size_t i = 0; i < fraction; i++) { txt[k++] = (char32_t)vp_size('0', '9'); }
		len = ROOM;
		if (vp_bool())
		{
			txt[k++] = 'e';
			if (vp_bool()) { txt[k++] = vp_bool() ? '-' : '+'; }
			if (vp_bool()) { txt[k++] = (char32_t)vp_size('0', '3'); }
			txt[k++] = (char32_t)vp_size('0', '9');
		}
		txt[k] = ';';
	}
	else if (vp_size(0, 3) == 0)
	{
		/* many digits in some base */
		static const struct { char mark; const char *digits; } bases[] = { { 'x', "0123456789abcdefABCDEF" }, { 'o', "01234567" }, { 'b', "01" }, { 'd', "0123456789" }, { 'B', "1" } };
		const size_t base = vp_size(0, 4), count = vp_size(0, base == 2 || base == 4 ? ROOM - 3 : 24);
		size_t k = 0;
		txt[k++] = '0';
		txt[k++] = (char32_t)bases[base].mark;
		for (size_t i = 0; i < count && k + 1 < ROOM; i++) { txt[k++] = (char32_t)bases[base].digits[vp_size(0, strlen(bases[base].digits) - 1)]; }
		txt[k] = ';';
		len = ROOM;
	}
	start(0);
	want.kind = TK_MAIN;
	want.end = 0;
	for (size_t k = 0; k < 4 && want.kind != TK_EOF; k++)
	{
		errors = warnings = strings_added = 0;
		compare(want.end);
	}
	vector_clear(&lxr.lexstr);
}

void h_lex(void)
{
	if (!vp_small())
	{
		larger();
		return;
	}
	/* The text starts with each of the given characters in turn, and goes on arbitrarily. */
	for (size_t k = 0; k < (sizeof(firsts) - 1) * (N - SHORTEST + 1); k++)
	{
		restart();
		len = SHORTEST + k / (sizeof(firsts) - 1);
		txt[0] = (char32_t)(unsigned char)firsts[k % (sizeof(firsts) - 1)];
		for (size_t i = 1; i < N; i++) { txt[i] = symbol(); }
#ifdef PREPARE
		PREPARE;
#endif
		start(0);
#ifdef KEYWORD
		reference = KEYWORD;
#endif
		compare(0);
		vector_clear(&lxr.lexstr);
	}
	vp_reach("a token");
}

/* Written-out literals (floating arithmetic on given digits). */
#ifndef TEXTS
	#define TEXTS ";"
#endif
static const char *const texts[] = { TEXTS };

void h_texts(void)
{
	if (!vp_small())
	{
		larger();
		return;
	}
	for (size_t k = 0; k < sizeof(texts) / sizeof(*texts); k++)
	{
		restart();
		len = 0;
		for (size_t i = 0; i < N && texts[k][i] != '\0'; i++)
		{
			txt[i] = (char32_t)(unsigned char)texts[k][i];
			len = i + 1;
		}
		start(0);
		compare(0);
		vector_clear(&lxr.lexstr);
	}
	vp_reach("texts");
}

/* A name is a keyword exactly when the table says so; the rest of a line directive is skipped. */
void h_name(void)
{
	if (!vp_small())
	{
		larger();
		return;
	}
	for (int r = TK_LINE; r <= TK_WHILE + 2; r++)
	{
		restart();
		len = 3;
		txt[0] = NAME;
		txt[1] = r == TK_LINE ? 'x' : r % 2 == 0 ? symbol() : '1';
		txt[2] = r == TK_LINE ? '\n' : ';';
		start(0);
		reference = r <= TK_WHILE ? r : r == TK_WHILE + 1 ? 0 : (item_t)vp_size(1, INT64_MAX);
		compare(0);
		vector_clear(&lxr.lexstr);
	}
	vp_reach("names");
}

/* Peeking tells the kind of the next token and changes nothing. */
void h_peek(void)
{
	len = vp_size(0, vp_small() ? N : ROOM);
	for (size_t i = 0; i < (vp_small() ? N : ROOM); i++) { txt[i] = symbol(); }
	start(0);
	ref_lex(0);
#ifdef ASSUMING
	vp_assume(!vp_small() || (ASSUMING));
#endif
	const size_t before = pos;
	const char32_t character = lxr.character;
	vp_check(peek(&lxr) == want.kind, "the kind of the next token");
	vp_check(pos == before && lxr.character == character && vector_size(&lxr.lexstr) == 0, "peeking changes nothing");
	vp_check(token_get_kind(&(token){ .kind = want.kind }) == want.kind, "kinds are kept");
	vector_clear(&lxr.lexstr);
	vp_reach("peeked");
}

void h_start(void)
{
	len = vp_size(0, vp_small() ? N : ROOM);
	for (size_t i = 0; i < (vp_small() ? N : ROOM); i++) { txt[i] = symbol(); }
	pos = 0;
	lxr = lexer_create(&sx);
	vp_check(lxr.sx == &sx && lxr.character == at(0) && vector_size(&lxr.lexstr) == 0, "lexing starts at the first character");
	vp_check(lexer_clear(&lxr) == 0, "the lexer can be cleared");
	const token end = lex(NULL);
	vp_check(token_is(&end, TK_EOF) && !token_is_not(&end, TK_EOF), "no lexer, no tokens");
	vp_reach("started");
}
