/*
 *	C09: a strings table is a sequence of texts.  The history starts from strings_create; the abstract sequence
 *	runs alongside.
 */
#include "vp.h"
#ifndef OPS
	#define OPS 3
#endif
#ifdef VP_NATIVE
	#undef OPS
	#define OPS 24
	#define SYMBOLS 12
	#define LONGER for (size_t i = vp_size(0, OPS - 4); i > 0; i--) { step(vp_size(0, 3)); agrees(vp_size(0, OPS)); }
#else
	#define SYMBOLS 2
	#define LONGER
#endif
#ifndef SEQUENCE
	#define SEQUENCE
#endif
#ifndef ROOM
	#define ROOM 2
#endif

#ifdef VP_CBMC
/*
 *	strings.c is compiled as it is, only its storage is typed (CBMC would otherwise treat it octet by octet).
 *	Other amounts of storage than expected are outside of the proof (and only seen by the native runs).
 */
static void *vp_malloc(size_t size);
static void *vp_realloc(void *ptr, size_t size);
static void vp_free(void *ptr);
#define malloc vp_malloc
#define realloc vp_realloc
#define free vp_free
#include "strings.c"
#undef malloc
#undef realloc
#undef free
#define LETTERS 7
static strings vec;
static size_t vp_indexes[ROOM], vp_indexes_grown[2 * ROOM];
static char vp_letters[ROOM * 256], vp_letters_grown[2 * LETTERS];
static bool vp_given;
static void *vp_malloc(size_t size)
{
	if (!vp_given)
	{
		vp_given = true;
		vp_assume(size == sizeof(vp_indexes));
		return vp_indexes;
	}
	vp_assume(size == sizeof(vp_letters));
	return vp_letters;
}
static void *vp_realloc(void *ptr, size_t size)
{
	#ifdef ALLOC_FAILS
	if (vp_bool()) { return NULL; }
	#endif
	if (ptr == vp_indexes)
	{
		vp_assume(size == sizeof(vp_indexes_grown));
		for (size_t i = 0; i < ROOM; i++) { vp_indexes_grown[i] = vp_indexes[i]; }
		return vp_indexes_grown;
	}
	vp_check(ptr == vec.all_strings, "the storage of the strings grows");
	vp_assume(size == sizeof(vp_letters_grown) && ptr != vp_letters_grown);
	for (size_t i = 0; i < LETTERS; i++) { vp_letters_grown[i] = vec.all_strings[i]; }
	return vp_letters_grown;
}
static void vp_free(void *ptr) { }

/* The contracts of C01 for characters of one and two octets, in executable form. */
size_t utf8_size(const char32_t symbol)
{
	vp_check(symbol < 0x800, "one or two octets");
	return symbol < 0x80 ? 1 : 2;
}
size_t utf8_to_string(char *const buffer, const char32_t symbol)
{
	vp_check(symbol < 0x800, "one or two octets");
	if (symbol < 0x80)
	{
		buffer[0] = (char)symbol;
		buffer[1] = '\0';
		return 1;
	}
	buffer[0] = (char)(0xC0 | (symbol >> 6));
	buffer[1] = (char)(0x80 | (symbol & 0x3F));
	buffer[2] = '\0';
	return 2;
}
/* The contracts of C05 for reading. */
bool vector_is_correct(const vector *const str) { return str != NULL && str->array != NULL; }
size_t vector_size(const vector *const str) { return str->size; }
item_t vector_get(const vector *const str, const size_t index) { return index < str->size ? str->array[index] : ITEM_MAX; }
#else
#include "strings.h"
static strings vec;
#endif

typedef struct
{
	char32_t wide[SYMBOLS + 1];
	char text[4 * SYMBOLS + 1];
	size_t size;
} sample;

static sample seq[OPS + 1];
static size_t seq_size;

static size_t spell(const char32_t ch, char *const to)
{
	if (ch < 0x80) { to[0] = (char)ch; return 1; }
	to[0] = (char)(0xC0 | (ch >> 6));
	to[1] = (char)(0x80 | (ch & 0x3F));
	return 2;
}

static sample any_sample(const size_t least)
{
	sample s;
	const size_t symbols = vp_size(least, SYMBOLS);
	s.size = 0;
	for (size_t i = 0; i < SYMBOLS; i++)
	{
		s.wide[i] = i < symbols ? (char32_t)vp_range(1, 0x7FF) : 0;
		if (i < symbols) { s.size += spell(s.wide[i], &s.text[s.size]); }
	}
	s.wide[SYMBOLS] = 0;
	s.text[s.size] = '\0';
	return s;
}

static bool is_text(const char *const str, const sample *const s)
{
	if (str == NULL) { return false; }
	for (size_t i = 0; i < sizeof(s->text); i++)
	{
		if (i <= s->size && str[i] != s->text[i]) { return false; }
		if (i == s->size) { return true; }
	}
	return true;
}

static void start(void)
{
	seq_size = 0;
	vec = strings_create(ROOM);
#ifdef ALLOC_FAILS
	vp_assume(strings_is_correct(&vec));
#endif
	vp_check(strings_is_correct(&vec) && strings_size(&vec) == 0, "a new table is empty");
#ifdef SHORT
	#ifdef VP_CBMC
	vec.all_strings = vp_letters + (sizeof(vp_letters) - LETTERS);
	#else
	#define LETTERS 7
	free(vec.all_strings);
	vec.all_strings = malloc(LETTERS);
	vp_assume(vec.all_strings != NULL);
	#endif
	vec.all_strings_alloc = LETTERS;
#endif
}

static void agrees(const size_t at)
{
	vp_check(strings_size(&vec) == seq_size, "the number of strings");
	const char *const got = strings_get(&vec, at);
	if (at < seq_size)
	{
		vp_check(is_text(got, &seq[at]), "the string at an index");
		vp_check(strings_get_length(&vec, at) == seq[at].size, "its length in octets");
	}
	else
	{
		vp_check(got == NULL && strings_get_length(&vec, at) == 0, "nothing after the last string");
	}
}

#ifdef ALLOC_FAILS
	#define MAY_FAIL true
#else
	#define MAY_FAIL false
#endif

static void step(const size_t op)
{
	if (op < 3)
	{
		const sample s = any_sample(op == 2 ? 0 : 1);
		size_t r;
		if (op == 0) { r = strings_add(&vec, s.text); }
		else if (op == 1) { r = strings_add_by_utf8(&vec, s.wide); }
		else
		{
			item_t items[SYMBOLS + 2];
			vector str;
			str.size = 0;
			for (size_t i = 0; i < SYMBOLS && s.wide[i] != 0; i++) { items[i] = (item_t)s.wide[i]; str.size++; }
			str.array = items;
			str.size_alloc = SYMBOLS + 2;
			r = strings_add_by_vector(&vec, &str);
		}
		vp_check(r == seq_size || (MAY_FAIL && r == SIZE_MAX), "a string is added at the end");
		if (r != SIZE_MAX) { seq[seq_size++] = s; }
#ifdef ALLOC_FAILS
		else { vp_reach("failure"); }
#endif
	}
	else
	{
		const char *const got = strings_remove(&vec);
		vp_check(seq_size == 0 ? got == NULL : is_text(got, &seq[seq_size - 1]), "the last string is removed");
		if (seq_size != 0) { seq_size--; }
	}
}

void h_history(void)
{
	start();
	SEQUENCE
	LONGER
	agrees(vp_size(0, OPS));
	vp_reach("history");
	vp_check(strings_clear(&vec) == 0 && !strings_is_correct(&vec) && strings_clear(&vec) == -1, "cleared once");
}

void h_refused(void)
{
	start();
	const sample s = any_sample(1);
	strings none = { NULL, 0, 0, NULL, 0, 0 };
	strings *const bad = vp_bool() ? NULL : &none;
	vp_check(!strings_is_correct(bad) && strings_size(bad) == SIZE_MAX && strings_add(bad, s.text) == SIZE_MAX
		&& strings_add_by_utf8(bad, s.wide) == SIZE_MAX && strings_get(bad, vp_u64()) == NULL
		&& strings_get_length(bad, vp_u64()) == 0 && strings_remove(bad) == NULL && strings_clear(bad) == -1, "no strings in a broken table");
	vp_check(strings_add(&vec, NULL) == SIZE_MAX && strings_add(&vec, "") == SIZE_MAX && strings_add_by_utf8(&vec, NULL) == SIZE_MAX
		&& strings_add_by_vector(&vec, NULL) == SIZE_MAX && strings_size(&vec) == 0, "missing strings are refused");
	vp_check(strings_get(&vec, vp_u64()) == NULL && strings_remove(&vec) == NULL, "nothing in an empty table");
	vp_reach("refused");
	strings_clear(&vec);
}
