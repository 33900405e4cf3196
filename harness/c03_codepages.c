/* C03: code page conversion and transliteration, against tables taken from Python's codecs. */
#include "vp.h"
#include "utf8.h"
#include "c03_tables.h"

#ifndef LENGTH
	#define LENGTH 1
#endif

/* Expected output, written by the specification. */
static uint8_t expected[LENGTH * 4 + 1];
static size_t expected_size;

static void expect(const uint8_t octet)
{
	expected[expected_size++] = octet;
}

static void expect_utf8(const uint32_t c)
{
	if (c < 0x80) { expect((uint8_t)c); }
	else if (c < 0x800) { expect((uint8_t)(0xC0 + c / 64)); expect((uint8_t)(0x80 + c % 64)); }
	else if (c < 0x10000)
	{
		expect((uint8_t)(0xE0 + c / 4096)); expect((uint8_t)(0x80 + c / 64 % 64)); expect((uint8_t)(0x80 + c % 64));
	}
	else
	{
		expect((uint8_t)(0xF0 + c / 262144)); expect((uint8_t)(0x80 + c / 4096 % 64));
		expect((uint8_t)(0x80 + c / 64 % 64)); expect((uint8_t)(0x80 + c % 64));
	}
}

static bool ghost_match(const char *const dest, const size_t size)
{
	if (size != expected_size) { return false; }
	for (size_t i = 0; i < LENGTH * 4; i++)
	{
		if (i < size && (uint8_t)dest[i] != expected[i]) { return false; }
	}
	return dest[size] == 0;
}

static uint32_t symbols[LENGTH];
static uint8_t ghost_octet;

#ifdef PAGE
static bool ghost_page(const char *const dest, const size_t size)
{
	if (size != expected_size) { return false; }
	for (size_t i = 0; i < LENGTH; i++)
	{
		const uint8_t r = (uint8_t)dest[i];
		if (i < size && !(PAGE[r] == symbols[i] && symbols[i] != 0xFFFD)
			&& !(r == 0x1A && (PAGE[ghost_octet] != symbols[i] || symbols[i] == 0xFFFD))) { return false; }
	}
	return dest[size] == 0;
}
#else
#define ghost_page ghost_match
#endif

#define PAGE_CONTRACT REQUIRES(src == NULL || __CPROVER_r_ok(src, LENGTH * 4 + 1)) \
	REQUIRES(dest == NULL || __CPROVER_w_ok(dest, LENGTH * 4 + 1)) \
	ASSIGNS(src != NULL && dest != NULL: WHOLE(dest)) \
	ENSURES(src == NULL || dest == NULL ? RET == 0 : ghost_page(dest, RET))

#define CONTRACT REQUIRES(src == NULL || __CPROVER_r_ok(src, LENGTH + 1)) \
	REQUIRES(dest == NULL || __CPROVER_w_ok(dest, LENGTH * 4 + 1)) \
	ASSIGNS(src != NULL && dest != NULL: WHOLE(dest)) \
	ENSURES(src == NULL || dest == NULL ? RET == 0 : ghost_match(dest, RET))

size_t utf8_from_cp866(const char *const src, char *const dest) CONTRACT;
size_t utf8_from_cp1251(const char *const src, char *const dest) CONTRACT;
size_t utf8_to_cp866(const char *const src, char *const dest) PAGE_CONTRACT;
size_t utf8_to_cp1251(const char *const src, char *const dest) PAGE_CONTRACT;
size_t utf8_transliteration(const char *const src, char *const dest) CONTRACT;

static char *any_dest(void)
{
	return vp_range(0, 15) == 0 ? NULL : malloc(LENGTH * 4 + 1);
}

#define H_FROM(name, function, table) \
void name(void) \
{ \
	char src[LENGTH + 1]; \
	const size_t n = vp_size(LENGTH == 1 ? 1 : 0, LENGTH); \
	expected_size = 0; \
	for (size_t i = 0; i < LENGTH; i++) \
	{ \
		const uint8_t c = (uint8_t)vp_range(1, 255); \
		src[i] = i < n ? (char)c : 0; \
		if (i < n) { expect_utf8(table[c]); } \
	} \
	src[LENGTH] = 0; \
	char *const dest = any_dest(); \
	const char *const from = vp_range(0, 15) == 0 ? NULL : src; \
	const size_t size = function(from, dest); \
	if (from == NULL || dest == NULL) { vp_check(size == 0, "missing strings are refused"); vp_reach("null"); return; } \
	vp_check(ghost_match(dest, size), "every octet becomes its character"); \
	vp_reach("converted"); \
}

H_FROM(h_from_cp866, utf8_from_cp866, spec_cp866)
H_FROM(h_from_cp1251, utf8_from_cp1251, spec_cp1251)

/* A source of up to LENGTH characters in UTF-8. */
static char source[LENGTH * 4 + 1];

static void any_source(const size_t n)
{
	expected_size = 0;
	for (size_t i = 0; i < LENGTH; i++)
	{
		symbols[i] = (uint32_t)vp_range(1, vp_bool() ? 0x10FFFF : 0x2700);
		if (i < n) { expect_utf8(symbols[i]); }
	}
	for (size_t i = 0; i < LENGTH * 4 + 1; i++)
	{
		source[i] = i < expected_size ? (char)expected[i] : 0;
	}
	expected_size = 0;
}

static void expect_translit(const uint32_t c)
{
	const bool russian = (c >= 0x410 && c <= 0x44F) || c == 0x401 || c == 0x451;
	const size_t i = c == 0x401 ? 64 : c == 0x451 ? 65 : russian ? c - 0x410 : 0;
	if (!russian) { expect_utf8(c); return; }
	for (size_t j = 0; j < 4; j++)
	{
		if (j < spec_translit[i].size) { expect((uint8_t)spec_translit[i].text[j]); }
	}
}

#define H_TO(name, function, expectation) \
void name(void) \
{ \
	const size_t n = vp_size(LENGTH == 1 ? 1 : 0, LENGTH); \
	any_source(n); \
	for (size_t i = 0; i < LENGTH; i++) { if (i < n) { const uint32_t c = symbols[i]; expectation; } } \
	char *const dest = any_dest(); \
	const char *const from = vp_range(0, 15) == 0 ? NULL : source; \
	const size_t size = function(from, dest); \
	if (from == NULL || dest == NULL) { vp_check(size == 0, "missing strings are refused"); vp_reach("null"); return; } \
	vp_check(ghost_match(dest, size), "every character becomes its octets"); \
	vp_reach("converted"); \
}

/*
 *	To a code page: output octet i is the one the table gives for character i, or 0x1A when no octet gives it
 *	("no octet": an arbitrary octet ghost_octet does not).
 */
#define H_PAGE(name, function) \
void name(void) \
{ \
	const size_t n = vp_size(LENGTH == 1 ? 1 : 0, LENGTH); \
	ghost_octet = (uint8_t)vp_range(0, 255); \
	any_source(n); \
	expected_size = n; \
	char *const dest = any_dest(); \
	const char *const from = vp_range(0, 15) == 0 ? NULL : source; \
	const size_t size = function(from, dest); \
	if (from == NULL || dest == NULL) { vp_check(size == 0, "missing strings are refused"); vp_reach("null"); return; } \
	vp_check(ghost_page(dest, size), "every character becomes its octet, or the replacement"); \
	vp_reach("converted"); \
}

H_PAGE(h_to_cp866, utf8_to_cp866)
H_PAGE(h_to_cp1251, utf8_to_cp1251)
H_TO(h_translit, utf8_transliteration, expect_translit(c))
