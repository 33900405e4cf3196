/* C02: character classes and case of the input alphabet (ASCII and the 66 russian letters). */
#include "vp.h"
#include "utf8.h"

static inline bool lower_rus(const uint32_t c) { return (c >= 0x430 && c <= 0x44F) || c == 0x451; }
static inline bool upper_rus(const uint32_t c) { return (c >= 0x410 && c <= 0x42F) || c == 0x401; }
static inline bool lower_eng(const uint32_t c) { return c >= 97 && c <= 122; }
static inline bool upper_eng(const uint32_t c) { return c >= 65 && c <= 90; }
static inline bool digit(const uint32_t c) { return c >= 48 && c <= 57; }
static inline bool hexa(const uint32_t c) { return digit(c) || (c >= 65 && c <= 70) || (c >= 97 && c <= 102); }

static inline uint32_t spec_upper(const uint32_t c)
{
	return c == 0x451 ? 0x401 : lower_eng(c) || lower_rus(c) ? c - 32 : c;
}

static inline uint8_t spec_number(const uint32_t c)
{
	return digit(c) ? (uint8_t)(c - 48) : !hexa(c) ? 0 : (uint8_t)(spec_upper(c) - 55);
}

static inline bool spec_letter(const uint32_t c)
{
	return c == 95 || lower_eng(c) || upper_eng(c) || lower_rus(c) || upper_rus(c);
}

static inline bool spec_power(const uint32_t c)
{
	return spec_upper(c) == 69 || spec_upper(c) == 0x415;
}

char32_t utf8_to_upper(const char32_t symbol) ENSURES(RET == spec_upper(symbol)) ASSIGNS();
uint8_t utf8_to_number(const char32_t symbol) ENSURES(RET == spec_number(symbol)) ASSIGNS();
bool utf8_is_russian(const char32_t symbol) ENSURES(RET == (lower_rus(symbol) || upper_rus(symbol))) ASSIGNS();
bool utf8_is_letter(const char32_t symbol) ENSURES(RET == spec_letter(symbol)) ASSIGNS();
bool utf8_is_digit(const char32_t symbol) ENSURES(RET == digit(symbol)) ASSIGNS();
bool utf8_is_hexa_digit(const char32_t symbol) ENSURES(RET == hexa(symbol)) ASSIGNS();
bool utf8_is_power(const char32_t symbol) ENSURES(RET == spec_power(symbol)) ASSIGNS();

#define H(name, function, spec) \
void name(void) \
{ \
	const uint32_t c = (uint32_t)vp_range(0, UINT32_MAX); \
	vp_check(function(c) == (spec), #function " agrees with the specification"); \
	vp_reach("done"); \
}

H(h_upper, utf8_to_upper, spec_upper(c))
H(h_number, utf8_to_number, spec_number(c))
H(h_russian, utf8_is_russian, lower_rus(c) || upper_rus(c))
H(h_letter, utf8_is_letter, spec_letter(c))
H(h_digit, utf8_is_digit, digit(c))
H(h_hexa, utf8_is_hexa_digit, hexa(c))
H(h_power, utf8_is_power, spec_power(c))

/* Consequences callers rely on, over the contracts alone (calls are replaced by contracts). */
void h_laws(void)
{
	const uint32_t c = (uint32_t)vp_range(0, UINT32_MAX);
	const uint32_t up = utf8_to_upper(c);
	vp_check(utf8_to_upper(up) == up, "upper case is idempotent");
	vp_check(utf8_is_letter(up) == utf8_is_letter(c), "upper case keeps letters letters");
	vp_check(utf8_is_russian(up) == utf8_is_russian(c), "upper case keeps the alphabet");
	vp_check(!utf8_is_digit(c) || utf8_is_hexa_digit(c), "digits are hexadecimal digits");
	vp_check(!utf8_is_digit(c) || !utf8_is_letter(c), "digits are not letters");
	vp_check(utf8_to_number(c) < 16 && utf8_to_number(up) == utf8_to_number(c), "digit values do not depend on case");
	vp_reach("laws");
}
