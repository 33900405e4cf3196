/* C01: UTF-8 codec contracts. Spec functions are written from RFC 3629 (extended to 21 bits). */
#include "vp.h"
#include "utf8.h"

static inline size_t spec_length(const uint32_t cp)
{
	return cp <= 0x7F ? 1 : cp <= 0x7FF ? 2 : cp <= 0xFFFF ? 3 : cp <= 0x1FFFFF ? 4 : 0;
}

/* i-th octet of the shortest UTF-8 form */
static inline uint8_t spec_octet(const uint32_t cp, const size_t i)
{
	switch (spec_length(cp))
	{
		case 1:
			return (uint8_t)cp;
		case 2:
			return (uint8_t)(i == 0 ? 0xC0 + cp / 64 : 0x80 + cp % 64);
		case 3:
			return (uint8_t)(i == 0 ? 0xE0 + cp / 4096 : i == 1 ? 0x80 + cp / 64 % 64 : 0x80 + cp % 64);
		default:
			return (uint8_t)(i == 0 ? 0xF0 + cp / 262144 : i == 1 ? 0x80 + cp / 4096 % 64
				: i == 2 ? 0x80 + cp / 64 % 64 : 0x80 + cp % 64);
	}
}

static inline bool spec_holds(const char *const buffer, const uint32_t cp)
{
	const size_t n = spec_length(cp);
	return (uint8_t)buffer[0] == spec_octet(cp, 0)
		&& (n < 2 || (uint8_t)buffer[1] == spec_octet(cp, 1))
		&& (n < 3 || (uint8_t)buffer[2] == spec_octet(cp, 2))
		&& (n < 4 || (uint8_t)buffer[3] == spec_octet(cp, 3));
}

static inline size_t spec_lead(const uint8_t lead)
{
	return lead < 0x80 ? 1 : lead < 0xC0 ? 1 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : lead < 0xF8 ? 4 : 1;
}

static inline bool spec_tail(const char octet)
{
	return (uint8_t)octet >= 0x80 && (uint8_t)octet <= 0xBF;
}

/* Ghost values: an arbitrary code point and an arbitrary position, fixed by the harness. */
static uint32_t ghost_cp;
static size_t ghost_first;

size_t utf8_size(const char32_t symbol)
ENSURES(RET == spec_length(symbol))
ASSIGNS();

size_t utf8_symbol_size(const char symbol)
ENSURES(RET == spec_lead((uint8_t)symbol))
ASSIGNS();

size_t utf8_to_string(char *const buffer, const char32_t symbol)
REQUIRES(buffer == NULL || __CPROVER_w_ok(buffer, spec_length(symbol) == 0 ? 0 : spec_length(symbol) + 1))
ENSURES(buffer == NULL ==> RET == 0)
ENSURES(buffer != NULL ==> RET == spec_length(symbol))
ENSURES((buffer != NULL && RET != 0) ==> (spec_holds(buffer, symbol) && buffer[spec_length(symbol)] == 0))
ASSIGNS(buffer != NULL && symbol <= 0x1FFFFF: WHOLE(buffer));

char32_t utf8_convert(const char *const symbol)
REQUIRES(symbol == NULL || __CPROVER_r_ok(symbol, 1))
REQUIRES(symbol == NULL || __CPROVER_r_ok(symbol, spec_lead((uint8_t)symbol[0])))
ENSURES(symbol == NULL ==> RET == 0)
ENSURES((symbol != NULL && ghost_cp <= 0x1FFFFF && spec_holds(symbol, ghost_cp)) ==> RET == ghost_cp)
ASSIGNS();

size_t utf8_to_first_byte(const char *const str, const size_t index)
REQUIRES(str == NULL || (ghost_first <= index && index - ghost_first <= 3
	&& __CPROVER_r_ok(str + ghost_first, index - ghost_first + 1)
	&& !spec_tail(str[ghost_first])
	&& (index < ghost_first + 1 || spec_tail(str[ghost_first + 1]))
	&& (index < ghost_first + 2 || spec_tail(str[ghost_first + 2]))
	&& (index < ghost_first + 3 || spec_tail(str[ghost_first + 3]))))
ENSURES(RET == (str == NULL ? 0 : ghost_first))
ASSIGNS();


void h_size(void)
{
	const char32_t cp = vp_u32();
	const size_t n = utf8_size(cp);
	vp_check(n == spec_length(cp), "size of every code point");
	vp_reach("size");
}

void h_symbol_size(void)
{
	const char c = (char)vp_u8();
	vp_check(utf8_symbol_size(c) == spec_lead((uint8_t)c), "length announced by every lead octet");
	vp_reach("lead");
}

void h_to_string(void)
{
	const char32_t cp = vp_u32();
	const size_t n = spec_length(cp);
	char *const buffer = vp_bool() ? NULL : malloc(n + 1);
	if (buffer != NULL)
	{
		buffer[n] = 'x';
	}
	const size_t r = utf8_to_string(buffer, cp);
	if (buffer == NULL)
	{
		vp_check(r == 0, "no buffer");
		vp_reach("no buffer");
	}
	else
	{
		vp_check(r == n, "encoded length");
		if (n != 0)
		{
			vp_check(spec_holds(buffer, cp), "canonical octets");
			vp_check(buffer[n] == '\0', "terminated");
			vp_reach("encoded");
		}
		else
		{
			vp_check(buffer[0] == 'x', "nothing written for a value outside of the range");
			vp_reach("rejected");
		}
	}
}

void h_convert(void)
{
	const char32_t cp = (char32_t)vp_range(0, 0x1FFFFF);
	const size_t n = spec_length(cp);
	char *const text = vp_bool() ? NULL : malloc(n);
	for (size_t i = 0; text != NULL && i < n; i++)
	{
		text[i] = (char)spec_octet(cp, i);
	}
	ghost_cp = cp;
	vp_check(utf8_convert(text) == (text == NULL ? 0 : cp), "decoding yields the code point");
	vp_reach("convert");
}

/* Decoding reads no more than the lead octet announces, whatever the octets are. */
void h_convert_any(void)
{
	const uint8_t lead = vp_u8();
	const size_t n = spec_lead(lead);
	char *const text = malloc(n);
	text[0] = (char)lead;
	for (size_t i = 1; i < n; i++)
	{
		text[i] = (char)vp_u8();
	}
	const char32_t cp = utf8_convert(text);
	vp_check(lead >= 0x80 || cp == lead, "an octet below 0x80 is itself");
	vp_reach("convert");
}

/* Lemma over the contracts: decode(encode(x)) == x, and the lead octet announces the encoded length. */
void h_round_trip(void)
{
	const char32_t cp = (char32_t)vp_range(0, 0x1FFFFF);
	ghost_cp = cp;
	char *const text = malloc(spec_length(cp) + 1);
	const size_t n = utf8_to_string(text, cp);
	vp_check(n == utf8_size(cp), "encoded length is the announced size");
	vp_check(utf8_symbol_size(text[0]) == n, "lead octet announces the length");
	vp_check(utf8_convert(text) == cp, "round trip");
	vp_check(cp == 0 || strlen(text) == n, "text length");
	vp_reach("round trip");
}

/* Any octet of any character of a text of arbitrary length leads back to its first octet. */
void h_first_byte(void)
{
	const size_t before = vp_size(0, 4096);
	const char32_t cp = (char32_t)vp_range(0, 0x1FFFFF);
	const size_t n = spec_length(cp);
	char *const text = vp_bool() ? NULL : malloc(before + n);
	for (size_t i = 0; text != NULL && i < n; i++)
	{
		text[before + i] = (char)spec_octet(cp, i);
	}
	const size_t at = vp_size(0, 3);
	vp_assume(at < n);
	ghost_first = before;
	vp_check(utf8_to_first_byte(text, before + at) == (text == NULL ? 0 : before), "first octet");
	vp_reach("first octet");
}
