/*
 *	C08: a map is a finite map from texts to values, whichever form the key is given in.
 *	The history starts from map_create; an abstract map over KEYS arbitrary distinct keys runs alongside.
 */
#include "vp.h"
#ifndef KEYS
	#define KEYS 2
#endif
#ifdef VP_NATIVE
	#undef KEYS
	#define KEYS 6
	#define SYMBOLS 12
	#define LONGER for (size_t i = vp_size(0, 40); i > 0; i--) { step(vp_size(0, 3)); agrees(vp_size(0, KEYS - 1)); }
#else
	#define SYMBOLS 2
	#define LONGER
#endif
#ifndef SEQUENCE
	#define SEQUENCE
#endif
#ifndef ROOM
	#define ROOM 2
#endif
#ifndef FORM
	#define FORM 0
#endif

#ifdef VP_CBMC
/*
 *	map.c is compiled as it is, except for two parameters of the proof: BUCKETS chains instead of 256, and typed
 *	storage (CBMC would otherwise treat it octet by octet) with room for few keys.
 */
#ifndef BUCKETS
	#define BUCKETS 2
#endif
#define MAP_HASH_MAX map_hash_max
#include "map.h"
#undef MAP_HASH_MAX
#define MAP_HASH_MAX ((size_t)BUCKETS)
static void *vp_malloc(size_t size);
static void *vp_realloc(void *ptr, size_t size);
static void vp_free(void *ptr);
#define malloc vp_malloc
#define realloc vp_realloc
#define free vp_free
#include "map.c"
#undef malloc
#undef realloc
#undef free

static map as;
static map_hash vp_values[BUCKETS + 2];
static char vp_keys[24];		/* start() tells the map so */
static bool vp_given;
/* Other amounts of storage are outside of the proof (and only seen by the native runs). */
static void *vp_malloc(size_t size)
{
	if (!vp_given)
	{
		vp_given = true;
		vp_assume(size == (BUCKETS + ROOM) * sizeof(map_hash));
		return vp_values;
	}
	vp_assume(size == (BUCKETS + ROOM) * MAP_KEY_SIZE);
	return vp_keys;
}
static map_hash vp_values_grown[2 * (BUCKETS + 2)];
static char vp_keys_grown[20];
static size_t vp_room;
static void *vp_realloc(void *ptr, size_t size)
{
	if (ptr == vp_values)
	{
		const size_t old = as.values_alloc;
		vp_assume(size == 2 * old * sizeof(map_hash));
		for (size_t i = 0; i < BUCKETS + 2; i++)
		{
			if (i < old) { vp_values_grown[i] = vp_values[i]; }
		}
		return vp_values_grown;
	}
	vp_check(ptr == as.keys, "the storage of the map grows");
	vp_assume(size == 2 * vp_room);
	for (size_t i = 0; i < sizeof(vp_keys_grown) / 2; i++)
	{
		if (i < vp_room) { vp_keys_grown[i] = as.keys[i]; }
	}
	return vp_keys_grown;
}
static void vp_free(void *ptr) { }
#else
#include "map.h"
#endif
#include "utf8.h"

static char32_t wide[KEYS][SYMBOLS + 2];
static char text[KEYS][4 * SYMBOLS + 1];
static size_t text_size[KEYS];
static bool present[KEYS];
static size_t place[KEYS];
static item_t value[KEYS];
#ifndef VP_CBMC
static map as;
#endif
static universal_io io;
static char32_t last;

#ifdef VP_CBMC
/* The contracts of C01 for one-octet characters, in executable form: the histories use only these (natively any). */
#ifdef ONE_OCTET
char32_t utf8_convert(const char *const symbol)
{
	vp_check((uint8_t)symbol[0] < 0x80, "one octet");
	return (char32_t)symbol[0];
}
size_t utf8_to_string(char *const buffer, const char32_t symbol)
{
	vp_check(symbol < 0x80, "one octet");
	buffer[0] = (char)symbol;
	buffer[1] = '\0';
	return 1;
}
#endif
/* The input is what the key is read from: its characters, then one that ends it. */
static const char32_t *io_left;
bool in_is_correct(const universal_io *const io) { return io != NULL; }
char32_t uni_scan_char(universal_io *const io) { return *io_left++; }
static void feed(const size_t k) { io_left = wide[k]; }
#else
static void feed(const size_t k)
{
	static char buffer[4 * SYMBOLS + 4];
	memcpy(buffer, text[k], text_size[k]);
	strcpy(&buffer[text_size[k]], "; ");
	io = io_create();
	in_set_buffer(&io, buffer);
}
#endif

static size_t spell(const char32_t ch, char *const to)
{
#if defined(ONE_OCTET) && defined(VP_CBMC)
	vp_assume(ch < 0x80);
	to[0] = (char)ch;
	return 1;
#endif
	if (ch < 0x80) { to[0] = (char)ch; return 1; }
#ifdef VP_NATIVE
	if (ch >= 0x10000)
	{
		to[0] = (char)(0xF0 | (ch >> 18));
		to[1] = (char)(0x80 | (ch >> 12 & 0x3F));
		to[2] = (char)(0x80 | (ch >> 6 & 0x3F));
		to[3] = (char)(0x80 | (ch & 0x3F));
		return 4;
	}
	if (ch >= 0x800)
	{
		to[0] = (char)(0xE0 | (ch >> 12));
		to[1] = (char)(0x80 | (ch >> 6 & 0x3F));
		to[2] = (char)(0x80 | (ch & 0x3F));
		return 3;
	}
#endif
	to[0] = (char)(0xC0 | (ch >> 6));
	to[1] = (char)(0x80 | (ch & 0x3F));
	return 2;
}

static void start(void)
{
	const bool all_few = vp_bool();
	for (size_t k = 0; k < KEYS; k++)
	{
#ifdef SIZES
		static const size_t sizes[] = { SIZES };
		const size_t size = sizes[k % (sizeof(sizes) / sizeof(sizes[0]))];
#else
		const size_t size = vp_size(1, vp_small() ? 2 : SYMBOLS);
#endif
		text_size[k] = 0;
		for (size_t i = 0; i < SYMBOLS; i++)
		{
			wide[k][i] = 0;
			if (i < size)
			{
				const bool few = all_few || vp_bool();
				wide[k][i] = (char32_t)vp_range(1, 0x7FF);
#if defined(VP_NATIVE) && FORM != 2
				if (!vp_small() && vp_range(0, 3) == 0) { wide[k][i] = (char32_t)vp_range(1, 0x10FFFF); }
#endif
				if (few) { wide[k][i] = (char32_t)('a' + wide[k][i] % 3); }
#if FORM == 2
				vp_assume(utf8_is_letter(wide[k][i]) || (i == 0 ? wide[k][i] == '#' : utf8_is_digit(wide[k][i])));
#endif
				text_size[k] += spell(wide[k][i], &text[k][text_size[k]]);
			}
		}
		text[k][text_size[k]] = '\0';
#if FORM == 2 && defined(VP_CBMC)
		wide[k][size] = ';';
#endif
		present[k] = false;
		for (size_t j = 0; j < k; j++)
		{
			bool same = true;
			for (size_t i = 0; i < SYMBOLS; i++) { same = same && wide[k][i] == wide[j][i]; }
			vp_assume(!same);
		}
	}
	as = map_create(ROOM);
#ifdef VP_CBMC
	as.keys_alloc = sizeof(vp_keys);
#endif
	vp_check(map_is_correct(&as), "a new map is correct");
	vp_check(map_last_read(&as) == NULL, "nothing is read yet");
}

#if FORM == 0
	#define CALL(name, ...) name(&as, text[k], ##__VA_ARGS__)
	#define LOOK(name) name(&as, text[k])
#elif FORM == 1
	#define CALL(name, ...) name##_by_utf8(&as, wide[k], ##__VA_ARGS__)
	#define LOOK(name) name##_by_utf8(&as, wide[k])
#else
	#define CALL(name, ...) (feed(k), name##_by_io(&as, &io, ##__VA_ARGS__, &last))
	#define LOOK(name) (feed(k), name##_by_io(&as, &io, &last))
#endif

static bool is_text(const char *const str, const size_t k)
{
	if (str == NULL) { return false; }
	for (size_t i = 0; i <= text_size[k] && i < sizeof(text[k]); i++)
	{
		if (str[i] != text[k][i]) { return false; }
	}
	return true;
}

/* The map agrees with the abstract one at key k. */
static void agrees(const size_t k)
{
	last = 0;
	const size_t index = LOOK(map_get_index);
#if FORM == 2
	vp_check(last == ';', "the character after the key");
#endif
	vp_check(index == (present[k] ? place[k] : SIZE_MAX), "a key is found at its place exactly when it is in the map");
	vp_check(is_text(map_last_read(&as), k), "the key read last");
	if (present[k])
	{
		vp_check(map_get_by_index(&as, index) == value[k], "its record carries the value");
		vp_check(is_text(map_to_string(&as, index), k), "and the key");
	}
	vp_check(as.values_size <= as.values_alloc && as.keys_size <= as.keys_alloc, "within the storage");
	vp_check(LOOK(map_get) == (present[k] ? value[k] : ITEM_MAX), "the value of the key");
}

static void step(const size_t op)
{
	const size_t k = vp_size(0, KEYS - 1);
	if (op <= 1)
	{
		const item_t v = op == 0 ? (item_t)vp_u64() : ITEM_MAX;
		size_t r;
		if (op == 0) { r = CALL(map_add, v); }
		else { r = LOOK(map_reserve); }
		vp_check(present[k] ? r == (v == ITEM_MAX ? place[k] : SIZE_MAX) : r != SIZE_MAX, "added when new, reserved in any case");
		if (!present[k])
		{
			for (size_t i = 0; i < KEYS; i++) { vp_check(!present[i] || place[i] != r, "a record of its own"); }
			present[k] = true;
			place[k] = r;
			value[k] = v;
		}
	}
	else if (op == 2)
	{
		const item_t v = (item_t)vp_u64();
		const size_t r = CALL(map_set, v);
		vp_check(r == (present[k] ? place[k] : SIZE_MAX), "a present key is set");
		value[k] = v;
	}
	else
	{
		const item_t v = (item_t)vp_u64();
		const size_t index = present[k] ? place[k] : vp_bool() ? vp_u64() : vp_size(MAP_HASH_MAX, 300);
		bool mine = false;
		for (size_t i = 0; i < KEYS; i++) { mine = mine || (present[i] && place[i] == index); }
		vp_assume(present[k] || !mine);
		vp_check(map_set_by_index(&as, index, v) == (present[k] ? 0 : -1), "a present record is set");
		vp_check(map_get_by_index(&as, index) == (present[k] ? v : ITEM_MAX), "and read back");
		if (present[k]) { value[k] = v; }
	}
}

void h_history(void)
{
	start();
	SEQUENCE
	LONGER
	agrees(vp_size(0, KEYS - 1));
	vp_reach("history");
	vp_check(map_clear(&as) == 0 && !map_is_correct(&as) && map_clear(&as) == -1, "cleared once");
}

/* Growing the key storage loses nothing: any room left, the first key of the map longer than it. */
void h_growth(void)
{
	start();
	const size_t k = 0;
	const size_t room = vp_size(10, 10);
#ifdef VP_CBMC
	as.keys = vp_keys + (sizeof(vp_keys) - room);
	vp_room = room;
#else
	free(as.keys);
	as.keys = malloc(room);
	vp_assume(as.keys != NULL);
#endif
	as.keys_alloc = room;
	as.keys_size = vp_size(0, room);
	const char mark = (char)vp_u8();
	const size_t at = vp_size(0, 9);
	if (at < as.keys_size) { as.keys[at] = mark; }
	const size_t before = as.keys_size;
	place[0] = CALL(map_add, 42);
	vp_check(place[0] != SIZE_MAX, "added");
	present[0] = true;
	value[0] = 42;
	vp_check(at >= before || as.keys[at] == mark, "earlier keys are kept");
	vp_check(as.keys_size == before + text_size[0] + 1 && as.keys_size <= as.keys_alloc, "room for the key");
	vp_check(is_text(map_to_string(&as, place[0]), 0), "the key");
	vp_reach("growth");
	map_clear(&as);
}

/* What is not a key is refused and changes nothing. */
void h_refused(void)
{
	start();
	const size_t k = 0;
	const size_t r = CALL(map_add, 7);
	map none = { NULL, 0, 0, 0, NULL, 0, 0 };
	map *const bad = vp_bool() ? NULL : &none;
	vp_check(!map_is_correct(bad), "broken");
	vp_check(map_add(bad, text[0], 1) == SIZE_MAX && map_set(bad, text[0], 1) == SIZE_MAX && map_get(bad, text[0]) == ITEM_MAX
		&& map_get_index(bad, text[0]) == SIZE_MAX && map_reserve(bad, text[0]) == SIZE_MAX, "no keys in a broken map");
	vp_check(map_set_by_index(bad, vp_u64(), 1) == -1 && map_get_by_index(bad, vp_u64()) == ITEM_MAX
		&& map_to_string(bad, vp_u64()) == NULL && map_last_read(bad) == NULL && map_clear(bad) == -1, "no records in a broken map");
	vp_check(map_add(&as, NULL, 1) == SIZE_MAX && map_add(&as, "", 1) == SIZE_MAX && map_reserve(&as, "") == SIZE_MAX
		&& map_add_by_utf8(&as, NULL, 1) == SIZE_MAX && map_get_index(&as, NULL) == SIZE_MAX, "missing and empty keys are refused");
	const size_t index = vp_bool() ? vp_u64() : vp_size(0, 300);
	vp_check(map_get_by_index(&as, index) == (index == r ? 7 : ITEM_MAX), "only records have values");
	vp_check((map_to_string(&as, index) != NULL) == (index == r), "only records have keys");
	vp_check(map_get_by_index(&as, r) == 7, "the record is unharmed");
	vp_reach("refused");
	map_clear(&as);
}
