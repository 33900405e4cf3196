BUGS = []


def bug(**k):
    BUGS.append(k)


def one(f, old, new):
    return [(f, old, new)]


bug(id="utf8-size-astral", property="C01", edits=one("libs/utils/utf8.c", "if ((symbol & 0xFFFF0000) == 0)", "if ((symbol & 0xFFFE0000) == 0)"),
    needs="a character of U+10000..U+1FFFF (emoji)", breaks="such characters are encoded in three octets",
    demo=r'''
#include "utf8.h"
#include <string.h>
int main(void)
{
	char b[8] = { 0 };
	return utf8_to_string(b, 0x1F600) == 4 && memcmp(b, "\xF0\x9F\x98\x80", 5) == 0 ? 0 : 1;
}
''')
bug(id="cp1251-guillemet", property="C03", edits=one("libs/utils/utf8.c", """		case U'·':
		case U'»':
			return (char)symbol;
""", """		case U'·':
			return (char)symbol;
"""),
    needs="the character U+00BB converted to Windows-1251", breaks="a closing guillemet becomes the replacement octet",
    demo=r'''
#include "utf8.h"
int main(void)
{
	char b[8] = { 0 };
	return utf8_to_cp1251("\xC2\xBB", b) == 1 && (unsigned char)b[0] == 0xBB ? 0 : 1;
}
''')
bug(id="item-sign", property="C04", edits=one("libs/utils/item.c", """|| status == item_int16 || status == item_int8
								? (~mask""", """|| status == item_int16
								? (~mask"""),
    needs="target item type int8 and a value with a high byte >= 0x80", breaks="items outside of the signed 8-bit range are written",
    demo=r'''
#include "item.h"
int main(void)
{
	item_t a[8];
	return item_store_int64_for_target(item_int8, -2, a) == 8 && a[0] == -2 && item_check_var(item_int8, a[7]) ? 0 : 1;
}
''')
bug(id="vector-set-end", property="C05", edits=one("libs/utils/vector.c", """	if (!vector_is_correct(vec) || index >= vec->size)
	{
		return -1;
	}
""", """	if (!vector_is_correct(vec) || index > vec->size)
	{
		return -1;
	}
"""),
    needs="setting the item just behind the last one", breaks="the update is accepted and writes outside of the sequence",
    demo=r"""
#include "vector.h"
int main(void)
{
	vector v = vector_create(4);
	vector_add(&v, 7);
	return vector_set(&v, 1, 9) == -1 && vector_set(&v, 0, 3) == 0 ? 0 : 1;
}
""")
bug(id="vector-failed-growth", property="C05", edits=one("libs/utils/vector.c", """		const size_t alloc_new = size > 2 * vec->size_alloc ? size : 2 * vec->size_alloc;
		item_t *array_new = realloc(vec->array, alloc_new * sizeof(item_t));
		if (array_new == NULL)
		{
			return -1;
		}

		vec->size_alloc = alloc_new;
""", """		vec->size_alloc = size > 2 * vec->size_alloc ? size : 2 * vec->size_alloc;
		item_t *array_new = realloc(vec->array, vec->size_alloc * sizeof(item_t));
		if (array_new == NULL)
		{
			return -1;
		}

"""),
    needs="an allocation that fails, followed by another append", breaks="the recorded capacity exceeds the storage after a failed growth",
    flags="-fsanitize=address -Wl,--wrap=realloc",
    demo=r'''
#include "vector.h"
#include <stdlib.h>
int fail = 1;
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { return fail ? NULL : __real_realloc(p, n); }
int main(void)
{
	vector v = vector_create(1);
	vector_add(&v, 1);
	if (vector_add(&v, 2) != SIZE_MAX) { return 1; }
	fail = 0;
	const size_t i = vector_add(&v, 3);
	return i == 1 && vector_get(&v, 0) == 1 && vector_get(&v, 1) == 3 ? 0 : 1;
}
''')
bug(id="hash-reuse-stale", property="C07", edits=one("libs/utils/hash.c", "			for (size_t i = 0; i < amount; i++)\n", "			for (size_t i = 1; i < amount; i++)\n"),
    needs="add, set, remove, add a key of the same bucket with the same row size", breaks="a new row starts with a stale value",
    demo=r'''
#include "hash.h"
int main(void)
{
	hash h = hash_create(2);
	hash_add(&h, 5, 2);
	hash_set(&h, 5, 0, 42);
	hash_remove(&h, 5);
	hash_add(&h, 5 + MAX_HASH, 2);
	return hash_get(&h, 5 + MAX_HASH, 0) == 0 ? 0 : 1;
}
''')
bug(id="scope-frame-size", property="C19", edits=one("libs/compiler/syntax.c", "		sx->max_displ = sx->displ > sx->max_displ ? sx->displ : sx->max_displ;\n	}\n	else", "		sx->max_displ = sx->displ;\n	}\n	else"),
    needs="a function whose last variable is declared after a block that needed more cells ended", breaks="the frame size reported for a function does not hold the variables of an inner block",
    libs="libs/utils/*.c libs/macro/*.c libs/compiler/*.c",
    demo=r'''
#include "syntax.h"
#include "workspace.h"
int main(void)
{
	workspace ws = ws_create();
	universal_io io = io_create();
	syntax sx = sx_create(&ws, &io);
	const char32_t names[][2] = { U"a", U"b", U"c", U"d" };
	size_t reprs[4];
	for (int i = 0; i < 4; i++) { reprs[i] = map_add_by_utf8(&sx.representations, names[i], ITEM_MAX); }
	const item_t outside = scope_func_enter(&sx);
	const scope block = scope_block_enter(&sx);
	for (int i = 0; i < 3; i++) { ident_add(&sx, reprs[i], 0, TYPE_INTEGER, 3); }
	const item_t needed = sx.displ;
	scope_block_exit(&sx, block);
	ident_add(&sx, reprs[3], 0, TYPE_INTEGER, 3);
	return scope_func_exit(&sx, outside) >= needed ? 0 : 1;
}
''')
bug(id="map-key-room", property="C08", edits=one("libs/utils/map.c", "if (MAX_SYMBOL_SIZE <= as->keys_alloc - as->keys_next)", "if (MAX_SYMBOL_SIZE <= as->keys_alloc - as->keys_size)"),
    needs="a single key longer than the room left for keys", breaks="the key is written behind the storage of keys",
    demo=r'''
#include "map.h"
#include <string.h>
int main(void)
{
	static char key[5000];
	map m = map_create(2);
	memset(key, 'k', sizeof(key) - 1);
	map_add(&m, "first", 1);
	map_add(&m, key, 2);
	return map_get(&m, key) == 2 && map_get(&m, "first") == 1 ? 0 : 1;
}
''')
