/*
 *	C19: names and scopes.  Over histories of declarations and scopes a name refers to its innermost declaration, variables that live at the
 *	same time have cells of their own, and a function's frame holds all of them.
 */
#include "vp.h"
#ifdef VP_CBMC
	#define MODEL_CAP 46
	#define MODEL_VECTORS 3
#endif
#include "vector_model.h"
#include "syntax.h"
#include "map.h"

#define NAMES 3
#define RECORDS 11
#define DEPTH 6

static syntax sx;
static size_t names[NAMES];

#ifdef VP_CBMC
/* The contract of the table of representations (C08): a place for every name. */
static item_t references[NAMES + 1];
item_t map_get_by_index(const map *const as, const size_t index) { (void)as; return index <= NAMES ? references[index] : ITEM_MAX; }
int map_set_by_index(map *const as, const size_t index, const item_t value)
{
	(void)as;
	if (index > NAMES) { return -1; }
	references[index] = value;
	return 0;
}
static const char *const spellings[] = { "", "a", "b", "c" };
const char *map_to_string(const map *const as, const size_t index) { (void)as; return index <= NAMES ? spellings[index] : NULL; }
#endif

typedef struct declared
{
	size_t name, id;
	item_t type, displ, kind;
	size_t size;			/* cells it takes, 0 for none */
	bool forward;			/* a function without its body so far */
} declared;

static declared live[RECORDS];
static size_t lives, scopes, bases[DEPTH];
static scope saved[DEPTH];
static item_t outside, frame;
static bool inside, over, blocks;
static size_t total, numbers;
static bool pending[NAMES];

static void begin(void)
{
	memset(&sx, 0, sizeof(sx));
	sx.identifiers = vector_create(8);
	sx.predef = vector_create(8);
	vector_increase(&sx.identifiers, 6);		/* the first builtin */
	sx.cur_id = 2;
	sx.max_displg = 3;
	sx.max_displ = 3;
	sx.displ = -3;
	sx.lg = -1;
#ifdef VP_CBMC
	for (size_t i = 0; i < NAMES; i++) { names[i] = i + 1; references[i + 1] = ITEM_MAX; }
#else
	sx.representations = map_create(10);
	map_add(&sx.representations, "while", -5);
	names[0] = map_reserve(&sx.representations, "a");
	names[1] = map_reserve(&sx.representations, "b");
	names[2] = map_reserve(&sx.representations, "c");
#endif
	lives = scopes = total = 0;
	numbers = 2;
	bases[0] = 0;
	inside = over = false;
	for (size_t i = 0; i < NAMES; i++) { pending[i] = false; }
}

static void end(void)
{
#ifndef VP_CBMC
	vector_clear(&sx.identifiers);
	vector_clear(&sx.predef);
	map_clear(&sx.representations);
#endif
}

/* The innermost declaration of the name, RECORDS if there is none. */
static size_t visible(const size_t name, const size_t from)
{
	size_t found = RECORDS;
	for (size_t i = 0; i < RECORDS; i++)
	{
		if (i >= from && i < lives && live[i].name == name) { found = i; }
	}
	return found;
}

static void names_are_right(void)
{
	for (size_t n = 0; n < NAMES; n++)
	{
		const size_t d = visible(n, 0);
		const item_t ref = repr_get_reference(&sx, names[n]);
		vp_check(ref == (d == RECORDS ? ITEM_MAX : (item_t)live[d].id), "a name refers to its innermost declaration, or to none");
	}
}

static void records_are_right(void)
{
	for (size_t i = 0; i < RECORDS; i++)
	{
		if (i < lives)
		{
			const declared *const d = &live[i];
			const item_t repr = (item_t)names[d->name];
			vp_check(ident_get_type(&sx, d->id) == d->type && ident_get_displ(&sx, d->id) == d->displ
				&& ident_get_repr(&sx, d->id) == (d->forward ? -repr : repr), "what was declared stays as it was");
			const char *const spelling = ident_get_spelling(&sx, d->id);
			vp_check(spelling != NULL && spelling[0] == (char)('a' + d->name) && spelling[1] == '\0', "and keeps its spelling");
		}
	}
}

static bool overlap(const item_t a, const size_t n, const item_t b, const size_t m) { return a < b + (item_t)m && b < a + (item_t)n; }

/* Declares the name: kind and mode as the parser passes them. */
static void declare(const char what)
{
	static const item_t types[] = { TYPE_INTEGER, TYPE_FLOATING, TYPE_BOOLEAN, TYPE_CHARACTER };
	const size_t name = (size_t)vp_range(0, NAMES - 1), base = bases[scopes], was = visible(name, base);
	const item_t type = types[vp_range(0, 3)];
	const bool function = what == 'f' || what == 'F';
	const item_t kind = what == 'p' ? -1 : what == 't' ? 1000 : function ? (item_t)numbers++ : 0;
	const int mode = what == 'f' ? 2 : what == 'F' ? 1 : 3;
	const item_t before = sx.displ;
	const size_t id = ident_add(&sx, names[name], kind, type, mode);

	const bool again = was != RECORDS && !(what == 'F' && live[was].forward);
	vp_check((id == SIZE_MAX - 1) == again, "a name is declared once in a scope; functions also before their definition");
	vp_check(again || id == 6 + 4 * total, "declarations are numbered in order");
	total++;
	if (vp_small()) { vp_assume(!again); }		/* an error was reported: no promises any more */
	else if (again)
	{
		over = true;
		return;
	}
	vp_assume(lives < RECORDS);
	declared *const d = &live[lives];
	*d = (declared){ name, id, type, kind, kind, what == 'p' ? 1 : kind == 0 ? (type == TYPE_FLOATING ? 2 : 1) : 0, what == 'f' };
	if (d->size != 0)
	{
		const item_t displ = ident_get_displ(&sx, id);
		d->displ = displ;
		const item_t cell = what == 'p' ? -displ : inside ? displ : displ - (item_t)d->size + 1;
		vp_check(inside ? cell >= 3 && sx.max_displ >= cell + (item_t)d->size : displ <= -3 && sx.max_displg >= (size_t)-cell, "a variable lies in its frame");
		vp_check(what == 'p' ? displ < 0 : ident_is_local(&sx, id) == inside, "variables of functions are local");
		for (size_t i = 0; i < RECORDS; i++)
		{
			if (i < lives && live[i].size != 0)
			{
				const item_t other = live[i].kind == -1 ? -live[i].displ : live[i].displ > 0 ? live[i].displ : live[i].displ - (item_t)live[i].size + 1;
				vp_check((live[i].displ > 0 || live[i].kind == -1) != inside || !overlap(cell, d->size, other, live[i].size), "variables that live at the same time have cells of their own");
			}
		}
		if (inside && cell + (item_t)d->size > frame) { frame = cell + (item_t)d->size; }
	}
	else { vp_check(sx.displ == before, "types and functions take no cells"); }
	vp_check(ident_is_type_specifier(&sx, id) == (what == 't'), "types are told from variables");
	if (function) { pending[name] = what == 'f'; }
	lives++;
}

static void leave(void) { lives = bases[scopes--]; }

static void step(const char what)
{
	if (!vp_small() && over) { return; }
	switch (what)
	{
		case '{':
			saved[scopes + 1] = scope_block_enter(&sx);
			bases[++scopes] = lives;
			blocks = true;
			break;
		case '}':
			vp_check(scope_block_exit(&sx, saved[scopes]) == 0, "a block ends");
			leave();
			break;
		case '(':
			outside = scope_func_enter(&sx);
			bases[++scopes] = lives;
			inside = true;
			blocks = false;
			frame = 3;
			break;
		case ')':
			vp_check(scope_func_exit(&sx, outside) >= frame, "the frame of a function holds all its variables");
			leave();
			inside = false;
			break;
		default:
			declare(what);
	}
	if (!vp_small() && over) { return; }
	names_are_right();
	if (!vp_small()) { records_are_right(); }
	for (size_t n = 0; n < NAMES; n++)
	{
		bool listed = false;
		for (size_t i = 0; i < vector_size(&sx.predef); i++) { listed = listed || vector_get(&sx.predef, i) == (item_t)names[n]; }
		vp_check(listed == pending[n], "functions declared and not defined are listed");
	}
}

#ifndef HISTORY
	#define HISTORY "v(v{v}v)v"
#endif

void h_history(void)
{
	begin();
	if (vp_small())
	{
		static const char history[] = HISTORY;
		for (size_t i = 0; i + 1 < sizeof(history); i++) { step(history[i]); }
	}
	else
	{
		/* Any history the parser can make. */
		for (size_t i = 0; i < 16 && total + 1 < RECORDS; i++)
		{
			const uint64_t choice = vp_range(0, 9);
			if (inside)
			{
				step(choice < 2 && scopes + 1 < DEPTH ? '{' : choice < 4 && scopes > 1 ? '}' : choice < 4 ? ')' : choice < 5 && !blocks ? 'p' : choice < 6 ? 't' : 'v');
			}
			else { step(choice < 3 ? 'v' : choice < 4 ? 't' : choice < 6 ? 'f' : choice < 8 ? 'F' : '('); }
		}
	}
	if (vp_small()) { records_are_right(); }
	vp_reach("history");
	end();
}
