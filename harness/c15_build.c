/*
 *	C15: types are built once.  Building the same type again gives the same type, different types are different, and building
 *	never changes what older types are.  In the proof the shapes of the types are written out, names and sizes are arbitrary; native
 *	runs choose everything.
 */
#include "vp.h"
#ifdef VP_CBMC
	#ifndef MODEL_CAP
	#define MODEL_CAP 60
	#endif
	#define MODEL_VECTORS 12
#endif
#include "vector_model.h"
#include "syntax.h"

#ifdef VP_CBMC
	#define MAX_TYPES 8
	#define MAX_PARTS 4
#else
	#define MAX_TYPES 24
	#define MAX_PARTS 120
#endif

typedef struct made
{
	item_t class, inner;				/* class; element, return or unqualified type */
	size_t parts;						/* members, parameters, enumerators */
	item_t types[MAX_PARTS];
	item_t names[MAX_PARTS];
	size_t size;						/* of a structure */
	item_t type;						/* as built */
} made;

static syntax sx;
static made all[MAX_TYPES];
static size_t amount;
static unsigned naming, named;		/* which of two names each part has, in turn */

static void start(void)
{
#ifdef VP_CBMC
	model_vectors = 0;
#endif
	amount = 0;
	memset(&sx, 0, sizeof(sx));
	sx.types = vector_create(4);
	vector_increase(&sx.types, 1);
	sx.start_type = vector_add(&sx.types, 0);
	vector_add(&sx.types, TYPE_STRUCTURE);
	vector_add(&sx.types, 2);
	vector_add(&sx.types, 4);
	for (unsigned i = 0; i < 2; i++)
	{
		vector_add(&sx.types, TYPE_INTEGER);
		vector_add(&sx.types, 7 + i);
	}
}

/* Size in cells, from what was built. */
static size_t size_of(const item_t type)
{
	if (type == TYPE_FLOATING) { return 2; }
	if (type == TYPE_MSG_INFO) { return 2; }
	for (size_t i = 0; i < amount; i++)
	{
		if (type > 0 && all[i].type == type)
		{
			return all[i].class == TYPE_STRUCTURE ? all[i].size : all[i].class == TYPE_CONST ? size_of(all[i].inner) : 1;
		}
	}
	return 1;
}

static bool same(const made *const a, const made *const b)
{
	if (a->class != b->class || a->inner != b->inner || a->parts != b->parts || a->class == TYPE_ENUM) { return false; }
	for (size_t i = 0; i < a->parts; i++)
	{
		if (a->types[i] != b->types[i] || a->names[i] != b->names[i]) { return false; }
	}
	return true;
}

static void look(const made *const m)
{
	const item_t t = m->type;
	vp_check(t > 0 && type_get_class(&sx, t) == (type_t)m->class, "the class of a type");
	vp_check(type_size(&sx, t) == size_of(t), "the size of a type");
	switch (m->class)
	{
		case TYPE_POINTER:
			vp_check(type_pointer_get_element_type(&sx, t) == m->inner, "what a pointer points to");
			break;
		case TYPE_ARRAY:
			vp_check(type_array_get_element_type(&sx, t) == m->inner, "the element of an array");
			break;
		case TYPE_CONST:
			vp_check(type_const_get_unqualified_type(&sx, t) == m->inner, "the type below const");
			break;
		case TYPE_STRUCTURE:
			vp_check(type_structure_get_member_amount(&sx, t) == m->parts, "the number of members");
			for (size_t i = 0; i < m->parts; i++)
			{
				vp_check(type_structure_get_member_type(&sx, t, i) == m->types[i], "the type of a member");
				vp_check(type_structure_get_member_name(&sx, t, i) == (size_t)m->names[i], "the name of a member");
			}
			break;
		case TYPE_FUNCTION:
			vp_check(type_function_get_return_type(&sx, t) == m->inner, "the type of the result");
			vp_check(type_function_get_parameter_amount(&sx, t) == m->parts, "the number of parameters");
			for (size_t i = 0; i < m->parts; i++)
			{
				vp_check(type_function_get_parameter_type(&sx, t, i) == m->types[i], "the type of a parameter");
			}
			break;
		case TYPE_ENUM:
			vp_check(type_is_enum(&sx, t) && type_is_enum_field(&sx, -t) && get_enum_field_type(&sx, -t) == t && type_is_integer(&sx, t) && type_is_integer(&sx, -t),
				"an enumeration and its fields");
			break;
	}
}

static void build(made *const m)
{
	const size_t before = sx.types.size;
	vector types, names;
	switch (m->class)
	{
		case TYPE_POINTER:
			m->type = type_pointer(&sx, m->inner);
			break;
		case TYPE_ARRAY:
			m->type = m->inner == TYPE_CHARACTER && vp_bool() ? type_string(&sx) : type_array(&sx, m->inner);
			break;
		case TYPE_CONST:
			m->type = type_const(&sx, m->inner);
			break;
		case TYPE_STRUCTURE:
			types = vector_create(1);
			names = vector_create(1);
			m->size = 0;
			for (size_t i = 0; i < m->parts; i++)
			{
				vector_add(&types, m->types[i]);
				vector_add(&names, m->names[i]);
				m->size += size_of(m->types[i]);
			}
			m->type = type_structure(&sx, &types, &names);
			vector_clear(&types);
			vector_clear(&names);
			break;
		case TYPE_FUNCTION:
		{
			item_t record[MAX_PARTS + 3];
			record[0] = TYPE_FUNCTION;
			record[1] = m->inner;
			record[2] = (item_t)m->parts;
			for (size_t i = 0; i < m->parts; i++) { record[3 + i] = m->types[i]; }
			m->type = type_add(&sx, record, m->parts + 3);
			break;
		}
		default:
		{
			item_t record[2 * MAX_PARTS + 2];
			m->type = type_add(&sx, (item_t[]){ TYPE_ENUM }, 1);
			for (size_t i = 0; i < m->parts; i++)
			{
				record[2 + 2 * i] = m->types[i];
				record[3 + 2 * i] = m->names[i];
			}
			record[0] = 0;
			record[1] = 2 * (item_t)m->parts;
			vp_check(type_enum_add_fields(&sx, record, 2 * m->parts + 2) == m->type, "the fields are added to the enumeration");
		}
	}

	bool found = false;
	for (size_t i = 0; i < amount; i++)
	{
		const bool equal = same(&all[i], m);
		vp_check((all[i].type == m->type) == equal, "types are the same exactly when built the same way");
		found = found || equal;
	}
	if (m->class == TYPE_STRUCTURE && m->parts == 2 && m->types[0] == TYPE_INTEGER && m->types[1] == TYPE_INTEGER && m->names[0] == 7 && m->names[1] == 8)
	{
		vp_check(m->type == TYPE_MSG_INFO, "the message structure is there from the beginning");
		found = true;
	}
	else
	{
		vp_check(m->type != TYPE_MSG_INFO, "another type is another one");
	}
	vp_check(found ? sx.types.size == before : sx.types.size > before, "the table grows for new types only");
	amount++;
	for (size_t i = 0; i < amount; i++) { look(&all[i]); }
}

static made *make(const item_t class, const item_t inner)
{
	made *const m = &all[amount];
	m->class = class;
	m->inner = inner;
	m->parts = 0;
	return m;
}

static void part(made *const m, const item_t type)
{
	m->types[m->parts] = type;
	m->names[m->parts] = m->class == TYPE_FUNCTION ? 0 : vp_small() ? 7 + (naming >> named++ & 1) : (item_t)vp_range(0, 12);
	m->parts++;
}

#define POINTER(t) build(make(TYPE_POINTER, t));
#define ARRAY(t) build(make(TYPE_ARRAY, t));
#define CONST_(t) build(make(TYPE_CONST, t));
#define STRUCT(...) { made *const m = make(TYPE_STRUCTURE, 0); const item_t parts[] = { __VA_ARGS__ }; \
	for (size_t i = 0; i < sizeof(parts) / sizeof(item_t); i++) { part(m, parts[i]); } build(m); }
#define FUNCTION(result, ...) { made *const m = make(TYPE_FUNCTION, result); const item_t parts[] = { __VA_ARGS__ }; \
	for (size_t i = 0; i < sizeof(parts) / sizeof(item_t); i++) { part(m, parts[i]); } build(m); }
#define ENUM_(a, b) { made *const m = make(TYPE_ENUM, 0); part(m, a); part(m, b); build(m); }
#define T(i) all[i].type

#ifndef HISTORY
	#define HISTORY
	#define NAMINGS 1
#endif

static item_t some_type(void)
{
	static const item_t basic[] = { TYPE_BOOLEAN, TYPE_FLOATING, TYPE_CHARACTER, TYPE_INTEGER, TYPE_FILE, TYPE_VOID };
	return amount > 0 && vp_bool() ? all[vp_range(0, amount - 1)].type : basic[vp_range(0, 5)];
}

void h_build(void)
{
	if (vp_small())
	{
		for (naming = 0; naming < NAMINGS; naming++)
		{
			start();
			named = 0;
			HISTORY
			vector_clear(&sx.types);
		}
	}
	else
	{
		start();
		for (size_t n = (size_t)vp_range(1, MAX_TYPES - 1); n > 0; n--)
		{
			made *const m = make((item_t)vp_range(TYPE_FUNCTION, TYPE_CONST), some_type());
			if (m->class == TYPE_STRUCTURE || m->class == TYPE_ENUM) { m->inner = 0; }
			if (m->class == TYPE_CONST)
			{
				vp_assume(type_get_class(&sx, m->inner) != TYPE_CONST);
			}
			if (m->class == TYPE_STRUCTURE || m->class == TYPE_ENUM || m->class == TYPE_FUNCTION)
			{
				const size_t parts = vp_range(0, 20) == 0 ? (size_t)vp_range(1, MAX_PARTS - 1) : (size_t)vp_range(1, 3);
				for (size_t i = 0; i < parts; i++) { part(m, some_type()); }
			}
			build(m);
		}
		vector_clear(&sx.types);
	}
	vp_reach("built");
}

/* The descriptions of the built-in functions. */
void h_function(void)
{
	start();
	static const char *const descriptions[] = { "", "f", "bs", "si", "ssi", "iI", "iF", "T", "P", "iP", "s.", "v", "V", "S", "m" };
	for (size_t n = 0; n < sizeof(descriptions) / sizeof(char *); n++)
	{
		const char *const d = descriptions[n];
		const item_t t = type_function(&sx, TYPE_INTEGER, d);
		size_t size = 0;
		while (d[size] != '\0') { size++; }
		vp_check(type_is_function(&sx, t) && type_function_get_return_type(&sx, t) == TYPE_INTEGER && type_function_get_parameter_amount(&sx, t) == size, "shape");
		for (size_t i = 0; i < size; i++)
		{
			const item_t p = type_function_get_parameter_type(&sx, t, i);
			const item_t e = d[i] == 'I' || d[i] == 'F' ? type_array_get_element_type(&sx, p) : type_pointer_get_element_type(&sx, p);
			vp_check(d[i] == 'v' ? p == TYPE_VOID : d[i] == 'b' ? p == TYPE_BOOLEAN : d[i] == 'i' ? p == TYPE_INTEGER : d[i] == 'f' ? p == TYPE_FLOATING :
				d[i] == 'm' ? p == TYPE_MSG_INFO : d[i] == '.' ? p == TYPE_VARARG : d[i] == 's' ? p == type_string(&sx) : d[i] == 'V' ? e == TYPE_VOID :
				d[i] == 'S' ? e == type_string(&sx) : d[i] == 'I' ? e == TYPE_INTEGER : d[i] == 'F' ? e == TYPE_FLOATING : d[i] == 'P' ? e == TYPE_FILE :
				type_is_function(&sx, p) && type_function_get_parameter_amount(&sx, p) == 1
					&& type_pointer_get_element_type(&sx, type_function_get_return_type(&sx, p)) == TYPE_VOID, "parameter");
		}
		vp_check(type_function(&sx, TYPE_INTEGER, d) == t, "the same function type");
	}
	vp_check(type_add(NULL, descriptions[0] != NULL ? &(item_t){ 0 } : NULL, 1) == ITEM_MAX && type_add(&sx, NULL, 1) == ITEM_MAX, "nothing to add");
	vp_reach("functions");
}
