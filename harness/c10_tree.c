/*
 *	C10: the table behind a tree is an ordered tree of typed nodes with arguments.  Histories start from an empty
 *	table; an abstract tree runs alongside.  In the proof the shape of a history (which node each operation acts on)
 *	is written out and its data (types, arguments, positions of arguments) is arbitrary; props/C10.py lists all shapes
 *	up to a size.  The native runs choose everything.
 */
#include "vp.h"
#ifdef VP_CBMC
	#define MODEL_CAP 40
#endif
#include "vector_model.h"
#include <float.h>
#include "tree.h"

#ifndef NODES
	#define NODES 4
#endif
#ifdef VP_NATIVE
	#undef NODES
	#define NODES 12
	#define ARGS 3
#else
	#ifndef ARGS
		#define ARGS 1
	#endif
#endif
#define NONE ((size_t)NODES)

#ifndef HISTORIES
	#define HISTORIES
#endif

static vector tree;
static node real[NODES];			/* node 0 is the root */
static bool alive[NODES];
static size_t parent[NODES];
static size_t child[NODES][NODES];
static size_t amount[NODES];
static item_t type[NODES];
static item_t arg[NODES][ARGS + 1];
static size_t argc[NODES];
static size_t size;

static void start(void)
{
#ifdef VP_CBMC
	model_vectors = 0;
#endif
	tree = vector_create(0);
	real[0] = node_get_root(&tree);
	vp_check(node_is_correct(&real[0]), "a new tree has a root");
	alive[0] = true;
	parent[0] = NONE;
	amount[0] = 0;
	argc[0] = 0;
	size = 1;
}

/* Whether a is b or above it. */
static bool above(const size_t a, size_t b)
{
	for (size_t i = 0; i < NODES && b != NONE; i++)
	{
		if (a == b) { return true; }
		b = parent[b];
	}
	return false;
}

static size_t place(const size_t n)
{
	size_t r = 0;
	for (size_t i = 0; i < NODES; i++) { if (i < amount[parent[n]] && child[parent[n]][i] == n) { r = i; } }
	return r;
}

static size_t any_node(const size_t from)
{
	const size_t n = vp_size(from, NODES - 1);
	vp_assume(n < size && alive[n]);
	return n;
}

/* Node n of the tree is what the abstract tree says. */
static void agrees(const size_t n)
{
	const node *const nd = &real[n];
	vp_check(node_is_correct(nd), "the node is there");
	vp_check(node_get_amount(nd) == amount[n], "the number of children");
	vp_check(node_get_type(nd) == (n == 0 ? ITEM_MAX : type[n]), "the type");
	vp_check(node_get_argc(nd) == argc[n], "the number of arguments");
	for (size_t a = 0; a <= ARGS; a++)
	{
		vp_check(node_get_arg(nd, a) == (a < argc[n] ? arg[n][a] : ITEM_MAX), "the arguments");
	}
	for (size_t c = 0; c <= amount[n]; c++)
	{
		const node got = node_get_child(nd, c);
		vp_check(c < amount[n] ? got.index == real[child[n][c]].index && got.tree == &tree : !node_is_correct(&got), "the children in order");
	}
	const node up = node_get_parent(nd);
	vp_check(n == 0 ? !node_is_correct(&up) : up.index == real[parent[n]].index && up.tree == &tree, "the parent");
	/* next in pre-order */
	size_t next = NONE;
	if (amount[n] != 0) { next = child[n][0]; }
	else
	{
		size_t at = n;
		for (size_t i = 0; i < NODES && at != 0; i++)
		{
			const size_t p = place(at);
			if (p + 1 < amount[parent[at]]) { next = child[parent[at]][p + 1]; break; }
			at = parent[at];
		}
	}
	node walk = real[n];
	const node after = node_get_next(nd);
	const int moved = node_set_next(&walk);
	vp_check(next == NONE ? !node_is_correct(&after) && moved == -1 && walk.index == nd->index
		: after.index == real[next].index && moved == 0 && walk.index == after.index, "the next node in pre-order");
	const node again = node_load(&tree, node_save(nd));
	vp_check(again.index == nd->index && again.tree == &tree, "a saved node is loaded again");
}

static void detach(const size_t n)
{
	const size_t p = parent[n];
	const size_t at = place(n);
	for (size_t i = 0; i + 1 < NODES; i++) { if (i >= at) { child[p][i] = child[p][i + 1]; } }
	amount[p]--;
}

static size_t fresh(void)
{
	vp_assume(size < NODES);
	alive[size] = true;
	amount[size] = 0;
	argc[size] = 0;
	return size++;
}

static void add(const size_t p)
{
	const size_t n = fresh();
	parent[n] = p;
	type[n] = (item_t)vp_u64();
	child[p][amount[p]++] = n;
	real[n] = node_add_child(&real[p], type[n]);
	vp_check(node_is_correct(&real[n]), "a child is added");
}

/* Arguments are given to the newest node. */
static void add_arg(const size_t kind)
{
	const size_t n = size - 1;
	const item_t v = (item_t)vp_u64();
	const node *const nd = &real[n];
	const bool childless = amount[n] == 0;
	int r;
	if (kind == 0) { r = node_add_arg(nd, v); }
	else if (kind == 1) { r = node_add_arg_int64(nd, v); }
	else
	{
		union { item_t i; double d; } cast;
		cast.i = v;
		r = node_add_arg_double(nd, cast.d);
	}
	vp_check(r == (childless ? 0 : -2), "arguments come before children");
	if (childless) { arg[n][argc[n]++] = v; }
}

static void set(const size_t n, const size_t kind)
{
	const size_t a = vp_bool() ? vp_u64() : vp_size(0, ARGS);
	const item_t v = (item_t)vp_u64();
	vp_assume(v != ITEM_MAX);
	const bool inside = a < argc[n];
	if (kind == 0) { vp_check(node_set_arg(&real[n], a, v) == (inside ? 0 : -1), "set exactly inside of the arguments"); }
	else if (kind == 1) { vp_check((node_set_arg_int64(&real[n], a, v) != SIZE_MAX) == inside, "set exactly inside of the arguments"); }
	else if (kind == 2)
	{
		union { item_t i; double d; } cast;
		cast.i = v;
		vp_check((node_set_arg_double(&real[n], a, cast.d) != SIZE_MAX) == inside, "set exactly inside of the arguments");
	}
	else
	{
		vp_check(node_set_type(&real[n], v) == (n == 0 ? -2 : 0), "the type of a node but the root");
		if (n != 0) { type[n] = v; }
	}
	if (kind != 3 && inside) { arg[n][a] = v; }
	if (kind != 3)
	{
		vp_check(node_get_arg(&real[n], a) == (inside ? v : ITEM_MAX), "the argument set");
		vp_check(node_get_arg_int64(&real[n], a) == (inside ? v : LLONG_MAX), "also as a 64-bit number");
		vp_check(vp_bits(node_get_arg_double(&real[n], a)) == (inside ? (uint64_t)v : vp_bits(DBL_MAX)), "also as a double");
	}
}

static void insert(const size_t n, const size_t args)
{
	const size_t p = parent[n];
	const size_t at = place(n);
	const size_t m = fresh();
	type[m] = (item_t)vp_u64();
	real[m] = node_insert(&real[n], type[m], args);
	vp_check(node_is_correct(&real[m]), "a node is inserted");
	for (size_t i = 0; i < ARGS; i++) { arg[m][i] = 0; }
	argc[m] = args;
	parent[m] = p;
	child[p][at] = m;
	child[m][0] = n;
	amount[m] = 1;
	parent[n] = m;
}

static void swap(const size_t a, const size_t b)
{
	vp_assume(!above(a, b) && !above(b, a));
	vp_check(node_swap(&real[a], &real[b]) == 0, "two nodes are swapped");
	const size_t pa = parent[a], pb = parent[b], ia = place(a), ib = place(b);
	child[pa][ia] = b;
	child[pb][ib] = a;
	parent[a] = pb;
	parent[b] = pa;
}

/* Only the nodes change their places: the children stay where they were. */
static void order(const size_t a, const size_t b)
{
	vp_assume(!above(a, b) && !above(b, a));
	vp_check(node_order(&real[a], &real[b]) == 0, "two nodes change places");
	const size_t pa = parent[a], pb = parent[b], ia = place(a), ib = place(b);
	child[pa][ia] = b;
	child[pb][ib] = a;
	parent[a] = pb;
	parent[b] = pa;
	const size_t na = amount[a], nb = amount[b];
	for (size_t i = 0; i < NODES; i++)
	{
		const size_t ca = child[a][i];
		child[a][i] = child[b][i];
		child[b][i] = ca;
		if (i < na) { parent[ca] = b; }
		if (i < nb) { parent[child[a][i]] = a; }
	}
	amount[a] = nb;
	amount[b] = na;
}

static void delete(const size_t n)
{
	node nd = real[n];
	vp_check(node_remove(&nd) == 0 && !node_is_correct(&nd), "a node is removed");
	detach(n);
	for (size_t i = 1; i < NODES; i++)
	{
		if (i < size && i != n && above(n, i)) { alive[i] = false; }
	}
	alive[n] = false;
}

static void all(void)
{
	for (size_t n = 0; n < size; n++) { if (alive[n]) { agrees(n); } }
	vp_reach("history");
}

#ifdef VP_NATIVE
static void longer(void)
{
	for (size_t i = vp_size(0, 24); i > 0; i--)
	{
		switch (vp_size(0, 8))
		{
			case 0: case 1: case 2: if (size < NODES) { add(any_node(0)); } break;
			case 3: if (size > 1 && alive[size - 1] && argc[size - 1] < ARGS) { add_arg(vp_size(0, 2)); } break;
			case 4: set(any_node(0), vp_size(0, 3)); break;
			case 5: if (size < NODES && size > 1) { insert(any_node(1), vp_size(0, ARGS)); } break;
			case 6: swap(any_node(1), any_node(1)); break;
			case 7: order(any_node(1), any_node(1)); break;
			case 8: delete(any_node(1)); break;
		}
		all();
	}
}
#endif

void h_history(void)
{
#ifdef VP_NATIVE
	start();
	longer();
	vector_clear(&tree);
#endif
	HISTORIES
}

void h_broken(void)
{
	start();
	vector none = tree;
	none.array = NULL;
#ifndef BAD
	#define BAD vp_size(0, 2)
#endif
	const size_t kind = BAD;
	const node bad = { kind == 0 ? NULL : kind == 1 ? &tree : &none, kind == 1 ? SIZE_MAX : vp_u64() };
	node copy = bad;
	vp_check(!node_is_correct(&bad) && !node_is_correct(NULL), "broken nodes");
	vp_check(node_get_type(&bad) == ITEM_MAX && node_get_argc(&bad) == 0 && node_get_arg(&bad, vp_u64()) == ITEM_MAX
		&& node_get_amount(&bad) == 0 && node_save(&bad) == SIZE_MAX, "nothing in a broken node");
	vp_check(node_get_arg_int64(&bad, vp_u64()) == LLONG_MAX && node_get_arg_double(&bad, vp_u64()) == DBL_MAX, "no wide arguments");
	vp_check(node_set_type(&bad, 1) == -1 && node_add_arg(&bad, 1) == -1 && node_set_arg(&bad, vp_u64(), 1) == -1
		&& node_add_arg_int64(&bad, 1) == -1 && node_add_arg_double(&bad, 1) == -1 && node_set_arg_int64(&bad, vp_u64(), 1) == SIZE_MAX
		&& node_set_arg_double(&bad, vp_u64(), 1) == SIZE_MAX && node_set_next(&copy) == -1 && node_remove(&copy) == -1
		&& node_copy(&copy, &bad) == -1 && node_swap(&bad, &bad) == -1 && node_order(&bad, &real[0]) == -1, "a broken node is refused");
	node r[6] = { node_get_child(&bad, vp_u64()), node_get_parent(&bad), node_get_next(&bad), node_add_child(&bad, 1), node_insert(&bad, 1, 1),
		node_load(&none, vp_u64()) };
	for (size_t i = 0; i < 6; i++) { vp_check(!node_is_correct(&r[i]), "no nodes around a broken one"); }
	vp_check(!node_is_correct(&(node){ &tree, SIZE_MAX }) && node_swap(&real[0], &real[0]) == -1 && vector_size(&tree) == 3, "the tree is unharmed");
	node to = bad;
	vp_check(node_copy(&to, &real[0]) == 0 && to.index == 0 && to.tree == &tree && node_copy(NULL, &real[0]) == -1, "a copied node");
	vp_reach("broken");
}
