/*
 *	The contract of the tree table (C10) in executable form, for harnesses of its clients: nodes keep their handles, children are in order.
 */
#pragma once
#include "tree.h"

#ifdef VP_CBMC
#ifndef MODEL_NODES
	#define MODEL_NODES 12
#endif
#define MODEL_ARGS 9
#ifndef MODEL_KIDS
	#define MODEL_KIDS 5
#endif
static struct { item_t type; size_t argc, parent, amount; item_t args[MODEL_ARGS]; size_t kids[MODEL_KIDS]; } model_tree[MODEL_NODES];
static size_t model_nodes = 1;
#define N(nd) model_tree[(nd)->index]

static void tree_reset(void) { model_nodes = 1; model_tree[0].amount = 0; }
bool node_is_correct(const node *const nd) { return nd != NULL && nd->tree != NULL && nd->index < model_nodes; }
static node model_broken(void) { return (node){ NULL, SIZE_MAX }; }
node node_get_root(vector *const tree) { return tree != NULL ? (node){ tree, 0 } : model_broken(); }
node node_get_child(const node *const nd, const size_t index)
{
	return node_is_correct(nd) && index < N(nd).amount ? (node){ nd->tree, N(nd).kids[index] } : model_broken();
}
node node_get_parent(const node *const nd)
{
	return node_is_correct(nd) && nd->index != 0 ? (node){ nd->tree, N(nd).parent } : model_broken();
}
item_t node_get_type(const node *const nd) { return node_is_correct(nd) && nd->index != 0 ? N(nd).type : ITEM_MAX; }
size_t node_get_argc(const node *const nd) { return node_is_correct(nd) ? N(nd).argc : 0; }
size_t node_get_amount(const node *const nd) { return node_is_correct(nd) ? N(nd).amount : 0; }
item_t node_get_arg(const node *const nd, const size_t index)
{
	return node_is_correct(nd) && index < N(nd).argc ? N(nd).args[index] : ITEM_MAX;
}
int64_t node_get_arg_int64(const node *const nd, const size_t index) { return node_get_arg(nd, index); }
double node_get_arg_double(const node *const nd, const size_t index) { return model_double(node_get_arg(nd, index)); }

static node model_new(vector *const tree, const size_t parent, const item_t type, const size_t argc)
{
	__CPROVER_assume(model_nodes < MODEL_NODES && argc <= MODEL_ARGS);
	const size_t h = model_nodes++;
	model_tree[h].type = type;
	model_tree[h].argc = argc;
	model_tree[h].parent = parent;
	model_tree[h].amount = 0;
	for (size_t i = 0; i < MODEL_ARGS; i++) { model_tree[h].args[i] = 0; }
	return (node){ tree, h };
}

node node_add_child(const node *const nd, const item_t type)
{
	if (!node_is_correct(nd)) { return model_broken(); }
	__CPROVER_assume(N(nd).amount < MODEL_KIDS);
	const node child = model_new(nd->tree, nd->index, type, 0);
	N(nd).kids[N(nd).amount++] = child.index;
	return child;
}
int node_set_type(const node *const nd, const item_t type)
{
	if (!node_is_correct(nd) || nd->index == 0) { return -1; }
	N(nd).type = type;
	return 0;
}
int node_add_arg(const node *const nd, const item_t arg)
{
	if (!node_is_correct(nd) || nd->index == 0) { return -1; }
	__CPROVER_assume(N(nd).argc < MODEL_ARGS);
	N(nd).args[N(nd).argc++] = arg;
	return 0;
}
int node_set_arg(const node *const nd, const size_t index, const item_t arg)
{
	if (!node_is_correct(nd) || index >= N(nd).argc) { return -1; }
	N(nd).args[index] = arg;
	return 0;
}
int node_add_arg_int64(const node *const nd, const int64_t arg) { return node_add_arg(nd, arg); }
int node_add_arg_double(const node *const nd, const double arg) { return node_add_arg(nd, model_bits(arg)); }
size_t node_set_arg_int64(const node *const nd, const size_t i, const int64_t arg) { return node_set_arg(nd, i, arg) ? SIZE_MAX : 1; }
size_t node_set_arg_double(const node *const nd, const size_t i, const double arg) { return node_set_arg(nd, i, model_bits(arg)) ? SIZE_MAX : 1; }
int node_copy(node *const dest, const node *const src)
{
	if (dest == NULL || !node_is_correct(src)) { return -1; }
	*dest = *src;
	return 0;
}

static size_t model_place(const node *const nd)
{
	const size_t parent = N(nd).parent;
	for (size_t i = 0; i < MODEL_KIDS; i++)
	{
		if (i < model_tree[parent].amount && model_tree[parent].kids[i] == nd->index) { return i; }
	}
	return MODEL_KIDS;
}
node node_insert(const node *const nd, const item_t type, const size_t argc)
{
	if (!node_is_correct(nd) || nd->index == 0) { return model_broken(); }
	const size_t place = model_place(nd), parent = N(nd).parent;
	__CPROVER_assume(place < MODEL_KIDS);
	const node made = model_new(nd->tree, parent, type, argc);
	model_tree[parent].kids[place] = made.index;
	N(&made).kids[0] = nd->index;
	N(&made).amount = 1;
	N(nd).parent = made.index;
	return made;
}
int node_swap(const node *const a, const node *const b)
{
	if (!node_is_correct(a) || !node_is_correct(b) || a->index == 0 || b->index == 0 || a->tree != b->tree) { return -1; }
	const size_t i = model_place(a), j = model_place(b), p = N(a).parent, q = N(b).parent;
	__CPROVER_assume(i < MODEL_KIDS && j < MODEL_KIDS);
	model_tree[p].kids[i] = b->index;
	model_tree[q].kids[j] = a->index;
	N(a).parent = q;
	N(b).parent = p;
	return 0;
}
int node_remove(node *const nd)
{
	if (!node_is_correct(nd) || nd->index == 0) { return -1; }
	const size_t place = model_place(nd), parent = N(nd).parent;
	__CPROVER_assume(place < MODEL_KIDS);
	for (size_t i = 0; i + 1 < MODEL_KIDS; i++)
	{
		if (i >= place) { model_tree[parent].kids[i] = model_tree[parent].kids[i + 1]; }
	}
	model_tree[parent].amount--;
	*nd = model_broken();
	return 0;
}
size_t node_save(const node *const nd) { return node_is_correct(nd) ? nd->index : SIZE_MAX; }
node node_load(vector *const tree, const size_t index)
{
	const node nd = { tree, index };
	return node_is_correct(&nd) ? nd : model_broken();
}
#undef N
#else
static void tree_reset(void) {}
#endif
