/* C06: a stack is last in, first out.  The stack under test has any length up to CAP (2^40). */
#include "vector_common.h"
#include "stack.h"

#define READ_STACK REQUIRES(stk == NULL || __CPROVER_r_ok(stk, sizeof(stack))) ASSIGNS()
#define EMPTY(n) (!IS_OK(stk) || gsize < (n))
#define TOP(n) (!EMPTY(n) && gk == gsize - (n))

item_t stack_peek(const stack *const stk) READ_STACK
ENSURES(EMPTY(1) ==> RET == ITEM_MAX) ENSURES(TOP(1) ==> RET == gv);
double stack_peek_double(const stack *const stk) READ_STACK
ENSURES(EMPTY(DOUBLE_SIZE) ==> RET == DBL_MAX) ENSURES((TOP(DOUBLE_SIZE) && gv != LLONG_MAX) ==> vp_bits(RET) == (uint64_t)gv);
int64_t stack_peek_int64(const stack *const stk) READ_STACK
ENSURES(EMPTY(INT64_SIZE) ==> RET == LLONG_MAX) ENSURES(TOP(INT64_SIZE) ==> RET == gv);

#define POP_STACK(n) REQUIRES(stk == NULL || __CPROVER_rw_ok(stk, sizeof(stack))) ASSIGNS(stk != NULL: stk->size) \
	ENSURES(IS_OK(stk) ==> (stk->size == (gsize < (n) ? gsize : gsize - (n)) && KEPT(stk)))
item_t stack_pop(stack *const stk) POP_STACK(1)
ENSURES(EMPTY(1) ==> RET == ITEM_MAX) ENSURES(TOP(1) ==> RET == gv);
double stack_pop_double(stack *const stk) POP_STACK(DOUBLE_SIZE)
ENSURES(EMPTY(DOUBLE_SIZE) ==> RET == DBL_MAX) ENSURES((TOP(DOUBLE_SIZE) && gv != LLONG_MAX) ==> vp_bits(RET) == (uint64_t)gv);
int64_t stack_pop_int64(stack *const stk) POP_STACK(INT64_SIZE)
ENSURES(EMPTY(INT64_SIZE) ==> RET == LLONG_MAX) ENSURES(TOP(INT64_SIZE) ==> RET == gv);

#define PUSH_STACK(n) REQUIRES(stk == NULL || __CPROVER_rw_ok(stk, sizeof(stack))) \
	ASSIGNS(stk != NULL: *stk; stk != NULL && stk->array != NULL: WHOLE(stk->array)) FREES(stk != NULL && stk->array != NULL: stk->array) \
	ENSURES(!IS_OK(stk) ==> RET == -1) ENSURES((IS_OK(stk) && RET != 0) ==> (RET == -1 && SAME(stk))) \
	ENSURES((IS_OK(stk) && RET == 0) ==> (stk->size == gsize + (n) && KEPT(stk)))
int stack_push(stack *const stk, const item_t value) PUSH_STACK(1)
ENSURES((IS_OK(stk) && RET == 0) ==> stk->array[gsize] == value);
int stack_push_double(stack *const stk, const double value) PUSH_STACK(DOUBLE_SIZE)
ENSURES((IS_OK(stk) && RET == 0) ==> (uint64_t)stk->array[gsize] == vp_bits(value));
int stack_push_int64(stack *const stk, const int64_t value) PUSH_STACK(INT64_SIZE)
ENSURES((IS_OK(stk) && RET == 0) ==> stk->array[gsize] == value);

int stack_reset(stack *const stk)
REQUIRES(stk == NULL || __CPROVER_rw_ok(stk, sizeof(stack))) ASSIGNS(stk != NULL: *stk)
ENSURES(RET == (IS_OK(stk) ? 0 : -1)) ENSURES(IS_OK(stk) ==> stk->size == 0);
size_t stack_size(const stack *const stk) READ_STACK ENSURES(RET == (IS_OK(stk) ? gsize : SIZE_MAX));
bool stack_is_correct(const stack *const stk) READ_STACK ENSURES(RET == IS_OK(stk));

#define HEAD stack *const stk = any_vector(); const bool ok = IS_OK(stk)

#define H_PEEK(name, function, T, bad, same) \
void name(void) \
{ \
	HEAD; \
	const T r = function(stk); \
	vp_check((ok && gsize != 0) || r == bad, "nothing on top"); \
	if (!ok || gsize == 0) { vp_reach("empty"); return; } \
	vp_check(gk != gsize - 1 || (same), "the last value in"); \
	vp_check(SAME(stk), "peeking changes nothing"); \
	vp_reach("peek"); \
}
H_PEEK(h_peek, stack_peek, item_t, ITEM_MAX, r == gv)
H_PEEK(h_peek_double, stack_peek_double, double, DBL_MAX, gv == LLONG_MAX || vp_bits(r) == (uint64_t)gv)
H_PEEK(h_peek_int64, stack_peek_int64, int64_t, LLONG_MAX, r == gv)

#define H_POP(name, function, T, bad, same) \
void name(void) \
{ \
	HEAD; \
	const T r = function(stk); \
	vp_check((ok && gsize != 0) || r == bad, "nothing to pop"); \
	if (!ok || gsize == 0) { vp_check(!ok || stk->size == 0, "stays empty"); vp_reach("empty"); return; } \
	vp_check(gk != gsize - 1 || (same), "the last value in comes out first"); \
	vp_check(stk->size == gsize - 1 && stk->array == garray && KEPT(stk), "the rest stays"); \
	vp_reach("pop"); \
}
H_POP(h_pop, stack_pop, item_t, ITEM_MAX, r == gv)
H_POP(h_pop_double, stack_pop_double, double, DBL_MAX, gv == LLONG_MAX || vp_bits(r) == (uint64_t)gv)
H_POP(h_pop_int64, stack_pop_int64, int64_t, LLONG_MAX, r == gv)

#define H_PUSH(name, function, pop, peek, T, input, same) \
void name(void) \
{ \
	HEAD; \
	const T value = input; \
	const int done = function(stk, value); \
	if (!ok) { vp_check(done == -1, "a broken stack is refused"); vp_reach("broken"); return; } \
	vp_check(done == 0, "push succeeds when memory is there"); \
	vp_check(stk->size == gsize + 1, "one value more"); \
	vp_check(KEPT(stk), "the values below stay"); \
	AFTER(pop, peek, T, same) \
	vp_reach("push"); \
}
#ifdef ROUND
	#define AFTER(pop, peek, T, same) { T r = peek(stk); vp_check(same, "peek sees the pushed value"); \
		r = pop(stk); vp_check(same, "pop returns the pushed value"); \
		vp_check(stk->size == gsize && KEPT(stk), "push and pop cancel"); }
#else
	#define AFTER(pop, peek, T, same)
#endif
H_PUSH(h_push, stack_push, stack_pop, stack_peek, item_t, (item_t)vp_u64(), r == value)
H_PUSH(h_push_double, stack_push_double, stack_pop_double, stack_peek_double, double, vp_double(),
	vp_bits(value) == LLONG_MAX || vp_bits(r) == vp_bits(value))
H_PUSH(h_push_int64, stack_push_int64, stack_pop_int64, stack_peek_int64, int64_t, vp_i64(), r == value)

void h_reset(void)
{
	HEAD;
	vp_check(stack_reset(stk) == (ok ? 0 : -1), "reset");
	vp_check(!ok || stk->size == 0, "empty afterwards");
	vp_reach("reset");
}

void h_size(void)
{
	HEAD;
	vp_check(stack_size(stk) == (ok ? gsize : SIZE_MAX), "size");
	vp_reach("size");
}

void h_is_correct(void)
{
	HEAD;
	vp_check(stack_is_correct(stk) == ok, "correct");
	vp_reach("correct");
}

void h_life(void)
{
	stack stk = stack_create(vp_size(0, CAP));
	vp_assume(stk.array != NULL);
	vp_check(stack_is_correct(&stk) && stack_size(&stk) == 0, "a new stack is empty");
	vp_check(stack_peek(&stk) == ITEM_MAX && stack_pop(&stk) == ITEM_MAX && stack_size(&stk) == 0, "nothing on a new stack");
	vp_check(stack_clear(&stk) == 0 && !stack_is_correct(&stk), "cleared");
	vp_check(stack_clear(&stk) == -1, "cleared once");
	vp_reach("life");
}
