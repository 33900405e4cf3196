/* C13: operators and the virtual machine's instructions, by name. */
#include "vp.h"
#include "operations.h"
#include "instructions.h"
#include "errors.h"

static unsigned errors_reported;

void system_error(err_t num, ...)
{
	(void)num;
	errors_reported++;
}

static inline int spec_binary(const token_t x)
{
	switch (x)
	{
		case TK_PLUS: return BIN_ADD;
		case TK_MINUS: return BIN_SUB;
		case TK_STAR: return BIN_MUL;
		case TK_SLASH: return BIN_DIV;
		case TK_PERCENT: return BIN_REM;
		case TK_CARET: return BIN_XOR;
		case TK_PIPE: return BIN_OR;
		case TK_AMP: return BIN_AND;
		case TK_LESS_LESS: return BIN_SHL;
		case TK_GREATER_GREATER: return BIN_SHR;
		case TK_LESS: return BIN_LT;
		case TK_GREATER: return BIN_GT;
		case TK_LESS_EQUAL: return BIN_LE;
		case TK_GREATER_EQUAL: return BIN_GE;
		case TK_EQUAL_EQUAL: return BIN_EQ;
		case TK_EXCLAIM_EQUAL: return BIN_NE;
		case TK_AMP_AMP: return BIN_LOG_AND;
		case TK_PIPE_PIPE: return BIN_LOG_OR;
		case TK_PLUS_EQUAL: return BIN_ADD_ASSIGN;
		case TK_MINUS_EQUAL: return BIN_SUB_ASSIGN;
		case TK_STAR_EQUAL: return BIN_MUL_ASSIGN;
		case TK_SLASH_EQUAL: return BIN_DIV_ASSIGN;
		case TK_PERCENT_EQUAL: return BIN_REM_ASSIGN;
		case TK_CARET_EQUAL: return BIN_XOR_ASSIGN;
		case TK_PIPE_EQUAL: return BIN_OR_ASSIGN;
		case TK_AMP_EQUAL: return BIN_AND_ASSIGN;
		case TK_LESS_LESS_EQUAL: return BIN_SHL_ASSIGN;
		case TK_GREATER_GREATER_EQUAL: return BIN_SHR_ASSIGN;
		case TK_EQUAL: return BIN_ASSIGN;
		case TK_COMMA: return BIN_COMMA;
		default: return -1;
	}
}

static inline int spec_unary(const token_t x)
{
	switch (x)
	{
		case TK_PLUS_PLUS: return UN_PREINC;
		case TK_MINUS_MINUS: return UN_PREDEC;
		case TK_AMP: return UN_ADDRESS;
		case TK_STAR: return UN_INDIRECTION;
		case TK_MINUS: return UN_MINUS;
		case TK_TILDE: return UN_NOT;
		case TK_EXCLAIM: return UN_LOGNOT;
		case TK_ABS: return UN_ABS;
		case TK_UPB: return UN_UPB;
		default: return -1;
	}
}

/* C's levels, 13 binds tightest; 0: not an operator with two or three operands. */
static inline int spec_level(const token_t x)
{
	switch (x)
	{
		case TK_STAR: return 13;
		case TK_SLASH: return 13;
		case TK_PERCENT: return 13;
		case TK_PLUS: return 12;
		case TK_MINUS: return 12;
		case TK_LESS_LESS: return 11;
		case TK_GREATER_GREATER: return 11;
		case TK_LESS: return 10;
		case TK_GREATER: return 10;
		case TK_LESS_EQUAL: return 10;
		case TK_GREATER_EQUAL: return 10;
		case TK_EQUAL_EQUAL: return 9;
		case TK_EXCLAIM_EQUAL: return 9;
		case TK_AMP: return 8;
		case TK_CARET: return 7;
		case TK_PIPE: return 6;
		case TK_AMP_AMP: return 5;
		case TK_PIPE_PIPE: return 4;
		case TK_QUESTION: return 3;
		case TK_EQUAL: return 2;
		case TK_PLUS_EQUAL: return 2;
		case TK_MINUS_EQUAL: return 2;
		case TK_STAR_EQUAL: return 2;
		case TK_SLASH_EQUAL: return 2;
		case TK_PERCENT_EQUAL: return 2;
		case TK_CARET_EQUAL: return 2;
		case TK_PIPE_EQUAL: return 2;
		case TK_AMP_EQUAL: return 2;
		case TK_LESS_LESS_EQUAL: return 2;
		case TK_GREATER_GREATER_EQUAL: return 2;
		case TK_COMMA: return 1;
		default: return 0;
	}
}

static inline bool spec_assignment(const binary_t x)
{
	switch (x)
	{
		case BIN_ASSIGN: return true;
		case BIN_ADD_ASSIGN: return true;
		case BIN_SUB_ASSIGN: return true;
		case BIN_MUL_ASSIGN: return true;
		case BIN_DIV_ASSIGN: return true;
		case BIN_REM_ASSIGN: return true;
		case BIN_XOR_ASSIGN: return true;
		case BIN_OR_ASSIGN: return true;
		case BIN_AND_ASSIGN: return true;
		case BIN_SHL_ASSIGN: return true;
		case BIN_SHR_ASSIGN: return true;
		default: return false;
	}
}

static inline instruction_t spec_binary_code(const binary_t x)
{
	switch (x)
	{
		case BIN_ADD: return IC_ADD;
		case BIN_SUB: return IC_SUB;
		case BIN_MUL: return IC_MUL;
		case BIN_DIV: return IC_DIV;
		case BIN_REM: return IC_REM;
		case BIN_XOR: return IC_XOR;
		case BIN_OR: return IC_OR;
		case BIN_AND: return IC_AND;
		case BIN_SHL: return IC_SHL;
		case BIN_SHR: return IC_SHR;
		case BIN_LT: return IC_LT;
		case BIN_GT: return IC_GT;
		case BIN_LE: return IC_LE;
		case BIN_GE: return IC_GE;
		case BIN_EQ: return IC_EQ;
		case BIN_NE: return IC_NE;
		case BIN_LOG_AND: return IC_LOG_AND;
		case BIN_LOG_OR: return IC_LOG_OR;
		case BIN_ADD_ASSIGN: return IC_ADD_ASSIGN;
		case BIN_SUB_ASSIGN: return IC_SUB_ASSIGN;
		case BIN_MUL_ASSIGN: return IC_MUL_ASSIGN;
		case BIN_DIV_ASSIGN: return IC_DIV_ASSIGN;
		case BIN_REM_ASSIGN: return IC_REM_ASSIGN;
		case BIN_XOR_ASSIGN: return IC_XOR_ASSIGN;
		case BIN_OR_ASSIGN: return IC_OR_ASSIGN;
		case BIN_AND_ASSIGN: return IC_AND_ASSIGN;
		case BIN_SHL_ASSIGN: return IC_SHL_ASSIGN;
		case BIN_SHR_ASSIGN: return IC_SHR_ASSIGN;
		case BIN_ASSIGN: return IC_ASSIGN;
		default: return IC_NOP;
	}
}

static inline instruction_t spec_unary_code(const unary_t x)
{
	switch (x)
	{
		case UN_POSTINC: return IC_POST_INC;
		case UN_POSTDEC: return IC_POST_DEC;
		case UN_PREINC: return IC_PRE_INC;
		case UN_PREDEC: return IC_PRE_DEC;
		case UN_ADDRESS: return IC_LA;
		case UN_INDIRECTION: return IC_LOAD;
		case UN_MINUS: return IC_UNMINUS;
		case UN_NOT: return IC_NOT;
		case UN_LOGNOT: return IC_LOG_NOT;
		case UN_ABS: return IC_ABSI;
		default: return IC_NOP;
	}
}

static inline int spec_builtin_code(const builtin_t x)
{
	switch (x)
	{
		case BI_ASSERT: return IC_ASSERT;
		case BI_ASIN: return IC_ASIN;
		case BI_COS: return IC_COS;
		case BI_SIN: return IC_SIN;
		case BI_EXP: return IC_EXP;
		case BI_LOG: return IC_LOG;
		case BI_LOG10: return IC_LOG10;
		case BI_SQRT: return IC_SQRT;
		case BI_RAND: return IC_RAND;
		case BI_ROUND: return IC_ROUND;
		case BI_STRNCPY: return IC_STRNCPY;
		case BI_STRCAT: return IC_STRCAT;
		case BI_STRCMP: return IC_STRCMP;
		case BI_STRNCMP: return IC_STRNCMP;
		case BI_STRSTR: return IC_STRSTR;
		case BI_ROBOT_SEND_INT: return IC_ROBOT_SEND_INT;
		case BI_ROBOT_SEND_FLOAT: return IC_ROBOT_SEND_FLOAT;
		case BI_ROBOT_SEND_STRING: return IC_ROBOT_SEND_STRING;
		case BI_ROBOT_RECEIVE_INT: return IC_ROBOT_RECEIVE_INT;
		case BI_ROBOT_RECEIVE_FLOAT: return IC_ROBOT_RECEIVE_FLOAT;
		case BI_ROBOT_RECEIVE_STRING: return IC_ROBOT_RECEIVE_STRING;
		case BI_T_CREATE: return IC_CREATE;
		case BI_T_GETNUM: return IC_GETNUM;
		case BI_T_SLEEP: return IC_SLEEP;
		case BI_T_JOIN: return IC_JOIN;
		case BI_T_EXIT: return IC_EXIT;
		case BI_T_INIT: return IC_INIT;
		case BI_T_DESTROY: return IC_DESTROY;
		case BI_SEM_CREATE: return IC_SEM_CREATE;
		case BI_SEM_WAIT: return IC_SEM_WAIT;
		case BI_SEM_POST: return IC_SEM_POST;
		case BI_MSG_SEND: return IC_MSG_SEND;
		case BI_MSG_RECEIVE: return IC_MSG_RECEIVE;
		case BI_FOPEN: return IC_FOPEN;
		case BI_FGETC: return IC_FGETC;
		case BI_FPUTC: return IC_FPUTC;
		case BI_FCLOSE: return IC_FCLOSE;
		default: return -1;
	}
}

/* The version of an instruction has its name and a suffix; where there is none, the instruction itself is used. */
static inline instruction_t spec_address(const instruction_t x)
{
	switch (x)
	{
		case IC_REM_ASSIGN: return IC_REM_ASSIGN_AT;
		case IC_SHL_ASSIGN: return IC_SHL_ASSIGN_AT;
		case IC_SHR_ASSIGN: return IC_SHR_ASSIGN_AT;
		case IC_AND_ASSIGN: return IC_AND_ASSIGN_AT;
		case IC_XOR_ASSIGN: return IC_XOR_ASSIGN_AT;
		case IC_OR_ASSIGN: return IC_OR_ASSIGN_AT;
		case IC_ASSIGN: return IC_ASSIGN_AT;
		case IC_ADD_ASSIGN: return IC_ADD_ASSIGN_AT;
		case IC_SUB_ASSIGN: return IC_SUB_ASSIGN_AT;
		case IC_MUL_ASSIGN: return IC_MUL_ASSIGN_AT;
		case IC_DIV_ASSIGN: return IC_DIV_ASSIGN_AT;
		case IC_POST_INC: return IC_POST_INC_AT;
		case IC_POST_DEC: return IC_POST_DEC_AT;
		case IC_PRE_INC: return IC_PRE_INC_AT;
		case IC_PRE_DEC: return IC_PRE_DEC_AT;
		default: return x;
	}
}

static inline instruction_t spec_floating(const instruction_t x)
{
	switch (x)
	{
		case IC_ASSIGN: return IC_ASSIGN_R;
		case IC_ADD_ASSIGN: return IC_ADD_ASSIGN_R;
		case IC_SUB_ASSIGN: return IC_SUB_ASSIGN_R;
		case IC_MUL_ASSIGN: return IC_MUL_ASSIGN_R;
		case IC_DIV_ASSIGN: return IC_DIV_ASSIGN_R;
		case IC_ASSIGN_AT: return IC_ASSIGN_AT_R;
		case IC_ADD_ASSIGN_AT: return IC_ADD_ASSIGN_AT_R;
		case IC_SUB_ASSIGN_AT: return IC_SUB_ASSIGN_AT_R;
		case IC_MUL_ASSIGN_AT: return IC_MUL_ASSIGN_AT_R;
		case IC_DIV_ASSIGN_AT: return IC_DIV_ASSIGN_AT_R;
		case IC_EQ: return IC_EQ_R;
		case IC_NE: return IC_NE_R;
		case IC_LT: return IC_LT_R;
		case IC_GT: return IC_GT_R;
		case IC_LE: return IC_LE_R;
		case IC_GE: return IC_GE_R;
		case IC_ADD: return IC_ADD_R;
		case IC_SUB: return IC_SUB_R;
		case IC_MUL: return IC_MUL_R;
		case IC_DIV: return IC_DIV_R;
		case IC_POST_INC: return IC_POST_INC_R;
		case IC_POST_DEC: return IC_POST_DEC_R;
		case IC_PRE_INC: return IC_PRE_INC_R;
		case IC_PRE_DEC: return IC_PRE_DEC_R;
		case IC_POST_INC_AT: return IC_POST_INC_AT_R;
		case IC_POST_DEC_AT: return IC_POST_DEC_AT_R;
		case IC_PRE_INC_AT: return IC_PRE_INC_AT_R;
		case IC_PRE_DEC_AT: return IC_PRE_DEC_AT_R;
		case IC_UNMINUS: return IC_UNMINUS_R;
		default: return x;
	}
}

static inline instruction_t spec_void(const instruction_t x)
{
	switch (x)
	{
		case IC_REM_ASSIGN: return IC_REM_ASSIGN_V;
		case IC_SHL_ASSIGN: return IC_SHL_ASSIGN_V;
		case IC_SHR_ASSIGN: return IC_SHR_ASSIGN_V;
		case IC_AND_ASSIGN: return IC_AND_ASSIGN_V;
		case IC_XOR_ASSIGN: return IC_XOR_ASSIGN_V;
		case IC_OR_ASSIGN: return IC_OR_ASSIGN_V;
		case IC_ASSIGN: return IC_ASSIGN_V;
		case IC_ADD_ASSIGN: return IC_ADD_ASSIGN_V;
		case IC_SUB_ASSIGN: return IC_SUB_ASSIGN_V;
		case IC_MUL_ASSIGN: return IC_MUL_ASSIGN_V;
		case IC_DIV_ASSIGN: return IC_DIV_ASSIGN_V;
		case IC_REM_ASSIGN_AT: return IC_REM_ASSIGN_AT_V;
		case IC_SHL_ASSIGN_AT: return IC_SHL_ASSIGN_AT_V;
		case IC_SHR_ASSIGN_AT: return IC_SHR_ASSIGN_AT_V;
		case IC_AND_ASSIGN_AT: return IC_AND_ASSIGN_AT_V;
		case IC_XOR_ASSIGN_AT: return IC_XOR_ASSIGN_AT_V;
		case IC_OR_ASSIGN_AT: return IC_OR_ASSIGN_AT_V;
		case IC_ASSIGN_AT: return IC_ASSIGN_AT_V;
		case IC_ADD_ASSIGN_AT: return IC_ADD_ASSIGN_AT_V;
		case IC_SUB_ASSIGN_AT: return IC_SUB_ASSIGN_AT_V;
		case IC_MUL_ASSIGN_AT: return IC_MUL_ASSIGN_AT_V;
		case IC_DIV_ASSIGN_AT: return IC_DIV_ASSIGN_AT_V;
		case IC_POST_INC: return IC_POST_INC_V;
		case IC_POST_DEC: return IC_POST_DEC_V;
		case IC_PRE_INC: return IC_PRE_INC_V;
		case IC_PRE_DEC: return IC_PRE_DEC_V;
		case IC_POST_INC_AT: return IC_POST_INC_AT_V;
		case IC_POST_DEC_AT: return IC_POST_DEC_AT_V;
		case IC_PRE_INC_AT: return IC_PRE_INC_AT_V;
		case IC_PRE_DEC_AT: return IC_PRE_DEC_AT_V;
		case IC_ASSIGN_R: return IC_ASSIGN_R_V;
		case IC_ADD_ASSIGN_R: return IC_ADD_ASSIGN_R_V;
		case IC_SUB_ASSIGN_R: return IC_SUB_ASSIGN_R_V;
		case IC_MUL_ASSIGN_R: return IC_MUL_ASSIGN_R_V;
		case IC_DIV_ASSIGN_R: return IC_DIV_ASSIGN_R_V;
		case IC_ASSIGN_AT_R: return IC_ASSIGN_AT_R_V;
		case IC_ADD_ASSIGN_AT_R: return IC_ADD_ASSIGN_AT_R_V;
		case IC_SUB_ASSIGN_AT_R: return IC_SUB_ASSIGN_AT_R_V;
		case IC_MUL_ASSIGN_AT_R: return IC_MUL_ASSIGN_AT_R_V;
		case IC_DIV_ASSIGN_AT_R: return IC_DIV_ASSIGN_AT_R_V;
		case IC_POST_INC_R: return IC_POST_INC_R_V;
		case IC_POST_DEC_R: return IC_POST_DEC_R_V;
		case IC_PRE_INC_R: return IC_PRE_INC_R_V;
		case IC_PRE_DEC_R: return IC_PRE_DEC_R_V;
		case IC_POST_INC_AT_R: return IC_POST_INC_AT_R_V;
		case IC_POST_DEC_AT_R: return IC_POST_DEC_AT_R_V;
		case IC_PRE_INC_AT_R: return IC_PRE_INC_AT_R_V;
		case IC_PRE_DEC_AT_R: return IC_PRE_DEC_AT_R_V;
		default: return x;
	}
}

static inline bool spec_named(const instruction_t x)
{
	switch (x)
	{
		case IC_GETID:
		case IC_SCANF:
		case IC_PRINTF:
		case IC_PRINT:
		case IC_PRINTID:
		case IC_REM_ASSIGN:
		case IC_SHL_ASSIGN:
		case IC_SHR_ASSIGN:
		case IC_AND_ASSIGN:
		case IC_XOR_ASSIGN:
		case IC_OR_ASSIGN:
		case IC_ASSIGN:
		case IC_ADD_ASSIGN:
		case IC_SUB_ASSIGN:
		case IC_MUL_ASSIGN:
		case IC_DIV_ASSIGN:
		case IC_REM_ASSIGN_AT:
		case IC_SHL_ASSIGN_AT:
		case IC_SHR_ASSIGN_AT:
		case IC_AND_ASSIGN_AT:
		case IC_XOR_ASSIGN_AT:
		case IC_OR_ASSIGN_AT:
		case IC_ASSIGN_AT:
		case IC_ADD_ASSIGN_AT:
		case IC_SUB_ASSIGN_AT:
		case IC_MUL_ASSIGN_AT:
		case IC_DIV_ASSIGN_AT:
		case IC_REM:
		case IC_SHL:
		case IC_SHR:
		case IC_AND:
		case IC_XOR:
		case IC_OR:
		case IC_LOG_AND:
		case IC_LOG_OR:
		case IC_EQ:
		case IC_NE:
		case IC_LT:
		case IC_GT:
		case IC_LE:
		case IC_GE:
		case IC_ADD:
		case IC_SUB:
		case IC_MUL:
		case IC_DIV:
		case IC_POST_INC:
		case IC_POST_DEC:
		case IC_PRE_INC:
		case IC_PRE_DEC:
		case IC_POST_INC_AT:
		case IC_POST_DEC_AT:
		case IC_PRE_INC_AT:
		case IC_PRE_DEC_AT:
		case IC_UNMINUS:
		case IC_NOT:
		case IC_LOG_NOT:
		case IC_ASSIGN_R:
		case IC_ADD_ASSIGN_R:
		case IC_SUB_ASSIGN_R:
		case IC_MUL_ASSIGN_R:
		case IC_DIV_ASSIGN_R:
		case IC_ASSIGN_AT_R:
		case IC_ADD_ASSIGN_AT_R:
		case IC_SUB_ASSIGN_AT_R:
		case IC_MUL_ASSIGN_AT_R:
		case IC_DIV_ASSIGN_AT_R:
		case IC_EQ_R:
		case IC_NE_R:
		case IC_LT_R:
		case IC_GT_R:
		case IC_LE_R:
		case IC_GE_R:
		case IC_ADD_R:
		case IC_SUB_R:
		case IC_MUL_R:
		case IC_DIV_R:
		case IC_POST_INC_R:
		case IC_POST_DEC_R:
		case IC_PRE_INC_R:
		case IC_PRE_DEC_R:
		case IC_POST_INC_AT_R:
		case IC_POST_DEC_AT_R:
		case IC_PRE_INC_AT_R:
		case IC_PRE_DEC_AT_R:
		case IC_UNMINUS_R:
		case IC_REM_ASSIGN_V:
		case IC_SHL_ASSIGN_V:
		case IC_SHR_ASSIGN_V:
		case IC_AND_ASSIGN_V:
		case IC_XOR_ASSIGN_V:
		case IC_OR_ASSIGN_V:
		case IC_ASSIGN_V:
		case IC_ADD_ASSIGN_V:
		case IC_SUB_ASSIGN_V:
		case IC_MUL_ASSIGN_V:
		case IC_DIV_ASSIGN_V:
		case IC_REM_ASSIGN_AT_V:
		case IC_SHL_ASSIGN_AT_V:
		case IC_SHR_ASSIGN_AT_V:
		case IC_AND_ASSIGN_AT_V:
		case IC_XOR_ASSIGN_AT_V:
		case IC_OR_ASSIGN_AT_V:
		case IC_ASSIGN_AT_V:
		case IC_ADD_ASSIGN_AT_V:
		case IC_SUB_ASSIGN_AT_V:
		case IC_MUL_ASSIGN_AT_V:
		case IC_DIV_ASSIGN_AT_V:
		case IC_ASSIGN_R_V:
		case IC_ADD_ASSIGN_R_V:
		case IC_SUB_ASSIGN_R_V:
		case IC_MUL_ASSIGN_R_V:
		case IC_DIV_ASSIGN_R_V:
		case IC_ASSIGN_AT_R_V:
		case IC_ADD_ASSIGN_AT_R_V:
		case IC_SUB_ASSIGN_AT_R_V:
		case IC_MUL_ASSIGN_AT_R_V:
		case IC_DIV_ASSIGN_AT_R_V:
		case IC_POST_INC_V:
		case IC_POST_DEC_V:
		case IC_PRE_INC_V:
		case IC_PRE_DEC_V:
		case IC_POST_INC_AT_V:
		case IC_POST_DEC_AT_V:
		case IC_PRE_INC_AT_V:
		case IC_PRE_DEC_AT_V:
		case IC_POST_INC_R_V:
		case IC_POST_DEC_R_V:
		case IC_PRE_INC_R_V:
		case IC_PRE_DEC_R_V:
		case IC_POST_INC_AT_R_V:
		case IC_POST_DEC_AT_R_V:
		case IC_PRE_INC_AT_R_V:
		case IC_PRE_DEC_AT_R_V:
		case IC_NOP:
		case IC_DEFARR:
		case IC_LI:
		case IC_LID:
		case IC_LOAD:
		case IC_LOADD:
		case IC_LAT:
		case IC_LATD:
		case IC_STOP:
		case IC_SELECT:
		case IC_FUNC_BEG:
		case IC_LA:
		case IC_CALL1:
		case IC_CALL2:
		case IC_RETURN_VAL:
		case IC_RETURN_VOID:
		case IC_B:
		case IC_BE0:
		case IC_BNE0:
		case IC_SLICE:
		case IC_WIDEN:
		case IC_WIDEN1:
		case IC_DUPLICATE:
		case IC_STRING_INIT:
		case IC_ARR_INIT:
		case IC_STRUCT_WITH_ARR:
		case IC_BEG_INIT:
		case IC_ROWING:
		case IC_ROWING_D:
		case IC_COPY00:
		case IC_COPY01:
		case IC_COPY10:
		case IC_COPY11:
		case IC_COPY0ST:
		case IC_COPY1ST:
		case IC_COPY0ST_ASSIGN:
		case IC_COPY1ST_ASSIGN:
		case IC_COPYST:
		case IC_ABS:
		case IC_SQRT:
		case IC_EXP:
		case IC_SIN:
		case IC_COS:
		case IC_LOG:
		case IC_LOG10:
		case IC_ASIN:
		case IC_RAND:
		case IC_ROUND:
		case IC_STRCPY:
		case IC_STRNCPY:
		case IC_STRCAT:
		case IC_STRNCAT:
		case IC_STRCMP:
		case IC_STRNCMP:
		case IC_STRSTR:
		case IC_STRLEN:
		case IC_MSG_SEND:
		case IC_MSG_RECEIVE:
		case IC_JOIN:
		case IC_SLEEP:
		case IC_SEM_CREATE:
		case IC_SEM_WAIT:
		case IC_SEM_POST:
		case IC_CREATE:
		case IC_INIT:
		case IC_DESTROY:
		case IC_EXIT:
		case IC_GETNUM:
		case IC_UPB:
		case IC_ROBOT_SEND_INT:
		case IC_ROBOT_SEND_FLOAT:
		case IC_ROBOT_SEND_STRING:
		case IC_ROBOT_RECEIVE_INT:
		case IC_ROBOT_RECEIVE_FLOAT:
		case IC_ROBOT_RECEIVE_STRING:
		case IC_ASSERT:
		case IC_ABSI:
		case IC_FOPEN:
		case IC_FCLOSE:
		case IC_FGETC:
		case IC_FPUTC:
			return true;
		default:
			return false;
	}
}

unary_t token_to_unary(const token_t token)
	ENSURES(spec_unary(token) >= 0 ? (int)RET == spec_unary(token) && errors_reported == OLD(errors_reported) : errors_reported == OLD(errors_reported) + 1)
	ASSIGNS(errors_reported);
binary_t token_to_binary(const token_t token)
	ENSURES(spec_binary(token) >= 0 ? (int)RET == spec_binary(token) && errors_reported == OLD(errors_reported) : errors_reported == OLD(errors_reported) + 1)
	ASSIGNS(errors_reported);
precedence_t get_operator_precedence(const token_t token)
	ENSURES((int)RET == spec_level(token))
	ASSIGNS();
bool operation_is_assignment(const binary_t op)
	ENSURES(RET == spec_assignment(op))
	ASSIGNS();
instruction_t builtin_to_instruction(const builtin_t func)
	ENSURES(spec_builtin_code(func) >= 0 ? (int)RET == spec_builtin_code(func) && errors_reported == OLD(errors_reported)
		: RET == IC_NOP && errors_reported == OLD(errors_reported) + 1)
	ASSIGNS(errors_reported);
instruction_t unary_to_instruction(const unary_t op)
	ENSURES(RET == spec_unary_code(op))
	ASSIGNS();
instruction_t binary_to_instruction(const binary_t op)
	ENSURES(RET == spec_binary_code(op))
	ASSIGNS();
instruction_t instruction_to_address_ver(const instruction_t instruction)
	REQUIRES(spec_named(instruction))
	ENSURES(RET == spec_address(instruction))
	ASSIGNS();
instruction_t instruction_to_floating_ver(const instruction_t instruction)
	REQUIRES(spec_named(instruction))
	ENSURES(RET == spec_floating(instruction))
	ASSIGNS();
instruction_t instruction_to_void_ver(const instruction_t instruction)
	REQUIRES(spec_named(instruction))
	ENSURES(RET == spec_void(instruction))
	ASSIGNS();

/* Native runs meet the interesting values often enough. */
static int value(void)
{
	switch (vp_range(0, 4))
	{
		case 0:
			return (int)vp_range(0, 400) - 100;
		case 1:
			return (int)vp_range(0, 100) + SHRT_MIN;
		case 2:
			return (int)vp_range(9000, 9700);
		default:
			return (int)(int32_t)vp_u32();
	}
}

#define DOMAIN(entry, x) DOMAIN_##entry(x)
#define DOMAIN_h_unary(x) true
#define DOMAIN_h_binary(x) true
#define DOMAIN_h_level(x) true
#define DOMAIN_h_assignment(x) true
#define DOMAIN_h_builtin_code(x) true
#define DOMAIN_h_unary_code(x) true
#define DOMAIN_h_binary_code(x) true
#define DOMAIN_h_address(x) spec_named(x)
#define DOMAIN_h_floating(x) spec_named(x)
#define DOMAIN_h_void(x) spec_named(x)
#define HARNESS(entry, function, argument, good) void entry(void) { const argument x = (argument)value(); vp_assume(DOMAIN(entry, x)); errors_reported = 0; \
	 const int r = (int)function(x); (void)r; vp_check(good, #function); vp_reach(#entry); }

HARNESS(h_unary, token_to_unary, token_t, spec_unary(x) >= 0 ? r == spec_unary(x) && errors_reported == 0 : errors_reported == 1)
HARNESS(h_binary, token_to_binary, token_t, spec_binary(x) >= 0 ? r == spec_binary(x) && errors_reported == 0 : errors_reported == 1)
HARNESS(h_level, get_operator_precedence, token_t, r == spec_level(x))
HARNESS(h_assignment, operation_is_assignment, binary_t, (bool)r == spec_assignment(x))
HARNESS(h_builtin_code, builtin_to_instruction, builtin_t, spec_builtin_code(x) >= 0 ? r == spec_builtin_code(x) && errors_reported == 0 : r == IC_NOP && errors_reported == 1)
HARNESS(h_unary_code, unary_to_instruction, unary_t, r == (int)spec_unary_code(x))
HARNESS(h_binary_code, binary_to_instruction, binary_t, r == (int)spec_binary_code(x))
HARNESS(h_address, instruction_to_address_ver, instruction_t, !spec_named(x) || r == (int)spec_address(x))
HARNESS(h_floating, instruction_to_floating_ver, instruction_t, !spec_named(x) || r == (int)spec_floating(x))
HARNESS(h_void, instruction_to_void_ver, instruction_t, !spec_named(x) || r == (int)spec_void(x))

/* Lemmas over the contracts alone. */
void h_laws(void)
{
	errors_reported = 0;
	const token_t t = (token_t)value();
	const precedence_t level = get_operator_precedence(t);
	if (level > PREC_UNKNOWN && t != TK_QUESTION)
	{
		const binary_t op = token_to_binary(t);
		vp_check(errors_reported == 0, "every token with a precedence is an operator");
		vp_check(operation_is_assignment(op) == (level == PREC_ASSIGNMENT), "assignments are exactly the operators of that level");
		vp_check(op == BIN_COMMA || binary_to_instruction(op) != IC_NOP, "every operator has an instruction");
		const binary_t other = (binary_t)vp_range(0, BIN_COMMA);
		vp_check(other == op || other == BIN_COMMA || binary_to_instruction(other) != binary_to_instruction(op), "no two operators share an instruction");
		const instruction_t code = binary_to_instruction(op);
		vp_check(instruction_to_void_ver(instruction_to_floating_ver(code)) != code || level != PREC_ASSIGNMENT, "every assignment has a version without result");
		vp_check(level != PREC_ASSIGNMENT || instruction_to_address_ver(code) != code, "every assignment has a version by address");
		vp_reach("an operator");
	}
	const instruction_t a = (instruction_t)vp_range(9000, 9060);
	const instruction_t b = (instruction_t)vp_range(9000, 9060);
	vp_assume(spec_named(a) && spec_named(b));
	vp_check(a == b || instruction_to_void_ver(a) != instruction_to_void_ver(b), "versions without result differ");
	vp_reach("laws");
}

/* The codes are an interface to the virtual machine, which is built separately. */
void h_codes(void)
{
	#define CODE(name, number) vp_check((int)(name) == (number), #name);
	CODE(IC_GETID, -27)
	CODE(IC_SCANF, -26)
	CODE(IC_PRINTF, -25)
	CODE(IC_PRINT, -24)
	CODE(IC_PRINTID, -23)
	CODE(IC_REM_ASSIGN, 9001)
	CODE(IC_SHL_ASSIGN, 9002)
	CODE(IC_SHR_ASSIGN, 9003)
	CODE(IC_AND_ASSIGN, 9004)
	CODE(IC_XOR_ASSIGN, 9005)
	CODE(IC_OR_ASSIGN, 9006)
	CODE(IC_ASSIGN, 9007)
	CODE(IC_ADD_ASSIGN, 9008)
	CODE(IC_SUB_ASSIGN, 9009)
	CODE(IC_MUL_ASSIGN, 9010)
	CODE(IC_DIV_ASSIGN, 9011)
	CODE(IC_REM_ASSIGN_AT, 9012)
	CODE(IC_SHL_ASSIGN_AT, 9013)
	CODE(IC_SHR_ASSIGN_AT, 9014)
	CODE(IC_AND_ASSIGN_AT, 9015)
	CODE(IC_XOR_ASSIGN_AT, 9016)
	CODE(IC_OR_ASSIGN_AT, 9017)
	CODE(IC_ASSIGN_AT, 9018)
	CODE(IC_ADD_ASSIGN_AT, 9019)
	CODE(IC_SUB_ASSIGN_AT, 9020)
	CODE(IC_MUL_ASSIGN_AT, 9021)
	CODE(IC_DIV_ASSIGN_AT, 9022)
	CODE(IC_REM, 9023)
	CODE(IC_SHL, 9024)
	CODE(IC_SHR, 9025)
	CODE(IC_AND, 9026)
	CODE(IC_XOR, 9027)
	CODE(IC_OR, 9028)
	CODE(IC_LOG_AND, 9029)
	CODE(IC_LOG_OR, 9030)
	CODE(IC_EQ, 9031)
	CODE(IC_NE, 9032)
	CODE(IC_LT, 9033)
	CODE(IC_GT, 9034)
	CODE(IC_LE, 9035)
	CODE(IC_GE, 9036)
	CODE(IC_ADD, 9037)
	CODE(IC_SUB, 9038)
	CODE(IC_MUL, 9039)
	CODE(IC_DIV, 9040)
	CODE(IC_POST_INC, 9041)
	CODE(IC_POST_DEC, 9042)
	CODE(IC_PRE_INC, 9043)
	CODE(IC_PRE_DEC, 9044)
	CODE(IC_POST_INC_AT, 9045)
	CODE(IC_POST_DEC_AT, 9046)
	CODE(IC_PRE_INC_AT, 9047)
	CODE(IC_PRE_DEC_AT, 9048)
	CODE(IC_UNMINUS, 9049)
	CODE(IC_NOT, 9052)
	CODE(IC_LOG_NOT, 9053)
	CODE(IC_ASSIGN_R, 9057)
	CODE(IC_ADD_ASSIGN_R, 9058)
	CODE(IC_SUB_ASSIGN_R, 9059)
	CODE(IC_MUL_ASSIGN_R, 9060)
	CODE(IC_DIV_ASSIGN_R, 9061)
	CODE(IC_ASSIGN_AT_R, 9068)
	CODE(IC_ADD_ASSIGN_AT_R, 9069)
	CODE(IC_SUB_ASSIGN_AT_R, 9070)
	CODE(IC_MUL_ASSIGN_AT_R, 9071)
	CODE(IC_DIV_ASSIGN_AT_R, 9072)
	CODE(IC_EQ_R, 9081)
	CODE(IC_NE_R, 9082)
	CODE(IC_LT_R, 9083)
	CODE(IC_GT_R, 9084)
	CODE(IC_LE_R, 9085)
	CODE(IC_GE_R, 9086)
	CODE(IC_ADD_R, 9087)
	CODE(IC_SUB_R, 9088)
	CODE(IC_MUL_R, 9089)
	CODE(IC_DIV_R, 9090)
	CODE(IC_POST_INC_R, 9091)
	CODE(IC_POST_DEC_R, 9092)
	CODE(IC_PRE_INC_R, 9093)
	CODE(IC_PRE_DEC_R, 9094)
	CODE(IC_POST_INC_AT_R, 9095)
	CODE(IC_POST_DEC_AT_R, 9096)
	CODE(IC_PRE_INC_AT_R, 9097)
	CODE(IC_PRE_DEC_AT_R, 9098)
	CODE(IC_UNMINUS_R, 9099)
	CODE(IC_REM_ASSIGN_V, 9201)
	CODE(IC_SHL_ASSIGN_V, 9202)
	CODE(IC_SHR_ASSIGN_V, 9203)
	CODE(IC_AND_ASSIGN_V, 9204)
	CODE(IC_XOR_ASSIGN_V, 9205)
	CODE(IC_OR_ASSIGN_V, 9206)
	CODE(IC_ASSIGN_V, 9207)
	CODE(IC_ADD_ASSIGN_V, 9208)
	CODE(IC_SUB_ASSIGN_V, 9209)
	CODE(IC_MUL_ASSIGN_V, 9210)
	CODE(IC_DIV_ASSIGN_V, 9211)
	CODE(IC_REM_ASSIGN_AT_V, 9212)
	CODE(IC_SHL_ASSIGN_AT_V, 9213)
	CODE(IC_SHR_ASSIGN_AT_V, 9214)
	CODE(IC_AND_ASSIGN_AT_V, 9215)
	CODE(IC_XOR_ASSIGN_AT_V, 9216)
	CODE(IC_OR_ASSIGN_AT_V, 9217)
	CODE(IC_ASSIGN_AT_V, 9218)
	CODE(IC_ADD_ASSIGN_AT_V, 9219)
	CODE(IC_SUB_ASSIGN_AT_V, 9220)
	CODE(IC_MUL_ASSIGN_AT_V, 9221)
	CODE(IC_DIV_ASSIGN_AT_V, 9222)
	CODE(IC_ASSIGN_R_V, 9257)
	CODE(IC_ADD_ASSIGN_R_V, 9258)
	CODE(IC_SUB_ASSIGN_R_V, 9259)
	CODE(IC_MUL_ASSIGN_R_V, 9260)
	CODE(IC_DIV_ASSIGN_R_V, 9261)
	CODE(IC_ASSIGN_AT_R_V, 9268)
	CODE(IC_ADD_ASSIGN_AT_R_V, 9269)
	CODE(IC_SUB_ASSIGN_AT_R_V, 9270)
	CODE(IC_MUL_ASSIGN_AT_R_V, 9271)
	CODE(IC_DIV_ASSIGN_AT_R_V, 9272)
	CODE(IC_POST_INC_V, 9241)
	CODE(IC_POST_DEC_V, 9242)
	CODE(IC_PRE_INC_V, 9243)
	CODE(IC_PRE_DEC_V, 9244)
	CODE(IC_POST_INC_AT_V, 9245)
	CODE(IC_POST_DEC_AT_V, 9246)
	CODE(IC_PRE_INC_AT_V, 9247)
	CODE(IC_PRE_DEC_AT_V, 9248)
	CODE(IC_POST_INC_R_V, 9291)
	CODE(IC_POST_DEC_R_V, 9292)
	CODE(IC_PRE_INC_R_V, 9293)
	CODE(IC_PRE_DEC_R_V, 9294)
	CODE(IC_POST_INC_AT_R_V, 9295)
	CODE(IC_POST_DEC_AT_R_V, 9296)
	CODE(IC_PRE_INC_AT_R_V, 9297)
	CODE(IC_PRE_DEC_AT_R_V, 9298)
	CODE(IC_NOP, 9453)
	CODE(IC_DEFARR, 9454)
	CODE(IC_LI, 9455)
	CODE(IC_LID, 9456)
	CODE(IC_LOAD, 9457)
	CODE(IC_LOADD, 9458)
	CODE(IC_LAT, 9459)
	CODE(IC_LATD, 9460)
	CODE(IC_STOP, 9461)
	CODE(IC_SELECT, 9462)
	CODE(IC_FUNC_BEG, 9463)
	CODE(IC_LA, 9464)
	CODE(IC_CALL1, 9465)
	CODE(IC_CALL2, 9466)
	CODE(IC_RETURN_VAL, 9467)
	CODE(IC_RETURN_VOID, 9468)
	CODE(IC_B, 9469)
	CODE(IC_BE0, 9470)
	CODE(IC_BNE0, 9471)
	CODE(IC_SLICE, 9472)
	CODE(IC_WIDEN, 9473)
	CODE(IC_WIDEN1, 9474)
	CODE(IC_DUPLICATE, 9475)
	CODE(IC_STRING_INIT, 9476)
	CODE(IC_ARR_INIT, 9477)
	CODE(IC_STRUCT_WITH_ARR, 9478)
	CODE(IC_BEG_INIT, 9481)
	CODE(IC_ROWING, 9482)
	CODE(IC_ROWING_D, 9483)
	CODE(IC_COPY00, 9300)
	CODE(IC_COPY01, 9301)
	CODE(IC_COPY10, 9302)
	CODE(IC_COPY11, 9303)
	CODE(IC_COPY0ST, 9304)
	CODE(IC_COPY1ST, 9305)
	CODE(IC_COPY0ST_ASSIGN, 9306)
	CODE(IC_COPY1ST_ASSIGN, 9307)
	CODE(IC_COPYST, 9308)
	CODE(IC_ABS, 9534)
	CODE(IC_SQRT, 9535)
	CODE(IC_EXP, 9536)
	CODE(IC_SIN, 9537)
	CODE(IC_COS, 9538)
	CODE(IC_LOG, 9539)
	CODE(IC_LOG10, 9540)
	CODE(IC_ASIN, 9541)
	CODE(IC_RAND, 9542)
	CODE(IC_ROUND, 9543)
	CODE(IC_STRCPY, 9544)
	CODE(IC_STRNCPY, 9545)
	CODE(IC_STRCAT, 9546)
	CODE(IC_STRNCAT, 9547)
	CODE(IC_STRCMP, 9548)
	CODE(IC_STRNCMP, 9549)
	CODE(IC_STRSTR, 9550)
	CODE(IC_STRLEN, 9551)
	CODE(IC_MSG_SEND, 9552)
	CODE(IC_MSG_RECEIVE, 9553)
	CODE(IC_JOIN, 9554)
	CODE(IC_SLEEP, 9555)
	CODE(IC_SEM_CREATE, 9556)
	CODE(IC_SEM_WAIT, 9557)
	CODE(IC_SEM_POST, 9558)
	CODE(IC_CREATE, 9559)
	CODE(IC_INIT, 9560)
	CODE(IC_DESTROY, 9561)
	CODE(IC_EXIT, 9562)
	CODE(IC_GETNUM, 9563)
	CODE(IC_UPB, 9588)
	CODE(IC_ROBOT_SEND_INT, 9589)
	CODE(IC_ROBOT_SEND_FLOAT, 9590)
	CODE(IC_ROBOT_SEND_STRING, 9591)
	CODE(IC_ROBOT_RECEIVE_INT, 9592)
	CODE(IC_ROBOT_RECEIVE_FLOAT, 9593)
	CODE(IC_ROBOT_RECEIVE_STRING, 9594)
	CODE(IC_ASSERT, 9595)
	CODE(IC_ABSI, 9651)
	CODE(IC_FOPEN, 9652)
	CODE(IC_FCLOSE, 9653)
	CODE(IC_FGETC, 9654)
	CODE(IC_FPUTC, 9655)
	CODE(BI_ASSERT, 2)
	CODE(BI_ASIN, 6)
	CODE(BI_COS, 10)
	CODE(BI_SIN, 14)
	CODE(BI_EXP, 18)
	CODE(BI_LOG, 22)
	CODE(BI_LOG10, 26)
	CODE(BI_SQRT, 30)
	CODE(BI_RAND, 34)
	CODE(BI_ROUND, 38)
	CODE(BI_STRNCPY, 42)
	CODE(BI_STRCAT, 46)
	CODE(BI_STRCMP, 50)
	CODE(BI_STRNCMP, 54)
	CODE(BI_STRSTR, 58)
	CODE(BI_ROBOT_SEND_INT, 62)
	CODE(BI_ROBOT_SEND_FLOAT, 66)
	CODE(BI_ROBOT_SEND_STRING, 70)
	CODE(BI_ROBOT_RECEIVE_INT, 74)
	CODE(BI_ROBOT_RECEIVE_FLOAT, 78)
	CODE(BI_ROBOT_RECEIVE_STRING, 82)
	CODE(BI_T_CREATE, 86)
	CODE(BI_T_GETNUM, 90)
	CODE(BI_T_SLEEP, 94)
	CODE(BI_T_JOIN, 98)
	CODE(BI_T_EXIT, 102)
	CODE(BI_T_INIT, 106)
	CODE(BI_T_DESTROY, 110)
	CODE(BI_SEM_CREATE, 114)
	CODE(BI_SEM_WAIT, 118)
	CODE(BI_SEM_POST, 122)
	CODE(BI_MSG_SEND, 126)
	CODE(BI_MSG_RECEIVE, 130)
	CODE(BI_FOPEN, 134)
	CODE(BI_FGETC, 138)
	CODE(BI_FPUTC, 142)
	CODE(BI_FCLOSE, 146)
	CODE(BI_EXIT, 150)
	CODE(BI_PRINTF, 154)
	CODE(BI_PRINT, 158)
	CODE(BI_PRINTID, 162)
	CODE(BI_GETID, 166)
	CODE(BEGIN_USER_FUNC, 170)
	vp_reach("codes");
}
