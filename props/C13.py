LEVEL = "proof"
H = "c13_operators.c"
O, I = "libs/compiler/operations.c", "libs/compiler/instructions.c"
F = [("token_to_unary", "h_unary", O), ("token_to_binary", "h_binary", O), ("get_operator_precedence", "h_level", O), ("operation_is_assignment", "h_assignment", O),
     ("builtin_to_instruction", "h_builtin_code", I), ("unary_to_instruction", "h_unary_code", I), ("binary_to_instruction", "h_binary_code", I),
     ("instruction_to_address_ver", "h_address", I), ("instruction_to_floating_ver", "h_floating", I), ("instruction_to_void_ver", "h_void", I)]
GROUPS = [Group(f, H, e, [O, I], enforce=[f], unwind=2) for f, e, s in F]
GROUPS.append(Group("operator_laws", H, "h_laws", [O, I], replace=[f for f, e, s in F], unwind=2))
GROUPS.append(Group("instruction_codes", H, "h_codes", [O, I], unwind=2, dfcc=False, functions=["instruction_t", "builtin_t"]))
EXPLANATION = "Loop-free functions over all 2^32 argument values against tables written from the names of tokens, operators and instructions; laws proved from the contracts alone."
