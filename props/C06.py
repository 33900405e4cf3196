LEVEL = "proof"
S = ["libs/utils/stack.c", "libs/utils/vector.c"]
H = "c06_stack.c"
GROUPS = [Group("stack_" + f, H, "h_" + f, S, enforce=["stack_" + f], unwind=7, arrays=True) for f in
          ("peek", "peek_double", "peek_int64", "pop", "pop_double", "pop_int64", "reset", "size",
           "is_correct")]
GROUPS += [Group("push_pop" + t, H, "h_push" + t, S, unwind=7, arrays=True, defs=["ROUND"], functions=["stack_push" + t, "stack_peek" + t, "stack_pop" + t])
           for t in ("", "_double", "_int64")]
GROUPS.append(Group("stack_life", H, "h_life", S, unwind=7, arrays=True, functions=["stack_create", "stack_clear"]))
EXPLANATION = ("Stacks of every depth up to 2^40 with arbitrary contents; one arbitrary observed position stands for all "
               "positions below the top.")
ASSUMPTIONS = ["item_store/restore_double and _int64 behave by their contracts (proved in C04), used here in executable form (harness/item_model.h)"]
