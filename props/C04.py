LEVEL = "proof"
S = ["libs/utils/item.c"]
H = "c04_item.c"
GROUPS = [
    Group("item_get_min", H, "h_range", S, enforce=["item_get_min"], unwind=10, defs=["RANGE_FUNCTION=item_get_min", "RANGE_SPEC=spec_min"]),
    Group("item_get_max", H, "h_range", S, enforce=["item_get_max"], unwind=10, defs=["RANGE_FUNCTION=item_get_max", "RANGE_SPEC=spec_max"]),
]
for f, e in (("item_check_var", "h_check"), ("item_store_int64_for_target", "h_store_int64"),
             ("item_store_double_for_target", "h_store_double"), ("item_restore_int64_for_target", "h_load_int64"),
             ("item_restore_double_for_target", "h_load_double")):
    GROUPS.append(Group(f, H, e, S, enforce=[f], unwind=11, defs=["RANGE_FUNCTION=item_get_max", "RANGE_SPEC=spec_max"]))
D = ["RANGE_FUNCTION=item_get_max", "RANGE_SPEC=spec_max"]
GROUPS += [
    Group("host_int64", H, "h_round_int64", S, unwind=10, defs=D, functions=["item_store_int64", "item_restore_int64"]),
    Group("host_double", H, "h_round_double", S, unwind=10, defs=D, functions=["item_store_double", "item_restore_double"]),
    Group("item_get_status", H, "h_status", S, unwind=12, defs=D + ["FLAGS=3"], functions=["item_get_status"], kind="bounded",
          bound="at most 3 flags, each one of the 8 width flags or 2 near misses"),
]
ASSUMPTIONS = ["ws_is_correct and ws_get_flag are modelled as a list of flags (their own behaviour is property C19)"]
EXPLANATION = "All 8 target types and invalid ones, all 2^64 values; loops run at most 8 times and are unwound completely."
