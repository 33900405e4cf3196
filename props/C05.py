LEVEL = "proof"
S = ["libs/utils/vector.c"]
H = "c05_vector.c"


def one(entry, function, **kw):
    return Group(kw.pop("name", function), H, entry, S, enforce=[function], unwind=7, arrays=True, **kw)


GROUPS = [one("h_add", "vector_add"), one("h_add_double", "vector_add_double"), one("h_add_int64", "vector_add_int64"),
          one("h_increase", "vector_increase"), one("h_resize", "vector_resize"),
          one("h_add", "vector_add", name="vector_add_out_of_memory", alloc_fail=True, defs=["ALLOC_FAILS"]),
          one("h_resize", "vector_resize", name="vector_resize_out_of_memory", alloc_fail=True, defs=["ALLOC_FAILS"])]
for f in ("create", "set", "set_double", "set_int64", "get", "get_double", "get_int64", "remove", "remove_double",
          "remove_int64", "size", "is_correct", "clear"):
    GROUPS.append(one("h_" + f, "vector_" + f))
EXPLANATION = ("Vectors of every length up to 2^40 items with arbitrary contents; one arbitrary observed position "
               "stands for all positions (skolemised universal quantifier). No loops in the verified code.")
ASSUMPTIONS = ["item_store/restore_double and _int64 behave by their contracts (proved in C04), used here in executable form (harness/item_model.h)"]
