LEVEL = "other"
H = "c09_strings.c"
F = ["strings_create", "strings_get", "strings_get_length", "strings_remove", "strings_size", "strings_is_correct", "strings_clear"]
ADDS = ["strings_add", "strings_add_by_utf8", "strings_add_by_vector"]
K = dict(unwind=11, unwindset=["strings_increase:3"], included=["libs/utils/strings.c"])
GROUPS = []
NAMES = ["add", "utf8", "vector", "remove"]
for seq in [(0, 1, 2), (2, 0, 1), (1, 3, 0), (0, 0, 3), (3, 2, 2)]:
    GROUPS.append(Group("history_" + "_".join(NAMES[o] for o in seq), H, "h_history", kind="bounded", functions=F + [ADDS[o] for o in set(seq) if o < 3],
                        defs=["SEQUENCE=" + "".join("step(%d);" % o for o in seq)], bound="this history over texts of at most 2 characters", **K))
for o in range(3):
    for fail in (0, 1):
        GROUPS.append(Group("growth_" + NAMES[o] + ("_out_of_memory" if fail else ""), H, "h_history", kind="bounded", functions=[ADDS[o]],
                            alloc_fail=bool(fail),
                            defs=["SHORT", "ROOM=1", "SEQUENCE=step(0);step(%d);" % o] + ["ALLOC_FAILS"] * fail,
                            bound="2 texts of at most 2 characters into 7 octets of storage", **K))
GROUPS.append(Group("refused", H, "h_refused", functions=F + ADDS, **K))
ASSUMPTIONS = ["utf8_size, utf8_to_string and vector_get behave by their contracts (C01, C05), used here in executable form",
               "storage is typed in the proof (malloc and realloc hand out typed arrays of exactly the requested size)"]
