LEVEL = "other"
S = ["libs/utils/hash.c"]
H = "c07_hash.c"
F = ["hash_create", "hash_add", "hash_get_index", "hash_get", "hash_get_int64", "hash_get_amount", "hash_get_key", "hash_set",
     "hash_set_int64", "hash_remove", "hash_is_correct", "hash_clear"]
K = dict(unwind=6, unwindset=["model_resize.0:20"])
NAMES = ["add", "set", "remove"]
GROUPS = []
for seq in [(0, a, b) for a in range(3) for b in range(3)]:
    GROUPS.append(Group("history_" + "_".join(NAMES[o] for o in seq), H, "h_history", S, kind="bounded", functions=F,
                        defs=["KEYS=2", "MODEL_BUCKETS=2", "MODEL_CAP=%d" % (256 + 5 * seq.count(0)),
                              "SEQUENCE=" + "".join("step(%d);" % o for o in seq)],
                        bound="this history over 2 arbitrary keys, rows of at most 2 values", **K))
GROUPS += [
    Group("double", H, "h_double", S, functions=["hash_set_double", "hash_get_double"],
          defs=["KEYS=1", "OPS=1", "MODEL_BUCKETS=1", "MODEL_CAP=261"], **K),
    Group("broken", H, "h_broken", S, functions=F, defs=["MODEL_BUCKETS=1", "MODEL_CAP=261"], **K),
]
ASSUMPTIONS = ["vector behaves by its contracts (proved in C05), used here in executable form (harness/vector_model.h)"]
