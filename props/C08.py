LEVEL = "other"
S = ["libs/utils/utf8.c"]
H = "c08_map.c"
F = ["map_create", "map_reserve", "map_add", "map_set", "map_set_by_index", "map_get", "map_get_index", "map_get_by_index", "map_to_string",
     "map_last_read", "map_is_correct", "map_clear"]
K = dict(unwind=4, unwindset=["map_create.0:4", "strcmp.0:4", "map_add_key_symbol:1"], included=["libs/utils/map.c"])
NAMES = ["add", "reserve", "set", "set_by_index"]
GROUPS = []
for form, suffix in enumerate(["", "_by_utf8", "_by_io"]):
    for seq in [(0, 0), (0, 1), (0, 2), (0, 3), (1, 2)]:
        if form and seq[1] == 3:
            continue
        GROUPS.append(Group("history_" + "_".join(NAMES[o] for o in seq) + suffix, H, "h_history", S, kind="bounded",
                            functions=[f + suffix if f in ("map_reserve", "map_add", "map_set", "map_get", "map_get_index") else f for f in F],
                            defs=["FORM=%d" % form, "ONE_OCTET", "SIZES=2", "SEQUENCE=" + "".join("step(%d);" % o for o in seq)],
                            bound="this history over 2 arbitrary keys of at most 2 characters", **K))
    if form < 2: GROUPS.append(Group("growth" + suffix, H, "h_growth", S, kind="bounded", functions=["map_add" + suffix], defs=["KEYS=1", "FORM=%d" % form],
                        bound="keys of at most 2 characters, 10 octets of storage",
                        unwind=12, unwindset=["map_create.0:5", "strcmp.0:7", "map_add_key_symbol:2", "map_get_hash.0:3"], included=["libs/utils/map.c"]))
for n, seq in enumerate([(0, 0, 0), (1, 0, 2)]):
    GROUPS.append(Group("chain_%d" % n, H, "h_history", S, kind="bounded", functions=F, defs=["KEYS=3", "BUCKETS=1", "ROOM=1", "ONE_OCTET", "SIZES=2,1,2",
                        "SEQUENCE=" + "".join("step(%d);" % o for o in seq)],
                        bound="this history over 3 arbitrary colliding keys of at most 2 characters", **K))
GROUPS.append(Group("refused", H, "h_refused", S, functions=F, defs=["KEYS=1"], **K))
ASSUMPTIONS = ["reading a key from an input yields its characters one by one (uni_scan_char and in_is_correct are stand-ins in the proof; the native runs use the real input)"]
