LEVEL = "proof"
S = ["libs/utils/utf8.c"]
H = "c01_utf8.c"
GROUPS = [
    Group("utf8_size", H, "h_size", S, enforce=["utf8_size"], unwind=6),
    Group("utf8_symbol_size", H, "h_symbol_size", S, enforce=["utf8_symbol_size"], unwind=6),
    Group("utf8_to_string", H, "h_to_string", S, enforce=["utf8_to_string"], unwind=6),
    Group("utf8_convert", H, "h_convert", S, enforce=["utf8_convert"], unwind=6),
    Group("utf8_convert_any", H, "h_convert_any", S, enforce=["utf8_convert"], unwind=6),
    Group("round_trip", H, "h_round_trip", S, unwind=6,
          replace=["utf8_to_string", "utf8_convert", "utf8_symbol_size", "utf8_size"],
          functions=["utf8_to_string", "utf8_convert", "utf8_symbol_size", "utf8_size"]),
    Group("utf8_to_first_byte", H, "h_first_byte", S, enforce=["utf8_to_first_byte"], recursive=True, unwind=6),
]
EXPLANATION = ("Loops and recursion of the codec are bounded by the four octets of a character and are unwound "
               "completely with unwinding assertions, so each group is a proof over all 2^32 inputs.")
