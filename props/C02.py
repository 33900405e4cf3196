LEVEL = "proof"
S = ["libs/utils/utf8.c"]
F = ["utf8_to_upper", "utf8_to_number", "utf8_is_russian", "utf8_is_letter", "utf8_is_digit", "utf8_is_hexa_digit", "utf8_is_power"]
E = ["h_upper", "h_number", "h_russian", "h_letter", "h_digit", "h_hexa", "h_power"]
GROUPS = [Group(f, "c02_chars.c", e, S, enforce=[f]) for f, e in zip(F, E)]
GROUPS.append(Group("character_laws", "c02_chars.c", "h_laws", S, replace=F))
EXPLANATION = "Loop-free functions over all 2^32 characters; laws proved from the contracts alone."
