LEVEL = "proof"
S = ["libs/utils/utf8.c"]
GROUPS = []
for f, e, d in (("utf8_from_cp866", "h_from_cp866", []), ("utf8_from_cp1251", "h_from_cp1251", []),
                ("utf8_to_cp866", "h_to_cp866", ["PAGE=spec_cp866"]), ("utf8_to_cp1251", "h_to_cp1251", ["PAGE=spec_cp1251"]),
                ("utf8_transliteration", "h_translit", [])):
    GROUPS.append(Group(f, "c03_codepages.c", e, S, enforce=[f], unwind=7, defs=d, rounds=100000))
    GROUPS.append(Group(f + "_text", "c03_codepages.c", e, S, enforce=[f], unwind=14, defs=d + ["LENGTH=%d" % (2 if "trans" in f else 3)],
                        kind="bounded", bound="texts of at most %d characters" % (2 if "trans" in f else 3), rounds=100000))
EXPLANATION = ("Character by character for every octet and every code point up to U+10FFFF (complete: a text of one character "
               "runs the loop once); concatenation bounded to 2 or 3 characters.")
