LEVEL = "other"
H = "c11_lexer.c"
S = ["libs/compiler/lexer.c", "libs/compiler/token.c", "libs/utils/utf8.c"]
V = ["libs/utils/vector.c", "libs/utils/item.c"]
def g(name, n, unwind, functions, defs=(), entry="h_lex", bound=None, **k):
    return Group(name, H, entry, S, native_only_sources=V, kind="bounded", unwind=unwind, unwindset=["ref_punctuator:47", "ten:24", "pow:24", "h_lex:120", "h_name:40", "h_texts:40"],
                 defs=["N=%d" % n] + list(defs), functions=functions, bound=bound or "%d characters" % n, native_extra=name == "character_literal", **k)
GROUPS = [
    g("character_literal", 4, 6, ["lex", "token_char_literal", "token_get_char_value"], ["FIRSTS=\"'\"", "NO_NUMBERS"]),
    g("string_literal", 5, 7, ["lex", "token_string_literal", "token_get_string_num"], ['FIRSTS="\\""', "NO_NUMBERS"]),
    g("integer_literal", 5, 7, ["lex", "token_int_literal", "token_get_int_value"], ['FIRSTS="05"', "SHORTEST=4", "NO_FRACTIONS"]),
    g("long_hexadecimal", 18, 20, ["lex"], ['FIRSTS="0"', "SHORTEST=18", "NO_FRACTIONS", "PREPARE=txt[1]=120;digits(2,16)", "ASSUMING=want.kind==TK_INT_LITERAL"],
      bound="16 hexadecimal digits"),
]
TEXTS = ["2e19;", "12e17;", "9e18;", "1152921504606846975e1;", "1152921504606846976e1;", "115292150460684698e2;", "0.5;", "3.14159", ".25 ", "12.5e3;", "1e5;", "1E-3;", "2.5e+2)", "1e18;", "1e19;", "1e20;", "25e18;", "0e9;", "123456789012345678901;", "12345678901234567890123e2", "0.1e-5;",
         "1.", "1e", "1e+", "1e-;", "12a;", "09;", "0b12;", "0xFg", "0d19;", "0o17", "0", "0.0;", "100000000000000000000.5", "0x10000000000000000", "5.e1", "1.5.2", "7e2e", "0xe1", "0b", "123e00002", "0.123456789012;", "1.00000000001", "98765.4321098765e-7"]
for n in range(5):
    GROUPS.append(g("written_literals_%d" % n, 26, 29, ["lex", "token_float_literal", "token_get_float_value"], ["TEXTS=" + ",".join('"%s"' % t for t in TEXTS[n::5])], entry="h_texts",
                    bound="the literals " + " ".join(t.strip() for t in TEXTS[n::5])))
T = GROUPS[0]
SS = ["libs/compiler/token.c", "libs/utils/utf8.c"]
L = "lex_numeric_literal::1::"
for base, prefix in [(10, 0), (16, 120), (8, 111), (2, 98)]:
    GROUPS.append(Group("digits_any_length_base_%d" % base, "c11_stream.c", "h_digits", SS, included=["libs/compiler/lexer.c"], unwind=3, twin=T,
        functions=["lex"], defs=["BASE=%d" % base, "PREFIX=%d" % prefix],
        loop_contracts={"lex_numeric_literal": {1: {
            "invariants": "errors == 0 && warnings == 0 && lxr->character == last_read && base == BB && was_modifier == MM && "
                          "is_integer == !over_before && is_in_range == !over_before && (over_before || int_value == value_before) && "
                          "(state == 3 ? last_read == 59 && value == value_before && over == over_before : state == 0 && "
                          "digit < BB && last_read == (digit < 10 ? 48 + digit : last_read >= 97 ? 87 + digit : 55 + digit) && "
                          "(over_before ? over : value_before >= 1152921504606846976ull ? over : !over && value == value_before * BB + digit))"
                          .replace("BB", str(base)).replace("MM", "1" if prefix else "0"),
            "assigns": "lxr->character, last_read, state, value, over, value_before, over_before, digit, int_value, float_value, is_integer, is_in_range",
            "symbol_map": "lxr,lex_numeric_literal::lxr;" + ";".join("%s,%s%s" % (v, L, v) for v in
                ["int_value", "float_value", "is_integer", "is_in_range", "base", "was_modifier"])}}}))
SAME = "lxr->character == last_read && "
COUNT = "errors + (%s) == expected_errors && stored + (pending ? 1ul : 0ul) == expected_stored && "
A = "lxr->character, last_read, expected, phase, pending, errors, expected_errors, stored, expected_stored"
E = "4294967295u"
GROUPS.append(Group("string_literal_any_length", "c12_string.c", "h_string", SS, included=["libs/compiler/lexer.c"], unwind=3, twin=T, functions=["lex"],
    loop_contracts={
        "lex_string_literal": {
            0: {"invariants": SAME + COUNT % ("last_read == 10 && phase == 2 || phase == 4 ? 1ul : 0ul") +
                "(phase == 0 ? pending && expected == last_read && last_read != 34 && last_read != 10 && last_read != 92 && last_read != " + E +
                " : phase == 1 ? !pending && last_read == 92 : !pending && (phase == 2 ? last_read == 34 || last_read == 10 : phase == 4 && last_read == " + E + "))",
                "assigns": A, "symbol_map": "lxr,lex_string_literal::lxr"},
            1: {"invariants": SAME + COUNT % "0ul" + "!pending && (phase == 0 ? last_read == 34 : (phase == 3 && last_read != 34) || (phase == 4 && last_read == " + E + "))",
                "assigns": A, "symbol_map": "lxr,lex_string_literal::lxr"}},
        "skip_whitespace": {
            0: {"invariants": SAME + COUNT % "0ul" + "!pending && (phase == 0 ? last_read == 34 : phase == 2 ? last_read == 32 || last_read == 9 || last_read == 10 || last_read == 13"
                " : phase == 4 ? last_read == " + E + " : phase == 3 && last_read != 34 && last_read != 32 && last_read != 9 && last_read != 10 && last_read != 13)",
                "assigns": A, "symbol_map": "lxr,skip_whitespace::lxr"}}}))
