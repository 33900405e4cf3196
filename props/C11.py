LEVEL = "other"
H = "c11_lexer.c"
S = ["libs/compiler/lexer.c", "libs/compiler/token.c", "libs/utils/utf8.c"]
V = ["libs/utils/vector.c", "libs/utils/item.c"]
def g(name, n, unwind, functions, defs=(), entry="h_lex", bound=None, **k):
    return Group(name, H, entry, S, native_only_sources=V, kind="bounded", unwind=unwind, unwindset=["ref_punctuator:47", "ten:24", "pow:24", "h_lex:120", "h_name:40"],
                 defs=["N=%d" % n] + list(defs), functions=functions, bound=bound or "%d characters" % n, native_extra=name == "punctuators", **k)
GROUPS = [
    g("punctuators", 3, 5, ["lex"], ['FIRSTS="?[](){}~,:;+-*%!^|&=<>"', "NO_NUMBERS"]),
    g("slash", 3, 5, ["lex"], ['FIRSTS="/"', "NO_NUMBERS", "ASSUMING=want.restarts==0"]),
    g("period", 3, 5, ["lex"], ['FIRSTS="."', "NO_NUMBERS"]),
    g("end", 3, 5, ["lex"], ['FIRSTS=" \\n\\t\\r"', "NO_NUMBERS", "PREPARE=txt[1]=32;txt[2]=10"]),
    g("names", 3, 5, ["lex"], ["NAME=97", "NO_NUMBERS"], entry="h_name"),
    g("other_characters", 2, 4, ["lex"], ["NO_NUMBERS", "SHORTEST=2", "ASSUMING=want.restarts<=1&&want.kind==TK_SEMICOLON",
                                         "PREPARE=txt[0]=symbol();txt[1]=59", "KEYWORD=0"]),
]
T = GROUPS[0]
M = "lxr,%s::lxr"
STREAM = dict(included=["libs/compiler/lexer.c"], unwind=3, twin=T)
SS = ["libs/compiler/token.c", "libs/utils/utf8.c"]
def loop(f, inv):
    return {f: {0: {"invariants": "lxr->character == last_read && errors == 0 && (%s)" % inv,
                    "assigns": "lxr->character, last_read, state, errors", "symbol_map": M % f}}}
EOFC = "last_read == 4294967295u"
GROUPS += [
    Group("block_comment_any_length", "c11_stream.c", "h_block", SS, functions=["lex"],
          loop_contracts=loop("skip_block_comment", "state == 4 ? %s : state == 1 ? last_read == 42 : state == 0 && last_read != 42 && !(%s)" % (EOFC, EOFC)), **STREAM),
    Group("line_comment_any_length", "c11_stream.c", "h_line", SS, functions=["lex"],
          loop_contracts=loop("skip_line_comment", "state == 4 ? %s : state == 3 ? last_read == 10 : state == 0 && last_read != 10 && !(%s)" % (EOFC, EOFC)), **STREAM),
    Group("white_space_any_length", "c11_stream.c", "h_space", SS, functions=["lex"],
          loop_contracts=loop("skip_whitespace", "state == 0 ? last_read == 32 || last_read == 10 || last_read == 13 || last_read == 9 : state == 4 ? %s : state == 3 && last_read != 32 && last_read != 10 && last_read != 13 && last_read != 9" % EOFC), **STREAM),
    g("peek", 2, 4, ["peek"], entry="h_peek", defs=["NO_NUMBERS", "ASSUMING=want.restarts==0"]),
    g("start", 2, 4, ["lexer_create", "lexer_clear", "lex", "token_is", "token_is_not", "token_eof"], entry="h_start", defs=["NO_NUMBERS"]),
]
