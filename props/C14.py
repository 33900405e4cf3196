import os
LEVEL = "other"
H = "c14_expressions.c"
S = ["libs/compiler/builder.c", "libs/compiler/AST.c", "libs/compiler/operations.c", "libs/utils/node_vector.c"]
V = ["libs/utils/vector.c", "libs/utils/item.c", "libs/utils/tree.c", "libs/compiler/syntax.c"]
LOOPS = ["which:26", "type_pointer:26", "type_const:26", "model_new:10", "model_place:6", "node_remove:6", "model_resize:8",
         "build_call_expression:4", "check_assignment_operands:5", "expression_initializer:4", "expression_call:4", "h_fold_unary:7", "h_initializer:26", "h_call:26", "call:4", "initializer:4", "h_binary:26", "h_ternary:26"]
U = "operands of 24 types of every class"
def g(name, entry, f, bound=U, defs=(), extra=True, **k):
    return Group(name, H, entry, S, native_only_sources=V, kind="bounded", bound=bound, unwind=4, dfcc=False, functions=[f], defs=list(defs), native_extra=extra, unwindset=LOOPS, **k)
OPS = "MUL DIV REM ADD SUB SHL SHR LT GT LE GE EQ NE AND XOR OR LOG_AND LOG_OR ASSIGN MUL_ASSIGN DIV_ASSIGN REM_ASSIGN ADD_ASSIGN SUB_ASSIGN SHL_ASSIGN SHR_ASSIGN AND_ASSIGN XOR_ASSIGN OR_ASSIGN COMMA".split()
P = "pairs of operands of 8 types (18 in the thorough tier)"
W = ["WIDE=1"] if os.environ.get("VERIF_TIER") == "thorough" else []
GROUPS = [g("unary", "h_unary", "build_unary_expression"), g("subscript", "h_subscript", "build_subscript_expression"),
          g("member", "h_member", "build_member_expression"), g("conversion", "h_cast", "check_assignment_operands")]
for n in range(8 if not W else 18):
    GROUPS.append(g("ternary%d" % n, "h_ternary", "build_ternary_expression", P, ["PART=%d" % n, "PARTS=%d" % (8 if not W else 18)] + W, n == 0))
QUICK = ["MUL", "REM", "LT", "EQ", "LOG_AND", "ASSIGN", "ADD_ASSIGN", "COMMA"]
for i, o in enumerate(OPS):
    GROUPS.append(g(o.lower(), "h_binary", "build_binary_expression", P, ["FIRST=BIN_" + o, "LAST=BIN_" + o] + W, i == 0, native=i == 0, tiers=("quick", "thorough") if o in QUICK else ("thorough",)))
GROUPS.append(g("call", "h_call", "build_call_expression", "pairs of operands of 3 types, calls with two arguments", ["FEW=1"]))
GROUPS.append(g("initializer", "h_initializer", "build_initializer", "pairs of operands of 3 types, initializers of two parts", ["FEW=1"]))
GROUPS.append(g("fold_unary", "h_fold_unary", "fold_unary_expression", "literals of every kind with any value"))
for i, o in enumerate(OPS[:18]):
    small = o in ("MUL", "DIV", "REM")
    kinds = [("INT", "INT"), ("BOOL", "BOOL"), ("ENUM_", "CHAR"), ("BOOL", "NIL"), ("FLOAT", "INT")]
    for j, (l, r) in enumerate(kinds):
        if j == 0 or (j < 4 and o in ("LOG_AND", "LOG_OR")) or (j == 1 and o in ("EQ", "NE")) or (j == 2 and o in ("ADD", "LT")):
            GROUPS.append(g("fold_%s_%s_%s" % (o.lower(), l.lower().strip("_"), r.lower()), "h_fold_binary", "fold_binary_expression", "all values" if not small else "values up to 100 in magnitude",
                            ["KIND_L=" + l, "KIND_R=" + r, "FIRST=BIN_" + o, "LAST=BIN_" + o] + (["RANGE=100"] if small else []), j == 0 and i == 0, native=j == 0 and i == 0))
EXPLANATION = ("The functions that build expressions are verified against an independent statement of the typing rules, with questions about types answered by their contracts (C15) and the tree and "
  "vectors by theirs (C05, C10). Unary, subscript, member and conversion go over all 24 types at once with symbolic categories and locations; binary, conditional, call and initializer expressions over "
  "enumerated pairs of types (8 x 8 quick, 18 x 18 thorough), operators of the same class quick by one representative, all operators in seeded native runs over all pairs with the real tables. "
  "Folding is decided for all 64-bit literal values, multiplication and division for small ones; floating folding in native runs only.")
