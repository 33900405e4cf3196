LEVEL = "other"
H = "c16_computer.c"
S = ["libs/macro/computer.c", "libs/utils/stack.c"]
V = ["libs/utils/vector.c", "libs/utils/item.c"]
F = ["computer_create", "computer_push_token", "computer_push_number", "computer_push_const", "computer_pop_result", "computer_clear", "computer_is_correct"]
def g(name, template, size, defs=(), **k):
    return Group(name, H, "h_expression", S, native_only_sources=V, kind="bounded", unwind=size + 4, unwindset=["memset.0:60", "model_resize:2", "h_expression:350"],
                 defs=['TEMPLATE="%s"' % template] + list(defs), functions=F, native_extra=name == "binary", **k)
W = ["TK_MULT TK_MULT", "TK_DIV TK_DIV", "TK_MOD TK_MOD", "TK_ADD TK_SUB", "TK_L_SHIFT TK_R_SHIFT", "TK_LESS TK_GREATER", "TK_LESS_EQ TK_GREATER_EQ", "TK_EQ TK_NOT_EQ", "TK_BIT_AND TK_XOR", "TK_BIT_OR TK_OR"]
def span(w):
    return ["FIRST=" + w.split()[0], "LAST=" + w.split()[1]]
GROUPS = [
    g("binary", "nbn", 3, span("TK_ADD TK_OR"), bound="two operands, any numbers"),
    g("multiplicative", "nbn", 3, span("TK_MULT TK_MOD") + ["RANGE=40"], bound="two operands of at most 40"),
    g("edges", "nbn", 3, span("TK_DIV TK_MOD") + ["EDGES"], bound="the least number and -1"),
    g("characters", "nbn", 3, span("TK_ADD TK_ADD") + ["CHARACTERS"], bound="two operands, any numbers and characters"),
    Group("broken", H, "h_broken", S, native_only_sources=V, unwind=4, unwindset=["memset.0:60"], functions=F, dfcc=False),
]
for n, w in enumerate(W):
    GROUPS.append(g("pairs_%d" % n, "nbnbn", 5, span(w) + ["RANGE=5" if n > 2 else "FIXED"], bound="three operands of at most 5, all pairs of operators"))
for n, t in enumerate(["nb(nbn)", "(nbn)bn"]):
    for m, w in enumerate(["TK_MULT TK_SUB", "TK_L_SHIFT TK_BIT_AND", "TK_XOR TK_OR"]):
        GROUPS.append(g("parentheses_%d_%d" % (n, m), t, 7, span(w) + ["FIXED", "LEVELS"], bound="three fixed operands, one operator of every level"))
for n, u in enumerate(["TK_COMPL", "TK_NOT", "TK_SUB", "TK_ADD"]):
    for m, t in enumerate(["unbn", "nbun", "u(nbn)", "((un))", "uun"]):
        if m < 1 or m == 2 or n == 1: GROUPS.append(g("unary_%d_%d" % (n, m), t, 6, span("TK_MULT TK_OR") + ["RANGE=5", "LEVELS", "UNARY=" + u], bound="operands of at most 5, one operator of every level"))
for n, t in enumerate(["", "n", "(", ")", "u", "n-", "(n", "(n)", "-(n"]):
    GROUPS.append(g("tokens_%d" % n, t.replace("-", "u").replace("*", "u"), len(t) + 2, ["TOKENS=2", "FIXED", "UNARY=TK_SUB"], bound="'%s' and any two of: a number, ( ) ! - * ||" % t))
EXPLANATION = "Sequences of tokens by template against a precedence-climbing reference; native runs generate longer expressions, well-formed and not."
