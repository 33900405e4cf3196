LEVEL = "other"
H = "c19_scopes.c"
S = ["libs/compiler/syntax.c"]
V = ["libs/utils/vector.c", "libs/utils/item.c", "libs/utils/map.c", "libs/utils/utf8.c", "libs/utils/uniio.c"]
F = ["ident_add", "scope_block_enter", "scope_block_exit", "scope_func_enter", "scope_func_exit", "repr_get_reference", "ident_get_*"]
HISTORIES = ["v(v{v{v{v}}}v)v", "F(pp{v}{v}v)v", "fv(v)F", "t(t{v}t)t", "vvv", "vt(v{v}v)v", "(vv{v{v}v}v)", "F(v{v}{v}v)v", "fF(v)F", "ffF", "f(v)v", "v(pv{v})v", "F(v{tv}v)F(v)", "(v{v}){", "v(v)(v{v})v"]
HISTORIES = [h for h in HISTORIES if h.count("(") == h.count(")") and h.count("{") == h.count("}")]
GROUPS = []
for i, h in enumerate(HISTORIES):
    GROUPS.append(Group("history%d" % i, H, "h_history", S, native_only_sources=V, kind="bounded", bound="the history %s of declarations and scopes over 3 names, any names and types" % h,
                        unwind=12, dfcc=False, functions=F, defs=["HISTORY=\"%s\"" % h], native=i == 0, native_extra=i == 0,
                        unwindset=["model_resize:47", "h_history:20"]))
EXPLANATION = ("Histories written out (v variable, t type, f function declared, F function defined, p parameter, ( ) function, { } block) with arbitrary names and types against a list of the "
  "declarations that are live; native runs make longer ones at random on the real tables. After a redeclaration, which is reported as an error, nothing is promised.")
