LEVEL = "other"
S = ["libs/utils/tree.c"]
H = "c10_tree.c"
F = ["node_get_root", "node_get_child", "node_get_parent", "node_get_type", "node_get_argc", "node_get_arg", "node_get_amount", "node_get_next",
     "node_set_next", "node_add_child", "node_save", "node_load", "node_is_correct"]
K = dict(unwind=7, unwindset=["vector_increase.0:4"])
OPS = {"arg": ["node_add_arg", "node_add_arg_int64", "node_add_arg_double"],
       "set": ["node_set_arg", "node_set_arg_int64", "node_set_arg_double", "node_set_type", "node_get_arg_int64", "node_get_arg_double"],
       "insert": ["node_insert"], "swap": ["node_swap"], "order": ["node_order"], "remove": ["node_remove"]}
GROUPS = []


def shapes(adds, removed=()):
    """All ways to add so many nodes one after another."""
    out = [[]]
    for n in range(adds):
        out = [h + [p] for h in out for p in range(n + 1)]
    return out


def related(h, a, b):
    up = {n + 1: p for n, p in enumerate(h)}
    def above(x, y):
        while y in up and y != x:
            y = up[y]
        return x == y
    return above(a, b) or above(b, a)


def histories(name, ops, items, args=0):
    for part in range(0, len(items), 6):
        text = "".join("start();%sall();" % "".join(i) for i in items[part:part + 6])
        nodes = 1 + max(sum(x.startswith(("add(", "insert(")) for x in i) for i in items)
        GROUPS.append(Group("%s_%d" % (name, part // 6), H, "h_history", S, kind="bounded",
                            functions=F + sorted(set(sum([OPS[o] for o in ops], []))),
                            defs=["NODES=%d" % nodes, "ARGS=%d" % max(args, 1), "HISTORIES=" + text],
                            bound="%d histories of at most %d nodes, written out; arbitrary data" % (len(items), nodes), **K))


def adds(h, arg=()):
    out = []
    for n, p in enumerate(h):
        out.append("add(%d);" % p)
        if n + 1 in arg:
            out.append("add_arg(%d);" % (n % 3))
    return out


R4 = range(1, 4)
DEEP = 3 if TIER == 'quick' else 4
histories("add", [], [adds(h) for h in shapes(4)])
histories("swap_wide", ["swap", "order"], [adds([0, 0, 0, 0]) + ["%s(%d,%d);" % (f, a, b)] for f in ("swap", "order") for a, b in ((1, 2), (3, 2), (1, 4), (4, 1))]
          + [adds([0, 0, 1, 2]) + ["%s(%d,%d);" % (f, a, b)] for f in ("swap", "order") for a, b in ((1, 2), (3, 4))])
histories("arg", ["arg", "set"], [adds(h, (1, 2)) + ["add_arg(%d);" % k, "add_arg(%d);" % (2 - k)] + ["set(%d,%d);" % (n, k)] for h in shapes(2)[:1 if TIER == 'quick' else 2] for n in range(3) for k in range(4)], 3)
histories("swap", ["swap"], [adds(h, (2,)) + ["swap(%d,%d);" % (a, b)] for h in shapes(DEEP) for a in range(1, DEEP + 1) for b in range(1, DEEP + 1) if not related(h, a, b)])
histories("order", ["order"], [adds(h, (2,)) + ["order(%d,%d);" % (a, b)] for h in shapes(DEEP) for a in range(1, DEEP + 1) for b in range(1, DEEP + 1) if not related(h, a, b)])
histories("insert", ["insert"], [adds(h, (2,)) + ["insert(%d,%d);" % (n, n % 2)] for h in shapes(3) for n in R4])
histories("insert_add", ["insert"], [adds(h) + ["insert(%d,1);" % n, "add(%d);" % m] for h in shapes(2) for n in (1, 2) for m in range(4)])
histories("remove", ["remove"], [adds(h, (2,)) + ["delete(%d);" % n] for h in shapes(DEEP) for n in range(1, DEEP + 1)])
histories("remove_add", ["remove"], [adds(h) + ["delete(%d);" % n, "add(0);"] for h in shapes(3) for n in R4])
histories("insert_remove", ["insert", "remove"], [adds(h) + ["insert(%d,1);" % n, "delete(%d);" % m] for h in shapes(2) for n in (1, 2) for m in (1, 2, 3)])
for kind in range(3):
    GROUPS.append(Group("broken_%d" % kind, H, "h_broken", S, functions=F + sum(OPS.values(), []), defs=["BAD=%d" % kind], **K))
ASSUMPTIONS = ["vector behaves by its contracts (proved in C05), used here in executable form (harness/vector_model.h)"]
