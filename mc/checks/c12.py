"""C12: layout editing histories keep layouts consistent; failing edits change nothing"""

import functools
import itertools

import numpy as np

from mpllayout import constraints as cr
from mpllayout import containers as cn
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from .. import build

LEVEL = "model_checking"
RULE = (
    "Explicit-state breadth-first search over editing histories of a layout. Transitions: valid and "
    "invalid add_prim / add_prims / add_constraint calls (explicit, automatic, colliding and nested keys; "
    "missing, wrong or too few primitives; wrong parameter counts, also of nested constraints) and "
    "re-creating a layout from its trees; also long histories (more than 36 automatic keys of one type, 12 and "
    "more primitives with unsorted names; 260 automatic keys). Every history is executed on the real Layout and compared "
    "after each step with an ordered-dictionary model: keys, order, stored objects, alignment of the "
    "constraint, primitive-key and parameter trees; in every new state the residuals of the layout are "
    "compared with those of the single constraints. A second search interleaves edits of two layouts "
    "and compares each with the same edits made alone; a third explores the counters that make automatic keys, for all histories of asked items and trees. States: model states including the number of "
    "automatic keys asked for per constraint type."
)
ASSUMPTIONS = [
    "the text of automatic keys is only required to be new to the layout and deterministic",
    "add_prims with several entries is only explored where all or none of the entries can be added",
]


def bounds(tier):
    return {"depth": depth(tier), "operations": [o[0] for o in OPS],
            "interleaving_depth": inter_depth(tier), "interleaved_operations": INTER}


def depth(tier):
    return 5 if tier == "quick" else 7


def inter_depth(tier):
    return 4 if tier == "quick" else 5


PRIMS = {
    "P": lambda: build.point((0.5, 0.25)),
    "Q": lambda: build.quad([(0, 0.1), (1, 0), (1.2, 1), (0.3, 1.4)]),
    "R": lambda: build.quad([(3, 0.2), (4.5, 0), (4.2, 1.1), (3.3, 1.6)]),
    "L": lambda: build.line([(0.1, 0.2), (1.7, 0.9)]),
    "G": lambda: pr.PrimitiveNode(np.array([]), {}),
    "G/P": lambda: build.point((2.5, -0.75)),
    "Nowhere/P": lambda: build.point((2.5, -0.75)),
}

FIX = (5.0, 6.0)
CONS = {
    "Fix": lambda: cr.Fix(),
    "Box": lambda: cr.Box(),
    "Grid": lambda: cr.Grid((1, 2)),
    "Length": lambda: cr.Length(),
    "Coincident": lambda: cr.Coincident(),
    "XThick": lambda: cr.XAxisThickness(),
}
GRID = ((0.125,), (), (0.5,), ())
# name, constraint, primitive keys, parameters, key, statically valid
COPS = [
    ("fix", "Fix", ("P",), (FIX,), "", True),
    ("fix as Fix0", "Fix", ("P",), (FIX,), "Fix0", True),
    ("fix as Box0", "Fix", ("P",), (FIX,), "Box0", True),
    ("fix nested prim", "Fix", ("G/P",), (FIX,), "", True),
    ("fix wrong type", "Fix", ("Q",), (FIX,), "", False),
    ("fix no param", "Fix", ("P",), (), "", False),
    ("fix two params as Fix0", "Fix", ("P",), (FIX, FIX), "Fix0", False),
    ("fix missing prim", "Fix", ("Nope",), (FIX,), "", False),
    ("fix under missing key", "Fix", ("P",), (FIX,), "Nope/x", False),
    ("box", "Box", ("Q",), (), "", True),
    ("box as Box0", "Box", ("Q",), (), "Box0", True),
    ("box missing prim as k", "Box", ("Nope",), (), "k", False),
    ("grid", "Grid", ("Q", "R"), "grid", "", True),
    ("grid wrong nested params", "Grid", ("Q", "R"), "badgrid", "", False),
    ("grid one prim as k", "Grid", ("Q",), "grid", "k", False),
    ("length as 'a key [0]'", "Length", ("L",), (2.0,), "a key [0]", True),
    ("length", "Length", ("L",), (2.0,), "", True),
    ("coincident", "Coincident", ("P", "L/Point0"), (), "", True),
    ("coincident missing point", "Coincident", ("P", "L/Point7"), (), "", False),
    ("coincident one point", "Coincident", ("P",), (), "", False),
]
OPS = (
    [("add " + k, "prim", k) for k in PRIMS]
    + [("add_prims R,P", "prims", ("R", "P"))]
    + [(o[0], "cons", o) for o in COPS]
    + [("recreate", "recreate", None)]
)
INTER = ["add P", "add Q", "fix", "fix as Fix0", "fix no param", "box", "coincident one point"]
BYNAME = {o[0]: o for o in OPS}


@functools.lru_cache(maxsize=None)
def constraint(name):
    return CONS[name]()


@functools.lru_cache(maxsize=None)
def grid_params():
    from . import c06

    return c06.params_for((1, 2), 0)


def params_of(p):
    if p == "grid":
        return grid_params()
    if p == "badgrid":
        g = list(grid_params())
        # one more column width than there are columns to set
        i = max(range(len(g)), key=lambda i: np.size(g[i]))
        g[i] = np.append(np.asarray(g[i], dtype=float), [0.5])
        return tuple(g)
    return p


@functools.lru_cache(maxsize=None)
def alone(cname, keys, pname):
    """Residual of the constraint called directly"""
    res = constraint(cname)(tuple(get(k) for k in keys), *params_of(pname))
    return np.ravel(np.asarray(res, dtype=float))


def get(key):
    if key in PRIMS:
        return PRIMS[key]()
    top, rest = key.split("/", 1)
    return PRIMS[top]()[rest]


class Model:
    def __init__(self):
        self.prims = {}  # key -> object
        self.cons = []  # [key, op, params object]
        self.auto = {}

    def has(self, key):
        if key in self.prims:
            return True
        return key == "L/Point0" and "L" in self.prims

    def state(self):
        return (
            tuple(self.prims),
            tuple((k, o[0]) for k, o, _ in self.cons),
            tuple(sorted(self.auto.items())),
        )


def apply(layout, model, op):
    """Apply one operation to both; return (layout, expected ok, exception)"""
    name, what, arg = op
    exc = None
    if what == "prim":
        prim = PRIMS[arg]()
        ok = arg not in model.prims and ("/" not in arg or arg.split("/")[0] in model.prims)
        try:
            layout.add_prim(prim, arg)
        except Exception as e:
            exc = e
        if ok:
            model.prims[arg] = prim
    elif what == "prims":
        prims = {k: PRIMS[k]() for k in arg}
        present = [k in model.prims for k in arg]
        if any(present) and not present[0]:
            return layout, None, None
        ok = not any(present)
        try:
            layout.add_prims(prims)
        except Exception as e:
            exc = e
        if ok:
            model.prims.update(prims)
    elif what == "cons":
        _, cname, keys, pname, key, static = arg
        params = params_of(pname)
        taken = {k for k, _, _ in model.cons}
        ok = static and all(model.has(k) for k in keys) and key not in taken
        before = set(layout.root_constraint.keys())
        try:
            layout.add_constraint(constraint(cname), keys, params, key)
        except Exception as e:
            exc = e
        if key == "":
            model.auto[cname] = model.auto.get(cname, 0) + 1
        if ok:
            if key == "":
                new = [k for k in layout.root_constraint.keys() if k not in before]
                key = new[0] if len(new) == 1 else f"<{len(new)} new keys>"
            model.cons.append((key, arg, params))
    else:
        ok = True
        trees = (layout.root_prim, layout.root_constraint, layout.root_prim_keys, layout.root_param)
        layout = lay.Layout(*trees)
        now = (layout.root_prim, layout.root_constraint, layout.root_prim_keys, layout.root_param)
        # also if there is nothing in them yet
        if not all(a is b for a, b in zip(trees, now)):
            exc = RuntimeError("a layout made with given trees has other ones")
        model.auto = {}
    return layout, ok, exc


def check_layout(ctx, layout, model, where):
    prims = {k: p for k, p in layout.root_prim.items()}
    top = [k for k in model.prims if "/" not in k]
    ctx.check(list(prims) == top, f"{where()}: primitive keys {list(prims)} instead of {top}")
    for k, p in model.prims.items():
        ctx.check(layout.root_prim[k] is p, f"{where()}: primitive {k} is not the one added")
    if "G" in model.prims:
        want = ["P"] if "G/P" in model.prims else []
        ctx.check(layout.root_prim["G"].keys() == want, f"{where()}: wrong children of G")

    keys = [k for k, _, _ in model.cons]
    ctx.check(len(set(keys)) == len(keys), f"{where()}: repeated keys {keys}")
    for nm, tree in (("constraint", layout.root_constraint), ("primitive key", layout.root_prim_keys),
                     ("parameter", layout.root_param)):
        ctx.check(tree.keys() == keys, f"{where()}: {nm} tree has keys {tree.keys()} instead of {keys}")
    struct = [[k for k, _ in cn.iter_flat("", t)] for t in
              (layout.root_constraint, layout.root_prim_keys, layout.root_param)]
    ctx.check(struct[0] == struct[1] == struct[2],
              f"{where()}: the constraint, primitive key and parameter trees differ", trees=struct)
    for k, arg, params in model.cons:
        ctx.check(layout.root_constraint[k] is constraint(arg[1]), f"{where()}: constraint {k} was exchanged")
        ctx.check(tuple(layout.root_prim_keys[k].value) == arg[2],
                  f"{where()}: primitive keys of {k} are {layout.root_prim_keys[k].value}")
        got = layout.root_param[k].value
        ctx.check(len(got) == len(params) and all(a is b for a, b in zip(got, params)),
                  f"{where()}: parameters of {k} are {got}")


def check_residual(ctx, layout, model, where):
    res = solver.assem_constraint_residual(layout.root_prim, *layout.flat_constraints())
    res = np.sort(np.concatenate([np.zeros(0)] + [np.ravel(np.asarray(r, dtype=float)) for r in res]))
    want = np.sort(np.concatenate(
        [np.zeros(0)] + [alone(o[1], o[2], o[3]) for _, o, _ in model.cons]))
    ctx.check(res.shape == want.shape and np.allclose(res, want, atol=1e-12),
              f"{where()}: residuals {res.tolist()} instead of {want.tolist()}")
    ctx.count("residual_comparisons")


def cases(tier):
    out = [{"first": a, "second": b} for a in range(len(OPS)) for b in range(len(OPS))
           if OPS[a][1] in ("prim", "prims")]
    out += [{"first": a, "second": None} for a in range(len(OPS))]
    out += [{"inter": [a, b]} for a in INTER for b in INTER]
    out += [{"long": i} for i in range(len(LONG))]
    out += [{"many": i, "number": 1040 if tier == "thorough" and i == 0 else 260} for i in range(len(MANY))]
    out += [{"counter": i} for i in range(len(COUNTER_OPS))]
    return out


# Long histories, repeated in turn (more than ten keys of each kind)
LONG = [
    ["fix"], ["box"], ["grid"], ["length"], ["coincident"], ["fix", "box"], ["fix", "fix no param", "box"],
    ["coincident", "coincident", "fix", "coincident one point"], ["fix as Fix0", "fix"], ["fix", "fix as Box0", "box"],
    ["grid", "grid wrong nested params", "box", "fix missing prim"], ["length", "recreate", "length"],
    ["length", "fix", "coincident", "grid", "box"],
]
NAMES = [
    [f"p{i}" for i in range(14)], [f"p{i}" for i in reversed(range(14))], list("nzaymbxlcwkd"),
    ["Z", "a", "Axes 10", "Axes 9", "Axes", "A", "B/", "0", "10", "9", "-1", "_"],
]


def run_long(case, ctx):
    start = [BYNAME[n] for n in ("add Q", "add L", "add_prims R,P")]
    layout, model = replay(start)
    history = []
    for n in range(36 if ctx.quick else 120):
        op = BYNAME[LONG[case["long"]][n % len(LONG[case["long"]])]]
        layout, ok, exc = apply(layout, model, op)
        history.append(op[0])
        where = lambda: f"after {history}"
        ctx.check((exc is None) == ok, f"{where()}: raised {exc!r}")
        check_layout(ctx, layout, model, where)
        ctx.trans()
        ctx.state(("long", model.state()))
    check_residual(ctx, layout, model, where)
    ctx.trace()
    # Many primitives, added one by one, all at once, or in two parts
    names = [n for n in NAMES[case["long"] % len(NAMES)] if "/" not in n]
    for form in ("add_prim", "add_prims", "both", "group"):
        layout = lay.Layout()
        made = {n: build.point((i, -i)) for i, n in enumerate(names)}
        if form == "add_prims":
            layout.add_prims(made)
        elif form == "add_prim":
            for n, p in made.items():
                layout.add_prim(p, n)
        elif form == "both":
            layout.add_prims({n: made[n] for n in names[:5]})
            for n in names[5:8]:
                layout.add_prim(made[n], n)
            layout.add_prims({n: made[n] for n in names[8:]})
        else:
            layout.add_prim(pr.PrimitiveNode(np.array([]), {}), "Group")
            layout.add_prims({f"Group/{n}": p for n, p in made.items()})
        root = layout.root_prim["Group"] if form == "group" else layout.root_prim
        ctx.check(root.keys() == names, f"{form} of {names}: keys are {root.keys()}")
        ctx.check(all(root[n] is made[n] for n in names), f"{form} of {names}: wrong primitives")
        ctx.trans(len(names))
        ctx.trace()


# Histories with hundreds of automatic keys
MANY = [["fix"], ["box"], ["coincident"], ["length", "fix", "coincident", "box"]]


def run_many(case, ctx):
    layout, model = replay([BYNAME[n] for n in ("add P", "add Q", "add L")])
    names = MANY[case["many"]]
    num = case["number"]
    where = lambda: f"after {num} constraints {names}"
    for n in range(num):
        layout, ok, exc = apply(layout, model, BYNAME[names[n % len(names)]])
        ctx.check((exc is None) == ok, f"constraint {n} of {names}: raised {exc!r}")
        ctx.trans()
    check_layout(ctx, layout, model, where)
    ctx.state(("many", model.state()))
    ctx.trace()


# Automatic keys for several trees: keys already there; what to ask for: item, trees
COUNTER_TREES = [(), ("int1", "str0"), ("int0", "int2", "int3", "list0")]
COUNTER_OPS = [(item, trees) for item in (7, "text") for trees in
               (None, (0,), (1,), (0, 1), (1, 0), (0, 2), (0, 1, 2), (2, 1, 0))]


def run_counter(case, ctx):
    """Keys of a counter are new to the trees given and never repeat, whatever was asked before"""
    def execute(history, **kw):
        counter = cn.ItemCounter(**kw)
        trees = [cn.Node(0, {k: cn.Node(0, {}) for k in keys}) for keys in COUNTER_TREES]
        got = []
        for n, (item, which) in enumerate(history):
            if which is None:
                key = counter.add_item(item)
            else:
                key = counter.add_item_to_nodes(item, *[trees[i] for i in which])
                for i in which:
                    ctx.check(key not in trees[i], f"{history[: n + 1]}: {key!r} is in tree {i}")
                    trees[i].add_child(key, cn.Node(n, {}))
            ctx.check(isinstance(key, str) and key not in got, f"{history[: n + 1]}: key {key!r} after {got}")
            got.append(key)
            ctx.trans()
        return got

    for n in range(0, 3 if ctx.quick else 4):
        for tail in itertools.product(COUNTER_OPS, repeat=n):
            history = [COUNTER_OPS[case["counter"]], *tail]
            got = execute(history)
            ctx.check(execute(history) == got, f"{history}: other keys from a second counter")
            execute(history, categorize=lambda item: type(item).__name__)
            ctx.state(("counter", tuple(got)))
            ctx.trace()


def replay(history):
    layout, model = lay.Layout(), Model()
    for op in history:
        layout, ok, exc = apply(layout, model, op)
    return layout, model


def step(ctx, history, op):
    layout, model = replay(history)
    layout, ok, exc = apply(layout, model, op)
    if ok is None:
        return None
    ctx.trans()
    ctx.trace()
    where = lambda: f"after {[o[0] for o in history]} then '{op[0]}'"
    if ok:
        ctx.check(exc is None, f"{where()}: raised {exc!r}")
    else:
        ctx.check(exc is not None, f"{where()}: nothing was raised")
    check_layout(ctx, layout, model, where)
    return (layout, model, where) if ok else None


def run(case, ctx):
    if "long" in case:
        return run_long(case, ctx)
    if "many" in case:
        return run_many(case, ctx)
    if "counter" in case:
        return run_counter(case, ctx)
    if "inter" in case:
        return run_inter(case, ctx)
    first, second = case["first"], case["second"]
    r = step(ctx, [], OPS[first])
    if r is None or second is None:
        if r is not None:
            check_residual(ctx, *r)
        return
    history = [OPS[first]]
    r = step(ctx, history, OPS[second])
    if r is None:
        return
    ctx.state(r[1].state())
    check_residual(ctx, *r)
    history.append(OPS[second])
    frontier, seen = [history], {r[1].state()}
    for level in range(2, depth(ctx.tier)):
        nxt = []
        for h in frontier:
            for op in OPS:
                r = step(ctx, h, op)
                if r is None:
                    continue
                s = r[1].state()
                if s in seen:
                    continue
                seen.add(s)
                if ctx.state(s):
                    check_residual(ctx, *r)
                nxt.append(h + [op])
        frontier = nxt
    if frontier:
        ctx.sample({"history": [o[0] for o in frontier[-1]]})


def run_inter(case, ctx):
    """Edits of two layouts, interleaved in every way, have the effect they have alone"""
    head = [BYNAME[n] for n in case["inter"]]
    n = inter_depth(ctx.tier)
    solo = {}

    def keys_alone(h):
        if h not in solo:
            l, m = replay([BYNAME[x] for x in h])
            solo[h] = tuple(l.root_constraint.keys())
        return solo[h]

    for m in range(2, n + 1):
        for tail in itertools.product(INTER, repeat=m - 2):
            ops = head + [BYNAME[x] for x in tail]
            for who in itertools.product((0, 1), repeat=m - 1):
                who = (0,) + who
                if 1 not in who:
                    continue
                ls, ms, hs = [lay.Layout(), lay.Layout()], [Model(), Model()], [[], []]
                for op, w in zip(ops, who):
                    ls[w], ok, exc = apply(ls[w], ms[w], op)
                    hs[w].append(op[0])
                where = lambda: f"interleaving {[(o[0], 'AB'[w]) for o, w in zip(ops, who)]}"
                for w in (0, 1):
                    check_layout(ctx, ls[w], ms[w], where)
                    got = tuple(ls[w].root_constraint.keys())
                    want = keys_alone(tuple(hs[w]))
                    ctx.check(got == want, f"{where()}: layout {'AB'[w]} has constraint keys {got}, alone {want}")
                ctx.trans(len(ops))
                ctx.trace()
                ctx.state(("inter", tuple(map(tuple, hs))))
