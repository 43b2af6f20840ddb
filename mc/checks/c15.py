"""C15: traversing and transforming trees is lossless"""

import functools
import itertools

import jax
import numpy as np

from mpllayout import constructions as con
from mpllayout import containers as cn
from mpllayout import primitives as pr

from .. import build, custom

LEVEL = "exploration"
RULE = (
    "Every ordered tree shape up to the stated number of nodes x child labellings (in, against and "
    "across alphabetical order, labels that are prefixes or numbers) x assignments of node types x "
    "value kinds, with every tree operation: iter_flat, flatten, unflatten (also with left-over nodes), "
    "copy, map, accumulate, jax pytree flattening, jax.tree.map and jax.jit. Large trees (up to 101 children, 35 levels) under four labellings in the same way. Plus every primitive type "
    "(polygons with 3..13 vertices, all axes flags) through copying, pytrees, jit and the unique-value "
    "decomposition used by the solver, and every way to share up to three points among primitives. "
    "Expected results come from an independent recursive description of the tree. Distinct: "
    "(operation, tree)."
)
ASSUMPTIONS = [
    "accumulate is only checked for associative functions with a neutral initial value",
    "jax operations are only applied to trees with numeric values and registered node types",
]


def max_nodes(tier):
    return 6 if tier == "quick" else 8


def bounds(tier):
    return {"max_nodes": max_nodes(tier), "labellings": list(LABELS), "types": list(TYPES)}


@functools.lru_cache(maxsize=None)
def shapes(n):
    """All ordered trees with n nodes as nested tuples"""
    return tuple(forests(n - 1))


@functools.lru_cache(maxsize=None)
def forests(n):
    if n == 0:
        return ((),)
    return tuple(
        (first,) + rest
        for k in range(1, n + 1)
        for first in shapes(k)
        for rest in forests(n - k)
    )


LABELS = {
    "sorted": lambda i, n: "abcdefghijklm"[i],
    "reversed": lambda i, n: "abcdefghijklm"[n - 1 - i],
    "mixed": lambda i, n: ["m", "b", "z", "a", "k", "c", "y", "d"][i],
    "numbers": lambda i, n: f"Line{i + 8}",
    "prefixes": lambda i, n: "a" * (n - i),
    "odd": lambda i, n: ["Axes[0, 1]", "", " ", "é", "Line10", "Line9", "0", "-"][i],
}


def chain(n, side=0):
    """A path of n nodes, each with `side` leaves before its child"""
    return () if n == 1 else ((),) * side + (chain(n - 1, side),)


LARGE = [
    *[(f"{n} leaves", ((),) * n) for n in (9, 10, 11, 12, 17, 33, 101)],
    *[(f"path of {n}", chain(n)) for n in (9, 12, 18, 35)],
    ("ladder of 12", chain(12, 1)), ("comb of 11", chain(5, 11)),
    ("12 by 3", (((),) * 3,) * 12), ("3 by 12", (((),) * 12,) * 3), ("binary", None), ("ternary", None),
]


def full(width, height):
    return () if height == 0 else (full(width, height - 1),) * width


LARGE[-2:] = [("binary", full(2, 5)), ("ternary", full(3, 3))]
LARGE_LABELS = {
    "counted": lambda i, n: f"Line{i}", "backward": lambda i, n: f"Line{n - i}",
    "mixed": lambda i, n: f"{i * 7919 % 1009}", "prefixes": lambda i, n: "a" * (n - i),
}


class MyNode(cn.Node):
    """A user-defined node class with its own constructor signature"""

    def __init__(self, children):
        super().__init__(0, children)


TYPES = {
    "node": [cn.Node],
    "params": [con.ParamsNode],
    "mixed": [cn.Node, con.ParamsNode, MyNode, con.PrimKeysNode],
    "prims": [pr.PrimitiveNode, pr.Point, pr.Polygon, pr.Axes, pr.Line],
}
JAX_TYPES = ("node", "prims")


def values(kind):
    if kind == "node":
        return lambda i: float(i + 1)
    if kind == "prims":
        return lambda i: np.array([i + 1.0, -i - 0.5])[: i % 3]
    return lambda i: [(i,), None, f"v{i}", np.array([i]), {"k": i}][i % 5]


def describe(shape, label, types, value):
    """Independent description: (type, value, [(key, child)...])"""
    count = itertools.count()

    def go(s):
        i = next(count)
        return (types[i % len(types)], value(i), [(label(j, len(s)), go(c)) for j, c in enumerate(s)])

    return go(shape)


def realise(d):
    return d[0].from_tree(d[1], {k: realise(c) for k, c in d[2]})


def preorder(d, key=""):
    out = [(key, d)]
    for k, c in d[2]:
        out += preorder(c, f"{key}/{k}")
    return out


def same(a, b):
    return a is b or (type(a) is type(b) and np.array_equal(a, b)) or (
        np.shape(a) == np.shape(b) and isinstance(b, (float, np.ndarray)) and np.array_equal(np.asarray(a), np.asarray(b))
    )


def equal(node, d, types=True, value=same):
    return (
        (not types or type(node) is d[0])
        and value(node.value, d[1])
        and list(node.keys()) == [k for k, _ in d[2]]
        and all(equal(n, c, types, value) for n, (_, c) in zip(node.values(), d[2]))
    )


def cases(tier):
    out = []
    for n in range(1, max_nodes(tier) + 1):
        k = 1 if n < 5 else (2 if n < 7 else 8)
        for part in range(k):
            for label in LABELS:
                out.append({"nodes": n, "label": label, "part": part, "of": k})
    out += [{"prims": i} for i in range(len(primitive_makers()))]
    out.append({"sharing": True})
    out += [{"large": i} for i in range(len(LARGE))]
    return out


def run(case, ctx):
    if "prims" in case:
        return run_prim(case, ctx)
    if "sharing" in case:
        return run_sharing(case, ctx)
    if "large" in case:
        name, shape = LARGE[case["large"]]
        for label, f in LARGE_LABELS.items():
            for kind in TYPES:
                d = describe(shape, f, TYPES[kind], values(kind))
                check_tree(ctx, d, (name, label, kind), kind in JAX_TYPES)
        ctx.sample({"tree": name})
        return
    for i, shape in enumerate(shapes(case["nodes"])):
        if i % case["of"] != case["part"]:
            continue
        for kind in TYPES:
            d = describe(shape, LABELS[case["label"]], TYPES[kind], values(kind))
            use_jax = kind in JAX_TYPES
            check_tree(ctx, d, (shape, case["label"], kind), use_jax)
    ctx.sample({"shape": shape, "labels": case["label"]})


def check_tree(ctx, d, name, use_jax, node=None):
    node = realise(d) if node is None else node
    flat = preorder(d)

    def done(op, ok, got=None):
        ctx.ev()
        ctx.seen((op, name))
        ctx.check(ok, f"{op} on the tree {name}: got {str(got)[:600]}")
        ctx.check(equal(node, d), f"{op} on the tree {name} changed the tree", tree=str(node))

    for root in ("", "root", "a/b"):
        it = list(cn.iter_flat(root, node))
        done(f"iter_flat({root!r})", [k for k, _ in it] == [root + k for k, _ in flat]
             and all(equal(n, c) for (_, n), (_, c) in zip(it, flat)), [k for k, _ in it])
        fl = cn.flatten(root, node)
        done(f"flatten({root!r})", len(fl) == len(flat) and all(
            f[0] == root + k and f[1] is c[0] and same(f[2], c[1]) and list(f[3]) == [x for x, _ in c[2]]
            for f, (k, c) in zip(fl, flat)), fl)
        extra = cn.flatten("extra", cn.Node(1, {"x": cn.Node(2, {})}))
        for rest in ([], extra):
            back, left = cn.unflatten(fl + rest)
            done(f"unflatten with {len(rest)} more", equal(back, d) and list(left) == rest, (back, left))
    for (k, n), (_, c) in zip(list(cn.iter_flat("", node))[1:], flat[1:]):
        done("indexing by the flat keys", node[k[1:]] is n and k[1:] in node, k)
    # copy: same types, same values, no shared nodes
    cp = node.copy()
    ids = {id(n) for _, n in cn.iter_flat("", node)} | {id(n.children) for _, n in cn.iter_flat("", node)}
    done("copy", equal(cp, d, value=lambda a, b: same(a, b)) and not any(
        id(n) in ids or id(n.children) in ids for _, n in cn.iter_flat("", cp)), cp)
    done("copy keeps values", all(a.value is b.value for (_, a), (_, b)
                                  in zip(cn.iter_flat("", cp), cn.iter_flat("", node))))
    cp.add_child("new child", cn.Node(99, {}))
    for k in list(cp.keys())[:-1]:
        cp[k].add_child("new child", cn.Node(99, {}))
        cp[k] = cn.Node(98, {})
    done("editing a copy", True)
    # map
    calls = []
    mp = cn.map(lambda v: calls.append(v) or (len(calls), "mapped"), node)
    done("map", [k for k, _ in cn.iter_flat("", mp)] == [k for k, _ in flat]
         and len(calls) == len(flat) and {id(v) for v in calls} == {id(n.value) for _, n in cn.iter_flat("", node)}
         and all(n.value[1] == "mapped" and calls[n.value[0] - 1] is m.value for (_, n), (_, m)
                 in zip(cn.iter_flat("", mp), cn.iter_flat("", node))), mp)
    # accumulate on a numeric tree of the same shape
    sums = cn.map(lambda v: float(len(calls)) if v is None else 1.0, node)
    nums, vals = list(cn.iter_flat("", sums)), {}
    for i, (k, n) in enumerate(nums):
        vals[k] = float((i * 7 + 3) % 11 + 2**i)
    numeric = relabel(node, vals, "")
    for op, init, fn in (("sum", 0.0, lambda a, b: a + b), ("max", -np.inf, max), ("product", 1.0, lambda a, b: a * b)):
        acc = cn.accumulate(fn, numeric, init)
        ok = True
        for k, n in cn.iter_flat("", acc):
            sub = [v for kk, v in vals.items() if kk == k or kk.startswith(k + "/")]
            ok = ok and np.isclose(n.value, functools.reduce(fn, sub, init))
        done(f"accumulate {op}", ok and [k for k, _ in cn.iter_flat("", acc)] == [k for k, _ in flat], acc)
    # Order matters: a node comes before its children
    acc = cn.accumulate(lambda a, b: a + b, relabel(node, {k: (k,) for k in vals}, ""), ())
    done("accumulate order", all(
        n.value == tuple(kk for kk, _ in flat if kk == k or kk.startswith(k + "/")) for k, n in cn.iter_flat("", acc)), acc)
    done("node_height", node.node_height() == height(d), node.node_height())

    if use_jax:
        leaves, treedef = jax.tree_util.tree_flatten(node)
        done("pytree leaves", len(leaves) == len(flat) and all(
            any(same(l, c[1]) for _, c in flat) for l in leaves), leaves)
        done("pytree unflatten", equal(jax.tree_util.tree_unflatten(treedef, leaves), d))
        dbl = jax.tree_util.tree_map(lambda x: x * 2, node)
        done("tree_map", equal(dbl, d, value=lambda a, b: np.array_equal(a, np.asarray(b) * 2)), dbl)
        two = jax.tree_util.tree_map(lambda x, y: x - y, dbl, node)
        done("tree_map of two trees", equal(two, d, value=lambda a, b: np.allclose(a, b)), two)
        other = jax.tree_util.tree_flatten(node.copy())[1]
        done("treedef of a copy", other == treedef)
        if len(flat) <= 4:
            out = jax.jit(lambda t: t)(node)
            done("jit identity", equal(out, d, value=lambda a, b: np.allclose(a, b)), out)
            out = jax.jit(lambda t: cn.iter_flat("", t).__next__()[1].copy())(node)
            done("jit copy", equal(out, d, value=lambda a, b: np.allclose(a, b)), out)


def height(d):
    return 0 if not d[2] else 1 + max(height(c) for _, c in d[2])


def relabel(node, vals, key):
    return cn.Node(vals[key], {k: relabel(c, vals, f"{key}/{k}") for k, c in node.items()})


## Primitives


def primitive_makers():
    from ..catalogue import generic_vertices

    out = [(f"Polygon{n}", (lambda n=n: build.make_any(f"G{n}", generic_vertices((f"G{n}",))[0])
                            if n in (3, 5) else build.polygon([(1.7 * i % 5 + 0.1 * i, i * i * 0.3) for i in range(n)])))
           for n in range(3, 14)]
    out += [("Point", lambda: build.point((1.5, -2.0))), ("Line", lambda: build.line([(0, 1), (2, 3.5)])),
            ("Quad", lambda: build.box(0.5, 1, 2, 3))]
    for x, X in ((0, 0), (1, 0), (1, 1)):
        for y, Y in ((0, 0), (1, 0), (1, 1)):
            kind = "A" + "x" * x + "y" * y + "X" * X + "Y" * Y
            out.append((kind, lambda kind=kind: build.make_any(kind, np.concatenate(
                [np.array(generic_vertices((k,), i)[0]) for i, (_, k) in enumerate(build.axes_parts(kind))]))))
    out.append(("Group", lambda: pr.PrimitiveNode(np.array([]), {
        "z": build.point((1, 2)), "a": build.box(0, 0, 1, 2), "m": build.make_any("Ax", generic_vertices(("Ax",))[0])})))
    # User-defined classes
    out += [(f"derived {name}", lambda make=make: custom.derived(make())) for name, make in out]
    out.append(("user-defined", lambda: pr.PrimitiveNode(np.array([]), {
        "z": custom.Circle([1.5], (build.point((1, 2)),)), "b": custom.Badge([3.0, 4.0], circle=True), "a": custom.Badge(), "m": custom.Circle()})))
    return out


def d_of(prim):
    return (type(prim), np.array(prim.value), [(k, d_of(c)) for k, c in prim.items()])


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a), np.asarray(b))


def run_prim(case, ctx):
    name, make = primitive_makers()[case["prims"]]
    prim = make()
    d = d_of(prim)
    # Only the documented classes are known to jax
    known = not name.startswith(("derived", "user-defined"))
    check_tree(ctx, d, name, known, node=prim)
    ops = [("unique values", rebuild(prim))]
    ops += [] if not known else [
        ("jit", jax.jit(lambda p: p)(prim)),
        ("vmap", jax.tree_util.tree_map(lambda x: x[1], jax.vmap(lambda p: p)(
            jax.tree_util.tree_map(lambda *xs: np.stack(xs), prim, prim, prim)))),
        ("jacfwd", jax.jit(lambda p: jax.tree_util.tree_map(lambda x: 1.0 * x, p))(prim)),
    ]
    for op, got in ops:
        ctx.ev()
        ctx.seen((op, name))
        ctx.check(equal(got, d, value=close), f"{op} on {name}: {got}")
    ctx.sample({"primitive": name, "nodes": len(list(cn.iter_flat("", prim)))})


def rebuild(prim, f=lambda v: np.array(v)):
    flat = cn.flatten("", prim)
    graph, vals = pr.filter_unique_values_from_prim(prim)
    return pr.build_prim_from_unique_values(flat, graph, [f(v) for v in vals])


def run_sharing(case, ctx):
    """Every assignment of up to three points to the vertices of two lines and a triangle"""
    n = 5 if ctx.tier == "quick" else 7
    for assign in itertools.product(range(3), repeat=n):
        pts = [build.point((1.0, 2.0)) for _ in range(3)]  # equal values
        p = [pts[i] for i in assign]
        root = pr.PrimitiveNode(np.array([]), {"T": pr.Polygon(None, p[:3], size=3), "L": pr.Line(prims=(p[3], p[4]))})
        if n == 7:
            root.add_child("A", pr.Line(prims=(p[5], p[6])))
            paths = ["T/Line0/Point0", "T/Line1/Point0", "T/Line2/Point0", "L/Point0", "L/Point1", "A/Point0", "A/Point1"]
        else:
            paths = ["T/Line0/Point0", "T/Line1/Point0", "T/Line2/Point0", "L/Point0", "L/Point1"]
        graph, vals = pr.filter_unique_values_from_prim(root)
        size = sum(v.size for v in vals)
        ctx.ev()
        ctx.seen(("share", assign))
        ctx.check(size == 2 * len(set(assign)), f"points shared as {assign}: {size} unknowns")
        k = iter(range(100))
        new = rebuild(root, lambda v: np.array(v) + np.arange(v.size) + 10.0 * next(k))
        got = {}
        for path, a in zip(paths, assign):
            got.setdefault(a, set()).add(tuple(new[path].value))
        ctx.check(all(len(v) == 1 for v in got.values())
                  and len({next(iter(v)) for v in got.values()}) == len(got),
                  f"points shared as {assign}: values after the update {got}")
        for i in range(3):
            e, s = new[f"T/Line{i}/Point1"].value, new[f"T/Line{(i + 1) % 3}/Point0"].value
            ctx.check(tuple(e) == tuple(s), f"points shared as {assign}: the triangle is open after the update")
