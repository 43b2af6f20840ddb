"""C16: primitives contain what they document, reject anything else, and own their coordinates"""

import itertools

import jax.numpy as jnp
import numpy as np

from mpllayout import containers as cn
from mpllayout import primitives as pr

from .. import build, custom

LEVEL = "exploration"
RULE = (
    "Every primitive class x every sequence of child primitives (from point, line, triangle, "
    "quadrilateral, axes, plain group) up to the stated length x every value form and length: accepted "
    "exactly when documented, with the documented children at the documented keys and coordinates; "
    "polygons of every size up to the bound (also without points) are closed loops through exactly the given points; every "
    "combination of axes flags gives exactly the documented parts; user-defined classes with every declared "
    "signature (number of values 0 to 3, tuples of types, repeated types, several alternatives) x every sequence of "
    "up to three children; every sequence of in-place changes of "
    "the arrays that coordinates were given in leaves all primitives as they were built. Distinct: "
    "(class, children, value) or (history)."
)
ASSUMPTIONS = [
    "primitives given to a Point, which has no parts, are not judged",
]


def bounds(tier):
    return {"polygon_sizes": [2, 40], "children_length": 5 if tier == "quick" else 6}


def cases(tier):
    out = [{"reject": c} for c in ("Point", "Line", "Quadrilateral", "Polygon", "Axes", "PrimitiveNode")]
    out += [{"polygon": n} for n in range(2, 41)]
    out += [{"axes": True}, {"own": True}, {"defaults": True}, {"point": True}]
    out += [{"user": i} for i in range(len(SIGNATURES))] + [{"classes": True}]
    return out


KINDS = {
    "P": lambda i=0: build.point((1.0 + i, 2.0 - i)),
    "L": lambda i=0: build.line([(0.5 + i, 1), (2, 3.0 + i)]),
    "T": lambda i=0: build.polygon([(0, 0), (1.0 + i, 0.5), (0.25, 2)]),
    "Q": lambda i=0: build.box(i, 1, i + 2.5, 4),
    "A": lambda i=0: pr.Axes(),
    "G": lambda i=0: pr.PrimitiveNode(np.array([]), {}),
}


def rejects(ctx, f, what):
    ctx.ev()
    ctx.seen(what)
    try:
        got = f()
    except Exception:
        return
    ctx.fail(f"{what}: accepted, giving {str(got)[:300]}")


def accepts(ctx, f, what):
    ctx.ev()
    ctx.seen(what)
    try:
        return f()
    except Exception as exc:
        ctx.fail(f"{what}: {type(exc).__name__} {exc}")


def run(case, ctx):
    for k, f in (("reject", run_reject), ("polygon", run_polygon), ("axes", run_axes),
                 ("own", run_own), ("defaults", run_defaults), ("point", run_point), ("user", run_user), ("classes", run_classes)):
        if k in case:
            f(case[k], ctx)


# Children of user-defined primitives: one of several tuples of types, where ... repeats the types before it
P, L, G, Q, ANY = pr.Point, pr.Line, pr.Polygon, pr.Quadrilateral, None
SIGNATURES = [
    (), (P,), (L, P), (P, P, P), (G,), (Q, G), (ANY,), (ANY, L), (P, ...), (G, ...), (ANY, ...), (P, L, ...), (Q, P, P, ...),
    {(P,), (L,)}, {(), (P, P)}, {(P,), (P, L), (P, L, Q)}, {(P, ...), (L,)}, {(L, ...), (P, ...)}, {(ANY,), (G, G)},
    {(custom.Anchor,), (custom.Circle, P)}, {(P, L, ...), (L, P, ...)}, (custom.Panel, custom.Circle),
]
MEMBERS = {
    "P": KINDS["P"], "L": KINDS["L"], "T": KINDS["T"], "Q": KINDS["Q"], "G": KINDS["G"],
    "anchor": lambda i=0: custom.Anchor([1.0 + i, 2.0]), "panel": lambda i=0: custom.Panel(), "circle": lambda i=0: custom.Circle([2.0 + i]),
}
KIND_OF = {"P": (P,), "L": (L,), "T": (G,), "Q": (Q, G), "G": (), "anchor": (custom.Anchor, P), "panel": (custom.Panel, Q, G), "circle": (custom.Circle,)}


def matches(members, types):
    """Whether primitives of these kinds are one of the `types`"""
    if types and types[-1] is ...:
        unit = types[:-1]
        return len(members) % len(unit) == 0 and matches(members, unit * (len(members) // len(unit)))
    return len(members) == len(types) and all(t is ANY or t in KIND_OF[m] for m, t in zip(members, types))


def run_user(i, ctx):
    """User-defined classes of primitives accept exactly the values and children they declare"""
    types = SIGNATURES[i]
    options = list(types) if isinstance(types, set) else [types]
    for size in range(4):
        cls = type("User", (pr.PrimitiveNode,), {"signature": (size, types)})
        sub = type("Sub", (cls,), {})
        for n in range(4 if ctx.quick or size else 5):
            for members in itertools.product(MEMBERS, repeat=n):
                kids = {f"key{'zyxwv'[j]}": MEMBERS[m](j) for j, m in enumerate(members)}
                ok = any(matches(members, t) for t in options)
                for length in (size,) if n > 2 else range(4):
                    what = f"primitive of {size} values and {types} with {length} values and {members}"
                    value = np.arange(length) + 0.5
                    for c in (cls, sub) if n == 1 else (cls,):
                        if not (ok and length == size):
                            rejects(ctx, lambda: c(value, dict(kids)), what)
                            continue
                        got = accepts(ctx, lambda: c(value, dict(kids)), what)
                        if got is not None:
                            ctx.check(type(got) is c and got.keys() == list(kids) and all(a is b for a, b in zip(got.values(), kids.values()))
                                      and np.array_equal(got.value, value), f"{what} is {got}")
    ctx.sample({"children": str(types)})


def run_classes(_, ctx):
    """User-defined classes with own values, default parts and options"""
    center = build.point((3.0, -1.0))
    for value in (None, [2.5], (2,), np.array([0.25]), jnp.array([4.0])):
        for prims in (None, (center,), [center]):
            what = f"Circle({value!r}, {prims})"
            c = accepts(ctx, lambda: custom.Circle(value, prims), what)
            ctx.check(c.keys() == ["Center"] and np.allclose(c.value, 1.0 if value is None else value) and (prims is None or c["Center"] is center)
                      and np.allclose(c["Center"].value, (0, 0) if prims is None else (3, -1)), f"{what} is {c}")
    for bad in ((center, center), (), (build.line([(0, 1), (2, 3)]),), (custom.Circle(),)):
        rejects(ctx, lambda: custom.Circle(None, bad), f"Circle(None, {bad})")
    for bad in ([], [1.0, 2.0], "x", 1.0):
        rejects(ctx, lambda: custom.Circle(bad), f"Circle({bad!r})")
    for value, flag in itertools.product((None, [7.0, 8.0]), (False, True)):
        what = f"Badge({value}, circle={flag})"
        b = accepts(ctx, lambda: custom.Badge(value, circle=flag), what)
        ctx.check(b.keys() == ["Box", "Circle"][: 1 + flag] and np.allclose(b.value, value or (0.5, 0.25)), f"{what} is {b}")
        own = (build.box(0, 1, 2, 3), custom.Circle([9.0]))
        for n in range(3):
            what = f"Badge({value}, {n} parts, circle={flag})"
            if n == 1 + flag:
                b = accepts(ctx, lambda: custom.Badge(value, own[:n], circle=flag), what)
                ctx.check(b.keys() == ["Box", "Circle"][:n] and all(x is y for x, y in zip(b.values(), own)), f"{what} is {b}")
            elif n == 0:
                rejects(ctx, lambda: custom.Badge(value, own[:n], circle=flag), what)
        for bad in (own[::-1], (own[1],), (own[0], own[0])):
            rejects(ctx, lambda: custom.Badge(value, bad, circle=flag), f"Badge({value}, {[type(x).__name__ for x in bad]}, circle={flag})")
    for cls, prims, n in ((custom.Anchor, (), 0), (custom.Arrow, (center, center), 2), (custom.Panel, [center] * 4, 4)):
        for given in (None, prims):
            p = accepts(ctx, lambda: cls(None, given), f"{cls.__name__} {given}")
            ctx.check(type(p) is cls and len(p) == n, f"{cls.__name__}({given}) is {p}")
        rejects(ctx, lambda: cls([1.0, 2.0, 3.0]), f"{cls.__name__} of three values")
    ctx.sample({"classes": ["Circle", "Badge", "Anchor", "Arrow", "Panel"]})


def pts(n, k=0):
    return [(0.75 * i + k, 0.31 * i * i - 2.0 * k) for i in range(n)]


def run_reject(cls, ctx):
    limit = bounds(ctx.tier)["children_length"]
    empty = np.array([])
    for n in range(0, limit + 1):
        for kinds in itertools.product(KINDS, repeat=n):
            prims = tuple(KINDS[k](i) for i, k in enumerate(kinds))
            s = "".join(kinds)
            if cls == "Point":
                if n <= 3:
                    f = lambda: pr.PrimitiveNode.from_tree(None, {}) and pr.Point([1.0, 2.0], prims)
                    # children of a point are never kept
                    p = accepts(ctx, f, f"Point with {s}") if n == 0 else None
                    ctx.check(p is None or len(p) == 0, f"Point with {s} has children {p}")
            elif cls == "Line":
                if s == "PP":
                    l = accepts(ctx, lambda: pr.Line(None, prims), f"Line({s})")
                    ctx.check(l.keys() == ["Point0", "Point1"] and l["Point0"] is prims[0] and l["Point1"] is prims[1]
                              and l.value.size == 0, f"Line({s}) is {l}")
                else:
                    rejects(ctx, lambda: pr.Line(None, prims), f"Line({s})")
            elif cls == "Quadrilateral":
                f = lambda: pr.Quadrilateral(None, list(prims))
                if s == "PPPP":
                    q = accepts(ctx, f, f"Quadrilateral({s})")
                    check_loop(ctx, q, [p.value for p in prims], f"Quadrilateral({s})", pr.Quadrilateral)
                else:
                    rejects(ctx, f, f"Quadrilateral({s})")
            elif cls == "Polygon" and n >= 2:
                f = lambda: pr.Polygon(None, list(prims), size=n)
                if set(s) == {"P"}:
                    q = accepts(ctx, f, f"Polygon({s})")
                    check_loop(ctx, q, [p.value for p in prims], f"Polygon({s})", pr.Polygon)
                else:
                    rejects(ctx, f, f"Polygon({s})")
            elif cls == "Axes" and n in (1, 3, 5):
                flags = {1: {}, 3: {"xaxis": True}, 5: {"xaxis": True, "yaxis": True}}[n]
                f = lambda: pr.Axes(None, prims, **flags)
                if s in ("Q", "QQP", "QQPQP"):
                    a = accepts(ctx, f, f"Axes({s})")
                    ctx.check(a.values() == list(prims), f"Axes({s}) is {a}")
                else:
                    rejects(ctx, f, f"Axes({s}, {flags})")
            elif cls == "PrimitiveNode" and n <= 3:
                kids = {f"key{i}": p for i, p in enumerate(prims)}
                g = accepts(ctx, lambda: pr.PrimitiveNode(empty, kids), f"PrimitiveNode({s})")
                ctx.check(g.keys() == list(kids) and all(a is b for a, b in zip(g.values(), prims)),
                          f"PrimitiveNode({s}) is {g}")
    for bad in (1, "x", None, np.zeros(2), cn.Node(1, {}), [0.0, 1.0]):
        for cname, n in (("Line", 2), ("Quadrilateral", 4), ("Polygon", 3)):
            if cls == cname:
                for i in range(n):
                    prims = [KINDS["P"](k) for k in range(n)]
                    prims[i] = bad
                    f = {"Line": lambda: pr.Line(None, prims), "Quadrilateral": lambda: pr.Quadrilateral(None, prims),
                         "Polygon": lambda: pr.Polygon(None, prims, size=3)}[cname]
                    rejects(ctx, f, f"{cname} with {bad!r} as primitive {i}")
        if cls == "PrimitiveNode":
            rejects(ctx, lambda: pr.PrimitiveNode(empty, {"a": bad}), f"PrimitiveNode with child {bad!r}")
    # values of the wrong size or type
    for n in range(1, 4):
        v = [0.5] * n
        f = {"Line": lambda: pr.Line(v), "Quadrilateral": lambda: pr.Quadrilateral(v),
             "Polygon": lambda: pr.Polygon(v), "Axes": lambda: pr.Axes(v)}.get(cls)
        if f:
            rejects(ctx, f, f"{cls}({v})")
        if cls == "PrimitiveNode":
            rejects(ctx, lambda: pr.PrimitiveNode(np.array(v), {}), f"PrimitiveNode({v})")
    for v in ([], (), np.array([])):
        f = {"Line": lambda: pr.Line(v), "Quadrilateral": lambda: pr.Quadrilateral(v),
             "Polygon": lambda: pr.Polygon(v), "Axes": lambda: pr.Axes(v)}.get(cls)
        if f:
            accepts(ctx, f, f"{cls}({v!r})")
    ctx.sample({"class": cls, "last": s})


def check_loop(ctx, poly, vertices, what, cls):
    n = len(vertices)
    ctx.check(type(poly) is cls and poly.keys() == [f"Line{i}" for i in range(n)] and poly.value.size == 0,
              f"{what}: is {poly}")
    for i in range(n):
        a, b = poly[f"Line{i}/Point0"], poly[f"Line{i}/Point1"]
        ctx.check(type(poly[f"Line{i}"]) is pr.Line, f"{what}: Line{i} is no line")
        ctx.check(
            np.array_equal(a.value, vertices[i]) and np.array_equal(b.value, vertices[(i + 1) % n]),
            f"{what}: Line{i} joins {a.value} and {b.value} instead of {vertices[i]} and {vertices[(i + 1) % n]}",
        )
    graph, vals = pr.filter_unique_values_from_prim(poly)
    size = sum(v.size for v in vals)
    ctx.check(size == 2 * n, f"{what}: {size} independent coordinates instead of {2 * n}")


def run_polygon(n, ctx):
    for k in range(3):
        for wrap in (list, tuple):
            v = pts(n, k)
            p = accepts(ctx, lambda: pr.Polygon(None, wrap(build.point(x) for x in v), size=n), f"Polygon of {n} points {k} {wrap}")
            check_loop(ctx, p, v, f"Polygon {n}", pr.Polygon)
            p = accepts(ctx, lambda: pr.Polygon(prims=wrap(build.point(x) for x in v)), f"Polygon of {n} points {k} {wrap} without size")
            check_loop(ctx, p, v, f"Polygon {n} without size", pr.Polygon)
    if n >= 3:
        p = accepts(ctx, lambda: pr.Polygon(size=n), f"Polygon(size={n})")
        v = [p[f"Line{i}/Point0"].value for i in range(len(p))]
        check_loop(ctx, p, v, f"Polygon(size={n})", pr.Polygon)
        ctx.check(len(p) == n, f"Polygon(size={n}) has {len(p)} lines")
        area = 0.5 * sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(v, v[1:] + v[:1]))
        ctx.check(area > 0.1 and len({tuple(np.round(x, 6)) for x in v}) == n,
                  f"Polygon(size={n}): default vertices {np.round(v, 6).tolist()} are degenerate")
    ctx.sample({"size": n})


def run_axes(_, ctx):
    for x, y, X, Y in itertools.product((False, True), repeat=4):
        flags = dict(xaxis=x, yaxis=y, twinx=X, twiny=Y)
        want = [("Frame", pr.Quadrilateral)]
        if x:
            want += [("XAxis", pr.Quadrilateral), ("XAxisLabel", pr.Point)]
        if y:
            want += [("YAxis", pr.Quadrilateral), ("YAxisLabel", pr.Point)]
        if x and X:
            want += [("TwinXAxis", pr.Quadrilateral), ("TwinXAxisLabel", pr.Point)]
        if y and Y:
            want += [("TwinYAxis", pr.Quadrilateral), ("TwinYAxisLabel", pr.Point)]
        a = accepts(ctx, lambda: pr.Axes(**flags), f"Axes({flags})")
        got = sorted((k, type(c).__name__) for k, c in a.items())
        ctx.check(got == sorted((k, c.__name__) for k, c in want), f"Axes({flags}) has {got}")
        for k, c in a.items():
            if isinstance(c, pr.Quadrilateral):
                check_loop(ctx, c, [(0, 0), (1, 0), (1, 1), (0, 1)], f"Axes({flags})/{k}", pr.Quadrilateral)
        n = sum(v.size for v in pr.filter_unique_values_from_prim(a)[1])
        w = sum(8 if c is pr.Quadrilateral else 2 for _, c in want)
        ctx.check(n == w, f"Axes({flags}): {n} independent coordinates instead of {w}")
        b = pr.Axes(**flags)
        ids = {id(v) for v in pr.filter_unique_values_from_prim(a)[1]}
        ctx.check(not any(id(v) in ids for v in pr.filter_unique_values_from_prim(b)[1] if v.size),
                  f"Axes({flags}): two default axes share coordinates")
        # Given parts end up under their documented keys
        prims = tuple(build.box(i, 0, i + 1, 2 + i) if c is pr.Quadrilateral else build.point((i, 9))
                      for i, (_, c) in enumerate(want))
        a = accepts(ctx, lambda: pr.Axes(None, prims, **flags), f"Axes(given parts, {flags})")
        ctx.check(len(a) == len(want), f"Axes(given parts, {flags}) has {a.keys()}")
        for (k, c), p in zip(want, prims):
            ctx.check(a[k] is p, f"Axes(given parts, {flags}): {k} is {a[k]} instead of {p}")
        # Missing and additional parts
        for n in range(6):
            parts = [build.box(0, 0, 1, 2)] + [f for _ in range(n) for f in (build.box(1, 0, 2, 2), build.point((3, 4)))]
            for m in {1 + 2 * n, max(2 * n, 0)}:
                if m != len(want):
                    for form in (tuple, list):
                        rejects(ctx, lambda: pr.Axes(None, form(parts[:m]), **flags), f"Axes({flags}) with {m} instead of {len(want)} parts as a {form.__name__}")
    ctx.sample({"flags": "all 16 combinations"})


def run_defaults(_, ctx):
    made = []
    for _ in range(2):
        made += [pr.Point(), pr.Line(), pr.Polygon(), pr.Polygon(size=6), pr.Quadrilateral(), pr.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True)]
    check_loop(ctx, made[4], [(0, 0), (1, 0), (1, 1), (0, 1)], "Quadrilateral()", pr.Quadrilateral)
    for a, b in itertools.combinations(made, 2):
        ia = {id(v) for v in pr.filter_unique_values_from_prim(a)[1] if v.size}
        ib = {id(v) for v in pr.filter_unique_values_from_prim(b)[1] if v.size}
        ctx.ev()
        ctx.seen((type(a).__name__, type(b).__name__, "defaults", made.index(a), made.index(b)))
        ctx.check(not ia & ib, f"default {type(a).__name__} and {type(b).__name__} share coordinates")
    l = pr.Line()
    ctx.check(not np.array_equal(l["Point0"].value, l["Point1"].value), "the default line has no length")


def run_point(_, ctx):
    for v in ((0.5, -2.0), (0, 0), (1, 2), (1e-300, 1e300), (-0.25, 3)):
        for name, f in (("list", list), ("tuple", tuple), ("array", np.array), ("float32", lambda v: np.array(v, dtype=np.float32)),
                        ("int array", lambda v: np.array(v).astype(int)), ("jax", jnp.asarray), ("slice", lambda v: np.array([9, *v, 9])[1:3]),
                        ("column", lambda v: np.array([v, v]).T[:, 0])):
            given = f(v)
            p = accepts(ctx, lambda: pr.Point(given), f"Point({name} {v})")
            ctx.check(p.value.shape == (2,) and np.array_equal(p.value, np.asarray(given)) and len(p) == 0, f"Point({name} {v}) is {p}")
    for n in (0, 1, 3, 4):
        for f in (list, tuple, np.array, jnp.array):
            rejects(ctx, lambda: pr.Point(f([1.0] * n)), f"Point of {n} coordinates as {f.__name__}")
    for bad in (1.0, 3, "ab", {"x": 1, "y": 2}, np.zeros((3, 2)), np.float64(1)):
        rejects(ctx, lambda: pr.Point(bad), f"Point({bad!r})")


def run_own(_, ctx):
    """Histories of building points from two caller arrays and changing the arrays in place"""
    depth = 5 if ctx.tier == "quick" else 7
    ops = [("build", 0), ("build", 1), ("line", 0), ("change", 0), ("change", 1), ("view", 0)]
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            arrays = [np.array([1.0, 2.0]), np.array([3.0, 4.0])]
            model, prims = [], []
            for k, (op, i) in enumerate(h):
                if op == "build":
                    prims.append(pr.Point(arrays[i]))
                    model.append([arrays[i].copy()])
                elif op == "view":
                    prims.append(pr.Point(np.concatenate(arrays)[i : i + 2]))
                    model.append([np.concatenate(arrays)[i : i + 2].copy()])
                elif op == "line":
                    prims.append(pr.Line(prims=(pr.Point(arrays[0]), pr.Point(arrays[0]))))
                    model.append([arrays[0].copy()] * 2)
                else:
                    arrays[i] += 10.0 * (k + 1)
            ctx.ev()
            if any(o[0] == "change" for o in h):
                ctx.seen(h)
            size = 0
            for p, m in zip(prims, model):
                got = [p.value] if isinstance(p, pr.Point) else [c.value for c in p.values()]
                ctx.check(all(np.array_equal(a, b) for a, b in zip(got, m)), f"after {h}: {got} instead of {m}")
                size += 2 * len(m)
            root = pr.PrimitiveNode(np.array([]), {f"p{i}": p for i, p in enumerate(prims)})
            n_free = sum(v.size for v in pr.filter_unique_values_from_prim(root)[1])
            ctx.check(n_free == size, f"after {h}: {n_free} independent coordinates instead of {size}")
    ctx.sample({"history": h})
