"""C02: solving keeps the structure of the primitives and leaves everything else alone"""

import itertools

import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr

from .. import build, catalogue, custom, solving

LEVEL = "exploration"
RULE = (
    "(1) Every way to share points among the five vertices of a triangle and a line (all set partitions), "
    "with all points at equal coordinates or at their own, x every vertex fixed at a new place; (2) every "
    "documented constraint solved on a layout that also holds unrelated primitives of every type (nested "
    "groups, polygons of 3 to 12 vertices, axes, integer coordinates) x names x solver method; (2b) meshes of up to 36 quadrilaterals that share corners, with corners fixed; (2b') unrelated primitives with coordinates of all sizes; (2c) several primitives of each type made "
    "without arguments, with each of their points fixed; (2d) primitives of user-defined classes (derived ones, and with own values and parts) under "
    "documented and user-defined constraints; (3) no "
    "constraints at all. After each solve: same keys, order and types; points shared before are shared "
    "after and no others; coordinates in no constraint keep their values; the layout that was solved is "
    "untouched, also when the result is edited; solving the solution again changes nothing. "
    "Distinct: (layout, constraint, method)."
)
ASSUMPTIONS = [
    "most solves run with jax.disable_jit (the same code, uncompiled); a part is repeated compiled",
]


def bounds(tier):
    return {"partitions_of": slots(tier), "methods": ["newton", "minimize"]}


def slots(tier):
    return 5


def partitions(n):
    """Restricted growth strings"""

    def go(prefix, top):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for i in range(top + 2):
            yield from go(prefix + [i], max(top, i))

    return list(go([], -1))


def cases(tier):
    parts = partitions(5)
    out = [{"partition": list(p), "equal": e} for p in parts for e in (True, False)]
    out += [{"use": i, "name": u.name} for i, u in enumerate(catalogue.uses())]
    out += [{"mesh": n, "equal": e} for n in (4, 7) for e in (True, False)]
    out += [{"defaults": n} for n in range(len(DEFAULTS))]
    out += [{"user": n, "equal": e} for n in range(5) for e in (True, False)]
    out += [{"scale": n, "method": m} for n in range(4) for m in ("newton", "minimize")]
    out += [{"none": m} for m in ("newton", "minimize")]
    if tier == "thorough":
        out = [dict(c, pairs=True) if "partition" in c else c for c in out]
    return out


PATHS = ["T/Line0/Point0", "T/Line1/Point0", "T/Line2/Point0", "L/Point0", "L/Point1"]
ENDS = ["T/Line2/Point1", "T/Line0/Point1", "T/Line1/Point1", None, None]
HOME = [(0.0, 0.0), (2.0, 0.25), (0.5, 1.5), (3.0, 1.0), (4.0, -1.0)]


def shared_layout(assign, equal):
    pts = [build.point((1.0, 2.0) if equal else HOME[i]) for i in range(5)]
    p = [pts[i] for i in assign]
    l = lay.Layout()
    l.add_prim(pr.Polygon(None, p[:3], size=3), "T")
    l.add_prim(pr.Line(prims=(p[3], p[4])), "L")
    return l


def check_solve(ctx, make, touched, what, methods=("newton",), jit=False, fixed=None, deep=True, **kw):
    """
    `touched`: predicate over keys of coordinates that may change
    `fixed`: coordinates that must come out
    """
    for method in methods:
        layout = make()
        before = solving.frozen_layout(layout)
        old = solving.coords(layout.root_prim)
        sol, info = solving.solve(layout, jit=jit, method=method, **kw)
        w = f"{what} ({method})"
        ctx.ev()
        ctx.seen((what, method, jit))
        ctx.check(solving.frozen_layout(layout) == before, f"{w}: solving changed the layout that was passed in")
        ctx.check(solving.same_structure(sol, layout.root_prim), f"{w}: the solution has another structure",
                  solution=[x[:2] for x in solving.flat(sol)], given=[x[:2] for x in solving.flat(layout.root_prim)])
        new = solving.coords(sol)
        for group in solving.sharing(layout.root_prim):
            vals = {tuple(new[k]) for k in group}
            ctx.check(len(vals) == 1, f"{w}: the shared point {group} came apart: {vals}")
        for k in new:
            ctx.check(np.all(np.isfinite(new[k])), f"{w}: {k} is at {new[k]}")
            if not touched(k):
                ctx.check(np.allclose(new[k], old[k], rtol=0, atol=1e-4 if "Grid" in what else 1e-8),
                          f"{w}: {k}, which is in no constraint, moved from {old[k]} to {new[k]}")
        for k, v in (fixed or {}).items():
            ctx.check(np.allclose(new[k], v, atol=1e-6 if method == "newton" else 1e-3), f"{w}: {k} is at {new[k]} instead of {v}")
        # The solution is independent of the layout, but keeps the sharing
        for _, n in solving.cn.iter_flat("", sol):
            if isinstance(n.value, np.ndarray) and n.value.size and n.value.flags.writeable:
                np.add(n.value, 100.0, out=n.value)
        ctx.check(solving.frozen_layout(layout) == before, f"{w}: editing the solution changed the layout")
        if method == "newton" and deep:
            sol, info = solving.solve(layout, jit=jit, method=method, **kw)
            again = {k: v for k, v in solving.coords(sol).items()}
            ctx.check(all(np.array_equal(again[k], new[k]) for k in new), f"{w}: solving twice gives different results")
            frz = solving.frozen(sol)
            l2 = solving.with_prims(layout, sol)
            sol2, _ = solving.solve(l2, jit=jit, method=method, **kw)
            new2 = solving.coords(sol2)
            ctx.check(solving.frozen(sol) == frz, f"{w}: solving the solution changed it in place")
            converged = solving.residual_norm(layout, l2.root_prim) < 1e-9
            ctx.check(not converged or all(np.allclose(new2[k], new[k], rtol=1e-6, atol=1e-6) for k in new),
                      f"{w}: solving the solution again moves it")
            ctx.check(solving.same_structure(sol2, sol), f"{w}: the structure is lost on the second solve")
            # Points that were shared are still one point for a new problem
            l3 = lay.Layout(sol)
            group = max(solving.sharing(layout.root_prim), key=len)
            l3.add_constraint(cr.Fix(), (group[-1][1:],), ((-7.0, 5.5),))
            sol3, _ = solving.solve(l3, jit=jit)
            new3 = solving.coords(sol3)
            for k in new3:
                want = (-7.0, 5.5) if k in group else new[k]
                ctx.check(np.allclose(new3[k], want, atol=1e-9), f"{w}: after fixing {group[-1]} in the "
                          f"solution, {k} is at {new3[k]} instead of {want}")


def run(case, ctx):
    if "partition" in case:
        assign = tuple(case["partition"])
        equal = case["equal"]
        extra = [None] + (list(range(5)) if case.get("pairs") else [])
        for i in range(5):
            if not equal and ctx.quick and i != (sum(assign) + 2) % 5:
                continue
            for j in extra:
                if j is not None and (j <= i or assign[i] == assign[j]):
                    continue

                def make():
                    l = shared_layout(assign, equal)
                    l.add_constraint(cr.Fix(), (PATHS[i],), ((3.5, -1.25),))
                    if j is not None:
                        l.add_constraint(cr.Fix(), (PATHS[j],), ((-2.5, 4.0),))
                    return l

                fixed = {}
                for k in range(5):
                    v = (3.5, -1.25) if assign[k] == assign[i] else (-2.5, 4.0) if j is not None and assign[k] == assign[j] else None
                    if v:
                        fixed["/" + PATHS[k]] = v
                        if ENDS[k]:
                            fixed["/" + ENDS[k]] = v
                check_solve(ctx, make, lambda k: k in fixed, f"points shared as {assign}, equal={equal}, {PATHS[i]} and {j} fixed",
                            fixed=fixed, methods=("newton", "minimize") if i == 0 and j is None and equal else ("newton",),
                            deep=ctx.tier == "thorough" or i == sum(assign) % 5, jit=(i == 1 and j is None and equal and sum(assign) % 5 == 0))
        ctx.sample({"sharing": assign, "equal coordinates": equal})
        return

    if "mesh" in case:
        return run_mesh(case, ctx)

    if "defaults" in case:
        return run_defaults(case, ctx)

    if "user" in case:
        return run_user(case, ctx)

    if "scale" in case:
        return run_scale(case, ctx)

    if "none" in case:
        for n, make in enumerate((lambda: lay.Layout(bystanders({})), lambda: shared_layout((0, 1, 0, 2, 1), True))):
            check_solve(ctx, make, lambda k: False, f"layout {n} without constraints", methods=(case["none"],))
        return

    u = catalogue.uses()[case["use"]]
    big = ctx.quick and len(u.kinds) > 2
    for scheme in (0,) if big else (0, 1):
        names = [f"Prim{i}" for i in range(len(u.kinds))] if scheme == 0 else [f"z{i}" for i in range(len(u.kinds))][::-1]

        def make():
            # grids start from rectangles and have one rectangle of given size: otherwise the
            # solver takes steps so large that rounding alone visibly moves everything
            prims = u.prims() if "Grid" not in u.name else [
                build.box(1.5 * i, 0.25 * i, 1.5 * i + 1 + 0.1 * i, 1 + 0.5 * i) for i in range(len(u.kinds))]
            own = {n: p if scheme == 0 else custom.derived(p) for n, p in zip(names, prims)}
            l = lay.Layout(bystanders(own, first=scheme == 1))
            l.add_constraint(u.make(), tuple(names), u.params)
            if "Grid" in u.name:
                l.add_constraint(cr.Fix(), (names[0] + "/Line0/Point0",), ((0.5, 0.25),))
                l.add_constraint(cr.Width(), (names[0],), (1.25,))
                l.add_constraint(cr.Height(), (names[0],), (0.75,))
            return l

        touched = lambda k: any(k == f"/{n}" or k.startswith(f"/{n}/") for n in names)
        check_solve(ctx, make, touched, f"{u.name}{tuple(u.params)} with names {names[:2]}", 
                    max_iter=5 if big else 25, deep=len(u.kinds) <= 4,
                    methods=("newton", "minimize") if scheme == 0 and not big else ("newton",))
    ctx.sample({"use": u.name, "unrelated": [x[:2] for x in solving.flat(bystanders({}))][:8]})


SCALES = [1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1.0, 1e3, 1e6, 1e9]


def run_scale(case, ctx):
    """Unrelated primitives with coordinates of all sizes keep them"""
    kind, method = case["scale"], case["method"]
    l = lay.Layout()
    for i, s in enumerate(SCALES):
        l.add_prim(build.point((s, -3 * s)), f"point{i}")
        l.add_prim(build.line([(0.0, s), (-2 * s, 5.0)]), f"line{i}")
        l.add_prim(solving.group({"box": build.box(-s, 0.0, s, 2 * s)}), f"group{i}")
    l.add_prim(build.box(0.0, 0.0, 2.0, 1.0), "Box")
    box = "Box"
    given = [
        [(cr.Fix(), (f"{box}/Line1/Point1",), ((2.5, 1.5),))],
        [(cr.Width(), (box,), (2.5,)), (cr.Height(), (box,), (0.75,))],
        [(cr.Box(), (box,), ()), (cr.Fix(), (f"{box}/Line0/Point0",), ((-1.0, 0.5),))],
        [],
    ][kind]
    for args in given:
        l.add_constraint(*args)
    old = solving.coords(l.root_prim)
    sol, _ = solving.solve(l, method=method)
    new = solving.coords(sol)
    ctx.ev()
    ctx.seen(("scale", kind, method))
    ctx.check(solving.same_structure(sol, l.root_prim), f"unrelated primitives of all sizes ({method}): the solution has another structure")
    for k in old:
        if not k.startswith("/Box"):
            ctx.check(np.allclose(new[k], old[k], rtol=1e-9, atol=1e-13),
                      f"unrelated primitives of all sizes, constraints {kind} ({method}): {k} moved from {old[k]} to {new[k]}")
    ctx.sample({"scales": SCALES, "constraints": kind})


def run_mesh(case, ctx):
    """Many quadrilaterals that share their corners (and points of the same place that they don't share)"""
    n, equal = case["mesh"], case["equal"]

    def make(fixed):
        at = lambda i, j: (1.0, 2.0) if equal else (i + 0.1 * j, j - 0.05 * i * j)
        pts = {(i, j): build.point(at(i, j)) for i in range(n) for j in range(n)}
        l = lay.Layout()
        for i, j in itertools.product(range(n - 1), range(n - 1)):
            corners = [pts[i, j], pts[i + 1, j], pts[i + 1, j + 1], pts[i, j + 1]]
            q = pr.Quadrilateral(None, corners)
            if (i + j) % 3 == 0:
                l.add_prim(q, f"Q{i}.{j}")
            else:
                l.add_prim(solving.group({"in": q}), f"G{i}.{j}")
            l.add_prim(build.point(at(i, j)), f"own{i}.{j}")
        for path, v in fixed:
            l.add_constraint(cr.Fix(), (path,), (v,))
        return l

    def key(i, j):
        return f"Q{i}.{j}" if (i + j) % 3 == 0 else f"G{i}.{j}/in"

    def expected(i, j, v):
        """Keys of the corner i, j, from all quadrilaterals around it"""
        out = {}
        for m, (di, dj) in enumerate(((0, 0), (-1, 0), (-1, -1), (0, -1))):
            a, b = i + di, j + dj
            if 0 <= a < n - 1 and 0 <= b < n - 1:
                out[f"/{key(a, b)}/Line{m}/Point0"] = v
                out[f"/{key(a, b)}/Line{(m - 1) % 4}/Point1"] = v
        return out

    for m in range(6):
        i, j = [(0, 0), (1, 1), (n - 2, n - 2), (0, n - 2), (1, n - 2), (n - 2, 0)][m]
        fixed, want = [(f"{key(i, j)}/Line0/Point0", (3.5, -1.25 * m))], expected(i, j, (3.5, -1.25 * m))
        if m % 2:
            fixed.append((f"own{i}.{j}", (9.0, 8.0)))
            want[f"/own{i}.{j}"] = (9.0, 8.0)
        if m == 2:
            fixed.append((f"{key(n - 2, n - 2)}/Line2/Point0", (0.25, 0.5)))
            want.update(expected(n - 1, n - 1, (0.25, 0.5)))
        check_solve(ctx, lambda: make(fixed), lambda k: k in want, f"mesh of {n}, equal={equal}, fixed {fixed}", fixed=want,
                    methods=("newton", "minimize") if m == 1 and n == 4 else ("newton",), deep=m < 3, jit=m == 5)
    ctx.sample({"mesh": n, "fixed": fixed})


def run_user(case, ctx):
    """User-defined primitives with own values and user-defined constraints"""
    equal = case["equal"]
    r = (lambda i: 1.0) if equal else (lambda i: 1.0 + 0.25 * i)

    def prims():
        center, other = build.point((1.0, 1.0)), build.point((1.0, 1.0) if equal else (0.25, 3.0))
        first = custom.Circle([r(0)], (center,))
        badge = custom.Badge([r(1), r(2)], (custom.derived(build.box(0, 1, 2, 4)), custom.Circle([r(3)], (center,))), circle=True)
        return {
            "a": first, "Circle0": custom.Circle([r(4)], (other,)), "same": solving.group({"again": first}),
            "badge": badge, "plain": custom.Badge([r(1), r(2)]), "arrow": custom.Arrow(prims=(other, center)),
            "anchor": custom.Anchor((1.0, 1.0)), "default": custom.Circle(), "default too": custom.Circle(),
            "outline": custom.derived(build.polygon([(0, 0), (2.0, 0.25), (0.5, 1.5)])),
        }

    centers = ["/a/Center", "/same/again/Center", "/badge/Circle/Center", "/arrow/Point1"]
    others = ["/Circle0/Center", "/arrow/Point0"]
    outline = ["/outline/Line0/Point0", "/outline/Line2/Point1"]
    # constraints and the coordinates they determine
    sets = [
        ([(custom.SetRadius(), ("a",), (2.75,))], {"/a": (2.75,), "/same/again": (2.75,)}),
        ([(cr.Fix(), ("badge/Circle/Center",), ((3.0, -2.0),))], {k: (3.0, -2.0) for k in centers}),
        ([(custom.SetRadius(), ("badge/Circle",), (0.375,)), (cr.Fix(), ("anchor",), ((5.0, 6.0),)), (cr.Fix(), ("arrow/Point0",), ((-1.0, 7.0),))],
         {"/badge/Circle": (0.375,), "/anchor": (5.0, 6.0), **{k: (-1.0, 7.0) for k in others}}),
        ([(cr.Fix(), ("plain/Box/Line0/Point0",), ((4.0, 2.0),)), (custom.Inside(), ("plain",), (0.5,)), (cr.Fix(), ("outline/Line0/Point0",), ((9.0, 1.0),))],
         {"/plain": (2.0, 1.0), "/plain/Box/Line0/Point0": (4.0, 2.0), "/plain/Box/Line3/Point1": (4.0, 2.0), **{k: (9.0, 1.0) for k in outline}}),
        ([(custom.SetRadius(), ("Circle0",), (0.125,)), (custom.SetRadius(), ("default too",), (6.5,)),
          (cr.Fix(), ("default/Center",), ((2.5, 3.5),)), (cr.Fix(), ("same/again/Center",), ((8.0, 8.5),))],
         {"/Circle0": (0.125,), "/default too": (6.5,), "/default/Center": (2.5, 3.5), **{k: (8.0, 8.5) for k in centers}}),
    ]
    for m, (given, fixed) in enumerate([sets[case["user"]], (sets[case["user"]][0][::-1], sets[case["user"]][1])]):

        def make():
            l = lay.Layout(solving.group(prims()))
            for args in given:
                l.add_constraint(*args)
            return l

        check_solve(ctx, make, lambda k: k in fixed, f"user-defined primitives {case} order {m}", fixed=fixed,
                    methods=("newton", "minimize") if m == 0 else ("newton",), jit=m == 1)
    ctx.sample({"fixed": fixed})


# Primitives made without any arguments, and the corners they are documented to have
DEFAULTS = [
    ("point", lambda: pr.Point(), 0, []),
    ("line", lambda: pr.Line(), 0, []),
    ("triangle", lambda: pr.Polygon(), 3, [""]),
    ("hexagon", lambda: pr.Polygon(size=6), 6, [""]),
    ("quadrilateral", lambda: pr.Quadrilateral(), 4, [""]),
    ("axes", lambda: pr.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True), 4,
     ["/Frame", "/XAxis", "/YAxis", "/TwinXAxis", "/TwinYAxis"]),
]


def run_defaults(case, ctx):
    """Several primitives of each type made without arguments: each of their points is its own"""
    name, new, size, polys = DEFAULTS[case["defaults"]]

    def prims():
        return {"A": new(), "B": new(), "Other": solving.group({f"{n}{i}": f() for n, f, _, _ in DEFAULTS for i in range(2)})}

    corners = []
    for p in polys:
        corners += [{f"/A{p}/Line{i}/Point0", f"/A{p}/Line{(i - 1) % size}/Point1"} for i in range(size)]
    done = set().union(*corners) if corners else set()
    for k, t, v in solving.flat(solving.group(prims())):
        if v.size and k.startswith("/A") and k not in done:
            corners.append({k})
    for m, corner in enumerate(sorted(corners, key=sorted)):

        def make():
            l = lay.Layout(solving.group(prims()))
            l.add_constraint(cr.Fix(), (sorted(corner)[-1][1:],), ((3.5, -1.25),))
            return l

        check_solve(ctx, make, lambda k: k in corner, f"default {name} with {sorted(corner)} fixed",
                    fixed={k: (3.5, -1.25) for k in corner}, deep=m < 2)
    ctx.sample({"default": name, "corners": [sorted(c) for c in corners][:3]})


def bystanders(own, first=False):
    inner = solving.group({"p": build.point((1, 2)), "Axes": pr.Axes(xaxis=True, yaxis=True, twinx=True)})
    other = {
        "group": solving.group({"z": inner, "a": build.box(0.0, 1.0, 2.0, 4.0)}),
        "Poly12": build.polygon([(1.7 * i % 5 + 0.1 * i, i * i * 0.3) for i in range(12)]),
        "ints": pr.Line(prims=(pr.Point([3, 4]), pr.Point([1, 2]))),
        "Line10": build.line([(0, 0.5), (1, 2)]),
        "Line2": build.line([(0, 0.5), (1, 2)]),
        "empty": solving.group(),
        "user": solving.group({"plot": custom.derived(pr.Axes(xaxis=True)), "badge": custom.Badge([3.5, -2.0], circle=True),
                               "line": custom.derived(build.line([(0, 0.5), (1, 2)]))}),
    }
    return solving.group({**other, **own} if not first else {**own, **other})
