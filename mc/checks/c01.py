"""C01: solved layouts satisfy every constraint, whatever the order, names and initial geometry"""

import itertools

import jax
import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr

from .. import build, oracle, solving
from . import c06

LEVEL = "exploration"
RULE = (
    "(1) Figures with axes whose geometry is uniquely determined: every combination of two out of "
    "{first margin, second margin, size} per direction, ways to give the figure size, constraint "
    "orders, key names, initial geometries (default, spread, flipped, skewed), number of axes, axis and "
    "label positions on every side, grids of every shape up to the bound with distinct widths, heights "
    "and margins; compared with independently computed rectangles. (2) A scene of all primitive types in "
    "a known configuration with one instance or more of every documented constraint satisfied by it: "
    "from displaced vertices every single constraint and every pair (thorough: also every triple of a "
    "part) is solved, and each is then judged by the independent definition of its meaning. "
    "(3) Groups of different constraints with the same parameter on the same primitives, in every order, also "
    "each added twice. (4) Long and short primitives together (sizes differing by up to a factor 10^5). "
    "Every single constraint repeated many times, before, after and between the others. "
    "(5) Non-linear problems (angle, lengths, aspect ratio, fractions) from a lattice of starts far from the "
    "solution, where a model of the iteration on the documented relations arrives with iterations to spare. (6) The first parts also in single precision. Distinct: (family, parameters)."
)
ASSUMPTIONS = [
    "non-linear constraints are started near a solution, or where a model of Newton's method converges (it is only locally convergent)",
    "most solves run with jax.disable_jit (the same code, uncompiled); a part is repeated compiled",
]


def bounds(tier):
    return {"pool": len(pool()), "subsets": 2 if tier == "quick" else 3, "grids": grids(tier)}


def grids(tier):
    return [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3)] + ([] if tier == "quick" else [(3, 2), (3, 3), (1, 5), (4, 1), (2, 4)])


def cases(tier):
    out = []
    for fig in range(len(FIGURES)):
        for init in INITIAL:
            out.append({"figure": fig, "init": init})
    out += [{"row": n, "init": init} for n in (1, 2, 3) for init in INITIAL]
    out += [{"grid": list(s), "k": k} for s in grids(tier) for k in range(2 if tier == "quick" else 3)]
    out += [{"axes": [xs, ys, tw]} for xs in ("bottom", "top") for ys in ("left", "right") for tw in (False, True)]
    out += [{"pool": i} for i in range(len(pool()))]
    out += [{"equal": i} for i in range(len(equals()))]
    out += [{"scale": s, "horizontal": h} for s in ((30.0, 0.05, 5000.0) if tier == "quick" else (3.0, 30.0, 0.05, 700.0, 5000.0, 1e5)) for h in (True, False)]
    out += [{"far": i} for i in range(len(far_problems()))]
    out += [{"types": name} for name in build.NUMBER_TYPES]
    out += [{"redundant": [i, j]} for i, f in enumerate(redundant()) for j in range(len(f().cons))]
    out += [{"single": i} for i in range(6)]
    out += [{"compiled": i} for i in range(4)]
    return out


## Structured families


class Spec:
    """Primitives and constraints by role; roles are named when the layout is built"""

    def __init__(self):
        self.roles, self.cons, self.want = [], [], {}

    def prim(self, role, make, want=None):
        self.roles.append((role, make))
        if want is not None:
            self.want[role] = want

    def add(self, make, roles, *params):
        self.cons.append((make, roles, params))

    def layout(self, order=None, names=None, prim_order=1, conv=None):
        l = lay.Layout()
        names = names or (lambda r: r)

        def path(role):
            top, *rest = role.split("/", 1)
            return "/".join([names(top)] + rest)

        for role, make in self.roles[::prim_order]:
            l.add_prim(make() if conv is None else build.retyped(make(), conv), names(role))
        for i in order or range(len(self.cons)):
            make, roles, params = self.cons[i]
            l.add_constraint(make(), tuple(path(r) for r in roles), params)
        return l, path

    def verify(self, ctx, what, order=None, names=None, prim_order=1, jit=False, tol=1e-6, conv=None, **kw):
        l, path = self.layout(order, names, prim_order, conv)
        sol, info = solving.solve(l, jit=jit, **kw)
        ctx.ev()
        ctx.seen((what, order and tuple(order), prim_order, jit, names and names("Figure"), repr(kw)))
        for role, want in self.want.items():
            prim = sol[path(role)]
            got = [np.asarray(prim.value, dtype=float)] if isinstance(prim, pr.Point) else build.read_polygon(prim)[0]
            want_pts = np.array([want]) if isinstance(prim, pr.Point) else np.array(build.box_pts(*want))
            ctx.check(
                np.allclose(got, want_pts, rtol=0, atol=tol),
                f"{what}: {role} is at {np.round(got, 6).tolist()} instead of {want_pts.tolist()}",
                order=order, errors=info["abs_errs"],
                constraints=[(r, p) for _, r, p in self.cons],
            )


INITIAL = {
    "default": lambda i: pr.Quadrilateral(),
    "spread": lambda i: build.box(2.0 * i, -1.5 * i, 2.0 * i + 1 + 0.25 * i, 3 - 0.5 * i),
    "flipped": lambda i: build.box(2.0 + i, 1.0, 0.5, -1.0 - i),
    "skewed": lambda i: build.quad([(0.1 * i, 0.2), (1.3, -0.1 * i), (1.1, 0.9), (-0.2, 1.2 + 0.1 * i)]),
}
NAMES = {
    "plain": lambda r: r,
    "backwards": lambda r: {"Figure": "zz"}.get(r, "y" + "".join(chr(219 - ord(c)) if c.islower() else c for c in r[::-1])),
    "prefixes": lambda r: "Figure" if r == "Figure" else "Figure" + r,
    "brackets": lambda r: f"Axes[{r}, 0] 1",
}
FIGURES = [
    ((0.0, 0.0, 6.0, 4.0), "wh"), ((-1.5, 2.0, 2.0, 9.0), "wh"), ((0.25, 0.5, 3.25, 8.5), "aspect"),
    ((0.0, 0.0, 5.0, 3.0), "opposite"),
    # Units other than inches: far from the initial geometry, and much smaller
    ((-1200.0, 2500.0, 3000.0, 9100.0), "wh"), ((0.001, -0.002, 0.031, 0.018), "wh"),
    # Equal numbers for different constraints on the same primitives
    ((0.5, 0.5, 4.5, 4.5), "wh"),
]
EQUAL = 6


def add_figure(s, quad, rect, how, origin=True):
    l, b, r, t = rect
    s.prim("Figure", quad, rect)
    s.add(cr.Box, ("Figure",))
    if how == "wh":
        s.add(cr.Width, ("Figure",), r - l)
        s.add(cr.Height, ("Figure",), t - b)
        s.add(cr.Fix, ("Figure/Line0/Point0",), (l, b))
    elif how == "aspect":
        s.add(cr.Height, ("Figure",), t - b)
        s.add(cr.AspectRatio, ("Figure",), (r - l) / (t - b))
        s.add(cr.Fix, ("Figure/Line0/Point0",), (l, b))
    else:
        s.add(cr.Fix, ("Figure/Line2/Point0",), (r, t))
        s.add(cr.Fix, ("Figure/Line3/Point1",), (l, b))


def add_inside(s, role, rect, fig, xs, ys):
    """Two of {first margin, second margin, size} per direction"""
    l, b, r, t = rect
    fl, fb, fr, ft = fig
    s.add(cr.Box, (role,))
    opts = {
        "left": lambda: s.add(lambda: cr.InnerMargin(side="left"), (role, "Figure"), l - fl),
        "right": lambda: s.add(lambda: cr.InnerMargin(side="right"), (role, "Figure"), fr - r),
        "width": lambda: s.add(cr.Width, (role,), r - l),
        "bottom": lambda: s.add(lambda: cr.InnerMargin(side="bottom"), (role, "Figure"), b - fb),
        "top": lambda: s.add(lambda: cr.InnerMargin(side="top"), (role, "Figure"), ft - t),
        "height": lambda: s.add(cr.Height, (role,), t - b),
    }
    for o in (*xs, *ys):
        opts[o]()


def orders(n, tier):
    base = list(range(n))
    out = [None, base[::-1], base[n // 2 :] + base[: n // 2]]
    if tier == "thorough":
        out += [base[i:] + base[:i] for i in range(1, n)]
    return out


XS = [("left", "right"), ("left", "width"), ("right", "width")]
YS = [("bottom", "top"), ("bottom", "height"), ("top", "height")]


def run_figure(case, ctx):
    rect, how = FIGURES[case["figure"]]
    quad = lambda i: (lambda: INITIAL[case["init"]](i))
    l, b, r, t = rect
    u = (t - b) / 4 if case["figure"] >= 4 else 1.0
    inner = (l + 0.75 * u, b + 0.5 * u, r - 0.25 * u, t - 1.0 * u)
    if case["figure"] == EQUAL:
        inner = (l + 0.75, b + 0.75, r - 0.75, t - 0.75)
    n = 0
    for xs, ys in itertools.product(XS, YS):
        s = Spec()
        # AspectRatio is defined by lengths, so that a flipped figure is a solution too
        add_figure(s, quad(0) if how != "aspect" or case["init"] != "flipped" else pr.Quadrilateral, rect, how)
        s.prim("Main", lambda: pr.Axes(None, (quad(1)(),)))
        s.want["Main/Frame"] = inner
        add_inside(s, "Main/Frame", inner, rect, xs, ys)
        for order in orders(len(s.cons), ctx.tier):
            names = list(NAMES)[n % len(NAMES)]
            s.verify(ctx, f"{case} {xs} {ys} {names}", order, NAMES[names], prim_order=-1 if n % 2 else 1,
                     tol=1e-6 * u)
            n += 1
    ctx.sample({"figure": rect, "axes": inner, "order": order})


def run_row(case, ctx):
    """n axes next to each other in several ways, from left to right and from right to left"""
    n = case["row"]
    quad = lambda i: (lambda: INITIAL[case["init"]](i))
    fig = (0.5, -1.0, 12.5, 5.0)
    widths, gaps = (2.5, 1.25, 3.0), (0.5, 0.75)
    b, t = 0.25, 3.5
    for direction, how in itertools.product(("right", "left", "down", "up"), ("margins", "array", "relative", "faces")):
        g = (0.0, 0.0) if how == "faces" else gaps
        s = Spec()
        add_figure(s, quad(0), fig, "wh")
        rects, x = [], {"right": 1.5, "left": 11.0, "down": 4.0, "up": -0.5}[direction]
        for i in range(n):
            w = widths[i]
            if direction == "right":
                rects.append((x, b, x + w, t))
                x += w + (g[i] if i < 2 else 0)
            elif direction == "left":
                rects.append((x - w, b, x, t))
                x -= w + (g[i] if i < 2 else 0)
            elif direction == "down":
                rects.append((2.0, x - w, 5.0, x))
                x -= w + (g[i] if i < 2 else 0)
            else:
                rects.append((2.0, x, 5.0, x + w))
                x += w + (g[i] if i < 2 else 0)
        roles = [f"A{i}" for i in range(n)]
        for i, (role, rect) in enumerate(zip(roles, rects)):
            s.prim(role, quad(i + 1), rect)
        side = {"right": "right", "left": "left", "down": "bottom", "up": "top"}[direction]
        horizontal = direction in ("right", "left")
        first = rects[0]
        add_inside(s, "A0", first, fig, ("left", "width"), ("top", "height"))
        for i in range(1, n):
            l, bb, r, tt = rects[i]
            s.add(cr.Box, (roles[i],))
            if how == "relative":
                # The side lines of consecutive axes
                line = "Line0" if horizontal else "Line1"
                s.add(cr.RelativeLength, (f"{roles[i]}/{line}", f"A0/{line}"), widths[i] / widths[0])
                s.add(cr.Fix, (f"{roles[i]}/Line0/Point0",), (l, bb))
                if horizontal:
                    s.add(cr.Height, (roles[i],), tt - bb)
                else:
                    s.add(cr.Width, (roles[i],), r - l)
                continue
            if horizontal:
                s.add(cr.Width, (roles[i],), r - l)
                s.add(cr.AlignRow if how != "array" else (lambda: cr.Align(row=True)), ("A0", roles[i]))
            else:
                s.add(cr.Height, (roles[i],), tt - bb)
                s.add(cr.AlignColumn, ("A0", roles[i]))
            if how == "margins":
                s.add(lambda: cr.OuterMargin(side=side), (roles[i - 1], roles[i]), g[i - 1])
            elif how == "faces":
                s.add(lambda: cr.CoincidentOutwardFaces(side=side), (roles[i - 1], roles[i]))
        if how == "array" and n > 1:
            s.add(lambda: cr.OuterMarginArray(n, side), tuple(roles), *g[: n - 1])
        # Lengths and collinearity don't tell flipped or degenerate rectangles apart
        if case["init"] == "flipped" and n > 1:
            continue
        todo = orders(len(s.cons), "quick")
        if ctx.quick:
            todo = todo[:2] if case["init"] == "spread" else todo[:1]
        for k, order in enumerate(todo):
            s.verify(ctx, f"{case} {direction} {how}", order, list(NAMES.values())[k % 4], prim_order=-1 if k == 1 else 1,
                     max_iter=30, tol=1e-5)
    ctx.sample({"rectangles": rects, "how": how})


def grid_spec(shape, k, init=lambda i: pr.Quadrilateral()):
    """A grid filling a figure up to margins"""
    nr, nc = shape
    cw, rh, cm, rm = (list(p) for p in c06.params_for(shape, k))
    cm, rm = [abs(c) for c in cm], [abs(r) for r in rm]
    fig = (0.0, 0.0, 4.0 + 3 * nc, 5.0 + 3 * nr)
    ml, mr, mb, mt = 0.5, 0.25, 1.0, 0.75
    w0 = (fig[2] - ml - mr - sum(cm)) / (1 + sum(cw))
    h0 = (fig[3] - mb - mt - sum(rm)) / (1 + sum(rh))
    s = Spec()
    add_figure(s, lambda: init(0), fig, "wh")
    xs, x = [], ml
    for j in range(nc):
        w = w0 * (1 if j == 0 else cw[j - 1])
        xs.append((x, x + w))
        x += w + (cm[j] if j < nc - 1 else 0)
    ys, y = [], fig[3] - mt
    for i in range(nr):
        h = h0 * (1 if i == 0 else rh[i - 1])
        ys.append((y - h, y))
        y -= h + (rm[i] if i < nr - 1 else 0)
    roles = []
    for i, j in itertools.product(range(nr), range(nc)):
        role = f"R{i}C{j}"
        roles.append(role)
        s.prim(role, lambda i=i, j=j: init(1 + i * nc + j), (xs[j][0], ys[i][0], xs[j][1], ys[i][1]))
        s.add(cr.Box, (role,))
    s.add(lambda: cr.Grid(shape), tuple(roles), cw, rh, cm, rm)
    s.add(lambda: cr.InnerMargin(side="left"), (roles[0], "Figure"), ml)
    s.add(lambda: cr.InnerMargin(side="top"), (roles[0], "Figure"), mt)
    s.add(lambda: cr.InnerMargin(side="right"), (roles[-1], "Figure"), mr)
    s.add(lambda: cr.InnerMargin(side="bottom"), (roles[-1], "Figure"), mb)
    return s


def run_grid(case, ctx):
    shape, k = tuple(case["grid"]), case["k"]
    s = grid_spec(shape, k)
    todo = orders(len(s.cons), "quick")
    for n, order in enumerate(todo[: 2 if ctx.quick and shape[0] * shape[1] > 4 else None]):
        s.verify(ctx, f"grid {shape} {k}", order, list(NAMES.values())[(n + k) % 4], prim_order=-1 if n == 1 else 1, max_iter=40, tol=1e-5)
    ctx.sample({"grid": shape, "rectangles": s.want})


def axes_spec(xs, ys, twin, init=None):
    """Axes with axis boxes and labels on given sides"""
    fig, frame = (0.0, 0.0, 6.0, 5.0), (1.0, 0.75, 4.5, 4.0)
    l, b, r, t = frame
    s = Spec()
    add_figure(s, pr.Quadrilateral, fig, "wh")
    s.prim("Main", lambda: pr.Axes(xaxis=True, yaxis=True, twinx=twin, twiny=twin))
    s.want["Main/Frame"] = frame
    add_inside(s, "Main/Frame", frame, fig, ("left", "right"), ("bottom", "top"))
    opp = oracle.OPP
    todo = [("X", xs, False, 0.3, 0.25), ("Y", ys, False, 0.45, 0.6)]
    if twin:
        todo += [("X", opp[xs], True, 0.2, 0.75), ("Y", opp[ys], True, 0.55, 0.4)]
    for A, side, tw, thick, frac in todo:
        key = f"Main/{'Twin' if tw else ''}{A}Axis"
        rect = {"bottom": (l, b - thick, r, b), "top": (l, t, r, t + thick), "left": (l - thick, b, l, t), "right": (r, b, r + thick, t)}[side]
        s.want[key] = rect
        s.add(cr.Box, (key,))
        pos, lab = (cr.PositionXAxis, cr.PositionXAxisLabel) if A == "X" else (cr.PositionYAxis, cr.PositionYAxisLabel)
        if not tw:
            # Places the twin axis as well
            s.add(lambda pos=pos, side=side: pos(side=side, twin=twin), ("Main",))
        s.add(cr.Height if A == "X" else cr.Width, (key,), thick)
        s.add(lambda lab=lab, tw=tw: lab(twin=tw), ("Main",), frac)
        # The other coordinate of the label: on the outer face of the axis
        lk = key + "Label"
        if A == "X":
            y = rect[1] if side == "bottom" else rect[3]
            s.want[lk] = (l + frac * (r - l), y)
            s.add(cr.YDistance, (lk, key + ("/Line0/Point0" if side == "bottom" else "/Line2/Point0")), 0.0)
        else:
            x = rect[0] if side == "left" else rect[2]
            s.want[lk] = (x, b + frac * (t - b))
            s.add(cr.XDistance, (lk, key + ("/Line0/Point0" if side == "left" else "/Line0/Point1")), 0.0)
    return s


def run_axes(case, ctx):
    xs, ys, twin = case["axes"]
    s = axes_spec(xs, ys, twin)
    for n, order in enumerate(orders(len(s.cons), ctx.tier)):
        s.verify(ctx, f"axes {xs} {ys} twin={twin}", order, list(NAMES.values())[n % 4], prim_order=-1 if n == 1 else 1, max_iter=30, tol=1e-5)
    ctx.sample({"axes": s.want})


## Subsets of constraints satisfied by one scene


SCENE = {
    # horizontal, vertical, slanted, horizontal sides
    "G": ("G5", [(0.0, 0.0), (3.0, 0.0), (3.0, 2.0), (1.0, 3.0), (-1.0, 3.0)]),
    "M": ("L", [(5.0, 0.0), (7.0, 0.0)]),
    "N": ("L", [(5.0, 1.0), (6.0, 3.0)]),
    "N2": ("L", [(6.0, 3.0), (5.0, 1.0)]),
    "A": ("P", [(1.5, 1.0)]),
    "B": ("P", [(4.0, -1.0)]),
    "C": ("P", [(4.0, -1.0)]),
    "Q": ("Q", build.box_pts(0.0, 5.0, 2.0, 6.0)),
    "R": ("Q", build.box_pts(3.0, 5.0, 6.0, 6.0)),
    "S": ("Q", build.box_pts(0.0, 7.0, 2.0, 10.0)),
    "U": ("Q", build.box_pts(6.0, 5.0, 7.5, 6.0)),
    "V": ("Q", build.box_pts(0.0, 3.0, 2.0, 5.0)),
    "O": ("Q", build.box_pts(-1.0, 2.0, 9.0, 12.0)),
}
SHIFT = lambda n, i, k: (0.06 * np.cos(2.1 * n + 1.3 * i + k), 0.06 * np.sin(1.7 * n + 2.9 * i + 0.5 * k))


def vertices(role):
    """Vertices of a role or of a line/point in it, in the scene"""
    top, *rest = role.split("/")
    kind, v = SCENE[top]
    for part in rest:
        i = int(part[-1])
        v = [v[i], v[(i + 1) % len(v)]] if part.startswith("Line") else [v[i]]
    return np.array(v, dtype=float)


SELECT = {
    "Fix": [("A",), ("G/Line1/Point0",)],
    "DirectedDistance": [("A", "B")], "XDistance": [("A", "B")], "YDistance": [("A", "G/Line2/Point1")],
    "Coincident": [("B", "C")],
    "Length": [("N",), ("G/Line2",)], "DirectedLength": [("N",)], "XLength": [("N",)], "YLength": [("G/Line4",)],
    "Vertical": [("G/Line1",)], "Horizontal": [("G/Line0",), ("M",)],
    "RelativeLength": [("N", "G/Line0")], "MidpointXDistance": [("N", "M")], "MidpointYDistance": [("N", "G/Line2")],
    "Orthogonal": [("G/Line0", "G/Line1")], "Parallel": [("G/Line0", "G/Line3")],
    "Angle": [("N", "M"), ("G/Line1", "G/Line2")],
    "Collinear": [("G/Line0", "M")], "CoincidentLines": [("N", "N2"), ("N", "N")],
    "PointOnLineDistance": [("A", "N")], "PointToLineDistance": [("B", "N")], "RelativePointOnLineDistance": [("A", "G/Line4")],
    "Box": [("Q",)], "Width": [("Q",)], "Height": [("R",)], "AspectRatio": [("R",)],
    "Align(row)": [("Q", "R")], "Align(column)": [("Q", "S")], "AlignRow": [("Q", "U")], "AlignColumn": [("Q", "V")],
    "OuterMargin(right)": [("Q", "R")], "OuterMargin(left)": [("R", "Q")], "OuterMargin(top)": [("Q", "S")], "OuterMargin(bottom)": [("S", "Q")],
    "InnerMargin(right)": [("Q", "O")], "InnerMargin(left)": [("R", "O")], "InnerMargin(top)": [("S", "O")], "InnerMargin(bottom)": [("Q", "O")],
    "CoincidentOutwardFaces(right)": [("R", "U")], "CoincidentOutwardFaces(left)": [("U", "R")],
    "CoincidentOutwardFaces(top)": [("V", "Q")], "CoincidentOutwardFaces(bottom)": [("Q", "V")],
}
RECTANGLES_ONLY = ("Width", "Height", "AspectRatio", "Align", "OuterMargin", "InnerMargin")


def pool():
    """[(entry, roles, params)] with parameters that the scene satisfies"""
    out = []
    for e in oracle.line_constraints() + oracle.quad_constraints():
        for roles in SELECT[e.name]:
            parts = [vertices(r)[None] for r in roles]
            if e.name == "CoincidentLines":
                p = (roles == ("N", "N2"),)
            elif e.name == "RelativeLength":
                p = tuple([float(oracle.norm(oracle.vec(parts[0]))[0] / oracle.norm(oracle.vec(parts[1]))[0])])
            elif e.nparam == 0:
                p = ()
            elif e.name == "Fix":
                p = (tuple(vertices(roles[0])[0]),)
            else:
                p = list(e.params[len(e.params) // 2])
                p[-1] = 0.0
                p[-1] = float(np.ravel(e.fn(parts, tuple(p)))[0])
                p = tuple(p)
            dev = np.max(np.abs(e.fn(parts, p)))
            assert dev < 1e-9, (e.name, roles, p, dev)
            out.append((e, roles, p))
    return out


def tops(items):
    return list(dict.fromkeys(r.split("/")[0] for _, roles, _ in items for r in roles))


def solve_subset(ctx, items, k, jit=False, tol=1e-6):
    l = lay.Layout()
    need = tops(items)
    for n, top in enumerate(need):
        kind, v = SCENE[top]
        v = [(x + SHIFT(n, i, k)[0], y + SHIFT(n, i, k)[1]) for i, (x, y) in enumerate(v)]
        l.add_prim(build.make(kind, v), top)
    boxes = set()
    for e, roles, p in items:
        l.add_constraint(e.make(), roles, p)
        if e.name.startswith(RECTANGLES_ONLY):
            boxes |= {r for r in roles}
    for r in sorted(boxes):
        l.add_constraint(cr.Box(), (r,), (), f"box of {r}")
    sol, info = solving.solve(l, jit=jit, max_iter=30)
    ctx.ev()
    names = [(e.name, roles, p) for e, roles, p in items]
    ctx.seen((names, k, jit, tol))
    for e, roles, p in items:
        parts = []
        for r in roles:
            prim = sol[r]
            if isinstance(prim, pr.Point):
                v = [np.asarray(prim.value, dtype=float)]
            elif isinstance(prim, pr.Line):
                v = build.read_line(prim)
            else:
                v, ends = build.read_polygon(prim)
                ctx.check(np.allclose(ends, np.roll(v, -1, axis=0)), f"{names}: {r} is open after the solve")
            parts.append(np.array(v, dtype=float)[None])
        dev = np.max(np.abs(e.fn(parts, p)))
        ctx.check(
            dev < tol,
            f"after solving {names} the constraint {e.name}{p} on {roles} is off by {dev:.3g}",
            errors=info["abs_errs"], vertices=[q[0] for q in parts],
        )
    for r in boxes:
        v, _ = build.read_polygon(sol[r])
        ctx.check(np.max(np.abs(oracle.box_dev(np.array(v)[None]))) < tol, f"after solving {names} {r} is no rectangle")


def run_pool(case, ctx):
    items = pool()
    i = case["pool"]
    for k in range(2 if ctx.quick else 4):
        solve_subset(ctx, [items[i]], k)
    for j in range(len(items)):
        if j <= i:
            continue
        touching = set(tops([items[i]])) & set(tops([items[j]]))
        if ctx.quick and not touching and (i + j) % 4:
            continue  # unrelated primitives: every fourth pair
        solve_subset(ctx, [items[i], items[j]] if (i + j) % 2 else [items[j], items[i]], (i + j) % 3)
        if not ctx.quick:
            for m in range(j + 1, len(items)):
                if len(tops([items[i], items[j], items[m]])) <= 2 and len(touching):
                    solve_subset(ctx, [items[i], items[j], items[m]], (i + j + m) % 3)
    ctx.sample({"constraint": items[i][0].name, "roles": items[i][1], "params": items[i][2]})


def equals():
    """Groups of constraints on the same primitives that can all have the same parameter"""
    groups = [
        (("L",), 2.0, ["XLength", "YLength"]),
        (("L",), -0.75, ["YLength", "XLength"]),
        (("L",), 0.0, ["YLength", "XLength", "Length"]),
        (("P", "P"), 1.0, ["XDistance", "YDistance"]),
        (("P", "P"), 0.0, ["YDistance", "XDistance"]),
        (("P", "P"), 1.5, [("DirectedDistance", d) for d in oracle.DIRS[:2]]),
        (("P", "P"), 1.0, [("DirectedDistance", oracle.DIRS[4]), ("DirectedDistance", oracle.DIRS[5])]),
        (("L",), 1.0, [("DirectedLength", oracle.DIRS[1]), ("DirectedLength", oracle.DIRS[4])]),
        (("L", "L"), 0.5, ["MidpointXDistance", "MidpointYDistance"]),
        (("L", "L"), 1.0, ["MidpointXDistance", "MidpointYDistance", "RelativeLength"]),
        (("P", "L"), 0.75, [("PointOnLineDistance", False), ("PointToLineDistance", False)]),
        (("P", "L"), 0.75, [("PointOnLineDistance", False), ("PointOnLineDistance", True)]),
        (("P", "L"), 0.5, [("RelativePointOnLineDistance", False), ("PointToLineDistance", True)]),
        (("L", "L"), None, ["Collinear", "Parallel"]),
        (("L",), None, ["Vertical", "Horizontal"]),
        (("Q",), 2.0, ["Width", "Height"]),
        (("Q", "Q"), 0.25, ["OuterMargin(right)", "OuterMargin(top)"]),
        (("Q", "Q"), 0.25, ["InnerMargin(left)", "InnerMargin(top)", "InnerMargin(right)", "InnerMargin(bottom)"]),
        (("Q", "Q"), None, ["Align(row)", "Align(column)"]),
        (("Q", "Q"), None, ["AlignColumn", "AlignRow"]),
    ]
    by_name = {e.name: e for e in oracle.line_constraints() + oracle.quad_constraints()}
    out = []
    for kinds, v, names in groups:
        items = []
        for n in names:
            name, *first = n if isinstance(n, tuple) else (n,)
            items.append((by_name[name], tuple(first) + (() if v is None else (v,))))
        out.append((kinds, items))
    return out


EQUAL_POINTS = {
    "P": lambda n: [(0.2 + 0.9 * n, -0.3 + 1.3 * n)],
    "L": lambda n: [(0.1 + 0.4 * n, 0.3 * n), (1.4 - 0.3 * n, 0.8 + 0.7 * n)],
    "Q": lambda n: build.box_pts(1.4 * n, 1.2 * n, 1.4 * n + 1.0, 1.2 * n + 0.9),
}


def run_equal(case, ctx):
    """Different constraints with the same parameter on the same primitives"""
    kinds, items = equals()[case["equal"]]
    inner = any(e.name.startswith("InnerMargin") for e, _ in items)
    roles = tuple("AB"[: len(kinds)])
    for perm in itertools.permutations(range(len(items))):
        for repeat in (False, True):
            l = lay.Layout()
            for n, (k, role) in enumerate(zip(kinds, roles)):
                v = EQUAL_POINTS[k](n)
                if inner:
                    v = [build.box_pts(0.1, 0.2, 0.9, 1.1), build.box_pts(-0.1, 0.0, 1.3, 1.4)][n]
                l.add_prim(build.make(k, v), role)
            boxes = roles if kinds[0] == "Q" else ()
            for role in boxes:
                l.add_constraint(cr.Box(), (role,), ())
            for i in perm:
                e, p = items[i]
                l.add_constraint(e.make(), roles, p)
                if repeat:
                    l.add_constraint(e.make(), roles, p)
            sol, info = solving.solve(l, jit=False, max_iter=40)
            ctx.ev()
            ctx.seen((case["equal"], perm, repeat))
            parts = []
            for role, kind in zip(roles, kinds):
                prim = sol[role]
                v = [prim.value] if kind == "P" else build.read_line(prim) if kind == "L" else build.read_polygon(prim)[0]
                parts.append(np.array(v, dtype=float)[None])
            names = [(items[i][0].name, items[i][1]) for i in perm]
            for e, p in items:
                dev = np.max(np.abs(e.fn(parts, p)))
                ctx.check(dev < 1e-6, f"after solving {names} on the same primitives {e.name}{p} is off by {dev:.3g}",
                          errors=info["abs_errs"], vertices=parts)
            for role, v in zip(boxes, parts):
                ctx.check(np.max(np.abs(oracle.box_dev(v))) < 1e-6, f"after solving {names} {role} is no rectangle")
    ctx.sample({"constraints": names, "vertices": parts})


def run_scale(case, ctx):
    """Primitives of very different sizes together: every constraint counts, however weakly it pulls"""
    d = case["scale"]
    horizontal = case["horizontal"]
    for rev, frac in itertools.product((True, False), (0.5, 0.125, 1.5)):
        # A point at a fraction of a line with the given length, and a distance off it
        s = Spec()
        xy = (lambda a, b: (a, b)) if horizontal else (lambda a, b: (b, a))
        end = xy(d, 0.0)
        s.prim("L", lambda: build.line([(0.3, 0.2), (1.3, 0.9)]))
        s.prim("P", lambda: pr.Point([2.0, -1.0]), xy((1 - frac if rev else frac) * d, 2.0))
        s.prim("E", lambda: pr.Point([0.5, 0.5]), end)
        s.add(cr.Fix, ("L/Point0",), (0.0, 0.0))
        s.add(cr.Fix, ("L/Point1",), end)
        s.add(cr.Fix, ("E",), end)
        s.add(cr.YDistance if horizontal else cr.XDistance, ("L/Point0", "P"), 2.0)
        s.add(cr.RelativePointOnLineDistance, ("P", "L"), rev, frac)
        for order in orders(len(s.cons), "quick"):
            s.verify(ctx, f"{case} fraction {frac} reverse={rev} horizontal={horizontal}", order, max_iter=30, tol=1e-6 * max(1.0, d))
        # Long and short rectangles, with labels at fractions of the sides
        fig = (0.0, 0.0, *xy(d, 4.0))
        w, h = xy(d, 4.0)
        frame = (0.25 * w, 0.125 * h, 0.75 * w, 0.875 * h)
        for how in range(3):
            s = Spec()
            s.prim("Figure", pr.Quadrilateral, fig)
            s.prim("Main", lambda: pr.Axes(xaxis=True, yaxis=True))
            s.add(cr.Box, ("Figure",))
            s.add(cr.Fix, ("Figure/Line0/Point0",), (0.0, 0.0))
            if how == 0:
                s.add(cr.Width, ("Figure",), w)
                s.add(cr.Height, ("Figure",), h)
            elif how == 1:
                s.add(cr.Height, ("Figure",), h)
                s.add(cr.AspectRatio, ("Figure",), w / h)
            else:
                s.add(cr.Width, ("Figure",), w)
                s.add(cr.RelativeLength, ("Figure/Line1", "Figure/Line0"), h / w)
            s.want["Main/Frame"] = frame
            add_inside(s, "Main/Frame", frame, fig, ("left", "right"), ("bottom", "top"))
            for A, pos, lab, size in (("X", cr.PositionXAxis, cr.PositionXAxisLabel, cr.Height), ("Y", cr.PositionYAxis, cr.PositionYAxisLabel, cr.Width)):
                key = f"Main/{A}Axis"
                s.add(cr.Box, (key,))
                s.add(pos, ("Main",))
                s.add(size, (key,), 0.125)
                s.add(lab, ("Main",), 1 - frac if rev else frac)
                s.add(cr.YDistance if A == "X" else cr.XDistance, (key + "Label", key + "/Line0/Point0"), 0.0)
            l, b, r, t = frame
            f = 1 - frac if rev else frac
            s.want["Main/XAxisLabel"] = (l + f * (r - l), b - 0.125)
            s.want["Main/YAxisLabel"] = (l - 0.125, b + f * (t - b))
            s.verify(ctx, f"{case} axes with labels at {f}, {how}", None, max_iter=40, tol=1e-6 * max(1.0, d))
    ctx.sample({"figure": fig, "labels at": f})


## Starts far from the solution of non-linear constraints


def model_newton(f, x, steps):
    """Minimum-norm Newton iteration with difference quotients; the geometry, if it gets there"""
    for _ in range(steps):
        r = f(x)
        h = 1e-6 * (1 + np.abs(x))
        jac = np.array([(f(x + e) - f(x - e)) / (2 * d) for d, e in zip(h, np.diag(h))]).T
        if not (np.all(np.isfinite(jac)) and np.all(np.isfinite(r))):
            return None
        x = x + np.linalg.lstsq(jac, -r, rcond=None)[0]
    return x if np.all(np.isfinite(x)) and np.max(np.abs(f(x))) < 1e-7 else None


def norm(v):
    return np.sqrt(np.sum(v**2))


def wiggle(n):
    return 0.01 * np.array([(-1) ** (i // 2) for i in range(2 * n)])


def far_problems():
    """name, primitives as groups of vertices, constraints, residuals of the documented relations"""
    cross = lambda a, b: a[0] * b[1] - a[1] * b[0]
    out = []
    for angle, w in itertools.product((0.3, -1.2, 2.5), (1.0, 10.0, 0.2)):
        out.append((
            f"angle {angle} and length {w}", [("L", 2), ("M", 2)],
            [(cr.Fix, ("L/Point0",), ((0.0, 0.0),)), (cr.Fix, ("M/Point0",), ((0.0, 0.0),)), (cr.Fix, ("M/Point1",), ((1.0, 0.0),)),
             (cr.Angle, ("M", "L"), (angle,)), (cr.Length, ("L",), (w,))],
            lambda p, angle=angle, w=w: [*p[0], *p[2], *(p[3] - (1.0, 0.0)),
                                         np.arctan2(cross(p[3] - p[2], p[1] - p[0]), np.dot(p[3] - p[2], p[1] - p[0])) - angle,
                                         norm(p[1] - p[0]) - w]))
    for sides in ((3.0, 4.0, 5.0), (2.0, 2.0, 3.5), (1.0, 6.0, 6.5)):
        out.append((
            f"triangle {sides}", [("T", 3)],
            [(cr.Length, (f"T/Line{i}",), (v,)) for i, v in enumerate(sides)] + [
                (cr.Fix, ("T/Line0/Point0",), ((1.0, -2.0),)), (cr.Horizontal, ("T/Line0",), ())],
            lambda p, sides=sides: [*(norm(p[(i + 1) % 3] - p[i]) - v for i, v in enumerate(sides)), *(p[0] - (1.0, -2.0)), p[1][1] - p[0][1]]))
    for a, h in itertools.product((0.4, 1.0, 6.0), (0.5, 3.0)):
        out.append((
            f"aspect ratio {a} and height {h}", [("Q", 4)],
            [(cr.Box, ("Q",), ()), (cr.Fix, ("Q/Line0/Point0",), ((3.0, -2.0),)), (cr.AspectRatio, ("Q",), (a,)), (cr.Height, ("Q",), (h,))],
            lambda p, a=a, h=h: [p[1][1] - p[0][1], p[2][1] - p[3][1], p[3][0] - p[0][0], p[2][0] - p[1][0], *(p[0] - (3.0, -2.0)),
                                 norm(p[1] - p[0]) / norm(p[2] - p[1]) - a, p[2][1] - p[1][1] - h]))
    for v, f in itertools.product((0.25, 4.0), (0.3, 2.0)):
        out.append((
            f"relative length {v} and fraction {f}", [("L", 2), ("M", 2), ("P", 1)],
            [(cr.RelativeLength, ("L", "M"), (v,)), (cr.Length, ("M",), (3.0,)), (cr.Fix, ("L/Point0",), ((0.0, 1.0),)),
             (cr.Fix, ("M/Point0",), ((2.0, -1.0),)), (cr.Parallel, ("L", "M"), ()), (cr.YDistance, ("M/Point0", "M/Point1"), (1.0,)),
             (cr.RelativePointOnLineDistance, ("P", "L"), (False, f)), (cr.PointToLineDistance, ("P", "L"), (False, 0.5))],
            lambda p, v=v, f=f: [norm(p[1] - p[0]) - v * norm(p[3] - p[2]), norm(p[3] - p[2]) - 3.0, p[0][0], p[0][1] - 1.0,
                                 *(p[2] - (2.0, -1.0)), cross(p[1] - p[0], p[3] - p[2]), p[3][1] - p[2][1] - 1.0,
                                 np.dot(p[4] - p[0], p[1] - p[0]) / norm(p[1] - p[0]) ** 2 - f,
                                 cross(p[1] - p[0], p[4] - p[0]) / norm(p[1] - p[0]) - 0.5]))
    return out


FAR_POINTS = [(0.0, 0.0), (1.0, 0.5), (5.0, -0.5), (0.125, 4.0), (-2.0, 1.0), (0.01, 1.0)]


def run_far(case, ctx):
    """Starts far away, where the same iteration on the documented relations arrives"""
    name, parts, cons, fn = far_problems()[case["far"]]
    n = sum(k for _, k in parts)
    f = lambda x: np.array(fn(list(x.reshape(-1, 2))))
    starts = list(itertools.product(FAR_POINTS, repeat=2)) if n <= 4 else list(itertools.product(FAR_POINTS[1:], repeat=2))
    for i, (a, b) in enumerate(starts):
        pts = np.array([(0.1 * i, -0.05 * i) for i in range(n)])
        pts[1], pts[-1 if n != 4 else 2] = a, b
        if n == 4 and len(parts) == 1:
            pts[3] = (a[1] - 1.0, b[1] + 2.0)
        lines = [(m + j, m + (j + 1) % k) for m, k in zip(np.cumsum([0] + [k for _, k in parts]), [k for _, k in parts]) if k > 1 for j in range(k)]
        # where it arrives also from close by, with iterations to spare
        ends = [None]
        if min(norm(pts[i] - pts[j]) for i, j in lines) > 0.05:
            with np.errstate(all="ignore"):
                ends = [model_newton(f, pts.ravel() * k + d, 6) for k, d in ((1.0, 0.0), (1.01, 0.0), (0.99, 0.0), (1.0, wiggle(n)), (1.0, -wiggle(n)))]
        if any(e is None for e in ends) or np.ptp(ends, axis=0).max() > 1e-3:
            ctx.count("far_not_judged")
            continue
        ctx.count("far_judged")
        l, m = lay.Layout(), 0
        for key, k in parts:
            l.add_prim({1: lambda q: build.point(q[0]), 2: build.line, 3: build.polygon, 4: build.quad}[k](pts[m : m + k].tolist()), key)
            m += k
        for c, keys, params in cons[:: -1 if i % 2 else 1]:
            l.add_constraint(c(), keys, params)
        sol, info = solving.solve(l, jit=i == 7)
        got = []
        for key, k in parts:
            got += [np.asarray(sol[key].value, dtype=float)] if k == 1 else [np.asarray(p.value, dtype=float) for p in sol[key].values()] if k == 2 \
                else list(build.read_polygon(sol[key])[0])
        dev = np.max(np.abs(f(np.ravel(got))))
        ctx.ev()
        ctx.seen((name, i))
        ctx.check(dev < 1e-6, f"{name} from {pts.tolist()}: the solution {np.round(got, 6).tolist()} is off by {dev:.3g}",
                  errors=info["abs_errs"], expected=ends[0].reshape(-1, 2))
    ctx.sample({"problem": name, "starts": len(starts)})


def run_types(case, ctx):
    """Initial coordinates of other types of numbers"""
    conv = build.NUMBER_TYPES[case["types"]]
    specs = [lambda: grid_spec((2, 2), 1), lambda: grid_spec((1, 3), 0, lambda i: build.box(3.0 * i, -2.0 * i, 3.0 * i + 2, 5.0 - i)),
             lambda: axes_spec("bottom", "left", True), lambda: axes_spec("top", "right", False), *redundant()]
    for n, spec in enumerate(specs):
        for jit in (False, True) if n in (1, 2) else (False,):
            spec().verify(ctx, f"{case} {n}", None, list(NAMES.values())[n % 4], prim_order=-1 if n % 2 else 1, jit=jit, conv=conv, max_iter=40, tol=1e-8)
    ctx.sample({"types": case["types"], "initial": "default, boxes"})


def redundant():
    """Specifications of which single constraints are repeated many times"""

    def single(how):
        s = Spec()
        rect = FIGURES[1][0]
        add_figure(s, lambda: INITIAL["spread"](1), rect, how)
        inner = (rect[0] + 0.5, rect[1] + 0.25, rect[2] - 0.75, rect[3] - 1.0)
        s.prim("Main", lambda: INITIAL["skewed"](1), inner)
        add_inside(s, "Main", inner, rect, XS[0], YS[1])
        return s

    return [lambda: single("wh"), lambda: single("opposite"), lambda: axes_spec("bottom", "right", False)]


def run_redundant(case, ctx):
    """Far more (satisfiable) constraints than unknowns: the others count all the same"""
    make, i = redundant()[case["redundant"][0]], case["redundant"][1]
    rest = [k for k in range(len(make().cons)) if k != i]
    for num in (24,) if ctx.quick else (1, 2, 6, 24, 60):
        for where, order in (
            ("first", [i] * num + rest),
            ("last", rest + [i] * num),
            ("between", [k for j in rest for k in [i] * -(-num // len(rest)) + [j]]),
        ):
            make().verify(ctx, f"constraint {i} repeated {num} times, {where}", order, max_iter=30, tol=1e-5)
    ctx.sample({"order": order})


def run_single(case, ctx):
    """Single precision: the default configuration of jax"""
    i = case["single"]
    kw = dict(tol=2e-3)
    jax.config.update("jax_enable_x64", False)
    try:
        if i < 2:
            rect, how = FIGURES[i]
            inner = (rect[0] + 0.75, rect[1] + 0.5, rect[2] - 0.25, rect[3] - 1.0)
            for xs, ys in itertools.product(XS, YS):
                s = Spec()
                add_figure(s, pr.Quadrilateral, rect, how)
                s.prim("Main", lambda: pr.Axes())
                s.want["Main/Frame"] = inner
                add_inside(s, "Main/Frame", inner, rect, xs, ys)
                s.verify(ctx, f"single precision {i} {xs} {ys}", **kw)
        elif i == 2:
            axes_spec("bottom", "left", False).verify(ctx, "single precision axes", max_iter=30, **kw)
        elif i == 3:
            grid_spec((1, 2), 0).verify(ctx, "single precision grid", max_iter=30, **kw)
        else:
            for item in pool()[i - 4 :: 2]:
                solve_subset(ctx, [item], 0, tol=5e-3)
    finally:
        jax.config.update("jax_enable_x64", True)


def run_compiled(case, ctx):
    i = case["compiled"]
    if i == 0:
        axes_spec("top", "right", True).verify(ctx, "compiled axes", jit=True, max_iter=30, tol=1e-5)
    elif i == 1:
        grid_spec((2, 2), 0).verify(ctx, "compiled grid", jit=True, max_iter=30, tol=1e-5)
    else:
        for item in pool()[i - 2 :: 6 if ctx.quick else 2]:
            solve_subset(ctx, [item], 1, jit=True)


def run(case, ctx):
    for k, f in (("figure", run_figure), ("row", run_row), ("grid", run_grid), ("axes", run_axes),
                 ("pool", run_pool), ("equal", run_equal), ("scale", run_scale), ("far", run_far), ("types", run_types), ("redundant", run_redundant), ("single", run_single), ("compiled", run_compiled)):
        if k in case:
            return f(case, ctx)
