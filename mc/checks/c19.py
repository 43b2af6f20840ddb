"""C19: measured axis thickness reaches the layout and changes nothing else"""

import itertools

import numpy as np
from matplotlib import pyplot as plt
from matplotlib import ticker

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr

from .. import build, solving
from .. import figures as F

LEVEL = "model_checking"
RULE = (
    "(1) Every axis and side x tick style of a menu (sizes, rotations, paddings, directions, long, no, hidden, "
    "minor and logarithmic tick labels, offset texts, inverted limits) x axis label (none, shown, hidden) x "
    "figure/axes geometry and resolution: the thickness constraint vanishes exactly at the extent of the tick "
    "labels that matplotlib draws, before and after drawing; and a figure that was measured (also if measuring "
    "fails) is drawn exactly like one that was not. (2) Every subset of thickness constraints over three axes "
    "(also in groups) x order x other constraints in the layout x automatic and explicit keys: the updated "
    "layout has the extents of the matching axes and otherwise the same parameters. (3) Explicit-state search "
    "over histories of style changes, side changes, resolution changes, drawing and update-solve-redraw loops: "
    "after each loop the solved axis rectangles have the measured extents and sides."
)
ASSUMPTIONS = [
    "extents are those of matplotlib's tick label artists within the axis limits, and of a non-empty offset text",
    "ticks on exactly one side; the Agg backend",
]


def depth(tier):
    return 3 if tier == "quick" else 4


def bounds(tier):
    return {"styles": list(STYLES), "geometries": len(GEOS), "labels": LABELS, "depth": depth(tier), "operations": OPS}


def cases(tier):
    out = [{"measure": [A, side, s]} for A in "XY" for side in F.SIDES[A] for s in STYLES]
    out += [{"fail": A} for A in "XY"]
    out += [{"update": i} for i in range(16)]
    out += [{"history": [i, j]} for i in range(len(OPS)) for j in range(len(OPS))]
    return out


## Measuring


def lim(ax, A, *v):
    getattr(ax, f"set_{A.lower()}lim")(*v)


def set_ticks(ax, A, *a, **kw):
    getattr(ax, f"set_{A.lower()}ticks")(*a, **kw)


def params(ax, A, **kw):
    ax.tick_params(axis=A.lower(), **kw)


def hide_labels(ax, A, side):
    for t in getattr(ax, f"get_{A.lower()}ticklabels")():
        t.set_visible(False)


STYLES = {
    "default": lambda ax, A: None,
    "large": lambda ax, A: params(ax, A, labelsize=23),
    "tiny": lambda ax, A: params(ax, A, labelsize=3.5),
    "rotated": lambda ax, A: params(ax, A, labelrotation=90),
    "slanted": lambda ax, A: params(ax, A, labelrotation=37, labelsize=14),
    "pad": lambda ax, A: params(ax, A, pad=25),
    "inward": lambda ax, A: params(ax, A, direction="in", length=12, pad=1),
    "long ticks": lambda ax, A: params(ax, A, direction="out", length=30),
    "inside": lambda ax, A: params(ax, A, direction="in", pad=-22),
    "names": lambda ax, A: set_ticks(ax, A, [0.1, 0.5, 0.7], labels=["a", "very long label", "two\nlines"]),
    "one long outside the limits": lambda ax, A: (set_ticks(ax, A, [0.1, 0.5, 7], labels=["a", "b", "very\nlong"]), lim(ax, A, 0, 1)),
    "no ticks": lambda ax, A: set_ticks(ax, A, []),
    "wide numbers": lambda ax, A: lim(ax, A, 100000, 400000),
    "negative": lambda ax, A: lim(ax, A, -0.0003, 0.0002),
    "offset": lambda ax, A: lim(ax, A, 2e9, 2e9 + 0.01),
    "power": lambda ax, A: lim(ax, A, 0, 3e11),
    "log": lambda ax, A: (getattr(ax, f"set_{A.lower()}scale")("log"), lim(ax, A, 1e-3, 1e5)),
    "inverted": lambda ax, A: lim(ax, A, 12, -5),
    "many ticks": lambda ax, A: set_ticks(ax, A, np.linspace(0, 1, 60), labels=[f"{'long ' * (i == 57)}{i}" for i in range(60)]),
    "formula": lambda ax, A: set_ticks(ax, A, [0.1, 0.5], labels=["$\\frac{1}{x^2}$", "$\\sum_{i=0}^n$"]),
    "percent": lambda ax, A: (lim(ax, A, 0, 250), getattr(ax, f"{A.lower()}axis").set_major_formatter(ticker.PercentFormatter())),
    "grid": lambda ax, A: (ax.grid(True), ax.spines[:].set_linewidth(6), params(ax, A, width=5)),
    "data": lambda ax, A: (ax.plot([1, 2000, 3], [5, -1e4, 7]), ax.margins(0.3)),
    # The frame is smaller than the position that was set
    "fixed aspect": lambda ax, A: (ax.set_aspect(1), ax.set_xlim(0, 4), ax.set_ylim(0, 1)),
    "tall aspect": lambda ax, A: (ax.set_aspect(0.5, anchor="SW"), ax.set_xlim(0, 1), ax.set_ylim(0, 9)),
    "minor": lambda ax, A: (
        set_ticks(ax, A, [0.2, 0.8]), set_ticks(ax, A, [0.3, 0.4, 0.5], labels=["minor", "m", "M\nM\nM"], minor=True),
    ),
}
LABELS = ("none", "shown", "hidden", "placed")
GEOS = [
    # figure size, axes position, resolution
    ((6.0, 4.0), (0.2, 0.25, 0.6, 0.5), 100),
    ((2.5, 7.0), (0.3, 0.1, 0.5, 0.85), 61),
    ((5.0, 5.0), (-0.2, 0.5, 0.9, 0.75), 150),
]


def make(A, side, style, label, geo):
    size, pos, dpi = geo
    fig = plt.figure(figsize=size, dpi=dpi)
    ax = fig.add_axes(pos)
    STYLES[style](ax, A)
    # The other axis must not matter
    B = "Y" if A == "X" else "X"
    params(ax, B, labelsize=17, pad=9)
    ax.tick_params(which="minor", **({"bottom": side == "bottom", "top": side == "top"} if A == "X" else {"left": side == "left", "right": side == "right"}))
    axis = getattr(ax, f"{A.lower()}axis")
    axis.set_ticks_position(side)
    if label != "none":
        ax.set_xlabel("an axis label", fontsize=15)
        ax.set_ylabel("a label in\ntwo lines")
    if label == "hidden":
        axis.label.set_visible(False)
    if label == "placed":
        axis.set_label_coords(-0.5, 1.5)
    return fig, ax, axis


def extent(axis, A, side):
    """From the frame side outwards to the edge of the drawn tick labels, in inches"""
    ax = axis.axes
    fig = ax.get_figure()
    F.quiet(fig.canvas.draw)
    lo, hi = sorted(axis.get_view_interval())
    texts = []
    for tick in axis.get_major_ticks() + axis.get_minor_ticks():
        if lo - 1e-12 * abs(lo) <= tick.get_loc() <= hi + 1e-12 * abs(hi):
            texts += [t for t in (tick.label1, tick.label2) if t.get_visible()]
    off = axis.get_offset_text()
    if off.get_visible() and off.get_text():
        texts.append(off)
    if not texts:
        return 0.0
    frame = ax.patch.get_window_extent()
    bbs = [t.get_window_extent() for t in texts]
    px = {
        "bottom": lambda: frame.y0 - min(b.y0 for b in bbs), "top": lambda: max(b.y1 for b in bbs) - frame.y1,
        "left": lambda: frame.x0 - min(b.x0 for b in bbs), "right": lambda: max(b.x1 for b in bbs) - frame.x1,
    }[side]()
    return px / fig.dpi


def constraint(A):
    return cr.XAxisThickness() if A == "X" else cr.YAxisThickness()


def residual(A, axis, thickness):
    """Of an axis rectangle with the given thickness, directly and in a layout"""
    rect = (2.0, -1.0, 4.5, -1.0 + thickness) if A == "X" else (2.0, -1.0, 2.0 + thickness, 1.75)
    res = constraint(A)((build.box(*rect),), axis)
    l = lay.Layout()
    l.add_prim(build.box(*rect), "Axis")
    l.add_constraint(constraint(A), ("Axis",), (axis,))
    tot = solving.residual_norm(l)
    return max(abs(float(np.max(np.abs(np.asarray(res))))), 0.0), tot


def look(fig):
    F.quiet(fig.canvas.draw)
    return np.asarray(fig.canvas.buffer_rgba()).tobytes()


def props(ax):
    out = []
    for axis in (ax.xaxis, ax.yaxis):
        t = axis.label
        out += [t.get_visible(), t.get_text(), axis.get_visible(), axis.get_ticks_position(), axis.get_label_position(),
                tuple(axis.get_view_interval()), [x.get_text() for x in axis.get_ticklabels(which="both")],
                [x.get_visible() for x in axis.get_ticklabels(which="both")], axis.get_offset_text().get_visible()]
    return repr([out, ax.get_position().bounds, ax.get_figure().get_size_inches().tolist(), ax.get_figure().dpi, ax.get_visible()])


def run_measure(case, ctx):
    A, side, style = case["measure"]
    for label, geo in itertools.product(LABELS, GEOS):
        if ctx.quick and geo is GEOS[2] and label in ("none", "placed"):
            continue
        what = f"{A} axis {side} {style} label {label} figure {geo}"
        # The same figure twice: one is measured before it is drawn
        fig, ax, axis = make(A, side, style, label, geo)
        ref, rax, raxis = make(A, side, style, label, geo)
        want = extent(raxis, A, side)
        # A fixed aspect ratio takes effect when drawing
        if label == "shown" and geo is GEOS[0] or "aspect" in style:
            F.quiet(fig.canvas.draw)
        before = (axis.label.get_visible(), axis.label.get_text(), axis.get_visible())
        for when in ("first", "again", "drawn"):
            if when == "drawn":
                F.quiet(fig.canvas.draw)
            for res in F.quiet(residual, A, axis, want):
                ctx.check(res < 1e-6, f"{what} ({when}): an axis of the drawn thickness {want:.6f} in has residual {res:.3g}")
            for d in (-0.0625, 0.03125):
                for res in F.quiet(residual, A, axis, want + d):
                    ctx.check(res > 1e-3, f"{what} ({when}): thickness {want:.6f}{d:+} in has residual {res:.3g}")
            ctx.check((axis.label.get_visible(), axis.label.get_text(), axis.get_visible()) == before, f"{what} ({when}): measuring changed the axis label")
        ctx.check(look(fig) == look(ref), f"{what}: the measured figure is drawn differently")
        ctx.check(props(ax) == props(rax), f"{what}: measuring changed the axes")
        ctx.state((A, side, style, label, geo))
        ctx.trans(3)
        ctx.trace()
        F.close(fig, ref)
    ctx.sample({"axis": A, "side": side, "style": style, "thickness": want})


class Broken(Exception):
    pass


def run_fail(case, ctx):
    """Measuring raises: the axes must be as before"""
    A = case["fail"]

    def broken(x, pos=None):
        raise Broken

    for side, label in itertools.product(F.SIDES[A], ("shown", "hidden")):
        fig, ax, axis = make(A, side, "default", label, GEOS[0])
        vis = axis.label.get_visible()
        axis.set_major_formatter(ticker.FuncFormatter(broken))
        l = lay.Layout()
        l.add_prim(pr.Axes(xaxis=True, yaxis=True), "Axes")
        l.add_constraint(constraint(A), (f"Axes/{A}Axis",), (None,), "T")
        old = solving.frozen_layout(l)
        for call in (
            lambda: constraint(A)((build.box(0, 0, 1, 1),), axis),
            lambda: lay.update_layout_constraints(l, {"Axes": ax}),
            lambda: l.add_constraint(constraint(A), (f"Axes/{A}Axis",), (axis,)),
        ):
            try:
                call()
                ctx.fail(f"{A} {side}: the exception of the tick formatter is lost")
            except Broken:
                pass
            ctx.check(axis.label.get_visible() == vis, f"{A} {side}: the axis label is {'hidden' if vis else 'shown'} after measuring failed")
            ctx.check(solving.frozen_layout(l) == old, f"{A} {side}: the layout is changed after measuring failed")
        ctx.state(("fail", A, side, label))
        ctx.trans(3)
        ctx.trace()
        F.close(fig)


## Updating


AXES = ("Axes1", "B", "G/Axes")
THICK = [(k, A) for k in AXES for A in "XY"]
SIZES = {("Axes1", "X"): 7, ("Axes1", "Y"): 9, ("B", "X"): 12, ("B", "Y"): 15, ("G/Axes", "X"): 18, ("G/Axes", "Y"): 22}


def three_axes(label=True):
    fig = plt.figure(figsize=(6, 5))
    axs = {}
    for n, k in enumerate(AXES + ("Unused",)):
        ax = axs[k] = fig.add_axes((0.1 + 0.2 * n, 0.3, 0.15, 0.5))
        for A in "XY":
            getattr(ax, f"{A.lower()}axis").set_ticks_position(F.SIDES[A][n % 2])
            params(ax, A, labelsize=SIZES.get((k, A), 30))
            set_ticks(ax, A, [0.2, 0.6], labels=["q", "Ab"])
        if label:
            ax.set_xlabel("label")
    return fig, axs


def values(l):
    """{key: flat list of the parameters of a constraint and of its children}"""
    from mpllayout import containers as cn

    out = {}
    for key, node in l.root_param.items():
        out[key] = [np.asarray(v, dtype=float).tolist() for _, n in cn.iter_flat("", node) for v in n.value if not hasattr(v, "axes")]
    return out


def run_update(case, ctx):
    fig, axs = three_axes()
    want = {(k, A): extent(getattr(axs[k], f"{A.lower()}axis"), A, F.SIDES[A][n % 2]) for n, k in enumerate(AXES) for A in "XY"}
    ctx.check(len({round(v, 4) for v in want.values()}) == 6, "the extents do not differ")
    others = [
        (lambda: cr.Width(), ("Axes1/Frame",), (3.5,)), (lambda: cr.Box(), ("B/Frame",), ()),
        (lambda: cr.Fix(), ("Figure/Line0/Point0",), ((0.25, 0.5),)),
        (lambda: cr.Grid((1, 2)), ("Axes1/Frame", "B/Frame"), ([0.5], [], [0.25], [])),
        (lambda: cr.PositionXAxisLabel(), ("B",), (0.75,)), (lambda: cr.Height(), ("G/Axes/XAxis",), (1.0,)),
    ]
    n = 0
    for bits in range(64):
        if bits % 16 != case["update"]:
            continue
        sub = [t for i, t in enumerate(THICK) if bits >> i & 1]
        orders = list(itertools.permutations(sub)) if len(sub) <= 3 else [sub, sub[::-1], sub[2:] + sub[:2]]
        for order, mixed, named, start in itertools.product(orders, (False, True), (False, True), ("none", "axis")):
            n += 1
            if ctx.quick and n % 2:
                continue
            l = lay.Layout()
            l.add_prim(build.box(0, 0, 6, 5), "Figure")
            for k in AXES:
                if "/" in k:
                    l.root_prim.add_child("G", pr.PrimitiveNode(np.array([]), {}))
                l.root_prim.add_child(k, pr.Axes(xaxis=True, yaxis=True))
            todo = [(t, None) for t in order] + ([order[0]] and [(order[0], None)] if order and mixed else [])
            for i, o in enumerate(others if mixed else []):
                todo.insert((i * 3) % (len(todo) + 1), (None, o))
            thick = {}
            for i, (t, o) in enumerate(todo):
                before = set(l.root_constraint.keys())
                if t:
                    start_axis = axs["Unused"].xaxis if t[1] == "X" else axs["Unused"].yaxis
                    args = (constraint(t[1]), (f"{t[0]}/{t[1]}Axis",), (None if start == "none" else start_axis,))
                else:
                    args = (o[0](), o[1], o[2])
                l.add_constraint(*args, *((f"{'zyxwvutsrqponm'[i]} {i}",) if named else ()))
                (key,) = set(l.root_constraint.keys()) - before
                if t:
                    thick[key] = t
            old, frozen = values(l), solving.frozen_layout(l)
            what = f"thickness constraints {todo} named={named} start={start}"
            for axs_order in (axs, dict(reversed(axs.items()))):
                new = F.quiet(lay.update_layout_constraints, l, axs_order)
                got = values(new)
                ctx.check(list(got) == list(old), f"{what}: the keys are {list(got)}")
                for key in old:
                    if key in thick:
                        ctx.check(
                            len(got[key]) >= 1 and np.allclose(np.ravel(got[key][-1]), want[thick[key]], atol=1e-6),
                            f"{what}: {key} on {thick[key]} has {got[key]}, but the extent is {want[thick[key]]:.6f} in",
                        )
                    else:
                        ctx.check(got[key] == old[key], f"{what}: the update changed {key} from {old[key]} to {got[key]}")
                ctx.check(solving.frozen_layout(l) == frozen, f"{what}: the update changed the original layout")
                # Again, with the updated layout
                again = values(F.quiet(lay.update_layout_constraints, new, axs_order))
                ctx.check(again == got, f"{what}: updating again changed the parameters")
                ctx.trans(2)
            ctx.state(("update", tuple(order), mixed, named, start))
            ctx.trace()
    F.close(fig)


## Histories


STYLE_OPS = {
    "small": dict(labelsize=6, pad=3, labelrotation=0), "big": dict(labelsize=20, pad=3, labelrotation=0),
    "turned": dict(labelsize=10, pad=14, labelrotation=90),
}
OPS = [("loop", "bottom", "left"), ("loop", "top", "right"), ("style", "small"), ("style", "big"), ("style", "turned"), ("dpi",), ("texts",), ("draw",)]


def template(xside, yside):
    l = lay.Layout()
    l.add_prim(build.box(0, 0, 6, 4), "Figure")
    l.add_prim(pr.Axes(xaxis=True, yaxis=True), "Axes1")
    for q in ("Figure", "Axes1/Frame", "Axes1/XAxis", "Axes1/YAxis"):
        l.add_constraint(cr.Box(), (q,), ())
    l.add_constraint(cr.Fix(), ("Figure/Line0/Point0",), ((1.0, -2.0),))
    l.add_constraint(cr.Width(), ("Figure",), (6.0,))
    l.add_constraint(cr.Height(), ("Figure",), (4.0,))
    l.add_constraint(cr.XAxisThickness(), ("Axes1/XAxis",), (None,))
    l.add_constraint(cr.YAxisThickness(), ("Axes1/YAxis",), (None,))
    l.add_constraint(cr.PositionXAxis(side=xside), ("Axes1",), ())
    l.add_constraint(cr.PositionYAxis(side=yside), ("Axes1",), ())
    # Margins outside the axis on its side
    for side in ("bottom", "top", "left", "right"):
        part = {xside: "XAxis", yside: "YAxis"}.get(side, "Frame")
        l.add_constraint(cr.InnerMargin(side=side), (f"Axes1/{part}", "Figure"), (0.5,))
    return l


def run_history(case, ctx):
    first = [OPS[i] for i in case["history"]]
    d = depth(ctx.tier)
    last = [o for o in OPS if o[0] == "loop"]
    for rest in itertools.product(*[OPS] * (d - 3), last):
        hist = first + list(rest)
        layouts = {("bottom", "left"): template("bottom", "left"), ("top", "right"): template("top", "right")}
        prims, _ = solving.solve(layouts["bottom", "left"], max_iter=20)
        fig, axs = F.subplots(prims)
        ax = axs["Axes1"]
        set_ticks(ax, "X", [0.2, 0.6], labels=["first", "g"])
        set_ticks(ax, "Y", [0.3, 0.7, 0.9], labels=["12345", "g", "two\nlines"])
        style, sides = "default", ("bottom", "left")
        for i, op in enumerate(hist):
            what = f"history {hist[: i + 1]}"
            if op[0] == "loop":
                key = op[1:]
                # From the sides that the figure has so far to those of the layout
                layouts[key] = F.quiet(lay.update_layout_constraints, layouts[key], axs)
                measured = {A: extent(getattr(ax, f"{A.lower()}axis"), A, s) for A, s in zip("XY", sides)}
                prims, _ = solving.solve(layouts[key], max_iter=20)
                F.update(prims, "Figure", fig, axs)
                sides = key
                for A, dim in (("X", 1), ("Y", 0)):
                    v, _ = build.read_polygon(prims[f"Axes1/{A}Axis"])
                    thick = v[2][dim] - v[0][dim]
                    ctx.check(abs(thick - measured[A]) < 1e-5, f"{what}: the {A} axis has thickness {thick:.6f}, measured was {measured[A]:.6f} in")
                    axis = getattr(ax, f"{A.lower()}axis")
                    ctx.check(F.ticks(axis, A) == F.only(key["XY".index(A)]), f"{what}: the {A} axis shows {sorted(F.ticks(axis, A))}")
                # Margins from the figure's edge to the tick labels as they were measured
                l, b, w, h = F.rect(ax)
                want = {"bottom": 0.5, "top": 0.5, "left": 0.5, "right": 0.5}
                want[key[0]] += measured["X"]
                want[key[1]] += measured["Y"]
                got = {"bottom": b, "top": 4 - b - h, "left": l, "right": 6 - l - w}
                ctx.check(all(abs(got[s] - want[s]) < 1e-5 for s in got), f"{what}: margins of the frame are {got}, not {want}")
                ctx.check(ax.xaxis.label.get_visible() and ax.yaxis.label.get_visible(), f"{what}: an axis label is hidden")
            elif op[0] == "style":
                style = op[1]
                ax.tick_params(**STYLE_OPS[style])
            elif op[0] == "dpi":
                fig.set_dpi(60)
            elif op[0] == "texts":
                ax.set_xlabel("label of x\nin two lines", fontsize=20)
                ax.set_ylabel("y")
            elif op[0] == "draw":
                F.quiet(fig.canvas.draw)
            ctx.trans()
            ctx.state((style, sides, fig.dpi, ax.get_xlabel(), F.rect(ax).round(5).tolist()))
        ctx.trace()
        F.close(fig)
    ctx.sample({"history": hist})


def run(case, ctx):
    plt.close("all")
    for k, f in (("measure", run_measure), ("fail", run_fail), ("update", run_update), ("history", run_history)):
        if k in case:
            return f(case, ctx)
