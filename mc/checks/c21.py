"""C21: layouts become figures with the requested sizes, as reusable templates"""

import itertools

import numpy as np
from matplotlib import pyplot as plt

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import layout as lay
from mpllayout import primitives as pr

from .. import build, solving
from .. import figures as F

LEVEL = "model_checking"
RULE = (
    "Templates with one axes, axes with axis parts and labels, a row, a column, grids of 2 x 2 and 3 x 4, nested insets, axes on all four sides with twins, axes hung on a slanted line, and axes placed by constraints composed from constructions. "
    "State: the values of all template parameters (two per parameter) and the figure. Transitions: changing one "
    "or several parameters of the layout (from its own geometry, from the last solution, by building it "
    "anew, or in the same layout object), solving it, and updating the existing figure or creating a new one. All histories of up to the "
    "stated number of changes are run through the real workflow; after each step the figure size, the position "
    "of every axes in inches, margins, gaps, label anchors and tick sides are compared with the arithmetic of "
    "the requested values, on matplotlib's objects and on the rendered pixels."
)
ASSUMPTIONS = [
    "solves run with jax.disable_jit (the same code, uncompiled)",
    "templates determine all sizes; positions agree to 1e-5 in (1e-4 in for grids), pixels to one pixel",
]


def bounds(tier):
    return {"templates": {n: len(t().params) for n, t in TEMPLATES.items()}, "changes": 1 if tier == "quick" else 2, "ways": WAYS}


def cases(tier):
    out = []
    for name, t in TEMPLATES.items():
        n = len(t().params)
        out += [{"template": name, "first": i} for i in range(-1, n)]
        out += [{"corner": name, "part": i} for i in range(4)]
    return out


class Template:
    def __init__(self):
        self.l = lay.Layout()
        # key -> list of the two values of its parameters
        self.params = {}

    def prim(self, prim, key):
        self.l.add_prim(prim, key)

    def add(self, cons, prims, *values, key=None):
        """`values`: tuples of parameters; several make it a template parameter"""
        key = key or f"c{len(self.l.root_constraint)} {'+'.join(prims)}".replace('/', '.')
        self.l.add_constraint(cons, prims, values[0] if values else (), key)
        if len(values) > 1:
            self.params[key] = list(values)
        return key

    def figure(self, l=0.0, b=0.0):
        self.prim(pr.Quadrilateral(), "Figure")
        self.add(cr.Box(), ("Figure",))
        self.add(cr.Fix(), ("Figure/Line0/Point0",), ((l, b),), ((l + 1.5, b - 2.0),))
        self.add(cr.Width(), ("Figure",), (6.0,), (7.5,), key="width")
        self.add(cr.Height(), ("Figure",), (5.0,), (4.25,), key="height")


# A template adds `expect`: {parameter key: values} -> ({axes key: rectangle in inches from the corner}, labels, sides)


def one(p=None):
    t = Template()
    t.figure()
    t.prim(pr.Axes(), "Axes")
    t.add(cr.Box(), ("Axes/Frame",))
    for side, a, b in (("left", 0.5, 1.0), ("right", 0.25, 0.75), ("bottom", 0.5, 0.125), ("top", 1.0, 0.0)):
        t.add(cr.InnerMargin(side=side), ("Axes/Frame", "Figure"), (a,), (b,), key=side)

    def expect(v):
        W, H, l, r, b, u = (v[k][0] for k in ("width", "height", "left", "right", "bottom", "top"))
        return {"Axes": (l, b, W - l - r, H - b - u)}, {}, {}

    t.expect = expect
    return t


def axis_parts():
    t = Template()
    t.figure(2.0, -1.0)
    t.prim(pr.Axes(xaxis=True, yaxis=True), "MyAxes")
    for q in ("Frame", "XAxis", "YAxis"):
        t.add(cr.Box(), (f"MyAxes/{q}",))
    t.add(cr.PositionXAxis(side="top"), ("MyAxes",))
    t.add(cr.PositionYAxis(side="left"), ("MyAxes",))
    t.add(cr.PositionXAxisLabel(), ("MyAxes",), (0.5,), (0.25,), key="xlabel")
    t.add(cr.PositionYAxisLabel(), ("MyAxes",), (0.5,), (1.0,), key="ylabel")
    t.add(cr.Height(), ("MyAxes/XAxis",), (0.25,), (0.5,), key="xthick")
    t.add(cr.Width(), ("MyAxes/YAxis",), (0.375,), (0.25,), key="ythick")
    t.add(cr.InnerMargin(side="top"), ("MyAxes/XAxis", "Figure"), (0.5,), (0.25,), key="top")
    t.add(cr.InnerMargin(side="left"), ("MyAxes/YAxis", "Figure"), (0.5,), (0.75,), key="left")
    t.add(cr.InnerMargin(side="right"), ("MyAxes/Frame", "Figure"), (0.25,))
    t.add(cr.Height(), ("MyAxes/Frame",), (2.0,), (2.5,), key="frame")
    t.add(cr.YDistance(), ("MyAxes/XAxis/Line2/Point0", "MyAxes/XAxisLabel"), (0.125,))
    t.add(cr.XDistance(), ("MyAxes/YAxisLabel", "MyAxes/YAxis/Line0/Point0"), (0.25,))

    def expect(v):
        g = lambda k: v[k][0]
        l = g("left") + g("ythick")
        top = g("height") - g("top") - g("xthick")
        w, h = g("width") - 0.25 - l, g("frame")
        b = top - h
        return (
            {"MyAxes": (l, b, w, h)},
            {("MyAxes", "X"): (l + g("xlabel") * w, top + g("xthick") + 0.125), ("MyAxes", "Y"): (l - g("ythick") - 0.25, b + g("ylabel") * h)},
            {("MyAxes", "X"): "top", ("MyAxes", "Y"): "left"},
        )

    t.expect = expect
    return t


def row():
    t = Template()
    t.figure()
    t.prim(pr.Axes(), "AxesL")
    t.prim(pr.Axes(), "AxesR")
    t.add(cr.Box(), ("AxesL/Frame",))
    t.add(cr.Box(), ("AxesR/Frame",))
    t.add(cr.InnerMargin(side="left"), ("AxesL/Frame", "Figure"), (0.5,), (0.25,), key="left")
    t.add(cr.InnerMargin(side="right"), ("AxesR/Frame", "Figure"), (0.5,))
    t.add(cr.OuterMargin(side="right"), ("AxesL/Frame", "AxesR/Frame"), (0.5,), (1.0,), key="gap")
    t.add(cr.InnerMargin(side="bottom"), ("AxesL/Frame", "Figure"), (0.5,), (1.25,), key="bottom")
    t.add(cr.InnerMargin(side="top"), ("AxesL/Frame", "Figure"), (1.0,))
    t.add(cr.AlignRow(), ("AxesL/Frame", "AxesR/Frame"))
    t.add(cr.Width(), ("AxesL/Frame",), (2.0,), (1.25,), key="axes")

    def expect(v):
        g = lambda k: v[k][0]
        b, h = g("bottom"), g("height") - g("bottom") - 1.0
        r = g("left") + g("axes") + g("gap")
        return {"AxesL": (g("left"), b, g("axes"), h), "AxesR": (r, b, g("width") - 0.5 - r, h)}, {}, {}

    t.expect = expect
    return t


def column():
    t = Template()
    t.figure(-3.0, 1.0)
    for k in "123":
        t.prim(pr.Axes(), f"Axes{k}")
        t.add(cr.Box(), (f"Axes{k}/Frame",))
    frames = tuple(f"Axes{k}/Frame" for k in "123")
    t.add(cr.OuterMarginArray(3, "bottom"), frames, (0.25, 0.5), (0.5, 0.125), key="gaps")
    t.add(cr.AlignColumn(), frames[:2])
    t.add(cr.AlignColumn(), frames[1:])
    t.add(cr.InnerMargin(side="top"), (frames[0], "Figure"), (0.25,), (0.5,), key="top")
    t.add(cr.InnerMargin(side="left"), (frames[1], "Figure"), (0.75,))
    t.add(cr.Width(), (frames[2],), (4.0,), (3.0,), key="axes")
    t.add(cr.Height(), (frames[0],), (1.0,))
    t.add(cr.RelativeLength(), ("Axes2/Frame/Line1", "Axes1/Frame/Line1"), (0.75,), (1.25,), key="ratio")
    t.add(cr.AspectRatio(), (frames[2],), (2.0,), (3.0,), key="aspect")

    def expect(v):
        g = lambda k: v[k][0]
        out, y = {}, g("height") - g("top")
        for k, h, gap in (("Axes1", 1.0, v["gaps"][0]), ("Axes2", g("ratio"), v["gaps"][1]), ("Axes3", g("axes") / g("aspect"), 0)):
            out[k] = (0.75, y - h, g("axes"), h)
            y -= h + gap
        return out, {}, {}

    t.expect = expect
    return t


def grid():
    t = Template()
    t.figure()
    keys = ["Axes00", "Axes01", "Axes10", "Axes11"]
    for k in keys:
        t.prim(pr.Axes(), k)
        t.add(cr.Box(), (f"{k}/Frame",))
    t.add(
        cr.Grid((2, 2)), tuple(f"{k}/Frame" for k in keys),
        ([0.5], [1.5], [0.25], [0.375]), ([1.25], [0.75], [0.5], [0.125]), key="grid",
    )
    t.add(cr.InnerMargin(side="left"), ("Axes00/Frame", "Figure"), (0.5,), (0.25,), key="left")
    t.add(cr.InnerMargin(side="top"), ("Axes00/Frame", "Figure"), (0.25,))
    t.add(cr.InnerMargin(side="right"), ("Axes11/Frame", "Figure"), (0.5,), (1.0,), key="right")
    t.add(cr.InnerMargin(side="bottom"), ("Axes11/Frame", "Figure"), (0.75,))

    def expect(v):
        g = lambda k: v[k][0]
        (cw,), (rh,), (cm,), (rm,) = v["grid"]
        w = (g("width") - g("left") - g("right") - cm) / (1 + cw)
        h = (g("height") - 0.25 - 0.75 - rm) / (1 + rh)
        x, y = (g("left"), g("left") + w + cm), (g("height") - 0.25 - h, 0.75)
        return {
            "Axes00": (x[0], y[0], w, h), "Axes01": (x[1], y[0], cw * w, h),
            "Axes10": (x[0], y[1], w, rh * h), "Axes11": (x[1], y[1], cw * w, rh * h),
        }, {}, {}

    t.expect = expect
    return t


def inset():
    """An axes inside an axes, and a label at a free point"""
    t = Template()
    t.figure(0.25, 0.5)
    t.prim(pr.Axes(), "Axes")
    t.prim(pr.Axes(yaxis=True), "AxesInset")
    t.prim(pr.Point(), "Anchor")
    for q in ("Axes/Frame", "AxesInset/Frame", "AxesInset/YAxis"):
        t.add(cr.Box(), (q,))
    for side in ("left", "right", "bottom", "top"):
        t.add(cr.InnerMargin(side=side), ("Axes/Frame", "Figure"), (0.5,))
    t.add(cr.InnerMargin(side="right"), ("AxesInset/Frame", "Axes/Frame"), (0.25,), (1.0,), key="right")
    t.add(cr.InnerMargin(side="top"), ("AxesInset/Frame", "Axes/Frame"), (0.25,), (0.5,), key="top")
    t.add(cr.Width(), ("AxesInset/Frame",), (1.5,), (1.0,), key="size")
    t.add(cr.AspectRatio(), ("AxesInset/Frame",), (1.0,), (0.75,), key="aspect")
    t.add(cr.PositionYAxis(side="right"), ("AxesInset",))
    t.add(cr.Width(), ("AxesInset/YAxis",), (0.125,))
    t.add(cr.Coincident(), ("AxesInset/YAxisLabel", "Anchor"))
    t.add(cr.XDistance(), ("Figure/Line0/Point0", "Anchor"), (1.0,), (0.5,), key="x")
    t.add(cr.YDistance(), ("Figure/Line0/Point0", "Anchor"), (4.0,))

    def expect(v):
        g = lambda k: v[k][0]
        W, H = g("width"), g("height")
        w = g("size")
        h = w / g("aspect")
        return (
            {"Axes": (0.5, 0.5, W - 1.0, H - 1.0), "AxesInset": (W - 0.5 - g("right") - w, H - 0.5 - g("top") - h, w, h)},
            {("AxesInset", "Y"): (g("x"), 4.0)}, {("AxesInset", "Y"): "right"},
        )

    t.expect = expect
    return t


def composed():
    """Axes positioned by constraints made from constructions"""
    t = Template()
    t.figure(-1.0, 2.0)
    for k in ("AxesL", "AxesR", "AxesTop"):
        t.prim(pr.Axes(), k)
        t.add(cr.Box(), (f"{k}/Frame",))
    L, R, T = "AxesL/Frame", "AxesR/Frame", "AxesTop/Frame"
    t.add(con.transform_constraint(con.transform_sum(con.Width(), con.Width())), (L, R), (4.5,), (3.75,), key="total")
    neg = con.transform_scalar_mul(con.transform_scalar_mul(con.Width(), -1), con.Scalar())
    t.add(con.transform_sum(con.Width(), neg), (R, L), (0.5,), (1.25,), key="ratio")
    t.add(con.transform_map(cr.InnerMargin(side="bottom"), [pr.Quadrilateral] * 3), (L, R, "Figure"), (0.5, 0.75), (1.0, 0.25), key="bottoms")
    t.add(con.transform_map(cr.Height(), [pr.Quadrilateral] * 3), (L, R, T), (2.0, 1.5, 0.5), (1.25, 1.75, 1.0), key="heights")
    t.add(con.transform_partial(cr.InnerMargin(side="left"), 0.25), (L, "Figure"))
    t.add(con.transform_constraint(con.transform_scalar_div(con.OuterMargin(side="right"), 2)), (L, R), (0.25,), (0.125,), key="half gap")
    double = con.transform_scalar_mul(con.MidpointXDistance(), 2)
    t.add(con.transform_constraint(double), ("Figure/Line0", f"{T}/Line0"), (0.0,), (0.5,), key="off centre")
    t.add(con.transform_constraint(con.transform_scalar_mul(con.Width(), con.Scalar())), (T,), (0.5, 1.0), (2.0, 6.0), key="scaled width")
    t.add(con.transform_constraint(con.transform_scalar_pow(con.InnerMargin(side="top"), 2)), (T, "Figure"), (0.25,), (1.0,), key="squared top")

    def expect(v):
        g = lambda k: v[k][0]
        wl = g("total") / (1 + g("ratio"))
        wr = g("total") - wl
        (hl, hr, ht), (bl, br) = v["heights"], v["bottoms"]
        wt = v["scaled width"][1] / v["scaled width"][0]
        lt = (g("width") - wt + g("off centre")) / 2
        return {
            "AxesL": (0.25, bl, wl, hl), "AxesR": (0.25 + wl + 2 * g("half gap"), br, wr, hr),
            "AxesTop": (lt, g("height") - g("squared top") ** 0.5 - ht, wt, ht),
        }, {}, {}

    t.expect = expect
    return t


def wall():
    """A 3 x 4 grid of axes, some of them with axis parts"""
    t = Template()
    t.figure()
    keys = [f"Axes{i}" for i in range(12)]
    sides = {k: ("top" if i < 4 else "bottom", "left" if i % 4 < 2 else "right") for i, k in enumerate(keys) if i in (0, 3, 6, 9, 10)}
    for i, k in enumerate(keys):
        t.prim(pr.Axes(xaxis=True, yaxis=True) if k in sides else pr.Axes(), k)
        t.add(cr.Box(), (f"{k}/Frame",))
    t.add(
        cr.Grid((3, 4)), tuple(f"{k}/Frame" for k in keys),
        ([0.5, 1.0, 1.5], [1.25, 0.75], [0.25, 0.125, 0.375], [0.25, 0.5]),
        ([1.0, 0.75, 0.5], [1.0, 1.5], [0.125, 0.25, 0.5], [0.375, 0.25]), key="grid",
    )
    for side, value in (("left", 0.5), ("top", 0.25), ("right", 0.75), ("bottom", 0.375)):
        frame = keys[0] if side in ("left", "top") else keys[11]
        t.add(cr.InnerMargin(side=side), (f"{frame}/Frame", "Figure"), (value,), (value + 0.125,), key=side)
    for i, (k, (x, y)) in enumerate(sides.items()):
        t.add(cr.Box(), (f"{k}/XAxis",))
        t.add(cr.Box(), (f"{k}/YAxis",))
        t.add(cr.PositionXAxis(side=x), (k,))
        t.add(cr.PositionYAxis(side=y), (k,))
        t.add(cr.Height(), (f"{k}/XAxis",), (0.0625,))
        t.add(cr.Width(), (f"{k}/YAxis",), (0.125,))
        for A, p in (("X", cr.PositionXAxisLabel), ("Y", cr.PositionYAxisLabel)):
            t.add(p(), (k,), (0.5,), *([(0.25,)] if i == 2 and A == "X" else []), key=f"{k} {A}")
        t.add(cr.YDistance(), ("Figure/Line0/Point0", f"{k}/XAxisLabel"), (0.125 * i,))
        t.add(cr.XDistance(), ("Figure/Line0/Point0", f"{k}/YAxisLabel"), (0.25 * i,))

    def expect(v):
        g = lambda k: v[k][0]
        cw, rh, cm, rm = v["grid"]
        w = (g("width") - g("left") - g("right") - sum(cm)) / (1 + sum(cw))
        h = (g("height") - g("top") - g("bottom") - sum(rm)) / (1 + sum(rh))
        ws, hs = [w] + [w * c for c in cw], [h] + [h * r for r in rh]
        rects, labels = {}, {}
        for i, k in enumerate(keys):
            r, c = divmod(i, 4)
            x = g("left") + sum(ws[:c]) + sum(cm[:c])
            y = g("height") - g("top") - sum(hs[: r + 1]) - sum(rm[:r])
            rects[k] = (x, y, ws[c], hs[r])
        for i, k in enumerate(sides):
            x, y, ww, hh = rects[k]
            f = lambda A: v.get(f"{k} {A}", (0.5,))[0]
            labels[k, "X"] = (x + f("X") * ww, 0.125 * i)
            labels[k, "Y"] = (0.25 * i, y + f("Y") * hh)
        return rects, labels, {(k, A): s["XY".index(A)] for k, s in sides.items() for A in "XY"}

    t.expect = expect
    return t


def twins():
    """Axes with axes on all four sides, and labels of all of them"""
    t = Template()
    t.figure(1.0, -0.5)
    t.prim(pr.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True), "Axes")
    for q in ("Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"):
        t.add(cr.Box(), (f"Axes/{q}",))
    t.add(cr.PositionXAxis(side="bottom", twin=True), ("Axes",))
    t.add(cr.PositionYAxis(side="right", twin=True), ("Axes",))
    for A in "XY":
        for k, T in enumerate(("", "Twin")):
            # Twins lie on the other side
            side = (("bottom", "top"), ("right", "left"))["XY".index(A)][k]
            size = cr.Height() if A == "X" else cr.Width()
            t.add(size, (f"Axes/{T}{A}Axis",), (0.25 + 0.125 * k,), *([(0.5,)] if T else []), key=f"{T}{A} size")
            t.add(cr.InnerMargin(side=side), (f"Axes/{T}{A}Axis", "Figure"), (0.5,), *([] if T else [(0.75,)]), key=f"{T}{A} margin")
            label = (cr.PositionXAxisLabel, cr.PositionYAxisLabel)["XY".index(A)]
            t.add(label(twin=bool(T)), ("Axes",), (0.5,), (0.25 + 0.5 * k,), key=f"{T}{A} label")
    t.add(cr.YDistance(), ("Figure/Line0/Point0", "Axes/XAxisLabel"), (0.25,))
    t.add(cr.YDistance(), ("Axes/TwinXAxisLabel", "Figure/Line2/Point0"), (0.125,))
    t.add(cr.XDistance(), ("Axes/YAxisLabel", "Figure/Line1/Point0"), (0.25,))
    # An inset from the label of a twin to that of the other one
    t.prim(pr.Axes(), "AxesInset")
    t.add(cr.Box(), ("AxesInset/Frame",))
    t.add(cr.Coincident(), ("AxesInset/Frame/Line0/Point0", "Axes/TwinYAxisLabel"))
    t.add(cr.XDistance(), ("Figure/Line0/Point0", "Axes/TwinYAxisLabel"), (0.125,))
    t.add(cr.Coincident(), ("AxesInset/Frame/Line2/Point0", "Axes/TwinXAxisLabel"))

    def expect(v):
        g = lambda k: v.get(k, (0.5,))[0]
        W, H = g("width"), g("height")
        l, r = 0.5 + g("TwinY size"), W - g("Y margin") - 0.25
        b, u = g("X margin") + 0.25, H - 0.5 - g("TwinX size")
        x, y = lambda k: l + g(k) * (r - l), lambda k: b + g(k) * (u - b)
        low = (0.125, y("TwinY label"))
        return (
            {"Axes": (l, b, r - l, u - b), "AxesInset": (*low, x("TwinX label") - 0.125, H - 0.125 - low[1])},
            {("Axes", "X"): (x("X label"), 0.25), ("Axes", "Y"): (W - 0.25, y("Y label"))},
            {("Axes", "X"): "bottom", ("Axes", "Y"): "right"},
        )

    t.expect = expect
    return t


def oblique():
    """Axes hung on a slanted line"""
    t = Template()
    t.figure(-2.0, 0.5)
    t.prim(pr.Line(prims=(pr.Point((-1.5, 0.75)), pr.Point((1.5, 2.5)))), "Rail")
    for i, k in enumerate(("AxesOn", "AxesOff", "AxesEnd")):
        t.prim(pr.Axes(prims=(build.box(i - 1.5, i + 1.0, i - 0.5, i + 1.75),)), k)
    t.add(cr.Coincident(), ("Rail/Point0", "Figure/Line0/Point0"))
    t.add(cr.Length(), ("Rail",), (4.0,), (3.25,), key="rail")
    t.add(cr.Angle(), ("Figure/Line0", "Rail"), (0.5,), (0.875,), key="angle")
    on, off, end = (f"{k}/Frame" for k in ("AxesOn", "AxesOff", "AxesEnd"))
    t.add(cr.Box(), (on,))
    t.add(cr.RelativePointOnLineDistance(), (f"{on}/Line0/Point0", "Rail"), (False, 0.25), (True, 0.5), key="on")
    t.add(cr.PointToLineDistance(), (f"{on}/Line0/Point0", "Rail"), (False, 0.0), (True, 0.25), key="beside")
    t.add(cr.XLength(), (f"{on}/Line0",), (1.0,))
    t.add(cr.YLength(), (f"{on}/Line1",), (0.5,))
    t.add(cr.Horizontal(), (f"{off}/Line0",))
    t.add(cr.Vertical(), (f"{off}/Line1",))
    t.add(cr.Parallel(), (f"{off}/Line0", f"{off}/Line2"))
    t.add(cr.Orthogonal(), (f"{off}/Line0", f"{off}/Line3"))
    t.add(cr.PointOnLineDistance(), (f"{off}/Line2/Point1", "Rail"), (True, 1.0), (True, -0.5), key="off")
    t.add(cr.PointToLineDistance(), (f"{off}/Line2/Point1", "Rail"), (False, 1.0))
    t.add(cr.DirectedLength(), (f"{off}/Line0",), (np.array([1.0, 0.0]), 1.25))
    t.add(cr.RelativeLength(), (f"{off}/Line1", "Rail"), (0.25,))
    t.add(cr.Box(), (end,))
    t.add(cr.MidpointXDistance(), ("Rail", f"{end}/Line0"), (1.0,), (0.25,), key="middle")
    t.add(cr.MidpointYDistance(), ("Rail", f"{end}/Line1"), (-0.5,))
    t.add(cr.Width(), (end,), (1.5,))
    t.add(cr.AspectRatio(), (end,), (1.5,), (2.25,), key="aspect")

    def expect(v):
        g = lambda k: v[k][0]
        L, a = g("rail"), g("angle")
        d, n = np.array([np.cos(a), np.sin(a)]), np.array([-np.sin(a), np.cos(a)])
        reverse, f = v["on"]
        low = d * L * (1 - f if reverse else f) + n * v["beside"][1] * (-1 if v["beside"][0] else 1)
        corner = d * (L - v["off"][1]) + n
        mid = d * L / 2
        h = 1.5 / g("aspect")
        return {
            "AxesOn": (*low, 1.0, 0.5), "AxesOff": (corner[0], corner[1] - L / 4, 1.25, L / 4),
            "AxesEnd": (mid[0] + g("middle") - 0.75, mid[1] - 0.5 - h / 2, 1.5, h),
        }, {}, {}

    t.expect = expect
    return t


TEMPLATES = {"composed": composed, "wall": wall, "one": one, "axis parts": axis_parts, "row": row, "column": column, "grid": grid, "inset": inset, "twins": twins, "oblique": oblique}
WAYS = ("own", "solution", "anew", "in place")


class World:
    """A layout, its parameter values, last solution and figure"""

    def __init__(self, name):
        self.t = TEMPLATES[name]()
        self.name = name
        self.root_param = self.t.l.root_param
        self.values = {k: v[0] for k, v in self.t.params.items()}
        self.prims = self.fig = None

    def change(self, new, way):
        """`new`: {parameter key: values}"""
        self.values = {**self.values, **new}
        if way == "anew":
            t = TEMPLATES[self.name]()
            for key, value in self.values.items():
                t.l.root_param[key] = t.l.root_constraint[key].root_params(value)
            self.root_param = t.l.root_param
            self.layout = t.l
        elif way == "in place":
            # The same layout object, solved before
            self.layout = self.t.l
            for key, value in self.values.items():
                self.layout.root_param[key] = self.layout.root_constraint[key].root_params(value)
            self.root_param = self.layout.root_param
        else:
            l = self.t.l
            self.root_param = lay.update_root_param(l.root_constraint, self.root_param, new)
            prims = self.prims if way == "solution" and self.prims is not None else l.root_prim
            self.layout = lay.Layout(prims, l.root_constraint, l.root_prim_keys, self.root_param)

    def realize(self, ctx, create):
        self.prims, info = solving.solve(self.layout, max_iter=30)
        if create or self.fig is None:
            if self.fig is not None:
                F.close(self.fig)
            self.fig, self.axs = F.subplots(self.prims)
            self.fig.set_dpi(40)
        else:
            self.fig, self.axs = F.update(self.prims, "Figure", self.fig, self.axs)
        return info

    def check(self, ctx, what, info):
        rects, labels, sides = self.t.expect({k: v for k, v in self.values.items()})
        W, H = self.values["width"][0], self.values["height"][0]
        tol = dict(rtol=0, atol=1e-4 if self.name in ("grid", "wall") else 1e-5)
        ctx.check(np.allclose(F.size(self.fig), (W, H), **tol), f"{what}: the figure is {F.size(self.fig)} in large, requested was {(W, H)}", values=self.values)
        ctx.check(sorted(self.axs) == sorted(rects), f"{what}: axes {sorted(self.axs)}")
        for key, want in rects.items():
            for got in (F.rect(self.axs[key]), F.drawn_rect(self.axs[key])):
                ctx.check(
                    np.allclose(got, want, **tol),
                    f"{what}: axes {key} is at {np.round(got, 6)} in, not at {np.round(want, 6)}", values=self.values, errors=info["abs_errs"],
                )
        for (key, A), want in labels.items():
            got = F.label(getattr(self.axs[key], f"{A.lower()}axis"))
            ctx.check(np.allclose(got, want, **tol), f"{what}: the {A} axis label of {key} is at {got} in, not at {want}", values=self.values)
        for (key, A), want in sides.items():
            got = F.ticks(getattr(self.axs[key], f"{A.lower()}axis"), A)
            ctx.check(got == F.only(want), f"{what}: the {A} axis of {key} shows {sorted(got)}, not {want}", values=self.values)
        ctx.state((self.name, sorted(self.values.items())))

    def pixels(self, ctx, what):
        """Rendered areas of the axes (that don't overlap)"""
        if self.name in ("twins", "oblique"):
            return
        rects, _, _ = self.t.expect(self.values)
        dpi = self.fig.dpi
        colors = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0)]
        colors += [(40 * i, 250 - 30 * j, 128) for i in range(4) for j in range(3)]
        for (key, ax), c in zip(self.axs.items(), colors):
            ax.set_facecolor(np.array(c) / 255)
            ax.patch.set_antialiased(False)
            for s in ax.spines.values():
                s.set_visible(False)
            ax.set_xticks([])
            ax.set_yticks([])
        F.quiet(self.fig.canvas.draw)
        img = np.asarray(self.fig.canvas.buffer_rgba())[::-1, :, :3]
        W, H = self.values["width"][0], self.values["height"][0]
        ctx.check(abs(img.shape[1] - W * dpi) <= 1 and abs(img.shape[0] - H * dpi) <= 1, f"{what}: the image has {img.shape[1::-1]} pixels")
        for (key, ax), c in zip(self.axs.items(), colors):
            ys, xs = np.nonzero(np.all(img == c, axis=-1))
            l, b, w, h = (v * dpi for v in rects[key])
            got = (xs.min(), ys.min(), xs.max() + 1, ys.max() + 1)
            # Axes may extend beyond the figure
            want = np.clip((l, b, l + w, b + h), 0, (W * dpi, H * dpi) * 2)
            ctx.check(np.allclose(got, want, rtol=0, atol=1.01), f"{what}: axes {key} covers pixels {got}, not {np.round(want, 2)}")


def history(ctx, name, steps, pixels=False):
    """steps: [(new values, way, create)]"""
    w = World(name)
    w.change({}, "in place" if len(steps) != 1 else "own")
    w.check(ctx, f"template {name} as built", w.realize(ctx, True))
    for i, (new, way, create) in enumerate(steps):
        w.change(new, way)
        info = w.realize(ctx, create)
        w.check(ctx, f"template {name} after {[(s[0], s[1], 'new figure' if s[2] else 'update') for s in steps[: i + 1]]}", info)
        ctx.trans()
    if pixels:
        w.pixels(ctx, f"template {name} after {steps}")
    ctx.trace()
    F.close(w.fig)


def run_template(case, ctx):
    name, i = case["template"], case["first"]
    params = TEMPLATES[name]().params
    keys = list(params)
    if i < 0:
        history(ctx, name, [], pixels=True)
        return
    first = {keys[i]: params[keys[i]][1]}
    # All second changes: of another parameter, or back
    for j in range(len(keys)):
        if ctx.quick and (j - i) % len(keys) not in (0, 1, 3):
            continue
        second = {keys[j]: params[keys[j]][0 if j == i else 1]}
        ways = list(itertools.product(WAYS, WAYS)) if not ctx.quick else [(WAYS[(i + j) % 4], WAYS[(0, 3, 1)[(i + 2 * j) % 3]])]
        for m, (wa, wb) in enumerate(ways):
            steps = [(first, wa, (i + m) % 2 == 0), (second, wb, False)]
            if not ctx.quick:
                third = {keys[(i + j) % len(keys)]: params[keys[(i + j) % len(keys)]][0]}
                steps.append((third, WAYS[m % 4], False))
            history(ctx, name, steps, pixels=m == 0)
    ctx.sample({"template": name, "steps": steps})


def run_corner(case, ctx):
    """Changes of several parameters at once: complementary halves"""
    name = case["corner"]
    params = TEMPLATES[name]().params
    keys = list(params)
    todo = range(case["part"], 2 ** len(keys), 4)
    if ctx.quick:
        todo = [(4 * m + case["part"]) * 2533 % 2 ** len(keys) for m in range(3)]
    for n, bits in enumerate(todo):
        new = {k: params[k][1] for i, k in enumerate(keys) if bits >> i & 1}
        # In the other order as well
        new = dict(reversed(new.items())) if n % 2 else new
        back = {k: params[k][0] for k in new}
        history(ctx, name, [(new, WAYS[n % 4], False), (back, WAYS[(0, 3, 1)[n % 3]], False)][: 1 if ctx.quick and n % 4 else 2])


def run(case, ctx):
    plt.close("all")
    return run_template(case, ctx) if "template" in case else run_corner(case, ctx)
