"""Layout geometries as plain numbers, their primitives, and what matplotlib shows of them"""

import warnings

import jax.numpy as jnp
import matplotlib
import numpy as np
from matplotlib import pyplot as plt

from mpllayout import matplotlibutils as mu
from mpllayout import primitives as pr

from . import build, custom

OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def axis_rect(frame, side, thick):
    l, b, r, t = frame
    return {
        "bottom": (l, b - thick, r, b), "top": (l, t, r, t + thick),
        "left": (l - thick, b, l, t), "right": (r, b, r + thick, t),
    }[side]


def axes_geometry(frame, kind="A", xside="bottom", yside="left", thick=0.25, xlabel=None, ylabel=None):
    """Plain description of an Axes primitive: {part: rectangle or point}"""
    l, b, r, t = frame
    out = {"Frame": tuple(frame)}
    if "x" in kind:
        out["XAxis"] = axis_rect(frame, xside, thick)
        out["XAxisLabel"] = xlabel or ((l + r) / 2, b - 0.5)
    if "y" in kind:
        out["YAxis"] = axis_rect(frame, yside, thick)
        out["YAxisLabel"] = ylabel or (l - 0.5, (b + t) / 2)
    if "X" in kind:
        out["TwinXAxis"] = axis_rect(frame, OPP[xside], thick)
        out["TwinXAxisLabel"] = (l - 7.0, t + 11.0)
    if "Y" in kind:
        out["TwinYAxis"] = axis_rect(frame, OPP[yside], thick)
        out["TwinYAxisLabel"] = (r + 7.0, b - 11.0)
    return dict(kind=kind, xside=xside, yside=yside, parts=out)


CONVERT = {
    "float": lambda p: p,
    "derived": lambda p: p,  # of user-defined derived classes
    "int": lambda p: np.array(p, dtype=int),
    "float32": lambda p: np.array(p, dtype=np.float32),
    "jax": lambda p: jnp.array(p, dtype=float),
    "jax32": lambda p: jnp.array(p, dtype=jnp.float32),
}


def prim_quad(rect, conv):
    return pr.Quadrilateral(None, [pr.Point(conv(np.array(p, dtype=float))) for p in build.box_pts(*rect)])


def prim_axes(geo, form="float"):
    conv = CONVERT[form]
    prims = []
    for key, k in build.axes_parts(geo["kind"]):
        v = geo["parts"][key]
        prims.append(prim_quad(v, conv) if k == "Q" else pr.Point(conv(np.array(v, dtype=float))))
    return pr.Axes(None, tuple(prims), **build.axes_flags(geo["kind"]))


def prim_tree(fig, axes, fig_key="Figure", form="float", first=True, extra=()):
    """Root primitive of a figure rectangle and {key: axes geometry}; keys with `/` are nested"""
    root = pr.PrimitiveNode(np.array([]), {})
    items = [(fig_key, prim_quad(fig, CONVERT[form]))]
    rest = [(k, prim_axes(g, form)) for k, g in axes.items()]
    items = items + rest if first else rest + items
    items += list(extra)
    for key, prim in items:
        parents = key.split("/")[:-1]
        for i in range(len(parents)):
            p = "/".join(parents[: i + 1])
            if p not in root:
                root.add_child(p, pr.PrimitiveNode(np.array([]), {}))
        root.add_child(key, prim)
    return custom.derived(root) if form == "derived" else root


## What should be shown


def want_rect(fig, geo):
    """(left, bottom, width, height) in inches from the figure's lower left corner"""
    l, b, r, t = geo["parts"]["Frame"]
    return (l - fig[0], b - fig[1], r - l, t - b)


def want_size(fig):
    return (fig[2] - fig[0], fig[3] - fig[1])


def want_label(fig, geo, A):
    p = geo["parts"].get(f"{A}AxisLabel")
    return None if p is None else (p[0] - fig[0], p[1] - fig[1])


## What is shown


def size(fig):
    """Of the drawn figure, in inches"""
    a, b = fig.get_size_inches(), (fig.bbox.width / fig.dpi, fig.bbox.height / fig.dpi)
    assert np.allclose(a, b), (a, b)
    return np.array(b)


def rect(ax):
    fig = ax.get_figure()
    bb = ax.get_position(original=True)
    w, h = size(fig)
    return np.array([bb.x0 * w, bb.y0 * h, bb.width * w, bb.height * h])


def drawn_rect(ax):
    """Of the axes background, from the artist that is drawn"""
    fig = ax.get_figure()
    bb = ax.patch.get_window_extent()
    return np.array([bb.x0, bb.y0, bb.width, bb.height]) / fig.dpi


def label(axis):
    """Anchor of the axis label in inches"""
    t = axis.label
    return np.asarray(t.get_transform().transform(t.get_unitless_position())) / axis.get_figure().dpi


SIDES = {"X": ("bottom", "top"), "Y": ("left", "right")}


def ticks(axis, A):
    """[(side of tick lines and labels that are visible)] from the tick artists"""
    out = set()
    for tick in axis.get_major_ticks():
        for side, ln, lb in ((SIDES[A][0], tick.tick1line, tick.label1), (SIDES[A][1], tick.tick2line, tick.label2)):
            if ln.get_visible():
                out.add((side, "line"))
            if lb.get_visible():
                out.add((side, "label"))
    return frozenset(out)


def only(side):
    return frozenset({(side, "line"), (side, "label")})


def close(*figs):
    for f in figs or ("all",):
        plt.close(f)


def quiet(f, *args, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*args, **kw)


def subplots(*args, **kw):
    return quiet(mu.subplots, *args, **kw)


def update(*args, **kw):
    return quiet(mu.update_subplots, *args, **kw)
