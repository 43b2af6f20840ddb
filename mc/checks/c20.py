"""C20: drawn primitives show every point, line and polygon at its coordinates"""

import collections
import itertools

import jax.numpy as jnp
import matplotlib
import numpy as np
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.patches import Polygon

from mpllayout import primitives as pr
from mpllayout import ui

from .. import build, custom, solving
from .. import figures as F

LEVEL = "exploration"
RULE = (
    "(1) Every line between two points of a lattice (all directions, also of zero length, and nearly "
    "horizontal and vertical ones) in single and double precision, points on a lattice and polygons of 3 to 8 "
    "vertices, x every combination of the optional arguments (label, colour, opacity). (2) Every sequence of up "
    "to three primitives from a menu (points, lines, zero-length lines, polygons, quadrilaterals, all kinds of "
    "axes, groups, user-defined classes; also drawn again, after clearing, and in other axes), and every nesting of such in groups up to depth three, drawn with plot_prim, plot_prims and "
    "figure_prims; layouts of up to 33 primitives and polygons of up to 33 vertices. The artists in the axes are compared with an independent list: each free-standing point, "
    "line of non-zero length and polygon once, at its coordinates; line labels at the middle along the line's "
    "direction; one colour per top-level primitive; nothing in other axes. Distinct: (primitives, call)."
)
ASSUMPTIONS = [
    "points that belong to a line are not drawn on their own",
    "optional style arguments are those that matplotlib accepts for lines, patches and texts alike",
]


def lattice(tier):
    return (-2, -1, 0, 1.5) if tier == "quick" else (-3, -2, -1, -0.1, 0, 1e-3, 1.5, 4)


def bounds(tier):
    return {"lattice": lattice(tier), "menu": list(MENU), "sequences": 2 if tier == "quick" else 3, "group depth": 3}


def cases(tier):
    out = [{"line": [x, y]} for x in lattice(tier) for y in lattice(tier)]
    out += [{"fine": i} for i in range(8)]
    out += [{"shapes": i} for i in range(8)]
    out += [{"options": i} for i in range(4)]
    out += [{"sequence": [a]} for a in MENU]
    out += [{"nest": [a, b]} for a in range(len(WRAPS)) for b in range(4)]
    out += [{"figure": i} for i in range(6)]
    out += [{"many": n} for n in (9, 10, 11, 12, 13, 20, 33)]
    return out


## Reading artists


def artists(ax):
    """Multiset of (kind, vertices) and the texts [(text, position, rotation)]"""
    got = []
    for ln in ax.lines:
        xy = np.asarray(ln.get_xydata(), dtype=float)
        if len(xy) == 1:
            assert ln.get_marker() not in (None, "None", "", " "), "a point without a marker"
            got.append(("point", rounded(xy)))
        else:
            assert ln.get_linestyle() not in (None, "None", "", " "), "a line without a line"
            got.append(("line", rounded(xy)))
    for p in ax.patches:
        assert isinstance(p, Polygon)
        xy = np.asarray(p.get_xy(), dtype=float)
        assert np.allclose(xy[0], xy[-1]), "an open polygon"
        got.append(("polygon", rounded(xy[:-1])))
    texts = []
    for t in ax.texts:
        if t.get_text():
            xy = t.xy if hasattr(t, "xy") else t.get_position()
            texts.append((t.get_text(), rounded([xy])[0], float(t.get_rotation()) % 360))
    return collections.Counter(got), texts


def rounded(xy):
    return tuple(tuple(float(np.round(v, 5)) + 0.0 for v in p) for p in np.asarray(xy, dtype=float))


def canonical(counter):
    """Lines and polygons are the same from any start and in both directions"""
    out = collections.Counter()
    for (kind, v), n in counter.items():
        if kind == "polygon":
            # Repeated vertices can't be seen
            v = tuple(p for i, p in enumerate(v) if p != v[i - 1]) or v[:1]
            alts = [w[i:] + w[:i] for w in (v, v[::-1]) for i in range(len(v))]
        elif kind == "line":
            alts = [v, v[::-1]]
        else:
            alts = [v]
        out[kind, min(alts)] += n
    return out


def expected(spec):
    """Drawn parts of a description; see `make`"""
    kind, arg = spec
    if kind == "derived":
        return expected(arg)
    if kind == "circle":
        return expected(("P", arg))
    if kind == "P":
        return [("point", rounded(arg))]
    if kind == "L":
        return [] if rounded(arg)[0] == rounded(arg)[1] else [("line", rounded(arg))]
    if kind in ("G", "Q"):
        out = [("polygon", rounded(arg))]
        for i in range(len(arg)):
            out += expected(("L", [arg[i], arg[(i + 1) % len(arg)]]))
        return out
    if kind == "A":
        out = []
        for key, k in build.axes_parts(arg["kind"]):
            v = arg["parts"][key]
            out += expected(("Q", build.box_pts(*v)) if k == "Q" else ("P", [v]))
        return out
    return [e for _, s in arg for e in expected(s)]


def make(spec, form="float"):
    kind, arg = spec
    conv = F.CONVERT[form]
    pt = lambda p: pr.Point(conv(np.array(p, dtype=float)))
    if kind == "derived":
        return custom.derived(make(arg, form))
    if kind == "circle":
        return custom.Circle([7.5], (pt(arg[0]),))
    if kind == "P":
        return pt(arg[0])
    if kind == "L":
        return pr.Line(prims=(pt(arg[0]), pt(arg[1])))
    if kind == "Q":
        return pr.Quadrilateral(None, [pt(p) for p in arg])
    if kind == "G":
        return pr.Polygon(None, [pt(p) for p in arg], size=len(arg))
    if kind == "A":
        return F.prim_axes(arg, form)
    return pr.PrimitiveNode(np.array([]), {k: make(s, form) for k, s in arg})


class Canvas:
    """Axes to draw into, next to current axes that must stay empty"""

    def __enter__(self):
        self.fig, (self.ax, self.other) = plt.subplots(1, 2)
        plt.sca(self.other)
        return self.ax

    def __exit__(self, *exc):
        n = len(self.other.get_children())
        lines = len(self.other.lines) + len(self.other.patches) + len(self.other.texts)
        plt.close(self.fig)
        if exc[0] is None:
            assert lines == 0, f"drawn into other axes ({n})"


def compare(ctx, what, ax, want, texts=None):
    got, got_texts = artists(ax)
    want = canonical(collections.Counter(want))
    got = canonical(got)
    ctx.check(got == want, f"{what}: missing {list((want - got).items())[:4]}, additional {list((got - want).items())[:4]}")
    if texts is not None:
        a = sorted((t, p) for t, p, _ in got_texts)
        b = sorted((t, p) for t, p, _ in texts)
        same = [t for t, _ in a] == [t for t, _ in b] and all(np.allclose(p, q, rtol=0, atol=2e-5) for (_, p), (_, q) in zip(a, b))
        ctx.check(same, f"{what}: labels {a}, not {b}")
        for (t, p, r), (_, _, s) in zip(sorted(got_texts), sorted(texts)):
            if s is not None:
                ctx.check(abs((r - s + 180) % 360 - 180) < 0.05, f"{what}: label {t} is rotated by {r}, not by {s} degrees")


OPTIONS = [
    dict(zip(names, vals))
    for n in range(4)
    for names in itertools.combinations(("label", "color", "alpha"), n)
    for vals in [tuple({"label": "name", "color": (0.25, 0.5, 0.75), "alpha": 0.5}[k] for k in names)]
]


def direction(a, b):
    return np.degrees(np.arctan2(b[1] - a[1], b[0] - a[0])) % 360


def one_line(ctx, a, b, form, kw):
    if "32" in form:
        a, b = (tuple(float(np.float32(v)) for v in p) for p in (a, b))
    ctx.ev()
    ctx.seen(("line", a, b, form, sorted(kw)))
    what = f"plot_line {a} to {b} {form} {kw}"
    prim = make(("L", [a, b]), form)
    with Canvas() as ax:
        ui.plot_line(ax, prim, **kw)
        texts = []
        if "label" in kw and tuple(a) != tuple(b):
            mid = rounded([((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)])[0]
            texts = [(kw["label"], mid, direction(a, b))]
        compare(ctx, what, ax, expected(("L", [a, b])), texts)
        styles(ctx, what, ax, kw)


def styles(ctx, what, ax, kw):
    for art in list(ax.lines) + [t for t in ax.texts if t.get_text()]:
        if "color" in kw:
            ctx.check(mcolors.same_color(art.get_color(), kw["color"]), f"{what}: colour {art.get_color()}")
        if "alpha" in kw:
            ctx.check(art.get_alpha() == kw["alpha"], f"{what}: opacity {art.get_alpha()}")
    for art in ax.patches:
        if "color" in kw:
            ctx.check(mcolors.same_color(art.get_facecolor()[:3], kw["color"]), f"{what}: colour {art.get_facecolor()}")


def run_line(case, ctx):
    a = tuple(case["line"])
    lat = lattice(ctx.tier)
    for n, b in enumerate(itertools.product(lat, lat)):
        one_line(ctx, a, b, "float", dict(label="name"))
        one_line(ctx, a, b, ("jax", "jax32", "float32")[n % 3], OPTIONS[n % len(OPTIONS)])
    ctx.sample({"from": a, "to": b})


def run_fine(case, ctx):
    """Close to the axis directions, where rounding matters"""
    i = case["fine"]
    for n in range(12 if ctx.quick else 60):
        length = (0.1, 0.3, 0.7, 1.1, 3.3, 1e-3, 47.7, 1 / 3)[i] * (1 + n / 7)
        for (dx, dy), form in itertools.product(((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1e-4), (-1, 1e-4), (1, -1e-4), (-1e-4, -1)), ("float", "jax", "jax32")):
            a = (0.0, 0.0) if "32" in form else (0.1 * n, -0.7)
            one_line(ctx, a, (a[0] + dx * length, a[1] + dy * length), form, dict(label="name"))


def ring(n, k=0):
    return [(3 * np.cos(2 * np.pi * i / n + k) + 0.1 * i * k, 2 * np.sin(2 * np.pi * i / n + k)) for i in range(n)]


def run_shapes(case, ctx):
    i = case["shapes"]
    for kw, form, k in itertools.product(OPTIONS, ("float", "jax"), range(3)):
        if i == 0:
            spec, f, origin = ("P", [(k - 1.5, 2.0 * k)]), ui.plot_point, (k - 1.5, 2.0 * k)
        elif i == 1:
            spec, f = ("Q", build.box_pts(k - 2.0, k, 3.0 - 2 * k, 0.5)), ui.plot_polygon
        elif i == 2:
            # degenerate
            spec, f = ("G", [(0, 0), (k, 1), (k, 1), (2, 0)]), ui.plot_polygon
        else:
            spec, f = ("G", ring(i, k)), ui.plot_polygon
        origin = spec[1][0]
        what = f"{f.__name__} {spec} {kw} {form}"
        ctx.ev()
        ctx.seen((what,))
        with Canvas() as ax:
            prim = make(spec, form)
            before = solving.frozen(prim)
            f(ax, prim, **kw)
            texts = [(kw["label"], rounded([origin])[0], None)] if "label" in kw else []
            compare(ctx, what, ax, expected(spec)[:1], texts)
            styles(ctx, what, ax, kw if i == 0 else {k: v for k, v in kw.items() if k == "color"})
            ctx.check(solving.frozen(prim) == before, f"{what}: the primitive was changed")


MENU = {
    "P": ("P", [(0.5, -1.0)]),
    "L": ("L", [(0.0, 1.0), (2.0, -0.5)]),
    "L0": ("L", [(1.0, 1.0), (1.0, 1.0)]),
    "Q": ("Q", build.box_pts(0.0, 0.0, 2.0, 1.0)),
    "G": ("G", [(0.0, 0.0), (1.0, 0.5), (0.5, 2.0)]),
    "G7": ("G", ring(7)),
    "A": ("A", F.axes_geometry((1.0, 1.0, 2.0, 3.0), "A")),
    "Axy": ("A", F.axes_geometry((1.0, 1.0, 2.0, 3.0), "Axy", thick=0.0)),
    "AxyXY": ("A", F.axes_geometry((1.0, 1.0, 2.0, 3.0), "AxyXY", "top", "right")),
    # User-defined classes
    "circle": ("circle", [(0.25, 1.5)]),
    "own": ("derived", ("group", [("a", ("L", [(0.0, 1.0), (2.0, -0.5)])), ("b", ("P", [(0.5, -1.0)])), ("c", ("G", [(0.0, 0.0), (1.0, 0.5), (0.5, 2.0)]))])),
    "ownA": ("derived", ("A", F.axes_geometry((1.0, 1.0, 2.0, 3.0), "Ax", thick=0.0))),
    "E": ("group", []),
    "S": ("group", [("Point0", ("P", [(7.0, 7.0)])), ("Line0", ("L", [(6.0, 6.0), (5.0, 7.0)]))]),
}


def shifted(spec, d):
    kind, arg = spec
    if kind == "derived":
        return (kind, shifted(arg, d))
    if kind == "group":
        return (kind, [(k, shifted(s, d)) for k, s in arg])
    if kind == "A":
        sh = lambda v: tuple(x + (d if i % 2 == 0 else -d) for i, x in enumerate(v))
        return (kind, dict(arg, parts={k: sh(v) for k, v in arg["parts"].items()}))
    return (kind, [(x + d, y - d) for x, y in arg])


def keys_shown(spec, key, depth=0, limit=99):
    """Last parts of the keys of everything that gets drawn, in any order"""
    kind, arg = spec
    if kind == "derived":
        return keys_shown(arg, key, depth, limit)
    if kind == "circle":
        return keys_shown(("P", arg), "Center", depth + 1, limit)
    here = [key] if depth <= limit else []
    if kind == "P":
        return here
    if kind == "L":
        return here if expected(spec) else []
    if kind in ("G", "Q"):
        out = list(here)
        for i in range(len(arg)):
            out += keys_shown(("L", [arg[i], arg[(i + 1) % len(arg)]]), f"Line{i}", depth + 1, limit)
        return out
    if kind == "A":
        out = []
        for k, t in build.axes_parts(arg["kind"]):
            v = arg["parts"][k]
            out += keys_shown(("Q", build.box_pts(*v)) if t == "Q" else ("P", [v]), k, depth + 1, limit)
        return out
    return [x for k, s in arg for x in keys_shown(s, k, depth + 1, limit)]


def labels(ctx, what, ax, want):
    got = sorted(t.get_text().split("/")[-1] for t in ax.texts if t.get_text())
    ctx.check(got == sorted(want), f"{what}: labels {got}, not {sorted(want)}")


def draw_all(ctx, spec, form="float"):
    """A group with each plotting function"""
    root = make(spec, form)
    before = solving.frozen(root)
    want = expected(spec)
    what = f"{describe(spec)} {form}"
    for name in ("plot_prims", "plot_prims cmap", "plot_prim", "plot_prim key", "plot_prim limit 0", "plot_prim limit 1"):
        ctx.ev()
        ctx.seen((what, name))
        with Canvas() as ax:
            if name == "plot_prims":
                ui.plot_prims(ax, root)
            elif name == "plot_prims cmap":
                ui.plot_prims(ax, root, cmap=matplotlib.colormaps["cool"])
            elif name == "plot_prim":
                ui.plot_prim(ax, root)
            elif name == "plot_prim key":
                ui.plot_prim(ax, root, "Root", color="red")
            else:
                ui.plot_prim(ax, root, prim_key="Root", max_label_depth=int(name[-1]))
            compare(ctx, f"{name} {what}", ax, want)
            if name.startswith("plot_prims"):
                labels(ctx, f"{name} {what}", ax, [x for k, s in spec[1] for x in keys_shown(s, k)])
                one_color_each(ctx, f"{name} {what}", ax, spec)
            elif name == "plot_prim key":
                labels(ctx, f"{name} {what}", ax, keys_shown(spec, "Root"))
                styles(ctx, f"{name} {what}", ax, dict(color="red"))
            elif "limit" in name:
                labels(ctx, f"{name} {what}", ax, keys_shown(spec, "Root", 0, int(name[-1])))
            for art in list(ax.lines) + list(ax.patches):
                ctx.check(art.get_alpha() is None or 0 < art.get_alpha() <= 1, f"{name} {what}: opacity {art.get_alpha()}")
    ctx.check(solving.frozen(root) == before, f"{what}: the primitives were changed")


def draw_again(ctx, spec, form="float"):
    """The same primitives again: cleared, added to the same axes, in other axes, after other ones"""
    root = make(spec, form)
    other = make(shifted(spec, -40.0), form)
    want, far = expected(spec), expected(shifted(spec, -40.0))
    what = f"{describe(spec)} {form}"
    for draw in (ui.plot_prims, ui.plot_prim):
        with Canvas() as ax:
            draw(ax, root)
            ax.clear()
            draw(ax, root)
            compare(ctx, f"{draw.__name__} {what} after clearing the axes", ax, want)
            draw(ax, root)
            compare(ctx, f"{draw.__name__} {what} twice", ax, want + want)
            draw(ax, other)
            compare(ctx, f"{draw.__name__} {what} twice and other ones", ax, want + want + far)
        with Canvas() as ax:
            draw(ax, root)
            compare(ctx, f"{draw.__name__} {what} in other axes", ax, want)
        ctx.ev()
        ctx.seen((what, "again", draw.__name__))


def one_color_each(ctx, what, ax, spec):
    """Artists come in the order of the top-level primitives"""
    lines, patches, used = list(ax.lines), list(ax.patches), []
    for key, s in spec[1]:
        exp = expected(s)
        npatch = sum(k == "polygon" for k, _ in exp)
        mine = [mcolors.to_rgb(a.get_color()) for a in lines[: len(exp) - npatch]] + [a.get_facecolor()[:3] for a in patches[:npatch]]
        lines, patches = lines[len(exp) - npatch :], patches[npatch:]
        if mine:
            ctx.check(all(np.allclose(c, mine[0]) for c in mine), f"{what}: {key} is drawn in several colours")
            ctx.check(all(not np.allclose(mine[0], u) for u in used), f"{what}: {key} has the colour of another primitive")
            used.append(mine[0])


def describe(spec):
    if spec[0] == "group":
        return "{" + ", ".join(f"{k}: {describe(s)}" for k, s in spec[1]) + "}"
    return describe(spec[1]) if spec[0] == "derived" else spec[0] if spec[0] == "A" else f"{spec[0]}{spec[1]}"


def run_sequence(case, ctx):
    first = case["sequence"][0]
    for n in range(0, 2 if ctx.quick else 3):
        for rest in itertools.product(MENU, repeat=n):
            kinds = (first,) + rest
            spec = ("group", [(f"{'zayb'[i]}{k}", shifted(MENU[k], 3.0 * i)) for i, k in enumerate(kinds)])
            draw_all(ctx, spec, ("float", "jax")[len(rest) % 2])
            if n < 1 or not ctx.quick:
                draw_again(ctx, spec)
    ctx.sample({"kinds": kinds})


G = lambda *items: ("group", list(items))
WRAPS = [
    lambda a, b: G(("A", G(("B", a))), ("C", b)),
    lambda a, b: G(("A", G(("B", G(("C", a))))), ("D", b)),
    lambda a, b: G(("A", G(("Line0", a), ("Line1", b)))),
    lambda a, b: G(("A", a), ("B", G(("C", G(("D", b)), ), ("E", a)))),
    lambda a, b: G(("A", G(("A", G(("A", a), ("B", b)))))),
    lambda a, b: G(("Figure", a), ("Group", G(("Figure", b), ("Figure2", a)))),
]


def run_nest(case, ctx):
    i, part = case["nest"]
    for n, (ka, kb) in enumerate(itertools.product(MENU, MENU)):
        if n % 4 != part or ctx.quick and n % 3:
            continue
        draw_all(ctx, WRAPS[i](MENU[ka], shifted(MENU[kb], 2.5)))


def run_options(case, ctx):
    """Single primitives through plot_prim with and without a key"""
    i = case["options"]
    for k, s in list(MENU.items()):
        for kw in OPTIONS[i::4]:
            kw = {a: b for a, b in kw.items() if a == "color"}
            for args in ((), ("Key",), ("Key/a",)):
                with Canvas() as ax:
                    ui.plot_prim(ax, make(s), *args, **kw)
                    what = f"plot_prim {k} {args} {kw}"
                    compare(ctx, what, ax, expected(s))
                    styles(ctx, what, ax, kw)
                    ctx.ev()
                    ctx.seen(what)


def run_figure(case, ctx):
    i = case["figure"]
    kinds = list(MENU)
    for n, args in enumerate(((), ((3, 5),), ((8, 2), 2.0), ((4, 4), 0.5, 0.25))):
        pick = [kinds[(i * 2 + j * (n + 1)) % len(kinds)] for j in range(4)]
        if not any(expected(MENU[k]) for k in pick):
            continue
        spec = G(*[(f"{j}{k}", shifted(MENU[k], 4.0 * j - i)) for j, k in enumerate(pick)])
        other = plt.figure()
        fig, ax = ui.figure_prims(make(spec), *args)
        what = f"figure_prims {pick} {args}"
        ctx.ev()
        ctx.seen(what)
        compare(ctx, what, ax, expected(spec))
        ctx.check(fig is not other and fig.axes == [ax], f"{what}: not one new axes in a new figure")
        ctx.check(np.allclose(F.size(fig), args[0] if args else (8, 8)), f"{what}: size {F.size(fig)}")
        F.quiet(fig.canvas.draw)
        ctx.check(ax.get_aspect() in (1, 1.0, "equal"), f"{what}: aspect {ax.get_aspect()}")
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        for _, v in expected(spec):
            for x, y in v:
                ctx.check(x0 <= x <= x1 and y0 <= y <= y1, f"{what}: vertex {(x, y)} is outside of the axes limits")
        major, minor = (args + ((0, 0), 1.0, 1 / 8)[len(args):])[1:3]
        for axis in (ax.xaxis, ax.yaxis):
            for loc, step in ((axis.get_major_locator(), major), (axis.get_minor_locator(), minor)):
                t = np.asarray(loc.tick_values(-2, 2))
                ctx.check(np.allclose(np.diff(t), step) and np.allclose(t / step, np.round(t / step)), f"{what}: ticks {t}, not every {step}")
        F.close(fig, other)


def run_many(case, ctx):
    """Many vertices, many primitives"""
    n = case["many"]
    for kw, form, k in itertools.product(OPTIONS[::3], ("float", "jax"), range(2)):
        spec = ("G", ring(n, 0.3 * k))
        what = f"plot_polygon with {n} vertices {k} {kw} {form}"
        ctx.ev()
        ctx.seen(what)
        with Canvas() as ax:
            ui.plot_polygon(ax, make(spec, form), **kw)
            texts = [(kw["label"], rounded([spec[1][0]])[0], None)] if "label" in kw else []
            compare(ctx, what, ax, expected(spec)[:1], texts)
    for kinds in (["P"], ["L"], ["Q"], ["P", "L", "L0", "Q"]):
        names = [f"{'zayb'[i % 4]}{i}" for i in range(n)]
        draw_all(ctx, G(*[(name, shifted(MENU[kinds[i % len(kinds)]], 1.5 * i)) for i, name in enumerate(names)]))
    draw_all(ctx, G(("Big", ("G", ring(n))), ("P", MENU["P"])))
    draw_all(ctx, G(("A", G(*[(f"k{i}", shifted(MENU["L"], 1.5 * i)) for i in range(n)]))))
    ctx.sample({"number": n})


def run(case, ctx):
    plt.close("all")
    for k, f in (("line", run_line), ("fine", run_fine), ("shapes", run_shapes), ("options", run_options),
                 ("sequence", run_sequence), ("nest", run_nest), ("figure", run_figure), ("many", run_many)):
        if k in case:
            return f(case, ctx)
