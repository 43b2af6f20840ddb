"""C17: figures and axes get the size and position of their primitives"""

import itertools

import matplotlib
import numpy as np
from matplotlib import pyplot as plt

from mpllayout import primitives as pr

from .. import build
from .. import figures as F

LEVEL = "model_checking"
RULE = (
    "(1) Every figure rectangle of a menu (origins on a lattice, sizes) x every axes frame of a lattice of "
    "rectangles (inside, outside, overlapping the figure's edge) x axes options x numeric type of the "
    "coordinates x resolution: size of the figure and position of the axes, from matplotlib's properties and "
    "from the drawn artists. (2) Every subset and order of a set of primitive keys, with and without explicit "
    "axes keys (top-level, nested, none), for several figure keys; figures with up to 27 (thorough: 60) axes. (3) Explicit-state search over histories of "
    "updates (all axes, some axes, of two figures, with every geometry of a menu) and user actions (resizing, "
    "moving, drawing, changing the resolution, the current figure); each history is replayed on real matplotlib "
    "figures and both figures are compared with a model after every step. States: sizes and positions of all "
    "figures and axes."
)
ASSUMPTIONS = [
    "figures and frames are rectangles of positive size (other frames: only whether axes are created)",
    "the Agg backend; positions are those given to matplotlib, before any user-requested aspect adjustment",
]
TOL = dict(rtol=0, atol=1e-9)
ORIGINS = [(0, 0), (2, 0), (0, -3), (-1, 4), (1.5, -0.25)]
SIZES = [(1, 1), (6, 4), (2.5, 7), (3.3371239, 0.61803398)]


def bounds(tier):
    return {"origins": ORIGINS, "sizes": SIZES, "frames": len(frames(tier)), "depth": depth(tier), "operations": len(OPS)}


def depth(tier):
    return 3 if tier == "quick" else 4


def frames(tier):
    xs = [(-1, 1), (0.5, 0.75), (1, 5)] if tier == "quick" else [(-1, 1), (0.5, 0.75), (1, 5), (0, 2), (3, 9.5)]
    return [(x0, y0, x1, y1) for x0, x1 in xs for y0, y1 in xs]


def cases(tier):
    out = [{"create": [list(o), list(s)]} for o in ORIGINS for s in SIZES]
    out += [{"keys": i} for i in range(len(KEYSETS))]
    out += [{"many": n} for n in ((11, 27) if tier == "quick" else (11, 27, 60))]
    out += [{"history": [i, j]} for i in range(len(OPS)) for j in range(len(OPS))]
    return out


def check_figure(ctx, what, fig, rect_fig, axs, geos, tol=TOL, drawn=False):
    ctx.check(np.allclose(F.size(fig), F.want_size(rect_fig), **tol), f"{what}: the figure has size {F.size(fig)} in, not {F.want_size(rect_fig)}")
    for key, geo in geos.items():
        want = F.want_rect(rect_fig, geo)
        for got in [F.rect(axs[key])] + ([F.drawn_rect(axs[key])] if drawn else []):
            ctx.check(np.allclose(got, want, **tol), f"{what}: axes {key} is at {got} in, not at {want}", figure=rect_fig)


def run_create(case, ctx):
    (ox, oy), (w, h) = case["create"]
    fig_rect = (ox, oy, ox + w, oy + h)
    n = 0
    for frame in frames(ctx.tier):
        frame = (frame[0] + ox, frame[1] + oy, frame[2] + ox, frame[3] + oy)
        for kind in ("A", "Ax", "Axy", "AxyXY"):
            n += 1
            forms = ["float", "jax", "float32", "jax32"] if kind == "A" else ["float"]
            if n % 4 == 0:
                forms.append("derived")
            if all(float(v).is_integer() for v in (*fig_rect, *frame)):
                forms.append("int")
            for form in forms:
                geos = {"Axes": F.axes_geometry(frame, kind, thick=1.0, xlabel=(1, 2), ylabel=(3, 4))}
                if form == "int" and kind != "A":
                    continue
                dpi = (100, 37, 250)[n % 3]
                root = F.prim_tree(fig_rect, geos, form=form, first=n % 2 == 0)
                with plt.rc_context({"figure.dpi": dpi}):
                    fig, axs = F.subplots(root)
                what = f"create {fig_rect} {frame} {kind} {form} dpi {dpi}"
                tol = dict(rtol=0, atol=1e-5) if "32" in form else TOL
                check_figure(ctx, what, fig, fig_rect, axs, geos, tol, drawn=True)
                ctx.check(fig.dpi == dpi, f"{what}: resolution {fig.dpi}")
                if n % 6 == 0:
                    F.quiet(fig.canvas.draw)
                    check_figure(ctx, what + " drawn", fig, fig_rect, axs, geos, tol, drawn=True)
                ctx.trace()
                ctx.trans()
                ctx.state(("created", fig_rect, frame, kind, form, dpi))
                F.close(fig)
    ctx.sample({"figure": fig_rect, "frame": frame})


KEYSETS = [
    ("Axes",), ("Axes1", "Axes0"), ("MyAxes", "Axes", "AxesB"), ("A", "Axes", "axes"), ("Axis", "Ax", "AXES"), (),
    ("Axes 1", "The Axes here", "B"), ("G/Axes", "Axes"), ("G/H/Axes1", "G/Axes2", "Main"), ("AxesG/A", ), ("A", "B", "C"), ("FigureAxes", "AxesFigure"),
]


def run_keys(case, ctx):
    keys = KEYSETS[case["keys"]]
    fig_rect = (1.0, -2.0, 7.0, 3.0)
    geos = {k: F.axes_geometry((1.0 + i, -1.0 - i, 3.0 + 2 * i, 2.0 + i / 4), ("A", "Axy")[i % 2]) for i, k in enumerate(keys)}
    extra = [("Legend", build.box(0, 0, 1, 1)), ("Title", build.point((3, 3))), ("Guide", build.line([(0, 0), (1, 2)]))]
    for fig_key, first, order in itertools.product(("Figure", "Fig", "Page/Figure"), (True, False), itertools.permutations(keys)):
        root = F.prim_tree(fig_rect, {k: geos[k] for k in order}, fig_key, first=first, extra=extra)
        calls = []
        default = [k for k in root.keys() if "Axes" in k]
        if all(isinstance(root[k], pr.Axes) for k in default):
            if fig_key == "Figure":
                calls.append(((), {}, default))
            calls.append(((fig_key,), {}, default))
            calls.append(((fig_key, None), {}, default))
        for n in range(len(order) + 1):
            for sub in itertools.permutations(keys, n):
                calls.append(((), {"fig_key": fig_key, "axs_keys": list(sub)}, list(sub)))
        for args, kw, want in calls:
            what = f"keys {order} {args} {kw}"
            other = plt.figure(figsize=(3, 2))
            oax = other.add_axes((0.1, 0.2, 0.3, 0.4))
            n_figs = len(plt.get_fignums())
            fig, axs = F.subplots(root, *args, **kw)
            ctx.check(len(plt.get_fignums()) == n_figs + 1 and fig is not other, f"{what}: not exactly one new figure")
            ctx.check(list(axs.keys()) == want, f"{what}: axes {list(axs)} instead of {want}")
            ctx.check(
                len({id(a) for a in axs.values()}) == len(want) and {id(a) for a in fig.axes} == {id(a) for a in axs.values()} and len(fig.axes) == len(want),
                f"{what}: the axes of the figure are not those returned",
            )
            check_figure(ctx, what, fig, fig_rect, axs, {k: geos[k] for k in want})
            ctx.check(
                np.allclose(F.size(other), (3, 2)) and np.allclose(oax.get_position().bounds, (0.1, 0.2, 0.3, 0.4)) and len(other.axes) == 1,
                f"{what}: another figure was changed",
            )
            ctx.trace()
            ctx.trans()
            ctx.state(("keys", tuple(root.keys()), fig_key, tuple(want)))
            F.close(fig, other)
    # Frames that were drawn from another corner, or have no size yet, still belong to axes
    for how, at in (("right to left", (3.0, 1.0, 1.0, 2.0)), ("top down", (1.0, 2.0, 3.0, 1.0)), ("half turn", (3.0, 2.0, 1.0, 1.0)), ("line", (1.0, 1.0, 3.0, 1.0))):
        root = F.prim_tree(fig_rect, {k: F.axes_geometry(at, "A") if i != 1 else geos[k] for i, k in enumerate(keys)}, extra=extra)
        default = [k for k in root.keys() if "Axes" in k]
        if all(isinstance(root[k], pr.Axes) for k in default):
            for args, kw, want in (((), {}, default), (("Figure",), {"axs_keys": list(keys)}, list(keys))):
                fig, axs = F.quiet(lambda: F.subplots(root, *args, **kw))
                ctx.check(list(axs) == want and len(fig.axes) == len(want), f"keys {keys}, frames {how}: axes {list(axs)} instead of {want}")
                ctx.trans()
                ctx.state(("keys", how, tuple(want)))
                F.close(fig)
    ctx.sample({"keys": keys, "calls": len(calls)})


def run_many(case, ctx):
    """Many axes, in figures of small and large size, created and updated"""
    n = case["many"]
    names = [f"Axes{(5 * i + 2) % (n + 1) if n % 5 != 4 else i}" for i in range(n)]
    for w, h in ((8.5, 11.0), (0.75, 0.4), (60.0, 33.1)):
        def geometry(k):
            cell = lambda i: (0.3 + w * i / n, -1.0 + h * ((3 * i + k) % n) / n)
            return {name: F.axes_geometry((*cell(i), cell(i)[0] + w * (1 + i % 3) / 7, cell(i)[1] + h * (1 + (i + k) % 4) / 9), "A" if i % 4 else "Axy")
                    for i, name in enumerate(names)}
        fig_rect = (0.25, -1.5, 0.25 + w, -1.5 + h)
        extra = [(f"Note{i}", build.point((i, i))) for i in range(n // 2)]
        fig, axs = F.subplots(F.prim_tree(fig_rect, geometry(0), first=False, extra=extra))
        what = f"{n} axes in a figure of size {w} x {h}"
        ctx.check(list(axs) == names and len(fig.axes) == n, f"{what}: the axes are {list(axs)}")
        check_figure(ctx, what, fig, fig_rect, axs, geometry(0), drawn=True)
        ctx.state(("many", n, w, 0))
        for k in (1, 2, 0):
            rect = (0.25, -1.5 + k, 0.25 + w * (1 + k / 3), -1.5 + k + h * (1 + k))
            F.update(F.prim_tree(rect, geometry(k), "Page"), "Page", fig, axs)
            ctx.trans()
            ctx.state(("many", n, w, k))
            check_figure(ctx, f"{what} after update {k}", fig, rect, axs, geometry(k), drawn=True)
        ctx.trace()
        F.close(fig)
    ctx.sample({"axes": names, "figure": rect})


## Histories

MENU = [
    ((0.0, 0.0, 6.0, 4.0), {"Axes1": F.axes_geometry((1.0, 0.5, 3.0, 3.5), "Axy"), "Axes2": F.axes_geometry((3.5, 0.5, 5.5, 3.5), "Axy")}),
    ((-2.0, 1.0, 3.0, 9.0), {"Axes1": F.axes_geometry((-1.0, 5.5, 2.5, 8.0), "Axy", "top", "right"), "Axes2": F.axes_geometry((-1.0, 1.5, 2.5, 5.0), "Axy")}),
    # The second axes may be any number of inches outside the figure
    ((1.0, 1.0, 2.0, 2.0), {"Axes1": F.axes_geometry((1.0, 1.0, 2.0, 2.0), "Axy"), "Axes2": F.axes_geometry((0.25, 1.5, 4.0, 1.75), "Axy", "top", "left")}),
    # Nearly the first one
    ((0.0003, 0.0, 6.0009, 4.0001), {"Axes1": F.axes_geometry((1.0004, 0.5, 3.0, 3.4998), "Axy"), "Axes2": F.axes_geometry((3.5, 0.4999, 5.5005, 3.5), "Axy")}),
]
KEYS = ("Axes1", "Axes2")
OPS = (
    [("update", f, m, KEYS) for f in (0, 1) for m in range(3)]
    + [("update", 0, 3, KEYS)]
    + [("update", 0, m, (k,)) for m in (1, 2) for k in KEYS]
    + [("update", 0, 1, ()), ("swap", 0, 2), ("size", 0), ("move", 0), ("dpi", 0), ("current", 1), ("clear", 0), ("draw", 0)]
)


def frac(m, k):
    fig, geos = MENU[m]
    l, b, w, h = F.want_rect(fig, geos[k])
    W, H = F.want_size(fig)
    return (l / W, b / H, w / W, h / H)


def model_init():
    return tuple((F.want_size(MENU[m][0]), {k: frac(m, k) for k in KEYS}) for m in (0, 1))


def model_step(state, op):
    state = [(s, dict(r)) for s, r in state]
    name, f, *rest = op
    s, r = state[f]
    if name == "update":
        m, keys = rest
        s = F.want_size(MENU[m][0])
        r.update({k: frac(m, k) for k in keys})
    elif name == "swap":
        # The axes of the figure take the other one's place
        (m,) = rest
        s = F.want_size(MENU[m][0])
        r.update({"Axes1": frac(m, "Axes2"), "Axes2": frac(m, "Axes1")})
    elif name == "size":
        s = (3.25, 5.0)
    elif name == "move":
        r["Axes1"] = (0.125, 0.25, 0.5, 0.375)
    state[f] = (s, r)
    return tuple(state)


class World:
    def __init__(self):
        self.roots = [F.prim_tree(fig, geos) for fig, geos in MENU]
        self.figs = [F.subplots(self.roots[m]) for m in (0, 1)]

    def step(self, ctx, op):
        name, f, *rest = op
        fig, axs = self.figs[f]
        if name in ("update", "swap"):
            m, keys = rest if name == "update" else (rest[0], KEYS)
            arg = {k: axs[k] for k in keys} if name == "update" else {"Axes1": axs["Axes2"], "Axes2": axs["Axes1"]}
            got = F.update(self.roots[m], "Figure", fig, arg)
            ctx.check(got[0] is fig and list(got[1]) == list(arg) and all(got[1][k] is arg[k] for k in arg),
                      f"{op}: the figure and axes are not those that were given")
        elif name == "size":
            fig.set_size_inches(3.25, 5.0)
        elif name == "move":
            axs["Axes1"].set_position((0.125, 0.25, 0.5, 0.375))
        elif name == "dpi":
            fig.set_dpi(43)
        elif name == "current":
            plt.figure(fig.number)
        elif name == "clear":
            axs["Axes2"].clear()
        elif name == "draw":
            F.quiet(fig.canvas.draw)

    def check(self, ctx, what, state):
        for (fig, axs), (s, r) in zip(self.figs, state):
            ctx.check(np.allclose(F.size(fig), s, **TOL), f"{what}: a figure has size {F.size(fig)} in, not {s}")
            for k in KEYS:
                want = np.array(r[k]) * np.array(s + s)
                ctx.check(np.allclose(F.rect(axs[k]), want, **TOL) and np.allclose(F.drawn_rect(axs[k]), want, **TOL),
                          f"{what}: axes {k} is at {F.rect(axs[k])} in, not at {want}")
            ctx.check(len(fig.axes) == 2, f"{what}: the figure has {len(fig.axes)} axes")

    def close(self):
        F.close(*[f for f, _ in self.figs])


def key_of(state):
    return repr([(s, sorted(r.items())) for s, r in state])


def run_history(case, ctx):
    first = [OPS[i] for i in case["history"]]
    d = depth(ctx.tier)
    # What the last operation does to the second figure, or without an update, is covered by shorter histories
    last = [o for o in OPS if o[0] in ("update", "swap") and o[1] == 0]
    for rest in itertools.product(*[OPS] * (d - 3), last):
        hist = first + list(rest)
        world, state = World(), model_init()
        ctx.state(key_of(state))
        for i, op in enumerate(hist):
            world.step(ctx, op)
            state = model_step(state, op)
            ctx.state(key_of(state))
            ctx.trans()
            world.check(ctx, f"history {hist[: i + 1]}", state)
        ctx.trace()
        world.close()
    ctx.sample({"history": hist})


def run(case, ctx):
    plt.close("all")
    for k, f in (("create", run_create), ("many", run_many), ("keys", run_keys), ("history", run_history)):
        if k in case:
            return f(case, ctx)
