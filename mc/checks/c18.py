"""C18: axis labels and ticks are drawn where their primitives are"""

import itertools

import numpy as np
from matplotlib import pyplot as plt

from .. import figures as F

LEVEL = "model_checking"
RULE = (
    "(1) Every figure rectangle of a menu x frame x side of the x axis x side of the y axis x axes options "
    "x axis thickness (zero, small, as high as the frame) x label points on a lattice x numeric type: label "
    "anchors in inches and the sides of the visible tick marks and tick labels, read from the drawn artists; "
    "axes without such parts are compared with plain matplotlib axes at the same place. (1b) Thin, tiny (0.0004 in), large and far frames with all sides and thicknesses, also exchanged by an update. (2) Several axes with "
    "all combinations of sides in one figure, and up to 27 axes that exchange sides. (2b) User styles (log, "
    "inverted, minor ticks, many ticks...) before and after an update that changes sides. (3) Explicit-state search over histories of updates with every "
    "geometry of a menu (all sides) and user actions (moving ticks and labels, other texts and limits, "
    "resizing, drawing, changing the resolution) replayed on real matplotlib axes and compared with a model "
    "after each step. States: figure size, label anchors and tick sides."
)
ASSUMPTIONS = [
    "the axis rectangle lies exactly against one side of a frame of positive size (up to rounding)",
    "the parts of the axes stay the same over a history of updates",
    "the Agg backend",
]
FIGS = [(0.0, 0.0, 6.0, 4.0), (-2.0, 1.0, 1.0, 9.0), (1.5, -0.5, 2.5, 0.25)]
# not square, square, as high as the axis is thick
FRAMES = [(1.0, 0.5, 3.0, 3.5), (0.0, 0.0, 1.0, 1.0), (-1.0, 2.0, 4.0, 2.25)]
THICK = (0.0, 0.25, 1.0)
TOL = dict(rtol=0, atol=1e-8)


def depth(tier):
    return 3 if tier == "quick" else 4


def bounds(tier):
    return {"figures": FIGS, "frames": FRAMES, "thickness": THICK, "depth": depth(tier), "operations": len(OPS)}


def cases(tier):
    out = [{"create": [i, j]} for i in range(len(FIGS)) for j in range(len(FRAMES))]
    out += [{"plain": i} for i in range(len(FIGS))]
    out += [{"several": i} for i in range(len(FIGS))]
    out += [{"extents": i} for i in range(len(EXTENTS))]
    out += [{"many": n} for n in (9, 13, 27)] + [{"scales": i} for i in range(len(FIGS))]
    out += [{"history": [i, j]} for i in range(len(OPS)) for j in range(len(OPS))]
    return out


def check_axes(ctx, what, fig_rect, geo, ax, tol=TOL):
    for A, axis, side in (("X", ax.xaxis, geo["xside"]), ("Y", ax.yaxis, geo["yside"])):
        if f"{A}AxisLabel" in geo["parts"]:
            want, got = F.want_label(fig_rect, geo, A), F.label(axis)
            ctx.check(np.allclose(got, want, **tol), f"{what}: the {A} axis label is at {got} in, not at {want}", parts=geo["parts"], figure=fig_rect)
            got = F.ticks(axis, A)
            ctx.check(got == F.only(side), f"{what}: the {A} axis shows {sorted(got)}, not the {side} side", parts=geo["parts"])


def run_create(case, ctx):
    fig_rect, frame = FIGS[case["create"][0]], FRAMES[case["create"][1]]
    l, b, r, t = frame
    n = 0
    for kind, xs, ys, thick in itertools.product(("Ax", "Ay", "Axy", "AxX", "AxyXY"), F.SIDES["X"], F.SIDES["Y"], THICK):
        if kind in ("Ax", "AxX") and ys == "right" or kind == "Ay" and xs == "top":
            continue
        labels = [((l + r) / 2, b - 0.5), (l - 3, t + 0.25), (0.0, 0.0), (fig_rect[2] + 1.0, fig_rect[1]), (l, t)]
        for i in range(len(labels)):
            n += 1
            form = ("float", "jax", "float", "jax32")[n % 4]
            geo = F.axes_geometry(frame, kind, xs, ys, thick, labels[i], labels[(i + 1 + n) % len(labels)])
            root = F.prim_tree(fig_rect, {"Axes": geo}, form=form, first=n % 2 == 0)
            fig, axs = F.subplots(root)
            ax = axs["Axes"]
            what = f"create {fig_rect} {frame} {kind} {xs} {ys} {thick} {labels[i]} {form}"
            tol = dict(rtol=0, atol=1e-5) if form == "jax32" else TOL
            check_axes(ctx, what, fig_rect, geo, ax, tol)
            if n % 5 == 0:
                # Anything a user puts there moves neither
                ax.set_xlabel("x label", loc=("left", "center", "right")[n % 3])
                ax.set_ylabel("a\nlong y label", loc=("top", "center", "bottom")[n % 3])
                ax.plot([0, 1e4], [1, 1e-3])
                fig.set_dpi(61)
                F.quiet(fig.canvas.draw)
                check_axes(ctx, what + " drawn", fig_rect, geo, ax, tol)
            ctx.trace()
            ctx.trans()
            ctx.state(("create", fig_rect, frame, kind, xs, ys, thick, i, form))
            F.close(fig)
    ctx.sample({"figure": fig_rect, "axes": geo})


# Thin, tiny, large and far frames
EXTENTS = [
    (1.0, 1.0, 1.01, 3.0), (1.0, 1.0, 3.0, 1.004), (1.0, 1.0, 1.003, 1.002), (1.0, 2.0, 1.0004, 2.0004), (0.25, 0.5, 0.26, 0.51),
    (0.0, 0.0, 40.0, 30.0), (0.0, 0.0, 40.0, 0.02), (-120.0, 250.0, -119.5, 250.25), (-120.0, 250.0, -119.99, 250.5),
]


def run_extents(case, ctx):
    frame = EXTENTS[case["extents"]]
    l, b, r, t = frame
    fig_rect = (l - 1.0, b - 0.5, max(r, l + 3.0) + 1.0, max(t, b + 2.0) + 0.5)
    for n, (kind, xs, ys, thick) in enumerate(itertools.product(("Axy", "AxyXY"), F.SIDES["X"], F.SIDES["Y"], (0.0, 0.001, 0.01, 0.25, 2.0))):
        geo = F.axes_geometry(frame, kind, xs, ys, thick, (l + 0.001, b - 0.25), (r + 0.25, t))
        other = F.axes_geometry(frame, kind, F.OPP[xs], F.OPP[ys], thick, (l, b), (r + 0.5, t - 0.125))
        what = f"extents {frame} {kind} {xs} {ys} {thick}"
        root = F.prim_tree(fig_rect, {"Axes": geo}, form=("float", "jax", "derived")[n % 3])
        fig, axs = F.subplots(root)
        check_axes(ctx, what, fig_rect, geo, axs["Axes"], dict(rtol=0, atol=1e-7))
        F.update(F.prim_tree(fig_rect, {"Axes": other}), "Figure", fig, axs)
        check_axes(ctx, what + " updated", fig_rect, other, axs["Axes"], dict(rtol=0, atol=1e-7))
        ctx.trace()
        ctx.trans(2)
        ctx.state(("extents", frame, kind, xs, ys, thick))
        F.close(fig)
    ctx.sample({"figure": fig_rect, "axes": geo})


def run_plain(case, ctx):
    """Axes without axis parts are placed by matplotlib, also next to axes with such parts"""
    fig_rect = FIGS[case["plain"]]
    for frame, kind in itertools.product(FRAMES, ("A", "Ax", "Ay")):
        geo = F.axes_geometry(frame, kind, "top", "right")
        other = F.axes_geometry((0.0, 1.0, 2.0, 4.0), "Axy", "top", "right")
        for n, geos in enumerate(({"Axes": geo}, {"Axes": geo, "OtherAxes": other}, {"OtherAxes": other, "Axes": geo})):
            root = F.prim_tree(fig_rect, geos)
            fig, axs = F.subplots(root)
            F.update(root, "Figure", fig, axs)
            W, H = F.want_size(fig_rect)
            ref = plt.figure(figsize=(W, H))
            x, y, w, h = F.want_rect(fig_rect, geo)
            rax = ref.add_axes((x / W, y / H, w / W, h / H))
            ax = axs["Axes"]
            for a in (ax, rax):
                a.set_xlabel("x")
                a.set_ylabel("y")
            F.quiet(fig.canvas.draw)
            F.quiet(ref.canvas.draw)
            for A, has in (("x", "x" in kind), ("y", "y" in kind)):
                got, want = getattr(ax, f"{A}axis"), getattr(rax, f"{A}axis")
                what = f"plain {fig_rect} {frame} {kind} {n} {A}"
                if not has:
                    ctx.check(F.ticks(got, A.upper()) == F.ticks(want, A.upper()), f"{what}: ticks {F.ticks(got, A.upper())} differ from matplotlib's")
                    ctx.check(np.allclose(F.label(got), F.label(want), atol=1e-6), f"{what}: the label is at {F.label(got)}, not where matplotlib has it, {F.label(want)}")
            check_axes(ctx, f"plain {fig_rect} {frame} {kind} {n}", fig_rect, geo, ax)
            ctx.trace()
            ctx.trans()
            ctx.state(("plain", fig_rect, frame, kind, n))
            F.close(fig, ref)


def run_several(case, ctx):
    """All pairs of (sides, parts) in one figure"""
    fig_rect = FIGS[case["several"]]
    variants = [(k, x, y) for k in ("Ax", "Ay", "Axy") for x in F.SIDES["X"] for y in F.SIDES["Y"] if not (k == "Ax" and y == "right" or k == "Ay" and x == "top")]
    for n, (va, vb) in enumerate(itertools.product(variants, variants)):
        geos = {
            "Axes": F.axes_geometry((0.0, 0.0, 1.5, 2.0), *va, thick=0.25, xlabel=(0.25, -1), ylabel=(-1, 0.5)),
            "G/AxesB": F.axes_geometry((1.5, 0.0, 3.0, 2.0), *vb, thick=0.5, xlabel=(2.25, 3), ylabel=(4, 0.75)),
        }
        fig, axs = F.subplots(F.prim_tree(fig_rect, geos), axs_keys=list(geos)[:: 1 if n % 2 else -1])
        for k in geos:
            check_axes(ctx, f"several {fig_rect} {va} {vb} {k}", fig_rect, geos[k], axs[k])
        ctx.trace()
        ctx.trans()
        ctx.state(("several", fig_rect, va, vb))
        F.close(fig)


def run_many(case, ctx):
    """Many axes of all sides and parts in one figure, then an update that exchanges their sides"""
    n = case["many"]
    variants = [(k, x, y) for k in ("Axy", "Ax", "Ay", "AxyXY") for x in F.SIDES["X"] for y in F.SIDES["Y"]]
    for off, fig_rect in itertools.product((0, 1, 5), FIGS):
        for keys in ([f"Axes{i}" for i in range(n)], [f"{'ab'[i % 2]}/Axes{n - i}" for i in range(n)]):
            roots, allgeos = [], []
            for turn in (0, 3):
                geos = {}
                for i, k in enumerate(keys):
                    kind = variants[(i + off) % len(variants)][0]
                    _, xs, ys = variants[(i * 5 + off + turn) % len(variants)]
                    xs, ys = xs if "x" in kind else "bottom", ys if "y" in kind else "left"
                    l, b = 1.5 * (i % 6) - 2 + turn, 0.75 * (i // 6) + 0.1 * i
                    geos[k] = F.axes_geometry((l, b, l + 1 + 0.01 * i, b + 0.5), kind, xs, ys, 0.125 + 0.01 * i,
                                              (l - 0.3 * i, b + 0.1), (0.2 * i, b + 0.2 * turn))
                roots.append(F.prim_tree(fig_rect, geos))
                allgeos.append(geos)
            fig, axs = F.subplots(roots[0], axs_keys=keys if off or "/" in keys[0] else None)
            for step, geos in enumerate([allgeos[0], allgeos[1], allgeos[0]]):
                if step:
                    F.update(roots[step % 2], "Figure", fig, axs)
                for k in keys:
                    check_axes(ctx, f"{n} axes {fig_rect} {k} step {step}", fig_rect, geos[k], axs[k])
                ctx.trans()
                ctx.state(("many", n, off, fig_rect, keys[0], step))
            ctx.trace()
            F.close(fig)


SCALES = {
    "log": lambda ax: (ax.set_xscale("log"), ax.set_yscale("log"), ax.set_xlim(1e-2, 1e3), ax.set_ylim(1e-2, 1e4)),
    "inverted": lambda ax: (ax.invert_xaxis(), ax.invert_yaxis()),
    "minor": lambda ax: (ax.minorticks_on(), ax.set_xlim(0, 3)),
    "symlog": lambda ax: (ax.set_xscale("symlog"), ax.set_yscale("logit")),
    "named": lambda ax: (ax.set_xticks([0.2, 0.4], labels=["a", "b"]), ax.set_yticks([0.1, 0.2], labels=["c", "d"])),
    "no ticks at first": lambda ax: (ax.set_xticks([]), ax.set_yticks([])),
    "many ticks": lambda ax: (ax.set_xticks(np.linspace(0, 1, 120)), ax.set_yticks(np.linspace(0, 1, 77))),
    "aspect": lambda ax: ax.set_aspect(2.0, adjustable="datalim"),
    "turned labels": lambda ax: ax.tick_params(labelrotation=45, length=9, direction="inout"),
    "grid": lambda ax: ax.grid(True, which="both"),
}


def minor(axis, A):
    out = set()
    for tick in axis.get_minor_ticks():
        for side, ln in ((F.SIDES[A][0], tick.tick1line), (F.SIDES[A][1], tick.tick2line)):
            if ln.get_visible():
                out.add(side)
    return out


def run_scales(case, ctx):
    """User styles before and after an update that changes the sides"""
    fig_rect = FIGS[case["scales"]]
    frame = (0.25, 0.5, 2.0, 3.0)
    for (name, style), before, sides in itertools.product(
            SCALES.items(), (True, False), itertools.product(F.SIDES["X"], F.SIDES["Y"], F.SIDES["X"], F.SIDES["Y"])):
        g1 = F.axes_geometry(frame, "Axy", sides[0], sides[1], 0.25, (1.0, 0.25), (0.1, 2.0))
        g2 = F.axes_geometry((0.5, 0.5, 2.5, 2.0), "Axy", sides[2], sides[3], 0.5, (2.0, 0.125), (3.0, 1.5))
        fig, axs = F.subplots(F.prim_tree(fig_rect, {"Axes": g1}))
        ax = axs["Axes"]
        if before:
            style(ax)
        F.update(F.prim_tree(fig_rect, {"Axes": g2}), "Figure", fig, axs)
        if not before:
            style(ax)
        if name.startswith("no ticks"):
            ax.set_xticks([0.5])
            ax.set_yticks([0.5, 0.75])
        F.quiet(fig.canvas.draw)
        what = f"{name} {'before' if before else 'after'} the update from {sides[:2]} to {sides[2:]} {fig_rect}"
        check_axes(ctx, what, fig_rect, g2, ax)
        for A, axis, side in (("X", ax.xaxis, g2["xside"]), ("Y", ax.yaxis, g2["yside"])):
            got = minor(axis, A)
            ctx.check(got <= {side}, f"{what}: minor ticks of the {A} axis are on {got}")
        ctx.trace()
        ctx.trans(2)
        ctx.state(("scales", name, before, sides, fig_rect))
        F.close(fig)
    ctx.sample({"styles": list(SCALES)})


## Histories

MENU = [
    ((0.0, 0.0, 6.0, 4.0), F.axes_geometry((1.0, 0.5, 3.0, 3.5), "Axy", "bottom", "left", 0.25, (2.0, 0.1), (0.4, 2.0))),
    ((0.0, 0.0, 6.0, 4.0), F.axes_geometry((1.0, 0.5, 3.0, 3.5), "Axy", "top", "left", 0.0, (2.0, 3.9), (0.4, 2.0))),
    ((-2.0, 1.0, 1.0, 9.0), F.axes_geometry((-1.0, 2.0, 0.5, 8.0), "Axy", "bottom", "right", 0.5, (-0.5, 1.2), (0.9, 6.0))),
    ((3.0, -1.0, 4.0, 0.0), F.axes_geometry((3.25, -0.5, 4.0, 0.0), "Axy", "top", "right", 0.75, (3.3, 0.0), (5.0, -4.0))),
]
OPS = [("update", m) for m in range(len(MENU))] + [
    ("ticks", "top", "right"), ("ticks", "bottom", "left"), ("both",), ("labels",), ("texts",), ("size",), ("dpi",), ("draw",), ("limits",),
]


def frac(m, A):
    fig, geo = MENU[m]
    W, H = F.want_size(fig)
    x, y = F.want_label(fig, geo, A)
    return (x / W, y / H)


def model(state, op):
    size, labels, sides = state
    if op[0] == "update":
        fig, geo = MENU[op[1]]
        return F.want_size(fig), (frac(op[1], "X"), frac(op[1], "Y")), (F.only(geo["xside"]), F.only(geo["yside"]))
    if op[0] == "ticks":
        return size, labels, (F.only(op[1]), F.only(op[2]))
    if op[0] == "both":
        return size, labels, tuple(F.only(F.SIDES[A][0]) | F.only(F.SIDES[A][1]) for A in "XY")
    if op[0] == "labels":
        return size, ((0.5, 0.25), (0.125, 0.5)), sides
    if op[0] == "size":
        return (5.0, 3.25), labels, sides
    return state


def step(ctx, fig, ax, roots, op):
    if op[0] == "update":
        F.update(roots[op[1]], "Figure", fig, {"Axes": ax})
    elif op[0] == "ticks":
        ax.xaxis.set_ticks_position(op[1])
        ax.yaxis.set_ticks_position(op[2])
    elif op[0] == "both":
        ax.tick_params(top=True, bottom=True, left=True, right=True, labeltop=True, labelbottom=True, labelleft=True, labelright=True)
    elif op[0] == "labels":
        ax.xaxis.set_label_coords(0.5, 0.25, transform=fig.transFigure)
        ax.yaxis.set_label_coords(0.125, 0.5, transform=fig.transFigure)
    elif op[0] == "texts":
        ax.set_xlabel("label of x", fontsize=20)
        ax.set_ylabel("label of y", rotation=30)
    elif op[0] == "size":
        fig.set_size_inches(5.0, 3.25)
    elif op[0] == "dpi":
        fig.set_dpi(57)
    elif op[0] == "draw":
        F.quiet(fig.canvas.draw)
    elif op[0] == "limits":
        ax.set_xlim(5, -3)
        ax.set_ylim(0, 1e7)


def run_history(case, ctx):
    roots = [F.prim_tree(fig, {"Axes": geo}) for fig, geo in MENU]
    first = [OPS[i] for i in case["history"]]
    d = depth(ctx.tier)
    # A last operation without an update is covered by a shorter history
    last = [o for o in OPS if o[0] == "update"]
    for start, rest in itertools.product((0, 3), itertools.product(*[OPS] * (d - 3), last)):
        hist = first + list(rest)
        fig, axs = F.subplots(roots[start])
        ax = axs["Axes"]
        state = model((None, None, None), ("update", start))
        for i, op in enumerate([None] + hist):
            if op:
                step(ctx, fig, ax, roots, op)
                state = model(state, op)
                ctx.trans()
            ctx.state(repr((state[:2], [sorted(s) for s in state[2]])))
            what = f"created with {start}, history {hist[:i]}"
            size, labels, sides = state
            ctx.check(np.allclose(F.size(fig), size, **TOL), f"{what}: figure size {F.size(fig)} in, not {size}")
            for A, axis, lab, want in (("X", ax.xaxis, labels[0], sides[0]), ("Y", ax.yaxis, labels[1], sides[1])):
                got = F.label(axis)
                ctx.check(np.allclose(got, np.array(lab) * size, **TOL), f"{what}: the {A} axis label is at {got} in, not at {np.array(lab) * size}")
                got = F.ticks(axis, A)
                ctx.check(got == want, f"{what}: the {A} axis shows {sorted(got)}, not {sorted(want)}")
        ctx.trace()
        F.close(fig)
    ctx.sample({"history": hist})


def run(case, ctx):
    plt.close("all")
    for k, f in (("create", run_create), ("extents", run_extents), ("plain", run_plain), ("several", run_several), ("many", run_many), ("scales", run_scales), ("history", run_history)):
        if k in case:
            return f(case, ctx)
