"""C07: axes constraints position axes and labels as documented"""

import itertools

import numpy as np

from mpllayout import constraints as cr

from .. import build, oracle, zero

LEVEL = "exploration"
RULE = (
    "Every axes constraint (axis position x side x twin, axis label fraction x axis x twin, axis "
    "thickness before any measurement) x every Axes layout (flags) that has the needed parts x a "
    "menu of frames x every placement of the axis (and twin axis) rectangle on any of the four "
    "sides, inside, overlapping or shifted, with several thicknesses, or every label on a lattice "
    "x label fractions; arguments of the constraint by keyword, by position, or left at their defaults; coincident vertices also as the same point object. Compared with an independent definition over the documented child "
    "primitives. Non-trivial: the frame has positive size. Distinct: (constraint, flags, coordinates)."
)
ASSUMPTIONS = [
    "frames are rectangles of positive size",
    "unrelated parts of the Axes hold fixed decoy coordinates, and are moved in separate evaluations",
]

FRAMES = [(0.0, 0.0, 2.0, 1.0), (-1.5, 0.5, 0.5, 3.0)]


def bounds(tier):
    return {"frames": FRAMES, "kinds": KINDS, "labels": LAB[tier]}


KINDS = ["Ax", "Ay", "Axy", "AxX", "AyY", "AxyX", "AxyY", "AxyXY"]
LAB = {"quick": (-0.75, 0.0, 0.5, 1.0, 1.75), "thorough": (-1.5, -0.75, 0.0, 0.25, 0.5, 1.0, 1.75, 3.0)}


def axis_menu(frame, tier):
    l, b, r, t = frame
    out = []
    for th in (0.0, 0.5) if tier == "quick" else (0.0, 0.25, 0.5, -0.5):
        out += [
            (l, b - th, r, b), (l, t, r, t + th), (l - th, b, l, t), (r, b, r + th, t),
            # inside the frame
            (l, b, r, b + th), (l, t - th, r, t), (l, b, l + th, t), (r - th, b, r, t),
        ]
    out += [
        (l + 0.25, b - 0.5, r + 0.25, b), (l, b - 0.75, r, b - 0.25), (l, b - 0.5, r - 0.5, b),
        (l + 0.5, t, r, t + 0.5), (l, t + 0.25, r, t + 0.5), (l - 0.5, b + 0.1, l, t + 0.1),
        (r, b, r + 0.5, t - 0.25), (r + 0.25, b, r + 0.5, t), (l - 0.5, b, l - 0.25, t),
        # flipped: touching the frame with the far face
        (l, b, r, b - 0.5), (l, t + 0.5, r, t), (l, b, l - 0.5, t), (r + 0.5, b, r, t),
    ]
    return sorted(set(out))


def parts_pts(kind, frame, given, decoy=0):
    """Vertices for an Axes of `kind`; parts not in `given` get decoy coordinates"""
    rows = []
    for n, (key, k) in enumerate(build.axes_parts(kind)):
        if key == "Frame":
            rows += build.box_pts(*frame)
        elif key in given:
            v = given[key]
            rows += build.box_pts(*v) if k == "Q" else [v]
        elif k == "Q":
            o = 10.0 + n + decoy
            rows += build.box_pts(o, o + 1, o + 2, o + 2.5)
        else:
            rows += [(20.0 + n + decoy, 30.0 + n)]
    return rows


def cases(tier):
    out = []
    for kind in KINDS:
        for ax in "xy":
            if ax not in kind:
                continue
            sides = ("bottom", "top") if ax == "x" else ("left", "right")
            for side in sides:
                out.append({"pos": ax, "side": side, "twin": False, "kind": kind})
                if ax.upper() in kind:
                    out.append({"pos": ax, "side": side, "twin": True, "kind": kind})
            out.append({"label": ax, "twin": False, "kind": kind})
            if ax.upper() in kind:
                out.append({"label": ax, "twin": True, "kind": kind})
    out += [{"thickness": "x"}, {"thickness": "y"}]
    return out


def judge(ctx, e, params, pts, cases_eager):
    cons = e.make()
    res = build.Bulk(cons, e.kinds, params)(pts)
    a, b = zero.compare_zero(ctx, e, params, pts, res, "traced")
    ctx.bulk(a + b)
    ctx.ev(len(pts))
    ctx.check(a > 0 and b > 0, f"harness: {e.name} menu is one-sided")
    zero.check_scales(ctx, e, params, pts, lambda pp: build.Bulk(cons, e.kinds, pp))
    sub = cases_eager(pts)
    zero.check_shared(ctx, e, params, pts[: len(pts) // 4] if ctx.quick else pts, cons)
    res = np.array([build.eager(cons, e.kinds, params, p) for p in sub])
    zero.compare_zero(ctx, e, params, sub, res, "eager")
    ctx.ev(len(sub))
    ctx.sample({"constraint": e.name, "kind": e.kinds, "params": params, "vertices": pts[0]})


def spelled(ctx, forms, name, kinds, params, pts, dev):
    """The same constraint with positional arguments, and with arguments left at their defaults"""
    for n, make in enumerate(forms):
        e = oracle.Entry(f"{name}, form {n}", make, kinds, [params], dev)
        res = build.Bulk(make(), kinds, params)(pts)
        a, b = zero.compare_zero(ctx, e, params, pts, res, "traced")
        ctx.check(a > 0 and b > 0, f"harness: {e.name} menu is one-sided")
        ctx.ev(len(pts))


def index(kind):
    """part key -> slice of vertices"""
    out, i = {}, 0
    for key, k in build.axes_parts(kind):
        out[key] = slice(i, i + build.NPTS[k])
        i += build.NPTS[k]
    return out


def run(case, ctx):
    if "thickness" in case:
        return run_thickness(case, ctx)
    kind = case["kind"]
    ind = index(kind)
    if "pos" in case:
        ax, side, twin = case["pos"], case["side"], case["twin"]
        A = ax.upper()
        rows = []
        for frame in FRAMES:
            menu = axis_menu(frame, ctx.tier)
            others = menu if twin else [None]
            for q, q2 in itertools.product(menu, others):
                given = {f"{A}Axis": q}
                if q2 is not None:
                    given[f"Twin{A}Axis"] = q2
                for decoy in (0, 5):
                    rows.append(parts_pts(kind, frame, given, decoy))
        pts = np.array(rows)

        def dev(parts, params):
            p = parts[0]
            f = p[:, ind["Frame"]]
            d = oracle.coincident_reversed(
                oracle.side_of(f, side), oracle.side_of(p[:, ind[f"{A}Axis"]], oracle.OPP[side])
            )
            if twin:
                o = oracle.OPP[side]
                d2 = oracle.coincident_reversed(
                    oracle.side_of(f, o), oracle.side_of(p[:, ind[f"Twin{A}Axis"]], side)
                )
                d = np.concatenate([d, d2], axis=-1)
            return d

        cls = cr.PositionXAxis if ax == "x" else cr.PositionYAxis
        for name, make in (
            (f"Position{A}Axis", lambda: cls(side=side, twin=twin)),
            ("PositionAxis", lambda: cr.PositionAxis(axis=ax, side=side, twin=twin)),
        ):
            e = oracle.Entry(f"{name}(side={side},twin={twin})", make, (kind,), [()], dev)
            judge(ctx, e, (), pts, lambda p: p[:: max(1, len(p) // 30)])
        first = "bottom" if ax == "x" else "left"
        forms = [lambda: cls(side, twin), lambda: cr.PositionAxis(ax, side, twin)]
        if not twin:
            forms += [lambda: cls(side=side), lambda: cls(side), lambda: cr.PositionAxis(ax, side)]
            if side == first:
                forms.append(lambda: cls())
        elif side == first:
            forms.append(lambda: cls(twin=True))
        if ax == "x" and side == first:
            forms.append((lambda: cr.PositionAxis(twin=True)) if twin else (lambda: cr.PositionAxis()))
        spelled(ctx, forms, f"Position{A}Axis(side={side},twin={twin})", (kind,), (), pts, dev)
        return

    ax, twin = case["label"], case["twin"]
    A = ax.upper()
    key = ("Twin" if twin else "") + f"{A}AxisLabel"
    rows = []
    for frame in FRAMES:
        l, b, r, t = frame
        for fx, fy in itertools.product(LAB[ctx.tier], repeat=2):
            at = (l + fx * (r - l), b + fy * (t - b))
            for decoy in (0, 5):
                rows.append(parts_pts(kind, frame, {key: at}, decoy))
    pts = np.array(rows)

    def dev(parts, params):
        p = parts[0]
        l, b, r, t = oracle.box4(p[:, ind["Frame"]])
        at = p[:, ind[key]][:, 0]
        frac = (at[:, 0] - l) / (r - l) if ax == "x" else (at[:, 1] - b) / (t - b)
        return oracle.col(frac - params[0])

    cls = cr.PositionXAxisLabel if ax == "x" else cr.PositionYAxisLabel
    for name, make in (
        (f"Position{A}AxisLabel", lambda: cls(twin=twin)),
        ("PositionAxisLabel", lambda: cr.PositionAxisLabel(axis=ax, twin=twin)),
    ):
        for v in (0.0, 0.5, 1.0, -0.75, 1.75):
            e = oracle.Entry(f"{name}(twin={twin})", make, (kind,), [(v,)], dev)
            judge(ctx, e, (v,), pts, lambda p: p[:: max(1, len(p) // 10)])
    forms = [lambda: cls(twin), lambda: cr.PositionAxisLabel(ax, twin)]
    if not twin:
        forms += [lambda: cls(), lambda: cr.PositionAxisLabel(ax)]
    if ax == "x":
        forms.append((lambda: cr.PositionAxisLabel(twin=True)) if twin else (lambda: cr.PositionAxisLabel()))
    spelled(ctx, forms, f"Position{A}AxisLabel(twin={twin})", (kind,), (0.5,), pts, dev)


def run_thickness(case, ctx):
    """Without a matplotlib axis the thickness is zero"""
    ax = case["thickness"]
    rows = [
        build.box_pts(x, y, x + w, y + h)
        for x, y, w, h in itertools.product((-1, 0.5), (0, 2), (0, 0.5, 1, -1), (0, 0.5, 1, -1))
    ]
    pts = np.array(rows, dtype=float)

    def dev(parts, params):
        l, b, r, t = oracle.box4(parts[0])
        return oracle.col(t - b if ax == "x" else r - l)

    cls = cr.XAxisThickness if ax == "x" else cr.YAxisThickness
    for make in (cls, lambda: cr.AxisThickness(axis=ax)):
        e = oracle.Entry(f"{ax}-axis thickness", make, ("Q",), [(None,)], dev)
        judge(ctx, e, (None,), pts, lambda p: p)
    forms = [lambda: cr.AxisThickness(ax)] + ([lambda: cr.AxisThickness()] if ax == "x" else [])
    spelled(ctx, forms, f"{ax}-axis thickness", ("Q",), (None,), pts, dev)
