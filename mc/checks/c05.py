"""C05: rectangle, margin and alignment constraints mean what they document"""

import itertools

import numpy as np

from mpllayout import constraints as cr

from .. import build, oracle, zero

LEVEL = "exploration"
RULE = (
    "Every quadrilateral constraint of the catalogue x every parameter of its list x every "
    "rectangle (or pair of rectangles) of a finite menu of positions and sizes; Box, Align and "
    "CoincidentOutwardFaces additionally over every general quadrilateral (pair) with vertices "
    "on a lattice; outer margin arrays over 1..5, 12 and 33 rectangles with every single rectangle moved or "
    "resized; coincident vertices also as the same point object; all also with every length times 2^-16, 2^-7 and 2^10. Each is evaluated by the real constraint and by an independent definition from "
    "the vertex coordinates. Non-trivial: the relation is defined there. Distinct: "
    "(constraint, parameters, coordinates)."
)
ASSUMPTIONS = [
    "dimension and margin constraints are only judged on rectangles (Line0 bottom, Line1 right, Line2 top, Line3 left), including flipped ones for Width and Height",
    "bulk evaluation traces the real call path with jax.vmap/jit; a smaller complete menu is evaluated eagerly",
]


def bounds(tier):
    return {"box_lattice": BOX[tier], "pair_menu": PAIR[tier], "single_menu": SINGLE[tier],
            "general_pairs": GEN[tier], "margin_array_sizes": [1, 2, 3, 4, 5, 12, 33]}


BOX = {"quick": [(0, 1, 2), (-1.5, 0.25)], "thorough": [(0, 1, 2, 3), (-1.5, 0.25, 3.0)]}
SINGLE = {
    "quick": ((-1, 0, 2.5), (-1, 0.5, 1, 2, 3)),
    "thorough": ((-2, -1, 0, 0.3, 2.5), (-2, -1, 0.5, 1, 1.5, 2, 3, 4)),
}
PAIR = {"quick": ((-1, 0, 1.5), (0.5, 1)), "thorough": ((-2, -1, 0, 1.5), (0.5, 1, 2))}
GEN = {"quick": (0, 1), "thorough": (0, 1, 2)}


def boxes(menu):
    pos, size = menu
    out = []
    for x, y, w, h in itertools.product(pos, pos, size, size):
        out.append(build.box_pts(x, y, x + w, y + h))
    return np.array(out, dtype=float)


def pairs(one):
    n = len(one)
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
    return np.concatenate([one[i.ravel()], one[j.ravel()]], axis=1)


def general_pairs(coords):
    one = build.lattice(tuple(coords), 4)
    if len(one) > 300:
        # quads whose bottom and left sides are non-degenerate: the side directions exist
        keep = [
            q for q in one
            if (q[0] != q[1]).any() and (q[0] != q[3]).any() and (q[1] != q[2]).any()
            and (q[2] != q[3]).any() and q[0, 0] == 0 and q[0, 1] <= 1 and q[3, 0] == 0
        ]
        one = np.array(keep)
    return pairs(one)


def menus(e, ctx):
    t = ctx.tier
    if e.name == "Box":
        for c in BOX[t]:
            yield build.lattice(tuple(c), 4)
    elif e.kinds == ("Q",):
        yield boxes(SINGLE[t])
    else:
        yield pairs(boxes(PAIR[t]))
        if e.name.startswith(("Align", "Coincident")):
            yield general_pairs(GEN[t])


def cases(tier):
    out = []
    for i, e in enumerate(oracle.quad_constraints()):
        for j in range(len(e.params)):
            out.append({"entry": i, "name": e.name, "param": j})
    for n in (12, 33, 1, 2, 3, 4, 5):
        for side in oracle.SIDES:
            out.append({"array": n, "side": side})
    out.append({"spelled": True})
    return out


def run_spelled(case, ctx):
    """Arguments of constraints by position, or left at their defaults"""
    forms = [("Align(row)", lambda: cr.Align()), ("Align(row)", lambda: cr.Align(True)),
             ("Align(column)", lambda: cr.Align(False))]
    for s in oracle.SIDES:
        forms += [(f"OuterMargin({s})", lambda s=s: cr.OuterMargin(s)),
                  (f"InnerMargin({s})", lambda s=s: cr.InnerMargin(s)),
                  (f"CoincidentOutwardFaces({s})", lambda s=s: cr.CoincidentOutwardFaces(s))]
    entries = {e.name: e for e in oracle.quad_constraints()}
    pts = pairs(boxes(PAIR[ctx.tier]))
    for name, make in forms:
        e = entries[name]
        params = e.params[min(1, len(e.params) - 1)]
        res = build.Bulk(make(), e.kinds, params)(pts)
        a, b = zero.compare_zero(ctx, e, params, pts, res, "other spelling")
        ctx.check(a > 0 and b > 0, f"harness: the menu of {name} is one-sided")
        ctx.ev(len(pts))
        ctx.bulk(a + b)
    for side, n in itertools.product(oracle.SIDES, (2, 3)):
        margins = margins_for(n, 0)
        base = arrangement(n, side, margins)
        pts2 = np.array([np.concatenate([build.box_pts(*(v + d for v in b)) for b in base]) for d in (0.0, 1.5)])
        for make in (lambda: cr.OuterMarginArray((n,), side), lambda: cr.OuterMarginArray(n, side)):
            for delta in (0.0, 0.5):
                given = tuple(m + delta for m in margins)
                res = build.Bulk(make(), ("Q",) * n, given)(pts2)
                ctx.check((np.abs(res) < 1e-9).all() if delta == 0 else (np.abs(res).max(axis=-1) > 1e-3).all(),
                          f"OuterMarginArray({n}, {side!r}) by position: residual {res.tolist()} with margins "
                          f"{'as given' if delta == 0 else 'changed'}")
                ctx.ev(len(res))


def margins_for(n, k):
    base = [(0.5, 1.0, 0.25, 0.75), (0.0, -0.5, 2.0, 1.0)][k]
    base += tuple(0.125 + 0.3 * i for i in range(30))
    return base[: n - 1]


def arrangement(n, side, margins):
    """n rectangles with the given successive outer margins (and staggered otherwise)"""
    out, x = [], 0.5
    for i in range(n):
        w, off, h = 1.0 + 0.5 * i, 0.3 * i, 1.0 + 0.25 * ((i * 7) % 3)
        if i > 0:
            x += margins[i - 1]
        lo, hi = x, x + w
        x = hi
        if side == "right":
            b = (lo, off, hi, off + h)
        elif side == "left":
            b = (-hi, off, -lo, off + h)
        elif side == "top":
            b = (off, lo, off + h, hi)
        else:
            b = (off, -hi, off + h, -lo)
        out.append(b)
    return out


def run_array(case, ctx):
    n, side = case["array"], case["side"]
    kinds = ("Q",) * n
    forms = [lambda: cr.OuterMarginArray(shape=(n,), side=side)]
    forms.append(lambda: cr.OuterMarginArray(shape=n, side=side))
    for k, (nform, form) in itertools.product((0, 1), enumerate(forms)):
        margins = margins_for(n, k)
        base = arrangement(n, side, margins)
        rows = [base]
        for i, d, delta in itertools.product(range(n), range(4), (0.5, -0.25)):
            b = list(base[i])
            b[d] += delta
            rows.append(base[:i] + [tuple(b)] + base[i + 1 :])
        # Move two rectangles together so that only some margins change
        for i in range(n):
            rows.append([tuple(v + (1.0 if j >= i else 0.0) for v in b)
                         for j, b in enumerate(base)])
        pts = np.array([np.concatenate([build.box_pts(*b) for b in r]) for r in rows])

        def dev(parts, params):
            if n == 1:
                return np.zeros((len(parts[0]), 1))
            return oracle.col(*[
                oracle.outer_margin(parts[i], parts[i + 1], side) - params[i]
                for i in range(n - 1)
            ])

        e = oracle.Entry(f"OuterMarginArray({n},{side})", form, kinds, [margins], dev)
        for swap in {margins, tuple(reversed(margins))}:
            res = build.Bulk(form(), kinds, swap)(pts)
            a, b = zero.compare_zero(ctx, e, swap, pts, res, "traced")
            ctx.ev(len(pts))
            ctx.bulk(a + b if nform == 0 else 0)
        if nform == 0:
            zero.check_scales(ctx, e, margins, pts, lambda pp: build.Bulk(form(), kinds, pp))
        res = np.array([build.eager(form(), kinds, margins, p) for p in pts[: 4 * n]])
        zero.compare_zero(ctx, e, margins, pts[: 4 * n], res, "eager")
        ctx.ev(len(res))
    ctx.sample({"constraint": e.name, "margins": margins, "boxes": base})


def run(case, ctx):
    if "array" in case:
        return run_array(case, ctx)
    if "spelled" in case:
        return run_spelled(case, ctx)
    e = oracle.quad_constraints()[case["entry"]]
    params = e.params[case["param"]]
    cons = e.make()
    bulk = build.Bulk(cons, e.kinds, params)
    for pts in menus(e, ctx):
        res = bulk(pts)
        a, b = zero.compare_zero(ctx, e, params, pts, res, "traced")
        ctx.ev(len(pts))
        ctx.bulk(a + b)
        ctx.sample({**zero.describe(e, params, pts[-1]), "residual": res[-1]})
    menu = list(menus(e, ctx))[0] if e.name != "Box" else build.lattice((0, 1), 4)
    zero.check_scales(ctx, e, params, menu, lambda pp: build.Bulk(cons, e.kinds, pp))
    pts = boxes(((0, 1.5), (0.5, 1))) if e.kinds == ("Q",) else pairs(boxes(((0, 1.5), (1,))))
    zero.check_shared(ctx, e, params, pts if e.name != "Box" else build.lattice((0, 1), 4), cons)
    res = np.array([build.eager(cons, e.kinds, params, p) for p in pts])
    zero.compare_zero(ctx, e, params, pts, res, "eager")
    ctx.ev(len(pts))
