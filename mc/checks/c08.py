"""C08: constructions return the documented geometric quantity"""

import itertools

import numpy as np

from mpllayout import constructions as cn


from .. import build, oracle, zero
from .c04 import EAGER, LATTICES, SCALED
from .c05 import boxes, pairs

LEVEL = "exploration"
RULE = (
    "Every construction of the catalogue x every parameter of its list x every placement of its "
    "primitives' vertices on finite coordinate lattices, coincident vertices also as the same point object, also with all lengths times 2^-16, 2^-7 and 2^10; the value and its shape are compared "
    "with an independent closed form from the vertex coordinates. Non-trivial: the quantity is "
    "defined there. Distinct: (construction, parameters, coordinates)."
)
ASSUMPTIONS = [
    "Width, Height, AspectRatio and margins are only judged on rectangles",
    "bulk evaluation traces the real call path with jax.vmap/jit; a smaller complete lattice is evaluated eagerly",
]

PAIR = {"quick": ((-1, 0, 1.5), (0.5, 1)), "thorough": ((-2, -1, 0, 1.5), (0.5, 1, 2))}
SINGLE = {
    "quick": ((-1, 0, 2.5), (-1, 0.5, 1, 2, 3)),
    "thorough": ((-2, -1, 0, 0.3, 2.5), (-2, -1, 0.5, 1, 1.5, 2, 3, 4)),
}


def bounds(tier):
    return {"lattices": LATTICES[tier], "box_pairs": PAIR[tier], "boxes": SINGLE[tier]}


def entries():
    return oracle.constructions() + oracle.quad_constructions()


def cases(tier):
    return [
        {"entry": i, "name": e.name, "param": j}
        for i, e in enumerate(entries())
        for j in range(len(e.params))
    ] + [{"spelled": True}]


def run_spelled(case, ctx):
    """Arguments of constructions by position, or left at their defaults"""
    forms = [("OuterMargin(left)", lambda: cn.OuterMargin()), ("InnerMargin(left)", lambda: cn.InnerMargin()),
             ("OuterMargin(left)", lambda: cn.Margin()), ("InnerMargin(left)", lambda: cn.Margin(False)),
             ("InnerMargin(left)", lambda: cn.Margin(outer=False))]
    for s in oracle.SIDES:
        forms += [(f"OuterMargin({s})", lambda s=s: cn.OuterMargin(s)),
                  (f"InnerMargin({s})", lambda s=s: cn.InnerMargin(s)),
                  (f"OuterMargin({s})", lambda s=s: cn.Margin(side=s)),
                  (f"OuterMargin({s})", lambda s=s: cn.Margin(True, s)),
                  (f"InnerMargin({s})", lambda s=s: cn.Margin(False, s))]
    known = {e.name: e for e in oracle.quad_constructions()}
    pts = pairs(boxes(PAIR[ctx.tier]))
    for name, make in forms:
        e = known[name]
        val = build.Bulk(make(), e.kinds, ())(pts)
        ctx.bulk(zero.compare_value(ctx, e, (), pts, val, "other spelling"))
        ctx.ev(len(pts))


def check_types(ctx, e, params, cons, pts):
    """Whole coordinates in arrays of every type of numbers"""
    for name, conv in build.NUMBER_TYPES.items():
        val = []
        for p in pts:
            prims = build.prims_for(e.kinds, p)
            val.append(np.asarray(cons(tuple(build.retyped(q, conv) for q in prims), *params), dtype=float).ravel())
        zero.compare_value(ctx, e, params, pts, np.array(val), f"coordinates of type {name}", tol=1e-5 if "32" in name else 1e-9)
        ctx.ev(len(pts))


def run(case, ctx):
    if "spelled" in case:
        return run_spelled(case, ctx)
    e = entries()[case["entry"]]
    params = e.params[case["param"]]
    cons = e.make()
    bulk = build.Bulk(cons, e.kinds, params)
    sel = "".join(e.kinds)
    if "Q" in sel:
        menus = [boxes(SINGLE[ctx.tier]) if sel == "Q" else pairs(boxes(PAIR[ctx.tier]))]
        small = boxes(((0, 1.5), (0.5, 1))) if sel == "Q" else pairs(boxes(((0, 1.5), (1,))))
    else:
        menus = [build.lattice(c, bulk.n) for c in LATTICES[ctx.tier][sel]]
        small = build.lattice(EAGER[sel], bulk.n)
    for pts in menus:
        val = bulk(pts)
        ctx.bulk(zero.compare_value(ctx, e, params, pts, val, "traced"))
        ctx.ev(len(pts))
        ctx.sample({**zero.describe(e, params, pts[-1]), "value": val[-1]})
        if e.name == "Angle":
            # Anti-parallel lines are at the end of the range, on either side
            parts = build.split_kinds(pts, e.kinds)
            anti = oracle.line_ok(0, 1)(parts) & ~e.ok(parts)
            bad = anti & ~(np.abs(np.abs(val[:, 0]) - np.pi) < 1e-9)
            ctx.check(not bad.any(), f"the angle between anti-parallel lines is {val[bad][:1].tolist()}",
                      vertices=pts[bad][:1])
    for s in zero.SCALES:
        # The parameters of these constructions are directions and flags
        val = bulk(s * menus[0])
        ctx.bulk(zero.compare_value(ctx, e, params, menus[0], val, f"all lengths times {s:g}", s))
        ctx.ev(len(val))
    shared = small if "Q" in sel else build.lattice(SCALED[sel], bulk.n)
    zero.check_shared(ctx, e, params, shared, cons, zero.compare_value)
    check_types(ctx, e, params, cons, np.round(2 * small)[:: max(1, len(small) // 9)])
    val = np.array([build.eager(cons, e.kinds, params, p) for p in small])
    zero.compare_value(ctx, e, params, small, val, "eager")
    ctx.ev(len(small))
