"""C04: point and line constraints are zero exactly when the documented relation holds"""

import numpy as np

from .. import build, oracle, zero

LEVEL = "exploration"
RULE = (
    "Every point/line constraint of the catalogue x every parameter tuple of its list x every "
    "placement of its primitives' vertices on finite coordinate lattices (all tuples of "
    "lattice points, including coincident vertices, negative and non-integer coordinates); "
    "coincident vertices also as the same point object, and lines with the same vertices as the same line; "
    "also with all lengths times 2^-16, 2^-7 and 2^10; each placement is evaluated by the real constraint and by an independent geometric "
    "definition. Non-trivial: the relation is defined there (no zero-length direction). "
    "A placement is a distinct (constraint, parameters, coordinates) triple."
)
ASSUMPTIONS = [
    "coordinates are taken from the listed lattices; lines used for a direction have non-zero length",
    "bulk evaluation traces the real call path with jax.vmap/jit (as the solver does); a complete smaller lattice is evaluated eagerly",
]

LATTICES = {
    "quick": {
        "P": [(-2, -1, -0.5, 0, 1, 1.75, 2)],
        "PP": [(-1, 0, 1, 2), (-0.5, 0.25, 1.75), (100.0, 101.0, 103.5)],
        "L": [(-1, 0, 1, 2), (-0.5, 0.25, 1.75), (100.0, 101.0, 103.5)],
        "LL": [(-1, 0, 1), (-0.5, 0.25, 1.0)],
        "PL": [(-1, 0, 1, 2), (-0.5, 0.25, 1.75)],
    },
    "thorough": {
        "P": [(-2, -1, -0.5, 0, 1, 1.75, 2)],
        "PP": [(-3, -2, -1, 0, 1, 2, 3), (-0.5, 0.25, 1.75, 2.0), (100.0, 101.0, 103.5)],
        "L": [(-3, -2, -1, 0, 1, 2, 3), (-0.5, 0.25, 1.75, 2.0), (100.0, 101.0, 103.5)],
        "LL": [(-2, -1, 0, 1, 2), (-0.5, 0.25, 1.0, 1.75), (100.0, 101.0, 103.5)],
        "PL": [(-3, -2, -1, 0, 1, 2, 3), (-0.5, 0.25, 1.75, 2.0), (100.0, 101.0, 103.5)],
    },
}
EAGER = {"P": (-1, 0, 1, 2), "PP": (-1, 0, 1), "L": (-1, 0, 1), "LL": (0, 1), "PL": (0, 1)}
SCALED = {"P": (-1, -0.5, 0, 1, 1.75, 2), "PP": (-1, 0, 1, 2), "L": (-1, 0, 1, 2), "LL": (-1, 0, 1), "PL": (-1, 0, 1)}


def bounds(tier):
    return {"lattices": LATTICES[tier], "eager_lattices": EAGER, "scaled_lattices": SCALED, "scales": zero.SCALES}


def cases(tier):
    out = []
    for i, e in enumerate(oracle.line_constraints()):
        sel = "".join(e.kinds)
        for j in range(len(e.params)):
            out.append({"entry": i, "name": e.name, "param": j, "sel": sel})
    return out


def run(case, ctx):
    e = oracle.line_constraints()[case["entry"]]
    params = e.params[case["param"]]
    sel = case["sel"]
    cons = e.make()
    bulk = build.Bulk(cons, e.kinds, params)
    for coords in LATTICES[ctx.tier][sel]:
        pts = build.lattice(coords, bulk.n)
        res = bulk(pts)
        a, b = zero.compare_zero(ctx, e, params, pts, res, "traced")
        ctx.ev(len(pts))
        ctx.bulk(a + b)
        ctx.sample({**zero.describe(e, params, pts[-1]), "residual": res[-1]})
    zero.check_scales(ctx, e, params, build.lattice(SCALED[sel], bulk.n),
                      lambda pp: build.Bulk(cons, e.kinds, pp))
    zero.check_shared(ctx, e, params, build.lattice(SCALED[sel], bulk.n), cons)
    pts = build.lattice(EAGER[sel], bulk.n)
    res = np.array([build.eager(cons, e.kinds, params, p) for p in pts])
    zero.compare_zero(ctx, e, params, pts, res, "eager")
    ctx.ev(len(pts))
