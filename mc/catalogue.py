"""
One concrete, generic use of every documented constraint: (name, make, kinds, vertices, params)

The vertices are generic so that the residual of every constraint has distinct non-zero parts.
"""

import numpy as np

from mpllayout import constraints as cr

from . import build, custom, oracle
from .checks import c06, c07


def generic_vertices(kinds, k=0):
    rows = []
    for n, kind in enumerate(kinds):
        s = 0.31 * n + 0.07 * k
        if kind == "P":
            rows.append([(1.3 + s, -0.7 + 2.3 * s)])
        elif kind == "L":
            rows.append([(0.2 - s, 0.55 * s), (1.4 + 2 * s, 0.9 + 1.1 * s)])
        elif kind == "Q":
            x, y, w, h = 2.3 * n + 0.1 * k, 0.45 * n * n, 1.2 + s, 0.8 + 2.1 * s
            rows.append(
                [(x, y), (x + w, y + 0.11), (x + w + 0.07, y + h), (x - 0.13, y + h - 0.17)]
            )
        elif kind.startswith("G"):
            m = int(kind[1:])
            rows.append([(np.cos(1.7 * i) + s, i + 0.3 * i * i) for i in range(m)])
        else:
            r = []
            for i, (key, kk) in enumerate(build.axes_parts(kind)):
                r += generic_vertices((kk,), k + 1 + i)[0]
            rows.append(r)
    return rows


class Use:
    def __init__(self, name, make, kinds, params):
        self.name, self.make, self.kinds, self.params = name, make, tuple(kinds), params

    def prims(self, k=0):
        return tuple(
            build.make_any(kind, v) for kind, v in zip(self.kinds, generic_vertices(self.kinds, k))
        )


def uses():
    out = []
    for e in oracle.line_constraints() + oracle.quad_constraints():
        # parameters in the middle of the list are non-zero
        out.append(Use(e.name, e.make, e.kinds, e.params[(2 * len(e.params)) // 3]))
    for n in (1, 2, 3, 4, 12):
        for side in ("right", "bottom"):
            out.append(Use(f"OuterMarginArray({n},{side})",
                           lambda n=n, side=side: cr.OuterMarginArray(shape=(n,), side=side),
                           ("Q",) * n, tuple(0.25 + 0.5 * i for i in range(n - 1))))
    for shape in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 4)):
        q = ("Q",) * (shape[0] * shape[1])
        out.append(Use(f"Grid{shape}", lambda s=shape: cr.Grid(s), q, c06.params_for(shape, 0)))
        out.append(Use(f"RectilinearGrid{shape}", lambda s=shape: cr.RectilinearGrid(shape=s), q, ()))
    for ax, sides in (("x", ("bottom", "top")), ("y", ("left", "right"))):
        A = ax.upper()
        pos = cr.PositionXAxis if ax == "x" else cr.PositionYAxis
        lab = cr.PositionXAxisLabel if ax == "x" else cr.PositionYAxisLabel
        thick = cr.XAxisThickness if ax == "x" else cr.YAxisThickness
        for side in sides:
            for twin in (False, True):
                out.append(Use(f"Position{A}Axis({side},{twin})",
                               lambda pos=pos, side=side, twin=twin: pos(side=side, twin=twin),
                               ("AxyXY" if twin else "Axy",), ()))
        for twin in (False, True):
            out.append(Use(f"Position{A}AxisLabel({twin})",
                           lambda lab=lab, twin=twin: lab(twin=twin),
                           ("AxyXY" if twin else "Axy",), (0.375,)))
        out.append(Use(f"{A}AxisThickness", thick, ("Q",), (None,)))
    for name, (make, kinds, _, _, _, _, params) in custom.VALUES.items():
        out.append(Use(f"user-defined {name}", make, kinds, params))
    return out
