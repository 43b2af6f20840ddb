"""
Independent meaning of every documented construction and constraint

Written from the documentation alone, with plain numpy over raw vertex coordinates:
`parts[i]` is an (N, number of vertices, 2) array for the i-th primitive.

* `val(parts, params)` is the documented value of a construction, (N, k)
* `dev(parts, params)` are the deviations that are all zero exactly when a constraint is
  satisfied, (N, k)
* `ok(parts)` masks inputs where the geometric quantity is defined
"""

import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as cn

S2, S5, PI = np.sqrt(2), np.sqrt(5), np.pi


def col(*xs):
    return np.stack([np.asarray(x, dtype=float) for x in xs], axis=-1)


def norm(v):
    return np.sqrt(v[..., 0] ** 2 + v[..., 1] ** 2)


def dot(a, b):
    return a[..., 0] * b[..., 0] + a[..., 1] * b[..., 1]


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def vec(line):
    return line[:, 1] - line[:, 0]


def mid(line):
    return 0.5 * (line[:, 0] + line[:, 1])


def P(part):
    return part[:, 0]


def always(parts):
    return np.ones(len(parts[0]), dtype=bool)


def line_ok(*idx):
    def ok(parts):
        m = always(parts)
        for i in idx:
            m &= norm(vec(parts[i])) > 1e-9
        return m

    return ok


def angle(l0, l1):
    return np.arctan2(cross(vec(l0), vec(l1)), dot(vec(l0), vec(l1)))


def angle_ok(parts):
    m = line_ok(0, 1)(parts)
    c, d = cross(vec(parts[0]), vec(parts[1])), dot(vec(parts[0]), vec(parts[1]))
    # The range is the open interval (-pi, pi): anti-parallel lines have no angle
    return m & ~((abs(c) < 1e-9) & (d < 0))


def along(p, l, reverse):
    u = vec(l) / norm(vec(l))[:, None]
    return dot(p - l[:, 1], -u) if reverse else dot(p - l[:, 0], u)


def across(p, l, reverse):
    u = vec(l) / norm(vec(l))[:, None]
    n = np.stack([-u[:, 1], u[:, 0]], axis=-1)
    return dot(p - l[:, 0], -n if reverse else n)


def safe(f):
    def g(*a):
        with np.errstate(all="ignore"):
            return f(*a)

    return g


## Boxes: left, bottom, right, top of a rectangle given by its four vertices


def box4(q):
    return q[:, 0, 0], q[:, 0, 1], q[:, 2, 0], q[:, 2, 1]


def side_of(q, side):
    """Side of a quadrilateral with documented orientation (start, end)"""
    i = {"bottom": 0, "right": 1, "top": 2, "left": 3}[side]
    return np.stack([q[:, i], q[:, (i + 1) % 4]], axis=1)


OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}
SIDES = ("bottom", "top", "left", "right")


def outer_margin(a, b, side):
    al, ab, ar, at = box4(a)
    bl, bb, br, bt = box4(b)
    return {"left": al - br, "right": bl - ar, "bottom": ab - bt, "top": bb - at}[side]


def inner_margin(a, b, side):
    al, ab, ar, at = box4(a)
    bl, bb, br, bt = box4(b)
    return {"left": al - bl, "right": br - ar, "bottom": ab - bb, "top": bt - at}[side]


def collinear_dev(l0, l1):
    """Perpendicular offsets of the second line's points from the first line"""
    return col(cross(vec(l0), l1[:, 0] - l0[:, 0]), cross(vec(l0), l1[:, 1] - l0[:, 0]))


def coincident_reversed(l0, l1):
    d0, d1 = l0[:, 0] - l1[:, 1], l0[:, 1] - l1[:, 0]
    return np.concatenate([d0, d1], axis=-1)


DIRS = [
    np.array(d, dtype=float)
    for d in ((1, 0), (0, 1), (-1, 0), (0, -1), (0.6, 0.8), (-0.8, 0.6))
]


# Parameters (or values) that are not lengths
RELATIVE = ("RelativeLength", "Angle", "RelativePointOnLineDistance", "AspectRatio", "PositionXAxisLabel", "PositionYAxisLabel", "PositionAxisLabel")


class Entry:
    def __init__(self, name, make, kinds, params, fn, ok=always):
        self.name = name
        self.make = make
        self.kinds = kinds
        self.params = params
        self.fn = safe(fn)
        self.ok = ok

    @property
    def nparam(self):
        return len(self.params[0])

    def scaled(self, params, s):
        """Parameters for a figure in which every length is `s` times as large"""
        if self.name.startswith(RELATIVE):
            return params
        if self.name.startswith("Grid"):
            cw, rh, cm, rm = params
            return (cw, rh, [s * m for m in cm], [s * m for m in rm])
        out = list(params)
        for i, p in enumerate(out):
            direction = "Directed" in self.name and i == 0
            if not (p is None or isinstance(p, (bool, np.bool_)) or direction):
                out[i] = s * p
        return tuple(out)

    @property
    def order(self):
        """Power of the length in the value of a construction"""
        return 0 if self.name.startswith(("UnitLineVector", *RELATIVE)) else 1


def constructions():
    E = Entry
    none = [()]
    rev = [(False,), (True,)]
    out = [
        E("Coordinate", cn.Coordinate, ("P",), none, lambda p, a: P(p[0])),
        E(
            "DirectedDistance", cn.DirectedDistance, ("P", "P"), [(d,) for d in DIRS],
            lambda p, a: col(dot(P(p[1]) - P(p[0]), a[0])),
        ),
        E("XDistance", cn.XDistance, ("P", "P"), none,
          lambda p, a: col((P(p[1]) - P(p[0]))[:, 0])),
        E("YDistance", cn.YDistance, ("P", "P"), none,
          lambda p, a: col((P(p[1]) - P(p[0]))[:, 1])),
        E("LineVector", cn.LineVector, ("L",), none, lambda p, a: vec(p[0])),
        E("UnitLineVector", cn.UnitLineVector, ("L",), none,
          lambda p, a: vec(p[0]) / norm(vec(p[0]))[:, None], line_ok(0)),
        E("Length", cn.Length, ("L",), none, lambda p, a: col(norm(vec(p[0])))),
        E("DirectedLength", cn.DirectedLength, ("L",), [(d,) for d in DIRS],
          lambda p, a: col(dot(vec(p[0]), a[0]))),
        E("XLength", cn.XLength, ("L",), none, lambda p, a: col(vec(p[0])[:, 0])),
        E("YLength", cn.YLength, ("L",), none, lambda p, a: col(vec(p[0])[:, 1])),
        E("Midpoint", cn.Midpoint, ("L",), none, lambda p, a: mid(p[0])),
        E("MidpointDirectedDistance", cn.MidpointDirectedDistance, ("L", "L"),
          [(d,) for d in DIRS],
          lambda p, a: col(dot(mid(p[1]) - mid(p[0]), a[0]))),
        E("MidpointXDistance", cn.MidpointXDistance, ("L", "L"), none,
          lambda p, a: col((mid(p[1]) - mid(p[0]))[:, 0])),
        E("MidpointYDistance", cn.MidpointYDistance, ("L", "L"), none,
          lambda p, a: col((mid(p[1]) - mid(p[0]))[:, 1])),
        E("Angle", cn.Angle, ("L", "L"), none,
          lambda p, a: col(angle(p[0], p[1])), angle_ok),
        E("PointOnLineDistance", cn.PointOnLineDistance, ("P", "L"), rev,
          lambda p, a: col(along(P(p[0]), p[1], a[0])), line_ok(1)),
        E("PointToLineDistance", cn.PointToLineDistance, ("P", "L"), rev,
          lambda p, a: col(across(P(p[0]), p[1], a[0])), line_ok(1)),
        E("RelativePointOnLineDistance", cn.RelativePointOnLineDistance, ("P", "L"), rev,
          lambda p, a: col(along(P(p[0]), p[1], a[0]) / norm(vec(p[1]))), line_ok(1)),
    ]
    return out


def quad_constructions():
    """Only defined here over rectangles"""
    E = Entry
    none = [()]
    out = [
        E("Width", cn.Width, ("Q",), none,
          lambda p, a: col(box4(p[0])[2] - box4(p[0])[0])),
        E("Height", cn.Height, ("Q",), none,
          lambda p, a: col(box4(p[0])[3] - box4(p[0])[1])),
        E("RectangleDim(width)", lambda: cn.RectangleDim(dim="width"), ("Q",), none,
          lambda p, a: col(box4(p[0])[2] - box4(p[0])[0])),
        E("RectangleDim(height)", lambda: cn.RectangleDim(dim="height"), ("Q",), none,
          lambda p, a: col(box4(p[0])[3] - box4(p[0])[1])),
        E("AspectRatio", cn.AspectRatio, ("Q",), none,
          lambda p, a: col(abs(box4(p[0])[2] - box4(p[0])[0])
                           / abs(box4(p[0])[3] - box4(p[0])[1])),
          lambda p: abs(box4(p[0])[3] - box4(p[0])[1]) > 1e-9),
    ]
    for side in SIDES:
        for name, cls, f in (
            ("OuterMargin", cn.OuterMargin, outer_margin),
            ("InnerMargin", cn.InnerMargin, inner_margin),
        ):
            out.append(
                E(f"{name}({side})", lambda cls=cls, side=side: cls(side=side),
                  ("Q", "Q"), none,
                  lambda p, a, f=f, side=side: col(f(p[0], p[1], side)))
            )
            out.append(
                E(f"Margin({name},{side})",
                  lambda name=name, side=side: cn.Margin(
                      outer=(name == "OuterMargin"), side=side),
                  ("Q", "Q"), none,
                  lambda p, a, f=f, side=side: col(f(p[0], p[1], side)))
            )
    return out


def line_constraints():
    E = Entry
    none = [()]
    A = np.array
    lens = (0.0, 1.0, 2.0, S2, S5, 0.75)
    signed = (0.0, 1.0, -1.0, 2.0, -0.75, 1.5)
    rel = (1.0, 2.0, 0.5, S2)
    angs = (0.0, PI / 2, -PI / 2, PI / 4, -PI / 4, 3 * PI / 4, -3 * PI / 4)
    revv = [(r, v) for r in (False, True) for v in (0.0, 1.0, -1.0, 0.75, 2.0, S2 / 2)]
    revf = [(r, v) for r in (False, True) for v in (0.0, 1.0, 0.5, -0.5, 2.0)]
    return [
        E("Fix", cr.Fix, ("P",),
          [(A([0.0, 0.0]),), (A([1.0, -1.0]),), (A([-0.5, 1.75]),), (A([2, 1]),)],
          lambda p, a: P(p[0]) - a[0]),
        E("DirectedDistance", cr.DirectedDistance, ("P", "P"),
          [(d, v) for d in DIRS for v in (0.0, 1.0, -1.0, 1.4)],
          lambda p, a: col(dot(P(p[1]) - P(p[0]), a[0]) - a[1])),
        E("XDistance", cr.XDistance, ("P", "P"), [(v,) for v in signed],
          lambda p, a: col((P(p[1]) - P(p[0]))[:, 0] - a[0])),
        E("YDistance", cr.YDistance, ("P", "P"), [(v,) for v in signed],
          lambda p, a: col((P(p[1]) - P(p[0]))[:, 1] - a[0])),
        E("Coincident", cr.Coincident, ("P", "P"), none,
          lambda p, a: P(p[1]) - P(p[0])),
        E("Length", cr.Length, ("L",), [(v,) for v in lens],
          lambda p, a: col(norm(vec(p[0])) - a[0])),
        E("DirectedLength", cr.DirectedLength, ("L",),
          [(d, v) for d in DIRS for v in (0.0, 1.0, -1.0, 1.4)],
          lambda p, a: col(dot(vec(p[0]), a[0]) - a[1])),
        E("XLength", cr.XLength, ("L",), [(v,) for v in signed],
          lambda p, a: col(vec(p[0])[:, 0] - a[0])),
        E("YLength", cr.YLength, ("L",), [(v,) for v in signed],
          lambda p, a: col(vec(p[0])[:, 1] - a[0])),
        E("Vertical", cr.Vertical, ("L",), none, lambda p, a: col(vec(p[0])[:, 0])),
        E("Horizontal", cr.Horizontal, ("L",), none, lambda p, a: col(vec(p[0])[:, 1])),
        E("RelativeLength", cr.RelativeLength, ("L", "L"), [(v,) for v in rel],
          lambda p, a: col(norm(vec(p[0])) - a[0] * norm(vec(p[1])))),
        E("MidpointXDistance", cr.MidpointXDistance, ("L", "L"), [(v,) for v in signed],
          lambda p, a: col((mid(p[1]) - mid(p[0]))[:, 0] - a[0])),
        E("MidpointYDistance", cr.MidpointYDistance, ("L", "L"), [(v,) for v in signed],
          lambda p, a: col((mid(p[1]) - mid(p[0]))[:, 1] - a[0])),
        E("Orthogonal", cr.Orthogonal, ("L", "L"), none,
          lambda p, a: col(dot(vec(p[0]), vec(p[1])))),
        E("Parallel", cr.Parallel, ("L", "L"), none,
          lambda p, a: col(cross(vec(p[0]), vec(p[1])))),
        E("Angle", cr.Angle, ("L", "L"), [(v,) for v in angs],
          # Anti-parallel lines (with an angle of pi or -pi) satisfy none of the parameters
          lambda p, a: col(angle(p[0], p[1]) - a[0]), line_ok(0, 1)),
        E("Collinear", cr.Collinear, ("L", "L"), none,
          lambda p, a: collinear_dev(p[0], p[1]), line_ok(0)),
        E("CoincidentLines", cr.CoincidentLines, ("L", "L"), [(False,), (True,)],
          lambda p, a: coincident_reversed(p[0], p[1]) if a[0]
          else (p[0] - p[1]).reshape(-1, 4)),
        E("PointOnLineDistance", cr.PointOnLineDistance, ("P", "L"), revv,
          lambda p, a: col(along(P(p[0]), p[1], a[0]) - a[1]), line_ok(1)),
        E("PointToLineDistance", cr.PointToLineDistance, ("P", "L"), revv,
          lambda p, a: col(across(P(p[0]), p[1], a[0]) - a[1]), line_ok(1)),
        E("RelativePointOnLineDistance", cr.RelativePointOnLineDistance, ("P", "L"), revf,
          lambda p, a: col(along(P(p[0]), p[1], a[0]) / norm(vec(p[1])) - a[1]),
          line_ok(1)),
    ]


def box_dev(q):
    return col(
        q[:, 0, 1] - q[:, 1, 1], q[:, 2, 1] - q[:, 3, 1],
        q[:, 0, 0] - q[:, 3, 0], q[:, 1, 0] - q[:, 2, 0],
    )


def quad_constraints():
    """Everything but Box is only defined here over rectangles"""
    E = Entry
    none = [()]
    dims = (1.0, 2.0, 3.0, 0.5, -1.0)
    out = [
        E("Box", cr.Box, ("Q",), none, lambda p, a: box_dev(p[0])),
        E("Width", cr.Width, ("Q",), [(v,) for v in dims],
          lambda p, a: col(box4(p[0])[2] - box4(p[0])[0] - a[0])),
        E("Height", cr.Height, ("Q",), [(v,) for v in dims],
          lambda p, a: col(box4(p[0])[3] - box4(p[0])[1] - a[0])),
        E("AspectRatio", cr.AspectRatio, ("Q",), [(v,) for v in (1.0, 2.0, 0.5, 1.5)],
          lambda p, a: col(abs(box4(p[0])[2] - box4(p[0])[0])
                           / abs(box4(p[0])[3] - box4(p[0])[1]) - a[0]),
          lambda p: abs(box4(p[0])[3] - box4(p[0])[1]) > 1e-9),
        E("Align(row)", lambda: cr.Align(row=True), ("Q", "Q"), none, _align(True), _sides_ok(True)),
        E("Align(column)", lambda: cr.Align(row=False), ("Q", "Q"), none, _align(False), _sides_ok(False)),
        E("AlignRow", cr.AlignRow, ("Q", "Q"), none, _align(True), _sides_ok(True)),
        E("AlignColumn", cr.AlignColumn, ("Q", "Q"), none, _align(False), _sides_ok(False)),
    ]
    for side in SIDES:
        for name, cls, f in (
            ("OuterMargin", cr.OuterMargin, outer_margin),
            ("InnerMargin", cr.InnerMargin, inner_margin),
        ):
            out.append(
                E(f"{name}({side})", lambda cls=cls, side=side: cls(side=side),
                  ("Q", "Q"), [(v,) for v in (0.0, 1.0, -1.0, 0.5, -2.0)],
                  lambda p, a, f=f, side=side: col(f(p[0], p[1], side) - a[0]))
            )
        out.append(
            E(f"CoincidentOutwardFaces({side})",
              lambda side=side: cr.CoincidentOutwardFaces(side=side),
              ("Q", "Q"), none,
              lambda p, a, side=side: coincident_reversed(
                  side_of(p[0], side), side_of(p[1], OPP[side])))
        )
    return out


def _sides_ok(row):
    # A zero-length side has no direction to be collinear with
    def ok(parts):
        sides = ("bottom", "top") if row else ("left", "right")
        return np.all([norm(vec(side_of(parts[0], s))) > 1e-9 for s in sides], axis=0)

    return ok


def _align(row):
    def dev(p, a):
        s0, s1 = ("bottom", "top") if row else ("left", "right")
        return np.concatenate(
            [collinear_dev(side_of(p[0], s), side_of(p[1], s)) for s in (s0, s1)], axis=-1
        )

    return dev
